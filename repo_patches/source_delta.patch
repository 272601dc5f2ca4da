From 2183add33f5c4c5d66898d98da8451e177fcd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 01/71] fix: keep shadow and mmap ownership when moving a
 Tensor

---
 src/util/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..bd11560 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -73,8 +73,14 @@ Tensor::Tensor ( Tensor && tensor ) {
   width_ = tensor.width_;
   height_ = tensor.height_;
   elements_ = tensor.elements_;
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
 
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From b7bd474e1d5356f75851a1e3061464dccbf5493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 02/71] fix: release a Tensor's previous memory map before
 deserializing into it again

---
 src/util/Tensor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index bd11560..2e30756 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -288,6 +288,10 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
 #ifdef BUILD_POSIX
+  // Memory maps are read-only, so they cannot be reused as a target
+  if(mmapped_)
+    DeleteIfPossible();
+
   if(!try_mmap || fd == 0)
 #endif
     Resize ( samples, width, height, maps );
@@ -310,6 +314,8 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Unmap or delete the previous contents before the new mapping is recorded
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
@@ -403,7 +409,9 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        // The mapping starts at a page boundary before the data
+        munmap((void*)original_mmap_, ((elements_ * sizeof(datum)) / sizeof(char))
+               + ((char*)data_ptr_ - (char*)original_mmap_));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From 597456ab8968ece6a394a0c3d99045de7a703602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 03/71] fix: release a CompressedTensor's previous memory map
 before deserializing into it again

---
 src/util/CompressedTensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..7d23085 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -156,6 +156,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Unmap or delete the previous contents before the new mapping is recorded
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
@@ -173,7 +175,8 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      // The mapping starts at a page boundary before the data
+      munmap((void*)original_mmap_, compressed_length_ + (compressed_data_ptr_ - (char*)original_mmap_));
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
-- 
2.43.0


From d11245510ccb00bfd49ed80f5cc31f35eba727dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 04/71] fix: check the target sample index in
 CompressedTensorStream::CopySample

---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..762ee49 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -69,7 +69,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && target_sample < target.samples() && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From 947947be2853a4f6252179e5335f3aa9f95ad39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 05/71] fix: compare whole file name extensions in
 Tensor::LoadFromFile and WriteToFile

---
 src/util/Tensor.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 2e30756..2943850 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -34,6 +34,12 @@
 
 namespace Conv {
 
+static bool HasExtension ( const std::string& filename, const std::string& extension ) {
+  return filename.length() >= extension.length() &&
+         filename.compare ( filename.length() - extension.length(),
+                            extension.length(), extension ) == 0;
+}
+
 Tensor::Tensor() {
 
 }
@@ -597,9 +603,7 @@ std::size_t Tensor::PixelMaximum ( std::size_t x, std::size_t y, std::size_t sam
 void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
-     ) {
+  if ( HasExtension ( filename, "png" ) || HasExtension ( filename, "PNG" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -612,18 +616,15 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
-     ) {
+  if ( HasExtension ( filename, "jpg" ) || HasExtension ( filename, "jpeg" )
+       || HasExtension ( filename, "JPG" ) || HasExtension ( filename, "JPEG" ) ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
   }
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -639,9 +640,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_PNG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "png" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "PNG" ) == 0 )
-     ) {
+  if ( HasExtension ( filename, "png" ) || HasExtension ( filename, "PNG" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
@@ -655,18 +654,15 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #endif
 #ifdef BUILD_JPG
 
-  if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
-     ) {
+  if ( HasExtension ( filename, "jpg" ) || HasExtension ( filename, "jpeg" )
+       || HasExtension ( filename, "JPG" ) || HasExtension ( filename, "JPEG" ) ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
   }
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( HasExtension ( filename, "Tensor" ) ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From 468ae0febed33a4a84e1036b183534efabec8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 06/71] fix: report images that could not be loaded or written
 by Tensor::LoadFromFile and WriteToFile

---
 src/util/Tensor.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 2943850..f764779 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -609,7 +609,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
     if ( !input_image_file.good() )
       FATAL ( "Cannot load " << filename );
 
-    Conv::PNGUtil::LoadFromStream ( input_image_file, *this );
+    if ( !Conv::PNGUtil::LoadFromStream ( input_image_file, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -618,7 +620,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
   if ( HasExtension ( filename, "jpg" ) || HasExtension ( filename, "jpeg" )
        || HasExtension ( filename, "JPG" ) || HasExtension ( filename, "JPEG" ) ) {
-    Conv::JPGUtil::LoadFromFile ( filename, *this );
+    if ( !Conv::JPGUtil::LoadFromFile ( filename, *this ) )
+      FATAL ( "Cannot load " << filename );
+
     return;
   }
 
@@ -647,7 +651,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     // Write png
-    Conv::PNGUtil::WriteToStream ( output_image_file, *this );
+    if ( !Conv::PNGUtil::WriteToStream ( output_image_file, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
@@ -656,7 +662,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
   if ( HasExtension ( filename, "jpg" ) || HasExtension ( filename, "jpeg" )
        || HasExtension ( filename, "JPG" ) || HasExtension ( filename, "JPEG" ) ) {
-    Conv::JPGUtil::WriteToFile ( filename, *this );
+    if ( !Conv::JPGUtil::WriteToFile ( filename, *this ) )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
-- 
2.43.0


From 713e1f570db61a7ff155c441ecb85c6485f445e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 07/71] fix: refuse to write tensors without three channels as
 JPG

---
 src/util/JPGUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..477918e 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -79,6 +79,11 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if ( tensor.maps() != 3 ) {
+    LOGERROR << "Cannot write JPGs with channels != 3";
+    return false;
+  }
+
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
-- 
2.43.0


From 5aa483a6de3a693e50cdcb8b468523edfb085648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 08/71] fix: check the column against the image width in
 TensorMath::COL2IM

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From a23e5f9cec9f82a8a253f6ec2205c767a865e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 09/71] fix: iterate over the whole width in
 LocalResponseNormalizationLayer

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From 9cbac03e43992a9bd70e847cee492cadd4884827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 10/71] fix: validate kernel size, stride and group count in
 ConvolutionLayer

---
 src/net/ConvolutionLayer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..9a3442a 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -92,7 +92,18 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
-  // TODO Validation like in large constructor
+  // Validation like in large constructor
+  if (kernel_width_ == 0 || kernel_height_ == 0) {
+    FATAL ("Kernels cannot have zero dimensions");
+  }
+  
+  if(stride_width_ == 0 || stride_height_ == 0) {
+    FATAL("Stride needs to be at least 1!");
+  }
+  
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count");
+  }
   
   SetLocalLearningRate(local_lr);
 }
-- 
2.43.0


From 8a2c07d103e8215d2bea2c032b1941d14c32b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 11/71] fix: refuse inputs smaller than the region and zero
 sizes in AdvancedMaxPoolingLayer

---
 src/net/AdvancedMaxPoolingLayer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..40bd740 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,18 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0 ||
+      stride_width_ == 0 || stride_height_ == 0) {
+    LOGERROR << "Region and stride cannot have zero dimensions!";
+    return false;
+  }
+
+  if (input->data.width() < region_width_ || input->data.height() < region_height_) {
+    LOGERROR << "Input dimensions smaller than region dimensions!";
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
-- 
2.43.0


From b1a7fda3c0abcb7777b4719e8e278bfc28264329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 12/71] fix: refuse zero-sized regions in MaxPoolingLayer and
 InputDownSamplingLayer

---
 src/net/InputDownSamplingLayer.cpp | 5 +++++
 src/net/MaxPoolingLayer.cpp        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..a505ce8 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,6 +39,11 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0) {
+    LOGERROR << "Region cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..c7bbf6b 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,6 +52,11 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0) {
+    LOGERROR << "Region cannot have zero dimensions!";
+    return false;
+  }
+
   if ( (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
-- 
2.43.0


From e52de7882d87aeb91146bc9ce53b932a9ac69712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 13/71] fix: refuse inputs of different size in SumLayer and
 ConcatenationLayer

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
@@ -87,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From 75d11bc52d3b7f13d723e2457de7d0d5ea71b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 14/71] fix: check for a null pointer input in
 GradientAccumulationLayer::CreateOutputs

---
 src/net/GradientAccumulationLayer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..34a6cf5 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -34,6 +34,12 @@ bool GradientAccumulationLayer::CreateOutputs (const std::vector< CombinedTensor
   }
   
   CombinedTensor* input = inputs[0];
+  
+  if(input == nullptr) {
+    LOGERROR << "Null pointer supplied";
+    return false;
+  }
+  
   for(unsigned int i = 0; i < output_count_; i++) {
     CombinedTensor* output = new CombinedTensor(input->data.samples(),
                                                 input->data.width(),
-- 
2.43.0


From 3de4b99863ef387e0804cb900328d7a9a0205ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 15/71] fix: refuse inputs of mismatching shape in ErrorLayer,
 ConfusionMatrixLayer and BinaryStatLayer

---
 src/net/BinaryStatLayer.cpp      |  6 ++++++
 src/net/ConfusionMatrixLayer.cpp | 15 +++++++++++++++
 src/net/ErrorLayer.cpp           | 10 ++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..ad1d792 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -199,6 +199,12 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
+  // Every element needs its own weight
+  if ( first->data.elements() != third->data.elements() ) {
+    LOGERROR << "Inputs need the same number of elements!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..a6be4fb 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -145,6 +145,21 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  // The inputs are compared pixel by pixel, so their shapes need to match
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.maps() != second->data.maps() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same dimensions!";
+    return false;
+  }
+
+  if ( first->data.maps() > classes_ ) {
+    LOGERROR << "Inputs have more maps than there are classes!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index cbd0450..fd24706 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -55,6 +55,16 @@ bool ErrorLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inputs,
     return false;
   }
 
+  // The inputs are compared pixel by pixel, so their shapes need to match
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.maps() != second->data.maps() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same dimensions!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
-- 
2.43.0


From f5496eaae6261f6f6aad8148b34a3fbfe6e72b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 16/71] fix: allow ConfusionMatrixLayer to be reset before it
 is connected

---
 src/net/ConfusionMatrixLayer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index a6be4fb..0cd867a 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -224,6 +224,13 @@ void ConfusionMatrixLayer::BackPropagate() {
 
 
 void ConfusionMatrixLayer::Reset() {
+  total_ = 0;
+  right_ = 0;
+
+  // There is no matrix before the layer is connected
+  if ( matrix_ == nullptr || per_class_ == nullptr )
+    return;
+
   for ( unsigned int c = 0; c < ( classes_ * classes_ ); c++ ) {
     matrix_[c] = 0;
   }
@@ -231,9 +238,6 @@ void ConfusionMatrixLayer::Reset() {
   for ( unsigned int c = 0; c < classes_; c++ ) {
     per_class_[c] = 0;
   }
-
-  total_ = 0;
-  right_ = 0;
 }
 
 void ConfusionMatrixLayer::Print ( std::string prefix, bool training ) {
-- 
2.43.0


From 92438fb0d16a28d4497d7935fb7a2354177dd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 17/71] fix: handle zero precision and recall in
 BinaryStatLayer

---
 src/net/BinaryStatLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index ad1d792..a043a5c 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -116,7 +116,7 @@ void BinaryStatLayer::UpdateAll() {
       recall = ( true_positives_[t] ) /
                ( true_positives_[t] + false_negatives_[t] );
 
-    if ( precision >= 0 && recall >= 0 ) {
+    if ( precision >= 0 && recall >= 0 && precision + recall > 0 ) {
       f1 = 2 * precision * recall / ( precision + recall );
     }
 
@@ -149,7 +149,7 @@ void BinaryStatLayer::UpdateAll() {
     fnr = ( false_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
-  if ( precision >= 0 && recall >= 0 )
+  if ( precision >= 0 && recall >= 0 && precision + recall > 0 )
     f1 = 2 * precision * recall / ( precision + recall );
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
-- 
2.43.0


From 38942ce56baa6476ac0bc485e509b1d195c81833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 18/71] fix: apply the output error to the weight gradients in
 HMaxActivationFunction

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From de0c7b62377e089730f888fa31ef2a68730ea11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 19/71] fix: do not write to a log file that could not be
 opened in CSVStatSink

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From 8c8d9b0cb1ea80df90a5047517d339a69afe2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 20/71] fix: find the highest scoring class for negative scores
 in Dataset::Colorize

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From c704e904bf74784b609fc6e087b514f29d96772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 21/71] fix: address testing images in
 TensorStreamPatchDataset::GetTestingSample

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From 4c4326871db8b22877745b3973e829971dc65a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 22/71] fix: map the testing file in
 TensorStreamPatchDataset::CreateFromConfiguration

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From b16e409a6baf7651b68c90c2c8571da1230ef764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 23/71] fix: count no patches for images smaller than a patch
 in TensorStreamPatchDataset

---
 src/util/TensorStreamPatchDataset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 155cac0..7262b05 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -122,8 +122,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
 		data_[t].Deserialize(training_stream, false, true, training_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch contain no patches
+		unsigned int inner_width = data_[t].width() < patchsize_x_ ? 0 : data_[t].width() - (patchsize_x_ - 1);
+		unsigned int inner_height = data_[t].height() < patchsize_y_ ? 0 : data_[t].height() - (patchsize_y_ - 1);
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
@@ -140,8 +141,9 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
 		data_[t].Deserialize(testing_stream, false, true, testing_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		// Images smaller than a patch contain no patches
+		unsigned int inner_width = data_[t].width() < patchsize_x_ ? 0 : data_[t].width() - (patchsize_x_ - 1);
+		unsigned int inner_height = data_[t].height() < patchsize_y_ ? 0 : data_[t].height() - (patchsize_y_ - 1);
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
-- 
2.43.0


From 150678f2673418cf4936d0fc0ed98fade83a90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 24/71] fix: include all testing images in the dimensions of
 TensorStreamDataset

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..13dfe83 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -88,11 +88,11 @@ TensorStreamDataset::TensorStreamDataset (
   }
 
   for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
-    if(testing_stream_->GetWidth(2*t) > max_width_)
-      max_width_ = testing_stream_->GetWidth(2*t);
+    if(testing_stream_->GetWidth(2*(t - tensor_count_training_ / 2)) > max_width_)
+      max_width_ = testing_stream_->GetWidth(2*(t - tensor_count_training_ / 2));
     
-    if(testing_stream_->GetHeight(2*t) > max_height_)
-      max_height_ = testing_stream_->GetHeight(2*t);
+    if(testing_stream_->GetHeight(2*(t - tensor_count_training_ / 2)) > max_height_)
+      max_height_ = testing_stream_->GetHeight(2*(t - tensor_count_training_ / 2));
   }
 
   if (max_width_ & 1)
-- 
2.43.0


From 7701e296e4520e59322a7b36d824710747b275db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 25/71] fix: avoid a division by zero in TensorStreamDataset's
 helper data for images of width or height 1

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 13dfe83..6acc2dc 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From 059898e66813ce5c68735111ce0d991a4609d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 26/71] fix: pad the helper tensor to the image width in
 classifyImage

---
 tools/classifyImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..c7be727 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From 6a2dc5ed7e62ed3a1b5d9db3a7d0dc500be75228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 27/71] fix: avoid a division by zero in classifyImage for
 images of width or height 1

---
 tools/classifyImage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index c7be727..6e2d58c 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -92,8 +92,8 @@ int main (int argc, char* argv[]) {
   // Write spatial prior data to helper tensor
   for (unsigned int y = 0; y < original_height; y++) {
     for (unsigned int x = 0; x < original_width; x++) {
-      *helper_tensor.data_ptr(x, y, 0, 0) = ((Conv::datum)x) / ((Conv::datum)original_width - 1);
-      *helper_tensor.data_ptr(x, y, 1, 0) = ((Conv::datum)y) / ((Conv::datum)original_height - 1);
+      *helper_tensor.data_ptr(x, y, 0, 0) = original_width > 1 ? ((Conv::datum)x) / ((Conv::datum)original_width - 1) : 0;
+      *helper_tensor.data_ptr(x, y, 1, 0) = original_height > 1 ? ((Conv::datum)y) / ((Conv::datum)original_height - 1) : 0;
     }
     for (unsigned int x = original_width; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
-- 
2.43.0


From 2286fc8040e5b1612f9c73fe649b8e3e608fef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 28/71] fix: return the result of copying in
 ListTensorStream::CopySample

---
 src/util/ListTensorStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..cc80b56 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,14 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 912e5db4add94618c87b5cca852e31d5ae294f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 29/71] fix: use the dimensions of the matrix before
 transposing in the reference GEMV, as BLAS does

---
 src/math/TensorMath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..731a409 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -135,10 +135,14 @@ void TensorMath::GEMV(const bool is_row_major, const bool transpose_A, const int
   const datum* x_ptr = X.data_ptr_const(0, 0, 0, smX);
   datum* y_ptr = Y.data_ptr(0, 0, 0, smY);
   
+  // As in BLAS, M and N are the dimensions of A before transposing
+  const int y_length = transpose_A ? N : M;
+  const int x_length = transpose_A ? M : N;
+  
   #pragma omp parallel for default(shared)
-  for(int i = 0; i < M; i++) {
+  for(int i = 0; i < y_length; i++) {
     datum sum = 0.0;
-    for(int j = 0; j < N; j++) {
+    for(int j = 0; j < x_length; j++) {
       const datum a_value = transpose_A ?
         a_ptr[j * ldA + i]
       :
-- 
2.43.0


From 6d6dcf9c00c76d0e264ce32b2d2f817a58dbfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 30/71] fix: refuse zero-sized regions in UpscaleLayer

---
 src/net/UpscaleLayer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/UpscaleLayer.cpp b/src/net/UpscaleLayer.cpp
index 259dd57..0574855 100644
--- a/src/net/UpscaleLayer.cpp
+++ b/src/net/UpscaleLayer.cpp
@@ -38,6 +38,12 @@ bool UpscaleLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if ( region_width_ == 0 || region_height_ == 0 ) {
+    LOGERROR << "Region cannot have zero dimensions!";
+    return false;
+  }
+
   // Create output
   CombinedTensor* output = new CombinedTensor ( input->data.samples(),
       input->data.width() * region_width_, input->data.height() * region_height_,
-- 
2.43.0


From c745638d3741573d0d0a56113285ebb8709cc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 31/71] fix: accumulate gradients per output buffer in
 NetGraph::Initialize

---
 src/net/NetGraph.cpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..4bd5d05 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -7,6 +7,7 @@
 
 #include <sstream>
 #include <algorithm>
+#include <map>
 
 #include "Log.h"
 #include "LossFunctionLayer.h"
@@ -211,35 +212,45 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
+      // Only connections to the same buffer need to be accumulated
+      std::map<unsigned int, unsigned int> connection_counts;
+      for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections)
+        connection_counts[backprop_connection.buffer]++;
+
+      for(std::pair<const unsigned int, unsigned int>& connection_count : connection_counts) {
+        if(connection_count.second < 2)
+          continue;
+
+        const unsigned int buffer = connection_count.first;
         no_multiple_connections = false;
         LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
         
         // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
+        GradientAccumulationLayer* ga = new GradientAccumulationLayer(connection_count.second);
+        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
         AddNode(ga_node);
         
         // Redirect input connections using backprop connections
         int b = 0;
+        std::vector<NetGraphBackpropConnection> remaining_connections;
         for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
-            for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
-              if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
-                target_connection.node = ga_node;
-                backprop_connection.buffer = b;
-                target_connection.buffer = b++;
-              }
+          if(backprop_connection.node == ga_node || backprop_connection.buffer != buffer) {
+            remaining_connections.push_back(backprop_connection);
+            continue;
+          }
+          for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
+            if(target_connection.node == node && target_connection.buffer == buffer && target_connection.backprop) {
+              target_connection.node = ga_node;
+              target_connection.buffer = b;
+              ga_node->backprop_connections.push_back(NetGraphBackpropConnection(backprop_connection.node, b));
+              b++;
+              break;
             }
-            ga_node->backprop_connections.push_back(backprop_connection);
           }
         }
         
-        // Remove backprop connections from node
-        auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
-        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
-        predicate), node->backprop_connections.end());
+        // Remove redirected backprop connections from node
+        node->backprop_connections = remaining_connections;
       }
     }
   } while(!no_multiple_connections);
-- 
2.43.0


From 825cd0fb0e1df88229a64f5f9b860e24dc61775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 32/71] fix: refuse inputs of different dimensions in
 BinaryStatLayer

---
 src/net/BinaryStatLayer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index a043a5c..7fc6bc1 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -199,6 +199,16 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
+  // The inputs are compared element by element, so their shapes need to match
+  if ( first->data.width() != second->data.width() ||
+       first->data.height() != second->data.height() ||
+       first->data.maps() != second->data.maps() ||
+       first->data.width() != third->data.width() ||
+       first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same dimensions!";
+    return false;
+  }
+
   // Every element needs its own weight
   if ( first->data.elements() != third->data.elements() ) {
     LOGERROR << "Inputs need the same number of elements!";
-- 
2.43.0


From 59364aeb4e43aa3ddaf16700b4cacdcfc0392708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 33/71] fix: avoid integer overflow for huge kernels in
 ConvolutionLayer::CreateOutputs

---
 src/net/ConvolutionLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 9a3442a..84c5599 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -132,8 +132,8 @@ bool ConvolutionLayer::CreateOutputs (
   // For MNIST recognition, LeCun says that 'same' convolutions perform better
   // as a first layer. He adds a border around the training and test sets to
   // achieve the same thing without changing the code.
-  const int output_width = ((int)pad_width_ + (int)pad_width_ + (int)input->data.width() - (int)kernel_width_) / (int)stride_width_ + 1;
-  const int output_height = ((int)pad_height_ + (int)pad_height_ + (int)input->data.height() - (int)kernel_height_) / (int)stride_height_ + 1;
+  const long long output_width = ((long long)pad_width_ + (long long)pad_width_ + (long long)input->data.width() - (long long)kernel_width_) / (long long)stride_width_ + 1;
+  const long long output_height = ((long long)pad_height_ + (long long)pad_height_ + (long long)input->data.height() - (long long)kernel_height_) / (long long)stride_height_ + 1;
   
   if (output_width <= 0 || output_height <= 0) {
     LOGERROR << "Unsupported input dimensions " << input->data;
-- 
2.43.0


From dac34a79aa4ac3662042f8f6a3c6272c321ba682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 34/71] fix: check the weight input for a null pointer in
 ErrorLayer, ConfusionMatrixLayer and BinaryStatLayer

---
 src/net/BinaryStatLayer.cpp      | 2 +-
 src/net/ConfusionMatrixLayer.cpp | 2 +-
 src/net/ErrorLayer.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 7fc6bc1..1191d61 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -230,7 +230,7 @@ bool BinaryStatLayer::Connect ( const std::vector< CombinedTensor* >& inputs, co
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 0cd867a..d776a04 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -178,7 +178,7 @@ bool ConfusionMatrixLayer::Connect
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.samples() == third->data.samples() &&
                outputs.size() == 0;
diff --git a/src/net/ErrorLayer.cpp b/src/net/ErrorLayer.cpp
index fd24706..fd33dd5 100644
--- a/src/net/ErrorLayer.cpp
+++ b/src/net/ErrorLayer.cpp
@@ -82,7 +82,7 @@ bool ErrorLayer::Connect ( const std::vector< CombinedTensor* >& inputs,
   CombinedTensor* first = inputs[0];
   CombinedTensor* second = inputs[1];
   CombinedTensor* third = inputs[2];
-  bool valid = first != nullptr && second != nullptr &&
+  bool valid = first != nullptr && second != nullptr && third != nullptr &&
                first->data.samples() == second->data.samples() &&
                first->data.elements() == second->data.elements() &&
                first->data.samples() == third->data.samples() &&
-- 
2.43.0


From 8e50d0637718b1782cda6e214a2090ab3ed62d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 35/71] fix: report missing and out-of-network connections in
 NetGraph instead of following them

---
 src/net/NetGraph.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 4bd5d05..85035fd 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -59,6 +59,10 @@ void NetGraph::AddNode(NetGraphNode* node) {
   
   // Add backprop connection where appropiate
   for(NetGraphConnection& connection : node->input_connections) {
+    // Missing nodes are reported by NetGraph::IsComplete()
+    if (connection.node == nullptr)
+      continue;
+
     if (connection.backprop && !connection.node->is_input) {
       NetGraphBackpropConnection backprop_connection(node, connection.buffer);
       connection.node->backprop_connections.push_back(backprop_connection);
@@ -86,8 +90,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
@@ -278,6 +283,9 @@ void NetGraph::InitializeNode(NetGraphNode* node) {
 
 		// Verify output buffer creation
 		if (!success_outputs) {
+			if (input_tensors.size() == 0 || input_tensors[0] == nullptr)
+				FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", no input0");
+
 			FATAL("Layer will not create outputs: " << node->layer->GetLayerDescription() << ", input0: " << input_tensors[0]->data);
     }
 
-- 
2.43.0


From 64bd53bd4173be89d51e71c230b674de72cf3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 36/71] fix: compare whole parameter names when parsing
 configurations

---
 src/util/ConfigParsing.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 0a7da31..19bb096 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -9,11 +9,23 @@
 #include "Log.h"
 
 #include "ConfigParsing.h"
+#include <cctype>
 #include <cstdlib>
 
 #include <sstream>
 
 namespace Conv {
+// Finds a parameter by its whole name, so that "size" is not found in "mysize=1"
+static std::size_t FindParameter ( const std::string& line, const std::string& identifier ) {
+  std::size_t pos = line.find ( identifier + "=" );
+
+  while ( pos != std::string::npos && pos > 0 &&
+          ( std::isalnum ( ( unsigned char ) line[pos - 1] ) || line[pos - 1] == '_' ) )
+    pos = line.find ( identifier + "=", pos + 1 );
+
+  return pos;
+}
+
 bool StartsWithIdentifier ( std::string line, std::string identifier ) {
   return ( line.compare ( 0, identifier.length(), identifier ) == 0 );
 }
@@ -55,7 +67,7 @@ void ParseStringIfPossible ( std::string line, std::string identifier, std::stri
 
 void ParseStringParamIfPossible(std::string line, std::string identifier, std::string& s) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -84,7 +96,7 @@ void ParseUIntIfPossible ( std::string line, std::string identifier, unsigned in
 
 void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsigned int& kx, unsigned int& ky ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -109,7 +121,7 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
 
 void ParseCountIfPossible ( std::string line, std::string identifier, unsigned int& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -126,7 +138,7 @@ void ParseCountIfPossible ( std::string line, std::string identifier, unsigned i
 
 void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParameter ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
-- 
2.43.0


From 58d1c2af3b713509901a75e4d8a4ab6035a5262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 37/71] fix: do not take the separator of a kernel size from
 another parameter

---
 src/util/ConfigParsing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 19bb096..ddd620e 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -103,10 +103,11 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
 
   std::size_t x_pos = line.find ( "x",size_pos );
 
-  if ( x_pos == std::string::npos )
-    return;
+  std::size_t end_pos = line.find ( " ", size_pos );
 
-  std::size_t end_pos = line.find ( " ", x_pos );
+  // The separator needs to be a part of this parameter
+  if ( x_pos == std::string::npos || x_pos > end_pos )
+    return;
 
   if ( end_pos != std::string::npos )
     line = line.substr ( 0, end_pos );
-- 
2.43.0


From e36c3e0822295426e4395ab126ef79183a4f6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 38/71] fix: replace exactly the seed parameter in
 LayerFactory::InjectSeed

---
 src/net/LayerFactory.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index fc7195b..c462344 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -101,8 +101,9 @@ Layer* LayerFactory::ConstructLayer(std::string descriptor) {
   
 std::string LayerFactory::InjectSeed(std::string descriptor, unsigned int seed) {
   if(IsValidDescriptor(descriptor)) {
-    const std::string has_seed_regex = ".*seed=[0-9]+.*";
-    const std::string new_seed_regex = "seed=([0-9])+";
+    // Match the whole parameter, it starts the configuration or follows a space
+    const std::string has_seed_regex = "(.* )?seed=[a-zA-Z0-9\\.]+( .*)?";
+    const std::string new_seed_regex = "(\\(| )seed=[a-zA-Z0-9\\.]+";
     std::string configuration = ExtractConfiguration(descriptor);
     std::string layertype = ExtractLayerType(descriptor);
     
@@ -116,9 +117,9 @@ std::string LayerFactory::InjectSeed(std::string descriptor, unsigned int seed)
 #endif
     if(already_has_seed) {
 #ifdef BUILD_BOOST
-      std::string new_descriptor = boost::regex_replace(descriptor, boost::regex(new_seed_regex, boost::regex::extended), seed_ss.str());
+      std::string new_descriptor = boost::regex_replace(descriptor, boost::regex(new_seed_regex, boost::regex::extended), "$1" + seed_ss.str());
 #else
-      std::string new_descriptor = std::regex_replace(descriptor, std::regex(new_seed_regex, std::regex::extended), seed_ss.str());
+      std::string new_descriptor = std::regex_replace(descriptor, std::regex(new_seed_regex, std::regex::extended), "$1" + seed_ss.str());
 #endif
       return new_descriptor;
     } else {
-- 
2.43.0


From 04a11d7e798a75f2edd78f24f1c719aa742973c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 39/71] fix: add the border of a fully convolutional network in
 one direction too

---
 src/factory/ConfigurableFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..2536580 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -164,8 +164,10 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
 	bool already_upscaled = (factorx == 1) && (factory == 1);
 
-  if (method_ == FCN && (receptive_field_x_ > 0) && (receptive_field_y_ > 0)) {
-		ResizeLayer* rl = new ResizeLayer(receptive_field_x_, receptive_field_y_);
+  // The border is needed even if the field of view only extends in one direction
+  if (method_ == FCN && (receptive_field_x_ > 0 || receptive_field_y_ > 0)) {
+		ResizeLayer* rl = new ResizeLayer(receptive_field_x_ > 0 ? receptive_field_x_ : 0,
+      receptive_field_y_ > 0 ? receptive_field_y_ : 0);
 		NetGraphNode* node = new NetGraphNode(rl, last_connection);
 		net.AddNode(node);
 
-- 
2.43.0


From 065b14fa0d06e453056277f281c67425c4c00ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 40/71] fix: use the default kernel size when calculating the
 receptive field

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 2536580..589af1f 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -82,7 +82,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -100,7 +100,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -108,7 +108,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -116,7 +116,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0


From 04c077c82e40afb3c945da8c4ad7f28d6d9453d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 41/71] fix: refuse stack operations on an empty or full stack

---
 src/factory/ConfigurableFactory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 589af1f..06632b2 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -224,18 +224,26 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
      * STACK OPERATIONS
      */
     if (line.compare(0, 5, "pusha") == 0) {
+      if (stack_a_pos >= 63)
+        FATAL("Stack a is full!");
       stack_a[++stack_a_pos] = last_connection;
     }
 
     if (line.compare(0, 5, "pushb") == 0) {
+      if (stack_b_pos >= 63)
+        FATAL("Stack b is full!");
       stack_b[++stack_b_pos] = last_connection;
     }
     
     if (line.compare(0, 4, "popa") == 0) {
+      if (stack_a_pos < 0)
+        FATAL("Stack a is empty!");
       last_connection = stack_a[stack_a_pos--];
     }
     
     if (line.compare(0, 4, "popb") == 0) {
+      if (stack_b_pos < 0)
+        FATAL("Stack b is empty!");
       last_connection = stack_b[stack_b_pos--];
     }
     
-- 
2.43.0


From 642359cdeb05fb97fdb8462457d6f0f1d788a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 42/71] fix: take the first quickprop step for all weights

---
 src/net/Trainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..b467c5d 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -540,6 +539,9 @@ void Trainer::ApplyGradients (datum lr) {
       dp++;
     }
   }
+
+  // All weights take their first step in the same iteration
+  first_iteration = false;
   
   // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
-- 
2.43.0


From 8860f5fd29ab8b8b435f922b6a9591685d801be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 43/71] fix: check the number of outputs before using them in
 DatasetInputLayer::Connect

---
 src/net/DatasetInputLayer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..f844793 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -118,6 +118,9 @@ bool DatasetInputLayer::Connect (const std::vector< CombinedTensor* >& inputs,
                                  const NetStatus* net) {
   UNREFERENCED_PARAMETER(net);
   // TODO validate
+  if (inputs.size() != 0 || outputs.size() != 4)
+    return false;
+
   CombinedTensor* data_output = outputs[0];
   CombinedTensor* label_output = outputs[1];
   CombinedTensor* helper_output = outputs[2];
-- 
2.43.0


From 9346ecac1bc6bc540c8a30019750c2f4c7c2a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 44/71] fix: report a missing training set instead of reading
 an empty permutation

---
 src/net/DatasetInputLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index f844793..d77bf8e 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -165,6 +165,10 @@ void DatasetInputLayer::FeedForward() {
     } else {
       // Select samples until one from the right subset is hit
       // Select a sample from the permutation
+      if (perm_.empty()) {
+        FATAL ("Dataset has no training samples!");
+      }
+
       selected_element = perm_[current_element_];
 
       // Select next element
-- 
2.43.0


From ed38e70b2bf5d6f1187776d170783ff0ec89df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 45/71] fix: report damaged PNG files instead of aborting

libpng's error path ends in abort() unless a jump buffer is set, and a short
read left libpng working on uninitialized memory.
---
 src/util/PNGUtil.cpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..f006e24 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 
 #ifdef BUILD_PNG
+#include <csetjmp>
 #include <png.h>
 #endif
 
@@ -81,6 +82,13 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
   // libpng cannot read streams, so we have to provide our own function
   png_set_read_fn ( png_handle, ( png_voidp ) &stream, PNGReadFromStream );
 
+  // libpng reports errors by jumping here
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "libpng could not read the image";
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+    return false;
+  }
+
   // Read image information
   png_read_info ( png_handle, png_info_handle );
 
@@ -100,6 +108,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
   if ( image_colors & PNG_COLOR_MASK_PALETTE ) {
     LOGERROR << "Unsupported color type: " << image_colors;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
     return false;
   }
 
@@ -119,6 +128,15 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
       row_pointers[row] = &image_data[row * row_stride];
     }
 
+    // libpng reports errors by jumping here
+    if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+      LOGERROR << "libpng could not read the image";
+      delete[] row_pointers;
+      delete[] image_data;
+      png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+      return false;
+    }
+
     png_read_image ( png_handle, row_pointers );
 
     delete[] row_pointers;
@@ -161,6 +179,15 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
       row_pointers[row] = &image_data[row * row_stride];
     }
 
+    // libpng reports errors by jumping here
+    if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+      LOGERROR << "libpng could not read the image";
+      delete[] row_pointers;
+      delete[] image_data;
+      png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
+      return false;
+    }
+
     png_read_image ( png_handle, (png_bytepp)row_pointers );
 
     delete[] row_pointers;
@@ -301,8 +328,9 @@ void PNGReadFromStream ( png_structp png_handle, png_bytep data,
   // We need our stream back
   png_voidp stream_ptr = png_get_io_ptr ( png_handle );
 
-  // Error checking is useless here :(
-  ( ( std::istream* ) stream_ptr ) -> read ( ( char* ) data, length );
+  // An incomplete read is an error, libpng would use uninitialized memory
+  if ( ! ( ( std::istream* ) stream_ptr ) -> read ( ( char* ) data, length ) )
+    png_error ( png_handle, "Unexpected end of file" );
 }
 
 void PNGWriteToStream ( png_structp png_handle, png_bytep data,
-- 
2.43.0


From 1b2d29aacd7de871b182044703f336be4d53db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 46/71] fix: PNG image buffer size does not overflow 32 bits

---
 src/util/PNGUtil.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index f006e24..f6ac5a9 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -118,14 +118,14 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_bytep* row_pointers = new png_bytep[image_height];
 
     // Allocate memory for image
-    png_byte* image_data = new png_byte[image_height * image_width *
+    png_byte* image_data = new png_byte[(std::size_t)image_height * image_width *
                                         image_channels];
 
     // Set row pointers
     const png_uint_32 row_stride = image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
-      row_pointers[row] = &image_data[row * row_stride];
+      row_pointers[row] = &image_data[(std::size_t)row * row_stride];
     }
 
     // libpng reports errors by jumping here
@@ -153,7 +153,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
         std::size_t rc_offset = tensor.Offset ( 0, y, channel, 0 );
 
         for ( std::size_t x = 0; x < image_width; x++ ) {
-          png_byte pixel = image_data[ ( image_width * image_channels * y ) +
+          png_byte pixel = image_data[ ( (std::size_t)image_width * image_channels * y ) +
                                        ( image_channels * x ) + channel];
           const datum v = DATUM_FROM_UCHAR ( pixel );
           target[rc_offset + x] = v;
@@ -169,14 +169,14 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
     png_uint_16pp row_pointers = new png_uint_16*[image_height];
 
     // Allocate memory for image
-    png_uint_16* image_data = new png_uint_16[image_height * image_width *
+    png_uint_16* image_data = new png_uint_16[(std::size_t)image_height * image_width *
                                         image_channels];
 
     // Set row pointers
     const png_uint_32 row_stride = image_width * image_channels;
 
     for ( png_uint_32 row = 0; row < image_height; row++ ) {
-      row_pointers[row] = &image_data[row * row_stride];
+      row_pointers[row] = &image_data[(std::size_t)row * row_stride];
     }
 
     // libpng reports errors by jumping here
@@ -204,7 +204,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
         std::size_t rc_offset = tensor.Offset ( 0, y, channel, 0 );
 
         for ( std::size_t x = 0; x < image_width; x++ ) {
-          png_uint_16 pixel = image_data[ ( image_width * image_channels * y ) +
+          png_uint_16 pixel = image_data[ ( (std::size_t)image_width * image_channels * y ) +
                                        ( image_channels * x ) + channel];
           pixel = (pixel >> 8) | (pixel << 8);
           const datum v = DATUM_FROM_USHORT ( pixel );
-- 
2.43.0


From 18a5096faa637ceab8364d701d0a86c438dae3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 47/71] fix: report PNG files that cannot be written and
 release the encoder

---
 src/util/PNGUtil.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index f6ac5a9..6a5cc6a 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -260,6 +260,21 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   // libpng cannot write streams, so we have to provide our own function
   png_set_write_fn ( png_handle, ( png_voidp ) &stream, PNGWriteToStream, NULL );
 
+  // Make rows
+  png_byte* pixels = new png_byte[3 * tensor.width() * tensor.height()];
+
+  // Make row pointers
+  png_byte** row_pointers = new png_byte*[tensor.height()];
+
+  // libpng reports errors by jumping here
+  if ( setjmp ( png_jmpbuf ( png_handle ) ) ) {
+    LOGERROR << "libpng could not write the image";
+    delete[] row_pointers;
+    delete[] pixels;
+    png_destroy_write_struct ( &png_handle, &png_info_handle );
+    return false;
+  }
+
   // Set and write information
   png_set_IHDR (
     png_handle,
@@ -271,10 +286,6 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
     PNG_FILTER_TYPE_DEFAULT );
   png_write_info ( png_handle, png_info_handle );
 
-  // Make rows
-  png_byte* pixels = new png_byte[3 * tensor.width() * tensor.height()];
-
-  //...
   for(unsigned int y = 0; y < tensor.height(); y++) {
     for(unsigned int x = 0; x < tensor.width(); x++) {
       pixels[3 * tensor.width() * y + 3 * x + 0] = UCHAR_FROM_DATUM(
@@ -286,16 +297,19 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
     }
   }
 
-  // Make row pointers
-  png_byte** row_pointers = new png_byte*[tensor.height()];
-
   for ( unsigned int y = 0; y < tensor.height(); y++ )
     row_pointers[y] = &pixels[3*tensor.width() * y];
   
   png_write_image(png_handle, row_pointers);
 
   png_write_end ( png_handle, NULL );
-  return true;
+
+  delete[] row_pointers;
+  delete[] pixels;
+  png_destroy_write_struct ( &png_handle, &png_info_handle );
+
+  stream.flush();
+  return stream.good();
 #endif
 }
 
-- 
2.43.0


From 122adddb75d115e687e9b02e3f990f3184c7234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 48/71] fix: report damaged JPEG files instead of ending the
 process

---
 src/util/JPGUtil.cpp | 53 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 477918e..cdbb241 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -10,6 +10,7 @@
 #include <cstdio>
 
 #ifdef BUILD_JPG
+#include <csetjmp>
 #include <jpeglib.h>
 #endif
 
@@ -20,21 +21,43 @@
 
 namespace Conv {
 
+#ifdef BUILD_JPG
+// libjpeg's default error handler ends the process, this one returns to the
+// function using the library
+struct JPGErrorManager {
+  jpeg_error_mgr manager;
+  jmp_buf jump_buffer;
+};
+
+static void JPGErrorExit (j_common_ptr cinfo) {
+  (*cinfo->err->output_message) (cinfo);
+  longjmp(((JPGErrorManager*)cinfo->err)->jump_buffer, 1);
+}
+#endif
+
 bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
 #ifndef BUILD_JPG
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
   
+  FILE* in_file = fopen(file.c_str(), "rb");
+  if(in_file == NULL) {
+    LOGERROR << "Cannot open " << file;
+    return false;
+  }
+  
   // Create decompression object
   jpeg_decompress_struct cinfo;
-  jpeg_error_mgr jerr;
-  cinfo.err = jpeg_std_error(&jerr);
+  JPGErrorManager jerr;
+  cinfo.err = jpeg_std_error(&jerr.manager);
+  jerr.manager.error_exit = JPGErrorExit;
   jpeg_create_decompress(&cinfo);
   
-  FILE* in_file = fopen(file.c_str(), "rb");
-  if(in_file == NULL) {
-    LOGERROR << "Cannot open " << file;
+  if(setjmp(jerr.jump_buffer)) {
+    LOGERROR << "Cannot read " << file;
+    jpeg_destroy_decompress(&cinfo);
+    fclose(in_file);
     return false;
   }
   
@@ -91,10 +114,22 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_compress_struct cinfo;
-  jpeg_error_mgr jerr;
+  JPGErrorManager jerr;
   
-  cinfo.err = jpeg_std_error(&jerr);
+  cinfo.err = jpeg_std_error(&jerr.manager);
+  jerr.manager.error_exit = JPGErrorExit;
   jpeg_create_compress(&cinfo);
+  
+  JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
+  
+  if(setjmp(jerr.jump_buffer)) {
+    LOGERROR << "Cannot write " << file;
+    delete[] row_pointer;
+    jpeg_destroy_compress(&cinfo);
+    fclose(out_file);
+    return false;
+  }
+  
   jpeg_stdio_dest(&cinfo, out_file);
   
   cinfo.image_width = tensor.width();
@@ -106,8 +141,6 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   jpeg_set_quality(&cinfo, 100, true);
   jpeg_start_compress(&cinfo, true);
   
-  
-  JSAMPROW row_pointer = new JSAMPLE[3*tensor.width()];
   // Write scanlines
   while(cinfo.next_scanline < tensor.height()) {
     // Copy scanline
@@ -120,6 +153,8 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
+  delete[] row_pointer;
+  jpeg_destroy_compress(&cinfo);
   fclose(out_file);
   return true;
 #endif
-- 
2.43.0


From c2c603afd259e6368aa82be3034bd018afdf3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 49/71] fix: values outside of [0,1] are saturated when saving
 images

---
 include/cn24/util/Config.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cn24/util/Config.h b/include/cn24/util/Config.h
index 98cfcd9..173768f 100644
--- a/include/cn24/util/Config.h
+++ b/include/cn24/util/Config.h
@@ -37,7 +37,9 @@ typedef u_int32_t duint;
 #endif
 #define DATUM_FROM_UCHAR(x) ((Conv::datum)(0.003921569f * ((unsigned char)x)))
 #define DATUM_FROM_USHORT(x) ((Conv::datum)(0.0000152590219f * ((unsigned short)x)))
-#define UCHAR_FROM_DATUM(x) ((unsigned char) (255.0f * ((Conv::datum)x) ) )
+// Values outside of [0,1] (and NaN) are saturated, converting them is undefined
+#define UCHAR_FROM_DATUM(x) ((unsigned char) (((Conv::datum)(x)) > 0.0f ? \
+  (((Conv::datum)(x)) < 1.0f ? (255.0f * ((Conv::datum)(x))) : 255.0f) : 0.0f))
 #define MCHAR_FROM_DATUM(x) ((unsigned char) (127.0f + 127.0f * ((Conv::datum)x) ) )
 
 // use this macro to suppress compiler warnings for unused variables
-- 
2.43.0


From cc8089217823bd1aef2711ee370f5308289291d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 50/71] fix: StatAggregator handles statistics registered late
 and reports generated early

---
 src/util/StatAggregator.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..df1a9f4 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -22,6 +22,14 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+
+  // Statistics registered after initialization need a value, too
+  if(state_ != INIT) {
+    Stat stat;
+    stat_descriptor->init_function(stat);
+    stats_.push_back(stat);
+  }
+
   return stat_descriptor_count_++;
 }
 
@@ -51,6 +59,10 @@ void StatAggregator::Initialize()
 
 void StatAggregator::Generate()
 {
+  // There are no values before initialization
+  if(state_ == INIT)
+    return;
+  
   std::vector<Stat*> output_stats;
   
   for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-- 
2.43.0


From fa5e40bcb81d04a04f1304f29bc2dc15fb765698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 51/71] fix: parameters that do not fit no longer resize a
 layer's weights

Loading a truncated parameter file, or one of another network, resized
the weights to what the file said (down to nothing), and the next pass
read and wrote out of bounds.
---
 src/net/NetGraph.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 85035fd..b124d84 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -427,12 +427,24 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
       if (!input.good() || input.eof())
         break;
-      unsigned int elements_before = layer->parameters() [p]->data.elements();
-      layer->parameters() [p]->data.Deserialize (input);
-      unsigned int elements_after = layer->parameters() [p]->data.elements();
-      LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << layer->parameters()[p]->data;
-      if(elements_before != elements_after) {
-        LOGERROR << "Deserialization changed layer parameter count!";
+      // Load into a temporary first: parameters that do not fit must not
+      // change the size of what the layer was built with
+      Tensor& data = layer->parameters() [p]->data;
+      Tensor loaded;
+      loaded.Deserialize (input);
+      if (input.fail()) {
+        LOGERROR << "Parameters for layer " << l << " parameter set " << p << " are incomplete!";
+        break;
+      }
+      LOGINFO << "Loaded parameters for layer " << l << " parameter set " << p << ": " << loaded;
+      if (loaded.elements() != data.elements()) {
+        LOGERROR << "Deserialization would change layer parameter count!";
+      } else {
+#ifdef BUILD_OPENCL
+        data.MoveToCPU (true);
+#endif
+        for (std::size_t e = 0; e < data.elements(); e++)
+          data[e] = loaded[e];
       }
       input.peek();
     }
-- 
2.43.0


From 4c342fcbede5962175240ab2ba8384bd02ef3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 52/71] fix: importing grayscale labels directly read beyond
 the image

---
 tools/makeCompressedTensorStream.cpp | 7 ++++---
 tools/makeTensorStream.cpp           | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..ae1f60d 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -119,9 +119,10 @@ int main ( int argc, char** argv ) {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
-          *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          // Grayscale labels only have a single channel
+          for ( unsigned int m = 0; m < 3; m++ ) {
+            *label_tensor.data_ptr ( x,y,m,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() < 3 ? 0 : m,0 );
+          }
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..d081b5c 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -115,9 +115,10 @@ int main ( int argc, char** argv ) {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
-          *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          // Grayscale labels only have a single channel
+          for ( unsigned int m = 0; m < 3; m++ ) {
+            *label_tensor.data_ptr ( x,y,m,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() < 3 ? 0 : m,0 );
+          }
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From 1d110a68da90d7361c0520331b3991f25ba131d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 53/71] fix: tensor stream tools handle empty and missing files

An empty stream was compressed to one (empty) tensor, and truncating a
missing file never ended.
---
 tools/compressTensorStream.cpp | 5 +++++
 tools/tensorStreamTool.cpp     | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..00aab9e 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -15,6 +15,8 @@ int main(int argc, char** argv) {
   
   if(argc != 3) {
     LOGERROR << "USAGE: " << argv[0] << " <input (uncompressed) tensor stream> <output (compressed) tensor stream>";
+    LOGEND;
+    return -1;
   }
   
   std::string input_file_name(argv[1]);
@@ -37,6 +39,9 @@ int main(int argc, char** argv) {
   uint64_t magic = CN24_CTS_MAGIC;
   output_tensor_stream.write((char*)&magic, sizeof(uint64_t)/sizeof(char));
   
+  // An empty stream has no tensors
+  input_tensor_stream.peek();
+
   while(!input_tensor_stream.eof()) {
     tensor.Deserialize(input_tensor_stream);
     
diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..d3013fd 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -25,6 +25,13 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good()) {
+    FATAL("Cannot open " << argv[1]);
+  }
+
+  // An empty stream has no tensors
+  file_in.peek();
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
-- 
2.43.0


From 714c75a70533e4d96537521275ee1dfd5c9f2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 54/71] fix: interactive tools end at the end of their input

---
 tools/tensorTool.cpp   | 4 ++++
 tools/trainNetwork.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index 742bade..e1c8864 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -72,6 +72,10 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
   std::string entry;
   std::cin >> entry;
 
+  // There are no more commands at the end of the input
+  if ( !std::cin.good() && entry.length() == 0 )
+    return false;
+
   if ( entry.compare ( "q" ) == 0 || entry.compare ( "quit" ) == 0 )
     return false;
 
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index 0f55e60..caefa77 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -259,7 +259,7 @@ int main (int argc, char* argv[]) {
         std::string command;
         std::getline (std::cin, command);
 
-        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command))
+        if (!parseCommand (graph, *testing_graph, trainer, *testing_trainer, patchwise_training, command) || std::cin.eof())
           break;
       }
     }
-- 
2.43.0


From a8e58df0f60f96f9aedf8dd46eda1c98f08034e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 55/71] fix: classifyImage pads images for networks that
 downsample by other factors than 8

The image was padded to multiples of 8, so that networks downsampling by
3, for example, were refused or produced outputs smaller than the image,
which were read beyond their end.
---
 include/cn24/factory/ConfigurableFactory.h | 10 ++++++++++
 tools/classifyImage.cpp                    |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/cn24/factory/ConfigurableFactory.h b/include/cn24/factory/ConfigurableFactory.h
index 6eed5d8..b53137a 100644
--- a/include/cn24/factory/ConfigurableFactory.h
+++ b/include/cn24/factory/ConfigurableFactory.h
@@ -70,6 +70,16 @@ public:
 	*/
   virtual int patchsizey() { return receptive_field_y_; }
 
+  /**
+	* @returns The horizontal downsampling factor, input widths need to be a multiple of this
+	*/
+  int downsamplingx() const { return factorx; }
+
+  /**
+	* @returns The vertical downsampling factor, input heights need to be a multiple of this
+	*/
+  int downsamplingy() const { return factory; }
+
   /**
 	* @brief Create a loss layer for this configuration
 	*
diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index 6e2d58c..a50c685 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -78,6 +78,15 @@ int main (int argc, char* argv[]) {
     width+=4;
   if(height & 4)
     height+=4;
+
+  // The network's downsampling may not divide multiples of 8
+  if(factory->downsamplingx() > 0)
+    while(width % factory->downsamplingx())
+      width+=8;
+
+  if(factory->downsamplingy() > 0)
+    while(height % factory->downsamplingy())
+      height+=8;
   
   Conv::Tensor data_tensor(1, width, height, original_data_tensor.maps());
   Conv::Tensor helper_tensor(1, width, height, 2);
-- 
2.43.0


From 6d50f000b9d6597ffae34d85b09b7f699fb879b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 56/71] fix: reinitializing a ConvolutionLayer starts its
 biases at zero again

---
 src/net/ConvolutionLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 84c5599..38d33df 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -347,6 +347,7 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
 
 #ifdef BUILD_OPENCL
   weights_->data.MoveToCPU();
+  bias_->data.MoveToCPU();
 #endif
   std::uniform_real_distribution<datum> dist_weights (-range , range);
 
@@ -354,6 +355,9 @@ void ConvolutionLayer::OnLayerConnect (const std::vector<Layer*> next_layers) {
     weights_->data[i] = dist_weights (rand_);
   }
 
+  // The layer may have been trained before
+  bias_->data.Clear();
+
   LOGDEBUG << "Updating weights: " << this_layer_gain << " -> "
            << next_layer_gain;
 }
-- 
2.43.0


From 71124e5d8e1724d2e15470d4b4787a926496ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 57/71] fix: reinitializing a network also resets the
 parameters of HMaxActivationFunction

---
 include/cn24/net/HMaxActivationFunction.h |  2 ++
 src/net/HMaxActivationFunction.cpp        | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 6e0973f..847b44b 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -36,6 +36,8 @@ public:
   void FeedForward();
   void BackPropagate();
   
+  void OnLayerConnect (const std::vector<Layer*> next_layers);
+  
   // Implementations for LossFunctionLayer
   datum CalculateLossFunction();
   
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index aa707f2..cf68719 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -113,6 +113,16 @@ bool HMaxActivationFunction::Connect (const CombinedTensor* input,
   return true;
 }
   
+void HMaxActivationFunction::OnLayerConnect (const std::vector<Layer*> next_layers) {
+  SimpleLayer::OnLayerConnect (next_layers);
+
+  // The layer may have been trained before
+#ifdef BUILD_OPENCL
+  weights_->data.MoveToCPU();
+#endif
+  weights_->data.Clear(1.0);
+}
+
 void HMaxActivationFunction::FeedForward() {
   const datum a = *(weights_->data.data_ptr(0));
   const datum b = *(weights_->data.data_ptr(1));
-- 
2.43.0


From 6783cff77a0867692485f84541d545372f15cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 58/71] fix: kernels carry image access qualifiers on buffers,
 which conforming compilers reject

---
 kernels/biasedConvolution.cl | 10 +++++-----
 kernels/crossCorrelation.cl  |  6 +++---
 kernels/foldWeights.cl       |  4 ++--
 kernels/fullConvolution.cl   |  6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/kernels/biasedConvolution.cl b/kernels/biasedConvolution.cl
index 0a68eb4..e9d2733 100644
--- a/kernels/biasedConvolution.cl
+++ b/kernels/biasedConvolution.cl
@@ -20,11 +20,11 @@
  *  2: Output Y coordinate
  *  3: Kernel number + sample number * total kernels
  */
-__kernel void BIASED_CONVOLUTION ( __global __read_only float* X,
-                                   __global __read_only float* W,
-                                   __global __read_only float* b,
-                                   __global __write_only float* Y,
-                                   __global __read_only float* D,
+__kernel void BIASED_CONVOLUTION ( __global float* X,
+                                   __global float* W,
+                                   __global float* b,
+                                   __global float* Y,
+                                   __global float* D,
                                    uint input_width,
                                    uint input_height,
                                    uint input_maps,
diff --git a/kernels/crossCorrelation.cl b/kernels/crossCorrelation.cl
index 799dae4..cb5ecf2 100644
--- a/kernels/crossCorrelation.cl
+++ b/kernels/crossCorrelation.cl
@@ -21,9 +21,9 @@
  *  3: Kernel input map + (input maps * output map) + (input maps * output maps * sample)
  */
 
-__kernel void CROSS_CORRELATION ( __read_only __global float* X,
-                                  __read_only __global float* dY,
-                                  __write_only __global float* dWps,
+__kernel void CROSS_CORRELATION ( __global float* X,
+                                  __global float* dY,
+                                  __global float* dWps,
                                   uint input_height,
                                   uint input_width,
                                   uint input_maps,
diff --git a/kernels/foldWeights.cl b/kernels/foldWeights.cl
index ae9e293..8da4fa7 100644
--- a/kernels/foldWeights.cl
+++ b/kernels/foldWeights.cl
@@ -21,8 +21,8 @@
  *  3: Kernel input map + (input maps * output map)
  */
 
-__kernel void FOLD_WEIGHTS ( __read_only __global float* dWps,
-                                  __write_only __global float* dW,
+__kernel void FOLD_WEIGHTS ( __global float* dWps,
+                                  __global float* dW,
                                   uint input_maps,
                                   uint output_maps,
                                   uint kernel_width,
diff --git a/kernels/fullConvolution.cl b/kernels/fullConvolution.cl
index c680213..bba45bf 100644
--- a/kernels/fullConvolution.cl
+++ b/kernels/fullConvolution.cl
@@ -20,9 +20,9 @@
  *  2: Input Y coordinate
  *  3: Kernel input map number + sample number * total input maps
  */
-__kernel void FULL_CONVOLUTION ( __read_only __global float* dY,
-                                 __read_only __global float* W,
-                                 __write_only __global float* dX,
+__kernel void FULL_CONVOLUTION ( __global float* dY,
+                                 __global float* W,
+                                 __global float* dX,
                                  uint input_width,
                                  uint input_height,
                                  uint input_maps,
-- 
2.43.0


From ef8c79ace175e79c642e168fd99d45574fc7321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 59/71] fix: SETSAMPLE on the device sets all maps of the
 sample and nothing beyond it

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 731a409..9ba420b 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -367,7 +367,7 @@ void TensorMath::SETSAMPLE(Tensor& A, const int smA, const datum value)
       FATAL("Error setting kernel args: " << (signed int) error);
     }
 
-    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.samples())};
+    size_t global_work_size[] = {(size_t)(smA == -1 ? A.elements() : A.width() * A.height() * A.maps())};
 
     error = clEnqueueNDRangeKernel (CLHelper::queue, CLHelper::k_setValue, 1, NULL,
         global_work_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From 198d8be9d46006833991ba51a86aee25dde9b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 60/71] fix: DatasetInputLayer brings the helper tensor back to
 the host before it rewrites it

---
 src/net/DatasetInputLayer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d77bf8e..b9035aa 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -146,6 +146,7 @@ void DatasetInputLayer::FeedForward() {
 #ifdef BUILD_OPENCL
   data_output_->data.MoveToCPU (true);
   label_output_->data.MoveToCPU (true);
+  helper_output_->data.MoveToCPU (true);
   localized_error_output_->data.MoveToCPU (true);
 #endif
 
-- 
2.43.0


From 6b907dbee72ebcfd55a53ba52bd08581180b34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 61/71] fix: set the size when only the header of a mapped
 Tensor is read, or it is empty

---
 src/util/Tensor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index f764779..aa6445a 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -293,16 +293,17 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  std::size_t elements = samples * maps * width * height;
+
 #ifdef BUILD_POSIX
   // Memory maps are read-only, so they cannot be reused as a target
   if(mmapped_)
     DeleteIfPossible();
 
-  if(!try_mmap || fd == 0)
+  // Only contents can be mapped, headers and empty tensors need their size set
+  if(!try_mmap || fd == 0 || head_only || elements == 0)
 #endif
     Resize ( samples, width, height, maps );
-  
-  std::size_t elements = samples * maps * width * height;
 
   if ( elements > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-- 
2.43.0


From 45b73d1a66b44284b214b652fe16a7ad20038c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 62/71] fix: set the size when only the header of a mapped
 CompressedTensor is read, or it is empty

---
 src/util/CompressedTensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 7d23085..5feee06 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -136,7 +136,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  // Only contents can be mapped, headers and empty tensors need their size set
+  if(!try_mmap || fd == 0 || head_only || compressed_length == 0)
 #endif
     Resize ( samples, width, height, maps, compressed_length );
     
-- 
2.43.0


From 95edd0cb9b955ec0fecc9b1666ec9e08c3c051ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 63/71] fix: the statistics of HMaxActivationFunction are
 shared by its instances, not owned by the first one

---
 include/cn24/net/HMaxActivationFunction.h | 3 ++-
 src/net/HMaxActivationFunction.cpp        | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cn24/net/HMaxActivationFunction.h b/include/cn24/net/HMaxActivationFunction.h
index 847b44b..3ad800f 100644
--- a/include/cn24/net/HMaxActivationFunction.h
+++ b/include/cn24/net/HMaxActivationFunction.h
@@ -60,7 +60,8 @@ public:
   datum sum_of_activations_ = 0;
   datum total_activations_ = 0;
   
-  StatDescriptor desc_a, desc_b;
+  // Registered once for all instances
+  static StatDescriptor desc_a, desc_b;
   
   static int stat_id_a;
   static int stat_id_b;
diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index cf68719..15582dc 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -16,6 +16,8 @@ namespace Conv {
   
 int HMaxActivationFunction::stat_id_a = -1;
 int HMaxActivationFunction::stat_id_b = -1;
+StatDescriptor HMaxActivationFunction::desc_a;
+StatDescriptor HMaxActivationFunction::desc_b;
   
 HMaxActivationFunction::HMaxActivationFunction(const datum mu, const datum loss_weight)
   : SimpleLayer(""), mu_(mu), loss_weight_(loss_weight) {
-- 
2.43.0


From 49632b47ee86b388db3b31d792e5aaff6ffee81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 64/71] fix: count class weights once in tensorStreamStats

---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..be67450 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The data set has already multiplied the class weight into the weight
+        if(class_weights[pixel_class] > 0)
+          pixel_counts[pixel_class] += (long double)weight / (long double)class_weights[pixel_class];
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0


From e4da5e210a3aec30897d6ca2501e1481d2c09150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 65/71] fix: runBenchmark creates the input tensor with the
 batch size of the network description

The tensor was created before the settings were read, so that it always had
one sample, while the reported number of parallel inputs and the throughput
were those of the description's pbatchsize.
---
 tools/runBenchmark.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/runBenchmark.cpp b/tools/runBenchmark.cpp
index 0820f17..c15fa43 100644
--- a/tools/runBenchmark.cpp
+++ b/tools/runBenchmark.cpp
@@ -161,7 +161,7 @@ int main (int argc, char* argv[]) {
   
   // Parse network configuration file
   Conv::ConfigurableFactory* factory = new Conv::ConfigurableFactory(*net_config_stream, 238238, false);
-  
+  factory->InitOptimalSettings();
 
   Conv::Tensor data_tensor(factory->optimal_settings().pbatchsize, width, height, INPUTMAPS);
   data_tensor.Clear();
@@ -184,7 +184,6 @@ int main (int argc, char* argv[]) {
 	bool complete = factory->AddLayers(graph, Conv::NetGraphConnection(&input_node), CLASSES);
 	if (!complete)
     FATAL("Failed completeness check, inspect model!");
-	factory->InitOptimalSettings();
 
 	LOGINFO << "Initializing net, this may take a while..." << std::flush;
 	graph.Initialize();
-- 
2.43.0


From c429a15a73e1bccafbd10d2a280a8663cb6e255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 66/71] fix: apply the local learning rate of an hmax layer
 once

BackPropagate scaled the gradients by the local learning rate, which the
Trainer applies to them, so that it was squared and the gradient check
rejected the layer.
---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 15582dc..36bfb29 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -200,8 +200,8 @@ void HMaxActivationFunction::BackPropagate() {
         * lambda_sparse_regularization;
   } 
   
-  weights_->delta.data_ptr()[0] = local_lr_ * delta_a;
-  weights_->delta.data_ptr()[1] = local_lr_ * delta_b;
+  weights_->delta.data_ptr()[0] = delta_a;
+  weights_->delta.data_ptr()[1] = delta_b;
   // LOGDEBUG << "delta a: " << delta_a << ", delta b:" << delta_b;
 }
   
-- 
2.43.0


From c18ffd3b62498efcdc3ec74ad981682eb69b270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 67/71] fix: report tensor files that are incomplete or cannot
 be written completely

---
 src/util/CompressedTensor.cpp         | 10 ++++++++++
 src/util/CompressedTensorStream.cpp   |  7 +++++++
 src/util/FloatTensorStream.cpp        |  7 +++++++
 src/util/Tensor.cpp                   | 19 +++++++++++++++++++
 src/util/TensorStreamPatchDataset.cpp | 18 ++++++++++++++++++
 tools/compressTensorStream.cpp        |  9 +++++++++
 tools/makeCompressedTensorStream.cpp  |  5 +++++
 tools/makeTensorStream.cpp            |  5 +++++
 tools/tensorStreamTool.cpp            |  9 +++++++++
 tools/trainNetwork.cpp                |  9 ++++++---
 10 files changed, 95 insertions(+), 3 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index 5feee06..dea511e 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -16,6 +16,7 @@
 
 #ifdef BUILD_POSIX
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <errno.h>
 #include <unistd.h>
 #endif
@@ -148,6 +149,15 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
+
+      // Pages beyond the end of the file cannot be accessed
+      struct stat file_status;
+      if(fstat(fd, &file_status) == 0 && (uint64_t)file_status.st_size < (uint64_t)current_position + compressed_length) {
+        LOGERROR << "The file ends before the contents of this tensor!";
+        DeleteIfPossible();
+        input.setstate(std::ios::failbit);
+        return;
+      }
 #ifdef BUILD_LINUX
       void* target_mmap = mmap64(NULL, compressed_length + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 762ee49..dc55dc2 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -41,6 +41,9 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
+  // An empty stream has no tensors
+  input_stream.peek();
+
   while (!input_stream.eof()) {
     CompressedTensor* tensor = new CompressedTensor();
 #ifdef BUILD_POSIX
@@ -49,6 +52,10 @@ unsigned int CompressedTensorStream::LoadFile(std::string path)
     tensor->Deserialize (input_stream, false);
 #endif
 
+    if (input_stream.fail()) {
+      FATAL("Incomplete tensor in file: " << path);
+    }
+
     if (tensor->elements() == 0)
       break;
     
diff --git a/src/util/FloatTensorStream.cpp b/src/util/FloatTensorStream.cpp
index 443fdcf..52b42b2 100644
--- a/src/util/FloatTensorStream.cpp
+++ b/src/util/FloatTensorStream.cpp
@@ -34,6 +34,9 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
   // Go through file
   std::cout << std::endl << std::flush;
   
+  // An empty stream has no tensors
+  input_stream.peek();
+
   while (!input_stream.eof()) {
     Tensor* tensor = new Tensor();
 #ifdef BUILD_POSIX
@@ -42,6 +45,10 @@ unsigned int FloatTensorStream::LoadFile(std::string path)
     tensor->Deserialize (input_stream, false);
 #endif
 
+    if (input_stream.fail()) {
+      FATAL("Incomplete tensor in file: " << path);
+    }
+
     if (tensor->elements() == 0)
       break;
 
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index aa6445a..fe48f52 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -16,6 +16,7 @@
 
 #ifdef BUILD_POSIX
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <errno.h>
 #include <unistd.h>
 #endif
@@ -312,6 +313,15 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       long int page_size = sysconf(_SC_PAGESIZE);
       long int current_position = input.tellg();
       long int offset_in_page = current_position % page_size;
+
+      // Pages beyond the end of the file cannot be accessed
+      struct stat file_status;
+      if(fstat(fd, &file_status) == 0 && (uint64_t)file_status.st_size < (uint64_t)current_position + elements * sizeof(datum)) {
+        LOGERROR << "The file ends before the contents of this tensor!";
+        DeleteIfPossible();
+        input.setstate(std::ios::failbit);
+        return;
+      }
 #ifdef BUILD_LINUX
       void* target_mmap = mmap64(NULL,((elements* sizeof(datum)) / sizeof(char)) + offset_in_page, PROT_READ, MAP_PRIVATE, fd, current_position - offset_in_page);
 #elif defined(BUILD_OSX)
@@ -636,6 +646,10 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
       FATAL ( "Cannot load " << filename );
 
     Deserialize ( input_image_file );
+
+    if ( input_image_file.fail() )
+      FATAL ( "Cannot load " << filename << ", the file is incomplete" );
+
     return;
   }
 
@@ -678,6 +692,11 @@ void Tensor::WriteToFile ( const std::string& filename ) {
       FATAL ( "Cannot write " << filename );
 
     Serialize ( output_image_file );
+    output_image_file.close();
+
+    if ( output_image_file.fail() )
+      FATAL ( "Cannot write " << filename );
+
     return;
   }
 
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 7262b05..6287f44 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -57,9 +57,14 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	// Count tensors
 	Tensor tensor;
 
+	training_stream.peek();
 	while (!training_stream.eof()) {
 		tensor.Deserialize(training_stream, true);
 
+		if (training_stream.fail()) {
+			FATAL("Incomplete training tensor!");
+		}
+
 		if (tensor.elements() == 0)
 			break;
 
@@ -76,9 +81,14 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		FATAL("Odd training tensor count!");
 	}
 
+	testing_stream.peek();
 	while (!testing_stream.eof()) {
 		tensor.Deserialize(testing_stream, true);
 
+		if (testing_stream.fail()) {
+			FATAL("Incomplete testing tensor!");
+		}
+
 		if (tensor.elements() == 0)
 			break;
 
@@ -134,6 +144,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		sample_count_training_ += inner_width * inner_height;
 
 		labels_[t].Deserialize(training_stream, false, true, training_fd);
+
+		if (training_stream.fail()) {
+			FATAL("Incomplete training tensor!");
+		}
     
     std::cout << "." << std::flush;
 	}
@@ -153,6 +167,10 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		sample_count_testing_ += inner_width * inner_height;
 
 		labels_[t].Deserialize(testing_stream, false, true, testing_fd);
+
+		if (testing_stream.fail()) {
+			FATAL("Incomplete testing tensor!");
+		}
     
     std::cout << "." << std::flush;
 	}
diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index 00aab9e..329baad 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -44,6 +44,9 @@ int main(int argc, char** argv) {
 
   while(!input_tensor_stream.eof()) {
     tensor.Deserialize(input_tensor_stream);
+
+    if(input_tensor_stream.fail())
+      FATAL("Incomplete tensor in " << input_file_name);
     
     LOGDEBUG << "Input tensor: " << tensor;
     
@@ -70,6 +73,12 @@ int main(int argc, char** argv) {
     
     input_tensor_stream.peek();
   }
+
+  output_tensor_stream.close();
+
+  if(output_tensor_stream.fail())
+    FATAL("Cannot write " << output_file_name);
+
   LOGINFO << "Overall ratio: " << 100.0 * (double)compressed_total / (double)uncompressed_total << "%";
   LOGINFO << "Uncompressed: " << uncompressed_total;
   LOGINFO << "Compressed  : " << compressed_total;
diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index ae1f60d..42a21ca 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -192,5 +192,10 @@ int main ( int argc, char** argv ) {
     compressed_label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( output_file.fail() )
+    FATAL ( "Cannot write " << output_fname );
+
   LOGEND;
 }
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index d081b5c..4568e86 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -183,5 +183,10 @@ int main ( int argc, char** argv ) {
     label_tensor.Serialize ( output_file );
   }
 
+  output_file.close();
+
+  if ( output_file.fail() )
+    FATAL ( "Cannot write " << output_fname );
+
   LOGEND;
 }
diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index d3013fd..a7e366c 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -37,6 +37,11 @@ int main(int argc, char* argv[]) {
   unsigned int tensors_in_file = 0;
   for (; !file_in.eof(); tensors_in_file++) {
     tensor.Deserialize(file_in);
+
+    if (file_in.fail()) {
+      FATAL("Incomplete tensor in " << argv[1]);
+    }
+
     file_in.peek();
     LOGINFO << "Tensor loaded: " << tensor;
   }
@@ -72,6 +77,10 @@ int main(int argc, char* argv[]) {
 
     file_out.close();
 
+    if (file_out.fail()) {
+      FATAL("Cannot write " << argv[1]);
+    }
+
     LOGINFO << "DONE!";
   }
 
diff --git a/tools/trainNetwork.cpp b/tools/trainNetwork.cpp
index caefa77..1f89419 100644
--- a/tools/trainNetwork.cpp
+++ b/tools/trainNetwork.cpp
@@ -373,12 +373,15 @@ bool parseCommand (Conv::NetGraph& graph, Conv::NetGraph& testing_graph, Conv::T
 
       if (param_file.good()) {
         graph.SerializeParameters (param_file);
-        LOGINFO << "Written parameters to " << param_file_name;
+        param_file.close();
+
+        if (param_file.fail())
+          LOGERROR << "Cannot write all parameters to " << param_file_name;
+        else
+          LOGINFO << "Written parameters to " << param_file_name;
       } else {
         LOGERROR << "Cannot open " << param_file_name;
       }
-
-      param_file.close();
     }
   } else if (command.compare (0, 14, "set experiment") == 0) {
     std::string experiment_name = "";
-- 
2.43.0


From dda80fd7a615992659ffd9c7ee88f951f4d3b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:54 +0000
Subject: [PATCH 68/71] fix: tensorTool reports tensors it could not write

---
 tools/tensorTool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/tensorTool.cpp b/tools/tensorTool.cpp
index e1c8864..bbd2040 100644
--- a/tools/tensorTool.cpp
+++ b/tools/tensorTool.cpp
@@ -121,6 +121,9 @@ bool parseCommand ( Conv::Tensor& tensor, std::string filename ) {
     std::ofstream o ( filename, std::ios::out | std::ios::binary );
     tensor.Serialize ( o );
     o.close();
+
+    if ( o.fail() )
+      std::cout << "Did not work." << std::endl;
   }
 
   else if ( entry.compare ( "bin" ) == 0 ) {
-- 
2.43.0


From 52d46199fd108bc2c4515de1af896b69b6235882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 69/71] fix: damaged tensor files cannot break memory

Sizes that overflow or that the rest of the stream cannot hold are reported
before memory is allocated for them, and decompression leaves neither the
compressed contents nor the target when the contents are damaged.
---
 include/cn24/util/CompressedTensor.h |  5 ++
 src/util/CompressedTensor.cpp        | 97 +++++++++++++++++++++++++---
 src/util/CompressedTensorStream.cpp  |  7 +-
 src/util/Tensor.cpp                  | 35 ++++++++++
 4 files changed, 128 insertions(+), 16 deletions(-)

diff --git a/include/cn24/util/CompressedTensor.h b/include/cn24/util/CompressedTensor.h
index 45ff78b..2784d8d 100644
--- a/include/cn24/util/CompressedTensor.h
+++ b/include/cn24/util/CompressedTensor.h
@@ -40,6 +40,10 @@ public:
   void Compress(Tensor& tensor);
   void Decompress(Tensor& tensor, datum* preallocated_memory = nullptr);
 
+  /**
+   * @brief Decompresses into memory for elements() elements.
+   */
+  void Decompress(datum* buffer);
 
   /**
    * @brief Serializes the CompressedTensor to the stream.
@@ -112,6 +116,7 @@ private:
   std::size_t compressed_length_ = 0;
   
   static void CompressData(void* uncompressed, const std::size_t& uncompressed_elements, void* compressed, std::size_t& compressed_length);
+  // The number of elements that fit is given, and the number of elements found returned
   static void DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length);
   
 public:
diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index dea511e..43b58ae 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <fstream>
 #include <limits>
+#include <memory>
 #include <cmath>
 #include <string>
 
@@ -37,6 +38,12 @@ namespace Conv {
   
 const unsigned int chars_per_datum = sizeof(Conv::datum)/sizeof(char);
 
+// Whether a compressed tensor of this size can be addressed, its contents can
+// encode that many elements, and what is left of the stream (as far as that is
+// known) can hold them
+static bool ContentsCanFollow ( std::istream& input, const uint64_t samples, const uint64_t width,
+                                const uint64_t height, const uint64_t maps, const uint64_t compressed_length );
+
 CompressedTensor::CompressedTensor() {
 
 }
@@ -61,19 +68,29 @@ void CompressedTensor::Compress(Tensor& tensor)
 
 void CompressedTensor::Decompress(Tensor& tensor, datum* preallocated_buffer)
 {
-  std::size_t compressed_length = compressed_length_;
-  std::size_t uncompressed_elements = 0;
   datum* uncompressed_buffer = preallocated_buffer;
-  if(uncompressed_buffer == nullptr)
-    uncompressed_buffer = new datum[elements_];
+  std::unique_ptr<datum[]> allocated_buffer;
+  if(uncompressed_buffer == nullptr) {
+    allocated_buffer.reset(new datum[elements_]);
+    uncompressed_buffer = allocated_buffer.get();
+  }
+  
+  Decompress(uncompressed_buffer);
+  
+  allocated_buffer.release();
+  tensor.Resize(samples_, width_, height_, maps_, uncompressed_buffer, false);
+}
+
+void CompressedTensor::Decompress(datum* buffer)
+{
+  std::size_t compressed_length = compressed_length_;
+  std::size_t uncompressed_elements = elements_;
   
-  CompressedTensor::DecompressData(uncompressed_buffer, uncompressed_elements, compressed_data_ptr_, compressed_length);
+  CompressedTensor::DecompressData(buffer, uncompressed_elements, compressed_data_ptr_, compressed_length);
   
   if(uncompressed_elements != elements_) {
     FATAL("Decompressed size mismatch!");
   }
-    
-  tensor.Resize(samples_, width_, height_, maps_, uncompressed_buffer, false);
 }
 
 
@@ -136,6 +153,14 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // Do not allocate or map memory for contents that are not there
+  if ( !ContentsCanFollow ( input, samples, width, height, maps, compressed_length ) ) {
+    LOGERROR << "The stream ends before the contents of this tensor, or it is damaged!";
+    DeleteIfPossible();
+    input.setstate ( std::ios::failbit );
+    return;
+  }
+
 #ifdef BUILD_POSIX
   // Only contents can be mapped, headers and empty tensors need their size set
   if(!try_mmap || fd == 0 || head_only || compressed_length == 0)
@@ -312,21 +337,34 @@ void CompressedTensor::CompressData(void* uncompressed, const std::size_t& uncom
 
 void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompressed_elements, void* compressed, const std::size_t& compressed_length)
 {
-  unsigned int bytes_out = 0;
+  // The contents may be damaged, so neither buffer may be left
+  const std::size_t bytes_max = uncompressed_elements * chars_per_datum;
+  std::size_t bytes_out = 0;
   unsigned char* output_ptr = (unsigned char*)uncompressed;
   const unsigned char* input_ptr = (const unsigned char*)compressed;
   
-  for(unsigned int pos = 0; pos < compressed_length; pos++) {
+  for(std::size_t pos = 0; pos < compressed_length; pos++) {
     unsigned char current_symbol = input_ptr[pos];
     if(current_symbol == rl_marker) {
-      pos++; current_symbol = input_ptr[pos];
+      pos++;
+      if(pos >= compressed_length) {
+        FATAL("Incorrect encoding!");
+      }
+      current_symbol = input_ptr[pos];
       if(current_symbol == rl_doublemarker) {
+        if(bytes_out >= bytes_max) {
+          FATAL("Decompressed size mismatch!");
+        }
         // Emit single marker
         *output_ptr = rl_marker;
         output_ptr++; bytes_out++;
       } else if(current_symbol == rl_rle) {
         unsigned int running_length = 0;
         
+        if(compressed_length - pos <= rl_bytes + chars_per_datum) {
+          FATAL("Incorrect encoding!");
+        }
+        
         // Running length input
         for(unsigned int b = 0; b < rl_bytes; b++) {
           pos++; current_symbol = input_ptr[pos];
@@ -335,6 +373,10 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
             running_length <<= 8;
         }
         
+        if(running_length * chars_per_datum > bytes_max - bytes_out) {
+          FATAL("Decompressed size mismatch!");
+        }
+        
         for(unsigned int r = 0; r < running_length; r++) {
           for(unsigned int b = 0; b < chars_per_datum; b++) {
             pos++; current_symbol = input_ptr[pos];
@@ -348,6 +390,9 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
         FATAL("Incorrect encoding!");
       }
     } else {
+      if(bytes_out >= bytes_max) {
+        FATAL("Decompressed size mismatch!");
+      }
       // Emit directly
       *output_ptr = current_symbol;
       output_ptr++; bytes_out++;
@@ -359,5 +404,37 @@ void CompressedTensor::DecompressData(void* uncompressed, std::size_t& uncompres
   uncompressed_elements = bytes_out / chars_per_datum;
 }
 
+static bool ContentsCanFollow ( std::istream& input, const uint64_t samples, const uint64_t width,
+                                const uint64_t height, const uint64_t maps, const uint64_t compressed_length ) {
+  // A run is the shortest way to encode elements
+  const uint64_t run_length = 2 + rl_bytes + chars_per_datum;
+
+  // The header itself is incomplete
+  if ( input.fail() )
+    return false;
+
+  // There are no contents
+  if ( compressed_length == 0 )
+    return true;
+
+  uint64_t limit = compressed_length / run_length + 1;
+  if ( limit > std::numeric_limits<std::size_t>::max() / ( 256 * chars_per_datum ) )
+    return false;
+  limit *= ( 1UL << ( 8UL * rl_bytes ) ) - 1UL;
+
+  if ( samples > 0 && width > 0 && height > 0 && maps > 0 &&
+       ( width > limit / samples || height > limit / ( samples * width ) ||
+         maps > limit / ( samples * width * height ) ) )
+    return false;
+
+  const std::istream::pos_type position = input.tellg();
+  if ( position == std::istream::pos_type ( -1 ) )
+    return true;
+
+  input.seekg ( 0, std::ios::end );
+  const std::istream::pos_type end = input.tellg();
+  input.seekg ( position );
+  return end < position || compressed_length <= ( uint64_t ) ( end - position );
+}
 
 }
diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index dc55dc2..276e82a 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -81,12 +81,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
 #endif
-      datum* old_data_ptr = temp_tensor_.data_ptr();
-      datum* direct_ptr = target.data_ptr(0, 0, 0, target_sample);
-      temp_tensor_.Resize(1, max_elements_, 1, 1, direct_ptr, false, true);
-      ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
-      
-      temp_tensor_.Resize(1, max_elements_, 1, 1, old_data_ptr, false, true);
+      ctensor->Decompress(target.data_ptr(0, 0, 0, target_sample));
       return true;
     } else {
       ctensor->Decompress(temp_tensor_, temp_tensor_.data_ptr());
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index fe48f52..6fbdba5 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -41,6 +41,33 @@ static bool HasExtension ( const std::string& filename, const std::string& exten
                             extension.length(), extension ) == 0;
 }
 
+// Whether a tensor of this size can be addressed, and what is left of the stream
+// (as far as that is known) can hold its contents
+static bool ContentsCanFollow ( std::istream& input, const uint64_t samples, const uint64_t width,
+                                const uint64_t height, const uint64_t maps ) {
+  const uint64_t limit = std::numeric_limits<std::size_t>::max() / ( 2 * sizeof ( datum ) );
+
+  // The header itself is incomplete
+  if ( input.fail() )
+    return false;
+
+  if ( samples == 0 || width == 0 || height == 0 || maps == 0 )
+    return true;
+
+  if ( width > limit / samples || height > limit / ( samples * width ) ||
+       maps > limit / ( samples * width * height ) )
+    return false;
+
+  const std::istream::pos_type position = input.tellg();
+  if ( position == std::istream::pos_type ( -1 ) )
+    return true;
+
+  input.seekg ( 0, std::ios::end );
+  const std::istream::pos_type end = input.tellg();
+  input.seekg ( position );
+  return end < position || samples * width * height * maps <= ( uint64_t ) ( end - position ) / sizeof ( datum );
+}
+
 Tensor::Tensor() {
 
 }
@@ -294,6 +321,14 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  // Do not allocate or map memory for contents that are not there
+  if ( !ContentsCanFollow ( input, samples, width, height, maps ) ) {
+    LOGERROR << "The stream ends before the contents of this tensor!";
+    DeleteIfPossible();
+    input.setstate ( std::ios::failbit );
+    return;
+  }
+
   std::size_t elements = samples * maps * width * height;
 
 #ifdef BUILD_POSIX
-- 
2.43.0


From 1b5d71374391518ee94f043c9a686de8e3c6bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 70/71] fix: data sets that contradict themselves or their
 description are refused

Labels with more maps than there are classes and, for patches, tensors that do
not fit each other were accessed out of bounds. Lists of classes that end early
and weights that are no numbers were accepted with undefined values, as were
empty settings; empty directories of list streams were read before their start.
---
 include/cn24/util/Dataset.h           |  3 +++
 src/util/ConfigParsing.cpp            |  4 ++--
 src/util/ListTensorStream.cpp         |  4 ++--
 src/util/TensorStreamDataset.cpp      | 22 +++++++++++++++++++++
 src/util/TensorStreamPatchDataset.cpp | 28 +++++++++++++++++++++++++++
 5 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/include/cn24/util/Dataset.h b/include/cn24/util/Dataset.h
index 18a9596..21853bd 100644
--- a/include/cn24/util/Dataset.h
+++ b/include/cn24/util/Dataset.h
@@ -185,6 +185,9 @@ class TensorStreamPatchDataset : public Dataset {
   static TensorStreamPatchDataset* CreateFromConfiguration(std::istream& file, bool dont_load, DatasetLoadSelection selection, unsigned int patchsize_x, unsigned int patchsize_y);
   
 private:
+  // Makes sure that a pair of tensors fits the others and the classes
+  void CheckTensors(unsigned int t) const;
+
   // Stored data
   Tensor* data_ = nullptr;
   Tensor* labels_ = nullptr;
diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index ddd620e..b3ce6e3 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -42,7 +42,7 @@ datum ParseDatum ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     std::stringstream ss;
     ss << line.substr ( identifier.length() +1 );
-    datum d;
+    datum d = 0;
     ss >> d;
 //    return std::strtof ( line.substr ( identifier.length() +1 ).c_str() ,nullptr);
     return d;
@@ -153,7 +153,7 @@ void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum
 
   std::stringstream ss;
   ss << size;
-  datum d;
+  datum d = 0;
   ss >> d;
   
   k = d; //std::atof ( size.c_str() );
diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index cc80b56..ee2e7ba 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -172,10 +172,10 @@ namespace Conv {
 	unsigned int ListTensorStream::LoadFiles(std::string image_list_fname, std::string image_directory, std::string label_list_fname, std::string label_directory) {
 		unsigned int number_of_classes = class_colors_.size();
 		
-		if(image_directory.back() != '/')
+		if(!image_directory.empty() && image_directory.back() != '/')
 			image_directory += "/";
 
-		if(label_directory.back() != '/')
+		if(!label_directory.empty() && label_directory.back() != '/')
     label_directory += "/";
 
 		// Open file lists
diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 6acc2dc..5d3ff23 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -71,6 +71,19 @@ TensorStreamDataset::TensorStreamDataset (
 
   tensors_ = (tensor_count_testing_ + tensor_count_training_) / 2;
 
+  // The weight of a pixel is looked up using its label
+  for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
+    if (training_stream_->GetMaps(2*t + 1) > class_weights_.size()) {
+      FATAL ("Training label tensor has more maps than there are classes!");
+    }
+  }
+
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
+    if (testing_stream_->GetMaps(2*t + 1) > class_weights_.size()) {
+      FATAL ("Testing label tensor has more maps than there are classes!");
+    }
+  }
+
   // Read tensors
   max_width_ = 0;
   max_height_ = 0;
@@ -309,6 +322,9 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 
       if (classes != 0) {
         for (int c = 0; c < classes; c++) {
+          if (file.eof()) {
+            FATAL ("The list of class names is incomplete!");
+          }
           std::string class_name;
           std::getline (file, class_name);
           class_names.push_back (class_name);
@@ -319,6 +335,9 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
     if (StartsWithIdentifier (line, "colors")) {
       if (classes != 0) {
         for (int c = 0; c < classes; c++) {
+          if (file.eof()) {
+            FATAL ("The list of class colors is incomplete!");
+          }
           std::string color;
           std::getline (file, color);
           unsigned long color_val_l = std::strtoul (color.c_str(), nullptr, 16);
@@ -341,6 +360,9 @@ TensorStreamDataset* TensorStreamDataset::CreateFromConfiguration (std::istream&
 					std::stringstream ss;
 					ss << weight;
 					ss >> dweight;
+					if (ss.fail()) {
+						FATAL("Not a valid weight!");
+					}
 					class_weights.push_back(dweight);
 					LOGDEBUG << "Class " << c << " weight: " << dweight;
 				}
diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 6287f44..57b3f0a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -148,6 +148,8 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		if (training_stream.fail()) {
 			FATAL("Incomplete training tensor!");
 		}
+
+		CheckTensors(t);
     
     std::cout << "." << std::flush;
 	}
@@ -171,6 +173,8 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 		if (testing_stream.fail()) {
 			FATAL("Incomplete testing tensor!");
 		}
+
+		CheckTensors(t);
     
     std::cout << "." << std::flush;
 	}
@@ -179,6 +183,21 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	label_maps_ = labels_[0].maps();
 }
 
+void TensorStreamPatchDataset::CheckTensors(unsigned int t) const {
+	// Patches and their labels are copied and looked up without further checks
+	if (labels_[t].width() != data_[t].width() || labels_[t].height() != data_[t].height()) {
+		FATAL("Dimensions of label tensor don't match image tensor!");
+	}
+
+	if (data_[t].maps() != data_[0].maps() || labels_[t].maps() != labels_[0].maps()) {
+		FATAL("Number of maps differs between tensors!");
+	}
+
+	if (labels_[t].maps() > class_weights_.size()) {
+		FATAL("Label tensor has more maps than there are classes!");
+	}
+}
+
 Task TensorStreamPatchDataset::GetTask() const {
   return Task::SEMANTIC_SEGMENTATION;
 }
@@ -377,6 +396,9 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 
       if (classes != 0) {
         for (int c = 0; c < classes; c++) {
+          if (file.eof()) {
+            FATAL ("The list of class names is incomplete!");
+          }
           std::string class_name;
           std::getline (file, class_name);
           class_names.push_back (class_name);
@@ -387,6 +409,9 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     if (StartsWithIdentifier (line, "colors")) {
       if (classes != 0) {
         for (int c = 0; c < classes; c++) {
+          if (file.eof()) {
+            FATAL ("The list of class colors is incomplete!");
+          }
           std::string color;
           std::getline (file, color);
           unsigned long color_val_l = std::strtoul (color.c_str(), nullptr, 16);
@@ -409,6 +434,9 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
 					std::stringstream ss;
 					ss << weight;
 					ss >> dweight;
+					if (ss.fail()) {
+						FATAL("Not a valid weight!");
+					}
 					class_weights.push_back(dweight);
 					LOGDEBUG << "Class " << c << " weight: " << dweight;
 				}
-- 
2.43.0


From da75f27688507aff2514b38c3997e39997560b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 71/71] fix: numbers that are negative or too large are refused

The network and data set descriptions were read with atoi and stored in
unsigned integers, -1 was a huge size and the receptive field overflowed.
---
 src/factory/ConfigurableFactory.cpp         | 44 +++++++++++++--------
 src/net/LocalResponseNormalizationLayer.cpp |  6 +++
 src/util/ConfigParsing.cpp                  | 20 ++++++++--
 3 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 06632b2..3173090 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -30,6 +30,20 @@ namespace Conv {
 
 
 
+// Extends a receptive field by a layer, no image is as large as the limit
+static void ExtendField (int& receptive_field, int& factor, const long long extent, const unsigned int stride) {
+  const long long limit = 1LL << 20;
+  const long long new_field = receptive_field + (long long)factor * extent;
+  const long long new_factor = (long long)factor * stride;
+
+  if (new_field > limit || new_field < -limit || new_factor > limit) {
+    FATAL("The receptive field is too large!");
+  }
+
+  receptive_field = new_field;
+  factor = new_factor;
+}
+
 ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int seed, bool is_training_factory) :
   method_ (FCN), file_ (file), seed_(seed) {
   bool used_pad = false;
@@ -70,10 +84,12 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       ParseCountIfPossible(line, "factory", fy);
       if(rfx > 0 && rfy > 0) {
         LOGDEBUG << "Using manual receptive field method";
-        receptive_field_x_ = rfx;
-        receptive_field_y_ = rfy;
-        factorx = fx;
-        factory = fy;
+        receptive_field_x_ = 0;
+        receptive_field_y_ = 0;
+        factorx = 1;
+        factory = 1;
+        ExtendField (receptive_field_x_, factorx, rfx, fx);
+        ExtendField (receptive_field_y_, factory, rfy, fy);
         ignore_layers = true;
       }
     }
@@ -93,26 +109,24 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
         }
         
         LOGDEBUG << "Adding convolutional layer to receptive field (" << kx << "," << ky << "s" << stridex << "," << stridey << "p" << padx << "," << pady << ")";
-        receptive_field_x_ += factorx * ((int)kx - 1 - (int)padx - (int)padx);
-        receptive_field_y_ += factory * ((int)ky - 1 - (int)pady - (int)pady);
-        factorx *= stridex;
-        factory *= stridey;
+        ExtendField (receptive_field_x_, factorx, (long long)kx - 1 - padx - padx, stridex);
+        ExtendField (receptive_field_y_, factory, (long long)ky - 1 - pady - pady, stridey);
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
         unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
-        factorx *= kx;
-        factory *= ky;
+        ExtendField (receptive_field_x_, factorx, 0, kx);
+        ExtendField (receptive_field_y_, factory, 0, ky);
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
         unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
-        factorx *= kx;
-        factory *= ky;
+        ExtendField (receptive_field_x_, factorx, 0, kx);
+        ExtendField (receptive_field_y_, factory, 0, ky);
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
@@ -121,10 +135,8 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
         LOGDEBUG << "Adding adv. maxpooling layer to receptive field (" << kx << "," << ky << "s" << sx << "," << sy << ")";
-        receptive_field_x_ += factorx * ((int)kx - 1);
-        receptive_field_y_ += factory * ((int)ky - 1);
-        factorx *= sx;
-        factory *= sy;
+        ExtendField (receptive_field_x_, factorx, (long long)kx - 1, sx);
+        ExtendField (receptive_field_y_, factory, (long long)ky - 1, sy);
       }
     }
   }
diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index 808d934..d9ef774 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -42,6 +42,12 @@ bool LocalResponseNormalizationLayer::
     return false;
   }
   
+  // Check if the region is too large to calculate with
+  if (size_ > (unsigned int)std::numeric_limits<int>::max()) {
+    LOGERROR << "Region is too large!";
+    return false;
+  }
+  
   // Create ouput
   CombinedTensor* output = new CombinedTensor (input->data.samples(),
     input->data.width(), input->data.height(), input->data.maps());
diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index b3ce6e3..cd9e09e 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -11,6 +11,7 @@
 #include "ConfigParsing.h"
 #include <cctype>
 #include <cstdlib>
+#include <limits>
 
 #include <sstream>
 
@@ -26,13 +27,24 @@ static std::size_t FindParameter ( const std::string& line, const std::string& i
   return pos;
 }
 
+// Counts and sizes are never negative
+static unsigned int ToUInt ( const std::string& value, const long long limit = std::numeric_limits<unsigned int>::max() ) {
+  const long long number = std::strtoll ( value.c_str(), nullptr, 10 );
+
+  if ( number < 0 || number > limit ) {
+    FATAL ( "Not a valid number: " << value );
+  }
+
+  return ( unsigned int ) number;
+}
+
 bool StartsWithIdentifier ( std::string line, std::string identifier ) {
   return ( line.compare ( 0, identifier.length(), identifier ) == 0 );
 }
 
 unsigned int ParseUInt ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
-    return std::atoi ( line.substr ( identifier.length() +1 ).c_str() );
+    return ToUInt ( line.substr ( identifier.length() +1 ) );
   } else {
     return 0;
   }
@@ -116,8 +128,8 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
   std::string sizex = size.substr ( 0, x_pos - ( size_pos + ilen ) );
   std::string sizey = size.substr ( 1 + x_pos - ( size_pos + ilen ) );
 
-  kx = std::atoi ( sizex.c_str() );
-  ky = std::atoi ( sizey.c_str() );
+  kx = ToUInt ( sizex, std::numeric_limits<int>::max() );
+  ky = ToUInt ( sizey, std::numeric_limits<int>::max() );
 }
 
 void ParseCountIfPossible ( std::string line, std::string identifier, unsigned int& k ) {
@@ -134,7 +146,7 @@ void ParseCountIfPossible ( std::string line, std::string identifier, unsigned i
 
   std::string size = line.substr ( size_pos + ilen );
 
-  k = std::atoi ( size.c_str() );
+  k = ToUInt ( size );
 }
 
 void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum& k ) {
-- 
2.43.0

