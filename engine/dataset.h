// A data set held in memory, whose every value is a known function of the
// sample's index.
#pragma once
#include "cn.h"
#include "Dataset.h"

namespace cn {

struct MemDataset : Conv::Dataset {
  unsigned w = 1, h = 1, in = 1, cls = 1, ntrain = 1, ntest = 0; Conv::Method method = Conv::FCN; uint64_t seed = 1; bool weights = true; std::vector<unsigned> colors;
  // what was asked for, in order
  std::vector<std::pair<bool, unsigned>> asked;
  bool log = false;
  unsigned lw() const { return method == Conv::FCN ? w : 1; }
  unsigned lh() const { return method == Conv::FCN ? h : 1; }
  Conv::Task GetTask() const override { return Conv::SEMANTIC_SEGMENTATION; }
  Conv::Method GetMethod() const override { return method; }
  unsigned GetWidth() const override { return w; }
  unsigned GetHeight() const override { return h; }
  unsigned GetInputMaps() const override { return in; }
  unsigned GetLabelMaps() const override { return cls; }
  unsigned GetClasses() const override { return cls; }
  std::vector<std::string> GetClassNames() const override { std::vector<std::string> v; for (unsigned c = 0; c < cls; c++) v.push_back("class" + std::to_string(c)); return v; }
  std::vector<unsigned> GetClassColors() const override { if (!colors.empty()) return colors; std::vector<unsigned> v; for (unsigned c = 0; c < cls; c++) v.push_back(c * 0x10101); return v; }
  std::vector<datum> GetClassWeights() const override { return std::vector<datum>(cls, 1); }
  unsigned GetTrainingSamples() const override { return ntrain; }
  unsigned GetTestingSamples() const override { return ntest; }
  bool SupportsTesting() const override { return ntest > 0; }
  // sample i of the testing (1) or training (0) set
  float value(bool test, unsigned i, int what, size_t e) const {
    pbt::Rng r(seed * 1000003 + (test ? 7777777 : 0) + i * 101 + what * 31 + e * 9176); r.next();
    switch (what) { case 0: return (float)((int)r.below(257) - 128) / 64.0f; case 1: return (float)((int)r.below(33) - 16) / 16.0f; case 2: return (float)r.below(65) / 64.0f; default: return weights ? (float)(1 + r.below(8)) / 4.0f : 1.0f; }
  }
  void put(Tensor& t, unsigned sample, bool test, unsigned i, int what) const { size_t n = t.width() * t.height() * t.maps(); for (size_t e = 0; e < n; e++) t.data_ptr()[sample * n + e] = value(test, i, what, e); }
  bool get(bool test, Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned sample, unsigned i) {
    if (log) asked.push_back({test, i});
    if (i >= (test ? ntest : ntrain)) return false;
    put(d, sample, test, i, 0); put(l, sample, test, i, 1); put(hp, sample, test, i, 2); put(wt, sample, test, i, 3); return true;
  }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned sample, unsigned i) override { return get(false, d, l, hp, wt, sample, i); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& hp, Tensor& wt, unsigned sample, unsigned i) override { return get(true, d, l, hp, wt, sample, i); }
};

}  // namespace cn
