// One scenario, run by the library built without OpenCL (drive_cpu), with
// OpenCL (drive_ocl) and with OpenCL and clBLAS (drive_clb).
#pragma once
#include "pbt.h"
namespace c22 {
enum Scenario { MATH, TENSORS, LAYERS, GRAPHS, TRAINING, KERNELS };
struct Out {
  std::vector<std::pair<std::string, std::vector<float>>> v;  // named results
  std::vector<double> scale;                                  // per result: magnitude of the terms summed up (0: that of the result)
  std::string refused;                                        // message of an exception
  std::string note; bool nontrivial = false; std::vector<std::string> labels;
};
// jitter: relative perturbation of every generated value (sensitivity runs)
typedef void (*Driver)(pbt::G&, Scenario, double jitter, uint64_t jseed, Out&);
void drive_cpu(pbt::G&, Scenario, double, uint64_t, Out&); void drive_ocl(pbt::G&, Scenario, double, uint64_t, Out&); void drive_clb(pbt::G&, Scenario, double, uint64_t, Out&);
void init_cpu(); void init_ocl(); void init_clb();
}
