// An OpenMP runtime for checking (engine/threads.cpp implements what GCC's
// generated code calls): the number of threads and their order are chosen by
// the case.
#pragma once
#include <cstdint>
namespace omp {
struct Plan {
  unsigned threads = 1;   // threads of a team
  bool ordered = false;   // one after the other in a generated order instead of at the same time
  uint64_t seed = 0;
};
extern Plan plan;
extern long regions;      // parallel regions executed by more than one thread
}  // namespace omp
