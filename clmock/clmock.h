// Control of the simulated OpenCL device.
#pragma once
#include <cstdint>
namespace clmock {
// in which order the work items of a kernel run: 0 ascending, 1 descending, otherwise shuffled by this number
extern uint64_t item_order;
// commands run when something waits for them (true), or at once
extern bool deferred;
extern long kernels_run, items_run, uploads, downloads, errors;
extern const char* last_error;
}
