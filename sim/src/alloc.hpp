// The heap is a seam: every C++ allocation of the process comes from one of two arenas at fixed
// addresses.  A simulated run allocates from its own, initially untouched arena, so the addresses
// it sees are a pure function of the run and of the layout seed.
#pragma once
#include <cstdint>

namespace sim
{
// switches to the run arena; layoutSeed 0: address order, otherwise a seeded permutation
void heapEnterRun(uint64_t layoutSeed);
// seed used from now on for newly carved blocks
void heapLayout(uint64_t layoutSeed);
void heapLeaveRun(); // back to the control arena (allocations of the harness)
int heapArena(int arena); // 0: control, 1: run; returns the previous one
// the n-th allocation of the run from now on fails (0: never); fails one allocation only
void heapFailAt(uint64_t n);
uint64_t heapCount(); // allocations of the run so far
// whether the allocation that failed last was made by a string stream, which hides the failure
bool heapFailedInStringStream();
uint64_t heapUsed();
}
