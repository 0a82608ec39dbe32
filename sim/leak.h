// What a local observer could see of one call: the sequence of program points, addresses loaded and
// stored, and divisors.  Recorded by builds instrumented with clang's coverage callbacks ("leak" flavours).
#pragma once
#include "core.h"
struct Leak { bool on = false; u64 h = 0, n = 0; struct Mark { u64 h; u32 pc; }; vector<Mark> marks; void start() { h = 0x9ae1; n = 0; marks.clear(); } };
extern Leak LEAK;
