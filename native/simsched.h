// A cooperative scheduler for real threads: one thread runs at a time, a thread gives the
// processor away only where the plan says so (numbered by executed basic blocks of the code
// under test) or when it ends.
#pragma once
#include <cstddef>
namespace sched {
void plan(long block, int to);             // at that block (counted over all threads) run thread `to`
void run(int n, void (*body)(int));        // runs n threads to their ends
void enter();                              // code under test begins in this thread
void leave();                              // ... and ends
long blocks();                             // basic blocks executed so far
unsigned long long digest();               // of the sequence of switches that happened
long switches();
long live();                               // blocks of memory taken by code under test and not given back
size_t live_bytes();
}
