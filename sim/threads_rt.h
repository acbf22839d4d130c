// Simulated threads: real threads of which exactly one runs at a time, chosen by
// a seeded scheduler at memory accesses and synchronisation operations of the
// instrumented code. See threads_rt.cc.
#pragma once
#include "core.h"

namespace sim { namespace thr {

constexpr int MAX_THREADS = 6;
struct Preempt { int tid; int kind; u64 at; };       // kind 0: at the at-th access to shared memory, 1: at the at-th synchronisation operation
struct Config {
    int threads = 1;
    std::vector<int> priority;                       // order in which threads are preferred
    std::vector<Preempt> preempts;                   // the thread drops to the lowest priority
    u64 walkSeed = 0, walkMean = 0;                  // nonzero mean: random switches as well
    u64 stepLimit = 300000000ull;
};
struct Stats { u64 accesses = 0, shared = 0, syncs = 0, switches = 0, preempts = 0, walks = 0, blocked = 0, full = 0, schedule = 0; };

// Runs body(0..threads-1) to completion. Reports a data race, a deadlock or
// missing progress through die().
Stats run(Config const & c, std::function<void(int)> const & body);
void ownMemory();                  // from here on this process allocates from a simulated heap
void mark(char const * what);      // the calling thread starts this operation
}}
