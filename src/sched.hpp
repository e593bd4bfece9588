// Controlled scheduler and data-race monitor (see tsanrt.cpp). Only one managed thread runs at a time; at every
// synchronisation operation the chooser decides which thread goes on.
#pragma once
#include <cstdint>

namespace sched {
struct Options
{
    int (*choose)(int n);                                // one of n enabled threads (0: the running one goes on, if it can)
    void (*fatal)(const char* key, const char* message); // deadlock or data race; must not return
    int preemptions = 2;                                 // how often a thread may be left although it could go on
    bool atomics = false;                                // atomic operations are scheduling points too
    bool races = true;                                   // report data races
    int refuseThread = -1;                               // number of the thread whose creation fails, -1 for none
};
void begin(const Options& o); // the calling thread becomes thread 0
void end();
struct Counts
{
    uint64_t points, switches, syncs, accesses, threads, unchecked; // unchecked: accesses beyond the monitor's memory
};
Counts counts();
int running();      // managed threads that have not ended (without thread 0)
const char* path(); // the threads that ran, one letter per switch
} // namespace sched
