// A deterministic OpenMP runtime: the threads of a team are fibers of one thread, switched at
// chosen memory accesses and synchronisation operations, with a happens-before race detector.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include "pbt.h"
namespace sim {
struct Schedule {
    int order = 0;                  // 0 ascending, 1 descending, 2 random
    uint64_t gap = 0;               // preempt every 1..2*gap-1 accesses on average every gap (0: never)
    int changes = 0;                // preemptions at this many random accesses of each region instead (priority schedules)
    uint64_t seed = 0;
    int granted = 0;                // the runtime grants at most so many threads (0: as requested)
};
struct Stats { uint64_t regions, teams, accesses, switches, barriers, locks, maxTeam; };
void begin(const Schedule &);       // resets the statistics
std::string end();                  // description of the first race, or ""
const Stats &stats();
Schedule draw(pbt::Src &);
std::string str(const Schedule &);
}
