// Simulated OpenMP runtime: the threads of a parallel region are fibers in one real thread, and a
// seeded scheduler decides every switch between them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace simomp
{
struct Config {
  uint64_t seed = 1;
  unsigned granted = 64;          // most threads any region is given
  unsigned procs = 8;             // what the machine claims to have
  double switch_rate = 0;         // chance of a switch at a preemption point (see below)
  double sync_rate = 0.5;         // chance of a switch at synchronisation operations
  double run_first = 0.5;         // chance that the region starts with a random thread
  const std::vector<uint8_t> *forced = nullptr;  // replayed decisions
};
void configure(const Config &c);
// statistics since configure()
struct Stats {
  uint64_t regions = 0, threads = 0, switches = 0, accesses = 0, points = 0, barriers = 0, dynamic_chunks = 0, reduced = 0;
  uint64_t schedule_hash = 1469598103934665603ull;
  unsigned max_team = 0;
};
Stats &stats();
bool in_region();            // more than one fiber is alive
void access(void *addr, size_t n, bool write);  // memory access of instrumented code
void sync_point();
// shared-access discovery
void record_accesses(bool on);        // note which bytes are used by which thread
size_t conflicting();                 // number of 8-byte words written by one thread and used by another in one region
void clear_record();
extern bool only_conflicting;         // preempt only at accesses to conflicting words
}  // namespace simomp
