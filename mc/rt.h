#pragma once
#include <cstdint>
#include <cstddef>
namespace mcrt
{
constexpr int MAXPTS = 24000;
struct Point
{
  uint8_t n, chosen, kind, cost_before;
  uint32_t costmask;  // bit i: alternative i costs one deviation (kind sched); for dev: all i>0
};
enum PointKind : uint8_t { PK_SCHED, PK_CHOOSE, PK_DEV };
enum Status : uint32_t { ST_NONE, ST_OK, ST_VIOLATION, ST_PRUNED, ST_ERROR, ST_TIMEOUT };
struct Slot
{
  volatile int job;  // 0 idle, 1 to run, 2 done, 3 quit
  int scenario;
  uint32_t prefix_len;
  uint8_t prefix[MAXPTS];
  uint8_t prefix_n[MAXPTS];  // expected number of alternatives (divergence check), 0: unknown
  uint32_t use_cache;
  uint32_t verbose;
  uint32_t rerun_slow;
  volatile uint32_t status;
  uint32_t npoints;
  uint64_t steps;
  uint64_t new_states;
  uint64_t cases;
  Point pts[MAXPTS];
  char kind[64];
  char msg[6000];
  char outcome[1500];
  uint64_t pcs[4];
};
struct Cache
{
  uint64_t mask;
  volatile uint64_t count;
  uint64_t tab[1];
};
void run_child(int scenario, Slot* slot, Cache* cache);  // never returns
int scenario_count();
}  // namespace mcrt
