// Harness API of the stateless model checker.  See ../DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace mc
{
struct Scenario
{
  const char* name;
  void (*fn)();
  int bound_quick;     // deviation bound in the quick tier, <0: not run
  int bound_thorough;  // deviation bound in the thorough tier, <0: not run
  unsigned flags;
  double horizon_s;    // virtual time after which an execution that has not finished counts as hung
};
enum Flags : unsigned
{
  DELAY = 1,         // delay bounding: every departure from the default scheduler costs 1 (otherwise preemption bounding)
  NO_ATOMICS = 2,    // atomic accesses are not scheduling points
  NO_RACES = 4,      // do not report data races
  REFCOUNTS = 8,     // 32 bit acq_rel read-modify-writes (shared_ptr counts) are scheduling points as well
  STRICT_FD = 16,    // close/shutdown of a descriptor that is not open is a violation
  NO_TIMERS = 32,    // timers do not fire early (only when nothing else can run)
  UNORDERED = 64,    // order of record() calls of different threads does not matter to the oracle
  LEAK_THREADS = 128,// threads alive at the end are allowed
  SEQ = 256,         // no scheduling choices at all (always the default scheduler); only choose()/deviate()
};
int add_scenario(const Scenario& s);
#define MC_SCENARIO(fname, bq, bt, flags, horizon)                                  \
  static void fname();                                                              \
  static int mc_reg_##fname = mc::add_scenario({ #fname, fname, bq, bt, flags, horizon }); \
  static void fname()

int tier();                                  // 0 quick, 1 thorough
int choose(int n, const char* tag = "");     // free nondeterminism, n <= 250
int deviate(int n, const char* tag = "");    // default 0, any other answer costs one deviation
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_REQUIRE(cond, ...)             \
  do                                      \
  {                                       \
    if (!(cond))                          \
      mc::fail("property", __VA_ARGS__);  \
  } while (0)
void outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to this execution's outcome
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));     // diagnostic, only shown for violations
void count_case(int n = 1);  // inputs judged within this execution, for the evidence
void yield();
void sleep_ms(int ms);
uint64_t now_ns();
void advance_ns(uint64_t ns);  // moves the virtual clock
bool running();              // within an execution
int self_id();
int live_threads();  // other than the caller
[[noreturn]] void finish();  // end this execution here, successfully

// History log shared by all threads; invisible to the race detector.
struct Rec
{
  int thread;
  int kind;
  long a, b;
  char s[64];
  int slen;
};
void record(int kind, long a = 0, long b = 0);
void record(int kind, long a, long b, const void* s, size_t n);
int record_count();
const Rec& record_at(int i);
// wait (in virtual time, without any synchronisation visible to the code under test) until at least n records of
// a kind exist; returns false when ms virtual milliseconds passed first.
bool wait_records(int kind, int n, int ms);

// Simulated environment.
void set_pid(int pid);                 // pid seen by this thread and threads it creates from now on
void net_capacity(size_t bytes);       // socket buffer size of sockets created from now on
enum NetFault : unsigned
{
  SHORT_READ = 1,
  SHORT_WRITE = 2,
  INTR_READ = 4,
  INTR_WRITE = 8,
  SYS_FAIL = 16,   // socket/bind/listen/connect/accept may fail
  INTR_SELECT = 32,
};
void net_faults(unsigned mask);
void net_fault_thread(bool on);        // faults apply to calls of this thread (default on)
void net_all_cuts(bool on);            // every read size is a free choice (segmentation enumeration)
int open_fds();
void set_proc_net_unix(const char* text);  // content of /proc/net/unix; nullptr: generated from the simulated sockets
bool pipe_at(int i, int fds[2]);        // descriptors the i-th created pipe had
FILE* file_from_fd(int fd, const char* mode = "r");  // stdio stream on a simulated socket
void race_ignore(bool on);             // this thread's accesses are not race checked
void set_verbose(bool on);
struct RaceIgnore
{
  RaceIgnore() { race_ignore(true); }
  ~RaceIgnore() { race_ignore(false); }
};
std::string hex(const std::vector<uint8_t>& d);
}  // namespace mc
