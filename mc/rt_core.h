// Internal state of the runtime: threads, objects, shadow memory, scheduler.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "mc.h"
#include "rt.h"

namespace mcrt
{
constexpr int NT = 16;
typedef uint32_t VC[NT];
enum Wait { W_RUN, W_MUTEX, W_RD, W_WR, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_READ, W_WRITE, W_SELECT, W_ACCEPT, W_CONNECT,
            W_ONCE, W_NEVER, W_RECORDS, W_DONE };
struct Obj
{
  uintptr_t addr;
  uint64_t hash, rsum;
  VC sync;
  int owner, count, readers, kind, state;
};
struct SelSet
{
  int nfds;
  struct { int fd; bool rd, wr; } e[64];
};
struct Thr
{
  int id;
  bool used, finished, joined, detached, timedout, woken;
  Wait wait;
  Obj* wobj;
  void* waddr;
  uint64_t deadline;
  int wfd, wtarget;
  int wkind, wcount;
  SelSet sel;
  VC vc, relfence, acqpend;
  uint64_t hash;
  pthread_t pth;
  volatile int go;
  void* (*fn)(void*);
  void* arg;
  char* stack;
  int pid;
  int ignore;
  bool netfault;
};
constexpr uint64_t NEVER = UINT64_MAX;
constexpr int NOBJ = 1 << 17;
constexpr int NREC = 4096;
struct Acc { uint32_t clk; uint32_t pc; uint8_t tid, mask, write, pad; };
struct Cell { Acc a[4]; uint8_t n, state, freetid, pad; uint32_t freepc; };
struct Page { uintptr_t page; Cell c[512]; };
constexpr int NPAGE = 1 << 15;

struct Sock
{
  int type;  // 0 free 1 new 2 listen 3 stream
  char name[110];
  int namelen;
  bool nonblock, peer_closed, shut_wr, shut_rd, reset;
  int backlog, qn, q[16];
  int peer;
  int err;
  char* buf;
  size_t head, len, cap, alloc;
  int pid;
  int refs;
  Obj* in;   // incoming stream object (hash/vc)
  bool pending;
};
constexpr int NSOCK = 64, FDBASE = 16, NFD = 256, NCOOKIE = 64;

struct Globals
{
  bool active;
  bool races, atomics, refcounts, delay, strict_fd, timers, ordered, leak_ok, seq;
  bool verbose;
  Slot* slot;
  Cache* cache;
  Thr thr[NT];
  int nthr, cur;
  uint64_t clock, horizon;
  uint64_t steps;
  int cost;
  uint32_t npoints, prefix_pos;
  Obj obj[NOBJ];
  int nobj;
  Page* pages[NPAGE];
  Obj hist, clockobj, fdobj;
  mc::Rec rec[NREC];
  int nrec;
  Sock sock[NSOCK];
  int fd[NFD];
  size_t netcap;
  unsigned faults;
  bool allcuts;
  const char* procnet;
  char* stackpool[NT * 4];
  int nstackpool;
  FILE* cookie_file[NCOOKIE];
  int cookie_fd[NCOOKIE];
  int ncookie;
  int pipe_fd[NCOOKIE][2], npipe;  // every pipe that was created
  int notelen;
  char notes[3000];
};
extern Globals G;
extern __thread Thr* self;
long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
inline bool on() { return G.active && self != nullptr; }
void* ralloc(size_t n);  // never freed
Obj* obj_at(const void* p);
void hb_op(Obj* o, bool write, uint64_t extra);
void acquire(Obj* o);
void release(Obj* o);  // o.sync joins vc, then tick
void release_set(Obj* o);
void schedule();                       // give up the token according to self->wait
void point(const char* what, Obj* o);  // scheduling point with self runnable
bool block(Wait w, const char* what, uint64_t deadline = NEVER);  // false: timed out
[[noreturn]] void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void rterror(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool sock_ready(Thr& t);
void access(const void* p, size_t n, bool write, void* pc);
void heap_freed(void* p, size_t n, void* pc);
void heap_alloced(void* p, size_t n);
void shadow_clear(uintptr_t lo, uintptr_t hi);
int env_choice(int n, bool dev, const char* tag);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
}  // namespace mcrt
