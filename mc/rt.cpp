// Scheduler, happens-before tracking, race detector, thread and synchronisation interposition.
#include "rt_core.h"
#include <dlfcn.h>
#include <limits.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>

namespace mcrt
{
Globals G;
__thread Thr* self = nullptr;
static pthread_key_t exit_key;
static mc::Scenario scen[256];
static int nscen;

long rsys(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

static char* rpos;
static char* rend;
void* ralloc(size_t n)
{
  n = (n + 63) & ~size_t(63);
  if (rpos == nullptr || rpos + n > rend)
  {
    size_t chunk = n > (4u << 20) ? n : (4u << 20);
    rpos = (char*)rsys(SYS_mmap, 0, (long)chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rend = rpos + chunk;
  }
  void* r = rpos;
  rpos += n;
  return r;
}

void trace(const char* fmt, ...)
{
  if (!G.verbose)
    return;
  char b[512];
  int k = snprintf(b, sizeof b, "[T%d @%llu.%03llums] ", self ? self->id : -1, (unsigned long long)(G.clock / 1000000 % 1000000),
                   (unsigned long long)(G.clock / 1000 % 1000));
  va_list ap;
  va_start(ap, fmt);
  k += vsnprintf(b + k, sizeof b - 2 - k, fmt, ap);
  va_end(ap);
  if (k > (int)sizeof b - 2) k = sizeof b - 2;
  b[k++] = '\n';
  rsys(SYS_write, 2, (long)b, k);
}

[[noreturn]] static void die(Status st)
{
  G.slot->npoints = G.npoints;
  G.slot->steps = G.steps;
  __atomic_store_n(&G.slot->status, (uint32_t)st, __ATOMIC_SEQ_CST);
  rsys(SYS_exit_group, 0);
  __builtin_unreachable();
}

[[noreturn]] static void vviolate(const char* kind, const char* fmt, va_list ap)
{
  G.active = false;
  snprintf(G.slot->kind, sizeof G.slot->kind, "%s", kind);
  int k = vsnprintf(G.slot->msg, sizeof G.slot->msg, fmt, ap);
  if (k < (int)sizeof G.slot->msg - 10 && G.notelen > 0)
    snprintf(G.slot->msg + k, sizeof G.slot->msg - k, "\n  notes: %s", G.notes);
  trace("VIOLATION %s: %s", kind, G.slot->msg);
  die(ST_VIOLATION);
}
void violate(const char* kind, const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vviolate(kind, fmt, ap);
}
void rterror(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  G.active = false;
  snprintf(G.slot->kind, sizeof G.slot->kind, "harness-error");
  vsnprintf(G.slot->msg, sizeof G.slot->msg, fmt, ap);
  trace("ERROR %s", G.slot->msg);
  die(ST_ERROR);
}

// ---------------------------------------------------------------- objects and happens-before
Obj* obj_at(const void* p)
{
  uintptr_t a = (uintptr_t)p;
  uint64_t h = mix(a, 77);
  for (int i = 0; i < NOBJ; i++)
  {
    Obj* o = &G.obj[(h + i) & (NOBJ - 1)];
    if (o->addr == a)
      return o;
    if (o->addr == 0)
    {
      if (++G.nobj > NOBJ * 9 / 10)
        rterror("object table full");
      o->addr = a;
      o->owner = -1;
      return o;
    }
  }
  rterror("object table full");
}

void hb_op(Obj* o, bool write, uint64_t extra)
{
  Thr* t = self;
  if (write)
  {
    t->hash = mix(mix(mix(t->hash, o->hash), o->rsum), extra * 2 + 1);
    o->hash = mix(o->hash + o->rsum, t->hash);
    o->rsum = 0;
  }
  else
  {
    t->hash = mix(mix(t->hash, o->hash), extra * 2);
    o->rsum += mix(t->hash, 5);
  }
}
void acquire(Obj* o)
{
  for (int i = 0; i < NT; i++)
    if (o->sync[i] > self->vc[i])
      self->vc[i] = o->sync[i];
}
void release(Obj* o)
{
  for (int i = 0; i < NT; i++)
    if (self->vc[i] > o->sync[i])
      o->sync[i] = self->vc[i];
  self->vc[self->id]++;
}
void release_set(Obj* o)
{
  for (int i = 0; i < NT; i++)
    o->sync[i] = self->vc[i];
  self->vc[self->id]++;
}

// ---------------------------------------------------------------- choices
static bool cache_seen(uint64_t key)
{
  Cache* c = G.cache;
  uint64_t h = mix(key, 3);
  uint64_t tag = (h | 1) << 8;  // 56 bit tag (never 0)
  uint64_t mine = tag | (uint64_t)(G.cost & 255);
  for (uint64_t i = mix(key, 9), n = 0; n < 64; i++, n++)
  {
    uint64_t* e = &c->tab[i & c->mask];
    uint64_t v = __atomic_load_n(e, __ATOMIC_RELAXED);
    while (true)
    {
      if (v == 0)
      {
        if (c->count > c->mask * 3 / 4)
          return false;
        if (__atomic_compare_exchange_n(e, &v, mine, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
        {
          __atomic_fetch_add(&c->count, 1, __ATOMIC_RELAXED);
          G.slot->new_states++;
          return false;
        }
        continue;
      }
      if ((v & ~uint64_t(255)) != tag)
        break;
      if ((v & 255) <= (uint64_t)G.cost)
        return true;
      if (__atomic_compare_exchange_n(e, &v, mine, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
        return false;
    }
  }
  return false;
}
static uint64_t state_key(uint64_t salt)
{
  uint64_t s = mix(salt, G.clock);
  for (int i = 0; i < G.nthr; i++)
    s += mix(mix(G.thr[i].hash, i), 1 + (G.thr[i].finished ? 1 : 0));
  return mix(s, G.cur);
}
// Returns the chosen alternative; records the point.
static int decide(int n, uint32_t costmask, PointKind kind)
{
  if (n <= 1)
    return 0;
  if (n > 250)
    rterror("choice with too many alternatives: %d", n);
  if (G.npoints >= (uint32_t)MAXPTS)
    violate("hang", "execution exceeded %d choice points", MAXPTS);
  int c = 0;
  uint32_t i = G.npoints;
  if (i < G.slot->prefix_len)
  {
    c = G.slot->prefix[i];
    if (c >= n || (G.slot->prefix_n[i] != 0 && G.slot->prefix_n[i] != n))
      rterror("divergence while replaying at point %u: choice %d of %d, expected %d alternatives", i, c, n, G.slot->prefix_n[i]);
  }
  else if (G.slot->use_cache && cache_seen(state_key(kind * 1000 + n)) && !G.slot->rerun_slow)  // a repeated run finds its own states
  {
    die(ST_PRUNED);
  }
  Point& p = G.slot->pts[i];
  p.n = (uint8_t)n;
  p.chosen = (uint8_t)c;
  p.kind = kind;
  p.cost_before = (uint8_t)G.cost;
  p.costmask = costmask;
  G.npoints++;
  G.slot->npoints = G.npoints;  // known even if the process dies
  bool costly = kind == PK_SCHED ? (costmask >> c) & 1 : (kind == PK_DEV && c > 0);
  if (costly)
    G.cost++;
  return c;
}
int env_choice(int n, bool dev, const char* tag)
{
  int c = decide(n, 0, dev ? PK_DEV : PK_CHOOSE);
  self->hash = mix(self->hash, 1000 + c);
  if (n > 1)
    trace("choice %s -> %d of %d", tag, c, n);
  return c;
}

// ---------------------------------------------------------------- scheduler
static bool enabled(Thr& t)
{
  if (!t.used || t.finished)
    return false;
  if (t.deadline <= G.clock)
    return true;
  switch (t.wait)
  {
    case W_RUN: return true;
    case W_MUTEX: return t.wobj->owner == -1;
    case W_RD: return t.wobj->owner == -1;
    case W_WR: return t.wobj->owner == -1 && t.wobj->readers == 0;
    case W_COND:
    case W_FUTEX: return t.woken;
    case W_JOIN: return G.thr[t.wtarget].finished;
    case W_ONCE: return t.wobj->state != 1;
    case W_READ:
    case W_WRITE:
    case W_SELECT:
    case W_ACCEPT:
    case W_CONNECT: return sock_ready(t);
    case W_RECORDS:
    {
      int k = 0;
      for (int i = 0; i < G.nrec; i++)
        if (G.rec[i].kind == t.wkind)
          k++;
      return k >= t.wcount;
    }
    default: return false;
  }
}
static void futex_wait_go(Thr* t)
{
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
    rsys(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void futex_wake_go(Thr* t)
{
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  rsys(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}
static const char* wname(Wait w)
{
  static const char* n[] = { "run", "mutex", "rdlock", "wrlock", "cond", "futex", "join", "sleep", "read", "write", "select", "accept", "connect", "once", "never", "records", "done" };
  return n[w];
}
static void describe_threads(char* b, size_t n)
{
  size_t k = 0;
  b[0] = 0;
  for (int i = 0; i < G.nthr; i++)
    if (G.thr[i].used && !G.thr[i].finished && k < n)
      k += snprintf(b + k, n - k, " T%d:%s", i, wname(G.thr[i].wait));
}
static bool yielding;
void schedule()
{
  Thr* me = self;
  if (++G.steps > (G.seq ? 8000000 : 400000))
  {
    char b[400];
    describe_threads(b, sizeof b);
    violate("hang", "execution does not terminate (%lu steps);%s", (unsigned long)G.steps, b);
  }
  int alt[NT * 2];
  bool timer[NT * 2];
  int n = 0;
  bool cur_en = !me->finished && enabled(*me);
  bool y = yielding;
  yielding = false;
  if (cur_en && !y)
    alt[n] = me->id, timer[n++] = false;
  for (int k = 1; k < G.nthr; k++)
  {
    int i = (me->id + k) % G.nthr;
    if (enabled(G.thr[i]))
      alt[n] = i, timer[n++] = false;
  }
  if (cur_en && y)
    alt[n] = me->id, timer[n++] = false;
  int nrun = n;
  if (nrun == 0 || (G.timers && !G.seq))
  {
    uint64_t best = NEVER;
    for (int i = 0; i < G.nthr; i++)
      if (G.thr[i].used && !G.thr[i].finished && G.thr[i].deadline > G.clock && G.thr[i].deadline < best)
        best = G.thr[i].deadline;
    if (best != NEVER)
      for (int k = 0; k < G.nthr; k++)
      {
        int i = (me->id + k) % G.nthr;
        if (G.thr[i].used && !G.thr[i].finished && G.thr[i].deadline == best && !enabled(G.thr[i]))
          alt[n] = i, timer[n++] = true;
      }
  }
  if (n == 0)
  {
    char b[400];
    describe_threads(b, sizeof b);
    violate("deadlock", "no thread can make progress;%s", b);
  }
  uint32_t mask = 0;
  for (int i = 1; i < n; i++)
  {
    bool costly;
    if (timer[i] && nrun > 0)
      costly = true;
    else if (G.delay)
      costly = true;
    else
      costly = cur_en && !y;
    if (costly)
      mask |= 1u << i;
  }
  if (G.seq)
    n = 1;
  int c = decide(n, mask, PK_SCHED);
  Thr* next = &G.thr[alt[c]];
  if (timer[c])
  {
    G.clock = next->deadline;
    G.clockobj.hash = mix(G.clockobj.hash, G.clock);
    if (G.clock > G.horizon)
    {
      char b[400];
      describe_threads(b, sizeof b);
      violate("hang", "not finished after %.1f virtual seconds;%s", G.horizon / 1e9 - 1000, b);
    }
  }
  if (next == me)
    return;
  trace("switch to T%d%s", next->id, timer[c] ? " (timer)" : "");
  G.cur = next->id;
  futex_wake_go(next);
  if (!me->finished)
    futex_wait_go(me);
}
void point(const char* what, Obj* o)
{
  trace("%s %p", what, o ? (void*)o->addr : nullptr);
  self->wait = W_RUN;
  self->deadline = NEVER;
  schedule();
}
bool block(Wait w, const char* what, uint64_t deadline)
{
  trace("%s (%s)", what, wname(w));
  Thr* t = self;
  t->wait = w;
  t->deadline = deadline;
  schedule();
  uint64_t d = t->deadline;
  t->deadline = NEVER;
  bool ok = enabled(*t);
  t->wait = W_RUN;
  if (!ok)
  {
    (void)d;
    t->hash = mix(t->hash, 0x71);  // timed out
    hb_op(&G.clockobj, false, 3);
  }
  return ok;
}

// ---------------------------------------------------------------- shadow memory
static Page* page_of(uintptr_t a, bool create)
{
  uintptr_t pg = a >> 12;
  uint64_t h = mix(pg, 1);
  for (int i = 0; i < NPAGE; i++)
  {
    Page*& p = G.pages[(h + i) & (NPAGE - 1)];
    if (p == nullptr)
    {
      if (!create)
        return nullptr;
      p = (Page*)ralloc(sizeof(Page));
      p->page = pg;
      return p;
    }
    if (p->page == pg)
      return p;
  }
  rterror("shadow table full");
}
static uintptr_t glo, ghi;
static void pcs(uint64_t a, uint64_t b, uint64_t c)
{
  G.slot->pcs[0] = a;
  G.slot->pcs[1] = b;
  G.slot->pcs[2] = c;
}
static inline void cell_access(Cell& c, uint8_t mask, bool write, uint32_t pc, uintptr_t a, bool isfree)
{
  Thr* t = self;
  if (c.state != 0)
  {
    pcs(pc, c.freepc, 0);
    if (c.state == 1)
      violate(isfree ? "double-free" : "use-after-free", "%s of memory that T%d freed, by T%d", isfree ? "free" : write ? "write" : "read", c.freetid, t->id);
    violate("heap-overflow", "%s outside a heap block by T%d", write ? "write" : "read", t->id);
  }
  int k = 0;
  for (int i = 0; i < c.n; i++)
  {
    Acc& x = c.a[i];
    bool overlap = x.mask & mask;
    if (x.tid == t->id)
    {
      if (overlap && (x.mask & ~mask) == 0 && (write || !x.write))
        continue;  // superseded
      if (overlap && (mask & ~x.mask) == 0 && x.write && x.clk == t->vc[t->id] && k == i)
      {
        if (!write)
          return;  // already covered by our own write in this epoch
      }
    }
    else if (overlap && (write || x.write))
    {
      if (x.clk > t->vc[x.tid])
      {
        if (G.races && t->ignore == 0)
        {
          pcs(pc, x.pc, 0);
          violate(isfree ? "race-free" : "data-race", "%s by T%d races with %s by T%d", isfree ? "free" : write ? "write" : "read", t->id,
                  x.write ? "write" : "read", x.tid);
        }
      }
      else if (write && (x.mask & ~mask) == 0)
        continue;  // ordered before us and covered
    }
    if (k != i)
      c.a[k] = x;
    k++;
  }
  if (k == 4)
  {
    for (int i = 0; i < 3; i++)
      c.a[i] = c.a[i + 1];
    k = 3;
  }
  Acc& x = c.a[k++];
  x.clk = t->vc[t->id];
  x.pc = pc;
  x.tid = (uint8_t)t->id;
  x.mask = mask;
  x.write = write;
  c.n = (uint8_t)k;
}
void access(const void* p, size_t n, bool write, void* pcv)
{
  if (!on() || n == 0)
    return;
  uintptr_t a = (uintptr_t)p;
  if (a >= glo && a < ghi)
    return;
  uint32_t pc = (uint32_t)(uintptr_t)pcv;
  if (a < 4096)
    return;  // let it fault
  if (self->ignore && !G.slot)
    return;
  uintptr_t end = a + n;
  Page* pg = nullptr;
  while (a < end)
  {
    uintptr_t g = a & ~uintptr_t(7);
    uintptr_t e = end < g + 8 ? end : g + 8;
    uint8_t mask = (uint8_t)(((1u << (e - a)) - 1) << (a - g));
    if (pg == nullptr || pg->page != (a >> 12))
      pg = page_of(a, true);
    if (self->ignore == 0)
      cell_access(pg->c[(g >> 3) & 511], mask, write, pc, a, false);
    a = e;
  }
}
void shadow_clear(uintptr_t lo, uintptr_t hi)
{
  for (uintptr_t a = lo & ~uintptr_t(7); a < hi;)
  {
    Page* p = page_of(a, false);
    if (p == nullptr)
    {
      a = (a | 4095) + 1;
      continue;
    }
    Cell& c = p->c[(a >> 3) & 511];
    c.n = 0;
    c.state = 0;
    a += 8;
  }
}
void heap_freed(void* ptr, size_t n, void* pcv)
{
  uintptr_t a = (uintptr_t)ptr, end = a + n;
  uint32_t pc = (uint32_t)(uintptr_t)pcv;
  for (; a < end; a += 8)
  {
    Page* p = page_of(a, true);
    Cell& c = p->c[(a >> 3) & 511];
    if (self->ignore == 0)
      cell_access(c, 255, true, pc, a, true);
    c.n = 0;
    c.state = 1;
    c.freetid = (uint8_t)self->id;
    c.freepc = pc;
  }
}
void heap_redzone(void* ptr)
{
  Page* p = page_of((uintptr_t)ptr, true);
  p->c[((uintptr_t)ptr >> 3) & 511].state = 2;
}

// ---------------------------------------------------------------- thread life cycle
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static create_t real_create;
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
constexpr size_t STACK = 1 << 20;

static void thread_exit(void* arg)
{
  Thr* t = (Thr*)arg;
  trace("thread exit");
  t->finished = true;
  t->wait = W_DONE;
  t->hash = mix(t->hash, 0xdead);
  schedule();
}
// a stack for the signal handler, for when a thread runs out of its own
enum { NTHR_ALT = 32 };
static char alt_stack[NTHR_ALT][65536];
static void use_alt_stack(int id)
{
  if (id < 0 || id >= NTHR_ALT)
    return;
  stack_t st;
  memset(&st, 0, sizeof st);
  st.ss_sp = alt_stack[id];
  st.ss_size = sizeof alt_stack[id];
  sigaltstack(&st, nullptr);
}
static void* thread_start(void* arg)
{
  Thr* t = (Thr*)arg;
  use_alt_stack(t->id);
  self = t;
  pthread_setspecific(exit_key, t);
  futex_wait_go(t);
  t->wait = W_RUN;
  return t->fn(t->arg);
}

static void sig_handler(int sig, siginfo_t* si, void*)
{
  if (G.active)
  {
    G.slot->pcs[0] = 0;
    violate("crash", "signal %d (%s) at address %p in T%d", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGPIPE ? "broken pipe" : sig == SIGFPE ? "arithmetic" : "fatal",
            (uintptr_t)si->si_addr < 4096 ? si->si_addr : (void*)0x1000, self ? self->id : -1);
  }
  rsys(SYS_exit_group, 3);
}
static void on_terminate()
{
  char what[300] = "no active exception";
  if (std::exception_ptr e = std::current_exception())
  {
    try
    {
      std::rethrow_exception(e);
    }
    catch (const std::exception& ex)
    {
      snprintf(what, sizeof what, "uncaught %s: %s", abi::__cxa_demangle(typeid(ex).name(), nullptr, nullptr, nullptr), ex.what());
    }
    catch (...)
    {
      snprintf(what, sizeof what, "uncaught exception");
    }
  }
  violate("terminate", "std::terminate in T%d: %s", self ? self->id : -1, what);
}

int scenario_count() { return nscen; }
const mc::Scenario& scenario(int i) { return scen[i]; }

void run_child(int si, Slot* slot, Cache* cache)
{
  const mc::Scenario& s = scen[si];
  glo = (uintptr_t)&G;
  ghi = glo + sizeof G;
  G.slot = slot;
  G.cache = cache;
  slot->status = ST_NONE;
  slot->npoints = 0;
  slot->steps = 0;
  slot->new_states = 0;
  slot->cases = 0;
  slot->kind[0] = slot->msg[0] = slot->outcome[0] = 0;
  memset(slot->pcs, 0, sizeof slot->pcs);
  G.verbose = slot->verbose;
  G.races = !(s.flags & mc::NO_RACES);
  G.atomics = !(s.flags & mc::NO_ATOMICS);
  G.refcounts = s.flags & mc::REFCOUNTS;
  G.delay = s.flags & mc::DELAY;
  G.strict_fd = s.flags & mc::STRICT_FD;
  G.timers = !(s.flags & mc::NO_TIMERS);
  G.ordered = !(s.flags & mc::UNORDERED);
  G.leak_ok = s.flags & mc::LEAK_THREADS;
  G.seq = s.flags & mc::SEQ;
  G.clock = 1000ull * 1000000000ull;
  G.horizon = G.clock + (uint64_t)(s.horizon_s * 1e9);
  G.netcap = 212992;
  for (int i = 0; i < NFD; i++)
    G.fd[i] = -1;
  real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  real_join = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
  real_detach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  pthread_key_create(&exit_key, thread_exit);
  std::set_terminate(on_terminate);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = sig_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  use_alt_stack(0);
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPIPE };
  for (int x : sigs)
    sigaction(x, &sa, nullptr);
  Thr& t = G.thr[0];
  t.id = 0;
  t.used = true;
  t.wait = W_RUN;
  t.deadline = NEVER;
  t.pth = pthread_self();
  t.vc[0] = 1;
  t.hash = 1;
  t.pid = 1000;
  t.netfault = true;
  G.nthr = 1;
  G.cur = 0;
  self = &t;
  rsys(SYS_alarm, slot->rerun_slow ? 120 : 20);
  G.active = true;
  try
  {
    s.fn();
  }
  catch (const std::exception& e)
  {
    violate("exception", "scenario ended with exception: %s", e.what());
  }
  mc::finish();
}
}  // namespace mcrt

using namespace mcrt;

// ---------------------------------------------------------------- harness API
namespace mc
{
static int g_tier;
int tier() { return g_tier; }
void set_tier(int t) { g_tier = t; }
int add_scenario(const Scenario& s)
{
  scen[nscen++] = s;
  return nscen;
}
int choose(int n, const char* tag) { return env_choice(n, false, tag); }
int deviate(int n, const char* tag) { return env_choice(n, true, tag); }
void fail(const char* kind, const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vviolate(kind, fmt, ap);
}
void outcome(const char* fmt, ...)
{
  size_t k = strlen(G.slot->outcome);
  va_list ap;
  va_start(ap, fmt);
  if (k < sizeof G.slot->outcome - 1)
    vsnprintf(G.slot->outcome + k, sizeof G.slot->outcome - k, fmt, ap);
  va_end(ap);
}
void note(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  if (G.notelen >= (int)sizeof G.notes - 600)
    G.notelen = 0;  // the latest ones matter
  G.notelen += vsnprintf(G.notes + G.notelen, sizeof G.notes - G.notelen, fmt, ap);
  if (G.notelen > (int)sizeof G.notes - 1)
    G.notelen = (int)sizeof G.notes - 1;
  va_end(ap);
}
void count_case(int n) { G.slot->cases += (uint64_t)n; }
void yield()
{
  yielding = true;
  point("yield", nullptr);
  self->hash = mix(self->hash, 0x59);
}
void sleep_ms(int ms)
{
  self->hash = mix(self->hash, 0x51);
  block(W_SLEEP, "sleep", G.clock + (uint64_t)ms * 1000000);
}
uint64_t now_ns() { return G.clock; }
void advance_ns(uint64_t ns)
{
  G.clock += ns;
  hb_op(&G.clockobj, true, 1);
}
bool running() { return on(); }
int self_id() { return self->id; }
int live_threads()
{
  int n = 0;
  for (int i = 0; i < G.nthr; i++)
    if (G.thr[i].used && !G.thr[i].finished && i != self->id)
      n++;
  return n;
}
void finish()
{
  if (!G.leak_ok && live_threads() > 0)
  {
    char b[400];
    describe_threads(b, sizeof b);
    violate("thread-leak", "threads still alive at the end;%s", b);
  }
  die(ST_OK);
}
void record(int kind, long a, long b) { record(kind, a, b, nullptr, 0); }
void record(int kind, long a, long b, const void* s, size_t n)
{
  if (G.nrec >= NREC)
    rterror("too many records");
  Rec& r = G.rec[G.nrec++];
  r.thread = self->id;
  r.kind = kind;
  r.a = a;
  r.b = b;
  r.slen = (int)n;
  for (size_t i = 0; i < n && i < sizeof r.s; i++)
    r.s[i] = ((const char*)s)[i];
  if (G.ordered)
    hb_op(&G.hist, true, mix(kind, a * 31 + b));
  else
    self->hash = mix(self->hash, mix(kind, a * 31 + b));
  trace("record kind=%d a=%ld b=%ld len=%zu", kind, a, b, n);
}
int record_count()
{
  hb_op(&G.hist, false, 8);
  return G.nrec;
}
const Rec& record_at(int i) { return G.rec[i]; }
bool wait_records(int kind, int n, int ms)
{
  self->wkind = kind;
  self->wcount = n;
  bool ok = block(W_RECORDS, "wait_records", ms < 0 ? NEVER : G.clock + (uint64_t)ms * 1000000);
  hb_op(&G.hist, false, 7);
  return ok;
}
void set_pid(int pid) { self->pid = pid; }
void race_ignore(bool on) { self->ignore += on ? 1 : -1; }
void set_verbose(bool on) { G.verbose = on; }
std::string hex(const std::vector<uint8_t>& d)
{
  std::string r;
  char b[4];
  for (auto c : d)
  {
    snprintf(b, sizeof b, "%02x", c);
    r += b;
  }
  return r;
}
}  // namespace mc

// ---------------------------------------------------------------- pthread interposition
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  if (!on())
  {
    create_t rc = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    return rc(out, attr, fn, arg);
  }
  int id = G.nthr;
  if (id >= NT)
    rterror("too many threads");
  Thr& t = G.thr[id];
  t.id = id;
  t.used = true;
  t.fn = fn;
  t.arg = arg;
  t.wait = W_RUN;
  t.deadline = NEVER;
  t.pid = self->pid;
  t.netfault = self->netfault;
  for (int i = 0; i < NT; i++)
    t.vc[i] = self->vc[i];
  t.vc[id] = 1;
  self->vc[self->id]++;
  self->hash = mix(self->hash, 0xc0de);
  t.hash = mix(self->hash, id);
  char* st = nullptr;
  if (G.nstackpool > 0)
    st = G.stackpool[--G.nstackpool];
  else
    st = (char*)rsys(SYS_mmap, 0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.stack = st;
  shadow_clear((uintptr_t)st, (uintptr_t)st + STACK);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, st, STACK);
  G.nthr++;
  trace("create T%d", id);
  int r = real_create(&t.pth, &a, thread_start, &t);
  if (r != 0)
    rterror("pthread_create failed: %d", r);
  *out = t.pth;
  return 0;
}
int pthread_join(pthread_t th, void** ret)
{
  if (!on())
    return ((int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join"))(th, ret);
  Thr* t = nullptr;
  for (int i = G.nthr - 1; i >= 0; i--)
    if (G.thr[i].used && !G.thr[i].joined && !G.thr[i].detached && pthread_equal(G.thr[i].pth, th))
    {
      t = &G.thr[i];
      break;
    }
  if (t == nullptr)
    return ESRCH;
  if (t == self)
    return EDEADLK;
  self->wtarget = t->id;
  block(W_JOIN, "join");
  t->joined = true;
  for (int i = 0; i < NT; i++)
    if (t->vc[i] > self->vc[i])
      self->vc[i] = t->vc[i];
  self->hash = mix(self->hash, t->hash);
  int r = real_join(th, ret);
  G.stackpool[G.nstackpool++] = t->stack;
  return r;
}
int pthread_detach(pthread_t th)
{
  if (!on())
    return ((int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"))(th);
  for (int i = 0; i < G.nthr; i++)
    if (G.thr[i].used && !G.thr[i].joined && pthread_equal(G.thr[i].pth, th))
      G.thr[i].detached = true;
  return real_detach(th);
}

// --- mutexes
static bool mtx_lock(pthread_mutex_t* m, uint64_t deadline)
{
  Obj* o = obj_at(m);
  int type = m->__data.__kind & 3;
  if (o->owner == self->id && type != PTHREAD_MUTEX_NORMAL)
  {
    if (type == PTHREAD_MUTEX_RECURSIVE)
    {
      o->count++;
      return true;
    }
  }
  access(m, 1, false, __builtin_return_address(0));
  self->wobj = o;
  if (!block(W_MUTEX, "lock", deadline))
    return false;
  access(m, 1, false, __builtin_return_address(0));
  o->owner = self->id;
  o->count = 1;
  acquire(o);
  hb_op(o, true, 11);
  return true;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!on())
    return 0;
  mtx_lock(m, NEVER);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!on())
    return 0;
  Obj* o = obj_at(m);
  point("trylock", o);
  if (o->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
  {
    o->count++;
    return 0;
  }
  bool ok = o->owner == -1;
  hb_op(o, true, 12 + ok);
  if (!ok)
    return EBUSY;
  o->owner = self->id;
  o->count = 1;
  acquire(o);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!on())
    return 0;
  Obj* o = obj_at(m);
  if (o->owner != self->id)
  {
    if (o->owner == -1 && o->count == 0)
      return 0;  // locked before the execution started
    violate("unlock", "T%d unlocks a mutex it does not own", self->id);
  }
  access(m, 1, false, __builtin_return_address(0));
  if (--o->count > 0)
    return 0;
  release(o);
  o->owner = -1;
  hb_op(o, true, 14);
  trace("unlock %p", (void*)m);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
  *m = z;
  if (a != nullptr)
  {
    int k = 0;
    pthread_mutexattr_gettype(a, &k);
    m->__data.__kind = k;
  }
  if (on())
  {
    Obj* o = obj_at(m);
    o->owner = -1;
    o->count = 0;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static uint64_t abs_deadline(const struct timespec* ts, int clk)
{
  uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  if (clk == CLOCK_REALTIME)
    return v > 1500000000ull * 1000000000ull ? v - 1500000000ull * 1000000000ull : 0;
  return v;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
  if (!on())
    return 0;
  return mtx_lock(m, abs_deadline(ts, CLOCK_REALTIME)) ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
  if (!on())
    return 0;
  return mtx_lock(m, abs_deadline(ts, c)) ? 0 : ETIMEDOUT;
}

// --- rwlocks
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*)
{
  pthread_rwlock_t z = PTHREAD_RWLOCK_INITIALIZER;
  *m = z;
  if (on())
  {
    Obj* o = obj_at(m);
    o->owner = -1;
    o->readers = 0;
  }
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
// For reader locks the sync clock is split: writers publish in the object at the lock's address, readers publish in a
// shadow object at address+1, which only writers acquire (two readers are not ordered with each other).
static Obj* robj(void* m) { return obj_at((char*)m + 1); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!on())
    return 0;
  access(m, 1, false, __builtin_return_address(0));
  Obj* o = obj_at(m);
  if (o->owner == self->id)
    return EDEADLK;
  self->wobj = o;
  block(W_RD, "rdlock");
  o->readers++;
  acquire(o);
  hb_op(o, false, 15);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
  if (!on())
    return 0;
  Obj* o = obj_at(m);
  point("tryrdlock", o);
  hb_op(o, true, 16);
  if (o->owner != -1)
    return EBUSY;
  o->readers++;
  acquire(o);
  return 0;
}
static int wrlock(pthread_rwlock_t* m, uint64_t dl)
{
  access(m, 1, false, __builtin_return_address(0));
  Obj* o = obj_at(m);
  if (o->owner == self->id)
    return EDEADLK;
  self->wobj = o;
  if (!block(W_WR, "wrlock", dl))
    return ETIMEDOUT;
  o->owner = self->id;
  acquire(o);
  acquire(robj(m));
  hb_op(o, true, 17);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return on() ? wrlock(m, NEVER) : 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* ts) { return on() ? wrlock(m, abs_deadline(ts, CLOCK_REALTIME)) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* ts) { return on() ? wrlock(m, abs_deadline(ts, c)) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
  if (!on())
    return 0;
  Obj* o = obj_at(m);
  point("trywrlock", o);
  hb_op(o, true, 18);
  if (o->owner != -1 || o->readers > 0)
    return EBUSY;
  o->owner = self->id;
  acquire(o);
  acquire(robj(m));
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if (!on())
    return 0;
  access(m, 1, false, __builtin_return_address(0));
  Obj* o = obj_at(m);
  trace("rwunlock %p", (void*)m);
  if (o->owner == self->id)
  {
    release(o);
    o->owner = -1;
    hb_op(o, true, 19);
  }
  else if (o->readers > 0)
  {
    release(robj(m));
    o->readers--;
    hb_op(o, false, 20);
  }
  return 0;
}

// --- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
  pthread_cond_t z = PTHREAD_COND_INITIALIZER;
  *c = z;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl)
{
  if (!on())
    return 0;
  pthread_mutex_unlock(m);
  self->waddr = c;
  self->woken = false;
  hb_op(obj_at(c), true, 21);
  bool ok = block(W_COND, "cond_wait", dl);
  self->waddr = nullptr;
  if (ok)
    hb_op(obj_at(c), true, 22);
  mtx_lock(m, NEVER);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, abs_deadline(ts, CLOCK_REALTIME)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cond_wait(c, m, abs_deadline(ts, k)); }
static int wake(void* addr, Wait w, int n)
{
  int k = 0;
  for (int i = 0; i < G.nthr && k < n; i++)
    if (G.thr[i].used && !G.thr[i].finished && G.thr[i].wait == w && G.thr[i].waddr == addr && !G.thr[i].woken)
    {
      G.thr[i].woken = true;
      k++;
    }
  return k;
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!on())
    return 0;
  point("cond_signal", obj_at(c));
  hb_op(obj_at(c), true, 23);
  wake(c, W_COND, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!on())
    return 0;
  point("cond_broadcast", obj_at(c));
  hb_op(obj_at(c), true, 24);
  wake(c, W_COND, NT);
  return 0;
}

// --- once and static guards
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!on())
  {
    if (*o != 2)
    {
      *o = 2;
      fn();
    }
    return 0;
  }
  Obj* x = obj_at(o);
  if (*o == 2)
  {
    acquire(x);
    hb_op(x, false, 25);
    return 0;
  }
  self->wobj = x;
  block(W_ONCE, "once");
  if (*o == 2)
  {
    acquire(x);
    hb_op(x, false, 26);
    return 0;
  }
  x->state = 1;
  hb_op(x, true, 27);
  try
  {
    fn();
  }
  catch (...)
  {
    x->state = 0;
    throw;
  }
  *o = 2;
  x->state = 2;
  release(x);
  hb_op(x, true, 28);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
  volatile char* b = (volatile char*)g;
  if (!on())
    return *b == 0;
  Obj* x = obj_at(g);
  if (*b)
  {
    acquire(x);
    return 0;
  }
  self->wobj = x;
  block(W_ONCE, "static-guard");
  if (*b)
  {
    acquire(x);
    hb_op(x, false, 29);
    return 0;
  }
  x->state = 1;
  hb_op(x, true, 30);
  return 1;
}
void __cxa_guard_release(uint64_t* g)
{
  *(volatile char*)g = 1;
  if (!on())
    return;
  Obj* x = obj_at(g);
  x->state = 2;
  release(x);
  hb_op(x, true, 31);
}
void __cxa_guard_abort(uint64_t* g)
{
  if (!on())
    return;
  Obj* x = obj_at(g);
  x->state = 0;
  hb_op(x, true, 32);
}

// --- time
static void fill_ts(clockid_t c, struct timespec* ts)
{
  uint64_t v = G.clock;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    v += 1500000000ull * 1000000000ull;
  ts->tv_sec = (time_t)(v / 1000000000ull);
  ts->tv_nsec = (long)(v % 1000000000ull);
  hb_op(&G.clockobj, false, 33);
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
  if (!on())
    return (int)rsys(SYS_clock_gettime, c, (long)ts);
  fill_ts(c, ts);
  return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
static int sleep_until(uint64_t dl)
{
  self->hash = mix(self->hash, 0x51);
  block(W_SLEEP, "sleep", dl <= G.clock ? G.clock : dl);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*)
{
  if (!on())
    return (int)rsys(SYS_nanosleep, (long)ts, 0);
  return sleep_until(G.clock + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec*)
{
  if (!on())
    return (int)-rsys(SYS_clock_nanosleep, c, flags, (long)ts, 0);
  if (flags & TIMER_ABSTIME)
    return sleep_until(abs_deadline(ts, c));
  return sleep_until(G.clock + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
}
int usleep(useconds_t us)
{
  struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
  struct timespec ts = { (time_t)s, 0 };
  nanosleep(&ts, nullptr);
  return 0;
}
int sched_yield()
{
  if (on())
    mc::yield();
  return 0;
}
pid_t getpid() { return on() ? self->pid : (pid_t)rsys(SYS_getpid); }
pid_t gettid() { return on() ? 2000 + self->id : (pid_t)rsys(SYS_gettid); }

long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on())
  {
    if (n == SYS_gettid)
      return 2000 + self->id;
    if (n == SYS_getpid)
      return self->pid;
    if (n == SYS_futex)
    {
      int op = (int)b & FUTEX_CMD_MASK;
      int* addr = (int*)a;
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
      {
        hb_op(obj_at((char*)addr + 2), true, 34);
        int k = wake(addr, W_FUTEX, (int)c);
        trace("futex wake %p -> %d", (void*)addr, k);
        return k;
      }
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
      {
        const struct timespec* ts = (const struct timespec*)d;
        uint64_t dl = NEVER;
        if (ts != nullptr)
        {
          if (op == FUTEX_WAIT)
            dl = G.clock + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
          else
            dl = abs_deadline(ts, (b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
        }
        point("futex_wait", nullptr);
        hb_op(obj_at((char*)addr + 2), true, 35);
        hb_op(obj_at(addr), false, 36);
        if (*(volatile int*)addr != (int)c)
        {
          errno = EAGAIN;
          return -1;
        }
        self->waddr = addr;
        self->woken = false;
        bool ok = block(W_FUTEX, "futex_blocked", dl);
        self->waddr = nullptr;
        if (!ok)
        {
          errno = ETIMEDOUT;
          return -1;
        }
        hb_op(obj_at((char*)addr + 2), true, 37);
        return 0;
      }
      rterror("unsupported futex operation %d", op);
    }
  }
  long r = rsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096)
  {
    errno = (int)-r;
    return -1;
  }
  return r;
}
}  // extern "C"

// ---------------------------------------------------------------- compiler instrumentation
#define PC __builtin_return_address(0)
#define CALLER_PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                            \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }              \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }              \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }    \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }    \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }     \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }     \
  void __tsan_read_write##n(void* p) { access(p, n, true, PC); }         \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v)
{
  if (*p != v)
    access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
}
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void check_dead(const volatile void* p, void* pc)
{
  // atomic accesses to freed memory are reported like plain ones, but never race with other atomics
  Page* pg = page_of((uintptr_t)p, false);
  if (pg == nullptr)
    return;
  Cell& c = pg->c[((uintptr_t)p >> 3) & 511];
  if (c.state == 1 && self->ignore == 0)
  {
    pcs((uint64_t)pc, c.freepc, 0);
    violate("use-after-free", "atomic access to memory that T%d freed, by T%d", c.freetid, self->id);
  }
}
static void loc_acquire(Obj* o, int mo)
{
  if (is_acq(mo))
    acquire(o);
  else
    for (int i = 0; i < NT; i++)
      if (o->sync[i] > self->acqpend[i])
        self->acqpend[i] = o->sync[i];
}
static void loc_store(Obj* o, int mo, bool rmw)
{
  if (is_rel(mo))
  {
    if (rmw)
      release(o);
    else
      release_set(o);
  }
  else if (!rmw)
  {
    for (int i = 0; i < NT; i++)
      o->sync[i] = self->relfence[i];
  }
  else
  {
    for (int i = 0; i < NT; i++)
      if (self->relfence[i] > o->sync[i])
        o->sync[i] = self->relfence[i];
  }
}
template <typename T>
static inline Obj* pre(const volatile T* p, const char* what, int mo, bool refcount, void* pc)
{
  check_dead(p, pc);
  Obj* o = obj_at((const void*)p);
  if (G.atomics && (!refcount || G.refcounts))
  {
    point(what, o);
    check_dead(p, pc);
  }
  return o;
}
template <typename T>
static T at_load(const volatile T* p, int mo, void* pc)
{
  if (!on())
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  Obj* o = pre(p, "atomic-load", mo, false, pc);
  T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  loc_acquire(o, mo);
  hb_op(o, false, 41);
  return v;
}
template <typename T>
static void at_store(volatile T* p, T v, int mo, void* pc)
{
  if (!on())
    return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  Obj* o = pre(p, "atomic-store", mo, false, pc);
  __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  loc_store(o, mo, false);
  hb_op(o, true, 42);
}
template <typename T, typename F>
static T at_rmw(volatile T* p, int mo, bool addlike, void* pc, F f)
{
  if (!on())
    return f();
  Obj* o = pre(p, "atomic-rmw", mo, addlike && sizeof(T) == 4 && mo == __ATOMIC_ACQ_REL, pc);
  T v = f();
  loc_acquire(o, mo);
  loc_store(o, mo, true);
  hb_op(o, true, 43);
  return v;
}
template <typename T>
static bool at_cas(volatile T* p, T* e, T v, int mo, int fmo, void* pc)
{
  if (!on())
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  Obj* o = pre(p, "atomic-cas", mo, sizeof(T) == 4 && mo == __ATOMIC_ACQ_REL, pc);
  bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (ok)
  {
    loc_acquire(o, mo);
    loc_store(o, mo, true);
    hb_op(o, true, 44);
  }
  else
  {
    loc_acquire(o, fmo);
    hb_op(o, false, 45);
  }
  return ok;
}
extern "C" {
#define ATOMICS(n, T)                                                                                                   \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { return at_load<T>(p, mo, PC); }                              \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo, PC); }                              \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, false, PC, [=] { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, true, PC, [=] { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, true, PC, [=] { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, false, PC, [=] { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, false, PC, [=] { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, false, PC, [=] { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, false, PC, [=] { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return at_cas<T>(p, e, v, mo, fmo, PC); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return at_cas<T>(p, e, v, mo, fmo, PC); }
ATOMICS(8, a8) ATOMICS(16, a16) ATOMICS(32, a32) ATOMICS(64, a64)
void __tsan_atomic_thread_fence(int mo)
{
  if (!on())
    return;
  if (is_acq(mo))
    for (int i = 0; i < NT; i++)
      if (self->acqpend[i] > self->vc[i])
        self->vc[i] = self->acqpend[i];
  if (is_rel(mo))
  {
    for (int i = 0; i < NT; i++)
      self->relfence[i] = self->vc[i];
    self->vc[self->id]++;
  }
}
void __tsan_atomic_signal_fence(int) {}

// --- memory functions called from instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
  access(d, n, true, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
  access(a, n, false, PC);
  access(b, n, false, PC);
  return __real_memcmp(a, b, n);
}
}
