// P11: a tracepoint is emitted exactly when the process switch and the calling thread's switch are on.
#include <scalopus_tracing/internal/trace_configuration_raii.h>
#include <scalopus_tracing/trace_macro.h>
#include <memory>
#include <stdexcept>
#include <thread>
#include "tp.h"
using namespace tp;
using scalopus::TraceConfigurator;
using scalopus::TraceConfigurationRAII;
static int seen()
{
#ifdef TP_LTTNG
  return mc::record_count();
#else
  return (int)mine().size();
#endif
}
// emits one tracepoint of every kind, requires that exactly the expected ones appear
static void emit(bool expected, unsigned id, const char* when)
{
  int from = seen();
  scalopus::scope_entry(id);
  scalopus::mark_event(id + 1, scalopus::MarkLevel::GLOBAL);
  scalopus::mark_event(id + 2, scalopus::MarkLevel::PROCESS);
  scalopus::mark_event(id + 3, scalopus::MarkLevel::THREAD);
  scalopus::count_event(id + 4, -5);
  scalopus::scope_exit(id);
  std::vector<Ev> want;
  if (expected)
    want = { { ENTRY, id, 0 }, { MARK_G, id + 1, 0 }, { MARK_P, id + 2, 0 }, { MARK_T, id + 3, 0 }, { COUNT, id + 4, -5 }, { EXIT, id, 0 } };
  auto got = mine(from);
  MC_REQUIRE(got == want, "%s: emitted %s, expected %s", when, str(got).c_str(), str(want).c_str());
}
// Every sequence of switch changes, scoped switches and tracepoints of one thread, against a model of the switches.
static void sequence(int depth)
{
  auto cfg = TraceConfigurator::getInstance();
  MC_REQUIRE(cfg == TraceConfigurator::getInstance(), "two configurators");
  bool p = true, t = true;
  struct Scope
  {
    bool proc, old;
    std::unique_ptr<TraceConfigurationRAII> r;
  };
  std::vector<Scope> stack;
  for (int i = 0; i < depth; i++)
  {
    int op = mc::choose(11, "op");
    bool v = op & 1;
    if (op <= 1)
    {
      bool old = cfg->setProcessState(v);
      MC_REQUIRE(old == p, "setProcessState returned %d, the switch was %d", old, p);
      p = v;
    }
    else if (op <= 3)
    {
      bool old = cfg->setThreadState(v);
      MC_REQUIRE(old == t, "setThreadState returned %d, the switch was %d", old, t);
      t = v;
    }
    else if (op <= 7)
    {
      bool proc = op >= 6;
      stack.push_back({ proc, proc ? p : t, std::make_unique<TraceConfigurationRAII>(proc, v) });
      (proc ? p : t) = v;
    }
    else if (op == 8)
    {
      if (stack.empty())
        return;  // same as a shorter sequence
      Scope s = std::move(stack.back());
      stack.pop_back();
      s.r.reset();
      (s.proc ? p : t) = s.old;
    }
    else if (op == 9)
      emit(p && t, 10, "sequence");
    else
    {
      // through the pointers tracepoints hold
      cfg->getThreadStatePtr()->store(!t);
      t = !t;
    }
    MC_REQUIRE(cfg->getProcessState() == p, "process switch is %d, expected %d", cfg->getProcessState(), p);
    MC_REQUIRE(cfg->getThreadState() == t, "thread switch is %d, expected %d", cfg->getThreadState(), t);
  }
  emit(p && t, 20, "end of sequence");
  while (!stack.empty())
  {
    (stack.back().proc ? p : t) = stack.back().old;
    stack.back().r.reset();
    stack.pop_back();
    emit(p && t, 30, "after a scoped switch ended");
    MC_REQUIRE(cfg->getProcessState() == p && cfg->getThreadState() == t, "a scoped switch did not restore the previous value");
  }
}
#ifdef TP_LTTNG
static const int depth = 5, more = 2;
static void init() {}
#else
static const int depth = 4, more = 1;
static void init() { scalopus::TracePointCollectorNative::getInstance()->setRingbufferSize(64); }
#endif
MC_SCENARIO(sequences, 0, 0, mc::SEQ, 5)
{
  init();
  sequence(mc::tier() ? depth + 1 : depth);
}
// The scoped switch macros, with every way out of the scope.
static int macros(int way, bool outer_proc, bool v1, bool v2, bool& p, bool& t)
{
  for (int i = 0; i < 2; i++)
  {
    if (outer_proc)
    {
      TRACING_CONFIG_PROCESS_STATE_RAII(v1);
      bool op = p;
      p = v1;
      emit(p && t, 40, "in process scope");
      {
        TRACING_CONFIG_THREAD_STATE_RAII(v2);
        emit(p && v2, 50, "in thread scope");
        if (way == 1)
        {
          p = op;
          return 1;
        }
        if (way == 2)
        {
          p = op;
          throw std::runtime_error("out");
        }
        if (way == 3)
        {
          p = op;
          break;
        }
        if (way == 4)
        {
          p = op;
          continue;
        }
      }
      emit(p && t, 60, "back in process scope");
      p = op;
    }
    else
    {
      TRACING_CONFIG_THREAD_STATE_RAII(v1);
      emit(p && v1, 40, "in thread scope");
      {
        TRACING_CONFIG_PROCESS_STATE_RAII(v2);
        TRACING_CONFIG_THREAD_STATE_RAII(!v1);
        emit(v2 && !v1, 50, "in process scope");
        if (way == 1)
          return 1;
        if (way == 2)
          throw std::runtime_error("out");
        if (way == 3)
          break;
        if (way == 4)
          continue;
      }
      emit(p && v1, 60, "back in thread scope");
    }
  }
  return 0;
}
MC_SCENARIO(scoped_macros, 0, 0, mc::SEQ, 5)
{
  init();
  auto cfg = TraceConfigurator::getInstance();
  bool p = mc::choose(2, "process"), t = mc::choose(2, "thread");
  cfg->setProcessState(p);
  cfg->setThreadState(t);
  int way = mc::choose(5, "way out");
  int a = mc::choose(2), b = mc::choose(2), c = mc::choose(2);
  try
  {
    macros(way, a, b, c, p, t);
  }
  catch (const std::runtime_error&)
  {
  }
  MC_REQUIRE(cfg->getProcessState() == p && cfg->getThreadState() == t, "scoped switches left process %d thread %d, before %d %d", cfg->getProcessState(),
             cfg->getThreadState(), p, t);
  emit(p && t, 70, "after the scopes");
}
// Two threads switch themselves and trace, all interleavings: neither notices the other.
MC_SCENARIO(independent_threads, more, more + 1, 0, 5)
{
  init();
  auto body = [](unsigned id) {
    auto cfg = TraceConfigurator::getInstance();
    emit(true, id, "a new thread");
    MC_REQUIRE(cfg->setThreadState(false) == true, "a thread did not start enabled");
    emit(false, id + 10, "a thread that switched itself off");
    {
      TRACING_CONFIG_THREAD_STATE_RAII(true);
      emit(true, id + 20, "a thread that switched itself on again");
    }
    MC_REQUIRE(cfg->getThreadState() == false, "scoped switch did not restore");
  };
  std::thread a(body, 100), b(body, 200);
  a.join();
  b.join();
  emit(true, 300, "the thread that never switched");
}
// First use by several threads at once: one process switch, one switch per thread.
MC_SCENARIO(first_use, 2, 3, 0, 5)
{
  init();
  std::thread a([] {
    TraceConfigurator::getInstance()->setThreadState(false);
    emit(false, 1, "switched off before the first tracepoint");
  });
  std::thread b([] { emit(true, 11, "first tracepoint of a thread"); });
  a.join();
  b.join();
  MC_REQUIRE(TraceConfigurator::getInstance()->getProcessState(), "process switch off");
}
// The process switch changes while another thread traces: decided by the value at that moment.
enum { OFF0 = 1, OFF1, ON0, ON1, E0, E1 };
MC_SCENARIO(process_switch, 2, 3, 0, 5)
{
  init();
  std::thread a([] {
    for (long i = 0; i < 3; i++)
    {
      int from = seen();
      mc::record(E0, i);
      if (i & 1)
        scalopus::mark_event((unsigned)i, scalopus::MarkLevel::THREAD);
      else
        scalopus::scope_entry((unsigned)i);
      mc::record(E1, i);
      auto got = mine(from);
      MC_REQUIRE(got.size() <= 1, "one tracepoint emitted %zu events", got.size());
      long b = -1, e = -1, off0 = -1, off1 = -1, on0 = -1, on1 = -1;
      for (int k = 0; k < mc::record_count(); k++)
      {
        auto& r = mc::record_at(k);
        if (r.kind == E0 && r.a == i)
          b = k;
        if (r.kind == E1 && r.a == i)
          e = k;
        if (r.kind == OFF0)
          off0 = k;
        if (r.kind == OFF1)
          off1 = k;
        if (r.kind == ON0)
          on0 = k;
        if (r.kind == ON1)
          on1 = k;
      }
      if (off1 >= 0 && b > off1 && (on0 < 0 || e < on0))
        MC_REQUIRE(got.empty(), "tracepoint %ld emitted while the process was switched off", i);
      if (off0 < 0 || e < off0 || (on1 >= 0 && b > on1))
        MC_REQUIRE(got.size() == 1, "tracepoint %ld missing although the process was switched on", i);
      mc::outcome("%zu", got.size());
    }
  });
  auto cfg = TraceConfigurator::getInstance();
  mc::record(OFF0);
  bool o1 = cfg->setProcessState(false);
  mc::record(OFF1);
  mc::record(ON0);
  bool o2 = cfg->setProcessState(true);
  mc::record(ON1);
  MC_REQUIRE(o1 == true && o2 == false, "setProcessState returned %d and %d", o1, o2);
  a.join();
}
// Concurrent changes of the process switch are atomic: the returned values chain.
MC_SCENARIO(exchange, 2, 3, 0, 5)
{
  auto cfg = TraceConfigurator::getInstance();
  bool r1 = false, r2 = false;
  std::thread a([&] { r1 = TraceConfigurator::getInstance()->setProcessState(false); });
  std::thread b([&] { r2 = TraceConfigurator::getInstance()->setProcessState(false); });
  a.join();
  b.join();
  MC_REQUIRE(r1 != r2, "two threads both found the switch %d when setting it to 0", r1);
  MC_REQUIRE(!cfg->getProcessState(), "switch not off");
}
// A thread that inherits the identity of an exited one starts enabled, whatever the first one did.
MC_SCENARIO(reused_identity, 1, 2, 0, 5)
{
  init();
  int how = mc::choose(4, "first thread");
  pthread_t id1{}, id2{};
  std::thread([&] {
    id1 = pthread_self();
    auto cfg = TraceConfigurator::getInstance();
    if (how == 1)
      emit(true, 1, "first thread");
    if (how <= 2)
      cfg->setThreadState(false);
    if (how == 2)
      emit(false, 1, "first thread");
    if (how == 3)
    {
      TRACING_CONFIG_THREAD_STATE_RAII(false);
      emit(false, 1, "first thread");
    }
  }).join();
  MC_REQUIRE(TraceConfigurator::getInstance()->getThreadMap().count((unsigned long)id1) == 0, "an exited thread is still registered");
  int how2 = mc::choose(2, "second thread");
  std::thread([&] {
    id2 = pthread_self();
    auto cfg = TraceConfigurator::getInstance();
    if (how2)
      emit(true, 11, "thread with a reused identity");
    MC_REQUIRE(cfg->setThreadState(false) == true, "a thread with a reused identity did not start enabled");
    emit(false, 21, "thread with a reused identity");
  }).join();
  mc::outcome("reused=%d", pthread_equal(id1, id2));
  emit(true, 31, "main thread");
}
