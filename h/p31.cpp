// P31: what was traced is what is shown, through the whole of the system: macros, buffers, sender, transport, manager, providers,
// sources, recorder or viewer session.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/tracing.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <map>
#include <mutex>
#include <thread>
#include "mc.h"
#include "trace_session.h"
using namespace scalopus;
using json = nlohmann::json;
enum { APP = 100, VIEWER = 200, QUIET = 300 };
static const int SETTLE = 60;  // ms, the sender, the transports and the recorder all look every 10 ms
static double now_us() { return (double)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count() / 1e3; }
struct Ev
{
  std::string ph, name, s, series;
  long long value;
  double lo, hi;
};
static std::string str(const Ev& e) { return e.ph + ":" + e.name + (e.s.empty() ? "" : "(" + e.s + ")") + (e.ph == "C" ? "/" + e.series + "=" + std::to_string(e.value) : ""); }
typedef std::map<unsigned long, std::vector<Ev>> Log;
// what is to be shown: events by thread
struct World
{
  std::mutex m;
  Log log;
  bool on = false;  // an interval is open, the viewer is connected, the process is enabled
  long long value = 0;
  void add(std::initializer_list<Ev> v, double lo)
  {
    mc::RaceIgnore ri;
    if (!on)
      return;
    for (Ev e : v)
    {
      e.lo = lo;
      e.hi = now_us();
      std::lock_guard<std::mutex> l(m);
      log[(unsigned long)pthread_self()].push_back(e);
    }
  }
};
// one thing a program does
static const int OPS = 7;
static void emit(World& w, int op)
{
  double lo = now_us();
  switch (op)
  {
    case 0:
    {
      TRACE_SCOPE_RAII("outer");
      {
        TRACE_SCOPE_RAII("inner \"\xc3\xa9\" \\");
      }
    }
      w.add({ { "B", "outer", "", "", 0, 0, 0 }, { "B", "inner \"\xc3\xa9\" \\", "", "", 0, 0, 0 }, { "E", "inner \"\xc3\xa9\" \\", "", "", 0, 0, 0 }, { "E", "outer", "", "", 0, 0, 0 } }, lo);
      break;
    case 1:
      TRACE_MARK_EVENT_GLOBAL("global");
      TRACE_MARK_EVENT_PROCESS("process");
      TRACE_MARK_EVENT_THREAD("thread");
      w.add({ { "i", "global", "g", "", 0, 0, 0 }, { "i", "process", "p", "", 0, 0, 0 }, { "i", "thread", "t", "", 0, 0, 0 } }, lo);
      break;
    case 2:
    {
      long long v = 0;
      {
        mc::RaceIgnore ri;
        v = -++w.value * 5000000000ll;
      }
      TRACE_COUNT_SERIES("counter", "x", v);
      w.add({ { "C", "counter", "", "x", v, 0, 0 } }, lo);
      break;
    }
    case 3:
      TRACE_COUNT_SERIES("counter", "y", 7);
      w.add({ { "C", "counter", "", "y", 7, 0, 0 } }, lo);
      break;
    case 4:
    {
      TRACING_CONFIG_THREAD_STATE_RAII(false);
      TRACE_MARK_EVENT_GLOBAL("not shown");
    }
    break;
    case 5:
      TRACE_SCOPE_START("by hand");
      TRACE_SCOPE_END("by hand");
      w.add({ { "B", "by hand", "", "", 0, 0, 0 }, { "E", "by hand", "", "", 0, 0, 0 } }, lo);
      break;
    default:
      TRACE_COUNT("plain", 0);
      w.add({ { "C", "plain", "", "count", 0, 0, 0 } }, lo);
  }
}
static bool one_process;  // everything is in one, as with the loopback transport
// Runs f as the process pid, with the threads it starts.
template <typename F>
static void as(int pid, F f)
{
  if (one_process)
    return f();
  int me = ::getpid();
  mc::set_pid(pid);
  f();
  mc::set_pid(me);
}
// the traced process
struct App
{
  TransportFactory::Ptr factory;
  Transport::Ptr server;
  void start()
  {
    as(APP, [&] {
      server = factory->serve();
      MC_REQUIRE(server, "cannot serve");
      server->addEndpoint(std::make_shared<EndpointTraceMapping>());
      server->addEndpoint(std::make_shared<EndpointIntrospect>());
      server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
      server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
      auto info = std::make_shared<EndpointProcessInfo>();
      info->setProcessName("the app");
      server->addEndpoint(info);
    });
  }
};
// the side that shows
struct Viewer
{
  TransportFactory::Ptr factory;
  EndpointManagerPoll::Ptr manager;
  std::shared_ptr<NativeTraceProvider> native;
  std::shared_ptr<GeneralProvider> general;
  int kind;
  std::shared_ptr<CatapultRecorder> recorder;
  std::shared_ptr<TraceSession> session;
  std::mutex m;
  std::vector<json> messages;
  int sent = 0;
  Viewer(TransportFactory::Ptr f, int k) : factory(f), kind(k)
  {
    as(VIEWER, [&] {
      manager = std::make_shared<EndpointManagerPoll>(factory);
      manager->addEndpointFactory<EndpointTraceMapping>();
      manager->addEndpointFactory<EndpointProcessInfo>();
      manager->addEndpointFactory<EndpointTraceConfigurator>();
      native = std::make_shared<NativeTraceProvider>(manager);
      manager->addEndpointFactory(EndpointNativeTraceSender::name, native);
      general = std::make_shared<GeneralProvider>(manager);
      if (kind == 0)
      {
        recorder = std::make_shared<CatapultRecorder>();
        recorder->addProvider(native);
        recorder->addProvider(general);
        recorder->start();
      }
      else
      {
        session = std::make_shared<TraceSession>([this](std::string s) {
          std::lock_guard<std::mutex> l(m);
          messages.push_back(json::parse(s));
        });
        session->addSource(native->makeSource());
        session->addSource(general->makeSource());
      }
    });
  }
  void manage()
  {
    as(VIEWER, [&] { manager->manage(); });
  }
  // sends a command and returns when the message that ends it arrived
  void command(const char* method, const char* last)
  {
    session->incoming("{\"id\": " + std::to_string(++sent) + ", \"method\": \"" + method + "\"}");
    for (int i = 0; i < 200; i++)
    {
      {
        std::lock_guard<std::mutex> l(m);
        if (!messages.empty() && (last ? messages.back().value("method", "") == last : messages.back().count("result") != 0))
          return;
      }
      mc::sleep_ms(10);
    }
    MC_REQUIRE(false, "no answer to %s", method);
  }
  void start()
  {
    if (kind == 0)
      recorder->startInterval();
    else
    {
      command("Tracing.start", nullptr);
      std::lock_guard<std::mutex> l(m);
      messages.clear();
    }
  }
  std::vector<json> collect()
  {
    std::vector<json> r;
    if (kind == 0)
    {
      for (auto& e : json::parse(recorder->collectEvents()))
        r.push_back(e);
      return r;
    }
    command("Tracing.end", "Tracing.tracingComplete");
    std::lock_guard<std::mutex> l(m);
    for (auto& x : messages)
      if (x.value("method", "") == "Tracing.dataCollected")
        for (auto& e : x.at("params").at("value"))
          r.push_back(e);
    messages.clear();
    return r;
  }
  void process_switch(bool on)
  {
    int n = 0;
    for (auto& t : manager->endpoints())
    {
      auto c = EndpointManager::findEndpoint<EndpointTraceConfigurator>(t.second);
      if (!c)
        continue;
      EndpointTraceConfigurator::TraceConfiguration cfg;
      cfg.set_process_state = true;
      cfg.process_state = on;
      auto r = c->setTraceState(cfg);
      MC_REQUIRE(r.cmd_success && r.process_state == on, "the process cannot be switched");
      n++;
    }
    MC_REQUIRE(n <= 1 || one_process, "%d processes have switches", n);
  }
};
typedef std::map<int, std::map<unsigned long, std::string>> Names;  // the process has the name of thread 0
static void judge(const std::vector<json>& got, Log& want, const Names& names)
{
  std::string all;
  for (auto& e : got)
    all += e.dump() + " ";
  std::map<unsigned long, std::vector<json>> by;
  Names meta;
  double last = 0;
  for (auto& e : got)
  {
    unsigned long tid = e.at("tid").get<unsigned long>();
    int pid = e.at("pid").get<int>();
    if (e.at("ph") == "M")
    {
      MC_REQUIRE((e.at("name") == "process_name") == (tid == 0), "odd metadata %s", e.dump().c_str());
      MC_REQUIRE(!meta[pid].count(tid), "metadata twice: %s", e.dump().c_str());
      meta[pid][tid] = e.at("args").at("name").get<std::string>();
      continue;
    }
    MC_REQUIRE(pid == APP, "an event of process %d: %s", pid, e.dump().c_str());
    MC_REQUIRE(e.at("ts").get<double>() >= last, "events are out of order: %s", all.c_str());
    last = e.at("ts").get<double>();
    by[tid].push_back(e);
  }
  for (auto& t : by)
    MC_REQUIRE(want.count(t.first), "events of a thread that emitted none: %s", t.second[0].dump().c_str());
  for (auto& t : want)
  {
    std::string w;
    for (auto& e : t.second)
      w += str(e) + " ";
    auto& g = by[t.first];
    MC_REQUIRE(g.size() == t.second.size(), "a thread emitted %s, shown is %s", w.c_str(), all.c_str());
    for (size_t i = 0; i < g.size(); i++)
    {
      auto& e = t.second[i];
      bool ok = g[i].at("ph") == e.ph && g[i].at("name") == e.name && g[i].value("s", "") == e.s;
      if (ok && e.ph == "C")
        ok = g[i].at("args").count(e.series) && g[i].at("args").at(e.series).get<long long>() == e.value;
      double ts = g[i].at("ts").get<double>();
      MC_REQUIRE(ok, "a thread emitted %s, shown is %s", w.c_str(), all.c_str());
      MC_REQUIRE(ts >= e.lo - 0.5 && ts <= e.hi + 0.5, "%s was emitted between %.3f and %.3f us, shown at %.3f", str(e).c_str(), e.lo, e.hi, ts);
    }
  }
  // process and thread names
  for (auto& p : names)
    for (auto& t : p.second)
      MC_REQUIRE(meta[p.first].count(t.first) && meta[p.first][t.first] == t.second, "process %d, thread %lu is not named '%s': %s", p.first, t.first, t.second.c_str(), all.c_str());
  for (auto& p : meta)
    for (auto& t : p.second)
      MC_REQUIRE(names.count(p.first) && names.at(p.first).count(t.first), "process %d, thread %lu is named '%s'", p.first, t.first, t.second.c_str());
  mc::count_case((int)got.size());
}
static TransportFactory::Ptr make_factory(int k)
{
  if (k)
    return std::make_shared<TransportLoopbackFactory>();
  return std::make_shared<TransportUnixFactory>();
}
// every sequence of emitting, recording, showing, switching and restarting
enum Step { EMIT, START, SHOW, SWITCH, MANAGE, EMIT_THREAD, RESTART, STEPS };
static void run(int n_steps, int transport, int viewer_kind)
{
  World w;
  auto factory = make_factory(transport);
  one_process = transport != 0;
  mc::set_pid(APP);
  ThreadNameTracker::getInstance().setCurrentName("main");
  unsigned long self = (unsigned long)pthread_self();
  App app{ factory, nullptr };
  app.start();
  Transport::Ptr quiet;
  Names names;
  names[APP] = { { 0, "the app" }, { self, "main" } };
  if (transport == 0)
  {
    // another process, which has nothing to say but its name
    as(QUIET, [&] {
      quiet = factory->serve();
      quiet->addEndpoint(std::make_shared<EndpointIntrospect>());
      auto info = std::make_shared<EndpointProcessInfo>();
      info->setProcessName("quiet");
      quiet->addEndpoint(info);
    });
    names[QUIET] = { { 0, "quiet" }, { self, "main" } };  // as it is really the same process
  }
  Viewer v(factory, viewer_kind);
  v.manage();
  bool recording = false, process = true;
  const int LIMIT = 8;
  int threads = 0;
  int op = mc::choose(OPS, "op");
  auto next_op = [&] { int r = op; op = (op + 1) % OPS; return r; };
  auto update = [&] { w.on = recording && process; };
  auto settle = [&] { mc::sleep_ms(SETTLE); };
  auto show = [&] {
    settle();
    auto got = v.collect();
    recording = false;
    update();
    judge(got, w.log, names);
    w.log.clear();
  };
  for (int i = 0; i < n_steps; i++)
  {
    // the scheduler has a limit of threads
    int step = mc::choose(threads + 3 <= LIMIT ? STEPS : threads + 1 <= LIMIT ? STEPS - 1 : STEPS - 2, "step");
    threads += step == RESTART ? 3 : step == EMIT_THREAD;
    switch (step)
    {
      case EMIT:
        emit(w, next_op());
        settle();
        break;
      case EMIT_THREAD:
        std::thread([&] {
          ThreadNameTracker::getInstance().setCurrentName("short lived");
          emit(w, next_op());
          emit(w, next_op());
        }).join();
        settle();
        break;
      case START:
        v.start();
        w.log.clear();
        recording = true;
        break;
      case SHOW:
        show();
        break;
      case RESTART:
        app.server.reset();
        settle();
        app.start();
        v.manage();  // notices
        v.manage();
        break;
      case SWITCH:
        process = !process;
        v.process_switch(process);
        break;
      default:
        v.manage();
    }
    update();
  }
  if (recording)
  {
    emit(w, next_op());
    show();
  }
  TraceConfigurator::getInstance()->setProcessState(true);
}
// Every sequence of emitting, recording, showing, switching off, looking for servers and restarting the server, with a recorder.
MC_SCENARIO(recorder, 0, 0, mc::SEQ, 3600) { run(mc::tier() ? 5 : 4, 0, 0); }
// The same with the session of a viewer.
MC_SCENARIO(viewer, 0, 0, mc::SEQ, 3600) { run(mc::tier() ? 4 : 3, 0, 1); }
// The same over the loopback transport, embedded in one process.
MC_SCENARIO(embedded, 0, 0, mc::SEQ, 3600) { run(mc::tier() ? 4 : 2, 1, mc::choose(2, "viewer")); }

static void busy(int transport, bool manage)
{
  World w;
  auto factory = make_factory(transport);
  one_process = transport != 0;
  mc::set_pid(APP);
  App app{ factory, nullptr };
  app.start();
  Names names;
  names[APP] = { { 0, "the app" } };
  Viewer v(factory, 0);
  v.manage();
  v.start();
  w.on = true;
  auto work = [&](int op) {
    ThreadNameTracker::getInstance().setCurrentName("worker");
    emit(w, op);
    emit(w, op + 2);
  };
  std::thread a(work, 0), b(work, 1);
  if (manage)
    v.manage();
  a.join();
  b.join();
  mc::sleep_ms(SETTLE);
  auto got = v.collect();
  judge(got, w.log, names);
}
// Two threads emit and end while events are collected and the viewer looks for servers.
MC_SCENARIO(busy_unix, 1, 2, mc::DELAY | mc::NO_TIMERS, 3600) { busy(0, true); }
// The same in one process.
MC_SCENARIO(busy_embedded, 1, 2, mc::DELAY | mc::NO_TIMERS, 3600) { busy(1, false); }
