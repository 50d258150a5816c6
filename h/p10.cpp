// P10: native tracing delivers each recorded event exactly once, in thread order.
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <unistd.h>
#include <thread>
#include "direct.h"
#include "tp.h"
using namespace tp;
using namespace scalopus;
namespace tct = scalopus::tracepoint_collector_types;
struct Stamped
{
  Ev e;
  uint64_t lo, hi;  // when it was emitted
};
typedef std::map<unsigned long, std::vector<Stamped>> Log;
static uint64_t now() { return (uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count(); }
static unsigned long me() { return (unsigned long)pthread_self(); }
static const int64_t kValues[] = { 0, -1, 5, INT64_MAX, INT64_MIN, 23, 24, 255, 256, -25, 65536, 1ll << 32 };
// emits the n-th event of a fixed script that covers all kinds
static void emit(Log& log, int n, unsigned id)
{
  Stamped s;
  s.lo = now();
  s.e = { n % 6 + 1, id, 0 };
  switch (s.e.type)
  {
    case ENTRY:
      scope_entry(id);
      break;
    case EXIT:
      scope_exit(id);
      break;
    case MARK_G:
      mark_event(id, MarkLevel::GLOBAL);
      break;
    case MARK_P:
      mark_event(id, MarkLevel::PROCESS);
      break;
    case MARK_T:
      mark_event(id, MarkLevel::THREAD);
      break;
    default:
      s.e.value = kValues[(unsigned)n / 6 % 12];
      count_event(id, s.e.value);
  }
  s.hi = now();
  log[me()].push_back(s);
}
// Decodes what was broadcast.
struct Received
{
  std::map<unsigned long, std::vector<Ev>> seq;
  std::map<unsigned long, std::vector<uint64_t>> when;
  size_t n = 0;
  void add(const Data& d)
  {
    std::map<std::string, cbor::cbor_object> parsed;
    tct::ThreadedEvents ev;
    try
    {
      cbor::from_cbor(parsed, d);
      MC_REQUIRE(parsed.at("pid").get<unsigned long>() == (unsigned long)::getpid(), "events attributed to process %lu", parsed.at("pid").get<unsigned long>());
      parsed.at("events").get_to(ev);
    }
    catch (const std::exception& e)
    {
      MC_REQUIRE(false, "event data cannot be read: %s", e.what());
    }
    for (auto& t : ev)
      for (auto& e : t.second)
      {
        Ev r{ e.trace_type, e.trace_id, 0 };
        MC_REQUIRE(r.type >= ENTRY && r.type <= COUNT, "event of unknown type %d", r.type);
        MC_REQUIRE((r.type == COUNT) == (e.dynamic_data != nullptr), "event %s %s a value", str(r).c_str(), r.type == COUNT ? "lacks" : "has");
        if (r.type == COUNT)
        {
          std::int64_t x = 0;
          cbor::from_cbor(x, *e.dynamic_data);
          r.value = x;
        }
        seq[t.first].push_back(r);
        when[t.first].push_back(e.time_point);
        n++;
      }
  }
  void drain(direct::Server& s)
  {
    for (auto& b : s.drain())
    {
      MC_REQUIRE(b.first == "native_trace_receiver", "broadcast to '%s'", b.first.c_str());
      add(b.second);
    }
  }
};
static std::vector<Ev> evs(const std::vector<Stamped>& v)
{
  std::vector<Ev> r;
  for (auto& s : v)
    r.push_back(s.e);
  return r;
}
static void judge(const Log& log, Received& r)
{
  for (auto& t : log)
  {
    auto want = evs(t.second);
    auto& got = r.seq[t.first];
    MC_REQUIRE(got == want, "a thread emitted %s, delivered were %s", str(want).c_str(), str(got).c_str());
    for (size_t i = 0; i < got.size(); i++)
      MC_REQUIRE(r.when[t.first][i] >= t.second[i].lo && r.when[t.first][i] <= t.second[i].hi, "event %zu of a thread has time %lu, it was emitted between %lu and %lu", i,
                 (unsigned long)r.when[t.first][i], (unsigned long)t.second[i].lo, (unsigned long)t.second[i].hi);
  }
  for (auto& t : r.seq)
    MC_REQUIRE(log.count(t.first) || t.second.empty(), "%zu events of a thread that emitted none", t.second.size());
}
static size_t total(const Log& l)
{
  size_t n = 0;
  for (auto& t : l)
    n += t.second.size();
  return n;
}
static void settle(const Log& log, Received& r, direct::Server& s)
{
  for (int i = 0; i < 20 && r.n < total(log); i++)
  {
    mc::sleep_ms(10);
    r.drain(s);
  }
  mc::sleep_ms(25);
  r.drain(s);
}
static void small_buffers(size_t n) { TracePointCollectorNative::getInstance()->setRingbufferSize(n); }
static void merge(Log& into, const Log& l)
{
  for (auto& t : l)
    into[t.first].insert(into[t.first].end(), t.second.begin(), t.second.end());
}
// Threads emitting and exiting while the events are collected.
static void threads(int n, int each, bool before)
{
  small_buffers(64);
  auto server = std::make_shared<direct::Server>();
  Received r;
  std::shared_ptr<EndpointNativeTraceSender> sender;
  auto start = [&] {
    sender = std::make_shared<EndpointNativeTraceSender>();
    server->addEndpoint(sender);
  };
  if (before)
    start();
  std::vector<Log> logs((size_t)n);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      for (int k = 0; k < each; k++)
        emit(logs[(size_t)i], i * 3 + k * 5, 100 * (unsigned)(i + 1) + (unsigned)k);
    });
  if (!before)
    start();
  Log all;
  emit(all, 0, 1);
  for (auto& t : ts)
    t.join();
  emit(all, 1, 1);
  MC_REQUIRE(n < 2 || logs[0].begin()->first != logs[1].begin()->first || !before, "two live threads with one identity");
  for (auto& l : logs)
    merge(all, l);
  settle(all, r, *server);
  judge(all, r);
  server.reset();
  sender.reset();
}
MC_SCENARIO(one_thread, 2, 4, 0, 30)
{
  threads(1, 2, mc::choose(2, "sender first"));
}
MC_SCENARIO(two_threads, 1, 2, 0, 30)
{
  threads(2, 1, mc::choose(2, "sender first"));
}
// A thread exits and another one takes over its identity, collection in between at any moment.
MC_SCENARIO(identity_reuse, 2, 3, 0, 30)
{
  small_buffers(64);
  auto server = std::make_shared<direct::Server>();
  server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  Received r;
  Log logs[2], all;
  unsigned long ids[2] = { 0, 0 };
  int pause = mc::choose(2, "pause");
  for (int i = 0; i < 2; i++)
  {
    Log& l = logs[i];
    std::thread t([&] {
      ids[i] = me();
      emit(l, i, 10 + 10 * (unsigned)i);
      emit(l, 5, 11 + 10 * (unsigned)i);
    });
    t.join();
    merge(all, l);
    if (pause)
      mc::sleep_ms(15);
  }
  mc::note("[identity %s] ", ids[0] == ids[1] ? "reused" : "not reused");
  mc::outcome("%s", ids[0] == ids[1] ? "reused" : "fresh");
  settle(all, r, *server);
  if (ids[0] != ids[1])
  {
    judge(all, r);
    return;
  }
  // the order is that of each thread
  MC_REQUIRE(r.n == 4, "4 events were emitted, delivered were %s", str(r.seq[ids[0]]).c_str());
  for (int i = 0; i < 2; i++)
  {
    Received part;
    for (size_t k = 0; k < 4; k++)
      if (r.seq[ids[0]][k].id / 10 == (unsigned)i + 1)
      {
        part.seq[ids[0]].push_back(r.seq[ids[0]][k]);
        part.when[ids[0]].push_back(r.when[ids[0]][k]);
      }
    judge(logs[i], part);
  }
}
// Scripts of emitting, collecting, thread exit and switching the transport, one thing after the other, against a model with
// buffers of limited room.
MC_SCENARIO(scripts, 0, 0, mc::SEQ, 60)
{
  const size_t size = 4;
  small_buffers(size);
  // how many events fit
  size_t room = 0;
  {
    tct::ScopeBuffer b{ tct::EventContainer{ size } };
    while (room < 20 && b.push(tct::StaticTraceEvent{}))
      room++;
  }
  std::shared_ptr<direct::Server> server = std::make_shared<direct::Server>();
  std::shared_ptr<EndpointNativeTraceSender> sender;
  Received r;
  Log want;
  std::map<unsigned long, size_t> waiting;  // not yet collected, per thread
  Log scratch;
  int kind = 0;
  unsigned id = 0;
  auto say = [&] {
    Log l;
    emit(l, kind++, ++id);
    if (waiting[me()] < room)
    {
      waiting[me()]++;
      merge(want, l);
    }
  };
  int steps = mc::tier() ? 6 : 5;
  for (int i = 0; i < steps; i++)
    switch (mc::choose(6, "op"))
    {
      case 0:
        say();
        break;
      case 1:
        say();
        say();
        say();
        break;
      case 2:
      {
        // a thread that lives briefly
        std::thread t([&] {
          waiting[me()] = 0;  // buffers are those of the thread, not of its identity
          say();
          say();
        });
        t.join();
        break;
      }
      case 3:
        mc::sleep_ms(30);
        if (sender && sender->getTransport())
        {
          waiting.clear();
          r.drain(*server);
        }
        break;
      case 4:
        // collecting starts or ends
        if (sender)
        {
          mc::sleep_ms(30);
          if (sender->getTransport())
            waiting.clear();
          r.drain(*server);
          server = std::make_shared<direct::Server>();
          sender.reset();
        }
        else
          sender = std::make_shared<EndpointNativeTraceSender>();
        break;
      default:
        // only now the transport becomes known
        if (sender && !sender->getTransport())
        {
          server->addEndpoint(sender);
          mc::sleep_ms(30);
          waiting.clear();
          r.drain(*server);
        }
        break;
    }
  if (!sender)
    sender = std::make_shared<EndpointNativeTraceSender>();
  if (!sender->getTransport())
    server->addEndpoint(sender);
  mc::sleep_ms(50);
  r.drain(*server);
  judge(want, r);
}
// Events from before the collector exists, or before it knows its transport, are delivered.
MC_SCENARIO(late_transport, 2, 3, 0, 30)
{
  small_buffers(64);
  auto server = std::make_shared<direct::Server>();
  Received r;
  Log all;
  emit(all, 0, 1);
  auto sender = std::make_shared<EndpointNativeTraceSender>();
  emit(all, 5, 2);
  int wait = mc::choose(2, "wait");
  if (wait)
    mc::sleep_ms(25);
  emit(all, 2, 3);
  server->addEndpoint(sender);
  emit(all, 1, 4);
  settle(all, r, *server);
  judge(all, r);
}
// The collector goes away at any moment, another one continues: nothing is lost or delivered twice.
MC_SCENARIO(replaced_sender, 2, 3, 0, 30)
{
  small_buffers(64);
  auto server = std::make_shared<direct::Server>();
  Received r;
  Log all, l;
  auto sender = std::make_shared<EndpointNativeTraceSender>();
  sender->setTransport(server.get());
  std::thread t([&] {
    emit(l, 0, 1);
    emit(l, 5, 2);
    mc::sleep_ms(5);
    emit(l, 1, 1);
  });
  if (mc::choose(2, "pause"))
    mc::sleep_ms(10);
  sender.reset();
  sender = std::make_shared<EndpointNativeTraceSender>();
  sender->setTransport(server.get());
  t.join();
  merge(all, l);
  settle(all, r, *server);
  judge(all, r);
  sender.reset();
}
// Destruction while events are being emitted and collected.  (The virtual call on the transport that is being destroyed is
// reported as a race on its virtual table pointer, hence no race check.)
MC_SCENARIO(teardown, 1, 2, mc::NO_RACES, 30)
{
  small_buffers(64);
  int how = mc::choose(3, "transport");
  TransportFactory::Ptr f;
  if (how == 1)
    f = std::make_shared<TransportLoopbackFactory>();
  else if (how == 2)
    f = std::make_shared<TransportUnixFactory>();
  Transport::Ptr server = f ? f->serve() : std::make_shared<direct::Server>();
  server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  Log l;
  std::thread t([&] {
    emit(l, 0, 1);
    emit(l, 5, 2);
  });
  if (mc::choose(2, "pause"))
    mc::sleep_ms(10);
  server.reset();
  t.join();
  MC_REQUIRE(mc::live_threads() == 0, "threads are left behind");
}
// All the way to a client, over the real transports.
class Sink : public Endpoint
{
public:
  std::string getName() const override { return "native_trace_receiver"; }
  bool unsolicited(Transport&, const Data& in, Data&) override
  {
    std::lock_guard<std::mutex> l(m);
    got.push_back(in);
    return false;
  }
  std::mutex m;
  std::vector<Data> got;
};
class Echo : public Endpoint
{
public:
  std::string getName() const override { return "echo"; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    out = in;
    return true;
  }
};
static void end_to_end(const TransportFactory::Ptr& f)
{
  small_buffers(64);
  auto server = f->serve();
  server->addEndpoint(std::make_shared<Echo>());
  auto client = f->connect(server->getAddress());
  auto sink = std::make_shared<Sink>();
  client->addEndpoint(sink);
  client->request("echo", { 1 })->wait();
  server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  Log l, all;
  std::thread t([&] {
    emit(l, 0, 1);
    mc::sleep_ms(12);
    emit(l, 5, 2);
    emit(l, 1, 1);
  });
  emit(all, 2, 3);
  t.join();
  merge(all, l);
  Received r;
  for (int i = 0; i < 30 && r.n < total(all); i++)
  {
    mc::sleep_ms(10);
    std::lock_guard<std::mutex> g(sink->m);
    for (auto& d : sink->got)
      r.add(d);
    sink->got.clear();
  }
  mc::sleep_ms(30);
  {
    std::lock_guard<std::mutex> g(sink->m);
    MC_REQUIRE(sink->got.empty(), "more events than were emitted");
  }
  judge(all, r);
}
MC_SCENARIO(loopback, 0, 1, mc::NO_ATOMICS, 30)
{
  end_to_end(std::make_shared<TransportLoopbackFactory>());
}
MC_SCENARIO(unix_socket, 0, 1, mc::NO_ATOMICS, 30)
{
  end_to_end(std::make_shared<TransportUnixFactory>());
}
// Many events at a time, as many as the buffer of the default size has room for: of threads that go on, of threads that end, and
// of a thread and its successor with the same identity.
MC_SCENARIO(bulk, 0, 0, mc::SEQ, 600)
{
  static const int sizes[] = { 100, 1001, 4097, 9998 };
  int n = sizes[mc::choose(4, "events")], who = mc::choose(4, "who");
  auto server = std::make_shared<direct::Server>();
  small_buffers(10000);
  bool before = mc::choose(2, "sender first");
  if (before)
    server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  Log all;
  std::vector<unsigned long> order;  // identity of the emitters
  auto emit_all = [&](int from, int count) {
    for (int i = from; i < from + count; i++)
      emit(all, i % 6 == 5 && i > 60 ? 1 : i, (unsigned)i);
  };
  Received r;
  if (who == 0)
    emit_all(0, n);
  else
  {
    std::thread([&] { emit_all(0, n); }).join();
    if (who >= 2)
      std::thread([&] { emit_all(n, who == 2 ? 1 : n); }).join();  // mostly with the same identity
    if (who == 3)
      emit_all(0, n);
  }
  if (!before)
    server->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  settle(all, r, *server);
  judge(all, r);
  mc::count_case((int)total(all));
}
