// P30: nothing depends on the locale of the program.  Everything is done under the classic locale and under every other one, at
// every step, and has to come out the same, byte for byte.
#include <scalopus_catapult/catapult_recorder.h>
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include <scalopus_transport/transport_loopback.h>
#include <algorithm>
#include <clocale>
#include <locale>
#include "bt.h"
#include "cat.h"
#include "chunk.h"
#include "conv.h"
#include "trace_session.h"
#include "tu.h"
using namespace conv;
using scalopus::TraceEventSource;
class Punct : public std::numpunct<char>
{
public:
  Punct(char d, char t, std::string g) : d_(d), t_(t), g_(std::move(g)) {}

protected:
  char do_decimal_point() const override { return d_; }
  char do_thousands_sep() const override { return t_; }
  std::string do_grouping() const override { return g_; }
  std::string do_truename() const override { return "oui"; }
  std::string do_falsename() const override { return "non"; }

private:
  char d_, t_;
  std::string g_;
};
// the locales: of C++ only, of C only as toolkits set it, and of both
static const char* const kLocales[] = { "classic", "1,234.5", "1.234,5", "1 2 3,5", "de_DE of C", "de_DE of C and C++", "hi_IN of C", "hi_IN of C and C++" };
static const int NLOC = 8;
static void locale_of(int i)
{
  mc::RaceIgnore ri;
  setlocale(LC_ALL, "C");
  const std::locale& c = std::locale::classic();
  switch (i)
  {
    case 0:
      std::locale::global(c);
      break;
    case 1:
      std::locale::global(std::locale(c, new Punct('.', ',', "\3")));
      break;
    case 2:
      std::locale::global(std::locale(c, new Punct(',', '.', "\3")));
      break;
    case 3:
      std::locale::global(std::locale(c, new Punct(',', ' ', "\1")));
      break;
    default:
      const char* n = i < 6 ? "de_DE.UTF-8" : "hi_IN.UTF-8";
      std::locale::global(c);
      if (!setlocale(LC_ALL, n))
        break;  // this system does not have it
      if (i & 1)
        std::locale::global(std::locale(n));
  }
}
struct Under
{
  explicit Under(int i) { locale_of(i); }
  ~Under() { locale_of(0); }
};
// what a function returns must be the same under every locale
template <typename F>
static void same(const char* what, F f)
{
  std::string want = f();
  int l = mc::choose(NLOC - 1, "locale") + 1;
  std::string got;
  {
    Under u(l);
    got = f();
  }
  mc::count_case();
  MC_REQUIRE(got == want, "%s under the locale %s: %s; otherwise: %s", what, kLocales[l], got.c_str(), want.c_str());
}

// Servers and clients with different locales, changing at every step, find and understand each other.
MC_SCENARIO(addresses, 0, 0, mc::SEQ, 3600)
{
  static const int pids[] = { 7, 12345, 4194304 };
  int pid = pids[mc::choose(3, "pid")];
  mc::set_pid(pid);
  const std::string want = "<unix:" + std::to_string(pid) + ">";
  auto step = [] { locale_of(mc::choose(mc::tier() ? NLOC : 5, "locale")); };
  scalopus::TransportUnixFactory f;
  step();
  auto s = f.serve();
  MC_REQUIRE(s, "cannot serve");
  s->addEndpoint(tu::echo("echo"));
  s->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
  step();
  auto all = f.discover();
  MC_REQUIRE(all.size() == 1, "%zu servers are discovered", all.size());
  step();
  MC_REQUIRE(std::string(*all[0]) == want && std::string(*s->getAddress()) == want, "the address is %s, not %s", std::string(*all[0]).c_str(), want.c_str());
  auto c = f.connect(all[0]);
  MC_REQUIRE(c && c->isConnected(), "cannot connect");
  c->addEndpoint(tu::echo("echo", 1));
  MC_REQUIRE(std::string(*c->getAddress()) == want, "the client has address %s, not %s", std::string(*c->getAddress()).c_str(), want.c_str());
  tu::ask(c, "echo", "1234567");
  step();
  s->broadcast("echo", tu::D("1234567"));
  MC_REQUIRE(mc::wait_records(tu::UNSOL, 1, 5000), "a broadcast does not arrive");
  scalopus::EndpointManagerPoll m(std::make_shared<scalopus::TransportUnixFactory>());
  m.manage();
  MC_REQUIRE(m.endpoints().size() == 1, "the endpoint manager knows %zu servers", m.endpoints().size());
  locale_of(0);
  mc::count_case();
}
// Questions and answers.
MC_SCENARIO(queries, 0, 0, mc::SEQ, 3600)
{
  static const int pids[] = { 7, 12345, 4194304 };
  int pid = pids[mc::choose(3, "pid")];
  auto server = std::make_shared<direct::Server>();
  auto& tr = scalopus::StaticStringTracker::getInstance();
  for (unsigned id : { 0u, 1u, 1000u, 1234567u, 4294967295u })
    tr.insert(id, "name 1234567,5 " + std::to_string(id));
  names::Table table;
  table[pid] = { { 1000, "a" }, { 4294967295u, "b" } };
  auto manager = std::make_shared<names::Manager>(table);
  same("the answers", [&] {
    mc::set_pid(pid);
    json r;
    auto client = std::make_shared<direct::Client>(server);
    server->addEndpoint(std::make_shared<scalopus::EndpointTraceMapping>());
    auto info = std::make_shared<scalopus::EndpointProcessInfo>();
    info->setProcessName("process 1234567.5");
    server->addEndpoint(info);
    server->addEndpoint(std::make_shared<scalopus::EndpointTraceConfigurator>());
    server->addEndpoint(std::make_shared<scalopus::EndpointIntrospect>());
    for (auto& p : scalopus::EndpointTraceMapping::factory(client)->mapping())
      for (auto& n : p.second)
        r.push_back(json::array({ p.first, n.first, n.second }));
    auto i = scalopus::EndpointProcessInfo::factory(client)->processInfo();
    r.push_back(json::array({ i.pid, i.name }));
    for (auto& t : i.threads)
      r.push_back(json::array({ t.first, t.second }));
    scalopus::EndpointTraceConfigurator::TraceConfiguration cfg;
    cfg.set_process_state = true;
    cfg.process_state = true;
    cfg.thread_state[(unsigned long)pthread_self()] = true;
    auto st = scalopus::EndpointTraceConfigurator::factory(client)->setTraceState(cfg);
    r.push_back(json::array({ st.process_state, st.cmd_success }));
    for (auto& t : st.thread_state)
      r.push_back(json::array({ t.first, t.second }));
    for (auto& e : scalopus::EndpointIntrospect::factory(client)->supported())
      r.push_back(e);
    scalopus::NativeTraceProvider prov(manager);
    prov.updateMapping();
    for (unsigned id : { 0u, 999u, 1000u, 12345678u, 2147483648u, 4294967295u })
      for (int p : { pid, 4321, 1 })
        r.push_back(prov.getScopeName(prov.getMapping(), p, id));
    std::sort(r.begin(), r.end());  // tables have no order
    std::string s;                  // not through the library under the locale
    for (auto& x : r)
    {
      mc::RaceIgnore ri;
      std::string old = setlocale(LC_ALL, nullptr);
      setlocale(LC_ALL, "C");
      s += x.dump() + " ";
      setlocale(LC_ALL, old.c_str());
    }
    return s;
  });
}
static const char* kEvent[] = { "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };
static const names::Table kNames = { { 12345, { { 1, "scope" }, { 1234, "cnt/1,234.5" }, { 4294967295u, "max id" } } } };
static std::string dumped(const std::vector<json>& v)
{
  mc::RaceIgnore ri;
  std::string old = setlocale(LC_ALL, nullptr);
  setlocale(LC_ALL, "C");
  std::string s = text(v);
  setlocale(LC_ALL, old.c_str());
  return s;
}
// The text of babeltrace, in which numbers are always written the same way.
MC_SCENARIO(lttng, 0, 0, mc::SEQ, 3600)
{
  auto manager = std::make_shared<names::Manager>(kNames);
  auto provider = std::make_shared<scalopus::LttngProvider>("session", manager);
  auto source = provider->makeSource();
  static const char* times[] = { "0.000000000", "0.500000001", "12.345678901", "1544361620.739021131", "4102444800.000000500" };
  Kind k = (Kind)mc::choose(KINDS, "kind");
  std::string lines;
  std::vector<Ev> ev;
  for (const char* t : times)
    for (unsigned id : { 1u, 1234u, 1234567u, 4294967295u })
    {
      Ev e;
      e.kind = k;
      e.pid = 12345;
      e.tid = 139688084124608ul;
      e.id = id;
      e.us = strtod(t, nullptr) * 1e6;
      e.value = -1234567;
      ev.push_back(e);
      lines += "[" + std::string(t) + "] host scalopus_scope_id:" + kEvent[k] + ": { cpu_id = 1 }, { vpid = 12345, pthread_id = 139688084124608 }, { id = " + std::to_string(id) +
               (k == COUNT ? ", value = -1234567" : "") + " }\n";
    }
  same("the events", [&] {
    source->startInterval();
    bt::emit(lines);
    bt::settle();
    auto r = source->finishInterval();
    check(r, ev, kNames);
    return dumped(r);
  });
}
// Native events.
MC_SCENARIO(native, 0, 0, mc::SEQ, 3600)
{
  auto manager = std::make_shared<names::Manager>(kNames);
  auto provider = std::make_shared<scalopus::NativeTraceProvider>(manager);
  auto client = std::make_shared<direct::Client>();
  auto ep = provider->factory(client);
  auto source = provider->makeSource();
  Kind k = (Kind)mc::choose(KINDS, "kind");
  using C = scalopus::TracePointCollectorNative;
  const uint8_t types[] = { C::SCOPE_ENTRY, C::SCOPE_EXIT, C::MARK_GLOBAL, C::MARK_PROCESS, C::MARK_THREAD, C::COUNTER };
  std::vector<chunk::Event> ev;
  std::vector<Ev> want;
  for (uint64_t ns : { 1ul, 1234567ul, 1544361620739021131ul })
    for (unsigned id : { 1u, 1234u, 1234567u, 4294967295u })
    {
      ev.push_back({ 139688084124608ul, ns, id, types[k], k == COUNT, -1234567 });
      Ev e;
      e.kind = k;
      e.pid = 12345;
      e.tid = 139688084124608ul;
      e.id = id;
      e.us = (double)ns / 1e3;
      e.value = -1234567;
      want.push_back(e);
    }
  auto data = chunk::make(12345, ev);
  same("the events", [&] {
    source->startInterval();
    scalopus::Data out;
    ep->unsolicited(*client, data, out);
    auto r = source->finishInterval();
    check(r, want, kNames);
    return dumped(r);
  });
}
static std::vector<json> odd_events()
{
  std::vector<json> r;
  for (double d : { 0.0, 0.5, 1234567.891, 1544361620739021.25, 1e300, -2.5e-9 })
    r.push_back({ { "ts", d }, { "pid", 1234567 }, { "tid", 139688084124608ul }, { "on", true }, { "args", { { "x", -1234567890123ll }, { "y", 4294967295u } } } });
  return r;
}
class Fixed : public scalopus::TraceEventSource
{
public:
  void startInterval() override {}
  void stopInterval() override {}
  std::vector<json> finishInterval() override { return odd_events(); }
  void work() override {}
};
class FixedProvider : public scalopus::TraceEventProvider
{
public:
  TraceEventSource::Ptr makeSource() override { return std::make_shared<Fixed>(); }
};
// What the recorder returns.
MC_SCENARIO(recorder, 0, 0, mc::SEQ, 3600)
{
  same("the recording", [] {
    scalopus::CatapultRecorder r;
    r.addProvider(std::make_shared<FixedProvider>());
    r.start();
    r.startInterval();
    r.stopInterval();
    return r.collectEvents();
  });
}
// What a session answers, also to identifiers that are odd numbers, and how it delivers.
MC_SCENARIO(session, 0, 0, mc::SEQ, 3600)
{
  static const char* ids[] = { "1", "1234567", "-1", "1.5", "1234567.25", "\"1,5\"" };
  std::string id = ids[mc::choose(6, "id")];
  same("the messages", [&] {
    std::mutex m;
    std::string all;
    int n = 0;
    scalopus::TraceSession s([&](std::string x) {
      std::lock_guard<std::mutex> l(m);
      all += x + "\n";
      n++;
    });
    s.addSource(std::make_shared<Fixed>());
    for (const char* method : { "Tracing.getCategories", "Tracing.start", "Tracing.end" })
      s.incoming("{\"id\": " + id + ", \"method\": \"" + method + "\"}");
    for (int i = 0; i < 100; i++)
    {
      mc::sleep_ms(10);
      std::lock_guard<std::mutex> l(m);
      if (n >= 5)
        break;
    }
    std::lock_guard<std::mutex> l(m);
    MC_REQUIRE(n == 5, "%d messages instead of 5", n);
    return all;
  });
}
