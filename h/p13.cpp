// P13: any emitted trace identifier can be resolved remotely.
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_transport/transport_unix.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <thread>
#include "direct.h"
#include "tp.h"
using namespace tp;
using scalopus::EndpointTraceMapping;
using Mapping = EndpointTraceMapping::ProcessTraceMap;
struct World
{
  std::shared_ptr<direct::Server> server = std::make_shared<direct::Server>();
  std::shared_ptr<direct::Client> client;
  EndpointTraceMapping::Ptr ep;
  World()
  {
    server->addEndpoint(std::make_shared<EndpointTraceMapping>());
    client = std::make_shared<direct::Client>(server);
    ep = EndpointTraceMapping::factory(client);
    MC_REQUIRE(ep != nullptr, "no endpoint");
  }
};
static void expect(const Mapping& m, unsigned id, const std::string& name)
{
  MC_REQUIRE(m.size() == 1 && m.begin()->first == ::getpid(), "the mapping holds %zu processes", m.size());
  auto it = m.begin()->second.find(id);
  MC_REQUIRE(it != m.begin()->second.end(), "identifier %u was emitted but has no name", id);
  MC_REQUIRE(it->second == name, "identifier %u has name '%s', source says '%s'", id, it->second.c_str(), name.c_str());
}
// one tracepoint of every kind; returns the name given in the source
static std::string point(int kind)
{
  switch (kind)
  {
    case 0:
    {
      TRACE_SCOPE_RAII("raii");
      return "raii";
    }
    case 1:
    {
      TRACE_SCOPE_START("start/end");
      TRACE_SCOPE_END("start/end");
      return "start/end";
    }
    case 2:
    {
      TRACE_MARK_EVENT_GLOBAL("mark g");
      return "mark g";
    }
    case 3:
    {
      TRACE_COUNT_SERIES("counter", "series", 3);
      return "counter/series";
    }
    case 4:
    {
      TRACE_MARK_EVENT_PROCESS("mark p");
      return "mark p";
    }
    case 5:
    {
      TRACE_MARK_EVENT_THREAD("mark\xc3\xa9\x01 t");
      return "mark\xc3\xa9\x01 t";
    }
    case 6:
    {
      TRACE_COUNT("single", 3);
      return "single";
    }
    case 7:
    {
      TRACE_SCOPE_RAII_ID("", 4294967295u);
      return "";
    }
    default:
    {
      TRACE_PRETTY_FUNCTION();
      return __PRETTY_FUNCTION__;
    }
  }
}
static const int kinds = 9;
static unsigned last_id()
{
  auto v = mine();
  MC_REQUIRE(!v.empty(), "no tracepoint emitted");
  return v.back().id;
}
// what the consumer makes of it: counters are split into counter and series
static void resolve(const Mapping& m, int kind, unsigned id, const std::string& name)
{
  if (kind == 3 || kind == 6)
  {
    auto p = scalopus::ScopeTracingProvider::splitCounterSeriesName(scalopus::ScopeTracingProvider::getScopeName(m, ::getpid(), id));
    if (kind == 3)
      MC_REQUIRE(p.first == "counter" && p.second == "series", "counter/series resolves to '%s' '%s'", p.first.c_str(), p.second.c_str());
    else
      MC_REQUIRE(p.first == "single" && p.second == "count", "a counter with one series resolves to '%s' '%s'", p.first.c_str(), p.second.c_str());
  }
  else
  {
    expect(m, id, name);
    auto s = scalopus::ScopeTracingProvider::getScopeName(m, ::getpid(), id);
    MC_REQUIRE(s == name, "identifier %u resolves to '%s'", id, s.c_str());
  }
}
// Every order of tracepoints, queries in between: names appear, stay and do not change.
MC_SCENARIO(sequences, 0, 0, mc::SEQ, 5)
{
  World w;
  std::map<unsigned, std::pair<int, std::string>> known;
  int n = mc::tier() ? 4 : 3;
  for (int i = 0; i < n; i++)
  {
    int k = mc::choose(kinds, "point");
    std::string name = point(k);
    unsigned id = last_id();
    MC_REQUIRE(!known.count(id) || known[id].second == name, "two tracepoints share an identifier");
    known[id] = { k, name };
    auto m = w.ep->mapping();
    for (auto& x : known)
      resolve(m, x.second.first, x.first, x.second.second);
    MC_REQUIRE(m.begin()->second.size() == known.size(), "mapping has %zu names, %zu tracepoints were reached", m.begin()->second.size(), known.size());
  }
}
// Identifiers that are registered again (by a second tracepoint with this identifier, or through the tracker as Python does):
// what counts is the last registration, whenever somebody asked before.
MC_SCENARIO(registrations, 0, 0, mc::SEQ, 5)
{
  World w;
  std::map<unsigned, std::string> want;
  int n = mc::tier() ? 5 : 4;
  for (int i = 0; i < n; i++)
  {
    int op = mc::choose(7, "operation");
    if (op < 6)
    {
      unsigned id = op % 2 ? 7 : 4000000000u;
      std::string name(1, (char)('a' + op / 2));
      scalopus::StaticStringTracker::getInstance().insert(id, name);
      want[id] = name;
      if (i + 1 < n)
        continue;
    }
    auto m = w.ep->mapping();
    MC_REQUIRE(m.size() == 1 && m.begin()->first == ::getpid() && m.begin()->second.size() == want.size(), "%zu names are known, %zu were registered", m.empty() ? 0 : m.begin()->second.size(), want.size());
    for (auto& x : want)
      expect(m, x.first, x.second);
  }
}
// Two threads reach the same tracepoint first, a client asks as soon as one of them has emitted it.
static void same_point(int k)
{
  World w;
  std::string name;
  std::thread a([&] { point(k); });
  std::thread b([&] { point(k); });
  mc::wait_records(EV, 1, -1);
  unsigned id = 0;
  for (int i = 0; i < mc::record_count(); i++)
    if (mc::record_at(i).kind == EV)
      id = (unsigned)mc::record_at(i).b;
  auto m = w.ep->mapping();
  static const char* names[] = { "raii", "start/end", "mark g", "counter/series" };
  expect(m, id, names[k]);
  a.join();
  b.join();
  expect(w.ep->mapping(), id, names[k]);
}
MC_SCENARIO(same_raii, 2, 3, 0, 5) { same_point(0); }
MC_SCENARIO(same_start, 2, 3, 0, 5) { same_point(1); }
MC_SCENARIO(same_mark, 2, 3, 0, 5) { same_point(2); }
MC_SCENARIO(same_count, 2, 3, 0, 5) { same_point(3); }
// Different tracepoints reached at once; each thread asks about its own right after emitting it.
MC_SCENARIO(different_points, 2, 3, 0, 5)
{
  World w;
  auto body = [&](int k) {
    std::string n = point(k);
    unsigned id = last_id();
    expect(w.ep->mapping(), id, n);
  };
  std::thread a(body, 0);
  body(2);
  a.join();
  MC_REQUIRE(w.ep->mapping().begin()->second.size() == 2, "names got lost");
}
// Over the unix transport: large mappings, identifiers and names of all kinds.
MC_SCENARIO(over_unix, 0, 0, mc::SEQ | mc::NO_TIMERS, 5)
{
  mc::set_pid(77);
  scalopus::TransportUnixFactory f;
  auto server = f.serve();
  server->addEndpoint(std::make_shared<EndpointTraceMapping>());
  auto c = f.connect(server->getAddress());
  auto ep = EndpointTraceMapping::factory(c);
  auto& t = scalopus::StaticStringTracker::getInstance();
  std::map<unsigned, std::string> want;
  auto put = [&](unsigned id, const std::string& s) {
    t.insert(id, s);
    want[id] = s;
  };
  static const int counts[] = { 0, 1, 11, 300 };
  int n = counts[mc::choose(4, "count")];
  for (int i = 0; i < n; i++)
    put((unsigned)i * 14316557u, std::string((size_t)(i % 40), (char)('a' + i % 26)));
  if (mc::choose(2, "odd"))
  {
    put(0, "");
    put(1, std::string("nul\0inside", 10));
    put(0x7fffffffu, "quote\" backslash\\ newline\n");
    put(0x80000000u, "\xe2\x82\xac");
    put(0xffffffffu, std::string(5000, 'x'));
    put(1, "registered again");
  }
  auto m = ep->mapping();
  MC_REQUIRE(m.size() == 1 && m.count(77), "mapping of %zu processes", m.size());
  MC_REQUIRE(m[77].size() == want.size(), "%zu names, %zu registered", m[77].size(), want.size());
  for (auto& x : want)
    MC_REQUIRE(m[77].count(x.first) && m[77][x.first] == x.second, "name of %u is wrong", x.first);
}
// The consumer side: several processes, some of which do not answer.
class Manager : public scalopus::EndpointManager
{
public:
  TransportEndpoints endpoints() const override { return eps; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  TransportEndpoints eps;
};
MC_SCENARIO(provider, 0, 0, mc::SEQ | mc::NO_TIMERS, 60)
{
  class Provider : public scalopus::ScopeTracingProvider
  {
  public:
    using ScopeTracingProvider::ScopeTracingProvider;
    scalopus::TraceEventSource::Ptr makeSource() override { return nullptr; }
  };
  auto mgr = std::make_shared<Manager>();
  Provider prov(mgr);
  // hand made servers
  class Maps : public scalopus::Endpoint
  {
  public:
    int pid;
    explicit Maps(int p) : pid(p) {}
    std::string getName() const override { return EndpointTraceMapping::name; }
    bool handle(scalopus::Transport& t, const scalopus::Data& q, scalopus::Data& r) override
    {
      mc::set_pid(pid);
      auto& tr = scalopus::StaticStringTracker::getInstance();
      tr.clear();
      tr.insert(5, "five of " + std::to_string(pid));
      tr.insert((unsigned)pid, "own");
      EndpointTraceMapping real;
      bool x = real.handle(t, q, r);
      mc::set_pid(1);
      return x;
    }
  };
  static const direct::Mode modes[] = { direct::ANSWER, direct::SILENT, direct::BROKEN, direct::GARBAGE, direct::THROWS };
  const int n = 3;
  int mode[n];
  for (int i = 0; i < n; i++)
  {
    auto server = std::make_shared<direct::Server>();
    auto e = std::make_shared<Maps>(100 + i);
    server->addEndpoint(e);
    auto c = std::make_shared<direct::Client>(server);
    mode[i] = mc::choose(5, "mode");
    c->mode = modes[mode[i]];
    c->garbage = { 1, 2, 3, 4, 5 };
    if (mc::choose(2, "has endpoint"))
      mgr->eps[c][EndpointTraceMapping::name] = EndpointTraceMapping::factory(c);
    else
    {
      mgr->eps[c] = {};
      mode[i] = 1;
    }
  }
  prov.updateMapping();
  auto m = prov.getMapping();
  for (int i = 0; i < n; i++)
  {
    auto a = prov.getScopeName(m, 100 + i, 5), b = prov.getScopeName(m, 100 + i, (unsigned)(100 + i)), u = prov.getScopeName(m, 100 + i, 0xABCDEFu);
    if (mode[i] == 0)
    {
      MC_REQUIRE(a == "five of " + std::to_string(100 + i) && b == "own", "names of process %d: '%s' '%s'", 100 + i, a.c_str(), b.c_str());
    }
    else
      MC_REQUIRE(a.find('5') != std::string::npos && a.find("five") == std::string::npos, "placeholder '%s' does not name the identifier", a.c_str());
    MC_REQUIRE(u.find("abcdef") != std::string::npos, "placeholder '%s' does not name the identifier", u.c_str());
  }
  auto x = prov.getScopeName(m, 5555, 0x11);
  MC_REQUIRE(x.find("11") != std::string::npos, "placeholder '%s' does not name the identifier", x.c_str());
}
// names of identifiers over their whole range, known, unknown and of unknown processes
MC_SCENARIO(placeholders, 0, 0, mc::SEQ, 30)
{
  struct Prov : scalopus::ScopeTracingProvider
  {
    using ScopeTracingProvider::ScopeTracingProvider;
    scalopus::TraceEventSource::Ptr makeSource() override { return nullptr; }
  };
  std::set<unsigned> ids = { 0, 0x12345678u, 0xfedcba98u, 0xabcdef01u, 0xffffffffu, 0x7fffffffu };
  for (unsigned i = 0; i < 32; i++)
    for (unsigned j = 0; j < 32; j++)
      for (unsigned x : { (1u << i) | (1u << j), ~((1u << i) | (1u << j)), (1u << i) - (1u << j) })
        ids.insert(x);
  EndpointTraceMapping::ProcessTraceMap m;
  int known = mc::choose(3, "known");
  if (known)
    m[7] = {};
  if (known == 2)
    for (unsigned id : ids)
      if (__builtin_popcount(id) & 1)
        m[7][id] = "name of " + std::to_string(id);
  const int pid = mc::choose(2, "pid") == 0 ? 7 : 7 + 65536;
  std::map<std::string, unsigned> names;
  for (unsigned id : ids)
  {
    std::string n = Prov::getScopeName(m, pid, id);
    if (pid == 7 && known == 2 && (__builtin_popcount(id) & 1))
    {
      MC_REQUIRE(n == "name of " + std::to_string(id), "%x is called '%s'", id, n.c_str());
      continue;
    }
    char hex[16];
    snprintf(hex, sizeof hex, "%x", id);
    std::string low = n;
    for (auto& c : low)
      c = (char)tolower(c);
    MC_REQUIRE(low.find(hex) != low.npos || low.find(std::to_string(id)) != low.npos, "placeholder '%s' does not name %x", n.c_str(), id);
    MC_REQUIRE(names.emplace(n, id).second, "%x and %x are both called '%s'", id, names[n], n.c_str());
  }
  mc::count_case((int)ids.size());
}
// any number of names, of any length
MC_SCENARIO(many, 0, 0, mc::SEQ, 60)
{
  World w;
  static const unsigned sizes[] = { 100, 127, 128, 255, 256, 257, 999, 1000, 1001, 3000 };
  const unsigned n = sizes[mc::choose(10, "names")];
  const bool spread = mc::choose(2, "identifiers");
  std::map<unsigned, std::string> want;
  for (unsigned i = 0; i < n; i++)
  {
    const unsigned id = spread ? i * 2654435761u : i;
    want[id] = "name " + std::to_string(i) + std::string(i % 50 == 7 ? 3000 : i % 11, 'n');
    scalopus::StaticStringTracker::getInstance().insert(id, want[id]);
    if (i == n / 2)
      MC_REQUIRE(w.ep->mapping().begin()->second.size() == want.size(), "half way: names are missing");
  }
  auto m = w.ep->mapping();
  MC_REQUIRE(m.size() == 1 && m.begin()->second.size() == want.size(), "%zu names are known, %zu were registered", m.empty() ? 0 : m.begin()->second.size(), want.size());
  for (auto& x : want)
    expect(m, x.first, x.second);
}
