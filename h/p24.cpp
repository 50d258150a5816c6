// P24: endpoints survive any request bytes from any client.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <algorithm>
#include <nlohmann/json.hpp>
#include "direct.h"
#include "tu.h"
using json = nlohmann::json;
using scalopus::Data;
using namespace scalopus;
using States = std::map<unsigned long, bool>;
static States actual()
{
  States r;
  for (auto& x : TraceConfigurator::getInstance()->getThreadMap())
    r[x.first] = x.second->load();
  return r;
}
static bool process_on() { return TraceConfigurator::getInstance()->getProcessStatePtr()->load(); }
// catches what the real client code sends
class Catcher : public direct::Client
{
public:
  PendingResponse request(const std::string& ep, const Data& out) override
  {
    last = out;
    return direct::Client::request(ep, out);
  }
  Data last;
};
struct Well
{
  std::string ep;
  Data bytes;
};
// the well-formed requests of every endpoint, as the client code builds them
static std::vector<Well> well_formed()
{
  std::vector<Well> r;
  auto c = std::make_shared<Catcher>();
  c->mode = direct::BROKEN;
  auto get = [&](const char* ep, std::function<void()> f) {
    try
    {
      f();
    }
    catch (const std::exception&)
    {
    }
    r.push_back({ ep, c->last });
  };
  auto info = EndpointProcessInfo::factory(c);
  auto map = EndpointTraceMapping::factory(c);
  auto cfg = EndpointTraceConfigurator::factory(c);
  auto intro = EndpointIntrospect::factory(c);
  get(EndpointProcessInfo::name, [&] { info->processInfo(); });
  get(EndpointTraceMapping::name, [&] { map->mapping(); });
  get(EndpointTraceConfigurator::name, [&] { cfg->getTraceState(); });
  EndpointTraceConfigurator::TraceConfiguration s;
  s.process_state = !process_on();
  s.set_process_state = true;
  s.thread_state[(unsigned long)pthread_self()] = false;
  get(EndpointTraceConfigurator::name, [&] { cfg->setTraceState(s); });
  get(EndpointIntrospect::name, [&] { intro->supported(); });
  return r;
}
static const char* const kEndpoints[] = { EndpointProcessInfo::name, EndpointTraceMapping::name, EndpointTraceConfigurator::name, EndpointIntrospect::name };
struct World
{
  Transport::Ptr server, client;
  TransportFactory::Ptr factory;
  explicit World(int kind)
  {
    TraceConfigurator::getInstance()->setThreadState(true);
    ThreadNameTracker::getInstance().setCurrentName("main");
    StaticStringTracker::getInstance().insert(17, "trace name");
    if (kind == 0)
      factory = std::make_shared<TransportUnixFactory>();
    else
      factory = std::make_shared<TransportLoopbackFactory>();
    server = factory->serve();
    MC_REQUIRE(server != nullptr, "cannot serve");
    auto info = std::make_shared<EndpointProcessInfo>();
    info->setProcessName("process");
    server->addEndpoint(info);
    server->addEndpoint(std::make_shared<EndpointTraceMapping>());
    server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
    server->addEndpoint(std::make_shared<EndpointIntrospect>());
    client = connect();
  }
  Transport::Ptr connect()
  {
    auto d = server->getAddress();
    auto c = factory->connect(d);
    MC_REQUIRE(c != nullptr, "cannot connect");
    return c;
  }
  // well-formed requests are answered correctly
  void healthy(const Transport::Ptr& c)
  {
    try
    {
      auto i = EndpointProcessInfo::factory(c)->processInfo();
      MC_REQUIRE(i.pid == (unsigned long)::getpid() && i.name == "process" && i.threads.size() == 1 && i.threads.begin()->second == "main", "process info is wrong: pid %lu name '%s', %zu threads",
                 (unsigned long)i.pid, i.name.c_str(), i.threads.size());
      auto m = EndpointTraceMapping::factory(c)->mapping();
      MC_REQUIRE(m.size() == 1 && m.begin()->first == ::getpid() && m.begin()->second.size() == 1 && m.begin()->second.at(17) == "trace name", "the trace mapping is wrong");
      auto s = EndpointTraceConfigurator::factory(c)->getTraceState();
      States st(s.thread_state.begin(), s.thread_state.end());
      MC_REQUIRE(s.cmd_success && s.process_state == process_on() && st == actual(), "the reported trace state is wrong");
      auto e = EndpointIntrospect::factory(c)->supported();
      std::sort(e.begin(), e.end());
      std::vector<std::string> want(std::begin(kEndpoints), std::end(kEndpoints));
      std::sort(want.begin(), want.end());
      MC_REQUIRE(e == want, "the list of endpoints is wrong");
    }
    catch (const std::exception& x)
    {
      mc::fail("property", "a well-formed request failed: %s", x.what());
    }
  }
  // the answer can be understood by the client code
  void readable(const std::string& ep, const Data& answer)
  {
    auto c = std::make_shared<direct::Client>();
    c->mode = direct::GARBAGE;
    c->garbage = answer;
    try
    {
      if (ep == EndpointProcessInfo::name)
        EndpointProcessInfo::factory(c)->processInfo();
      else if (ep == EndpointTraceMapping::name)
        EndpointTraceMapping::factory(c)->mapping();
      else if (ep == EndpointTraceConfigurator::name)
        EndpointTraceConfigurator::factory(c)->getTraceState();
      else
        EndpointIntrospect::factory(c)->supported();
    }
    catch (const std::exception& x)
    {
      mc::fail("property", "endpoint %s answered with something its client cannot read: %s", ep.c_str(), x.what());
    }
  }
  // sends the bytes; malformed: they certainly are no valid request
  bool send(const std::string& ep, const Data& bytes, bool malformed)
  {
    mc::count_case();
    mc::note("[to %s: %s] ", ep.c_str(), bytes.size() > 200 ? "..." : mc::hex(bytes).c_str());
    bool before = process_on();
    auto states = actual();
    auto f = client->request(ep, bytes);
    bool answered = f->wait_for(std::chrono::milliseconds(50)) == std::future_status::ready;
    if (answered)
    {
      try
      {
        readable(ep, f->get());
      }
      catch (const std::runtime_error&)
      {
        answered = false;  // an error instead of an answer
      }
      catch (const std::logic_error&)
      {
        answered = false;
      }
      catch (const json::exception&)
      {
        answered = false;
      }
    }
    f.reset();
    if (malformed || !answered)
      MC_REQUIRE(process_on() == before && actual() == states, "a %s request changed the tracing state", malformed ? "malformed" : "refused");
    TraceConfigurator::getInstance()->getProcessStatePtr()->store(true);
    TraceConfigurator::getInstance()->setThreadState(true);
    MC_REQUIRE(server->getAddress() != nullptr && client->isConnected(), "the connection was lost");
    return answered;
  }
};
// All short byte strings.
MC_SCENARIO(short_requests, 0, 0, mc::SEQ, 36000)
{
  World w(mc::choose(2, "transport"));
  std::string ep = kEndpoints[mc::choose(4, "endpoint")];
  static const uint8_t some[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 18, 31, 0x6d, 0x6c, 0x7f, 0x80, 0xa0, 0xff };
  w.send(ep, {}, ep != EndpointIntrospect::name);
  for (int a = 0; a < 256; a++)
    w.send(ep, { (uint8_t)a }, ep != EndpointTraceMapping::name);
  for (uint8_t a : some)
    for (uint8_t b : some)
    {
      w.send(ep, { a, b }, false);
      if (mc::tier())
        for (uint8_t c : some)
        {
          w.send(ep, { a, b, c }, false);
          w.send(ep, { a, b, c, 0 }, false);
          w.send(ep, { 5, 0, a, b, c }, false);
        }
    }
  w.healthy(w.client);
  w.healthy(w.connect());
}
// Every truncation, every extension and every single-byte change of every well-formed request.
MC_SCENARIO(mutated_requests, 0, 0, mc::SEQ, 36000)
{
  World w(mc::choose(2, "transport"));
  auto all = well_formed();
  const Well& r = all[(size_t)mc::choose((int)all.size(), "request")];
  int part = mc::choose(4, "part");
  MC_REQUIRE(w.send(r.ep, r.bytes, false), "the well-formed request is not answered");
  bool bson = r.bytes.size() > 4;
  if (part == 0)
  {
    for (size_t n = 0; n < r.bytes.size(); n++)
      w.send(r.ep, Data(r.bytes.begin(), r.bytes.begin() + (long)n), bson);
    for (int x : {0, 1, 0x6d, 255})
    {
      Data d = r.bytes;
      d.push_back((uint8_t)x);
      w.send(r.ep, d, false);
      d.insert(d.begin(), (uint8_t)x);
      w.send(r.ep, d, false);
    }
  }
  static const int some[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 0x10, 0x11, 0x12, 0x20, 0x7f, 0x80, 0xfe, 0xff };
  for (size_t i = 0; i < r.bytes.size(); i++)
    for (int v = part; v < (mc::tier() ? 256 : 18); v += 4)
    {
      Data d = r.bytes;
      d[i] = (uint8_t)(mc::tier() ? v : some[v]);
      w.send(r.ep, d, false);
    }
  w.healthy(w.client);
  w.healthy(w.connect());
}
// Well-formed containers with the wrong content.
MC_SCENARIO(wrong_content, 0, 0, mc::SEQ, 36000)
{
  World w(mc::choose(2, "transport"));
  std::string ep = kEndpoints[mc::choose(4, "endpoint")];
  const json absent = "<absent>";
  unsigned long me = (unsigned long)pthread_self();
  std::vector<json> odd = { absent, nullptr, true, 5, -1, 1.5, "", "text", json::array(), json::array({ 1, 2 }), json::object(), json{ { "a", 1 } } };
  std::vector<json> cmds = odd, states = odd, t = odd;
  for (const char* c : { "info", "get", "set", "SET", "sets", "in\xff", "mapping" })
    cmds.push_back(c);
  // thread lists; the last one is valid
  t.push_back(json::array({ json::array({ me }) }));
  t.push_back(json::array({ json::array({ me, 5 }) }));
  t.push_back(json::array({ json::array({ me, nullptr }) }));
  t.push_back(json::array({ json::array({ "x", false }) }));
  t.push_back(json::array({ json::array({ me, false }), json::array({ nullptr, false }) }));
  t.push_back(json::array({ json::array({ me, false }), 5 }));
  t.push_back(json{ { "x", false } });
  size_t valid_t = t.size();
  t.push_back(json::array({ json::array({ me, false }) }));
  auto put = [&](json& o, const char* k, const json& v) {
    if (v != absent)
      o[k] = v;
  };
  for (auto& p : { absent, json(nullptr), json(false), json(0), json("false") })
    for (auto& sp : { absent, json(nullptr), json(true), json(1), json("true") })
      for (size_t i = 0; i < t.size(); i++)
      {
        // an empty list is valid as well
        bool good = p == json(false) && sp == json(true) && (i == valid_t || t[i] == json::array());
        if (good)
          continue;
        json s = json::object();
        put(s, "p", p);
        put(s, "sp", sp);
        put(s, "t", t[i]);
        states.push_back(s);
      }
  int part = mc::choose(8, "part");
  int k = 0;
  for (auto& c : cmds)
    for (auto& s : states)
    {
      if (k++ % 8 != part)
        continue;
      json o = json::object();
      put(o, "cmd", c);
      put(o, "state", s);
      w.send(ep, json::to_bson(o), true);
    }
  w.healthy(w.client);
  w.healthy(w.connect());
}
// Large and deeply nested requests.
MC_SCENARIO(oversized, 0, 0, mc::SEQ, 36000)
{
  World w(mc::choose(2, "transport"));
  std::string ep = kEndpoints[mc::choose(4, "endpoint")];
  int what = mc::choose(5, "what");
  Data d;
  if (what == 0)
    d = Data(300000, 0);
  else if (what == 1)
    d = Data(300000, 'm');
  else if (what == 2)
    d = json::to_bson(json{ { "cmd", std::string(200000, 'x') } });
  else
  {
    // {"":{"":{...}}} (or arrays) as BSON
    int depth = what == 3 ? 100 : 150000;
    std::vector<uint8_t> inner = { 5, 0, 0, 0, 0 };
    size_t total = 5 + (size_t)depth * 7;
    for (int i = 0; i < depth; i++)
    {
      size_t len = total - (size_t)i * 7;
      for (int b = 0; b < 4; b++)
        d.push_back((uint8_t)(len >> (8 * b)));
      d.push_back(i % 2 ? 3 : 4);
      d.push_back(0);
    }
    d.insert(d.end(), inner.begin(), inner.end());
    d.insert(d.end(), (size_t)depth, 0);
  }
  w.send(ep, d, ep != EndpointTraceMapping::name && ep != EndpointIntrospect::name);
  w.healthy(w.client);
  w.healthy(w.connect());
}
// Endpoints that throw: someone else's endpoint does not take the server down either.
class Thrower : public Endpoint
{
public:
  std::string getName() const override { return "thrower"; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    if (in.size() == 1)
      throw std::runtime_error("endpoint failed");
    if (in.size() == 2)
      throw std::logic_error("endpoint failed");
    out = in;
    return true;
  }
  bool unsolicited(Transport&, const Data&, Data&) override { throw std::runtime_error("endpoint failed"); }
};
MC_SCENARIO(throwing_endpoint, 0, 0, mc::SEQ, 360)
{
  World w(mc::choose(2, "transport"));
  w.server->addEndpoint(std::make_shared<Thrower>());
  for (int i = 0; i < 3; i++)
  {
    int n = mc::choose(4, "request");
    auto f = w.client->request("thrower", Data((size_t)n, 7));
    bool ready = f->wait_for(std::chrono::milliseconds(100)) == std::future_status::ready;
    bool ok = false;
    if (ready)
      try
      {
        ok = f->get() == Data((size_t)n, 7);
      }
      catch (const std::exception&)
      {
      }
    MC_REQUIRE(ok == (n == 0 || n == 3), "request of %d bytes %s", n, ok ? "was answered" : "was not answered");
  }
}
MC_SCENARIO(throwing_client, 0, 0, mc::SEQ, 360)
{
  World w(mc::choose(2, "transport"));
  w.client->addEndpoint(std::make_shared<Thrower>());
  w.healthy(w.client);
  w.server->broadcast("thrower", { 1 });
  w.server->broadcast("nobody", { 1 });
  mc::sleep_ms(100);
  w.healthy(w.client);
}
