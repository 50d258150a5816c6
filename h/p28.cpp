// P28: queries survive any answer bytes from any server.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/general_source.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/scope_tracing_provider.h>
#include <scalopus_transport/transport_loopback.h>
#include <scalopus_transport/transport_unix.h>
#include <algorithm>
#include <functional>
#include <nlohmann/json.hpp>
#include "direct.h"
#include "tu.h"
using json = nlohmann::json;
using scalopus::Data;
using namespace scalopus;
enum Query { SUPPORTED, INFO, MAPPING, GET, SET, NQUERIES };
static const char* const kQuery[] = { "supported", "processInfo", "mapping", "getTraceState", "setTraceState" };
static const char* kEndpoint[] = { EndpointIntrospect::name, EndpointProcessInfo::name, EndpointTraceMapping::name, EndpointTraceConfigurator::name, EndpointTraceConfigurator::name };
// what a query said, as text
static const char* const kNothing[] = { "[]", "0 '' {}", "{}", "failed", "failed" };
static std::string quote(const std::string& s) { return "'" + s + "'"; }
template <typename M>
static std::map<typename M::key_type, typename M::mapped_type> sorted(const M& m)
{
  return { m.begin(), m.end() };
}
static std::string show(const EndpointTraceConfigurator::TraceConfiguration& c)
{
  if (!c.cmd_success)
    return "failed";
  std::string r = c.process_state ? "on {" : "off {";
  for (auto& t : sorted(c.thread_state))
    r += std::to_string(t.first) + (t.second ? "+" : "-");
  return r + "}";
}
// One endpoint object per connection and kind, as in the programs that use them: what it keeps from one query must not show in another.
struct Clients
{
  static Clients*& current()
  {
    static Clients* c = nullptr;
    return c;
  }
  Clients() { current() = this; }
  ~Clients() { current() = nullptr; }
  std::map<std::pair<const void*, const char*>, std::pair<std::weak_ptr<Transport>, Endpoint::Ptr>> all;
};
template <typename E>
static std::shared_ptr<E> client(const Transport::Ptr& c)
{
  if (!c || !Clients::current())
    return E::factory(c);
  auto& e = Clients::current()->all[{ c.get(), E::name }];
  if (e.first.lock() != c)
    e = { c, E::factory(c) };
  return std::static_pointer_cast<E>(e.second);
}
// runs the query; false: it threw
static bool ask(Query q, const Transport::Ptr& c, std::string& r)
{
  try
  {
    r.clear();
    switch (q)
    {
      case SUPPORTED:
        r = "[";
        for (auto& s : client<EndpointIntrospect>(c)->supported())
          r += quote(s);
        r += "]";
        break;
      case INFO:
      {
        auto i = client<EndpointProcessInfo>(c)->processInfo();
        r = std::to_string(i.pid) + " " + quote(i.name) + " {";
        for (auto& t : sorted(i.threads))
          r += std::to_string(t.first) + quote(t.second);
        r += "}";
        break;
      }
      case MAPPING:
        r = "{";
        for (auto& p : sorted(client<EndpointTraceMapping>(c)->mapping()))
        {
          r += std::to_string(p.first) + "{";
          for (auto& n : sorted(p.second))
            r += std::to_string(n.first) + quote(n.second);
          r += "}";
        }
        r += "}";
        break;
      case GET:
        r = show(client<EndpointTraceConfigurator>(c)->getTraceState());
        break;
      default:
      {
        EndpointTraceConfigurator::TraceConfiguration s;
        s.process_state = true;
        s.set_process_state = true;
        s.thread_state[7] = true;
        r = show(client<EndpointTraceConfigurator>(c)->setTraceState(s));
      }
    }
    return true;
  }
  catch (const std::exception& e)
  {
    r = e.what();
    return false;
  }
  catch (...)
  {
    mc::fail("property", "%s threw something else than an exception", kQuery[q]);
  }
}
struct Answer
{
  Data bytes;
  std::string want;
};
// the well-formed answers
static std::vector<Answer> well_formed(Query q)
{
  std::vector<Answer> r;
  static const std::string NAMES[] = { "", "a", "b\xc3\xa9ta \"q\"\n'", std::string(60, 'z') };
  for (int k = 0; k < 8; k++)
  {
    Answer a;
    json o = json::object();
    if (q == SUPPORTED)
    {
      o["endpoints"] = json::array();
      a.want = "[";
      for (int i = 0; i < k; i++)
      {
        o["endpoints"].push_back(NAMES[(i + k) % 4]);
        a.want += quote(NAMES[(i + k) % 4]);
      }
      a.want += "]";
    }
    else if (q == INFO)
    {
      static const unsigned long PIDS[] = { 1, 255, 256, 65536, 4194304, 0x7fffffff, 300, 12 };
      static const unsigned long TIDS[] = { 1, 0x7ffff7d8a740ul, 0x7ffffffffffffffful, 77 };
      o["name"] = NAMES[k % 4];
      o["pid"] = PIDS[k];
      std::map<unsigned long, std::string> t;
      for (int i = 0; i < k % 5; i++)
        t[TIDS[i % 4]] = NAMES[(i + k) % 4];
      o["threads"] = t;
      a.want = std::to_string(PIDS[k]) + " " + quote(NAMES[k % 4]) + " {";
      for (auto& x : t)
        a.want += std::to_string(x.first) + quote(x.second);
      a.want += "}";
    }
    else if (q == MAPPING)
    {
      static const unsigned IDS[] = { 0, 17, 0x80000000u, 0xffffffffu };
      std::map<int, std::map<unsigned, std::string>> m;
      for (int i = 0; i < k % 3; i++)
        for (int j = 0; j < k % 5; j++)
          m[i ? 4194304 : 12][IDS[j % 4]] = NAMES[(i + j + k) % 4];
      o["mapping"] = m;
      a.want = "{";
      for (auto& p : m)
      {
        a.want += std::to_string(p.first) + "{";
        for (auto& x : p.second)
          a.want += std::to_string(x.first) + quote(x.second);
        a.want += "}";
      }
      a.want += "}";
    }
    else
    {
      static const unsigned long TIDS[] = { 1, 0x7ffff7d8a740ul, 0x7ffffffffffffffful };
      std::map<unsigned long, bool> t;
      for (int i = 0; i < k % 4; i++)
        t[TIDS[i]] = (k >> i) & 1;
      o["state"] = { { "p", k % 2 == 0 }, { "sp", k % 3 == 0 }, { "t", t } };
      a.want = k % 2 == 0 ? "on {" : "off {";
      for (auto& x : t)
        a.want += std::to_string(x.first) + (x.second ? "+" : "-");
      a.want += "}";
    }
    a.bytes = json::to_bson(o);
    r.push_back(a);
  }
  return r;
}
struct Hostile
{
  std::shared_ptr<direct::Client> c = std::make_shared<direct::Client>();
  Query q;
  explicit Hostile(Query query) : q(query) { c->mode = direct::GARBAGE; }
  bool give(const Data& d, std::string& r)
  {
    mc::count_case();
    mc::note("[%s is answered %s] ", kQuery[q], d.size() > 200 ? "..." : mc::hex(d).c_str());
    c->garbage = d;
    uint64_t t = mc::now_ns();
    bool ok = ask(q, c, r);
    MC_REQUIRE(mc::now_ns() - t < 1000000000ull, "%s took %lu ms", kQuery[q], (unsigned long)((mc::now_ns() - t) / 1000000));
    return ok;
  }
  void right(const Answer& a, const char* when)
  {
    std::string r;
    bool ok = give(a.bytes, r);
    MC_REQUIRE(ok && r == a.want, "%s, %s, %s %s instead of %s", kQuery[q], when, ok ? "gave" : "failed with", r.c_str(), a.want.c_str());
  }
  void wrong(const Data& d, const char* what)
  {
    std::string r;
    MC_REQUIRE(!give(d, r), "%s takes %s for %s", kQuery[q], what, r.c_str());
  }
};
// Well-formed answers of all shapes are understood, and a query never remembers the previous answer.
MC_SCENARIO(understood, 0, 0, mc::SEQ, 3600)
{
  Clients clients;
  Hostile h((Query)mc::choose(NQUERIES, "query"));
  auto all = well_formed(h.q);
  for (auto& a : all)
    for (auto& b : all)
    {
      h.right(a, "first");
      h.right(b, "second");
    }
}
// All short byte strings.
MC_SCENARIO(short_answers, 0, 0, mc::SEQ, 36000)
{
  Clients clients;
  Hostile h((Query)mc::choose(NQUERIES, "query"));
  h.wrong({}, "an empty answer");
  for (int a = 0; a < 256; a++)
    h.wrong({ (uint8_t)a }, "one byte");
  for (int a = 0; a < 256; a++)
    for (int b = 0; b < 256; b += mc::tier() ? 1 : 5)
      h.wrong({ (uint8_t)a, (uint8_t)b }, "two bytes");
  static const uint8_t some[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 16, 17, 18, 0x6d, 0x7f, 0x80, 0xff };
  for (uint8_t a : some)
    for (uint8_t b : some)
      for (uint8_t c : some)
      {
        h.wrong({ a, b, c }, "three bytes");
        h.wrong({ a, b, c, 0 }, "four bytes");
        h.wrong({ 8, 0, 0, 0, a, b, c, 0 }, "eight bytes");
      }
  h.right(well_formed(h.q)[3], "after short answers");
}
// Every truncation, extension and single-byte change of the well-formed answers.
MC_SCENARIO(mutated, 0, 0, mc::SEQ, 36000)
{
  Clients clients;
  Hostile h((Query)mc::choose(NQUERIES, "query"));
  auto all = well_formed(h.q);
  auto& a = all[(size_t)mc::choose((int)all.size(), "answer")];
  std::string r;
  h.right(a, "at first");
  for (size_t n = 0; n < a.bytes.size(); n++)
    h.wrong(Data(a.bytes.begin(), a.bytes.begin() + (long)n), "a truncated answer");
  for (int x : { 0, 1, 5, 255 })
  {
    Data d = a.bytes;
    d.push_back((uint8_t)x);
    if (h.give(d, r))
      MC_REQUIRE(r == a.want, "with a byte too many %s gives %s instead of %s", kQuery[h.q], r.c_str(), a.want.c_str());
    d = a.bytes;
    d.insert(d.begin(), (uint8_t)x);
    h.give(d, r);
  }
  static const int some[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 0x10, 0x11, 0x12, 0x20, 0x7f, 0x80, 0xfe, 0xff };
  for (size_t i = 0; i < a.bytes.size() && i < 1500; i++)
    for (int v = 0; v < (mc::tier() ? 256 : 18); v++)
    {
      Data d = a.bytes;
      d[i] = (uint8_t)(mc::tier() ? v : some[v]);
      h.give(d, r);
    }
  h.right(a, "after mutated answers");
}
// Containers of the right shape with wrong or absent content.
MC_SCENARIO(wrong_content, 0, 0, mc::SEQ, 36000)
{
  Clients clients;
  Hostile h((Query)mc::choose(NQUERIES, "query"));
  const json absent = "<absent>";
  auto put = [&](json& o, const char* k, const json& v) {
    if (v != absent)
      o[k] = v;
  };
  auto array = [](const json& a) { return json::array({ a }); };
  auto pair = [](const json& a, const json& b) { return json::array({ a, b }); };
  // of which no text, number, list or truth value can be made
  std::vector<json> no_text = { absent, nullptr, true, 5, -1, 1.5, json::array(), json::array({ "a" }), json::object(), json{ { "a", 1 } } };
  std::vector<json> no_number = { absent, nullptr, "", "12", json::array(), json::array({ 1 }), json::object(), json{ { "a", 1 } } };
  std::vector<json> no_list = { absent, nullptr, true, 5, -1, 1.5, "", "text", json{ { "a", 1 } }, json{ { "5", "a" } } };
  std::vector<json> no_bool = { absent, nullptr, "", "true", 0, 1, 1.5, json::array(), json::array({ true }), json::object() };
  auto lists = [&](const std::vector<json>& values, const json& good) {
    auto r = no_list;
    for (auto& v : values)
      if (v != absent)
      {
        r.push_back(array(pair(5, v)));
        r.push_back(json::array({ pair(4, good), pair(5, v) }));
        r.push_back(json::array({ pair(5, v), pair(6, good) }));
      }
    for (auto& k : no_number)
      if (k != absent)
        r.push_back(json::array({ pair(4, good), pair(k, good) }));
    r.push_back(array(array(5)));
    r.push_back(array(json::array()));
    r.push_back(json::array({ pair(4, good), 5 }));
    r.push_back(json::array({ nullptr, pair(4, good) }));
    return r;
  };
  std::vector<json> bad;
  if (h.q == SUPPORTED)
  {
    for (auto& v : no_list)
    {
      json o = json::object();
      put(o, "endpoints", v);
      bad.push_back(o);
    }
    for (auto& v : no_text)
      if (v != absent)
        for (auto& l : { array(v), pair("a", v), pair(v, "a") })
          bad.push_back(json{ { "endpoints", l } });
  }
  else if (h.q == INFO)
  {
    auto threads = lists(no_text, "name");
    for (size_t i = 0; i <= no_text.size(); i++)
      for (size_t j = 0; j <= no_number.size(); j++)
        for (size_t k = 0; k <= threads.size(); k++)
        {
          if (i == no_text.size() && j == no_number.size() && k == threads.size())
            continue;
          json o = json::object();
          put(o, "name", i == no_text.size() ? json("name") : no_text[i]);
          put(o, "pid", j == no_number.size() ? json(12) : no_number[j]);
          put(o, "threads", k == threads.size() ? array(pair(4, "thread")) : threads[k]);
          bad.push_back(o);
        }
  }
  else if (h.q == MAPPING)
  {
    for (auto& v : lists(lists(no_text, "name"), array(pair(4, "name"))))
    {
      json o = json::object();
      put(o, "mapping", v);
      bad.push_back(o);
    }
  }
  else
  {
    for (auto& v : no_list)
    {
      json o = json::object();
      put(o, "state", v);
      bad.push_back(o);
    }
    auto threads = lists(no_bool, true);
    for (size_t i = 0; i <= no_bool.size(); i++)
      for (size_t k = 0; k <= threads.size(); k++)
      {
        if (i == no_bool.size() && k == threads.size())
          continue;
        json s = json::object();
        put(s, "p", i == no_bool.size() ? json(true) : no_bool[i]);
        put(s, "sp", true);
        put(s, "t", k == threads.size() ? array(pair(4, true)) : threads[k]);
        bad.push_back(json{ { "state", s } });
      }
  }
  auto good = well_formed(h.q);
  int n = 0;
  for (auto& o : bad)
  {
    h.wrong(json::to_bson(o), o.dump().c_str());
    if (n++ % 8 == 0)
      h.right(good[(size_t)(n / 8) % good.size()], "after wrong content");
  }
}
static Data nested(int depth, bool arrays)
{
  Data d;
  size_t total = 5 + (size_t)depth * 7;
  for (int i = 0; i < depth; i++)
  {
    size_t len = total - (size_t)i * 7;
    for (int b = 0; b < 4; b++)
      d.push_back((uint8_t)(len >> (8 * b)));
    d.push_back(arrays ? 4 : 3);
    d.push_back(0);
  }
  Data inner = { 5, 0, 0, 0, 0 };
  d.insert(d.end(), inner.begin(), inner.end());
  d.insert(d.end(), (size_t)depth, 0);
  return d;
}
// Large and deeply nested answers.
static Data large(int what)
{
  switch (what)
  {
    case 0:
      return Data(300000, 0);
    case 1:
      return Data(300000, 0xff);
    case 2:
      return nested(100, false);
    case 3:
      return nested(150000, false);
    case 4:
      return nested(150000, true);
    case 5:
    {
      // a text that claims to be longer than everything
      Data d = json::to_bson(json{ { "name", "x" } });
      for (size_t i = 0; i + 1 < d.size(); i++)
        if (d[i] == 'e' && d[i + 1] == 0)
          for (int b = 0; b < 4; b++)
            d[i + 2 + (size_t)b] = b == 3 ? 0x7f : 0xff;
      return d;
    }
    default:
      return json::to_bson(json{ { "endpoints", { { "deep", json::array({ json::array() }) } } }, { "x", std::string(200000, 'x') } });
  }
}
MC_SCENARIO(oversized, 0, 0, mc::SEQ, 36000)
{
  Clients clients;
  Hostile h((Query)mc::choose(NQUERIES, "query"));
  h.wrong(large(mc::choose(7, "what")), "a large answer");
  h.right(well_formed(h.q)[5], "after a large answer");
}
// No answer, a failing transport, no transport.
MC_SCENARIO(no_answer, 0, 0, mc::SEQ | mc::NO_TIMERS, 60)
{
  Clients clients;
  auto c = std::make_shared<direct::Client>();
  static const direct::Mode modes[] = { direct::GARBAGE, direct::SILENT, direct::BROKEN, direct::THROWS };
  for (int i = 0; i < 3; i++)
  {
    Query q = (Query)mc::choose(NQUERIES, "query");
    auto a = well_formed(q)[7];
    int m = mc::choose(5, "mode");
    std::string r;
    uint64_t t = mc::now_ns();
    mc::count_case();
    if (m == 4)
    {
      bool comm = false;
      try
      {
        switch (q)
        {
          case SUPPORTED:
            EndpointIntrospect().supported();
            break;
          case INFO:
            EndpointProcessInfo().processInfo();
            break;
          case MAPPING:
            EndpointTraceMapping().mapping();
            break;
          case GET:
            EndpointTraceConfigurator().getTraceState();
            break;
          default:
            EndpointTraceConfigurator().setTraceState({});
        }
      }
      catch (const communication_error&)
      {
        comm = true;
      }
      MC_REQUIRE(comm, "%s without a transport is no communication error", kQuery[q]);
      continue;
    }
    c->mode = modes[m];
    c->garbage = a.bytes;
    bool ok = ask(q, c, r);
    MC_REQUIRE(mc::now_ns() - t < 1000000000ull, "%s took %lu ms", kQuery[q], (unsigned long)((mc::now_ns() - t) / 1000000));
    if (m == 0)
      MC_REQUIRE(ok && r == a.want, "%s %s %s instead of %s", kQuery[q], ok ? "gave" : "failed with", r.c_str(), a.want.c_str());
    else if (m == 1)
      MC_REQUIRE(!ok || r == kNothing[q], "%s without an answer gave %s", kQuery[q], r.c_str());
    else
      MC_REQUIRE(!ok, "%s over a broken connection gave %s", kQuery[q], r.c_str());
  }
}
// A server of which every endpoint answers what it is told to, over the real transports.
class Liar : public Endpoint
{
public:
  Liar(const char* n) : name_(n) {}
  std::string getName() const override { return name_; }
  bool handle(Transport&, const Data&, Data& out) override
  {
    std::lock_guard<std::mutex> l(m_);
    if (kind == 1)
      return false;
    if (kind == 2)
      throw std::runtime_error("the endpoint fails");
    out = say;
    return true;
  }
  void set(int k, const Data& d)
  {
    std::lock_guard<std::mutex> l(m_);
    kind = k;
    say = d;
  }

private:
  std::mutex m_;
  int kind = 0;
  Data say;
  std::string name_;
};
MC_SCENARIO(over_transports, 0, 0, mc::SEQ, 3600)
{
  Clients clients;
  TransportFactory::Ptr f;
  bool un = mc::choose(2, "transport") == 0;
  if (un)
    f = std::make_shared<TransportUnixFactory>();
  else
    f = std::make_shared<TransportLoopbackFactory>();
  Query q = (Query)mc::choose(NQUERIES, "query");
  auto s = f->serve();
  MC_REQUIRE(s != nullptr, "cannot serve");
  auto liar = std::make_shared<Liar>(kEndpoint[q]);
  s->addEndpoint(liar);
  auto c = f->connect(s->getAddress());
  MC_REQUIRE(c != nullptr, "cannot connect");
  auto all = well_formed(q);
  int what = mc::choose(11, "what");
  std::string r;
  mc::count_case();
  if (what < 9)
  {
    // (0: ends early, 1: one byte too many, then the large ones)
    Data d = what == 0 ? Data(all[3].bytes.begin(), all[3].bytes.end() - 1) : what == 1 ? all[3].bytes : large(what - 2);
    if (what == 1)
      d.push_back(0);
    liar->set(0, d);
    bool ok = ask(q, c, r);
    MC_REQUIRE(!ok || (what == 1 && r == all[3].want), "a malformed answer is taken for %s", r.c_str());
  }
  else
  {
    liar->set(what - 8, {});
    bool ok = ask(q, c, r);
    MC_REQUIRE(!ok || r == kNothing[q], "without an answer, %s gave %s", kQuery[q], r.c_str());
  }
  for (size_t i : { 3u, 5u })
  {
    liar->set(0, all[i].bytes);
    bool ok = ask(q, c, r);
    MC_REQUIRE(ok && r == all[i].want, "afterwards %s %s %s instead of %s", kQuery[q], ok ? "gave" : "failed with", r.c_str(), all[i].want.c_str());
  }
  MC_REQUIRE(c->isConnected(), "the connection is gone");
}
// The event providers keep what the other servers say.
class Manager : public EndpointManager
{
public:
  TransportEndpoints endpoints() const override { return all; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  TransportEndpoints all;
};
MC_SCENARIO(providers, 0, 0, mc::SEQ, 36000)
{
  Clients clients;
  bool general = mc::choose(2, "provider") == 0;
  int part = mc::choose(8, "part");
  auto m = std::make_shared<Manager>();
  const unsigned long pids[] = { 0x01010101ul, 0x02020202ul };
  std::vector<std::shared_ptr<direct::Client>> link;
  std::vector<Data> good;
  for (unsigned long pid : pids)
  {
    json o = json::object();
    std::map<unsigned long, std::string> names = { { 9, "nine " + std::to_string(pid) }, { 10, "ten" } };
    if (general)
      o = { { "name", "process" }, { "pid", pid }, { "threads", names } };
    else
      o["mapping"] = std::map<unsigned long, std::map<unsigned long, std::string>>{ { pid, names } };
    auto c = std::make_shared<direct::Client>();
    c->mode = direct::GARBAGE;
    c->garbage = json::to_bson(o);
    good.push_back(c->garbage);
    link.push_back(c);
    if (general)
      m->all[c][EndpointProcessInfo::name] = EndpointProcessInfo::factory(c);
    else
      m->all[c][EndpointTraceMapping::name] = EndpointTraceMapping::factory(c);
  }
  auto gp = std::make_shared<GeneralProvider>(m);
  struct Provider : public ScopeTracingProvider
  {
    using ScopeTracingProvider::ScopeTracingProvider;
    TraceEventSource::Ptr makeSource() override { return nullptr; }
  };
  auto tp = std::make_shared<Provider>(m);
  auto update = [&](const char* what, int bad) {
    mc::count_case();
    mc::note("[server %d says %s] ", bad, what);
    try
    {
      if (general)
        gp->updateMapping();
      else
        tp->updateMapping();
    }
    catch (const std::exception& e)
    {
      mc::fail("property", "updating fails: %s", e.what());
    }
    for (int i = 0; i < 2; i++)
      if (i != bad)
      {
        std::string got;
        if (general)
        {
          auto x = gp->getMapping();
          if (x.count(pids[i]) && x[pids[i]].threads.size() == 2)
            got = x[pids[i]].threads[9];
        }
        else
        {
          auto x = tp->getMapping();
          if (x.count((int)pids[i]) && x[(int)pids[i]].size() == 2)
            got = x[(int)pids[i]][9];
        }
        MC_REQUIRE(got == "nine " + std::to_string(pids[i]), "the names of the other server are '%s'", got.c_str());
      }
  };
  update("the truth", -1);
  static const int some[] = { 0, 1, 2, 3, 4, 5, 9, 10, 0x10, 0x12, 0x7f, 0x80, 0xff };
  for (int bad = 0; bad < 2; bad++)
  {
    auto& say = link[(size_t)bad]->garbage;
    const Data& g = good[(size_t)bad];
    for (size_t n = (size_t)part; n < g.size(); n += 8)
    {
      say = Data(g.begin(), g.begin() + (long)n);
      update("a part", bad);
      for (int v : some)
      {
        say = g;
        say[n] = (uint8_t)v;
        update(mc::hex(say).c_str(), bad);
      }
    }
    if (part < 7)
    {
      say = large(part);
      update("a lot", bad);
    }
    say = g;
    update("the truth", -1);
  }
}
