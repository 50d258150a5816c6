// P15: the endpoint manager.
#include <scalopus_general/endpoint_introspect.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_interface/transport_factory.h>
#include <nlohmann/json.hpp>
#include <algorithm>
#include <functional>
#include <set>
#include "direct.h"
#include "tu.h"
using namespace scalopus;
class Dest : public Destination
{
public:
  explicit Dest(int i) : id(i) {}
  operator std::string() const override { return "server" + std::to_string(id); }
  std::size_t hash_code() const override { return 1000 + (size_t)id; }
  int id;
};
struct Named : Endpoint
{
  explicit Named(const std::string& n) : n_(n) {}
  std::string getName() const override { return n_; }
  std::string n_;
};
enum Behaviour { ABSENT, GOOD, REFUSES, DEAD_ON_ARRIVAL, CONNECT_THROWS, SILENT, BROKEN, GARBAGE, WRONG_SHAPE, REBORN, HIDDEN, OTHER, NBEHAVE };
struct Srv
{
  int id = 0;
  Behaviour b = ABSENT;
  std::shared_ptr<direct::Server> side;
  std::weak_ptr<direct::Client> conn;
  int connects = 0;
  bool introspected = false;  // the live connection was asked while the server answered properly
  std::set<std::string> want;
  void offers(std::initializer_list<const char*> l)
  {
    side = std::make_shared<direct::Server>();
    side->addEndpoint(std::make_shared<EndpointIntrospect>());
    for (auto n : l)
      side->addEndpoint(std::make_shared<Named>(n));
  }
};
class Fact : public TransportFactory
{
public:
  std::vector<Destination::Ptr> discover() override
  {
    std::vector<Destination::Ptr> r;
    for (auto& s : srv)
      if (s.b != ABSENT && s.b != HIDDEN)
        r.push_back(std::make_shared<Dest>(s.id));
    if (reverse)
      std::reverse(r.begin(), r.end());
    return r;
  }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr& d) override
  {
    auto x = std::dynamic_pointer_cast<Dest>(d);
    MC_REQUIRE(x != nullptr, "connect with a foreign destination");
    for (auto& s : srv)
      if (s.id == x->id)
      {
        if (s.b == REFUSES)
          return nullptr;
        if (s.b == CONNECT_THROWS)
          throw communication_error("scripted");
        auto c = std::make_shared<direct::Client>(s.side);
        s.conn = c;
        s.connects++;
        if (s.b == DEAD_ON_ARRIVAL)
          c->connected = false;
        script(s, *c);
        return c;
      }
    return nullptr;
  }
  static void script(Srv& s, direct::Client& c)
  {
    c.mode = direct::ANSWER;
    if (s.b == SILENT)
      c.mode = direct::SILENT;
    if (s.b == BROKEN)
      c.mode = direct::BROKEN;
    if (s.b == GARBAGE || s.b == WRONG_SHAPE)
    {
      c.mode = direct::GARBAGE;
      c.garbage = s.b == GARBAGE ? Data{ 1, 2, 3 } : nlohmann::json::to_bson(nlohmann::json{ { "endpoints", { { "a", 1 } } } });
    }
  }
  std::vector<Srv> srv;
  bool reverse = false;
};
static bool introspects(Behaviour b) { return b == GOOD || b == REBORN || b == OTHER; }
static void rounds(int nsrv, int nrounds)
{
  auto f = std::make_shared<Fact>();
  f->srv.resize((size_t)nsrv);
  for (int i = 0; i < nsrv; i++)
    f->srv[(size_t)i].id = i;
  auto m = std::make_shared<EndpointManagerPoll>(f);
  auto mk = [](const char* n) { return [n](const auto& t) { auto e = std::make_shared<Named>(n); e->setTransport(t); return e; }; };
  m->addEndpointFactory("x", mk("x"));
  m->addEndpointFactory("y", mk("y"));
  m->addEndpointFactory("w", mk("w"));
  m->addEndpointFactory("null", [](const auto&) -> Endpoint::Ptr { return nullptr; });
  for (int r = 0; r < nrounds; r++)
  {
    std::vector<std::shared_ptr<direct::Client>> before;
    for (auto& s : f->srv)
    {
      s.b = (Behaviour)mc::choose(NBEHAVE, "behaviour");
      auto c = s.conn.lock();
      bool gone = s.b == ABSENT || s.b == REBORN;
      if (c && gone)
        c->connected = false;
      if (c && !gone)
        Fact::script(s, *c);
      bool live = c && c->connected;
      if (!live)
      {
        s.introspected = false;
        if (s.b == OTHER)
        {
          s.offers({ "y", "z", "null" });
          s.want = { "introspect", "y" };
        }
        else
        {
          s.offers({ "x", "y", "zz" });
          s.want = { "introspect", "x", "y" };
        }
      }
      s.connects = 0;
      before.push_back(live ? c : nullptr);
    }
    f->reverse = nsrv > 1 && (r & 1);
    m->manage();
    auto eps = m->endpoints();
    size_t known = 0;
    for (size_t i = 0; i < f->srv.size(); i++)
    {
      auto& s = f->srv[i];
      auto c = s.conn.lock();
      bool held = c && eps.count(c);
      known += held;
      if (before[i])
      {
        MC_REQUIRE(held && c == before[i] && s.connects == 0, "round %d: the connection to server %zu was not kept", r, i);
      }
      else if (s.b == ABSENT || s.b == REFUSES || s.b == CONNECT_THROWS || s.b == HIDDEN || s.b == DEAD_ON_ARRIVAL)
        MC_REQUIRE(!held, "round %d: holds a transport to server %zu, which cannot be reached", r, i);
      else if (introspects(s.b))
      {
        MC_REQUIRE(held && s.connects == 1, "round %d: no transport, or %d, to server %zu", r, s.connects, i);
      }
      if (!held)
        continue;
      MC_REQUIRE(c->connected, "round %d: holds a dead transport", r);
      // asked in this round, and answered properly?
      if (c->mode == direct::ANSWER && s.b != HIDDEN)
        s.introspected = true;
      std::set<std::string> got;
      for (auto& e : eps[c])
      {
        got.insert(e.first);
        MC_REQUIRE(e.second && e.second->getName() == e.first, "wrong endpoint under name %s", e.first.c_str());
        MC_REQUIRE(c->getEndpoint(e.first) == e.second, "endpoint %s does not receive broadcasts", e.first.c_str());
        MC_REQUIRE(e.second->getTransport() == c.get(), "endpoint %s is not connected to its transport", e.first.c_str());
      }
      if (s.introspected)
        MC_REQUIRE(got == s.want, "round %d: server %zu has %zu endpoints instead of %zu", r, i, got.size(), s.want.size());
      else
        MC_REQUIRE(got.empty(), "round %d: endpoints appeared that server %zu never reported", r, i);
    }
    MC_REQUIRE(known == eps.size(), "round %d: %zu transports for %zu servers", r, eps.size(), known);
    before.clear();
  }
  std::vector<std::weak_ptr<direct::Client>> w;
  for (auto& s : f->srv)
    w.push_back(s.conn);
  m.reset();
  for (auto& x : w)
    MC_REQUIRE(x.expired(), "a transport survives the manager");
}
MC_SCENARIO(one_server, 0, 0, mc::SEQ, 60) { rounds(1, mc::tier() ? 5 : 4); }
MC_SCENARIO(two_servers, 0, 0, mc::SEQ, 60) { rounds(2, 2); }
MC_SCENARIO(three_servers, 0, -1, mc::SEQ, 60) { rounds(3, 1); }
MC_SCENARIO(three_servers_deep, -1, 0, mc::SEQ, 60) { rounds(3, 2); }
// --- servers that die at any step of a round, next to others that are dead already
static std::function<void()> g_step;
struct Mortal : direct::Client
{
  using direct::Client::Client;
  bool isConnected() const override
  {
    if (g_step)
      g_step();
    return connected;
  }
  PendingResponse request(const std::string& ep, const Data& out) override
  {
    if (g_step)
      g_step();
    if (!connected)
    {
      std::promise<Data> p;
      p.set_exception(std::make_exception_ptr(communication_error("connection lost")));
      return std::make_shared<std::future<Data>>(p.get_future());
    }
    return direct::Client::request(ep, out);
  }
};
struct Cohort : TransportFactory
{
  struct S
  {
    std::shared_ptr<direct::Server> side;
    std::shared_ptr<Mortal> conn;
    bool up = true;  // can be discovered
  };
  std::vector<S> srv;
  std::vector<Destination::Ptr> discover() override
  {
    if (g_step)
      g_step();
    std::vector<Destination::Ptr> r;
    for (size_t i = 0; i < srv.size(); i++)
      if (srv[i].up)
        r.push_back(std::make_shared<Dest>((int)i));
    return r;
  }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr& d) override
  {
    if (g_step)
      g_step();
    auto& s = srv[(size_t)std::dynamic_pointer_cast<Dest>(d)->id];
    if (!s.up)
      return nullptr;
    return s.conn = std::make_shared<Mortal>(s.side);
  }
};
static void check(Cohort& f, EndpointManagerPoll& m, size_t i, const std::vector<std::string>& all, const char* when)
{
  auto eps = m.endpoints();
  auto& s = f.srv[i];
  MC_REQUIRE(eps.count(s.conn) == 1, "%s: the connection to server %zu is missing", when, i);
  MC_REQUIRE(eps[s.conn].size() == all.size() + 1, "%s: server %zu has %zu endpoints instead of %zu", when, i, eps[s.conn].size(), all.size() + 1);
  for (auto& n : all)
    MC_REQUIRE(eps[s.conn].count(n) == 1, "%s: endpoint %s of server %zu is missing", when, n.c_str(), i);
}
MC_SCENARIO(deaths, 0, 0, mc::SEQ, 60)
{
  const size_t N = mc::tier() ? 4 : 3;
  const std::vector<std::string> all = { "a", "b", "c", "d", "e", "f", "g" };
  auto f = std::make_shared<Cohort>();
  f->srv.resize(N);
  auto offer = [&](Cohort::S& s) {
    s.side = std::make_shared<direct::Server>();
    s.side->addEndpoint(std::make_shared<EndpointIntrospect>());
    for (auto& n : all)
      s.side->addEndpoint(std::make_shared<Named>(n));
  };
  for (auto& s : f->srv)
    offer(s);
  auto m = std::make_shared<EndpointManagerPoll>(f);
  for (auto& n : all)
    m->addEndpointFactory(n, [n](const auto& t) { auto e = std::make_shared<Named>(n); e->setTransport(t); return e; });
  m->manage();
  for (size_t i = 0; i < N; i++)
    check(*f, *m, i, all, "at first");
  // some died since, of which some were started again; one more dies during the round
  std::vector<std::shared_ptr<Mortal>> old;
  for (auto& s : f->srv)
    old.push_back(s.conn);
  auto die = [&](size_t i, bool reborn) {
    f->srv[i].conn->connected = false;
    f->srv[i].up = reborn;
    if (reborn)
      offer(f->srv[i]);
  };
  for (size_t i = 0; i < N; i++)
  {
    int c = mc::choose(3, "dead");
    if (c)
      die(i, c == 2);
  }
  const auto before = f->srv;
  int victim = mc::choose((int)N, "victim"), at = mc::choose((int)N * 3 + 3, "step"), step = 0;
  bool reborn = mc::choose(2, "reborn");
  g_step = [&] {
    if (step++ == at)
      die((size_t)victim, reborn);
  };
  m->manage();
  g_step = nullptr;
  auto eps = m->endpoints();
  size_t certain = 0;
  for (size_t i = 0; i < N; i++)
  {
    if (!before[i].up || f->srv[i].conn != old[i])
      MC_REQUIRE((int)i == victim || eps.count(old[i]) == 0, "the dead connection to server %zu is kept", i);
    if ((int)i == victim)
      continue;
    if (f->srv[i].up)
    {
      check(*f, *m, i, all, "in the round");
      certain++;
    }
  }
  MC_REQUIRE(eps.size() <= certain + 1, "%zu connections for %zu servers", eps.size(), certain + 1);
  // a quiet round later, all is right
  m->manage();
  size_t n = 0;
  for (size_t i = 0; i < N; i++)
    if (f->srv[i].up)
    {
      n++;
      check(*f, *m, i, all, "a round later");
      MC_REQUIRE(f->srv[i].conn->connected, "a round later: a dead connection to server %zu", i);
    }
  MC_REQUIRE(m->endpoints().size() == n, "a round later: %zu connections for %zu servers", m->endpoints().size(), n);
  mc::outcome("%zu", n);
}
// any number of servers, appearing at once or one by one, some of which leave again
MC_SCENARIO(crowd, 0, 0, mc::SEQ, 60)
{
  const int sizes[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100 };
  const size_t N = (size_t)sizes[mc::choose(12, "servers")];
  const std::vector<std::string> all = { "a", "b" };
  auto f = std::make_shared<Cohort>();
  f->srv.resize(N);
  const bool at_once = mc::choose(2, "at once");
  for (auto& s : f->srv)
  {
    s.side = std::make_shared<direct::Server>();
    s.side->addEndpoint(std::make_shared<EndpointIntrospect>());
    for (auto& n : all)
      s.side->addEndpoint(std::make_shared<Named>(n));
    s.up = at_once;
  }
  auto m = std::make_shared<EndpointManagerPoll>(f);
  for (auto& n : all)
    m->addEndpointFactory(n, [n](const auto& t) { auto e = std::make_shared<Named>(n); e->setTransport(t); return e; });
  for (size_t i = 0; i < N; i++)
    if (!at_once)
    {
      f->srv[i].up = true;
      if (i % 5 == 0)
        m->manage();
    }
  m->manage();
  std::vector<std::shared_ptr<Mortal>> conns;
  for (size_t i = 0; i < N; i++)
  {
    check(*f, *m, i, all, "at first");
    conns.push_back(f->srv[i].conn);
  }
  const size_t every = (size_t)mc::choose(3, "leave") + 1;
  size_t left = 0;
  for (size_t i = 0; i < N; i++)
    if (i % every == 0)
      f->srv[i].up = f->srv[i].conn->connected = false;
    else
      left++;
  m->manage();
  m->manage();
  MC_REQUIRE(m->endpoints().size() == left, "%zu connections for %zu servers", m->endpoints().size(), left);
  for (size_t i = 0; i < N; i++)
    if (f->srv[i].up)
    {
      check(*f, *m, i, all, "after some left");
      MC_REQUIRE(f->srv[i].conn == conns[i], "the connection to server %zu was not kept", i);
    }
}
// --- over the real transport
static std::string names(const EndpointManagerPoll::TransportEndpoints& e)
{
  std::vector<std::string> v;
  for (auto& x : e)
  {
    std::string s = x.first->isConnected() ? "" : "DEAD ";
    for (auto& y : x.second)
      s += y.first + ",";
    v.push_back(s);
  }
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& x : v)
    r += "[" + x + "]";
  return r;
}
struct Process
{
  Transport::Ptr t;
  int pid;
  Process(TransportUnixFactory& f, int p, bool info) : pid(p)
  {
    mc::set_pid(pid);
    t = f.serve();
    MC_REQUIRE(t != nullptr, "serve");
    t->addEndpoint(std::make_shared<EndpointIntrospect>());
    if (info)
      t->addEndpoint(std::make_shared<EndpointProcessInfo>());
    mc::set_pid(1);
  }
};
static std::shared_ptr<EndpointManagerPoll> manager()
{
  auto m = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportUnixFactory>());
  m->addEndpointFactory<EndpointProcessInfo>();
  return m;
}
// a server dies at any moment of a round; others are unaffected
MC_SCENARIO(dying, 1, 2, mc::DELAY | mc::NO_ATOMICS | mc::NO_TIMERS, 30)
{
  TransportUnixFactory f;
  auto a = std::make_unique<Process>(f, 100, true);
  auto b = std::make_unique<Process>(f, 200, false);
  auto m = manager();
  std::thread t([&] { a.reset(); });
  m->manage();
  std::string s = names(m->endpoints());
  MC_REQUIRE(s.find("[introspect,]") != s.npos, "the healthy server is missing: %s", s.c_str());
  mc::outcome("%s", s.c_str());
  t.join();
  mc::sleep_ms(1000);
  m->manage();
  s = names(m->endpoints());
  MC_REQUIRE(s == "[introspect,]", "after the other died: %s", s.c_str());
  a = std::make_unique<Process>(f, 100, true);
  m->manage();
  s = names(m->endpoints());
  MC_REQUIRE(s == "[introspect,][introspect,process_info,]", "after it reappeared: %s", s.c_str());
  m.reset();
}
MC_SCENARIO(polling, 2, 3, mc::DELAY | mc::NO_ATOMICS | mc::NO_TIMERS, 30)
{
  TransportUnixFactory f;
  auto m = manager();
  auto a = std::make_unique<Process>(f, 100, true);
  m->startPolling(0.1);
  (void)m->endpoints();
  mc::sleep_ms(1000);
  std::string s = names(m->endpoints());
  MC_REQUIRE(s == "[introspect,process_info,]", "while polling: %s", s.c_str());
  auto e = EndpointManager::findEndpoint<EndpointProcessInfo>(m->endpoints().begin()->second);
  MC_REQUIRE(e != nullptr && e->processInfo().pid == 100, "the endpoint does not work");
  a.reset();
  mc::sleep_ms(1500);
  s = names(m->endpoints());
  MC_REQUIRE(s.empty(), "after the server stopped: %s", s.c_str());
  if (mc::choose(2, "stop"))
  {
    m->stopPolling();
    if (mc::choose(2, "again"))
      m->startPolling(0.1);
    m->stopPolling();
  }
  m.reset();
  MC_REQUIRE(mc::live_threads() == 0, "%d threads survive the manager", mc::live_threads());
}
// managing from several threads while endpoints are queried
MC_SCENARIO(concurrent, 2, 3, mc::DELAY | mc::NO_ATOMICS | mc::NO_TIMERS, 30)
{
  TransportUnixFactory f;
  Process a(f, 100, true);
  auto m = manager();
  std::thread t([&] { m->manage(); });
  std::thread u([&] { m->addEndpointFactory("later", [](const auto&) -> Endpoint::Ptr { return nullptr; }); });
  std::string s = names(m->endpoints());
  MC_REQUIRE(s.empty() || s == "[introspect,process_info,]", "during management: %s", s.c_str());
  m->manage();
  t.join();
  u.join();
  s = names(m->endpoints());
  MC_REQUIRE(s == "[introspect,process_info,]", "after management: %s", s.c_str());
}
