// P12: remote trace switches.
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_transport/transport_unix.h>
#include <condition_variable>
#include <map>
#include <thread>
#include "direct.h"
#include "mc.h"
using scalopus::EndpointTraceConfigurator;
using scalopus::TraceConfigurator;
using Conf = EndpointTraceConfigurator::TraceConfiguration;
using States = std::map<unsigned long, bool>;
// a thread that registers itself with the given state and stays until told to leave
struct Worker
{
  std::mutex m;
  std::condition_variable cv;
  bool up = false, leave = false;
  unsigned long tid = 0;
  std::thread t;
  explicit Worker(bool on)
  {
    t = std::thread([this, on] {
      auto cfg = TraceConfigurator::getInstance();
      cfg->setThreadState(on);
      std::unique_lock<std::mutex> l(m);
      tid = (unsigned long)pthread_self();
      up = true;
      cv.notify_all();
      while (!leave)
        cv.wait(l);
    });
    std::unique_lock<std::mutex> l(m);
    while (!up)
      cv.wait(l);
  }
  void stop()
  {
    {
      std::lock_guard<std::mutex> l(m);
      leave = true;
      cv.notify_all();
    }
    if (t.joinable())
      t.join();
  }
  ~Worker() { stop(); }
};
static States actual()
{
  States r;
  for (auto& x : TraceConfigurator::getInstance()->getThreadMap())
    r[x.first] = x.second->load();
  return r;
}
static std::string str(const States& s, const States& names)
{
  std::string r = "{";
  for (auto& x : s)
  {
    auto it = names.find(x.first);
    r += (it == names.end() ? std::string("?") : "T" + std::to_string(std::distance(names.begin(), it))) + ":" + (x.second ? "1 " : "0 ");
  }
  return r + "}";
}
struct World
{
  std::shared_ptr<direct::Server> server = std::make_shared<direct::Server>();
  std::shared_ptr<direct::Client> client;
  EndpointTraceConfigurator::Ptr ep;
  World()
  {
    server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
    client = std::make_shared<direct::Client>(server);
    ep = add();
  }
  EndpointTraceConfigurator::Ptr add()
  {
    auto e = EndpointTraceConfigurator::factory(client);
    MC_REQUIRE(e != nullptr, "factory returned nothing");
    return e;
  }
};
static void expect(const Conf& c, bool p, const States& t, const char* what)
{
  MC_REQUIRE(c.cmd_success, "%s: answered command reported as unsuccessful", what);
  MC_REQUIRE(c.process_state == p, "%s: reported process state %d, actual %d", what, c.process_state, p);
  States got(c.thread_state.begin(), c.thread_state.end());
  MC_REQUIRE(got == t, "%s: reported thread states %s, actual %s", what, str(got, t).c_str(), str(t, t).c_str());
}
static void command(EndpointTraceConfigurator::Ptr ep, bool& p, States& t, const std::vector<unsigned long>& known)
{
  int kind = mc::choose(3, "command");
  if (kind == 0)
  {
    expect(ep->getTraceState(), p, t, "get");
    MC_REQUIRE(TraceConfigurator::getInstance()->getProcessState() == p && actual() == t, "a query changed switches");
    return;
  }
  Conf c;
  c.set_process_state = kind == 2;
  c.process_state = mc::choose(2, "p");
  for (auto k : known)
  {
    int v = mc::choose(3, "thread");
    if (v < 2)
      c.thread_state[k] = v;
  }
  switch (mc::choose(4, "unknown thread"))
  {
    case 1:
      c.thread_state[12345] = false;
      break;
    case 2:
      c.thread_state[0] = false;
      break;
    case 3:
      c.thread_state[0x7fffffffffffffffUL] = true;
      break;
  }
  if (c.set_process_state)
    p = c.process_state;
  for (auto& x : c.thread_state)
    if (t.count(x.first))
      t[x.first] = x.second;
  auto res = ep->setTraceState(c);
  MC_REQUIRE(TraceConfigurator::getInstance()->getProcessState() == p, "process switch is %d after the command, expected %d", !p, p);
  MC_REQUIRE(actual() == t, "thread switches are %s after the command, expected %s", str(actual(), t).c_str(), str(t, t).c_str());
  expect(res, p, t, "set");
}
static void commands(EndpointTraceConfigurator::Ptr ep, int n)
{
  bool p = mc::choose(2, "process");
  TraceConfigurator::getInstance()->setProcessState(p);
  int init = mc::choose(4, "threads");
  Worker a(init & 1), b(init & 2);
  MC_REQUIRE(a.tid != b.tid && actual().size() == 2, "%zu threads registered, 2 alive", actual().size());
  States t = { { a.tid, bool(init & 1) }, { b.tid, bool(init & 2) } };
  std::vector<unsigned long> known = { a.tid, b.tid };
  for (int i = 0; i < n; i++)
    command(ep, p, t, known);
  // a thread leaves: it is no longer reported and can no longer be set
  a.stop();
  t.erase(known[0]);
  command(ep, p, t, known);
}
MC_SCENARIO(commands_direct, 0, 0, mc::SEQ, 60)
{
  World w;
  commands(w.ep, 1);
}
MC_SCENARIO(commands_long, -1, 0, mc::SEQ, 60)
{
  World w;
  commands(w.ep, 2);
}
// the same over the unix transport, with the main thread registered as well
MC_SCENARIO(over_unix, 0, 0, mc::SEQ | mc::NO_TIMERS, 60)
{
  mc::set_pid(100);
  scalopus::TransportUnixFactory f;
  auto server = f.serve();
  server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
  auto c = f.connect(server->getAddress());
  MC_REQUIRE(c != nullptr, "connect");
  auto ep = EndpointTraceConfigurator::factory(c);
  TraceConfigurator::getInstance()->setThreadState(true);
  unsigned long me = (unsigned long)pthread_self();
  bool p = true;
  States t = { { me, true } };
  command(ep, p, t, { me });
  command(ep, p, t, { me });
}
// No answer, a broken one, a malformed one: never reported as success.
MC_SCENARIO(no_answer, 0, 0, mc::SEQ | mc::NO_TIMERS, 60)
{
  World w;
  TraceConfigurator::getInstance()->setThreadState(true);
  static const direct::Mode modes[] = { direct::SILENT, direct::BROKEN, direct::GARBAGE, direct::THROWS };
  int m = mc::choose(4, "mode");
  w.client->mode = modes[m];
  static const std::vector<std::vector<uint8_t>> junk = { {}, { 0 }, { 5, 0, 0, 0, 0 }, { 1, 2, 3, 4, 5, 6 }, { 0x15, 0, 0, 0, 3, 's', 't', 'a', 't', 'e', 0, 5, 0, 0, 0, 0, 0 } };
  if (m == 2)
    w.client->garbage = junk[(size_t)mc::choose(5, "junk")];
  int set = mc::choose(2, "set");
  uint64_t t0 = mc::now_ns();
  try
  {
    Conf c;
    c.set_process_state = true;
    c.process_state = false;
    auto r = set ? w.ep->setTraceState(c) : w.ep->getTraceState();
    MC_REQUIRE(!r.cmd_success, "a command without a proper answer is marked successful");
    mc::outcome("unsuccessful");
  }
  catch (const std::exception& e)
  {
    MC_REQUIRE(m != 0, "a command that is not answered throws");
    mc::outcome("exception");
  }
  MC_REQUIRE(mc::now_ns() - t0 < 5000000000ULL, "waited %lu ms for an answer", (mc::now_ns() - t0) / 1000000);
  w.client->mode = direct::ANSWER;
  Conf r = w.ep->getTraceState();
  expect(r, true, actual(), "after a failed command");
}
// An answer that arrives soon counts, one that arrives very late does not.
class LateClient : public direct::Client
{
public:
  using Client::Client;
  PendingResponse request(const std::string& ep, const scalopus::Data& out) override
  {
    auto p = std::make_shared<std::promise<scalopus::Data>>();
    auto f = std::make_shared<std::future<scalopus::Data>>(p->get_future());
    th.emplace_back([this, p, ep, out] {
      mc::sleep_ms(delay);
      scalopus::Data r;
      server->getEndpoint(ep)->handle(*server, out, r);
      p->set_value(r);
    });
    return f;
  }
  int delay = 0;
  std::vector<std::thread> th;
  ~LateClient()
  {
    for (auto& t : th)
      t.join();
  }
};
MC_SCENARIO(late_answer, 0, 0, mc::SEQ | mc::NO_TIMERS, 60)
{
  auto server = std::make_shared<direct::Server>();
  server->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
  auto client = std::make_shared<LateClient>(server);
  auto ep = EndpointTraceConfigurator::factory(client);
  static const int delays[] = { 0, 50, 3000 };
  int d = mc::choose(3, "delay");
  client->delay = delays[d];
  Conf c;
  c.set_process_state = true;
  c.process_state = false;
  auto r = mc::choose(2, "set") ? ep->setTraceState(c) : ep->getTraceState();
  MC_REQUIRE(r.cmd_success == (d < 2), "an answer after %d ms gives success %d", delays[d], r.cmd_success);
}
// Two clients set different things at once.
MC_SCENARIO(concurrent_sets, 2, 3, 0, 60)
{
  World w;
  Worker a(true), b(true);
  auto ep2 = w.add();
  std::thread t([&] {
    Conf c;
    c.thread_state[a.tid] = false;
    auto r = ep2->setTraceState(c);
    MC_REQUIRE(r.cmd_success && !r.thread_state.at(a.tid), "first client's change not reported");
    MC_REQUIRE(r.thread_state.size() == 2, "%zu threads reported, 2 exist", r.thread_state.size());
  });
  Conf c;
  c.set_process_state = true;
  c.process_state = false;
  c.thread_state[b.tid] = false;
  auto r = w.ep->setTraceState(c);
  MC_REQUIRE(r.cmd_success && !r.thread_state.at(b.tid) && !r.process_state, "second client's change not reported");
  t.join();
  MC_REQUIRE(!TraceConfigurator::getInstance()->getProcessState(), "process switch not set");
  MC_REQUIRE(actual() == (States{ { a.tid, false }, { b.tid, false } }), "a concurrent change got lost");
  a.stop();
  b.stop();
}
// Threads start and exit while commands arrive.
MC_SCENARIO(coming_and_going, 2, 3, 0, 60)
{
  World w;
  Worker stay(true);
  std::thread t([&] {
    for (int i = 0; i < 2; i++)
      std::thread([&] {
        auto cfg = TraceConfigurator::getInstance();
        MC_REQUIRE(cfg->getThreadState(), "a new thread starts switched off");
      }).join();
  });
  Conf c;
  c.thread_state[stay.tid] = false;
  auto r = w.ep->setTraceState(c);
  MC_REQUIRE(r.cmd_success && r.process_state && r.thread_state.count(stay.tid) && !r.thread_state.at(stay.tid), "state of a thread that stayed is wrong");
  MC_REQUIRE(r.thread_state.size() <= 2, "%zu threads reported", r.thread_state.size());
  for (auto& x : r.thread_state)
    MC_REQUIRE(x.first == stay.tid || x.second, "a thread nobody switched is reported off");
  t.join();
  MC_REQUIRE(actual() == (States{ { stay.tid, false } }), "threads that exited are still there, or the change got lost");
  stay.stop();
}
// A thread exits while a query or command looks at it: it is gone afterwards, and its identity starts afresh.
MC_SCENARIO(exits_meanwhile, 2, 3, 0, 60)
{
  World w;
  Worker leaves(true);
  const int cmd = mc::choose(2, "command");
  std::thread t([&] {
    Conf c;
    c.thread_state[leaves.tid] = false;
    auto r = cmd ? w.ep->setTraceState(c) : w.ep->getTraceState();
    MC_REQUIRE(r.cmd_success && r.process_state, "a query failed");
    for (auto& x : r.thread_state)
      MC_REQUIRE(x.first == leaves.tid && x.second == !cmd, "the state of a thread is reported wrongly");
  });
  leaves.stop();
  t.join();
  MC_REQUIRE(actual().empty(), "a thread that exited is still there");
  std::thread([&] { MC_REQUIRE(TraceConfigurator::getInstance()->getThreadState(), "a new thread starts switched off"); }).join();
}
