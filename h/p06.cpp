// P06: life cycle of unix transports.
#include "tu.h"
using namespace tu;
static void timed_reset(Transport::Ptr& t, const char* what)
{
  uint64_t t0 = mc::now_ns();
  t.reset();
  uint64_t d = mc::now_ns() - t0;
  MC_REQUIRE(d < 1000000000ull, "destroying the %s took %.1f virtual seconds", what, (double)d / 1e9);
}
static void nothing_left(const char* when)
{
  MC_REQUIRE(mc::open_fds() == 0, "%d descriptors still open %s", mc::open_fds(), when);
  MC_REQUIRE(mc::live_threads() == 0, "%d threads still alive %s", mc::live_threads(), when);
}
// every system call of serve() and connect() may fail, in every combination
MC_SCENARIO(failing_calls, 3, 5, mc::SEQ | mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  mc::net_faults(mc::SYS_FAIL);
  auto s = f.serve();
  int fds = mc::open_fds(), thr = mc::live_threads();
  if (s == nullptr)
    MC_REQUIRE(fds == 0 && thr == 0, "a failed serve() leaves %d descriptors and %d threads behind", fds, thr);
  else
    MC_REQUIRE(s->isConnected() && thr == 1, "serving transport: isConnected %d, %d threads", s->isConnected(), thr);
  if (s != nullptr)
  {
    s->addEndpoint(echo("a", 1));
    auto dest = s->getAddress();
    mc::set_pid(200);
    auto c = f.connect(dest);
    if (c == nullptr)
      MC_REQUIRE(mc::open_fds() == fds && mc::live_threads() == thr, "a failed connect() leaves %d descriptors and %d threads behind",
                 mc::open_fds() - fds, mc::live_threads() - thr);
    else
    {
      // accept() may fail a few times; the connection waits in the queue and is served in the end
      MC_REQUIRE(c->isConnected(), "connected transport reports not being connected");
      ask(c, "a", "x");
    }
    mc::net_faults(0);
    auto c2 = f.connect(dest);
    MC_REQUIRE(c2 != nullptr, "connecting fails without a reason after an earlier failure");
    ask(c2, "a", "y");
    timed_reset(c2, "client");
    timed_reset(s, "server");
    if (c)
      timed_reset(c, "client");
    mc::outcome("served, client %d", c != nullptr);
  }
  else
  {
    mc::net_faults(0);
    auto s2 = f.serve();
    MC_REQUIRE(s2 != nullptr, "serving fails without a reason after an earlier failure");
    timed_reset(s2, "server");
    mc::outcome("not served");
  }
  nothing_left("after destroying everything");
}
class OtherDestination : public scalopus::Destination
{
public:
  operator std::string() const override { return "other"; }
  std::size_t hash_code() const override { return 100; }
};
MC_SCENARIO(refused, 2, 3, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  auto dest = s->getAddress();
  s->addEndpoint(echo("a", 1));
  MC_REQUIRE(f.serve() == nullptr, "a second server with the same name was created");
  MC_REQUIRE(mc::open_fds() == 1 && mc::live_threads() == 1, "a failed serve() leaves something behind");
  mc::set_pid(200);
  MC_REQUIRE(f.connect(std::make_shared<OtherDestination>()) == nullptr, "connected to a destination of another kind");
  MC_REQUIRE(f.connect(nullptr) == nullptr, "connected to no destination");
  auto c = f.connect(dest);
  MC_REQUIRE(c != nullptr, "connect failed");
  ask(c, "a", "1");
  timed_reset(s, "server");
  MC_REQUIRE(f.connect(dest) == nullptr, "connected to a server that is gone");
  timed_reset(c, "client");
  nothing_left("after destroying everything");
}
// all orders of destroying a server and two clients, with requests outstanding
MC_SCENARIO(destruction_order, 1, 2, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  Transport::Ptr t[3];
  t[0] = f.serve();
  auto ep = echo("a", 1);
  t[0]->addEndpoint(ep);
  auto dest = t[0]->getAddress();
  mc::set_pid(200);
  t[1] = f.connect(dest);
  t[2] = f.connect(dest);
  MC_REQUIRE(t[1] && t[2], "connect failed");
  auto r1 = t[1]->request("a", D("1"));
  auto r2 = t[2]->request("a", D("!2"));
  t[0]->broadcast("a", D("b"));
  static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int p = mc::choose(6, "order");
  for (int k : perm[p])
    timed_reset(t[k], k ? "client" : "server");
  nothing_left("after destroying everything");
}
// immediately created and destroyed, at any point of the workers' start
MC_SCENARIO(immediate, 2, 3, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  auto dest = s->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  timed_reset(c, "client");
  auto c2 = f.connect(dest);
  timed_reset(s, "server");
  MC_REQUIRE(c2 != nullptr, "connect failed");
  timed_reset(c2, "client");
  mc::set_pid(100);
  s = f.serve();
  MC_REQUIRE(s != nullptr, "the name of a destroyed server is still taken");
  timed_reset(s, "server");
  nothing_left("after destroying everything");
}
// server and client destroyed by two threads at the same time
MC_SCENARIO(concurrent_destruction, 2, 3, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto dest = s->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  auto r = c->request("a", D("1"));
  std::thread t([&] { timed_reset(s, "server"); });
  timed_reset(c, "client");
  t.join();
  nothing_left("after destroying everything");
}
// a descriptor opened by somebody else is never closed, whichever numbers get reused
MC_SCENARIO(foreign_descriptors, 1, 2, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto dest = s->getAddress();
  mc::set_pid(200);
  int raw = raw_connect(100);
  auto c = f.connect(dest);
  MC_REQUIRE(c != nullptr, "connect failed");
  std::thread t([&] {
    // descriptors of this thread take the numbers that become free
    int mine[3];
    for (int& x : mine)
    {
      x = raw_socket();
      mc::yield();
    }
    mc::sleep_ms(100);
    for (int x : mine)
      MC_REQUIRE(::close(x) == 0, "a descriptor the transport does not own was closed");
  });
  ::close(raw);  // the server drops this connection meanwhile
  ask(c, "a", "1");
  timed_reset(c, "client");
  timed_reset(s, "server");
  t.join();
  nothing_left("after destroying everything");
}
// endpoints are added while requests for them arrive
MC_SCENARIO(late_endpoints, 2, 3, mc::STRICT_FD | mc::DELAY, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto dest = s->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  std::thread t([&] {
    s->addEndpoint(echo("b", 2));
    s->addEndpoint(echo("a", 3));  // replaces
  });
  c->addEndpoint(echo("c", 4));
  ask(c, "a", "1");
  s->broadcast("c", D("x"));
  MC_REQUIRE(s->getEndpoint("zzz") == nullptr, "unknown endpoint found");
  t.join();
  ask(c, "b", "2");
  auto eps = s->endpoints();
  MC_REQUIRE(eps.size() == 2 && eps.count("a") && eps.count("b"), "server has %zu endpoints", eps.size());
  MC_REQUIRE(s->getEndpoint("b") != nullptr && s->getEndpoint("b")->getTransport() == s.get(), "endpoint does not know its transport");
  mc::wait_records(UNSOL, 1, -1);
  timed_reset(c, "client");
  timed_reset(s, "server");
  nothing_left("after destroying everything");
}
// endpoints that use the transport from inside their callbacks
class Chain : public Echo
{
public:
  Chain() : Echo("chain", 5) {}
  bool unsolicited(Transport& t, const Data& in, Data&) override
  {
    t.addEndpoint(echo("dyn", 6));
    MC_REQUIRE(t.getEndpoint("chain").get() == this, "endpoint not found from inside its callback");
    (void)t.pendingRequests();
    fut = t.request("a", in);
    mc::record(UNSOL, 5);
    return false;
  }
  Transport::PendingResponse fut;
};
class Adder : public Echo
{
public:
  Adder() : Echo("adder", 7) {}
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    t.addEndpoint(echo("new", 8));
    MC_REQUIRE(t.endpoints().count("adder") == 1, "endpoint not found from inside its callback");
    t.broadcast("chain", in);
    return Echo::handle(t, in, out);
  }
};
MC_SCENARIO(reentrant, 1, 2, mc::STRICT_FD, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  s->addEndpoint(std::make_shared<Adder>());
  auto dest = s->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  auto ch = std::make_shared<Chain>();
  c->addEndpoint(ch);
  ask(c, "adder", "1");
  ask(c, "new", "2");
  mc::wait_records(UNSOL, 1, -1);
  ask(c, "a", "3");
  std::string got = S(ch->fut->get());
  MC_REQUIRE(got == "a:1", "request from inside a callback resolved with '%s'", got.c_str());
  timed_reset(c, "client");
  timed_reset(s, "server");
  nothing_left("after destroying everything");
}
// interrupted waits do not stop the transport
MC_SCENARIO(interrupted, 3, 4, mc::STRICT_FD | mc::SEQ, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  mc::net_faults(mc::INTR_SELECT);
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto dest = s->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  ask(c, "a", "1");
  mc::sleep_ms(25);
  ask(c, "a", "2");
  timed_reset(c, "client");
  timed_reset(s, "server");
  nothing_left("after destroying everything");
}
