// P03: the peer disappears after any prefix of a message.
#include "tu.h"
using namespace tu;
static bool ready(const Transport::PendingResponse& r) { return r->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
static void expect_failure(const Transport::Ptr& c, const char* when)
{
  auto r = c->request("a", D("late"));
  MC_REQUIRE(r != nullptr, "request returned no future %s", when);
  MC_REQUIRE(ready(r), "a new request %s does not fail", when);
  try
  {
    std::string s = S(r->get());
    mc::fail("property", "a new request %s resolves with '%s'", when, s.c_str());
  }
  catch (const std::exception&)
  {
  }
}
static void wait_disconnected(const Transport::Ptr& c)
{
  for (int i = 0; i < 100 && c->isConnected(); i++)
    mc::sleep_ms(20);
  MC_REQUIRE(!c->isConnected(), "the client still reports being connected 2 s after its server died");
}
// --- the server of a client dies
static void client_side(bool sched)
{
  int pn = mc::choose(mc::tier() ? 3 : 2, "payload");
  std::string pay = pn == 0 ? "" : pn == 1 ? "xyz" : std::string(5000, 'q');
  int what = mc::choose(3, "message");  // 0 response, 1 broadcast, 2 response behind a complete broadcast
  mc::set_pid(100);
  int l = raw_listen(100);
  scalopus::TransportUnixFactory f;
  auto found = f.discover();
  MC_REQUIRE(found.size() == 1, "discovery found %zu servers, expected 1", found.size());
  mc::set_pid(200);
  auto c = f.connect(found[0]);
  MC_REQUIRE(c != nullptr, "connect failed");
  c->addEndpoint(echo("a", 11));
  c->addEndpoint(echo("", 12));
  auto r = c->request("a", D("q"));
  int fd = ::accept(l, nullptr, nullptr);
  RawMsg m;
  MC_REQUIRE(raw_recv(fd, m), "request did not arrive");
  Data fr = what == 1 ? frame(0, "a", D(pay)) : frame(m.id, "a", D(pay));
  if (what == 2)
  {
    Data b = frame(0, "a", D("whole"));
    ::send(fd, b.data(), b.size(), MSG_NOSIGNAL);
  }
  size_t L = fr.size();
  // every prefix; in the long message every prefix of the header and a few of the payload
  size_t k;
  if (L < 200)
    k = (size_t)mc::choose((int)L + 1, "bytes");
  else
  {
    static const size_t extra[] = { 4000, 4096, 4111, 4112, 4999, 5000 };
    size_t q = (size_t)mc::choose(23, "bytes");
    k = q < 16 ? q : q < 22 ? extra[q - 16] : L;
  }
  if (k > 0)
    ::send(fd, fr.data(), k, MSG_NOSIGNAL);
  if (!sched && mc::choose(2, "pause before dying"))
    mc::sleep_ms(30);
  ::close(fd);
  ::close(l);
  wait_disconnected(c);
  bool complete = k == L;
  if (what != 1 && complete)
  {
    MC_REQUIRE(ready(r), "a completely received response did not resolve its request");
    MC_REQUIRE(S(r->get()) == pay, "response is wrong");
  }
  else if (ready(r))
  {
    try
    {
      std::string s = S(r->get());
      mc::fail("property", "request resolved with %zu bytes after only %zu of %zu bytes of the response arrived", s.size(), k, L);
    }
    catch (const std::exception&)
    {
    }
  }
  MC_REQUIRE(count(UNSOL, 12) == 0, "an endpoint that was not addressed got data");
  int want = (what == 1 && complete) || what == 2 ? 1 : 0;
  MC_REQUIRE(count(UNSOL, 11) == want, "endpoint got %d messages, %d were sent completely", count(UNSOL, 11), want);
  int n = mc::record_count();
  for (int i = 0; i < n; i++)
    if (mc::record_at(i).kind == UNSOL)
      MC_REQUIRE(mc::record_at(i).b == (long)(what == 2 ? 5 : pay.size()), "endpoint got %ld bytes", mc::record_at(i).b);
  expect_failure(c, "after the server died");
  mc::outcome("msg %d complete %d", what, complete);
}
MC_SCENARIO(client_prefix, 0, 1, mc::SEQ, 10) { client_side(false); }
MC_SCENARIO(client_prefix_sched, 2, 3, mc::DELAY, 10) { client_side(true); }
// --- a client of a server dies
static void server_side(bool sched)
{
  std::string pay = mc::choose(2, "payload") ? "xyz" : "";
  std::string ep = mc::choose(2, "endpoint") ? "a" : "";
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto server = f.serve();
  MC_REQUIRE(server != nullptr, "serve failed");
  server->addEndpoint(echo("a", 1));
  server->addEndpoint(echo("", 2));
  auto dest = server->getAddress();
  mc::set_pid(200);
  auto other = f.connect(dest);
  MC_REQUIRE(other != nullptr, "connect failed");
  if (!sched)
    ask(other, "a", "before");
  int base = sched ? 0 : 1;
  const int fds = 3;  // listening socket and both ends of the other connection
  int fd = raw_connect(100);
  Data fr = frame(5, ep, D(pay));
  size_t k = (size_t)mc::choose((int)fr.size() + 1, "bytes");
  if (k > 0)
    ::send(fd, fr.data(), k, MSG_NOSIGNAL);
  int how = sched ? 0 : mc::choose(3, "death");
  if (how == 1)
    mc::sleep_ms(30);
  if (how == 2)
  {
    ::shutdown(fd, SHUT_WR);
    mc::sleep_ms(30);
  }
  ::close(fd);
  ask(other, "a", "after");
  auto fresh = f.connect(dest);
  MC_REQUIRE(fresh != nullptr, "new client cannot connect");
  ask(fresh, "a", "new");
  int want = k == fr.size() ? 1 : 0;
  if (want)
    MC_REQUIRE(mc::wait_records(HANDLED, base + 3, -1), "complete request not handled");
  fresh.reset();
  mc::sleep_ms(200);
  MC_REQUIRE(count(HANDLED) == base + 2 + want, "endpoints were invoked %d times, expected %d", count(HANDLED), base + 2 + want);
  int n = mc::record_count();
  for (int i = 0; i < n; i++)
  {
    const mc::Rec& x = mc::record_at(i);
    if (x.kind == HANDLED && rec_str(x) != "before" && rec_str(x) != "after" && rec_str(x) != "new")
      MC_REQUIRE(rec_str(x) == pay && x.a == (ep == "a" ? 1 : 2), "endpoint %ld got '%s'", x.a, rec_str(x).c_str());
  }
  MC_REQUIRE(mc::open_fds() == fds, "server keeps descriptors of dead connections open (%d, expected %d)", mc::open_fds(), fds);
  MC_REQUIRE(other->isConnected() && server->isConnected(), "healthy transports report being disconnected");
}
MC_SCENARIO(server_prefix, 0, 0, mc::SEQ, 10) { server_side(false); }
MC_SCENARIO(server_prefix_sched, 1, 2, mc::DELAY | mc::NO_ATOMICS, 10) { server_side(true); }
// the peer goes away at any point of a normal exchange, under every schedule
MC_SCENARIO(client_destroyed, 1, 2, 0, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto server = f.serve();
  server->addEndpoint(echo("a", 1));
  auto dest = server->getAddress();
  mc::set_pid(200);
  auto c1 = f.connect(dest);
  auto c2 = f.connect(dest);
  MC_REQUIRE(c1 && c2, "connect failed");
  auto r = c1->request("a", D("1"));
  server->broadcast("a", D("b"));
  c1.reset();
  ask(c2, "a", "2");
  if (ready(r))
  {
    try
    {
      MC_REQUIRE(S(r->get()) == "a:1", "request resolved with wrong data");
    }
    catch (const std::exception&)
    {
    }
  }
}
MC_SCENARIO(server_destroyed, 3, 4, 0, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto server = f.serve();
  server->addEndpoint(echo("a", 1));
  auto dest = server->getAddress();
  mc::set_pid(200);
  auto c = f.connect(dest);
  MC_REQUIRE(c != nullptr, "connect failed");
  auto r = c->request("a", D("1"));
  server.reset();
  wait_disconnected(c);
  if (ready(r))
  {
    try
    {
      MC_REQUIRE(S(r->get()) == "a:1", "request resolved with wrong data");
      mc::outcome("answered");
    }
    catch (const std::exception&)
    {
      mc::outcome("failed");
    }
  }
  else
    mc::outcome("pending");
  expect_failure(c, "after the server died");
}
