// P01: request/response matching over the unix transport.
#include "tu.h"
using namespace tu;
struct World
{
  scalopus::TransportUnixFactory f;
  Transport::Ptr server;
  scalopus::Destination::Ptr dest;
  World()
  {
    mc::set_pid(100);
    server = f.serve();
    MC_REQUIRE(server != nullptr, "serve() failed");
    server->addEndpoint(echo("a", 1));
    server->addEndpoint(echo("b", 2));
    dest = server->getAddress();
    mc::set_pid(200);
  }
  Transport::Ptr client()
  {
    auto c = f.connect(dest);
    MC_REQUIRE(c != nullptr, "connect() failed");
    // endpoints with the same names on the client: a misrouted response would surface here
    c->addEndpoint(echo("a", 11));
    c->addEndpoint(echo("b", 12));
    return c;
  }
};
static void check(int handled, int answered_pending, const std::vector<Transport::Ptr>& clients)
{
  MC_REQUIRE(count(UNSOL) == 0, "a response was handed to an endpoint as unsolicited data");
  MC_REQUIRE(count(HANDLED) == handled, "server handled %d requests, %d were sent", count(HANDLED), handled);
  (void)answered_pending;
  for (auto& c : clients)
    MC_REQUIRE(c->pendingRequests() == 0, "%zu requests still pending after all were answered", c->pendingRequests());
}
// one client, one request at a time
MC_SCENARIO(one_request, 3, 4, 0, 5)
{
  World w;
  auto c = w.client();
  ask(c, "a", "1");
  check(1, 0, { c });
}
// one client, two requests outstanding from one thread, answered out of the order in which they are awaited
MC_SCENARIO(two_outstanding, 2, 3, 0, 5)
{
  World w;
  auto c = w.client();
  auto r1 = c->request("a", D("1"));
  auto r2 = c->request("b", D("2"));
  std::string g2 = S(r2->get()), g1 = S(r1->get());
  MC_REQUIRE(g1 == "a:1" && g2 == "b:2", "responses %s / %s", g1.c_str(), g2.c_str());
  check(2, 0, { c });
}
// one client shared by two threads
static void two_threads_body()
{
  World w;
  auto c = w.client();
  std::thread t([&] { ask(c, "a", "x"); });
  ask(c, "a", "y");
  t.join();
  check(2, 0, { c });
}
MC_SCENARIO(two_threads, 1, 3, 0, 5) { two_threads_body(); }
MC_SCENARIO(two_threads_delay, 2, -1, mc::DELAY, 5) { two_threads_body(); }
// two clients on one server
MC_SCENARIO(two_clients, 1, 2, 0, 5)
{
  World w;
  auto c1 = w.client();
  auto c2 = w.client();
  std::thread t([&] { ask(c1, "a", "p"); });
  ask(c2, "a", "q");
  t.join();
  check(2, 0, { c1, c2 });
}
// an unanswered request in between
MC_SCENARIO(unanswered_between, 1, 2, 0, 5)
{
  World w;
  auto c = w.client();
  auto r0 = c->request("a", D("!no"));
  ask(c, "a", "1");
  ask(c, "b", "2");
  MC_REQUIRE(r0->wait_for(std::chrono::seconds(0)) != std::future_status::ready, "an unanswered request resolved");
  MC_REQUIRE(count(UNSOL) == 0, "a response was handed to an endpoint as unsolicited data");
}
// More outstanding requests than any narrow counter can tell apart; a hand made server reads them all and answers
// them later in another order.
MC_SCENARIO(many_outstanding, 0, 0, mc::SEQ | mc::NO_RACES, 600)
{
  const bool several = mc::choose(2, "held") == 0;  // all of them outstanding, or only the first
  const int n = several ? (mc::tier() ? 1000 : 300) : (mc::tier() ? 2000 : 600);
  mc::set_pid(100);
  int l = raw_listen(100);
  scalopus::TransportUnixFactory f;
  auto found = f.discover();
  MC_REQUIRE(found.size() == 1, "discovery found %zu servers", found.size());
  mc::set_pid(200);
  auto c = f.connect(found[0]);
  MC_REQUIRE(c != nullptr, "connect failed");
  int fd = ::accept(l, nullptr, nullptr);
  std::vector<Transport::PendingResponse> r((size_t)n);
  std::vector<uint64_t> id((size_t)n);
  for (int i = 0; i < n; i++)
  {
    r[(size_t)i] = c->request("a", D("q" + std::to_string(i)));
    RawMsg m;
    MC_REQUIRE(raw_recv(fd, m) && S(m.data) == "q" + std::to_string(i), "request did not arrive");
    id[(size_t)i] = m.id;
    if (!several && i > 0)
    {
      Data fr = frame(m.id, "a", D("r" + std::to_string(i)));
      ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
      MC_REQUIRE(S(r[(size_t)i]->get()) == "r" + std::to_string(i), "request %d got the answer of another one", i);
      r[(size_t)i].reset();
    }
  }
  for (int k = 0; k < (several ? n : 1); k++)
  {
    int i = (int)((long)k * 7919 % (several ? n : 1));
    MC_REQUIRE(r[(size_t)i]->wait_for(std::chrono::seconds(0)) != std::future_status::ready, "request %d of %d resolved before it was answered", i, n);
    Data fr = frame(id[(size_t)i], "a", D("r" + std::to_string(i)));
    ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
    MC_REQUIRE(S(r[(size_t)i]->get()) == "r" + std::to_string(i), "request %d got the answer of another one", i);
  }
}
