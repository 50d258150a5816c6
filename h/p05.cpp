// P05: dropped and unanswered requests.
#include "tu.h"
using namespace tu;
static bool ready(const Transport::PendingResponse& r) { return r->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
static void wait_pending(const Transport::Ptr& c, size_t n, const char* what)
{
  for (int i = 0; i < 60 && c->pendingRequests() != n; i++)
    mc::sleep_ms(20);
  MC_REQUIRE(c->pendingRequests() == n, "%s: %zu requests pending, expected %zu", what, c->pendingRequests(), n);
}
struct World
{
  scalopus::TransportUnixFactory f;
  Transport::Ptr server;
  scalopus::Destination::Ptr dest;
  World()
  {
    mc::set_pid(100);
    server = f.serve();
    MC_REQUIRE(server != nullptr, "serve() failed");
    server->addEndpoint(echo("a", 1));
    dest = server->getAddress();
    mc::set_pid(200);
  }
  Transport::Ptr client()
  {
    auto c = f.connect(dest);
    MC_REQUIRE(c != nullptr, "connect() failed");
    return c;
  }
};
MC_SCENARIO(dropped, 2, 3, 0, 10)
{
  World w;
  auto c = w.client();
  c->addEndpoint(echo("a", 11));
  c->request("a", D("dropped"));
  ask(c, "a", "kept");
  wait_pending(c, 0, "after dropping");
  MC_REQUIRE(count(UNSOL) == 0, "the answer to a dropped request was handed to an endpoint as unsolicited data");
}
MC_SCENARIO(dropped_by_thread, 2, 3, mc::DELAY, 10)
{
  World w;
  auto c = w.client();
  auto r = c->request("a", D("1"));
  std::thread t([&] { r.reset(); });
  ask(c, "a", "2");
  t.join();
  wait_pending(c, 0, "after dropping concurrently");
}
MC_SCENARIO(unknown_endpoint, 1, 2, 0, 10)
{
  World w;
  auto c = w.client();
  auto r = c->request("nobody", D("1"));
  ask(c, "a", "2");
  auto r2 = c->request("a", D("!silent"));
  ask(c, "a", "3");
  MC_REQUIRE(!ready(r) && !ready(r2), "an unanswered request resolved");
  wait_pending(c, 2, "two unanswered requests held");
  r.reset();
  wait_pending(c, 1, "one of two unanswered requests dropped");
  ask(c, "a", "4");
  MC_REQUIRE(!ready(r2), "an unanswered request resolved");
  r2.reset();
  wait_pending(c, 0, "all unanswered requests dropped");
}
// A hand made server answers in every order, late, twice, to dropped requests and to requests never made.
static void late(bool sched)
{
  mc::set_pid(100);
  int l = raw_listen(100);
  scalopus::TransportUnixFactory f;
  auto found = f.discover();
  MC_REQUIRE(found.size() == 1, "discovery found %zu servers", found.size());
  mc::set_pid(200);
  auto c = f.connect(found[0]);
  MC_REQUIRE(c != nullptr, "connect failed");
  c->addEndpoint(echo("a", 11));
  int fd = ::accept(l, nullptr, nullptr);
  Transport::PendingResponse r[3];
  RawMsg m[3];
  for (int i = 0; i < 3; i++)
  {
    r[i] = c->request(i == 2 ? "b" : "a", D("q" + std::to_string(i)));
    MC_REQUIRE(raw_recv(fd, m[i]), "request did not arrive");
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < i; j++)
      MC_REQUIRE(m[i].id != m[j].id || m[i].ep != m[j].ep, "two outstanding requests share an identifier");
  int drop = mc::choose(4, "dropped");
  if (drop < 3)
  {
    r[drop].reset();
    if (!sched)
    {
      if (mc::choose(2, "clean up first"))
        mc::sleep_ms(50);
    }
  }
  static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int p = mc::choose(6, "answer order");
  int extra = sched ? 0 : mc::choose(4, "odd answer");
  if (extra == 1)
  {
    Data fr = frame(m[2].id + 1000000, "a", D("nobody asked"));
    ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
  }
  if (extra == 3)
  {
    Data fr = frame(m[0].id, "b", D("wrong endpoint"));  // id of a request to another endpoint
    ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
  }
  int later = -1;
  if (!sched && mc::choose(2, "new request before the answers"))
    later = 0;
  Transport::PendingResponse r4;
  RawMsg m4;
  if (later == 0)
  {
    r4 = c->request("a", D("q4"));
    MC_REQUIRE(raw_recv(fd, m4), "request did not arrive");
  }
  for (int k = 0; k < 3; k++)
  {
    int i = perm[p][k];
    Data fr = frame(m[i].id, m[i].ep, D("answer" + std::to_string(i)));
    ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
    if (extra == 2)
      ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
  }
  for (int i = 0; i < 3; i++)
    if (i != drop)
      MC_REQUIRE(S(r[i]->get()) == "answer" + std::to_string(i), "request %d resolved with another answer", i);
  if (later == 0)
  {
    mc::sleep_ms(50);
    MC_REQUIRE(!ready(r4), "a request resolved with the answer to another one");
    Data fr = frame(m4.id, m4.ep, D("answer4"));
    ::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL);
    MC_REQUIRE(S(r4->get()) == "answer4", "request resolved wrongly");
  }
  for (auto& x : r)
    x.reset();
  r4.reset();
  wait_pending(c, 0, "all answered or dropped");
  MC_REQUIRE(extra != 0 || count(UNSOL) == 0, "the answer to a dropped request was handed to an endpoint as unsolicited data");
  ::close(fd);
  ::close(l);
}
MC_SCENARIO(late_answers, 0, 0, mc::SEQ, 10) { late(false); }
MC_SCENARIO(late_answers_sched, 1, 2, mc::DELAY, 10) { late(true); }
// the future outlives the transport
MC_SCENARIO(future_outlives, 2, 3, 0, 10)
{
  World w;
  auto c = w.client();
  auto r = c->request("a", D("!silent"));
  auto q = c->request("a", D("x"));
  c.reset();
  if (ready(q))
  {
    try
    {
      MC_REQUIRE(S(q->get()) == "a:x", "request resolved wrongly");
      mc::outcome("answered");
    }
    catch (const std::exception&)
    {
      mc::outcome("broken");
    }
  }
  try
  {
    if (ready(r))
    {
      r->get();
      mc::fail("property", "an unanswered request resolved with data");
    }
  }
  catch (const std::exception&)
  {
  }
}
