// P08: loopback transport.
#include <scalopus_transport/transport_loopback.h>
#include "tu.h"
using namespace tu;
using Factory = scalopus::TransportLoopbackFactory;
static void missing(const Transport::Ptr& c, const char* ep)
{
  auto r = c->request(ep, D("x"));
  bool threw = false;
  try
  {
    r->get();
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  MC_REQUIRE(threw, "a request to an endpoint the server does not have resolved");
}
static void all_gone()
{
  MC_REQUIRE(mc::live_threads() == 0, "%d worker threads survive their transports", mc::live_threads());
}
MC_SCENARIO(requests, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  s->addEndpoint(echo("b", 2));
  auto c = f.connect(s->getAddress());
  MC_REQUIRE(c != nullptr && c->isConnected(), "not connected");
  std::thread t([&] {
    ask(c, "a", "1");
    ask(c, "b", "");
  });
  ask(c, "b", "2");
  missing(c, "nope");
  ask(c, "a", "3");
  t.join();
  MC_REQUIRE(count(HANDLED) == 4 && count(HANDLED, 1) == 2, "endpoints were called %d times for 4 requests", count(HANDLED));
  MC_REQUIRE(c->pendingRequests() == 0, "answered requests still counted as pending");
  c.reset();
  s.reset();
  all_gone();
}
// several requests outstanding at once, answers of different kinds
MC_SCENARIO(outstanding, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  s->addEndpoint(echo("b", 2));
  auto c = f.connect(s->getAddress());
  auto c2 = f.connect(s->getAddress());
  auto r1 = c->request("a", D("1"));
  auto r2 = c->request("nope", D("2"));
  auto r3 = c->request("b", D("3"));
  auto r4 = c2->request("a", D("4"));
  auto r5 = c->request("a", D("!5"));
  auto r6 = c->request("b", D("6"));
  MC_REQUIRE(S(r6->get()) == "b:6", "wrong answer");
  MC_REQUIRE(S(r1->get()) == "a:1", "wrong answer");
  MC_REQUIRE(S(r3->get()) == "b:3", "wrong answer");
  MC_REQUIRE(S(r4->get()) == "a:4", "wrong answer");
  bool threw = false;
  try
  {
    r2->get();
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  MC_REQUIRE(threw, "a request to an endpoint the server does not have resolved");
  if (r5->wait_for(std::chrono::milliseconds(50)) == std::future_status::ready)
  {
    try
    {
      r5->get();
      mc::fail("property", "a request the endpoint declined to answer resolved with data");
    }
    catch (const std::exception&)
    {
    }
  }
  MC_REQUIRE(count(HANDLED, 1) == 3 && count(HANDLED, 2) == 2, "endpoint calls: %d %d", count(HANDLED, 1), count(HANDLED, 2));
}
MC_SCENARIO(request_on_server, 2, 3, 0, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto c = f.connect(s->getAddress());
  try
  {
    auto r = s->request("a", D("1"));
    if (r)
      r->wait_for(std::chrono::milliseconds(100));
    if (r && r->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
      r->get();
  }
  catch (const std::exception&)
  {
  }
  ask(c, "a", "2");
}
static void check_stream(int id, const std::string& prefix, int n, bool all)
{
  // the records of receiver id that start with prefix must be prefix0, prefix1, ... without gap or repetition
  int k = all ? 0 : -1;
  for (int i = 0; i < mc::record_count(); i++)
  {
    const auto& r = mc::record_at(i);
    if (r.kind != UNSOL || r.a != id)
      continue;
    std::string s = rec_str(r);
    if (s.compare(0, prefix.size(), prefix) != 0)
      continue;
    if (k < 0)  // a late client may miss the first ones
      k = s[prefix.size()] - '0';
    std::string want = prefix + std::to_string(k);
    MC_REQUIRE(s == want, "client %d got broadcast '%s' where '%s' was next", id, s.c_str(), want.c_str());
    k++;
  }
  MC_REQUIRE(k <= n, "client %d got %d broadcasts, %d were sent", id, k, n);
  MC_REQUIRE(!all || k == n, "client %d got %d of %d broadcasts", id, k, n);
}
MC_SCENARIO(broadcasts, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  auto c1 = f.connect(s->getAddress());
  auto c2 = f.connect(s->getAddress());
  c1->addEndpoint(echo("a", 1));
  c1->addEndpoint(echo("b", 11));
  c2->addEndpoint(echo("a", 2));
  std::thread t([&] {
    s->broadcast("a", D("p0"));
    s->broadcast("a", D("p1"));
  });
  s->broadcast("a", D("m0"));
  s->broadcast("b", D("q0"));
  s->broadcast("a", D("m1"));
  t.join();
  mc::wait_records(UNSOL, 9, -1);
  mc::sleep_ms(100);
  MC_REQUIRE(count(UNSOL) == 9, "%d deliveries instead of 9", count(UNSOL));
  check_stream(1, "p", 2, true);
  check_stream(1, "m", 2, true);
  check_stream(11, "q", 1, true);
  check_stream(2, "p", 2, true);
  check_stream(2, "m", 2, true);
}
MC_SCENARIO(mixed, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto c1 = f.connect(s->getAddress());
  c1->addEndpoint(echo("a", 11));
  std::thread t([&] {
    auto c2 = f.connect(s->getAddress());
    MC_REQUIRE(c2 != nullptr, "connect failed");
    c2->addEndpoint(echo("a", 12));
    ask(c2, "a", "2");
    c2.reset();
  });
  s->broadcast("a", D("m0"));
  ask(c1, "a", "1");
  s->broadcast("a", D("m1"));
  t.join();
  while (count(UNSOL, 11) < 2)
    mc::wait_records(UNSOL, count(UNSOL) + 1, -1);
  mc::sleep_ms(50);
  check_stream(11, "m", 2, true);
  check_stream(12, "m", 2, false);
  ask(c1, "a", "9");
}
// everything may be destroyed in any order and at any moment
static void teardown(int variant)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto c1 = f.connect(s->getAddress());
  auto c2 = f.connect(s->getAddress());
  c1->addEndpoint(echo("a", 11));
  c2->addEndpoint(echo("a", 12));
  s->broadcast("a", D("m0"));
  auto r = c1->request("a", D("1"));
  std::thread t;
  switch (variant)
  {
    case 0:
      t = std::thread([&] { s.reset(); });
      c1.reset();
      c2.reset();
      break;
    case 1:
      t = std::thread([&] { c1.reset(); });
      s->broadcast("a", D("m1"));
      s.reset();
      c2.reset();
      break;
    case 2:
      t = std::thread([&] {
        c1.reset();
        s.reset();
      });
      c2.reset();
      break;
  }
  t.join();
  MC_REQUIRE(!s && !c1 && !c2, "harness");
  all_gone();
  try
  {
    if (r->wait_for(std::chrono::seconds(0)) == std::future_status::ready)
      MC_REQUIRE(S(r->get()) == "a:1", "wrong answer");
    else
      mc::fail("property", "a request of a destroyed transport never becomes ready");
  }
  catch (const std::exception&)
  {
  }
  check_stream(11, "m", 2, false);
  check_stream(12, "m", 2, false);
  MC_REQUIRE(f.discover().empty(), "a destroyed server is still discovered");
}
MC_SCENARIO(teardown0, 2, 3, mc::DELAY | mc::REFCOUNTS, 10) { teardown(0); }
MC_SCENARIO(teardown1, 2, 3, mc::DELAY | mc::REFCOUNTS, 10) { teardown(1); }
MC_SCENARIO(teardown2, 2, 3, mc::DELAY | mc::REFCOUNTS, 10) { teardown(2); }
MC_SCENARIO(dropped, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto c = f.connect(s->getAddress());
  auto keep = c->request("a", D("k"));
  auto drop = c->request("a", D("d"));
  c->request("nope", D("d"));
  std::thread t([&] { drop.reset(); });
  ask(c, "a", "1");
  t.join();
  MC_REQUIRE(S(keep->get()) == "a:k", "wrong answer");
  mc::sleep_ms(100);
  MC_REQUIRE(c->pendingRequests() == 0, "dropped requests are still pending");
  MC_REQUIRE(count(HANDLED) <= 3, "too many calls");
  ask(c, "a", "2");
}
// endpoints that use the transport from within their callbacks
class Nested : public Echo
{
public:
  Nested() : Echo("n", 3) {}
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    if (back)
      back->request("a", D("inner"));
    t.broadcast("u", D("m0"));
    if (back)
      (void)back->pendingRequests();
    return Echo::handle(t, in, out);
  }
  bool unsolicited(Transport& t, const Data& in, Data& out) override
  {
    Echo::unsolicited(t, in, out);
    out = D("reply");
    return true;
  }
  std::shared_ptr<Transport> back;
};
MC_SCENARIO(nested, 2, 3, mc::DELAY, 10)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("a", 1));
  auto n = std::make_shared<Nested>();
  s->addEndpoint(n);
  auto c = f.connect(s->getAddress());
  c->addEndpoint(echo("u", 11));
  n->back = c;
  ask(c, "n", "1");
  mc::wait_records(UNSOL, 1, -1);
  mc::sleep_ms(50);
  check_stream(11, "m", 1, true);
  n->back.reset();
  // answers to broadcasts: handed to the server if it has such an endpoint, otherwise ignored
  auto m = std::make_shared<Nested>();
  m->name_ = mc::choose(2, "server has it") ? "a" : "zz";
  c->addEndpoint(m);
  s->broadcast(m->name_, D("b0"));
  mc::wait_records(UNSOL, 2, -1);
  mc::sleep_ms(50);
  check_stream(3, "b", 1, true);
  ask(c, "a", "2");
}
// every sequence of operations
MC_SCENARIO(history, 0, 0, mc::SEQ, 60)
{
  Factory f;
  Transport::Ptr s = f.serve(), c[2];
  s->addEndpoint(echo("a", 1));
  auto dest = s->getAddress();
  int steps = mc::tier() ? 6 : 5, nb = 0;
  int expect[2] = { 0, 0 };
  for (int i = 0; i < steps; i++)
  {
    int o = mc::choose(9, "op"), p = o & 1;
    if (o < 2)
    {
      if (c[p])
        break;
      c[p] = f.connect(dest);
      MC_REQUIRE((c[p] != nullptr), "connect failed although the server lives");
      c[p]->addEndpoint(echo("a", 10 + p));
      expect[p] = 0;
    }
    else if (o < 4)
    {
      if (!c[p])
        break;
      c[p].reset();
    }
    else if (o < 6)
    {
      if (!c[p])
        break;
      ask(c[p], "a", "q");
    }
    else if (o < 8)
    {
      if (!c[p])
        break;
      missing(c[p], "no");
      c[p]->request("a", D("dropped"));
    }
    else
    {
      int before = count(UNSOL, 10), before1 = count(UNSOL, 11);
      s->broadcast("a", D("b" + std::to_string(nb++)));
      mc::sleep_ms(50);
      int d0 = count(UNSOL, 10) - before, d1 = count(UNSOL, 11) - before1;
      MC_REQUIRE(d0 == (c[0] ? 1 : 0) && d1 == (c[1] ? 1 : 0), "broadcast was delivered %d/%d times to clients connected %d/%d", d0, d1, !!c[0], !!c[1]);
    }
    auto v = f.discover();
    MC_REQUIRE(v.size() == 1 && std::string(*v[0]) == std::string(*dest) && v[0]->hash_code() == dest->hash_code(), "discovery is wrong");
  }
  c[0].reset();
  c[1].reset();
  s.reset();
  MC_REQUIRE(f.discover().empty() && f.connect(dest) == nullptr, "a destroyed server can still be reached");
  all_gone();
}
// every sequence of broadcasts over two endpoints and three payloads, issued at once or with pauses
MC_SCENARIO(repeated, 0, 0, mc::SEQ, 30)
{
  Factory f;
  auto s = f.serve();
  auto c1 = f.connect(s->getAddress());
  auto c2 = f.connect(s->getAddress());
  c1->addEndpoint(echo("a", 1));
  c1->addEndpoint(echo("b", 11));
  c2->addEndpoint(echo("a", 2));
  static const struct
  {
    const char* ep;
    const char* data;
  } kinds[] = { { "a", "x" }, { "a", "y" }, { "a", "" }, { "b", "x" } };
  std::string a, b, got1, got2, gotb;
  bool pause = mc::choose(2, "pause");
  int len = mc::tier() ? 5 : 4, total = 0;
  for (int i = 0; i < len; i++)
  {
    auto& k = kinds[mc::choose(4, "message")];
    s->broadcast(k.ep, D(k.data));
    (*k.ep == 'a' ? a : b) += std::string(k.data) + ",";
    total += *k.ep == 'a' ? 2 : 1;
    if (pause)
      mc::sleep_ms(250);
  }
  mc::wait_records(UNSOL, total, 10000);
  mc::sleep_ms(250);
  int n = mc::record_count();
  for (int i = 0; i < n; i++)
    if (mc::record_at(i).kind == UNSOL)
    {
      auto& r = mc::record_at(i);
      (r.a == 1 ? got1 : r.a == 2 ? got2 : gotb) += rec_str(r) + ",";
    }
  MC_REQUIRE(got1 == a && got2 == a && gotb == b, "broadcast %s and %s; received %s, %s and %s", a.c_str(), b.c_str(),
             got1.c_str(), got2.c_str(), gotb.c_str());
}
// several hundred broadcasts and requests issued at once
MC_SCENARIO(burst, 0, 0, mc::SEQ | mc::NO_ATOMICS, 60)
{
  Factory f;
  auto s = f.serve();
  s->addEndpoint(echo("e", 5));
  auto c = f.connect(s->getAddress());
  c->addEndpoint(echo("a", 1));
  int n = mc::choose(2, "size") ? 300 : 40;
  std::vector<Transport::PendingResponse> futures;
  for (int i = 0; i < n; i++)
  {
    s->broadcast("a", D(std::to_string(i / 2)));
    futures.push_back(c->request("e", D(std::to_string(i))));
  }
  for (int i = 0; i < n; i++)
    MC_REQUIRE(S(futures[(size_t)i]->get()) == "e:" + std::to_string(i), "request %d of %d resolved wrongly", i, n);
  mc::wait_records(UNSOL, n, 60000);
  mc::sleep_ms(250);
  int k = 0, recs = mc::record_count();
  for (int i = 0; i < recs; i++)
    if (mc::record_at(i).kind == UNSOL)
    {
      MC_REQUIRE(rec_str(mc::record_at(i)) == std::to_string(k / 2), "broadcast %d arrived as '%s'", k, rec_str(mc::record_at(i)).c_str());
      k++;
    }
  MC_REQUIRE(k == n, "%d of %d broadcasts arrived", k, n);
}
// as many clients and servers as threads can be had, some of which leave
MC_SCENARIO(many_clients, 0, 0, mc::SEQ | mc::NO_ATOMICS, 60)
{
  Factory f;
  const int servers = 1 + mc::choose(4, "servers"), n = (13 - servers) / servers, leave = mc::choose(4, "leave");
  std::vector<Transport::Ptr> s, c;
  for (int i = 0; i < servers; i++)
  {
    s.push_back(f.serve());
    s.back()->addEndpoint(echo("e" + std::to_string(i)));
  }
  MC_REQUIRE(f.discover().size() == (size_t)servers, "%zu servers found of %d", f.discover().size(), servers);
  for (int i = 0; i < n * servers; i++)
  {
    c.push_back(f.connect(s[(size_t)(i % servers)]->getAddress()));
    MC_REQUIRE(c.back() && c.back()->isConnected(), "connect failed");
    c.back()->addEndpoint(echo("a", 10 + i));
    ask(c.back(), "e" + std::to_string(i % servers), "x");
  }
  int want = 0;
  for (int round = 0; round < 2; round++)
  {
    for (int i = 0; i < servers; i++)
      s[(size_t)i]->broadcast("a", D(std::to_string(i) + std::to_string(round)));
    for (auto& x : c)
      want += x != nullptr;
    mc::wait_records(UNSOL, want, 10000);
    mc::sleep_ms(100);
    for (int i = 0; i < n * servers; i++)
      if (c[(size_t)i])
      {
        MC_REQUIRE(count(UNSOL, 10 + i) == round + 1, "client %d got %d broadcasts of %d", i, count(UNSOL, 10 + i), round + 1);
        ask(c[(size_t)i], "e" + std::to_string(i % servers), "y");
      }
    for (int i = 0; i < n * servers && leave && round == 0; i++)
      if (i % (leave + 1) == 0)
        c[(size_t)i].reset();
  }
  MC_REQUIRE(count(UNSOL) == want, "%d deliveries instead of %d", count(UNSOL), want);
}
