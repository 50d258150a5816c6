// P04: broadcasts.
#include "tu.h"
using namespace tu;
struct World
{
  scalopus::TransportUnixFactory f;
  Transport::Ptr server;
  scalopus::Destination::Ptr dest;
  int asked = 0;
  World()
  {
    mc::set_pid(100);
    server = f.serve();
    MC_REQUIRE(server != nullptr, "serve() failed");
    server->addEndpoint(echo("a", 1));
    dest = server->getAddress();
    mc::set_pid(200);
  }
  // a client that the server has seen: it completed a request
  Transport::Ptr client(int id)
  {
    auto c = f.connect(dest);
    MC_REQUIRE(c != nullptr, "connect() failed");
    c->addEndpoint(echo("a", id));
    c->addEndpoint(echo("b", id + 100));
    ask(c, "a", "hello");
    asked++;
    return c;
  }
};
static std::vector<std::string> received(int id)
{
  std::vector<std::string> r;
  int n = mc::record_count();
  for (int i = 0; i < n; i++)
    if (mc::record_at(i).kind == UNSOL && mc::record_at(i).a == id)
      r.push_back(rec_str(mc::record_at(i)));
  return r;
}
static std::string join(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& s : v)
    r += s + ",";
  return r;
}
static void expect(int id, const std::vector<std::string>& want)
{
  auto got = received(id);
  MC_REQUIRE(got == want, "client endpoint %d received %s expected %s", id, join(got).c_str(), join(want).c_str());
}
// each of the sequences must appear in order, everything exactly once, nothing else
static void expect_merge(int id, const std::vector<std::vector<std::string>>& seqs)
{
  auto got = received(id);
  size_t total = 0;
  for (auto& s : seqs)
  {
    size_t k = 0;
    for (auto& g : got)
      if (k < s.size() && g == s[k])
        k++;
    MC_REQUIRE(k == s.size(), "client endpoint %d received %s, lacks (in order) %s", id, join(got).c_str(), join(s).c_str());
    total += s.size();
  }
  MC_REQUIRE(got.size() == total, "client endpoint %d received %s, %zu messages were broadcast", id, join(got).c_str(), total);
  mc::outcome("%s ", join(got).c_str());
}
static void order_body()
{
  World w;
  auto c = w.client(11);
  w.server->broadcast("a", D("1"));
  w.server->broadcast("a", D("2"));
  w.server->broadcast("a", D("3"));
  mc::wait_records(UNSOL, 3, -1);
  mc::sleep_ms(50);
  expect(11, { "1", "2", "3" });
  MC_REQUIRE(c->pendingRequests() == 0, "a broadcast left a pending request");
}
MC_SCENARIO(order, 1, 3, 0, 10) { order_body(); }
MC_SCENARIO(order_delay, 2, -1, mc::DELAY, 10) { order_body(); }
MC_SCENARIO(two_clients, 1, 2, mc::DELAY, 10)
{
  World w;
  auto c1 = w.client(11);
  auto c2 = w.client(12);
  w.server->broadcast("a", D("1"));
  w.server->broadcast("b", D("x"));
  w.server->broadcast("a", D("2"));
  w.server->broadcast("nobody", D("lost"));
  w.server->broadcast("a", D(""));
  mc::wait_records(UNSOL, 8, -1);
  mc::sleep_ms(50);
  for (int id : { 11, 12 })
  {
    expect(id, { "1", "2", "" });
    expect(id + 100, { "x" });
  }
}
MC_SCENARIO(two_broadcasters, 2, 3, mc::DELAY, 10)
{
  World w;
  auto c = w.client(11);
  std::thread t([&] {
    w.server->broadcast("a", D("p"));
    w.server->broadcast("a", D("q"));
  });
  w.server->broadcast("a", D("1"));
  w.server->broadcast("a", D("2"));
  t.join();
  mc::wait_records(UNSOL, 4, -1);
  mc::sleep_ms(50);
  expect_merge(11, { { "p", "q" }, { "1", "2" } });
}
// broadcasts and requests cross each other
MC_SCENARIO(with_requests, 2, 3, mc::DELAY, 10)
{
  World w;
  auto c = w.client(11);
  auto r1 = c->request("a", D("r1"));
  std::thread t([&] {
    w.server->broadcast("a", D("1"));
    w.server->broadcast("a", D("2"));
  });
  auto r2 = c->request("a", D("r2"));
  MC_REQUIRE(S(r2->get()) == "a:r2", "request resolved wrongly");
  MC_REQUIRE(S(r1->get()) == "a:r1", "request resolved wrongly");
  t.join();
  mc::wait_records(UNSOL, 2, -1);
  mc::sleep_ms(50);
  expect(11, { "1", "2" });
  MC_REQUIRE(c->pendingRequests() == 0, "requests left pending");
}
// a request that is outstanding while broadcasts for the same endpoint pass
MC_SCENARIO(outstanding, 1, 2, 0, 10)
{
  World w;
  auto c = w.client(11);
  auto r = c->request("a", D("!never"));
  w.server->broadcast("a", D("1"));
  w.server->broadcast("a", D("2"));
  mc::wait_records(UNSOL, 2, -1);
  mc::sleep_ms(50);
  expect(11, { "1", "2" });
  MC_REQUIRE(r->wait_for(std::chrono::seconds(0)) != std::future_status::ready, "a broadcast resolved a request");
  MC_REQUIRE(c->pendingRequests() == 1, "a broadcast removed a pending request");
}
// another client leaves at any moment
MC_SCENARIO(leaving_client, 1, 2, mc::DELAY, 10)
{
  World w;
  auto gone = w.client(11);
  auto stay = w.client(12);
  int raw = raw_connect(100);
  w.server->broadcast("a", D("1"));
  if (mc::choose(2, "who leaves"))
    gone.reset();
  else
    ::close(raw), raw = -1;
  w.server->broadcast("a", D("2"));
  w.server->broadcast("a", D("3"));
  int n = 0;
  while ((n = (int)received(12).size()) < 3)
    mc::sleep_ms(20);
  mc::sleep_ms(50);
  expect(12, { "1", "2", "3" });
  auto g = received(11);
  static const std::vector<std::string> all = { "1", "2", "3" };
  MC_REQUIRE(g.size() <= 3 && std::equal(g.begin(), g.end(), all.begin()), "leaving client received %s", join(g).c_str());
  if (gone)
    MC_REQUIRE(g.size() == 3, "a client that stayed received only %zu broadcasts", g.size());
  if (raw >= 0)
    ::close(raw);
}
// a broadcast issued from inside a request handler and queued before anybody is connected
class Announcer : public Echo
{
public:
  Announcer() : Echo("ann", 3) {}
  bool handle(Transport& t, const Data& in, Data& out) override
  {
    t.broadcast("a", D("from handler"));
    return Echo::handle(t, in, out);
  }
};
MC_SCENARIO(from_handler, 2, 3, mc::DELAY, 10)
{
  World w;
  w.server->addEndpoint(std::make_shared<Announcer>());
  auto c = w.client(11);
  ask(c, "ann", "go");
  w.server->broadcast("a", D("z"));
  mc::wait_records(UNSOL, 2, -1);
  mc::sleep_ms(50);
  expect(11, { "from handler", "z" });
}
// a slow reader: the message does not fit the socket buffer
MC_SCENARIO(large, 1, 2, mc::DELAY | mc::NO_ATOMICS, 10)
{
  mc::net_capacity(64);
  World w;
  auto c = w.client(11);
  auto c2 = w.client(12);
  std::string big(300, 'L');
  w.server->broadcast("a", D(big));
  w.server->broadcast("a", D("end"));
  mc::wait_records(UNSOL, 4, -1);
  mc::sleep_ms(50);
  for (int id : { 11, 12 })
  {
    auto got = received(id);
    MC_REQUIRE(got.size() == 2 && got[1] == "end", "client %d received %s", id, join(got).c_str());
  }
  int n = mc::record_count();
  for (int i = 0; i < n; i++)
    if (mc::record_at(i).kind == UNSOL)
      MC_REQUIRE(mc::record_at(i).b == 300 || mc::record_at(i).b == 3, "broadcast arrived with %ld bytes", mc::record_at(i).b);
}
// partial and interrupted system calls while broadcasting
MC_SCENARIO(faults, 1, 2, mc::SEQ, 10)
{
  World w;
  auto c = w.client(11);
  mc::net_faults(mc::SHORT_READ | mc::SHORT_WRITE | mc::INTR_READ | mc::INTR_WRITE | mc::INTR_SELECT);
  w.server->broadcast("a", D("one"));
  w.server->broadcast("a", D("two"));
  mc::wait_records(UNSOL, 2, -1);
  mc::sleep_ms(50);
  expect(11, { "one", "two" });
}
// every sequence of broadcasts over two endpoints and three payloads, issued at once or with pauses:
// a message that equals an earlier one is a message of its own
MC_SCENARIO(repeated, 0, 0, mc::SEQ, 30)
{
  World w;
  auto c = w.client(11);
  static const struct
  {
    const char* ep;
    const char* data;
  } kinds[] = { { "a", "x" }, { "a", "y" }, { "a", "" }, { "b", "x" } };
  std::vector<std::string> a, b;
  bool pause = mc::choose(2, "pause");
  int len = mc::tier() ? 5 : 4;
  for (int i = 0; i < len; i++)
  {
    auto& k = kinds[mc::choose(4, "message")];
    w.server->broadcast(k.ep, D(k.data));
    (*k.ep == 'a' ? a : b).push_back(k.data);
    if (pause)
      mc::sleep_ms(250);
  }
  mc::wait_records(UNSOL, len, 10000);
  mc::sleep_ms(250);
  expect(11, a);
  expect(111, b);
}
// several hundred broadcasts issued before anything is sent
MC_SCENARIO(burst, 0, 0, mc::SEQ | mc::NO_ATOMICS, 60)
{
  World w;
  auto c = w.client(11);
  auto d = w.client(12);
  int n = mc::choose(2, "size") ? 300 : 40;
  std::vector<std::string> want;
  for (int i = 0; i < n; i++)
  {
    want.push_back(std::to_string(i / 2));
    w.server->broadcast("a", D(want.back()));
  }
  mc::wait_records(UNSOL, 2 * n, 60000);
  mc::sleep_ms(250);
  for (int id : { 11, 12 })
  {
    auto got = received(id);
    MC_REQUIRE(got.size() == want.size(), "client %d received %zu of %zu broadcasts", id, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
      MC_REQUIRE(got[i] == want[i], "client %d received '%s' as broadcast %zu, expected '%s'", id, got[i].c_str(), i, want[i].c_str());
  }
}
// as many clients as threads can be had, some of which leave
MC_SCENARIO(many_clients, 0, 0, mc::SEQ | mc::NO_ATOMICS, 60)
{
  World w;
  const int n = 4 + mc::choose(9, "clients"), leave = mc::choose(4, "leave");
  std::vector<Transport::Ptr> c;
  for (int i = 0; i < n; i++)
    c.push_back(w.client(10 + i));
  w.server->broadcast("a", D("1"));
  w.server->broadcast("a", D("2"));
  mc::wait_records(UNSOL, 2 * n, 10000);
  mc::sleep_ms(100);
  for (int i = 0; i < n; i++)
    expect(10 + i, { "1", "2" });
  int stay = 0;
  for (int i = 0; i < n; i++)
    if (leave && i % (leave + 1) == 0)
      c[(size_t)i].reset();
    else
      stay++;
  w.server->broadcast("a", D("3"));
  mc::wait_records(UNSOL, 2 * n + stay, 10000);
  mc::sleep_ms(100);
  for (int i = 0; i < n; i++)
    if (c[(size_t)i])
    {
      expect(10 + i, { "1", "2", "3" });
      ask(c[(size_t)i], "a", "still there");
    }
}
