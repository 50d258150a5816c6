// P02: framing under every segmentation of the stream.
#include "tu.h"
using namespace tu;
static std::string pattern(size_t n, int salt)
{
  std::string r(n, 'x');
  for (size_t i = 0; i < n; i++)
    r[i] = (char)('!' + 1 + (i * 31 + i / 97 + (size_t)salt * 7) % 90);
  return r;
}
struct Rig
{
  scalopus::TransportUnixFactory f;
  Transport::Ptr server;
  scalopus::Destination::Ptr dest;
  Rig(const std::vector<std::string>& names)
  {
    mc::set_pid(100);
    server = f.serve();
    MC_REQUIRE(server != nullptr, "serve() failed");
    int k = 1;
    for (auto& n : names)
      server->addEndpoint(echo(n, k++));
    dest = server->getAddress();
    mc::set_pid(200);
  }
};
static void raw_roundtrip(int fd, uint64_t id, const std::string& ep, const std::string& pay)
{
  Data fr = frame(id, ep, D(pay));
  MC_REQUIRE(::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL) == (ssize_t)fr.size(), "harness send");
  RawMsg m;
  MC_REQUIRE(raw_recv(fd, m), "server closed the connection after an intact message to '%s'", ep.c_str());
  MC_REQUIRE(m.id == id, "response carries request id %llu, expected %llu", (unsigned long long)m.id, (unsigned long long)id);
  MC_REQUIRE(m.ep == ep, "response carries endpoint '%s', expected '%s'", m.ep.c_str(), ep.c_str());
  MC_REQUIRE(S(m.data) == ep + ":" + pay, "response to '%s' is '%s'", pay.c_str(), S(m.data).c_str());
}
// Every way of cutting one request into the server's reads; the next message must be intact as well.
MC_SCENARIO(server_cuts, 0, 0, mc::SEQ, 5)
{
  static const char* eps[] = { "", "a", "ab" };
  static const char* pays[] = { "", "1", "12", "123" };
  std::string ep = eps[mc::choose(3, "name")];
  std::string pay = pays[mc::choose(mc::tier() ? 4 : 3, "payload")];
  Rig r({ "", "a", "ab" });
  mc::net_fault_thread(false);
  int fd = raw_connect(100);
  mc::net_all_cuts(true);
  Data fr = frame(0x0102030405060708ull, ep, D(pay));
  MC_REQUIRE(::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL) == (ssize_t)fr.size(), "harness send");
  RawMsg m;
  MC_REQUIRE(raw_recv(fd, m), "server closed the connection after an intact message");
  MC_REQUIRE(m.id == 0x0102030405060708ull && m.ep == ep && S(m.data) == ep + ":" + pay, "wrong response '%s' for '%s'", S(m.data).c_str(), pay.c_str());
  mc::net_all_cuts(false);
  raw_roundtrip(fd, 7, "a", "next");
  ::close(fd);
}
// Two messages back to back in the stream: every cut of the first one, including reads that could run into the second.
MC_SCENARIO(server_cuts_pipelined, -1, 0, mc::SEQ, 5)
{
  Rig r({ "a" });
  mc::net_fault_thread(false);
  int fd = raw_connect(100);
  mc::net_all_cuts(true);
  Data fr = frame(3, "a", D("x"));
  Data g = frame(4, "a", D("y"));
  fr.insert(fr.end(), g.begin(), g.end());
  MC_REQUIRE(::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL) == (ssize_t)fr.size(), "harness send");
  RawMsg m;
  MC_REQUIRE(raw_recv(fd, m) && m.id == 3 && S(m.data) == "a:x", "first response wrong");
  mc::net_all_cuts(false);
  MC_REQUIRE(raw_recv(fd, m) && m.id == 4 && S(m.data) == "a:y", "second response wrong");
  ::close(fd);
}
// Every way of cutting a response into the client's reads.
MC_SCENARIO(client_cuts, 0, 0, mc::SEQ, 5)
{
  static const char* pays[] = { "", "1", "12", "1234" };
  std::string pay = pays[mc::choose(mc::tier() ? 4 : 3, "payload")];
  mc::set_pid(100);
  int l = raw_listen(100);
  // an address for the factory without a server object: take it from discovery
  scalopus::TransportUnixFactory f;
  auto found = f.discover();
  MC_REQUIRE(found.size() == 1, "discovery found %zu servers, expected 1", found.size());
  mc::set_pid(200);
  auto c = f.connect(found[0]);
  MC_REQUIRE(c != nullptr, "connect failed");
  mc::net_fault_thread(false);
  int fd = ::accept(l, nullptr, nullptr);
  auto f1 = c->request("a", D("q1"));
  auto f2 = c->request("bc", D("q2"));
  RawMsg m1, m2;
  MC_REQUIRE(raw_recv(fd, m1) && m1.ep == "a" && S(m1.data) == "q1", "request 1 arrived wrong");
  MC_REQUIRE(raw_recv(fd, m2) && m2.ep == "bc" && S(m2.data) == "q2", "request 2 arrived wrong");
  mc::net_all_cuts(true);
  Data fr = frame(m1.id, "a", D(pay));
  MC_REQUIRE(::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL) == (ssize_t)fr.size(), "harness send");
  MC_REQUIRE(S(f1->get()) == pay, "response 1 is '%s'", S(f1->get()).c_str());
  mc::net_all_cuts(false);
  fr = frame(m2.id, "bc", D("zz"));
  MC_REQUIRE(::send(fd, fr.data(), fr.size(), MSG_NOSIGNAL) == (ssize_t)fr.size(), "harness send");
  MC_REQUIRE(S(f2->get()) == "zz", "response 2 wrong");
  ::close(fd);
  ::close(l);
}
static const size_t sizes[] = { 0, 1, 4095, 4096, 4097, 8192, 8193, 70000, 300000 };
static void exchange(Rig& r, size_t n)
{
  auto c = r.f.connect(r.dest);
  MC_REQUIRE(c != nullptr, "connect() failed");
  std::string pay = pattern(n, 1), ep2 = pattern(300, 2);
  auto f1 = c->request("a", D(pay));
  auto f2 = c->request(ep2, D("2"));
  auto f3 = c->request("", D(""));
  std::string g1 = S(f1->get()), g2 = S(f2->get()), g3 = S(f3->get());
  MC_REQUIRE(g1 == "a:" + pay, "payload of %zu bytes came back with %zu bytes, different", n, g1.size());
  MC_REQUIRE(g2 == ep2 + ":2", "message to an endpoint with a long name came back wrong (%zu bytes)", g2.size());
  MC_REQUIRE(g3 == ":", "empty message to the endpoint with the empty name came back as '%s'", g3.c_str());
  MC_REQUIRE(count(HANDLED) == 3, "server handled %d messages, 3 were sent", count(HANDLED));
  c->request("a", D("!bye"));
}
// Interrupted and partial system calls at every call, up to the bound in one run.
MC_SCENARIO(faults, 2, 3, mc::SEQ, 5)
{
  size_t n = sizes[mc::choose(5, "size")];
  Rig r({ "a", "", pattern(300, 2) });
  mc::net_faults(mc::SHORT_READ | mc::SHORT_WRITE | mc::INTR_READ | mc::INTR_WRITE | mc::INTR_SELECT);
  exchange(r, n);
}
// Tiny and ordinary socket buffers with all sizes: writers block in the middle of messages.
MC_SCENARIO(full_buffers, 1, 2, mc::DELAY | mc::NO_ATOMICS, 5)
{
  size_t n = sizes[mc::choose(9, "size")];
  static const size_t caps[] = { 1000, 4096, 212992 };
  size_t cap = caps[mc::choose(3, "buffer")];
  mc::net_capacity(n <= 1 && cap == 1000 ? 5 : std::max(cap, n / 30));
  Rig r({ "a", "", pattern(300, 2) });
  exchange(r, n);
}
// Two threads sending large messages through small buffers: their bytes must not be mixed.
MC_SCENARIO(concurrent_large, 1, 2, mc::NO_ATOMICS, 5)
{
  mc::net_capacity(24);
  Rig r({ "a", "b" });
  auto c = r.f.connect(r.dest);
  MC_REQUIRE(c != nullptr, "connect() failed");
  std::string p1 = pattern(30, 3), p2 = pattern(29, 4);
  std::thread t([&] { ask(c, "a", p1); });
  ask(c, "b", p2);
  t.join();
}
// Names the wire format cannot carry are refused, not delivered to somebody else.
MC_SCENARIO(overlong_name, 0, 0, mc::SEQ, 5)
{
  static const size_t len[] = { 65535, 65536, 65537 };
  size_t n = len[mc::choose(3, "name length")];
  std::string big = "a" + pattern(n - 1, 5);
  Rig r({ "", "a", big });
  auto c = r.f.connect(r.dest);
  auto f = c->request(big, D("1"));
  auto g = c->request("a", D("2"));
  MC_REQUIRE(S(g->get()) == "a:2", "message after one with a long name came back wrong");
  bool ok = false, thrown = false;
  if (f->wait_for(std::chrono::seconds(1)) == std::future_status::ready)
  {
    try
    {
      ok = S(f->get()) == big + ":1";
      MC_REQUIRE(ok, "message to a long name resolved with another endpoint's answer");
    }
    catch (const std::exception&)
    {
      thrown = true;
    }
  }
  MC_REQUIRE(count(HANDLED, 1) == 0 && count(HANDLED, 2) == 1, "a message to a name of %zu bytes reached another endpoint", n);
  MC_REQUIRE(ok || thrown, "a message to a name of %zu bytes is neither delivered nor refused", n);
}
// Names that hold any bytes: each reaches its own endpoint, both as request and as broadcast.
MC_SCENARIO(any_name, 0, 0, mc::SEQ, 5)
{
  static const std::string names[] = { std::string("a\0b", 3), std::string("a\0", 2), std::string("\0a", 2), std::string("\0", 1), "a", "", "\xff\xfe", "a b\n" };
  const int n = 8;
  int i = mc::choose(n, "first"), j = mc::choose(n, "second");
  std::vector<std::string> all(names, names + n);
  Rig r(all);
  auto c = r.f.connect(r.dest);
  auto f = c->request(names[i], D("1"));
  auto g = c->request(names[j], D("2"));
  MC_REQUIRE(S(f->get()) == names[i] + ":1", "the request to name %d was answered '%s'", i, S(f->get()).c_str());
  MC_REQUIRE(S(g->get()) == names[j] + ":2", "the request to name %d was answered otherwise", j);
}
// Payloads far larger than every buffer.
MC_SCENARIO(huge, 0, 0, mc::SEQ, 60)
{
  static const size_t size[] = { (1u << 20) - 1, 1u << 20, (1u << 20) + 1, (1u << 22) + 5, (1u << 23) + 1 };
  size_t n = size[mc::choose(mc::tier() ? 5 : 4, "size")];
  mc::net_capacity(mc::choose(2, "buffer") ? 212992 : 8u << 20);
  Rig r({ "a", "" });
  auto c = r.f.connect(r.dest);
  Data p(n);
  for (size_t i = 0; i < n; i++)
    p[i] = (unsigned char)(i * 7 + (i >> 8) * 13 + (i >> 16));
  auto f = c->request("a", p);
  auto g = c->request("", D("2"));
  const Data& d = f->get();
  MC_REQUIRE(d.size() == n + 2 && d[0] == 'a' && d[1] == ':' && std::equal(p.begin(), p.end(), d.begin() + 2), "a payload of %zu bytes came back as one of %zu, or changed", n, d.size());
  MC_REQUIRE(S(g->get()) == ":2", "the message after one of %zu bytes came back wrong", n);
}
