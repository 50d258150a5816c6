// Helpers shared by the unix transport scenarios.
#pragma once
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/transport.h>
#include <scalopus_transport/transport_unix.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <cstring>
#include <functional>
#include <future>
#include <thread>
#include "mc.h"
namespace tu
{
using scalopus::Data;
using scalopus::Endpoint;
using scalopus::Transport;
enum Kind { HANDLED = 1, UNSOL = 2, GOT = 3, FAILED = 4, BCAST = 5 };
inline Data D(const std::string& s) { return Data(s.begin(), s.end()); }
inline std::string S(const Data& d) { return std::string(d.begin(), d.end()); }

// answers "<name>:<request>"; requests starting with '!' are not answered
class Echo : public Endpoint
{
public:
  Echo(const std::string& name, int id = 0) : name_(name), id_(id) {}
  std::string getName() const override { return name_; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    mc::record(HANDLED, id_, (long)in.size(), in.data(), in.size());
    if (!in.empty() && in[0] == '!')
      return false;
    out = D(name_ + ":");
    out.insert(out.end(), in.begin(), in.end());
    return true;
  }
  bool unsolicited(Transport&, const Data& in, Data&) override
  {
    mc::record(UNSOL, id_, (long)in.size(), in.data(), in.size());
    return false;
  }
  std::string name_;
  int id_;
};
inline std::shared_ptr<Echo> echo(const std::string& n, int id = 0) { return std::make_shared<Echo>(n, id); }
inline std::string rec_str(const mc::Rec& r) { return std::string(r.s, (size_t)(r.slen > 64 ? 64 : r.slen)); }
inline int count(int kind, long a = -1)
{
  int n = 0, c = mc::record_count();
  for (int i = 0; i < c; i++)
    if (mc::record_at(i).kind == kind && (a < 0 || mc::record_at(i).a == a))
      n++;
  return n;
}
// Sends a request and requires the right answer.  Blocks in virtual time without a timeout: a lost answer is a hang.
inline void ask(const Transport::Ptr& t, const std::string& ep, const std::string& msg)
{
  auto r = t->request(ep, D(msg));
  MC_REQUIRE(r != nullptr, "request returned no future");
  try
  {
    std::string got = S(r->get());
    MC_REQUIRE(got == ep + ":" + msg, "request %s to %s resolved with '%s'", msg.c_str(), ep.c_str(), got.c_str());
  }
  catch (const std::exception& e)
  {
    mc::fail("property", "request %s to %s failed although the server is alive: %s", msg.c_str(), ep.c_str(), e.what());
  }
}
// --- hand made peers, using the documented wire format
inline int raw_socket() { return ::socket(AF_UNIX, SOCK_STREAM, 0); }
inline socklen_t raw_addr(struct sockaddr_un& a, int pid)
{
  std::memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  int n = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "%d_scalopus", pid);
  return (socklen_t)(sizeof(sa_family_t) + 1 + (size_t)n);
}
inline int raw_connect(int pid)
{
  struct sockaddr_un a;
  socklen_t l = raw_addr(a, pid);
  int fd = raw_socket();
  if (::connect(fd, (struct sockaddr*)&a, l) != 0)
  {
    ::close(fd);
    return -1;
  }
  return fd;
}
inline int raw_listen(int pid)
{
  struct sockaddr_un a;
  socklen_t l = raw_addr(a, pid);
  int fd = raw_socket();
  MC_REQUIRE(::bind(fd, (struct sockaddr*)&a, l) == 0, "harness bind");
  MC_REQUIRE(::listen(fd, 5) == 0, "harness listen");
  return fd;
}
inline Data frame(uint64_t id, const std::string& ep, const Data& d)
{
  Data r;
  auto put = [&](const void* p, size_t n) { r.insert(r.end(), (const uint8_t*)p, (const uint8_t*)p + n); };
  uint16_t el = (uint16_t)ep.size();
  uint32_t dl = (uint32_t)d.size();
  put(&id, 8);
  put(&el, 2);
  put(ep.data(), ep.size());
  put(&dl, 4);
  if (!d.empty())
    put(d.data(), d.size());
  return r;
}
inline bool raw_read_all(int fd, void* b, size_t n)
{
  size_t k = 0;
  while (k < n)
  {
    ssize_t r = ::recv(fd, (char*)b + k, n - k, 0);
    if (r <= 0)
      return false;
    k += (size_t)r;
  }
  return true;
}
struct RawMsg
{
  uint64_t id = 0;
  std::string ep;
  Data data;
};
inline bool raw_recv(int fd, RawMsg& m)
{
  uint16_t el = 0;
  uint32_t dl = 0;
  if (!raw_read_all(fd, &m.id, 8) || !raw_read_all(fd, &el, 2))
    return false;
  m.ep.resize(el);
  if (el && !raw_read_all(fd, &m.ep[0], el))
    return false;
  if (!raw_read_all(fd, &dl, 4))
    return false;
  m.data.resize(dl);
  return dl == 0 || raw_read_all(fd, m.data.data(), dl);
}
}  // namespace tu
