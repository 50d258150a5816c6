TU='scalopus_transport/src/transport_unix.cpp'
COMMON=r'''
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <thread>
#include <functional>
#include <atomic>
#include "transport_unix.h"
using namespace scalopus;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); fflush(stdout); _exit(1); } } while (0)
struct Ep : Endpoint {
  std::string n; std::function<bool(const Data&, Data&)> h, u;
  Ep(std::string name) : n(name) {}
  std::string getName() const override { return n; }
  bool handle(Transport&, const Data& r, Data& o) override { return h ? h(r, o) : false; }
  bool unsolicited(Transport&, const Data& r, Data& o) override { return u ? u(r, o) : false; }
};
static bool ready(Transport::PendingResponse& f, int ms = 5000) { return f->wait_for(std::chrono::milliseconds(ms)) == std::future_status::ready; }
static int raw() {
  int fd = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  std::string s = std::to_string(getpid()) + "_scalopus"; memcpy(a.sun_path + 1, s.data(), s.size());
  if (connect(fd, (sockaddr*)&a, sizeof(a.sun_family) + s.size() + 1)) return -1; return fd; }
'''
SEEDS=[
dict(id='unix_overread', prop='P02', needs='a payload longer than the 4096 byte read chunk that is followed by another message in the same stream before it was read',
 breaks='the reader consumes bytes of the following message, so both are corrupted',
 edits=[('scalopus_transport/src/protocol.cpp','std::min(length - received, chunk_size)','std::min(length, chunk_size)')],
 demo=COMMON+r'''
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  auto e = std::make_shared<Ep>("echo");
  e->h = [](const Data& r, Data& o) { if (r.size() == 1) std::this_thread::sleep_for(std::chrono::milliseconds(300)); o = r; return true; };
  s->addEndpoint(e);
  auto c = f.connect(s->getAddress()); CHECK(c);
  auto w = c->request("echo", Data(1, 'w'));   // keeps the server busy, so the following messages queue up
  Data big(5000, 'a'), small(10, 'b');
  auto r1 = c->request("echo", big); auto r2 = c->request("echo", small);
  CHECK(ready(r1)); CHECK(r1->get() == big); CHECK(ready(r2)); CHECK(r2->get() == small);
}'''),
dict(id='unix_bcast_dead', prop='P04', needs='a client whose receiving side is gone while the server still counts it as connected, and that was connected before another client, at the moment of a broadcast',
 breaks='the clients after the dead one do not get the broadcast',
 edits=[(TU,'        protocol::send(connection, broadcast);\n','        if (!protocol::send(connection, broadcast))\n        {\n          logger_("[TransportUnix] Could not send broadcast.");\n          break;\n        }\n')],
 demo=COMMON+r'''
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  auto e = std::make_shared<Ep>("echo"); e->h = [](const Data& r, Data& o) { o = r; return true; }; s->addEndpoint(e);
  int fd = raw(); CHECK(fd > 0);
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  auto c = f.connect(s->getAddress()); CHECK(c);
  std::atomic<int> got{ 0 };
  auto b = std::make_shared<Ep>("b"); b->u = [&](const Data&, Data&) { got++; return false; }; c->addEndpoint(b);
  auto r = c->request("echo", Data(1, 'x')); CHECK(ready(r));
  shutdown(fd, SHUT_RD);
  s->broadcast("b", Data(3, 'q'));
  for (int i = 0; i < 100 && got == 0; i++) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  CHECK(got == 1);
}'''),
dict(id='unix_reqid8', prop='P01', needs='more than 255 requests to one endpoint outstanding at once',
 breaks='request ids repeat while older requests with the same id are pending, so a response resolves the wrong request and others are never resolved',
 edits=[(TU,'size_t request_id = request_counter_++;','const auto request_id = static_cast<std::uint8_t>(request_counter_++);')],
 demo=COMMON+r'''
static void all(int fd, void* p, size_t n) { for (size_t k = 0; k < n;) { ssize_t r = read(fd, (char*)p + k, n - k); CHECK(r > 0); k += r; } }
int main() {
  int l = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  std::string s = std::to_string(getpid()) + "_scalopus"; memcpy(a.sun_path + 1, s.data(), s.size());
  CHECK(bind(l, (sockaddr*)&a, sizeof(a.sun_family) + s.size() + 1) == 0); CHECK(listen(l, 5) == 0);
  TransportUnixFactory f; Transport::Ptr c;
  for (const auto& d : f.discover()) if (!c && d->hash_code() == (std::size_t)getpid()) c = f.connect(d);
  CHECK(c);
  int fd = accept(l, nullptr, nullptr); CHECK(fd >= 0);
  std::vector<Transport::PendingResponse> v; std::vector<size_t> ids;
  for (int i = 0; i < 300; i++) {
    v.push_back(c->request("x", Data{ (uint8_t)i, (uint8_t)(i >> 8) }));
    char m[8 + 2 + 1 + 4 + 2]; all(fd, m, sizeof m); size_t id; memcpy(&id, m, 8); ids.push_back(id);
  }
  for (int i = 299; i >= 0; i--) {
    std::string m; uint16_t nl = 1; uint32_t dl = 2;
    m.append((char*)&ids[i], 8).append((char*)&nl, 2).append("x").append((char*)&dl, 4).append(1, (char)i).append(1, (char)(i >> 8));
    CHECK(write(fd, m.data(), m.size()) == (ssize_t)m.size());
    CHECK(ready(v[i])); CHECK(v[i]->get() == (Data{ (uint8_t)i, (uint8_t)(i >> 8) }));
  }
}'''),
dict(id='names_stale', prop='P14', libs=['interface','general'], needs='a thread that was named explicitly by somebody else before it names itself, and then exits',
 breaks='the name of the exited thread stays in the process information',
 edits=[('scalopus_general/src/thread_name_tracker.cpp','  // Register a destructor callback such that the thread gets removed from the map when the thread exits.\n  thread_local auto cleanup = DestructorCallback([this, tid]() { erase(tid); });\n  setThreadName(tid, name);',
 '  if (!exists(tid))\n  {\n    // Register a destructor callback such that the thread gets removed from the map when the thread exits.\n    thread_local auto cleanup = DestructorCallback([this, tid]() { erase(tid); });\n  }\n  setThreadName(tid, name);')],
 demo=r'''
#include <thread>
#include <cstdio>
#include <pthread.h>
#include "scalopus_general/internal/thread_name_tracker.h"
using namespace scalopus;
int main() {
  auto& t = ThreadNameTracker::getInstance();
  unsigned long id = 0;
  std::thread([&]() { id = (unsigned long)pthread_self(); t.setThreadName(id, "given"); t.setCurrentName("mine"); }).join();
  return t.getMap().count(id) ? 1 : 0;
}'''),
dict(id='unix_dead_client_connected', prop='P03', needs='the peer dies after the header of a message and before its end',
 breaks='the client acts on a message it never completely received',
 edits=[('scalopus_transport/src/protocol.cpp','  // Finally, read the data.\n  if (readData(fd, length_data, incoming.data))\n  {\n    return true;\n  }\n\n  return false;','  // Finally, read the data, the header already told us there is a message.\n  return readData(fd, length_data, incoming.data) || !incoming.data.empty();')],
 demo=COMMON+r'''
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  std::atomic<int> calls{ 0 };
  auto e = std::make_shared<Ep>("echo"); e->h = [&](const Data& r, Data& o) { calls++; o = r; return true; }; s->addEndpoint(e);
  int fd = raw(); CHECK(fd > 0);
  std::string m; size_t id = 7; uint16_t nl = 4; uint32_t dl = 100;
  m.append((char*)&id, 8).append((char*)&nl, 2).append("echo").append((char*)&dl, 4).append(std::string(50, 'z'));
  CHECK(write(fd, m.data(), m.size()) == (ssize_t)m.size()); close(fd);
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  CHECK(calls == 0);
}'''),
]
