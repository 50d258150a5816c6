// P29: the unix transport copes with any descriptors and children of the program.  Real sockets and real processes: every case is
// a process of its own (with helper processes), in which descriptors are opened and closed first.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <scalopus_transport/transport_unix.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "en.h"
using namespace scalopus;
using std::chrono::milliseconds;

// ---- another program ------------------------------------------------------------------------------------------------
// Started with P29_FD: reports which sockets it has, then lives until it is killed.
static const char* const kOther = "p29_other_program";
__attribute__((constructor(101))) static void other_program(int argc, char** argv, char**)
{
  if (argc != 2 || strcmp(argv[0], kOther))
    return;
  prctl(PR_SET_PDEATHSIG, 0);
  alarm(100);
  int out = atoi(argv[1]), n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (dirent* e = d ? readdir(d) : nullptr)
  {
    struct stat st;
    if (e->d_name[0] != '.' && atoi(e->d_name) != out && fstat(atoi(e->d_name), &st) == 0 && S_ISSOCK(st.st_mode))
      n++;
  }
  if (d)
    closedir(d);
  char c = (char)n;
  if (write(out, &c, 1) != 1)
    _exit(1);
  close(out);
  while (true)
    pause();
}

// ---- cases ----------------------------------------------------------------------------------------------------------
struct Verdict
{
  bool done, bad;
  char msg[2000];
};
static Verdict* verdict = nullptr;
// what the processes of a case hold against each other
[[noreturn]] static void broken(const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  vsnprintf(verdict->msg, sizeof verdict->msg, f, ap);
  va_end(ap);
  verdict->bad = true;
  _exit(1);
}
#define REQUIRE(c, ...)    \
  do                       \
  {                        \
    if (!(c))              \
      broken(__VA_ARGS__); \
  } while (0)
// runs a case in a process (and process group) of its own
static void isolated(const std::string& what, std::function<void()> f)
{
  if (!verdict)
    verdict = (Verdict*)mmap(nullptr, sizeof(Verdict), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(verdict, 0, sizeof *verdict);
  pid_t p = fork();
  if (p == 0)
  {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(60);
    f();
    verdict->done = true;
    _exit(0);
  }
  setpgid(p, p);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  kill(-p, SIGKILL);  // what is left of the case
  if (verdict->bad)
    en::fail("%s (%s)", verdict->msg, what.c_str());
  if (!verdict->done)
    en::fail("%s (%s)", WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM ? "the program hangs" : "the program is killed by a signal" : "the program ends", what.c_str());
}
// the descriptors of this process, with what they are
static std::map<int, std::string> descriptors()
{
  std::map<int, std::string> r;
  DIR* d = opendir("/proc/self/fd");
  while (dirent* e = d ? readdir(d) : nullptr)
  {
    int fd = atoi(e->d_name);
    char b[300];
    ssize_t n = e->d_name[0] == '.' || fd == dirfd(d) ? -1 : readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
    if (n >= 0)
      r[fd] = std::string(b, (size_t)n);
  }
  if (d)
    closedir(d);
  return r;
}
static bool until(const std::function<bool()>& f, int ms = 15000)
{
  auto t = std::chrono::steady_clock::now() + milliseconds(ms);
  while (!f())
  {
    if (std::chrono::steady_clock::now() > t)
      return false;
    usleep(1000);
  }
  return true;
}
class Echo : public Endpoint
{
public:
  std::string getName() const override { return "echo"; }
  bool handle(Transport&, const Data& in, Data& out) override
  {
    out = in;
    out.push_back(0x55);
    return true;
  }
  bool unsolicited(Transport&, const Data& in, Data&) override
  {
    std::lock_guard<std::mutex> l(m);
    got.push_back(in);
    return false;
  }
  size_t count()
  {
    std::lock_guard<std::mutex> l(m);
    return got.size();
  }
  std::mutex m;
  std::vector<Data> got;
};
struct Client
{
  Transport::Ptr t;
  std::shared_ptr<Echo> e = std::make_shared<Echo>();
  bool live = false;  // connected to the server there is
};
// 1: right answer, 0: an exception, -1: no answer in time
static int ask(const Transport::Ptr& t, uint8_t x, int ms = 15000)
{
  try
  {
    auto f = t->request("echo", { x, 1, 2 });
    if (f->wait_for(milliseconds(ms)) != std::future_status::ready)
      return -1;
    Data d = f->get();
    REQUIRE((d == Data{ x, 1, 2, 0x55 }), "a request of 3 bytes is answered with %zu wrong ones", d.size());
    return 1;
  }
  catch (const communication_error&)
  {
    return 0;
  }
}
// One server and two clients of this very process.
struct World
{
  TransportUnixFactory f;
  Transport::Ptr server;
  Client c[2];
  uint8_t next = 0;
  std::string at;
  Destination::Ptr address()
  {
    for (auto& d : f.discover())
      if (std::string(*d) == "<unix:" + std::to_string(getpid()) + ">")
        return d;
    return nullptr;
  }
  void serve(bool must)
  {
    server = f.serve();
    REQUIRE(server || !must, "%s: serving fails", at.c_str());
    if (server)
    {
      server->addEndpoint(std::make_shared<Echo>());
      REQUIRE(server->isConnected(), "%s: the new server is not connected", at.c_str());
      REQUIRE(std::string(*server->getAddress()) == "<unix:" + std::to_string(getpid()) + ">", "%s: the server has address %s", at.c_str(), std::string(*server->getAddress()).c_str());
    }
  }
  void connect(int i, bool must)
  {
    static Destination::Ptr known;
    if (server)
      known = server->getAddress();
    if (!known)
      return;
    c[i].t = f.connect(known);
    c[i].live = c[i].t != nullptr;
    REQUIRE(c[i].t || !must || !server, "%s: connecting fails", at.c_str());
    REQUIRE(!c[i].t || server, "%s: connected to a server that does not exist", at.c_str());
    if (c[i].t)
    {
      c[i].e = std::make_shared<Echo>();
      c[i].t->addEndpoint(c[i].e);
      REQUIRE(c[i].t->isConnected(), "%s: the new client is not connected", at.c_str());
    }
  }
  // every client that is certainly connected is answered and gets broadcasts
  void healthy(bool all)
  {
    if (!server)
      return;
    for (auto& x : c)
      if (x.t && x.live && all)
        REQUIRE(ask(x.t, next++) == 1, "%s: a request is not answered", at.c_str());
    std::vector<std::pair<Client*, size_t>> want;
    for (auto& x : c)
      if (x.t && x.live && all)
        want.push_back({ &x, x.e->count() + 1 });
    server->broadcast("echo", { next++ });
    for (auto& w : want)
      REQUIRE(until([&] { return w.first->e->count() >= w.second; }), "%s: a broadcast does not arrive", at.c_str());
    for (auto& w : want)
      REQUIRE(w.first->e->count() == w.second, "%s: %zu broadcasts arrived instead of %zu", at.c_str(), w.first->e->count(), w.second);
  }
  // a server that is gone is noticed by its clients, which use no descriptor any more
  void stop()
  {
    server.reset();
    for (auto& x : c)
      if (x.t)
      {
        x.live = false;
        REQUIRE(until([&] { return !x.t->isConnected(); }), "%s: the end of the server is not noticed", at.c_str());
        REQUIRE(ask(x.t, 0) == 0, "%s: a request without a server does not fail", at.c_str());
      }
  }
};
static const char* const kOps[] = { "serve", "connect 0", "connect 1", "close 0", "close 1", "stop" };
static void script(World& w, const std::vector<int>& ops, bool must, const std::function<bool()>& all)
{
  for (int op : ops)
  {
    w.at = kOps[op];
    if (op == 0 && !w.server)
      w.serve(must);
    if (op == 1 || op == 2)
    {
      if (w.c[op - 1].t)
        continue;
      w.connect(op - 1, must);
    }
    if (op == 3 || op == 4)
      w.c[op - 3].t.reset();
    if (op == 5)
      w.stop();
    w.healthy(all());
  }
}
static std::string text(const std::vector<int>& ops)
{
  std::string s;
  for (int o : ops)
    s += std::string(s.empty() ? "" : ", ") + kOps[o];
  return s;
}
// all scripts that start by serving, without steps that do nothing
static std::vector<std::vector<int>> scripts(int steps)
{
  std::vector<std::vector<int>> r;
  std::function<void(std::vector<int>&, bool, int)> go = [&](std::vector<int>& v, bool server, int clients) {
    if ((int)v.size() == steps)
    {
      r.push_back(v);
      return;
    }
    for (int op = 0; op < 6; op++)
    {
      if ((op == 0 && server) || (op == 5 && !server) || ((op == 1 || op == 2) && ((clients >> (op - 1)) & 1)) || ((op == 3 || op == 4) && !((clients >> (op - 3)) & 1)))
        continue;
      if ((op == 1 || op == 2) && !server)
        continue;
      if (op == 2 && !(clients & 1))  // which of them comes first does not matter
        continue;
      v.push_back(op);
      go(v, op == 0 ? true : op == 5 ? false : server, op == 1 || op == 2 ? clients | op : op == 3 || op == 4 ? clients & ~(op - 2) : clients);
      v.pop_back();
    }
  };
  std::vector<int> v = { 0 };
  go(v, true, 0);
  return r;
}
static void unchanged(const std::map<int, std::string>& before, const char* what)
{
  auto after = descriptors();
  for (auto& d : before)
    REQUIRE(after.count(d.first) && after[d.first] == d.second, "%s: descriptor %d of the program was %s and is now %s", what, d.first, d.second.c_str(), after.count(d.first) ? after[d.first].c_str() : "closed");
  for (auto& d : after)
    REQUIRE(before.count(d.first), "%s: descriptor %d (%s) is left behind", what, d.first, d.second.c_str());
}
// descriptors 0 to 2 as the mask says: closed, or a socket of which the other end must stay empty
struct Standard
{
  int peer[3] = { -1, -1, -1 };
  int mask;
  explicit Standard(int m, bool now = true) : mask(m)
  {
    for (int i = 0; i < 3; i++)
    {
      close(i);
      if (open("/dev/null", O_RDWR) != i)
        broken("cannot set up descriptor %d", i);
    }
    for (int i = 0; i < 3; i++)
      if (!((mask >> i) & 1))
      {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p) || dup2(p[0], i) != i)
          broken("cannot set up descriptor %d", i);
        close(p[0]);
        peer[i] = fcntl(p[1], F_DUPFD_CLOEXEC, 10);
        close(p[1]);
      }
    if (now)
      close_them();
  }
  void close_them()
  {
    for (int i = 0; i < 3; i++)
      if ((mask >> i) & 1)
        close(i);
  }
  void untouched()
  {
    for (int i = 0; i < 3; i++)
    {
      char b;
      if (peer[i] >= 0)
        REQUIRE(recv(peer[i], &b, 1, MSG_DONTWAIT) < 0 && errno == EAGAIN, "something is written to, or closes, descriptor %d of the program", i);
    }
  }
};
// Whatever descriptors the system hands out first: all subsets of 0 to 2 closed, under all scripts.
EN_CASES(low_descriptors, 3)
{
  for (auto& ops : scripts(c.thorough ? 7 : 5))
    for (int mask = 0; mask < 8; mask++)
    {
      if (!c.next())
        continue;
      std::string what = "descriptors closed: " + std::to_string(mask) + "; " + text(ops);
      c.describe(what);
      c.transitions(ops.size());
      isolated(what, [&] {
        Standard st(mask);
        auto before = descriptors();
        {
          World w;
          w.f.setLogger([](const std::string&) {});
          script(w, ops, true, [] { return true; });
          w.at = "end";
          st.untouched();
        }
        st.untouched();
        unchanged(before, "end");
      });
      c.digest(what);
    }
}
// Server and clients in processes of their own, each of which closes a subset of 0 to 2 before it has a transport, or (the server)
// once it serves: so that every kind of socket gets every number.
EN_CASES(low_descriptors_apart, 3)
{
  for (int smask = 0; smask < 8; smask++)
    for (int late = 0; late < 2; late++)
      for (int cmask = 0; cmask < 8; cmask++)
        for (int leaves = 0; leaves < 3; leaves++)
        {
          if (!c.next())
            continue;
          std::string what = "the server closes descriptors " + std::to_string(smask) + (late ? " once it serves" : " first") + ", the client process " + std::to_string(cmask) +
                             (leaves ? "; client " + std::to_string(leaves - 1) + " leaves and returns" : "");
          c.describe(what);
          c.transitions(5);
          isolated(what, [&] {
            int cmd[2], rep[2];
            if (pipe2(cmd, O_CLOEXEC) || pipe2(rep, O_CLOEXEC))
              broken("cannot make a pipe");
            for (int* fd : { &cmd[0], &cmd[1], &rep[0], &rep[1] })
            {
              int high = fcntl(*fd, F_DUPFD_CLOEXEC, 20);
              close(*fd);
              *fd = high;
            }
            pid_t s = fork();
            if (s == 0)
            {
              prctl(PR_SET_PDEATHSIG, SIGKILL);
              close(cmd[1]);
              close(rep[0]);
              Standard st(smask, !late);
              auto before = descriptors();
              TransportUnixFactory f;
              f.setLogger([](const std::string&) {});
              auto t = f.serve();
              REQUIRE(t, "cannot serve");
              t->addEndpoint(std::make_shared<Echo>());
              if (late)
              {
                st.close_them();
                for (int i = 0; i < 3; i++)
                  if ((smask >> i) & 1)
                    before.erase(i);
              }
              char x = 0;
              uint8_t n = 0;
              do
              {
                if (x == 'b')
                  t->broadcast("echo", { n++ });
                if (x == 'e')
                {
                  t.reset();
                  st.untouched();
                  unchanged(before, "the server at its end");
                }
                if (write(rep[1], &x, 1) != 1)
                  _exit(1);
              } while (read(cmd[0], &x, 1) == 1);
              _exit(0);
            }
            close(cmd[0]);
            close(rep[1]);
            auto reply = [&] {
              char y;
              if (read(rep[0], &y, 1) != 1)
              {
                if (verdict->bad)
                  _exit(1);
                broken("the server process ended");
              }
            };
            auto tell = [&](char x) {
              if (write(cmd[1], &x, 1) != 1)
                _exit(1);
              reply();
            };
            reply();
            Standard st(cmask);
            auto before = descriptors();
            {
              TransportUnixFactory f;
              f.setLogger([](const std::string&) {});
              Destination::Ptr d;
              for (auto& x : f.discover())
                if (std::string(*x) == "<unix:" + std::to_string(s) + ">")
                  d = x;
              REQUIRE(d, "the server is not discovered");
              Client cl[2];
              uint8_t n = 0;
              auto check = [&] {
                for (auto& x : cl)
                  if (x.t)
                    REQUIRE(ask(x.t, n++) == 1, "a request is not answered");
                size_t want[2] = { cl[0].e->count() + 1, cl[1].e->count() + 1 };
                tell('b');
                for (int i = 0; i < 2; i++)
                  if (cl[i].t)
                    REQUIRE(until([&] { return cl[i].e->count() >= want[i]; }), "a broadcast does not arrive");
                st.untouched();
              };
              auto connect = [&](int i) {
                cl[i].t = f.connect(d);
                REQUIRE(cl[i].t, "connecting fails");
                cl[i].t->addEndpoint(cl[i].e);
                check();
              };
              connect(0);
              connect(1);
              if (leaves)
              {
                cl[leaves - 1].t.reset();
                check();
                connect(leaves - 1);
              }
              tell('e');
              for (auto& x : cl)
              {
                REQUIRE(until([&] { return !x.t->isConnected(); }), "the end of the server is not noticed");
                REQUIRE(ask(x.t, 0) == 0, "a request without a server does not fail");
              }
            }
            st.untouched();
            unchanged(before, "the clients at their end");
          });
          c.digest(what);
        }
}
static void pad(int upto, std::vector<int>& pads)
{
  int n = open("/dev/null", O_RDWR | O_CLOEXEC);
  while (n >= 0 && n < upto)
  {
    pads.push_back(n);
    n = open("/dev/null", O_RDWR | O_CLOEXEC);
  }
  if (n >= 0)
    close(n);
}
static bool limit(rlim_t n)
{
  struct rlimit l;
  getrlimit(RLIMIT_NOFILE, &l);
  l.rlim_cur = n;
  return n <= l.rlim_max && setrlimit(RLIMIT_NOFILE, &l) == 0;
}
// The next descriptors are around the size of an fd_set, and far beyond.
EN_CASES(high_descriptors, 3)
{
  for (auto& ops : scripts(c.thorough ? 6 : 4))
    for (int base : { FD_SETSIZE - 7, FD_SETSIZE - 6, FD_SETSIZE - 5, FD_SETSIZE - 4, FD_SETSIZE - 3, FD_SETSIZE - 2, FD_SETSIZE - 1, FD_SETSIZE, FD_SETSIZE + 400 })
    {
      if (!c.next())
        continue;
      std::string what = "next descriptor " + std::to_string(base) + "; " + text(ops);
      c.describe(what);
      c.transitions(ops.size());
      isolated(what, [&] {
        if (!limit(FD_SETSIZE + 800))
          return;  // not possible here
        std::vector<int> pads;
        pad(base, pads);
        auto before = descriptors();
        {
          World w;
          w.f.setLogger([](const std::string&) {});
          // sockets whose numbers certainly fit work
          script(w, ops, false, [&] { return base <= FD_SETSIZE - 6; });
          w.at = "end";
          // after making room everything works, on every server that exists
          for (int i = 900; i < 920; i++)
            close(i);
          for (auto& x : w.c)
            x.t.reset();
          if (!w.server)
            w.serve(true);
          w.connect(0, true);
          w.connect(1, true);
          w.healthy(true);
          for (int i = 900; i < 920; i++)
            before.erase(i);
        }
        unchanged(before, "end");
      });
      c.digest(what);
    }
}
// No descriptors are left from some moment on: who is connected is served on, and later everything works again.
EN_CASES(exhausted, 3)
{
  for (auto& ops : scripts(c.thorough ? 6 : 4))
    for (int left = 0; left < 7; left++)
      for (size_t when = 0; when <= ops.size() - 1; when++)
      {
        if (!c.next())
          continue;
        std::string what = std::to_string(left) + " descriptors left from step " + std::to_string(when) + "; " + text(ops);
        c.describe(what);
        c.transitions(ops.size());
        isolated(what, [&] {
          auto before = descriptors();
          {
            World w;
            w.f.setLogger([](const std::string&) {});
            script(w, std::vector<int>(ops.begin(), ops.begin() + (long)when), true, [] { return true; });
            // these are connected
            std::vector<Transport::Ptr> sure;
            for (auto& x : w.c)
              sure.push_back(w.server && x.live ? x.t : nullptr);
            int next = open("/dev/null", O_RDWR);
            close(next);
            // leave a number of descriptors above the lowest free one
            std::vector<int> fill;
            auto have = descriptors();
            int top = next, n = left;
            while (n > 0)
              n -= have.count(top++) ? 0 : 1;
            limit((rlim_t)top);
            for (size_t i = when; i < ops.size(); i++)
            {
              int op = ops[i];
              w.at = std::string(kOps[op]) + " without descriptors";
              if (op == 0 && !w.server)
                w.serve(false);
              if ((op == 1 || op == 2) && !w.c[op - 1].t)
                w.connect(op - 1, false);
              if (op == 3 || op == 4)
              {
                w.c[op - 3].t.reset();
                sure[(size_t)op - 3].reset();
              }
              if (op == 5)
              {
                w.server.reset();
                w.c[0].live = w.c[1].live = false;
                sure.assign(2, nullptr);
              }
              for (auto& t : sure)
                if (t)
                  REQUIRE(ask(t, w.next++) == 1, "%s: a request of a connected client is not answered", w.at.c_str());
              if (w.server)
              {
                std::vector<std::pair<Client*, size_t>> want;
                for (size_t k = 0; k < 2; k++)
                  if (sure[k])
                    want.push_back({ &w.c[k], w.c[k].e->count() + 1 });
                w.server->broadcast("echo", { w.next++ });
                for (auto& x : want)
                  REQUIRE(until([&] { return x.first->e->count() >= x.second; }), "%s: a broadcast to a connected client does not arrive", w.at.c_str());
              }
            }
            // there is room again: who could connect is served, and who could not can connect
            limit(FD_SETSIZE);
            w.at = "with descriptors again";
            if (w.server)
              for (auto& x : w.c)
                if (x.t && x.live)
                  REQUIRE(ask(x.t, w.next++) == 1, "%s: a request is not answered", w.at.c_str());
            for (auto& x : w.c)
              x.t.reset();
            if (!w.server)
              w.serve(true);
            w.connect(0, true);
            w.connect(1, true);
            w.healthy(true);
          }
          unchanged(before, "end");
        });
        c.digest(what);
      }
}
// ---- children -------------------------------------------------------------------------------------------------------
// Starts the other program, as any code of the process might; returns the number of sockets it has.
static int start_other(pid_t& p)
{
  int fds[2];
  if (pipe(fds))
    broken("cannot make a pipe");
  fcntl(fds[0], F_SETFD, FD_CLOEXEC);
  std::string out = std::to_string(fds[1]);
  char* const argv[] = { (char*)kOther, (char*)out.c_str(), nullptr };
  p = fork();
  if (p == 0)
  {
    execv("/proc/self/exe", argv);
    _exit(1);
  }
  close(fds[1]);
  char n = -1;
  ssize_t r = read(fds[0], &n, 1);
  close(fds[0]);
  if (r != 1)
    broken("the other program does not start");
  return n;
}
static void own_sockets_off()
{
  // what the checker itself may have handed down
  for (auto& d : descriptors())
    if (d.first > 2)
      fcntl(d.first, F_SETFD, FD_CLOEXEC);
}
// A server (client) process starts another program at some moment, and ends in some way while that program lives on.
EN_CASES(children, 3)
{
  static const char* const WHEN[] = { "before serving", "after serving", "with a client", "with two clients", "after a client left" };
  static const char* const HOW[] = { "destroys its server", "exits", "is killed" };
  for (int when = 0; when < 5; when++)
    for (int how = 0; how < 3; how++)
      for (int again = 0; again < 2; again++)
        for (int progs = 1; progs < 3; progs++)
        {
          if (!c.next())
            continue;
          std::string what = std::string("a server that started ") + std::to_string(progs) + " program(s) " + WHEN[when] + " " + HOW[how] + (again ? ", then serves again" : "");
          c.describe(what);
          c.transitions(6);
          isolated(what, [&] {
            for (int i = 0; i < 3; i++)
            {
              close(i);
              open("/dev/null", O_RDWR);
            }
            own_sockets_off();
            int cmd[2], rep[2];
            if (pipe(cmd) || pipe(rep))
              broken("cannot make a pipe");
            pid_t s = fork();
            if (s == 0)
            {
              prctl(PR_SET_PDEATHSIG, SIGKILL);
              for (int fd : { cmd[0], cmd[1], rep[0], rep[1] })
                fcntl(fd, F_SETFD, FD_CLOEXEC);
              close(cmd[1]);
              close(rep[0]);
              TransportUnixFactory f;
              Transport::Ptr t;
              char x;
              while (read(cmd[0], &x, 1) == 1)
              {
                if (x == 's')
                {
                  t = f.serve();
                  REQUIRE(t, "cannot serve");
                  t->addEndpoint(std::make_shared<Echo>());
                }
                else if (x == 'o')
                {
                  pid_t p;
                  int n = start_other(p);
                  REQUIRE(n == 0, "a program started by the server process has %d of its sockets", n);
                }
                else if (x == 'd')
                  t.reset();
                else if (x == 'x')
                  _exit(0);
                else if (x == 'b')
                  t->broadcast("echo", { 7 });
                if (write(rep[1], &x, 1) != 1)
                  _exit(1);
              }
              _exit(0);
            }
            close(cmd[0]);
            close(rep[1]);
            auto tell = [&](char x) {
              char y;
              if (write(cmd[1], &x, 1) != 1 || (x != 'x' && read(rep[0], &y, 1) != 1))
              {
                if (verdict->bad)
                  _exit(1);
                broken("the server process ended");
              }
            };
            auto others = [&](int w) {
              if (w == when)
                for (int i = 0; i < progs; i++)
                  tell('o');
            };
            TransportUnixFactory f;
            f.setLogger([](const std::string&) {});
            auto find = [&]() -> Destination::Ptr {
              for (auto& d : f.discover())
                if (std::string(*d) == "<unix:" + std::to_string(s) + ">")
                  return d;
              return nullptr;
            };
            Client cl[2];
            auto connect = [&](int i) {
              auto d = find();
              REQUIRE(d, "the server is not discovered");
              cl[i].t = f.connect(d);
              REQUIRE(cl[i].t && ask(cl[i].t, (uint8_t)i) == 1, "the server does not serve");
            };
            others(0);
            tell('s');
            auto address = find();
            REQUIRE(address, "the server is not discovered");
            others(1);
            connect(0);
            others(2);
            connect(1);
            others(3);
            if (when == 4)
            {
              cl[1].t.reset();
              others(4);
              connect(1);
            }
            tell(how == 0 ? 'd' : 'b');
            if (how == 1)
              tell('x');
            if (how == 2)
              kill(s, SIGKILL);
            if (how)
              waitpid(s, nullptr, 0);
            for (auto& x : cl)
            {
              REQUIRE(until([&] { return !x.t->isConnected(); }), "the client does not notice that the server is gone");
              REQUIRE(ask(x.t, 1) == 0, "a request to a server that is gone does not fail");
            }
            REQUIRE(!find(), "the server that is gone is discovered");
            REQUIRE(!f.connect(address), "connected to a server that is gone");
            if (again && how == 0)
            {
              tell('s');
              connect(0);
              tell('x');
              waitpid(s, nullptr, 0);
            }
          });
          c.digest(what);
        }
}
// The program on the side of the client: the server notices that the client is gone and frees its descriptors.
EN_CASES(children_of_clients, 3)
{
  for (int how = 0; how < 3; how++)
    for (int progs = 0; progs < 3; progs++)
      for (int others = 0; others < 2; others++)
      {
        if (!c.next())
          continue;
        std::string what = "a client that started " + std::to_string(progs) + " program(s) ends in way " + std::to_string(how) + (others ? " beside another client" : "");
        c.describe(what);
        c.transitions(5);
        isolated(what, [&] {
          for (int i = 0; i < 3; i++)
          {
            close(i);
            open("/dev/null", O_RDWR);
          }
          own_sockets_off();
          TransportUnixFactory f;
          f.setLogger([](const std::string&) {});
          int cmd[2], rep[2];
          if (pipe(cmd) || pipe(rep))
            broken("cannot make a pipe");
          pid_t me = getpid();
          pid_t s = fork();
          if (s == 0)
          {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int fd : { cmd[0], cmd[1], rep[0], rep[1] })
              fcntl(fd, F_SETFD, FD_CLOEXEC);
            close(cmd[1]);
            close(rep[0]);
            char x;
            if (read(cmd[0], &x, 1) != 1)
              _exit(0);
            TransportUnixFactory g;
            Transport::Ptr t;
            for (auto& d : g.discover())
              if (std::string(*d) == "<unix:" + std::to_string(me) + ">")
                t = g.connect(d);
            REQUIRE(t && ask(t, 3) == 1, "the server does not serve");
            for (int i = 0; i < progs; i++)
            {
              pid_t p;
              int n = start_other(p);
              REQUIRE(n == 0, "a program started by the client process has %d of its sockets", n);
            }
            if (how == 0)
              t.reset();
            if (write(rep[1], &x, 1) != 1)
              _exit(1);
            if (how == 2)
              pause();
            if (how == 0)
              while (read(cmd[0], &x, 1) == 1)
                ;
            _exit(0);
          }
          close(cmd[0]);
          close(rep[1]);
          auto server = f.serve();
          REQUIRE(server, "cannot serve");
          server->addEndpoint(std::make_shared<Echo>());
          Client other;
          if (others)
          {
            other.t = f.connect(server->getAddress());
            REQUIRE(other.t && ask(other.t, 1) == 1, "the server does not serve");
            other.t->addEndpoint(other.e);
          }
          auto before = descriptors();
          char x = 'g';
          if (write(cmd[1], &x, 1) != 1 || read(rep[0], &x, 1) != 1)
          {
            if (verdict->bad)
              _exit(1);
            broken("the client process ended");
          }
          if (how == 2)
            kill(s, SIGKILL);
          REQUIRE(until([&] { return descriptors().size() == before.size(); }), "the server keeps the connection of a client that is gone");
          // far more than any socket holds
          for (int i = 0; i < 8; i++)
            server->broadcast("echo", Data(100000, 1));
          if (others)
          {
            REQUIRE(ask(other.t, 2) == 1, "a request is not answered");
            REQUIRE(until([&] { return other.e->count() == 8; }), "broadcasts do not arrive");
          }
          unchanged(before, "after the client left");
        });
        c.digest(what);
      }
}
