// P26: the LTTng consumer's babeltrace process.  The real subprocess class and BabeltraceTool run this program's own binary
// as "babeltrace" and "lttng"; what that process does is enumerated, and so are the operations on the tool and failing
// system calls.  Signals only reach processes that were started by the case.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <scalopus_tracing/babeltrace_tool.h>
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/lttng_source.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <chrono>
#include <cstring>
#include <fstream>
#include <mutex>
#include <sstream>
#include <thread>
#include "en.h"
using namespace scalopus;

// ---- the process that is started ------------------------------------------------------------------------------------
static const int kBurst = 3000;
static const int kLong[] = { 1000, 1023, 1024, 1025, 5000, 70000, 200000 };
static std::string line(int id, size_t length = 0)
{
  std::string s = "[1.000000001] host scalopus_scope_id:entry: { cpu_id = 3 }, { vpid = 7, pthread_id = 8 }, { id = " + std::to_string(id);
  for (int i = 0; s.size() + 20 < length; i++)
    s += ", f" + std::to_string(i) + " = 1";
  while (s.size() + 2 < length)
    s += ' ';
  return s + " }\n";
}
static void put(int fd, const std::string& s)
{
  size_t n = 0;
  while (n < s.size())
  {
    ssize_t k = write(fd, s.data() + n, s.size() - n);
    if (k <= 0)
      return;
    n += (size_t)k;
  }
}
static void act(int argc, char** argv, const char* script)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  alarm(100);
  std::string dir = getenv("P26_DIR"), args;
  char which = '0';
  for (int i = 0; i < argc; i++)
  {
    args += std::string(argv[i]) + "\n";
    for (size_t p = 0; (p = std::string(argv[i]).find("session", p)) != std::string::npos; p++)
      which = argv[i][p + 7];
  }
  int fd = open((dir + "/args" + which).c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
  put(fd, args + "--\n");
  close(fd);
  if (DIR* d = opendir("/proc/self/fd"))
  {
    std::string extra;
    struct stat st;
    while (dirent* e = readdir(d))
      if (atoi(e->d_name) > 2 && atoi(e->d_name) != dirfd(d) && fstat(atoi(e->d_name), &st) == 0 && S_ISFIFO(st.st_mode))
        extra += std::string(" ") + e->d_name;
    closedir(d);
    if (!extra.empty())
      close(open((dir + "/extra").c_str(), O_CREAT | O_WRONLY, 0600));
  }
  int id = 0;
  for (const char* c = script; *c; c++)
    switch (*c)
    {
      case 'e':
        put(1, line(++id));
        break;
      case 'n':
        for (int i = 0; i < kBurst; i++)
          put(1, line(++id));
        break;
      case 'L':
        for (int n : kLong)
          put(1, line(++id, (size_t)n));
        break;
      case 'E':
        put(2, std::string(100000, 'x') + "\n");
        break;
      case 'i':
        signal(SIGINT, SIG_IGN);
        break;
      case 'c':
        close(1);
        break;
      case 'g':
        while (access((dir + "/go" + which).c_str(), F_OK) != 0)
          usleep(1000);
        break;
      case 'x':
        _exit(0);
      case 'k':
        syscall(SYS_kill, getpid(), SIGKILL);
        break;
      case 'r':
      {
        char b;
        while (read(0, &b, 1) > 0)
          ;
        _exit(0);
      }
      case 'w':
        while (true)
          pause();
    }
  _exit(0);
}
__attribute__((constructor(101))) static void other_program(int argc, char** argv, char**)
{
  const char* b = strrchr(argv[0], '/');
  b = b ? b + 1 : argv[0];
  const char* s = getenv("P26_ACT");
  if (s && (!strcmp(b, "babeltrace") || !strcmp(b, "lttng")))
    act(argc, argv, s);
}

// ---- system calls ---------------------------------------------------------------------------------------------------
struct Sys
{
  int fail_pipe = 0;   // the n-th pipe from now fails
  bool fail_fork = false;
  std::vector<pid_t> started;
  std::string bad;
};
static Sys sys_;
static bool armed = false, copy_of_program = false;
static char* shared_flag = nullptr;  // a started process went on with this program
static void went_on()
{
  if (copy_of_program)
  {
    *shared_flag = 1;
    _exit(99);
  }
}
extern "C" pid_t fork()
{
  static pid_t (*real)() = (pid_t(*)())dlsym(RTLD_NEXT, "fork");
  went_on();
  if (!armed)
    return real();
  if (sys_.fail_fork)
  {
    sys_.fail_fork = false;
    errno = EAGAIN;
    return -1;
  }
  pid_t p = real();
  if (p == 0)
  {
    copy_of_program = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
  }
  else
    sys_.started.push_back(p);
  return p;
}
static int make_pipe(int* fds, int flags)
{
  went_on();
  if (armed && sys_.fail_pipe && --sys_.fail_pipe == 0)
  {
    errno = EMFILE;
    return -1;
  }
  return (int)syscall(SYS_pipe2, fds, flags);
}
extern "C" int pipe(int fds[2]) noexcept
{
  return make_pipe(fds, 0);
}
extern "C" int pipe2(int fds[2], int flags) noexcept
{
  return make_pipe(fds, flags);
}
extern "C" int kill(pid_t pid, int sig) noexcept
{
  went_on();
  if (!armed)
    return (int)syscall(SYS_kill, pid, sig);
  bool ours = false;
  for (pid_t p : sys_.started)
    ours |= p == pid;
  siginfo_t si;
  if (!ours)
    sys_.bad = "kill(" + std::to_string(pid) + ", " + std::to_string(sig) + ") was called, which is no process that was started";
  else if (waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT) != 0)
  {
    struct sigaction sa;
    sigaction(SIGCHLD, nullptr, &sa);
    if (sa.sa_handler != SIG_IGN)
      sys_.bad = "a signal was sent to a process identifier after the process was waited for";
  }
  else
    return (int)syscall(SYS_kill, pid, sig);
  errno = ESRCH;
  return -1;
}

// ---- the world of a case --------------------------------------------------------------------------------------------
static std::string dir;
static void remove_dir()
{
  if (dir.compare(0, 9, "/tmp/p26.") != 0)
    return;
  if (DIR* d = opendir(dir.c_str()))
  {
    while (dirent* e = readdir(d))
      unlink((dir + "/" + e->d_name).c_str());
    closedir(d);
  }
  rmdir((dir + "/none").c_str());
  rmdir(dir.c_str());
}
static void make_dir()
{
  char t[] = "/tmp/p26.XXXXXX", me[PATH_MAX] = { 0 };
  EN_REQUIRE(mkdtemp(t) && readlink("/proc/self/exe", me, sizeof me - 1) > 0, "harness: no scratch directory");
  dir = t;
  EN_REQUIRE(symlink(me, (dir + "/babeltrace").c_str()) == 0 && symlink(me, (dir + "/lttng").c_str()) == 0 && mkdir((dir + "/none").c_str(), 0700) == 0, "harness: scratch");
  setenv("P26_DIR", dir.c_str(), 1);
  if (!shared_flag)
    shared_flag = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *shared_flag = 0;
}
static size_t entries(const char* path)
{
  size_t n = 0;
  DIR* d = opendir(path);
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static std::string descriptors()
{
  std::string r;
  DIR* d = opendir("/proc/self/fd");
  while (dirent* e = readdir(d))
  {
    char b[300];
    const ssize_t n = e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d) ? -1 : readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
    if (n >= 0)
      r += std::string(e->d_name) + "=" + std::string(b, (size_t)n) + " ";
  }
  closedir(d);
  return r;
}
static bool within(double s, const std::function<bool()>& f)
{
  auto t0 = std::chrono::steady_clock::now();
  while (!f())
  {
    if (std::chrono::steady_clock::now() - t0 > std::chrono::duration<double>(s))
      return false;
    usleep(500);
  }
  return true;
}
struct Script
{
  std::string s;
  // events that are printed without a go, and in total
  int events(bool go) const
  {
    int n = 0;
    for (char c : s)
    {
      if (c == 'e')
        n++;
      if (c == 'n')
        n += kBurst;
      if (c == 'L')
        n += (int)(sizeof kLong / sizeof *kLong);
      if (c == 'c' || (c == 'g' && !go))
        break;
    }
    return n;
  }
  bool ends() const { return s.back() == 'x' || s.back() == 'k'; }
};
struct Case
{
  std::string ops;     // letters, each followed by the number of the tool
  Script script;
  std::string path;    // with a slash: given to babeltrace, otherwise the name of a session
  std::string fault;   // "", "missing", "pipe1".., "fork"
  std::string signals; // "", "ignored", "blocked", "children"
  std::string desc;    // "", "closed" and a subset of 0 to 2, "next" and the next descriptors that the system hands out
  std::string show() const { return ops + " process " + script.s + " path " + path + (fault.empty() ? "" : " fault " + fault) + (signals.empty() ? "" : " signals " + signals) + (desc.empty() ? "" : " descriptors " + desc); }
};
struct Tool
{
  std::unique_ptr<BabeltraceTool> t;
  std::shared_ptr<BabeltraceParser::EventCallback> cb;
  std::mutex m;
  std::vector<int> got;
  bool running = false, go = false, failed = false, subscribed = false, from_start = false;
  size_t inits = 0;
  pid_t pid = 0;
};
static void check_gone(const Case& k, pid_t pid, const char* what)
{
  if (pid <= 0)
    return;
  siginfo_t si;
  memset(&si, 0, sizeof si);
  int r = waitid(P_PID, (id_t)pid, &si, WEXITED | WNOHANG | WNOWAIT);
  int e = errno;
  if (r == 0)
  {
    syscall(SYS_kill, pid, SIGKILL);
    waitpid(pid, nullptr, 0);
    en::fail("%s: after %s the process %s", k.show().c_str(), what, si.si_pid == pid ? "is left as a zombie" : "is still running");
  }
  EN_REQUIRE(e == ECHILD, "harness: waitid %d", e);
}
static void check_events(const Case& k, Tool& t, int at_least, int at_most)
{
  std::lock_guard<std::mutex> l(t.m);
  const int first = t.from_start || t.got.empty() ? 1 : t.got[0];  // who comes late misses what was read already
  for (size_t i = 0; i < t.got.size(); i++)
    EN_REQUIRE(t.got[i] == (int)i + first, "%s: event %zu delivered is number %d", k.show().c_str(), i, t.got[i]);
  EN_REQUIRE((int)t.got.size() >= at_least, "%s: %zu events delivered of %d", k.show().c_str(), t.got.size(), at_least);
  EN_REQUIRE((int)t.got.size() <= at_most, "%s: %zu events delivered, only %d were printed", k.show().c_str(), t.got.size(), at_most);
}
static void execute(en::Ctx& c, const Case& k)
{
  c.describe(k.show());
  make_dir();
  struct Cleanup
  {
    int saved[3];
    std::vector<int> pads;
    Cleanup()
    {
      for (int i = 0; i < 3; i++)
        saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 30);
    }
    void restore()
    {
      for (int i = 0; i < 3; i++)
        if (saved[i] >= 0)
        {
          dup2(saved[i], i);
          close(saved[i]);
          saved[i] = -1;
        }
      for (int fd : pads)
        close(fd);
      pads.clear();
    }
    ~Cleanup()
    {
      armed = false;
      restore();
      for (pid_t p : sys_.started)
      {
        siginfo_t si;
        if (waitid(P_PID, (id_t)p, &si, WEXITED | WNOHANG | WNOWAIT) == 0)
        {
          syscall(SYS_kill, p, SIGKILL);
          waitpid(p, nullptr, 0);
        }
      }
      remove_dir();
    }
  } cleanup;
  static const std::string old_path = getenv("PATH");
  setenv("P26_ACT", k.script.s.c_str(), 1);
  setenv("PATH", (k.fault == "missing" ? dir + "/none" : dir + ":" + old_path).c_str(), 1);
  signal(SIGINT, k.signals == "ignored" ? SIG_IGN : SIG_DFL);
  signal(SIGCHLD, k.signals == "children" ? SIG_IGN : SIG_DFL);
  signal(SIGPIPE, SIG_DFL);
  sigset_t set, old;
  sigemptyset(&set);
  sigaddset(&set, SIGINT);
  sigprocmask(k.signals == "blocked" ? SIG_BLOCK : SIG_UNBLOCK, &set, &old);
  for (int fd = 3; fd < 200; fd++)
    fcntl(fd, F_SETFD, FD_CLOEXEC);  // what the checker handed down
  if (k.desc.compare(0, 6, "closed") == 0)
    for (int i = 0; i < 3; i++)
      if (((k.desc[6] - '0') >> i) & 1)
        close(i);
  if (k.desc.compare(0, 4, "next") == 0)
  {
    const int next = atoi(k.desc.c_str() + 4);
    struct rlimit l;
    getrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = FD_SETSIZE + 600;
    if (l.rlim_cur > l.rlim_max || setrlimit(RLIMIT_NOFILE, &l))
      return;  // not possible here
    int fd;
    while ((fd = open("/dev/null", O_RDWR | O_CLOEXEC)) >= 0 && fd < next)
      cleanup.pads.push_back(fd);
    close(fd);
  }
  sys_ = Sys();
  if (k.fault == "fork")
    sys_.fail_fork = true;
  if (k.fault.compare(0, 4, "pipe") == 0)
    sys_.fail_pipe = k.fault[4] - '0';
  const std::string fds = descriptors();
  size_t threads = entries("/proc/self/task");
  armed = true;
  Tool tools[2];
  bool faulted = false;
  std::string log;
  for (size_t i = 0; i + 1 < k.ops.size(); i += 2)
  {
    Tool& t = tools[k.ops[i + 1] - '0'];
    const char idx = k.ops[i + 1];
    c.transitions(1);
    if (!t.t && k.ops[i] != 'D')
      t.t = std::make_unique<BabeltraceTool>();
    switch (k.ops[i])
    {
      case 'C':
        if (t.subscribed)
          break;
        t.cb = t.t->addCallback([&t](const CTFEvent& e) {
          went_on();
          std::lock_guard<std::mutex> l(t.m);
          t.got.push_back((int)e.eventData().at("id"));
        });
        t.subscribed = true;
        break;
      case 'I':
      {
        const size_t before = sys_.started.size();
        bool fault = !k.fault.empty() && !faulted && !t.running;
        bool thrown = false;
        if (!t.running)
        {
          std::lock_guard<std::mutex> l(t.m);
          t.got.clear();
        }
        try
        {
          t.t->init(k.path + "session" + idx);
        }
        catch (const std::exception& e)
        {
          thrown = true;
        }
        went_on();
        setenv("PATH", (dir + ":" + old_path).c_str(), 1);
        if (thrown && !fault && k.desc.compare(0, 4, "next") == 0)
        {
          // descriptors that are beyond the implementation: nothing happens
          EN_REQUIRE(sys_.started.size() == before, "%s: init failed after it started a process", k.show().c_str());
          break;
        }
        EN_REQUIRE(!thrown || fault, "%s: init failed", k.show().c_str());
        if (t.running)
        {
          EN_REQUIRE(sys_.started.size() == before, "%s: a second process was started", k.show().c_str());
          break;
        }
        faulted = true;
        t.from_start = t.subscribed;
        if (!thrown && k.fault.compare(0, 4, "pipe") == 0)
          fault = fault && !sys_.fail_pipe;  // not that many pipes are needed
        sys_.fail_pipe = 0;
        t.failed = fault;
        const bool started = !fault || k.fault == "missing";
        EN_REQUIRE(sys_.started.size() == before + (started ? 1 : 0), "%s: init started %zu processes", k.show().c_str(), sys_.started.size() - before);
        t.pid = started ? sys_.started.back() : 0;
        t.running = !thrown;
        t.inits += started && !fault;
        t.go = false;
        unlink((dir + "/go" + idx).c_str());
        break;
      }
      case 'G':
        t.go = true;
        close(open((dir + "/go" + idx).c_str(), O_CREAT | O_WRONLY, 0600));
        break;
      case 'W':
        if (t.running && !t.failed && t.from_start)
        {
          const int want = k.script.events(t.go);
          within(20, [&] {
            std::lock_guard<std::mutex> l(t.m);
            return (int)t.got.size() >= want;
          });
          check_events(k, t, want, want);
        }
        break;
      case 'X':  // until the process ended by itself
        if (t.running && (t.failed || k.script.ends()))
          EN_REQUIRE(within(20,
                            [&] {
                              siginfo_t si;
                              memset(&si, 0, sizeof si);
                              return waitid(P_PID, (id_t)t.pid, &si, WEXITED | WNOHANG | WNOWAIT) != 0 || si.si_pid == t.pid;
                            }),
                     "%s: the process did not get to its end", k.show().c_str());
        break;
      case 'H':
      case 'D':
        if (k.ops[i] == 'H')
          t.t->halt();
        else
          t.t.reset();
        went_on();
        check_gone(k, t.pid, k.ops[i] == 'H' ? "halt" : "destruction");
        if (!t.failed && t.running && t.subscribed)
          check_events(k, t, 0, k.script.events(t.go));
        t.pid = 0;
        t.running = t.subscribed = t.failed = false;
        break;
    }
    EN_REQUIRE(sys_.bad.empty(), "%s: %s", k.show().c_str(), sys_.bad.c_str());
    EN_REQUIRE(!*shared_flag, "%s: a started process went on with the program itself", k.show().c_str());
  }
  for (Tool& t : tools)
  {
    t.t.reset();
    went_on();
    check_gone(k, t.pid, "destruction");
  }
  // the destroyed tools leave nothing behind, and every process got the right arguments
  EN_REQUIRE(sys_.bad.empty(), "%s: %s", k.show().c_str(), sys_.bad.c_str());
  EN_REQUIRE(!*shared_flag, "%s: a started process went on with the program itself", k.show().c_str());
  const std::string fds2 = descriptors();
  EN_REQUIRE(fds2 == fds, "%s: these descriptors are open: %s; before: %s", k.show().c_str(), fds2.c_str(), fds.c_str());
  EN_REQUIRE(access((dir + "/extra").c_str(), F_OK) != 0, "%s: a started process inherited pipes of the program", k.show().c_str());
  cleanup.restore();
  EN_REQUIRE(within(20, [&] { return entries("/proc/self/task") == threads; }), "%s: threads are left", k.show().c_str());
  armed = false;
  sigprocmask(SIG_SETMASK, &old, nullptr);
  signal(SIGINT, SIG_DFL);
  signal(SIGCHLD, SIG_DFL);
  for (int j = 0; j < 2; j++)
  {
    const std::string name = k.path + "session" + std::to_string(j);
    const std::string want = k.path.find('/') == std::string::npos ? "lttng\nview\n" + name + "\n-e\nbabeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live\n--\n" :
                                                                      "babeltrace\n--clock-seconds\n--clock-gmt\n--no-delta\n--input-format=lttng-live\n" + name + "\n--\n";
    std::ifstream in(dir + "/args" + std::to_string(j));
    std::stringstream got;
    got << in.rdbuf();
    std::string g = got.str();
    size_t n = 0;
    for (; g.compare(0, want.size(), want) == 0; n++)
      g.erase(0, want.size());
    // a process may be stopped before it gets to note its arguments
    EN_REQUIRE(g.empty() && n <= tools[j].inits, "%s: the process got other arguments: %s", k.show().c_str(), g.c_str());
  }
  c.digest(k.ops + "|" + k.fault + "|" + std::to_string(tools[0].got.size()) + "|" + std::to_string(sys_.started.size()));
}
static std::vector<Script> scripts(size_t max, const std::string& tokens, const std::string& last)
{
  std::vector<Script> r;
  std::vector<std::string> level{ "" };
  for (size_t n = 0; n <= max; n++)
  {
    std::vector<std::string> next;
    for (auto& s : level)
    {
      for (char l : last)
        r.push_back({ s + l });
      for (char t : tokens)
        if (s.find(t) == std::string::npos || t == 'e')  // once is enough, except for events
          next.push_back(s + t);
    }
    level = next;
  }
  return r;
}
// every behaviour of the process, with the operations a user performs
EN_CASES(processes, 3)
{
  for (auto& s : scripts(c.thorough ? 4 : 2, "enEci", "wxkr"))
    for (std::string ops : { "C0I0H0", "C0I0W0H0", "C0I0W0D0", "C0I0W0X0H0C0I0W0H0" })
      for (std::string path : { "", "net://host/", "/trace dir/", "a:" })
      {
        // the kind of path makes no other difference
        if (s.s.size() > 1 && path != (s.s.size() % 2 ? "net://host/" : ""))
          continue;
        if (c.next())
          execute(c, { ops, s, path, "", "", "" });
      }
}
// long lines, between others and at the end
EN_CASES(long_lines, 3)
{
  for (auto& s : scripts(c.thorough ? 3 : 2, "eLn", "wxkr"))
    if (s.s.find('L') != std::string::npos)
      for (std::string ops : { "C0I0W0H0", "C0I0W0X0H0C0I0W0H0" })
        if (c.next())
          execute(c, { ops, s, "net://host/", "", "", "" });
}
// every sequence of operations on one tool
EN_CASES(operations, 3)
{
  const std::string letters = "CIWXHDG";
  std::vector<std::string> level{ "" };
  for (int n = 0; n < (c.thorough ? 5 : 4); n++)
  {
    std::vector<std::string> next;
    for (auto& s : level)
      for (char l : letters)
        next.push_back(s + l + "0");
    for (auto& s : next)
      for (const char* scr : { "ex", "egew" })
        if (c.next())
          execute(c, { s, { scr }, "net://host/", "", "", "" });
    level = next;
  }
}
// two tools: stopping one is nothing to the other
EN_CASES(two, 3)
{
  std::vector<std::string> seqs{ "C0I0C1I1W0W1H0G1W1H1", "C0I0C1I1W0W1D0G1W1D1", "C0I0W0C1I1H0G1W1C0I0W0W1D1G0W0", "C1I1C0I0H0H1", "C0I0C1I1G0G1W0W1H1H0", "C0I0H0C1I1W1G1W1H1" };
  for (auto& q : seqs)
    for (auto& s : scripts(c.thorough ? 3 : 2, "egi", "wxr"))
      if (c.next())
        execute(c, { q, s, "net://host/", "", "", "" });
}
// failures of the system, at first use; afterwards everything works
EN_CASES(faults, 3)
{
  for (std::string f : { "missing", "pipe1", "pipe2", "pipe3", "pipe4", "fork" })
    for (std::string ops : { "C0I0H0", "I0D0", "C0I0X0H0C0I0W0H0", "C0I0H0C0I0W0D0", "I0H0H0C0I0W0I0H0", "C0I0I0W0H0", "C0I0C1I1W1H0G1W1H1" })
      for (std::string path : { "", "net://host/" })
        for (const char* scr : { "ex", "egew" })
          if (c.next())
            execute(c, { ops, { scr }, path, f == "pipe4" ? "" : f, "", "" });
}
// what the process inherits
EN_CASES(signals, 3)
{
  for (std::string g : { "ignored", "blocked", "children" })
    for (std::string f : { "", "missing", "fork" })
      for (std::string ops : { "C0I0H0", "C0I0W0D0", "C0I0W0X0H0C0I0W0H0" })
        for (const char* scr : { "ex", "ew", "er", "iew" })
          if (c.next())
            execute(c, { ops, { scr }, "net://host/", f, g, "" });
}
// what descriptors the system hands out
EN_CASES(descriptor_numbers, 3)
{
  std::vector<std::string> descs;
  for (int i = 1; i < 8; i++)
    descs.push_back("closed" + std::to_string(i));
  for (int i = -8; i <= 0; i++)
    descs.push_back("next" + std::to_string(FD_SETSIZE + i));
  descs.push_back("next" + std::to_string(FD_SETSIZE + 300));
  for (auto& d : descs)
    for (std::string f : { "", "missing", "pipe2", "fork" })
      for (std::string ops : { "C0I0W0H0", "C0I0C1I1W1H0G1W1H1", "C0I0W0X0H0C0I0W0D0" })
        for (const char* scr : { "ex", "egew", "cer", "Eer" })
          if (f.empty() || scr[1] == 'x')
            if (c.next())
              execute(c, { ops, { scr }, "net://host/", f, "", d });
}
