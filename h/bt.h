// The LTTng side without LTTng: the process that the code under test starts is simulated.  fork never returns 0; the harness
// holds the other ends of the pipes the process would have and writes babeltrace's output into them.
#pragma once
#include <scalopus_tracing/lttng_provider.h>
#include <scalopus_tracing/lttng_source.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
namespace bt
{
constexpr pid_t kPid = 424242;
struct Process
{
  int out[16], n = 0;  // the process' ends of the pipes, for writing
  bool started = false, alive = false, writing = false;
};
inline Process& process()
{
  static Process p;
  return p;
}
inline void eof()
{
  mc::race_ignore(true);
  Process& p = process();
  for (int i = 0; i < p.n; i++)
    if (p.out[i] >= 0)
      ::close(p.out[i]);
  p.n = 0;
  mc::race_ignore(false);
}
// what babeltrace prints
inline void emit(const std::string& text)
{
  mc::race_ignore(true);
  Process& p = process();
  p.writing = true;
  bool first = true;
  for (int i = 0; i < p.n; i++)
  {
    size_t done = 0;
    while (done < text.size() && p.alive && p.out[i] >= 0)
    {
      // nothing is known to read from the other pipes
      ssize_t n = ::send(p.out[i], text.data() + done, text.size() - done, MSG_NOSIGNAL | (first ? 0 : MSG_DONTWAIT));
      if (n < 0 && errno == EPIPE)  // a pipe the program does not read from
      {
        ::close(p.out[i]);
        p.out[i] = -1;
      }
      if (n <= 0)
        break;
      done += (size_t)n;
      first = false;
    }
  }
  p.writing = false;
  mc::race_ignore(false);
  if (!p.alive)
    eof();
}
// every thread but the caller has nothing left to do
inline void settle()
{
  mc::sleep_ms(1);
}
}  // namespace bt
// The code under test may signal the process it started, and nothing else.
extern "C" int kill(pid_t pid, int sig) noexcept
{
  if (!mc::running())
    return (int)syscall(SYS_kill, pid, sig);
  if (pid != bt::kPid)
    mc::fail("property", "kill(%d, %d) was called", (int)pid, sig);
  mc::race_ignore(true);
  const bool was = sig != 0 && bt::process().alive, writing = bt::process().writing;
  if (was)
    bt::process().alive = false;
  mc::race_ignore(false);
  if (was && !writing)
    bt::eof();
  return 0;
}
extern "C" pid_t fork()
{
  if (!mc::running())
    return ((pid_t(*)())dlsym(RTLD_NEXT, "fork"))();
  bt::Process& p = bt::process();
  if (p.started)
    mc::fail("property", "a second process is started");
  p.started = p.alive = true;
  int fds[2];
  for (int i = 0; mc::pipe_at(i, fds) && p.n < 16; i++)
    p.out[p.n++] = dup(fds[1]);
  return bt::kPid;
}
extern "C" pid_t waitpid(pid_t pid, int* status, int flags)
{
  if (!mc::running())
    return (pid_t)syscall(SYS_wait4, pid, status, flags, nullptr);
  bt::Process& p = bt::process();
  if (pid != bt::kPid || !p.started)
  {
    errno = ECHILD;
    return -1;
  }
  while (p.alive && !(flags & WNOHANG))
    mc::sleep_ms(1);
  if (p.alive)
    return 0;
  p.started = false;
  if (status)
    *status = 0;
  return pid;
}
