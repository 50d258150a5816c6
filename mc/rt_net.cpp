// Simulated AF_UNIX stream sockets, select/poll, /proc/net/unix.
#include "rt_core.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <dlfcn.h>

namespace mcrt
{
static Obj g_sockobj[NSOCK];
static Sock* sk(int i) { return &G.sock[i]; }
static int sid(Sock* s) { return (int)(s - G.sock); }
static int lookup(int fd)  // socket index or -1
{
  if (fd < 0 || fd >= NFD)
    return -1;
  return G.fd[fd];
}
static bool sim(int fd) { return on() && fd >= FDBASE && fd < NFD; }
static int new_sock(int type)
{
  for (int i = 0; i < NSOCK; i++)
    if (G.sock[i].type == 0)
    {
      Sock* s = sk(i);
      memset((void*)s, 0, sizeof *s);
      s->type = type;
      s->peer = -1;
      s->cap = G.netcap;
      s->pid = self->pid;
      s->in = &g_sockobj[i];
      s->in->addr = (uintptr_t)s->in;
      s->refs = 1;
      return i;
    }
  rterror("too many sockets");
}
static int new_fd(int s)
{
  hb_op(&G.fdobj, true, 1);
  for (int f = FDBASE; f < NFD; f++)
    if (G.fd[f] < 0)
    {
      G.fd[f] = s;
      trace("fd %d = socket %d", f, s);
      return f;
    }
  errno = EMFILE;
  return -1;
}
static void peer_gone(Sock* p, bool reset)
{
  p->peer_closed = true;
  p->shut_wr = true;
  p->peer = -1;
  if (reset)
    p->err = ECONNRESET;
  release(p->in);
  hb_op(p->in, true, 60);
}
static void unref(Sock* s)
{
  if (--s->refs > 0)
    return;
  trace("socket %d released", sid(s));
  hb_op(s->in, true, 61);
  if (s->type == 3 && s->peer >= 0)
    peer_gone(sk(s->peer), s->len > 0);
  if (s->type == 2)
    for (int i = 0; i < s->qn; i++)
    {
      Sock* p = sk(s->q[i]);
      if (p->peer >= 0)
        peer_gone(sk(p->peer), true);
      p->type = 0;
    }
  s->type = 0;
}
static bool readable(Sock* s)
{
  if (s->type == 2)
    return s->qn > 0;
  if (s->type == 1)
    return true;  // unconnected: EOF/EINVAL, poll reports HUP
  return s->len > 0 || s->peer_closed || s->shut_rd || s->err != 0;
}
static size_t room(Sock* s)
{
  if (s->peer < 0)
    return 0;
  Sock* p = sk(s->peer);
  return p->cap > p->len ? p->cap - p->len : 0;
}
static bool writable(Sock* s)
{
  if (s->type == 2)
    return false;
  return s->type == 1 || s->shut_wr || s->peer < 0 || sk(s->peer)->shut_rd || room(s) > 0;
}
bool sock_ready(Thr& t)
{
  if (t.wait == W_SELECT)
  {
    for (int i = 0; i < t.sel.nfds; i++)
    {
      Sock* s = sk(t.sel.e[i].fd);
      if ((t.sel.e[i].rd && readable(s)) || (t.sel.e[i].wr && writable(s)))
        return true;
    }
    return false;
  }
  Sock* s = sk(t.wfd);
  switch (t.wait)
  {
    case W_READ: return readable(s);
    case W_WRITE: return writable(s);
    case W_ACCEPT: return s->qn > 0 || s->shut_rd;
    case W_CONNECT: return s->type != 2 || s->qn <= s->backlog;
    default: return false;
  }
}
static void badfd(const char* what, int fd)
{
  if (G.strict_fd)
    violate("bad-fd", "%s(%d) by T%d: descriptor is not open", what, fd, self->id);
  errno = EBADF;
}
static bool fault(unsigned bit) { return (G.faults & bit) && self->netfault; }
static void push(Sock* p, const char* b, size_t n)
{
  if (p->head + p->len + n > p->alloc)
  {
    size_t na = (p->len + n) * 2 + 256;
    char* nb = (char*)ralloc(na);
    memcpy(nb, p->buf ? p->buf + p->head : nb, p->len);
    p->buf = nb;
    p->head = 0;
    p->alloc = na;
  }
  memcpy(p->buf + p->head + p->len, b, n);
  p->len += n;
}
static uint64_t bytes_hash(const char* b, size_t n)
{
  uint64_t h = n;
  for (size_t i = 0; i < n; i++)
    h = h * 1099511628211ull + (uint8_t)b[i];
  return h;
}
static ssize_t do_recv(int fd, char* b, size_t n, int flags, const char* what)
{
  int si = lookup(fd);
  if (si < 0)
  {
    point(what, nullptr);
    hb_op(&G.fdobj, false, 62);
    errno = EBADF;
    if (G.strict_fd)
      violate("bad-fd", "%s(%d) by T%d: descriptor is not open", what, fd, self->id);
    return -1;
  }
  Sock* s = sk(si);
  hb_op(&G.fdobj, false, 63);
  if (s->type != 3)
  {
    errno = s->type == 2 ? EINVAL : EINVAL;
    return -1;
  }
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  size_t done = 0;
  s->refs++;
  self->wfd = si;
  while (true)
  {
    if (nb)
      point(what, s->in);
    else
      block(W_READ, what);
    hb_op(s->in, true, 64);
    if (!readable(s))
    {
      if (done == 0)
      {
        errno = EAGAIN;
        unref(s);
        return -1;
      }
      break;
    }
    acquire(s->in);
    if (fault(mc::INTR_READ) && done == 0 && env_choice(2, true, "EINTR on read") == 1)
    {
      unref(s);
      errno = EINTR;
      return -1;
    }
    if (s->len == 0)
    {
      int e = s->err;
      if (done > 0)
        break;
      if (e)
      {
        s->err = 0;
        unref(s);
        errno = e;
        trace("%s(%d) error %d", what, fd, e);
        return -1;
      }
      unref(s);
      trace("%s(%d) EOF", what, fd);
      return 0;
    }
    size_t k = n - done < s->len ? n - done : s->len;
    if (k > 1)
    {
      if (G.allcuts && self->netfault)
        k = k - (size_t)env_choice((int)(k > 200 ? 200 : k), false, "read size");
      else if (fault(mc::SHORT_READ))
      {
        // candidates: all, all but the last byte, half, one byte
        size_t c[4] = { k, k - 1, (k + 1) / 2, 1 };
        int m = 1;
        size_t u[4] = { k };
        for (int i = 1; i < 4; i++)
          if (c[i] < u[m - 1])
            u[m++] = c[i];
        k = u[env_choice(m, true, "short read")];
      }
    }
    access(b + done, k, true, __builtin_return_address(0));
    memcpy(b + done, s->buf + s->head, k);
    if (!(flags & MSG_PEEK))
    {
      s->head += k;
      s->len -= k;
      release(s->in);
    }
    done += k;
    trace("%s(%d) socket %d: %zu bytes", what, fd, si, k);
    if (!(flags & MSG_WAITALL) || done == n)
      break;
  }
  unref(s);
  return (ssize_t)done;
}
static ssize_t do_send(int fd, const char* b, size_t n, int flags, const char* what)
{
  int si = lookup(fd);
  if (si < 0)
  {
    point(what, nullptr);
    hb_op(&G.fdobj, false, 65);
    if (G.strict_fd)
      violate("bad-fd", "%s(%d) by T%d: descriptor is not open", what, fd, self->id);
    errno = EBADF;
    return -1;
  }
  Sock* s = sk(si);
  hb_op(&G.fdobj, false, 66);
  if (s->type != 3)
  {
    errno = ENOTCONN;
    return -1;
  }
  access(b, n, false, __builtin_return_address(0));
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  size_t done = 0;
  s->refs++;
  self->wfd = si;
  ssize_t ret = 0;
  while (true)
  {
    if (nb || n == 0)
      point(what, s->in);
    else
      block(W_WRITE, what);
    hb_op(s->in, false, 67);
    if (s->peer >= 0)
      hb_op(sk(s->peer)->in, true, mix(68, bytes_hash(b, n)));
    if (s->shut_wr || s->peer < 0 || sk(s->peer)->shut_rd)
    {
      if (done > 0)
        break;
      if (n == 0 && s->peer_closed == false && !s->shut_wr)
        break;
      trace("%s(%d) EPIPE", what, fd);
      if (!(flags & MSG_NOSIGNAL))
      {
        struct sigaction sa;
        sigaction(SIGPIPE, nullptr, &sa);
        if (sa.sa_handler != SIG_IGN)
          violate("sigpipe", "%s(%d) by T%d on a connection the peer closed raises SIGPIPE", what, fd, self->id);
      }
      errno = EPIPE;
      ret = -1;
      break;
    }
    if (n == 0)
      break;
    if (fault(mc::INTR_WRITE) && done == 0 && env_choice(2, true, "EINTR on write") == 1)
    {
      errno = EINTR;
      ret = -1;
      break;
    }
    size_t r = room(s);
    if (r == 0)
    {
      if (done == 0)
      {
        errno = EAGAIN;
        ret = -1;
      }
      break;
    }
    size_t k = n - done < r ? n - done : r;
    bool cut = false;
    if (n - done > 1 && fault(mc::SHORT_WRITE))
    {
      size_t c[4] = { k, k - 1, (k + 1) / 2, 1 };
      int m = 1;
      size_t u[4] = { k };
      for (int i = 1; i < 4; i++)
        if (c[i] < u[m - 1] && c[i] > 0)
          u[m++] = c[i];
      int ch = env_choice(m, true, "short write");
      cut = ch > 0;
      k = u[ch];
    }
    Sock* p = sk(s->peer);
    push(p, b + done, k);
    release(p->in);
    done += k;
    trace("%s(%d) socket %d: %zu bytes", what, fd, si, k);
    if (cut || done == n)
      break;
  }
  unref(s);
  return ret < 0 ? ret : (ssize_t)done;
}
struct Ev { int fd; bool rd, wr; bool ord, owr; bool hup; };
// returns number ready, or -1
static int do_poll(Ev* e, int n, uint64_t dl, bool immediate, const char* what)
{
  Thr* t = self;
  t->sel.nfds = 0;
  hb_op(&G.fdobj, false, 69);
  for (int i = 0; i < n; i++)
  {
    int s = lookup(e[i].fd);
    if (s < 0)
    {
      point(what, nullptr);
      badfd(what, e[i].fd);
      errno = EBADF;
      return -1;
    }
    if (t->sel.nfds >= 64)
      rterror("too many descriptors in select");
    t->sel.e[t->sel.nfds++] = { s, e[i].rd, e[i].wr };
    sk(s)->refs++;
  }
  bool intr = false;
  if (fault(mc::INTR_SELECT))
    intr = env_choice(2, true, "EINTR on select") == 1;
  if (!intr)
  {
    if (immediate)
      point(what, nullptr);
    else
      block(W_SELECT, what, dl);
  }
  int k = 0;
  for (int i = 0; i < n; i++)
  {
    Sock* s = sk(t->sel.e[i].fd);
    hb_op(s->in, false, 70);
    e[i].ord = e[i].rd && readable(s);
    e[i].owr = e[i].wr && writable(s);
    e[i].hup = s->type == 3 && s->peer_closed;
    if (e[i].ord || e[i].owr)
      k++;
    if (s->type == 3 && s->peer >= 0 && e[i].wr)
      hb_op(sk(s->peer)->in, false, 71);
  }
  for (int i = 0; i < n; i++)
    unref(sk(t->sel.e[i].fd));
  if (intr)
  {
    errno = EINTR;
    return -1;
  }
  return k;
}
static uint64_t after(const struct timespec* ts)
{
  if (ts == nullptr)
    return NEVER;
  return G.clock + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
}
static int do_close(int fd, const char* what)
{
  point(what, nullptr);
  int si = lookup(fd);
  hb_op(&G.fdobj, true, 72);
  trace("%s(%d) socket %d", what, fd, si);
  if (si < 0)
  {
    badfd(what, fd);
    return -1;
  }
  G.fd[fd] = -1;
  unref(sk(si));
  return 0;
}
static int find_listener(const char* name, int len, bool any)
{
  for (int i = 0; i < NSOCK; i++)
  {
    Sock* s = sk(i);
    if (s->type != 0 && s->namelen == len && memcmp(s->name, name, (size_t)len) == 0 && s->namelen > 0 && s->type != 3)
      if (any || s->type == 2)
        return i;
  }
  return -1;
}
static char* gen_proc_net_unix()
{
  if (G.procnet != nullptr)
    return (char*)G.procnet;
  size_t cap = 8192, k = 0;
  char* b = (char*)ralloc(cap);
  k += snprintf(b + k, cap - k, "Num       RefCount Protocol Flags    Type St Inode Path\n");
  for (int i = 0; i < NSOCK && k < cap - 400; i++)
  {
    Sock* s = sk(i);
    if (s->type == 0)
      continue;
    bool open = false;  // connections still waiting in the accept queue have no inode
    for (int j = 0; j < NFD; j++)
      open |= G.fd[j] == i;
    k += snprintf(b + k, cap - k, "0000000000000000: %08X 00000000 %08X %04X %02X %5d", 2 + (s->type == 3), s->type == 2 ? 0x10000 : 0, 1,
                  s->type == 3 ? (open ? 3 : 2) : 1, open ? 100 + i : 0);
    if (s->namelen > 0)
    {
      b[k++] = ' ';
      for (int j = 0; j < s->namelen; j++)
        b[k++] = s->name[j] ? s->name[j] : '@';
    }
    b[k++] = '\n';
    b[k] = 0;
  }
  return b;
}
static int procnet_fd()
{
  for (int i = 0; i < NSOCK; i++)
    if (G.sock[i].type)
      hb_op(G.sock[i].in, false, 73);
  hb_op(&G.fdobj, false, 74);
  const char* c = gen_proc_net_unix();
  int fd = (int)rsys(SYS_memfd_create, (long)"procnet", 0);
  rsys(SYS_write, fd, (long)c, (long)strlen(c));
  rsys(SYS_lseek, fd, 0, SEEK_SET);
  int hi = (int)rsys(SYS_fcntl, fd, F_DUPFD, 400);
  rsys(SYS_close, fd);
  return hi;
}
static long ret(long r)
{
  if (r < 0 && r > -4096)
  {
    errno = (int)-r;
    return -1;
  }
  return r;
}
}  // namespace mcrt
using namespace mcrt;

extern "C" {
int socket(int dom, int type, int proto)
{
  if (!on())
    return (int)ret(rsys(SYS_socket, dom, type, proto));
  if (dom != AF_UNIX || (type & 0xf) != SOCK_STREAM)
    rterror("unsupported socket(%d, %d)", dom, type);
  point("socket", nullptr);
  if (fault(mc::SYS_FAIL) && env_choice(2, true, "socket fails") == 1)
  {
    errno = EMFILE;
    return -1;
  }
  int s = new_sock(1);
  sk(s)->nonblock = type & SOCK_NONBLOCK;
  return new_fd(s);
}
int socketpair(int dom, int type, int proto, int sv[2])
{
  if (!on())
    return (int)ret(rsys(SYS_socketpair, dom, type, proto, (long)sv));
  if (dom != AF_UNIX || (type & 0xf) != SOCK_STREAM)
    rterror("unsupported socketpair(%d, %d)", dom, type);
  point("socketpair", nullptr);
  int a = new_sock(3), b = new_sock(3);
  sk(a)->peer = b;
  sk(b)->peer = a;
  sk(a)->nonblock = sk(b)->nonblock = type & SOCK_NONBLOCK;
  sv[0] = new_fd(a);
  sv[1] = new_fd(b);
  return 0;
}
int pipe2(int fds[2], int flags)
{
  if (!on())
    return (int)ret(rsys(SYS_pipe2, (long)fds, flags));
  int r = socketpair(AF_UNIX, SOCK_STREAM | (flags & O_NONBLOCK ? SOCK_NONBLOCK : 0), 0, fds);
  if (r == 0)
  {
    if (G.npipe == NCOOKIE)
      rterror("too many pipes");
    G.pipe_fd[G.npipe][0] = fds[0];
    G.pipe_fd[G.npipe++][1] = fds[1];
  }
  return r;
}
int pipe(int fds[2]) { return pipe2(fds, 0); }
int dup(int fd)
{
  if (!on() || !sim(fd))
    return (int)ret(rsys(SYS_dup, fd));
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("dup", fd);
    return -1;
  }
  sk(si)->refs++;
  return new_fd(si);
}
FILE* fdopen(int fd, const char* mode)
{
  if (on() && sim(fd))
    return mc::file_from_fd(fd, mode);
  return ((FILE * (*)(int, const char*)) dlsym(RTLD_NEXT, "fdopen"))(fd, mode);
}
int bind(int fd, const struct sockaddr* a, socklen_t len)
{
  if (!sim(fd))
  {
    if (on())
    {
      badfd("bind", fd);
      return -1;
    }
    return (int)ret(rsys(SYS_bind, fd, (long)a, len));
  }
  point("bind", nullptr);
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("bind", fd);
    return -1;
  }
  access(a, len, false, __builtin_return_address(0));
  const struct sockaddr_un* u = (const struct sockaddr_un*)a;
  int n = (int)len - (int)sizeof(sa_family_t);
  if (n > 108 || n <= 0)
  {
    errno = EINVAL;
    return -1;
  }
  if (u->sun_path[0] != 0)
    n = (int)strnlen(u->sun_path, (size_t)n);
  hb_op(&G.fdobj, true, 75);
  if (fault(mc::SYS_FAIL) && env_choice(2, true, "bind fails") == 1)
  {
    errno = EADDRINUSE;
    return -1;
  }
  if (find_listener(u->sun_path, n, true) >= 0)
  {
    errno = EADDRINUSE;
    return -1;
  }
  memcpy(sk(si)->name, u->sun_path, (size_t)n);
  sk(si)->namelen = n;
  return 0;
}
int listen(int fd, int backlog)
{
  if (!sim(fd))
  {
    if (on())
    {
      badfd("listen", fd);
      return -1;
    }
    return (int)ret(rsys(SYS_listen, fd, backlog));
  }
  point("listen", nullptr);
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("listen", fd);
    return -1;
  }
  hb_op(&G.fdobj, true, 76);
  if (sk(si)->type == 3 || sk(si)->namelen == 0)
  {
    errno = EINVAL;
    return -1;
  }
  if (fault(mc::SYS_FAIL) && env_choice(2, true, "listen fails") == 1)
  {
    errno = EADDRINUSE;
    return -1;
  }
  sk(si)->type = 2;
  sk(si)->backlog = backlog > 14 ? 14 : backlog < 0 ? 0 : backlog;
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t len)
{
  if (!sim(fd))
  {
    if (on())
    {
      badfd("connect", fd);
      return -1;
    }
    return (int)ret(rsys(SYS_connect, fd, (long)a, len));
  }
  int si = lookup(fd);
  if (si < 0)
  {
    point("connect", nullptr);
    badfd("connect", fd);
    return -1;
  }
  const struct sockaddr_un* u = (const struct sockaddr_un*)a;
  int n = (int)len - (int)sizeof(sa_family_t);
  if (n > 108 || n <= 0)
  {
    errno = EINVAL;
    return -1;
  }
  if (u->sun_path[0] != 0)
    n = (int)strnlen(u->sun_path, (size_t)n);
  Sock* s = sk(si);
  s->refs++;
  point("connect", nullptr);
  while (true)
  {
    hb_op(&G.fdobj, false, 77);
    if (s->type == 3)
    {
      unref(s);
      errno = EISCONN;
      return -1;
    }
    if (fault(mc::SYS_FAIL) && env_choice(2, true, "connect fails") == 1)
    {
      unref(s);
      errno = ECONNREFUSED;
      return -1;
    }
    int li = find_listener(u->sun_path, n, true);
    if (li < 0 || sk(li)->type != 2)
    {
      unref(s);
      errno = ECONNREFUSED;
      trace("connect refused");
      return -1;
    }
    Sock* l = sk(li);
    if (l->qn > l->backlog)
    {
      if (s->nonblock)
      {
        unref(s);
        errno = EAGAIN;
        return -1;
      }
      self->wfd = li;
      block(W_CONNECT, "connect waits");
      continue;
    }
    int ci = new_sock(3);
    Sock* c = sk(ci);
    c->refs = 0;
    c->namelen = l->namelen;
    memcpy(c->name, l->name, (size_t)l->namelen);
    c->peer = si;
    c->pending = true;
    c->pid = l->pid;
    s->type = 3;
    s->peer = ci;
    l->q[l->qn++] = ci;
    hb_op(l->in, true, 78);
    hb_op(s->in, true, 79);
    release(l->in);
    trace("connect: socket %d <-> %d", si, ci);
    unref(s);
    return 0;
  }
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
  if (!sim(fd))
  {
    if (on())
    {
      badfd("accept", fd);
      return -1;
    }
    return (int)ret(rsys(SYS_accept4, fd, (long)a, (long)len, flags));
  }
  int si = lookup(fd);
  if (si < 0)
  {
    point("accept", nullptr);
    badfd("accept", fd);
    return -1;
  }
  Sock* s = sk(si);
  if (s->type != 2)
  {
    errno = EINVAL;
    return -1;
  }
  s->refs++;
  self->wfd = si;
  if (s->nonblock)
    point("accept", s->in);
  else
    block(W_ACCEPT, "accept");
  hb_op(s->in, true, 80);
  acquire(s->in);
  int r = -1;
  if (s->shut_rd)
    errno = EINVAL;
  else if (s->qn == 0)
    errno = EAGAIN;
  else if (fault(mc::SYS_FAIL) && env_choice(2, true, "accept fails") == 1)
    errno = EMFILE;
  else
  {
    int c = s->q[0];
    for (int i = 1; i < s->qn; i++)
      s->q[i - 1] = s->q[i];
    s->qn--;
    sk(c)->refs = 1;
    sk(c)->pending = false;
    sk(c)->nonblock = flags & SOCK_NONBLOCK;
    r = new_fd(c);
  }
  if (a != nullptr && len != nullptr && *len >= 2)
  {
    a->sa_family = AF_UNIX;
    *len = 2;
  }
  int e = errno;
  unref(s);
  errno = e;
  return r;
}
int accept(int fd, struct sockaddr* a, socklen_t* len) { return accept4(fd, a, len, 0); }
int close(int fd)
{
  if (!on())
    return (int)ret(rsys(SYS_close, fd));
  if (sim(fd) || fd < 0)
    return do_close(fd, "close");
  if (fd <= 2 || fd < FDBASE)
  {
    // the code under test owns no real descriptor
    badfd("close", fd);
    return -1;
  }
  return (int)ret(rsys(SYS_close, fd));
}
int shutdown(int fd, int how)
{
  if (!on())
    return (int)ret(rsys(SYS_shutdown, fd, how));
  point("shutdown", nullptr);
  int si = lookup(fd);
  hb_op(&G.fdobj, false, 81);
  if (si < 0)
  {
    badfd("shutdown", fd);
    return -1;
  }
  Sock* s = sk(si);
  trace("shutdown(%d, %d) socket %d", fd, how, si);
  if (s->type == 1)
  {
    errno = ENOTCONN;
    return -1;
  }
  if (s->type == 2)
  {
    if (how != SHUT_WR)
      s->shut_rd = true;
    hb_op(s->in, true, 82);
    return 0;
  }
  if (how == SHUT_RD || how == SHUT_RDWR)
    s->shut_rd = true;
  if (how == SHUT_WR || how == SHUT_RDWR)
    s->shut_wr = true;
  hb_op(s->in, true, 83);
  if (s->peer >= 0)
  {
    Sock* p = sk(s->peer);
    if (s->shut_wr)
      p->shut_rd = p->shut_rd || true;
    if (s->shut_rd)
      p->shut_wr = true;
    release(p->in);
    hb_op(p->in, true, 84);
  }
  return 0;
}
ssize_t read(int fd, void* b, size_t n)
{
  if (!sim(fd))
  {
    if (on() && fd < 0)
    {
      badfd("read", fd);
      return -1;
    }
    return ret(rsys(SYS_read, fd, (long)b, (long)n));
  }
  return do_recv(fd, (char*)b, n, 0, "read");
}
ssize_t recv(int fd, void* b, size_t n, int f)
{
  if (!on())
    return ret(rsys(SYS_recvfrom, fd, (long)b, (long)n, f, 0, 0));
  return do_recv(fd, (char*)b, n, f, "recv");
}
ssize_t recvfrom(int fd, void* b, size_t n, int f, struct sockaddr*, socklen_t*) { return recv(fd, b, n, f); }
static ssize_t vec_recv(int fd, const struct iovec* v, int c, int f, const char* what)
{
  // one receive into a contiguous buffer, scattered afterwards (a stream read is atomic with respect to the vector)
  size_t tot = 0;
  for (int i = 0; i < c; i++)
    tot += v[i].iov_len;
  char* b = (char*)ralloc(tot + 1);
  ssize_t r = do_recv(fd, b, tot, f, what);
  size_t off = 0;
  for (int i = 0; i < c && r > 0 && off < (size_t)r; i++)
  {
    size_t k = v[i].iov_len < (size_t)r - off ? v[i].iov_len : (size_t)r - off;
    access(v[i].iov_base, k, true, __builtin_return_address(0));
    memcpy(v[i].iov_base, b + off, k);
    off += k;
  }
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
  if (!sim(fd))
    return ret(rsys(SYS_readv, fd, (long)v, c));
  return vec_recv(fd, v, c, 0, "readv");
}
ssize_t recvmsg(int fd, struct msghdr* m, int f)
{
  if (!on())
    return ret(rsys(SYS_recvmsg, fd, (long)m, f));
  return vec_recv(fd, m->msg_iov, (int)m->msg_iovlen, f, "recvmsg");
}
ssize_t write(int fd, const void* b, size_t n)
{
  if (!sim(fd))
  {
    if (on() && fd < 0)
    {
      badfd("write", fd);
      return -1;
    }
    return ret(rsys(SYS_write, fd, (long)b, (long)n));
  }
  return do_send(fd, (const char*)b, n, 0, "write");
}
ssize_t send(int fd, const void* b, size_t n, int f)
{
  if (!on())
    return ret(rsys(SYS_sendto, fd, (long)b, (long)n, f, 0, 0));
  return do_send(fd, (const char*)b, n, f, "send");
}
ssize_t sendto(int fd, const void* b, size_t n, int f, const struct sockaddr*, socklen_t) { return send(fd, b, n, f); }
static ssize_t vec_send(int fd, const struct iovec* v, int c, int f, const char* what)
{
  size_t tot = 0;
  for (int i = 0; i < c; i++)
    tot += v[i].iov_len;
  char* b = (char*)ralloc(tot + 1);
  size_t off = 0;
  for (int i = 0; i < c; i++)
  {
    access(v[i].iov_base, v[i].iov_len, false, __builtin_return_address(0));
    memcpy(b + off, v[i].iov_base, v[i].iov_len);
    off += v[i].iov_len;
  }
  return do_send(fd, b, tot, f, what);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (!sim(fd))
    return ret(rsys(SYS_writev, fd, (long)v, c));
  return vec_send(fd, v, c, 0, "writev");
}
ssize_t sendmsg(int fd, const struct msghdr* m, int f)
{
  if (!on())
    return ret(rsys(SYS_sendmsg, fd, (long)m, f));
  return vec_send(fd, m->msg_iov, (int)m->msg_iovlen, f, "sendmsg");
}
static int select_impl(int nfds, fd_set* r, fd_set* w, fd_set* x, uint64_t dl, bool imm)
{
  Ev e[64];
  int n = 0;
  for (int f = 0; f < nfds; f++)
  {
    bool rd = r && FD_ISSET(f, r), wr = w && FD_ISSET(f, w), ex = x && FD_ISSET(f, x);
    if (rd || wr || ex)
    {
      if (n >= 64)
        rterror("too many descriptors in select");
      e[n++] = { f, rd, wr, false, false, false };
    }
  }
  int k = do_poll(e, n, dl, imm, "select");
  if (k < 0)
    return k;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  int bits = 0;
  for (int i = 0; i < n; i++)
  {
    if (e[i].ord) FD_SET(e[i].fd, r), bits++;
    if (e[i].owr) FD_SET(e[i].fd, w), bits++;
  }
  return bits;
}
int select(int nfds, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv)
{
  if (!on())
    return (int)ret(rsys(SYS_select, nfds, (long)r, (long)w, (long)x, (long)tv));
  uint64_t dl = tv ? G.clock + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000ull : NEVER;
  uint64_t t0 = G.clock;
  int k = select_impl(nfds, r, w, x, dl, tv && dl == G.clock);
  if (tv)
  {
    uint64_t left = dl > G.clock ? dl - G.clock : 0;
    (void)t0;
    tv->tv_sec = (time_t)(left / 1000000000ull);
    tv->tv_usec = (suseconds_t)(left % 1000000000ull / 1000);
  }
  return k;
}
int pselect(int nfds, fd_set* r, fd_set* w, fd_set* x, const struct timespec* ts, const sigset_t*)
{
  if (!on())
  {
    struct timeval tv = { ts ? ts->tv_sec : 0, ts ? ts->tv_nsec / 1000 : 0 };
    return (int)ret(rsys(SYS_select, nfds, (long)r, (long)w, (long)x, ts ? (long)&tv : 0));
  }
  return select_impl(nfds, r, w, x, after(ts), ts && ts->tv_sec == 0 && ts->tv_nsec == 0);
}
static int poll_impl(struct pollfd* p, nfds_t n, uint64_t dl, bool imm)
{
  Ev e[64];
  int idx[64], m = 0, bad = 0;
  for (nfds_t i = 0; i < n; i++)
  {
    p[i].revents = 0;
    if (p[i].fd < 0)
      continue;
    if (lookup(p[i].fd) < 0)
    {
      p[i].revents = POLLNVAL;
      if (G.strict_fd)
        violate("bad-fd", "poll(%d) by T%d: descriptor is not open", p[i].fd, self->id);
      bad++;
      continue;
    }
    idx[m] = (int)i;
    e[m++] = { p[i].fd, (p[i].events & (POLLIN | POLLRDNORM)) != 0, (p[i].events & (POLLOUT | POLLWRNORM)) != 0, false, false, false };
  }
  int k = do_poll(e, m, dl, imm || bad, "poll");
  if (k < 0)
    return k;
  k = bad;
  for (int i = 0; i < m; i++)
  {
    short ev = 0;
    if (e[i].ord) ev |= POLLIN;
    if (e[i].owr) ev |= POLLOUT;
    if (e[i].hup) ev |= POLLHUP;
    p[idx[i]].revents = ev;
    if (ev) k++;
  }
  return k;
}
int poll(struct pollfd* p, nfds_t n, int ms)
{
  if (!on())
    return (int)ret(rsys(SYS_poll, (long)p, (long)n, ms));
  return poll_impl(p, n, ms < 0 ? NEVER : G.clock + (uint64_t)ms * 1000000, ms == 0);
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*)
{
  if (!on())
    return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1);
  return poll_impl(p, n, after(ts), ts && ts->tv_sec == 0 && ts->tv_nsec == 0);
}
int fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  if (!sim(fd))
    return (int)ret(rsys(SYS_fcntl, fd, cmd, a));
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("fcntl", fd);
    return -1;
  }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
    return dup(fd);
  if (cmd == F_GETFL)
    return O_RDWR | (sk(si)->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL)
    sk(si)->nonblock = a & O_NONBLOCK;
  return 0;
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...)
{
  va_list ap;
  va_start(ap, req);
  long a = va_arg(ap, long);
  va_end(ap);
  if (!sim(fd))
    return (int)ret(rsys(SYS_ioctl, fd, (long)req, a));
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("ioctl", fd);
    return -1;
  }
  hb_op(sk(si)->in, false, 90);
  if (req == FIONREAD)
    *(int*)a = (int)sk(si)->len;
  else if (req == FIONBIO)
    sk(si)->nonblock = *(int*)a;
  return 0;
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n)
{
  if (!sim(fd))
    return (int)ret(rsys(SYS_setsockopt, fd, l, o, (long)v, n));
  return 0;
}
int getsockopt(int fd, int l, int o, void* v, socklen_t* n)
{
  if (!sim(fd))
    return (int)ret(rsys(SYS_getsockopt, fd, l, o, (long)v, (long)n));
  int si = lookup(fd);
  if (si < 0)
  {
    badfd("getsockopt", fd);
    return -1;
  }
  if (o == SO_ERROR)
  {
    *(int*)v = sk(si)->err;
    sk(si)->err = 0;
  }
  else if (o == SO_PEERCRED)
  {
    struct ucred* u = (struct ucred*)v;
    u->pid = sk(si)->peer >= 0 ? sk(sk(si)->peer)->pid : 0;
    u->uid = u->gid = 0;
  }
  else
    memset(v, 0, *n);
  return 0;
}
static FILE* fopen_impl(const char* path, const char* mode, const char* name)
{
  if (on() && strcmp(path, "/proc/net/unix") == 0)
    return fdopen(procnet_fd(), mode);
  typedef FILE* (*fo)(const char*, const char*);
  return ((fo)dlsym(RTLD_NEXT, name))(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return fopen_impl(path, mode, "fopen"); }
FILE* fopen64(const char* path, const char* mode) { return fopen_impl(path, mode, "fopen64"); }
int open(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  long m = va_arg(ap, long);
  va_end(ap);
  if (on() && strcmp(path, "/proc/net/unix") == 0)
    return procnet_fd();
  return (int)ret(rsys(SYS_openat, AT_FDCWD, (long)path, flags, m));
}
int open64(const char* path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  long m = va_arg(ap, long);
  va_end(ap);
  return open(path, flags, m);
}
int fileno(FILE* f)
{
  if (on())
    for (int i = 0; i < G.ncookie; i++)
      if (G.cookie_file[i] == f)
        return G.cookie_fd[i];
  return ((int (*)(FILE*))dlsym(RTLD_NEXT, "fileno"))(f);
}
}

namespace mc
{
void net_capacity(size_t b) { G.netcap = b; }
void net_faults(unsigned m) { G.faults = m; }
void net_fault_thread(bool on) { self->netfault = on; }
void net_all_cuts(bool on) { G.allcuts = on; }
int open_fds()
{
  int n = 0;
  for (int i = 0; i < NFD; i++)
    if (G.fd[i] >= 0)
      n++;
  return n;
}
void set_proc_net_unix(const char* t) { G.procnet = t; }
static ssize_t ck_read(void* c, char* b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { return write((int)(long)c, b, n); }
static int ck_close(void* c) { return close((int)(long)c); }
bool pipe_at(int i, int fds[2])
{
  if (i >= G.npipe)
    return false;
  fds[0] = G.pipe_fd[i][0];
  fds[1] = G.pipe_fd[i][1];
  return true;
}
FILE* file_from_fd(int fd, const char* mode)
{
  cookie_io_functions_t io = { ck_read, ck_write, nullptr, ck_close };
  FILE* f = fopencookie((void*)(long)fd, mode, io);
  if (G.ncookie == NCOOKIE)
    rterror("too many streams");
  G.cookie_file[G.ncookie] = f;
  G.cookie_fd[G.ncookie++] = fd;
  return f;
}
}  // namespace mc
