// P14: process information and the map behind it.
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/thread_naming.h>
#include <scalopus_general/map_tracker.h>
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <thread>
#include "direct.h"
#include "mc.h"
using scalopus::EndpointProcessInfo;
using Info = EndpointProcessInfo::ProcessInfo;
using Names = std::map<unsigned long, std::string>;
static unsigned long me() { return (unsigned long)pthread_self(); }
struct Remote
{
  std::shared_ptr<direct::Server> s = std::make_shared<direct::Server>();
  std::shared_ptr<direct::Client> c = std::make_shared<direct::Client>(s);
  EndpointProcessInfo::Ptr server, client;
  Remote()
  {
    server = std::make_shared<EndpointProcessInfo>();
    s->addEndpoint(server);
    client = EndpointProcessInfo::factory(c);
  }
};
static std::string show(const Names& n)
{
  std::string r;
  for (auto& x : n)
    r += x.second + " ";
  return r;
}
static void expect(const Info& i, const std::string& pname, const Names& n, const char* when)
{
  MC_REQUIRE(i.pid == (int)getpid(), "%s: pid %d", when, i.pid);
  MC_REQUIRE(i.name == pname, "%s: process name '%s' instead of '%s'", when, i.name.c_str(), pname.c_str());
  MC_REQUIRE(i.threads == n, "%s: thread names '%s' instead of '%s'", when, show(i.threads).c_str(), show(n).c_str());
}
// --- a thread under step by step control, so that every history is sequential
static const std::string kSecond = "sec\xc3\xb6nd" + std::string(300, '2');
struct Puppet
{
  std::thread t;
  std::atomic<int> cmd{ 0 }, done{ 0 };
  unsigned long tid = 0;
  bool alive = false;
  void loop()
  {
    int seen = 0;
    while (true)
    {
      while (cmd.load() == seen)
        mc::sleep_ms(1);
      int v = cmd.load();
      seen = v;
      int op = v % 10;
      if (op == 1)
      {
        TRACE_THREAD_NAME("macro");
      }
      if (op == 2)
        scalopus::ThreadNameTracker::getInstance().setCurrentName("first");
      if (op == 3)
        scalopus::ThreadNameTracker::getInstance().setCurrentName(kSecond);
      if (op == 9)
        return;
      done = v;
    }
  }
  void start()
  {
    cmd = done = 0;
    std::atomic<bool> up{ false };
    t = std::thread([&] {
      tid = me();
      up = true;
      loop();
    });
    while (!up)
      mc::sleep_ms(1);
    alive = true;
  }
  int n = 0;
  void run(int op)
  {
    int v = (++n) * 10 + op;
    cmd = v;
    if (op == 9)
    {
      t.join();
      alive = false;
      return;
    }
    while (done.load() != v)
      mc::sleep_ms(1);
  }
};
MC_SCENARIO(histories, 0, 0, mc::SEQ, 60)
{
  mc::set_pid(mc::choose(2, "pid") ? 4242 : 7);
  Remote r;
  Puppet p[2];
  bool macro_done[2] = { false, false };
  std::map<int, std::string> own;
  std::string pname;
  int steps = mc::tier() ? 6 : 5;
  for (int i = 0; i < steps; i++)
  {
    int o = mc::choose(11, "op");
    if (o < 10)
    {
      int k = o % 2, op = o / 2;  // 0 start, 1 macro, 2/3 name, 4 exit
      if ((op == 0) == p[k].alive)
        break;
      if (op == 0)
      {
        p[k].start();
        macro_done[k] = false;
      }
      else if (op == 4)
      {
        p[k].run(9);
        own.erase(k);
      }
      else
      {
        p[k].run(op);
        if (op == 1 && !macro_done[k])
        {
          macro_done[k] = true;
          own[k] = "macro";
        }
        else if (op != 1)
          own[k] = op == 2 ? "first" : kSecond;
      }
    }
    else
    {
      pname = pname.empty() ? "proc" : pname == "proc" ? "other \"name\"" + std::string(300, 'o') : "";
      r.server->setProcessName(pname);
    }
    Names n;
    for (auto& x : own)
      n[p[x.first].tid] = x.second;
    expect(r.client->processInfo(), pname, n, "after a step");
  }
  for (auto& x : p)
    if (x.alive)
      x.run(9);
  expect(r.client->processInfo(), pname, {}, "after all threads ended");
}
MC_SCENARIO(concurrent, 4, 5, mc::DELAY, 10)
{
  Remote r;
  r.server->setProcessName("A");
  TRACE_THREAD_NAME("main");
  unsigned long t1 = 0, t2 = 0, self = me();
  std::atomic<bool> up1{ false }, up2{ false };
  std::thread a([&] {
    t1 = me();
    up1 = true;
    TRACE_THREAD_NAME("one");
    scalopus::ThreadNameTracker::getInstance().setCurrentName("ONE");
  });
  std::thread b([&] {
    t2 = me();
    up2 = true;
    TRACE_THREAD_NAME("two");
    r.server->setProcessName("B");
  });
  for (int i = 0; i < 2; i++)
  {
    Info in = r.client->processInfo();
    MC_REQUIRE(in.pid == getpid() && (in.name == "A" || in.name == "B"), "process '%s' %d", in.name.c_str(), in.pid);
    MC_REQUIRE(in.threads.count(self) && in.threads[self] == "main", "the name of a live thread is missing");
    for (auto& x : in.threads)
      if (x.first != self)
      {
        bool ok = (up1 && x.first == t1 && (x.second == "one" || x.second == "ONE")) || (up2 && x.first == t2 && x.second == "two");
        MC_REQUIRE(ok, "name '%s' belongs to no live thread of that name", x.second.c_str());
      }
  }
  b.join();
  a.join();
  expect(r.client->processInfo(), "B", { { self, "main" } }, "at the end");
}
// a thread that inherits the identity of an exited one does not inherit its name
MC_SCENARIO(successor, 3, 4, 0, 10)
{
  Remote r;
  for (int i = 0; i < 3; i++)
  {
    unsigned long id = 0;
    std::thread t([&] {
      id = me();
      Info before = r.client->processInfo();
      MC_REQUIRE(before.threads.empty(), "a new thread finds the name '%s'", show(before.threads).c_str());
      if (i != 1)
      {
        TRACE_THREAD_NAME(i == 0 ? "n0" : "n2");
      }
      Info after = r.client->processInfo();
      Names w;
      if (i != 1)
        w[id] = i == 0 ? "n0" : "n2";
      MC_REQUIRE(after.threads == w, "names are '%s'", show(after.threads).c_str());
    });
    t.join();
    mc::outcome("%d", i);
  }
  MC_REQUIRE(r.client->processInfo().threads.empty(), "name of an exited thread remains");
}
// names assigned on behalf of another thread, for every order with its own naming
MC_SCENARIO(on_behalf, 3, 4, 0, 10)
{
  Remote r;
  unsigned long id = 0;
  std::atomic<int> st{ 0 };
  std::thread t([&] {
    id = me();
    st = 1;
    TRACE_THREAD_NAME("own");
    while (st != 2)
      mc::sleep_ms(1);
  });
  while (st != 1)
    mc::sleep_ms(1);
  scalopus::ThreadNameTracker::getInstance().setThreadName(id, "given");
  scalopus::ThreadNameTracker::getInstance().setThreadName(99, "foreign");
  Info i = r.client->processInfo();
  MC_REQUIRE(i.threads.size() == 2 && i.threads[99] == "foreign" && (i.threads[id] == "given" || i.threads[id] == "own"), "names are '%s'", show(i.threads).c_str());
  mc::outcome("%s", i.threads[id].c_str());
  st = 2;
  t.join();
  expect(r.client->processInfo(), "", { { 99, "foreign" } }, "after the thread ended");
}
// no answer
MC_SCENARIO(failures, 0, 0, mc::SEQ, 10)
{
  Remote r;
  TRACE_THREAD_NAME("main");
  r.server->setProcessName("P");
  r.c->mode = (direct::Mode)(1 + mc::choose(3, "mode"));
  static const char* G[] = { "", "x", "\x05\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff" };
  static const size_t N[] = { 0, 1, 5, 6 };
  int g = mc::choose(4, "garbage");
  r.c->garbage.assign(G[g], G[g] + N[g]);
  try
  {
    Info i = r.client->processInfo();
    MC_REQUIRE(i.name.empty() && i.threads.empty() && i.pid != (int)getpid(), "data '%s' %d although nobody answered", i.name.c_str(), i.pid);
  }
  catch (const std::exception&)
  {
  }
  r.c->mode = direct::ANSWER;
  expect(r.client->processInfo(), "P", { { me(), "main" } }, "after a failure");
}
// --- linearizability of the map: three threads with every program of operations over two keys
struct Op
{
  int kind, key, val;  // 0 insert 1 erase 2 getValue 3 exists 4 getMap 5 clear
};
struct Ev
{
  Op op;
  int inv = 0, ret = 0;
  long result = 0;
};
using Tracker = scalopus::MapTracker<int, std::string>;
static const char* VAL[] = { "", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", "c" };
static int enc(const std::string& s)
{
  for (int i = 0; i < 4; i++)
    if (s == VAL[i])
      return i + 1;
  return 9;
}
static long apply(const Op& o, int st[2])
{
  switch (o.kind)
  {
    case 0: st[o.key] = o.val + 1; return 0;
    case 1: st[o.key] = 0; return 0;
    case 2: return st[o.key] ? st[o.key] : -1;
    case 3: return st[o.key] != 0;
    case 4: return st[0] * 10 + st[1];
    default: st[0] = st[1] = 0; return 0;
  }
}
static long perform(Tracker& m, const Op& o)
{
  switch (o.kind)
  {
    case 0: m.insert(o.key, VAL[o.val]); return 0;
    case 1: m.erase(o.key); return 0;
    case 2:
      try
      {
        return enc(m.getValue(o.key));
      }
      catch (const std::out_of_range&)
      {
        return -1;
      }
    case 3: return m.exists(o.key);
    case 4:
    {
      auto x = m.getMap();
      long r = 0;
      size_t n = 0;
      for (int k = 0; k < 2; k++)
      {
        auto it = x.find(k);
        r = r * 10 + (it == x.end() ? 0 : enc(it->second));
        n += it != x.end();
      }
      return n == x.size() ? r : 999;
    }
    default: m.clear(); return 0;
  }
}
static bool lin(std::vector<Ev>& e, unsigned done, int s0, int s1)
{
  if (done + 1 == 1u << e.size())
    return true;
  int first = 1 << 30;
  for (size_t i = 0; i < e.size(); i++)
    if (!(done >> i & 1) && e[i].ret < first)
      first = e[i].ret;
  for (size_t i = 0; i < e.size(); i++)
    if (!(done >> i & 1) && e[i].inv < first)
    {
      int st[2] = { s0, s1 };
      if (apply(e[i].op, st) == e[i].result && lin(e, done | 1u << i, st[0], st[1]))
        return true;
    }
  return false;
}
static void linear(int nthreads, int nops, bool full)
{
  static const Op MENU[] = { { 0, 0, 1 }, { 0, 0, 2 }, { 1, 0, 0 }, { 2, 0, 0 }, { 4, 0, 0 }, { 0, 1, 3 }, { 5, 0, 0 }, { 3, 1, 0 } };
  Tracker m;
  int pre = mc::choose(2, "initial");
  if (pre)
    m.insert(0, VAL[3]);
  std::vector<Ev> ev(size_t(nthreads * nops));
  for (auto& x : ev)
    x.op = MENU[mc::choose(full ? 8 : 6, "op")];
  std::vector<std::thread> t;
  {
    for (int k = 0; k < nthreads; k++)
      t.emplace_back([&, k] {
        for (int j = 0; j < nops; j++)
        {
          Ev& e = ev[size_t(k * nops + j)];
          mc::record(1);
          e.inv = mc::record_count();
          e.result = perform(m, e.op);
          mc::record(2);
          e.ret = mc::record_count();
        }
      });
    for (auto& x : t)
      x.join();
  }
  Ev fin;
  fin.op = { 4, 0, 0 };
  fin.inv = 1 << 20;
  fin.ret = (1 << 20) + 1;
  fin.result = perform(m, fin.op);
  ev.push_back(fin);
  if (!lin(ev, 0, pre ? 4 : 0, 0))
  {
    std::string s;
    for (auto& e : ev)
      s += "kind " + std::to_string(e.op.kind) + " key " + std::to_string(e.op.key) + " result " + std::to_string(e.result) + "; ";
    mc::fail("property", "no order of the operations explains the results: %s", s.c_str());
  }
}
MC_SCENARIO(linear2x1, 3, 4, 0, 10) { linear(2, 1, true); }
MC_SCENARIO(linear2x2, 2, 3, 0, 10) { linear(2, 2, false); }
MC_SCENARIO(linear3x1, 2, 3, 0, 10) { linear(3, 1, false); }
// any number of names, assigned explicitly
MC_SCENARIO(many_names, 0, 0, mc::SEQ, 60)
{
  mc::set_pid(7);
  Remote r;
  Names n;
  const int sizes[] = { 1, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300 };
  const int count = sizes[mc::choose(11, "number")];
  const int shift = mc::choose(3, "distance") * 16;  // identifiers of any width
  for (int i = 1; i <= count; i++)
  {
    const unsigned long tid = (unsigned long)i << shift;
    n[tid] = i % 7 ? "name " + std::to_string(i) : std::string();
    scalopus::ThreadNameTracker::getInstance().setThreadName(tid, n[tid]);
  }
  expect(r.client->processInfo(), "", n, "with many names");
}
