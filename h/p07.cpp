// P07: discovery lists exactly the serving processes.
#include <algorithm>
#include "tu.h"
using namespace tu;
static std::string list(scalopus::TransportUnixFactory& f)
{
  auto v = f.discover();
  std::vector<std::string> s;
  for (auto& d : v)
    s.push_back(d ? std::string(*d) : "null");
  std::sort(s.begin(), s.end());
  std::string r;
  for (auto& x : s)
    r += x;
  return r;
}
// lines the kernel can produce; pid > 0: that line is the listening socket of the scalopus server with this pid
struct Line
{
  const char* text;
  int pid;
};
static const Line LINES[] = {
  { "0000000000000000: 00000002 00000000 00010000 0001 01 235190 @16121_scalopus", 16121 },
  { "ffff9d3c4a1b8c00: 00000002 00000000 00010000 0001 01 62552 @7_scalopus", 7 },
  { "0000000000000000: 00000007 00000000 00010000 0001 01    42 @4194304_scalopus", 4194304 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 4294967301 @12_scalopus", 12 },
  // accepted, and still queued, connections of 16121
  { "0000000000000000: 00000003 00000000 00000000 0001 03 53872 @16121_scalopus", 0 },
  { "0000000000000000: 00000003 00000000 00000000 0001 02     0 @16121_scalopus", 0 },
  // connections of a server that is gone
  { "0000000000000000: 00000003 00000000 00000000 0001 03 53873 @55_scalopus", 0 },
  { "0000000000000000: 00000003 00000000 00000000 0001 02     0 @56_scalopus", 0 },
  // bound but not (yet) listening
  { "0000000000000000: 00000002 00000000 00000000 0001 01 53874 @57_scalopus", 0 },
  // unnamed sockets
  { "0000000000000000: 00000003 00000000 00000000 0001 03  1176", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01  1177", 0 },
  // other programs
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20000 /run/systemd/private", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20001 /tmp/123_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20002 @foo_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20003 @_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20004 _scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20005 @scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20006 @31_scalopus_x", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20007 @32x_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20008 @-33_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20009 @x 34_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20010 @x @35_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20011 @99999999999999999999999_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20012 36_scalopus", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20013 @37_scalopu", 0 },
  { "0000000000000000: 00000002 00000000 00010000 0001 01 20014 @@38_scalopus", 0 },
  // malformed
  { "", 0 },
  { "s", 0 },
  { " ", 0 },
  { "_scalopus", 0 },
  { "@_scalopus", 0 },
  { "@39_scalopus", 0 },
};
static const int NL = (int)(sizeof LINES / sizeof LINES[0]);
static void table(int n)
{
  scalopus::TransportUnixFactory f;
  static char text[4096];
  std::string t;
  if (mc::choose(2, "header") == 0)
    t = "Num       RefCount Protocol Flags    Type St Inode Path\n";
  std::vector<std::string> want;
  for (int i = 0; i < n; i++)
  {
    const Line& l = LINES[mc::choose(NL, "line")];
    t += l.text;
    t += "\n";
    if (l.pid)
    {
      std::string d = "<unix:" + std::to_string(l.pid) + ">";
      for (auto& w : want)
        if (w == d)
          mc::finish();  // one name cannot be bound twice
      want.push_back(d);
    }
  }
  if (!t.empty() && mc::choose(2, "last newline") == 1)
    t.pop_back();
  snprintf(text, sizeof text, "%s", t.c_str());
  mc::set_proc_net_unix(text);
  std::sort(want.begin(), want.end());
  std::string w;
  for (auto& x : want)
    w += x;
  std::string got = list(f);
  MC_REQUIRE(got == w, "discovered '%s' instead of '%s' from:\n%s", got.c_str(), w.c_str(), text);
  mc::outcome("%s", got.c_str());
}
MC_SCENARIO(table1, 0, 0, mc::SEQ, 10) { table(1); }
MC_SCENARIO(table2, 0, 0, mc::SEQ, 10) { table(2); }
MC_SCENARIO(table3, 0, -1, mc::SEQ, 10) { table(3); }
MC_SCENARIO(table4, -1, 0, mc::SEQ, 10) { table(4); }

// long tables: servers spread among the sockets of others
MC_SCENARIO(long_table, 0, 0, mc::SEQ, 60)
{
  static const int S[] = { 1, 31, 32, 33, 64, 65, 128, 129, 300 }, O[] = { 0, 1, 7, 20 };
  const int servers = S[mc::choose(9, "servers")], others = O[mc::choose(4, "others")];
  static std::string text;
  text = "Num       RefCount Protocol Flags    Type St Inode Path\n";
  std::vector<std::string> want;
  for (int i = 0; i < servers; i++)
  {
    for (int k = 0; k < others; k++)
      text += LINES[4 + (i + k) % (NL - 4)].text + std::string("\n");
    const std::string pid = std::to_string(100 + i * 37);
    text += "ffff9d3c4a1b8c00: 00000002 00000000 00010000 0001 01 " + std::to_string(60000 + i) + " @" + pid + "_scalopus\n";
    want.push_back("<unix:" + pid + ">");
  }
  mc::set_proc_net_unix(text.c_str());
  std::sort(want.begin(), want.end());
  std::string w;
  for (auto& x : want)
    w += x;
  scalopus::TransportUnixFactory f;
  std::string got = list(f);
  MC_REQUIRE(got == w, "of %d servers among %d lines each '%s' was discovered", servers, others, got.c_str());
}
// every history of serving, connecting, disconnecting and stopping over two processes, discovery after each step
MC_SCENARIO(history, 0, 0, mc::SEQ, 60)
{
  scalopus::TransportUnixFactory f;
  Transport::Ptr srv[2];
  scalopus::Destination::Ptr dst[2];
  std::vector<Transport::Ptr> cl;
  std::vector<int> raw;
  int steps = mc::tier() ? 6 : 5;
  for (int i = 0; i < steps; i++)
  {
    int o = mc::choose(9, "op");
    int p = o & 1;
    if (o < 2)
    {
      mc::set_pid(100 + p);
      if (srv[p])
      {
        MC_REQUIRE(f.serve() == nullptr, "served twice");
        continue;
      }
      srv[p] = f.serve();
      MC_REQUIRE(srv[p] != nullptr, "serving failed");
      srv[p]->addEndpoint(echo("a", p));
      dst[p] = srv[p]->getAddress();
    }
    else if (o < 4)
    {
      mc::set_pid(100 + p);
      if (!srv[p])
        break;
      srv[p].reset();
    }
    else if (o < 6)
    {
      if (!srv[p])
        break;
      mc::set_pid(200);
      auto c = f.connect(dst[p]);
      MC_REQUIRE(c != nullptr, "connecting failed");
      if (mc::choose(2, "ask") == 1)
        ask(c, "a", "x");
      cl.push_back(c);
    }
    else if (o < 8)
    {
      if (!srv[p])
        break;
      raw.push_back(raw_connect(100 + p));  // never says anything
    }
    else
    {
      if (cl.empty())
        break;
      cl.erase(cl.begin());
    }
    mc::set_pid(200);
    std::string want = std::string(srv[0] ? "<unix:100>" : "") + (srv[1] ? "<unix:101>" : "");
    std::string got = list(f);
    MC_REQUIRE(got == want, "discovered '%s' instead of '%s'", got.c_str(), want.c_str());
    for (auto& d : f.discover())
    {
      auto c = f.connect(d);
      MC_REQUIRE(c != nullptr && c->isConnected(), "discovered server %s does not accept connections", std::string(*d).c_str());
    }
  }
  for (int fd : raw)
    ::close(fd);
  cl.clear();
  mc::set_pid(100);
  srv[0].reset();
  mc::set_pid(101);
  srv[1].reset();
}
// discovering while other processes start, stop, connect
MC_SCENARIO(concurrent, 2, 3, mc::DELAY | mc::NO_ATOMICS, 10)
{
  scalopus::TransportUnixFactory f;
  mc::set_pid(100);
  auto s = f.serve();
  auto dest = s->getAddress();
  s->addEndpoint(echo("a", 1));
  mc::set_pid(300);
  std::thread t([&] {
    scalopus::TransportUnixFactory g;
    auto s2 = g.serve();
    MC_REQUIRE(s2 != nullptr, "serving failed");
    auto c = g.connect(dest);
    MC_REQUIRE(c != nullptr, "connecting failed");
    ask(c, "a", "1");
  });
  mc::set_pid(200);
  for (int i = 0; i < 2; i++)
  {
    std::string l = list(f);
    MC_REQUIRE(l == "<unix:100>" || l == "<unix:100><unix:300>", "discovered '%s'", l.c_str());
  }
  t.join();
  std::string l = list(f);
  MC_REQUIRE(l == "<unix:100>", "discovered '%s' after the other server stopped", l.c_str());
  mc::set_pid(100);
  s.reset();
  mc::set_pid(200);
  l = list(f);
  MC_REQUIRE(l.empty(), "discovered '%s' after all servers stopped", l.c_str());
}
