// Coordinator: enumerates executions of a scenario in order of increasing deviation cost.
#include <algorithm>
#include <chrono>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.h"
#include "rt.h"
#include "rt_core.h"

namespace mcrt
{
const mc::Scenario& scenario(int i);
}
namespace mc
{
void set_tier(int);
}
using namespace mcrt;
typedef std::chrono::steady_clock Clk;

struct Trace
{
  std::vector<uint8_t> ch;
  std::vector<Point> pts;  // from start on
  uint32_t start;          // first point that belongs to this execution's own suffix
  std::vector<uint8_t> ns;
};
struct Cursor
{
  std::shared_ptr<Trace> t;
  uint32_t pos;
  int alt;
  bool costly;
};
struct Known { std::string scen, kind, sub, id; };

static int nworkers = 8;
static Slot* slots;
static Cache* cache;
static volatile int* doneword;
static bool g_verbose = false;
static std::string self_exe;
static std::vector<Known> known;

static void worker(int idx, int cpu)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(cpu, &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  if (!g_verbose)
  {
    int fd = (int)rsys(SYS_open, (long)"/dev/null", O_RDWR);
    rsys(SYS_dup2, fd, 1);
    rsys(SYS_dup2, fd, 2);
    if (fd > 2)
      rsys(SYS_close, fd);
  }
  Slot* s = &slots[idx];
  while (true)
  {
    while (s->job != 1)
    {
      int j = s->job;
      if (j == 3)
        rsys(SYS_exit_group, 0);
      if (j != 1)
        rsys(SYS_futex, (long)&s->job, FUTEX_WAIT, j, 0);
    }
    s->status = ST_NONE;
    pid_t p = fork();
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      run_child(s->scenario, s, cache);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (s->status == ST_NONE)
    {
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
      {
        s->status = ST_TIMEOUT;
        snprintf(s->kind, sizeof s->kind, "stuck");
        snprintf(s->msg, sizeof s->msg, "execution did not reach a scheduling point any more (killed by signal %d)", WTERMSIG(st));
      }
      else
      {
        s->status = ST_VIOLATION;
        snprintf(s->kind, sizeof s->kind, "crash");
        snprintf(s->msg, sizeof s->msg, "process died: wait status %d%s", st, WIFSIGNALED(st) ? " (signal)" : " (exit)");
      }
    }
    __atomic_store_n(&s->job, 2, __ATOMIC_SEQ_CST);
    __atomic_fetch_add(doneword, 1, __ATOMIC_SEQ_CST);
    rsys(SYS_futex, (long)doneword, FUTEX_WAKE, 1);
  }
}
static void start(Slot* s)
{
  __atomic_store_n(&s->job, 1, __ATOMIC_SEQ_CST);
  rsys(SYS_futex, (long)&s->job, FUTEX_WAKE, 1);
}
static void wait_slot(Slot* s)
{
  while (s->job == 1)
  {
    int d = *doneword;
    if (s->job != 1)
      break;
    rsys(SYS_futex, (long)doneword, FUTEX_WAIT, d, 0);
  }
}
static std::string symbolise(const uint64_t* pcs)
{
  std::string r;
  for (int i = 0; i < 3; i++)
  {
    if (pcs[i] == 0 || pcs[i] > 0xffffffffu)
      continue;
    char cmd[4300];
    snprintf(cmd, sizeof cmd, "addr2line -Cfpse '%s' 0x%llx 2>/dev/null", self_exe.c_str(), (unsigned long long)pcs[i] - 1);
    FILE* f = popen(cmd, "r");
    char b[600];
    if (f && fgets(b, sizeof b, f))
    {
      b[strcspn(b, "\n")] = 0;
      r += std::string(r.empty() ? "" : "; ") + b;
    }
    if (f)
      pclose(f);
  }
  return r;
}
static std::string jstr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c < 32 || c >= 127)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += (char)c;
  }
  return r + "\"";
}
struct Result
{
  uint64_t execs = 0, pruned = 0, steps = 0, cases = 0, points = 0, states = 0, maxpts = 0, slow = 0;
  int completed = -1, bound = 0;
  bool exhaustive = false;  // nothing was cut off by the deviation bound
  double secs = 0;
  std::map<std::string, uint64_t> outcomes;
  bool violation = false, error = false;
  std::string kind, msg, where;
  std::vector<uint8_t> choices, ns;
  std::map<std::string, uint64_t> known_hits;
  int vcost = 0;
};
static void set_prefix(Slot* s, const std::vector<uint8_t>& ch, const std::vector<uint8_t>& ns)
{
  s->prefix_len = (uint32_t)ch.size();
  memcpy(s->prefix, ch.data(), ch.size());
  memcpy(s->prefix_n, ns.data(), ns.size());
}
static Result explore(int si, int bound, double tcap)
{
  const mc::Scenario& sc = scenario(si);
  Result R;
  R.bound = bound;
  auto t0 = Clk::now();
  size_t nent = size_t(1) << 26;
  size_t csz = sizeof(Cache) + nent * 8;
  cache = (Cache*)mmap(nullptr, csz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cache->mask = nent - 1;
  doneword = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  slots = (Slot*)mmap(nullptr, sizeof(Slot) * (size_t)nworkers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::vector<pid_t> pids;
  cpu_set_t avail;
  sched_getaffinity(0, sizeof avail, &avail);
  std::vector<int> cpus;
  for (int i = 0; i < CPU_SETSIZE; i++)
    if (CPU_ISSET(i, &avail))
      cpus.push_back(i);
  for (int i = 0; i < nworkers; i++)
  {
    pid_t p = fork();
    if (p == 0)
      worker(i, cpus[(size_t)i % cpus.size()]);
    pids.push_back(p);
  }
  std::vector<std::vector<Cursor>> bucket((size_t)bound + 2);
  bool cut = false;
  std::vector<int> running((size_t)nworkers, -1);  // cost bucket
  int nrun = 0;
  int cur = 0;
  bool root_done = false, stop = false;
  auto next_item = [&](std::vector<uint8_t>& ch, std::vector<uint8_t>& ns) -> bool {
    if (!root_done)
    {
      root_done = true;
      ch.clear();
      ns.clear();
      return true;
    }
    auto& b = bucket[(size_t)cur];
    while (!b.empty())
    {
      Cursor& c = b.back();
      Trace& t = *c.t;
      bool found = false;
      while (c.pos < t.pts.size())
      {
        const Point& p = t.pts[c.pos];
        while (c.alt < p.n)
        {
          int a = c.alt++;
          bool costly = p.kind == PK_SCHED ? (p.costmask >> a) & 1 : p.kind == PK_DEV;
          if (costly == c.costly)
          {
            ch.assign(t.ch.begin(), t.ch.begin() + t.start + c.pos);
            ch.push_back((uint8_t)a);
            ns.assign(t.ns.begin(), t.ns.begin() + t.start + c.pos + 1);
            found = true;
            break;
          }
        }
        if (found)
          break;
        c.pos++;
        c.alt = 1;
      }
      if (found)
        return true;
      b.pop_back();
    }
    return false;
  };
  Slot* vslot = nullptr;
  while (true)
  {
    bool timeup = std::chrono::duration<double>(Clk::now() - t0).count() > tcap;
    if (timeup)
      stop = true;
    // start work
    for (int i = 0; i < nworkers && !stop; i++)
    {
      if (running[(size_t)i] >= 0)
        continue;
      std::vector<uint8_t> ch, ns;
      if (!next_item(ch, ns))
        break;
      Slot* s = &slots[i];
      set_prefix(s, ch, ns);
      s->use_cache = 1;
      s->verbose = 0;
      s->rerun_slow = 0;
      s->scenario = si;
      running[(size_t)i] = cur;
      nrun++;
      start(s);
    }
    if (nrun == 0)
    {
      if (stop)
        break;
      R.completed = cur;
      // more in a later bucket?
      cur++;
      if (cur > bound)
        break;
      continue;
    }
    int d = *doneword;
    bool any = false;
    for (int i = 0; i < nworkers; i++)
    {
      if (running[(size_t)i] < 0 || slots[i].job != 2)
        continue;
      any = true;
      Slot* s = &slots[i];
      int cst = running[(size_t)i];
      running[(size_t)i] = -1;
      s->job = 0;
      nrun--;
      if (s->status == ST_TIMEOUT && !s->rerun_slow)
      {
        R.slow++;
        s->rerun_slow = 1;
        running[(size_t)i] = cst;
        nrun++;
        start(s);
        continue;
      }
      R.execs++;
      R.steps += s->steps;
      R.states += s->new_states;
      R.cases += s->cases;
      uint32_t own = s->prefix_len;
      if (s->npoints > own)
        R.points += s->npoints - own;
      R.maxpts = std::max<uint64_t>(R.maxpts, s->npoints);
      if (s->status == ST_PRUNED)
        R.pruned++;
      if (s->status == ST_ERROR)
      {
        R.error = true;
        R.kind = s->kind;
        R.msg = s->msg;
        stop = true;
      }
      bool expand = true;
      if (s->status == ST_VIOLATION || s->status == ST_TIMEOUT)
      {
        bool kn = false;
        if (!known.empty())
        {
          std::string w = std::string(s->msg) + " @ " + symbolise(s->pcs);
          for (auto& k : known)
            if (k.scen == sc.name && k.kind == s->kind && w.find(k.sub) != std::string::npos)
            {
              kn = true;
              R.known_hits[k.id]++;
            }
        }
        if (!kn && !R.violation && !R.error)
        {
          R.violation = true;
          R.kind = s->kind;
          R.msg = s->msg;
          R.vcost = cst;
          for (uint32_t k = 0; k < s->npoints; k++)
          {
            R.choices.push_back(s->pts[k].chosen);
            R.ns.push_back(s->pts[k].n);
          }
          vslot = s;
          stop = true;
        }
        expand = kn;
      }
      if (s->status == ST_OK)
      {
        std::string o = s->outcome;
        if (R.outcomes.size() < 100000 || R.outcomes.count(o))
          R.outcomes[o]++;
      }
      if (expand && !stop && s->npoints > own)
      {
        auto t = std::make_shared<Trace>();
        t->start = own;
        bool fr = false, co = false;
        t->ch.resize(s->npoints);
        t->ns.resize(s->npoints);
        for (uint32_t k = 0; k < s->npoints; k++)
        {
          t->ch[k] = s->pts[k].chosen;
          t->ns[k] = s->pts[k].n;
        }
        for (uint32_t k = own; k < s->npoints; k++)
        {
          const Point& p = s->pts[k];
          t->pts.push_back(p);
          for (int a = 1; a < p.n; a++)
          {
            bool costly = p.kind == PK_SCHED ? (p.costmask >> a) & 1 : p.kind == PK_DEV;
            (costly ? co : fr) = true;
          }
        }
        if (fr)
          bucket[(size_t)cst].push_back({ t, 0, 1, false });
        if (co)
        {
          if (cst + 1 <= bound)
            bucket[(size_t)cst + 1].push_back({ t, 0, 1, true });
          else
            cut = true;
        }
      }
    }
    if (!any)
    {
      struct timespec ts = { 1, 0 };
      rsys(SYS_futex, (long)doneword, FUTEX_WAIT, d, (long)&ts);
    }
  }
  (void)vslot;
  R.exhaustive = !cut && R.completed == bound && !R.violation && !R.error;
  // confirm a violation by replaying it without the state cache
  if (R.violation)
  {
    for (int rep = 0; rep < 2; rep++)
    {
      Slot* s = &slots[0];
      set_prefix(s, R.choices, R.ns);
      s->use_cache = 0;
      s->rerun_slow = 1;
      s->scenario = si;
      start(s);
      wait_slot(s);
      s->job = 0;
      if ((s->status != ST_VIOLATION && s->status != ST_TIMEOUT) || R.kind != s->kind)
      {
        R.error = true;
        R.violation = false;
        R.msg = "violation did not reproduce (" + R.kind + ": " + R.msg + "), replay gave status " + std::to_string(s->status) + " " + s->kind + " " + s->msg;
        break;
      }
      R.where = symbolise(s->pcs);
    }
  }
  for (int i = 0; i < nworkers; i++)
  {
    slots[i].job = 3;
    kill(pids[(size_t)i], SIGKILL);
    int st;
    waitpid(pids[(size_t)i], &st, 0);
  }
  munmap(cache, csz);
  munmap((void*)slots, sizeof(Slot) * (size_t)nworkers);
  R.secs = std::chrono::duration<double>(Clk::now() - t0).count();
  return R;
}
static int replay(const std::string& file)
{
  std::ifstream in(file);
  std::string tok, name;
  std::vector<uint8_t> ch, ns;
  int tier = 0;
  std::string line;
  while (std::getline(in, line))
  {
    std::istringstream ls(line);
    ls >> tok;
    if (tok == "scenario")
      ls >> name;
    else if (tok == "tier")
      ls >> tier;
    else if (tok == "choices")
    {
      int v;
      while (ls >> v)
        ch.push_back((uint8_t)v), ns.push_back(0);
    }
  }
  mc::set_tier(tier);
  for (int i = 0; i < scenario_count(); i++)
    if (name == scenario(i).name)
    {
      g_verbose = true;
      slots = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      Slot* s = slots;
      set_prefix(s, ch, ns);
      s->verbose = 1;
      s->rerun_slow = 1;
      pid_t p = fork();
      if (p == 0)
      {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(0, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        run_child(i, s, nullptr);
      }
      int st;
      waitpid(p, &st, 0);
      printf("status %u wait %d kind %s\n%s\n%s\noutcome: %s\n", s->status, st, s->kind, s->msg, symbolise(s->pcs).c_str(), s->outcome);
      return s->status == ST_OK || s->status == ST_PRUNED ? 0 : 1;
    }
  fprintf(stderr, "no such scenario %s\n", name.c_str());
  return 2;
}
int main(int argc, char** argv)
{
  char b[4096];
  ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
  self_exe = std::string(b, k > 0 ? (size_t)k : 0);
  std::vector<std::string> want;
  std::string out, vdir = ".", tier = "quick";
  int bound = -1;
  double tcap = 1e9, total = 1e9;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list")
    {
      for (int j = 0; j < scenario_count(); j++)
        printf("%s %d %d\n", scenario(j).name, scenario(j).bound_quick, scenario(j).bound_thorough);
      return 0;
    }
    else if (a == "--scenario") want.push_back(nxt());
    else if (a == "--tier") tier = nxt();
    else if (a == "--bound") bound = atoi(nxt().c_str());
    else if (a == "--time") tcap = atof(nxt().c_str());
    else if (a == "--total") total = atof(nxt().c_str());
    else if (a == "--out") out = nxt();
    else if (a == "--vdir") vdir = nxt();
    else if (a == "--workers") nworkers = atoi(nxt().c_str());
    else if (a == "--known")
    {
      // scenario|kind|substring|id
      std::string l = nxt();
      std::vector<std::string> f;
      size_t p = 0, q;
      while ((q = l.find('|', p)) != std::string::npos)
        f.push_back(l.substr(p, q - p)), p = q + 1;
      f.push_back(l.substr(p));
      if (f.size() == 4)
        known.push_back({ f[0], f[1], f[2], f[3] });
    }
    else if (a == "--replay") return replay(nxt());
    else
    {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  int t = tier == "thorough";
  mc::set_tier(t);
  std::string js;
  int rc = 0;
  auto T0 = Clk::now();
  for (int i = 0; i < scenario_count(); i++)
  {
    const mc::Scenario& s = scenario(i);
    if (!want.empty() && std::find(want.begin(), want.end(), s.name) == want.end())
      continue;
    int bd = bound >= 0 ? bound : t ? s.bound_thorough : s.bound_quick;
    if (bd < 0)
      continue;
    double left = total - std::chrono::duration<double>(Clk::now() - T0).count();
    Result R = explore(i, bd, std::min(tcap, std::max(left, 1.0)));
    fprintf(stderr, "%-34s bound %d/%d%s execs %llu pruned %llu states %llu points %llu max %llu outcomes %zu %.1fs%s\n", s.name, R.completed, bd,
            R.exhaustive ? " full" : "", (unsigned long long)R.execs, (unsigned long long)R.pruned, (unsigned long long)R.states,
            (unsigned long long)R.points, (unsigned long long)R.maxpts, R.outcomes.size(), R.secs,
            R.violation ? " VIOLATION" : R.error ? " ERROR" : "");
    std::string rf;
    if (R.violation || R.error)
    {
      fprintf(stderr, "  %s: %s\n  at %s\n  deviations %d\n", R.kind.c_str(), R.msg.c_str(), R.where.c_str(), R.vcost);
      rf = vdir + "/" + s.name + ".replay";
      std::ofstream o(rf);
      o << "scenario " << s.name << "\ntier " << t << "\nkind " << R.kind << "\nwhere " << R.where << "\nchoices";
      for (auto c : R.choices)
        o << ' ' << (int)c;
      std::string m = R.msg;
      std::replace(m.begin(), m.end(), '\n', ' ');
      o << "\nmsg " << m << "\n";
    }
    js += js.empty() ? "" : ",\n";
    js += "{\"scenario\":" + jstr(s.name) + ",\"bound\":" + std::to_string(bd) + ",\"completed\":" + std::to_string(R.completed) +
          ",\"executions\":" + std::to_string(R.execs) + ",\"cases\":" + std::to_string(R.cases) + ",\"pruned\":" + std::to_string(R.pruned) + ",\"states\":" + std::to_string(R.states) +
          ",\"transitions\":" + std::to_string(R.steps) + ",\"choice_points\":" + std::to_string(R.points) + ",\"longest\":" + std::to_string(R.maxpts) +
          ",\"exhaustive\":" + (R.exhaustive ? "true" : "false") + ",\"seconds\":" + std::to_string(R.secs) +
          ",\"distinct_outcomes\":" + std::to_string(R.outcomes.size());
    js += ",\"outcomes\":[";
    int c = 0;
    for (auto& o : R.outcomes)
    {
      if (c++ >= 12)
        break;
      js += (c > 1 ? "," : "") + jstr(o.first) ;
    }
    js += "],\"known\":{";
    c = 0;
    for (auto& o : R.known_hits)
      js += (c++ ? "," : "") + jstr(o.first) + ":" + std::to_string(o.second);
    js += "}";
    if (R.violation || R.error)
      js += std::string(",") + (R.violation ? "\"violation\"" : "\"error\"") + ":{\"kind\":" + jstr(R.kind) + ",\"msg\":" + jstr(R.msg) + ",\"where\":" + jstr(R.where) +
            ",\"deviations\":" + std::to_string(R.vcost) + ",\"replay\":" + jstr(rf) + "}";
    js += "}";
    if (R.violation)
    {
      rc = 1;
      break;
    }
    if (R.error && rc == 0)
      rc = 2;
  }
  if (!out.empty())
  {
    std::ofstream o(out);
    o << "[" << js << "]\n";
  }
  return rc;
}
