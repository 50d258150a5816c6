#include "en.h"
#include <chrono>
#include <cstdarg>
#include <cstring>
#include <exception>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
namespace en
{
struct Shared
{
  struct Shard
  {
    volatile uint64_t index, executed, transitions, heartbeat;
    volatile int state;  // 0 running 1 done 2 failed
    char desc[4000];
    char kind[64];
    char msg[4000];
    char sample[6][400];
    int nsample;
  } s[64];
  volatile uint64_t distinct;
  uint64_t tab[1 << 22];
};
static std::vector<Enumerator>& list()
{
  static std::vector<Enumerator> l;
  return l;
}
int add(const Enumerator& e)
{
  list().push_back(e);
  return 0;
}
bool Ctx::next()
{
  uint64_t i = index++;
  auto& s = sh->s[shard];
  if (only >= 0)
  {
    if (i != (uint64_t)only)
      return false;
    s.executed++;
    return true;
  }
  if ((int)(i % (uint64_t)shards) != shard)
    return false;
  s.index = i;
  s.desc[0] = 0;
  s.executed++;
  return true;
}
void Ctx::transitions(uint64_t n) { sh->s[shard].transitions += n; }
void Ctx::describe(const std::string& t)
{
  auto& s = sh->s[shard];
  snprintf(s.desc, sizeof s.desc, "%s", t.c_str());
  if (s.nsample < 6 && (s.executed & (s.executed - 1)) == 0)
    snprintf(s.sample[s.nsample++], 400, "%s", t.c_str());
  if (verbose)
    fprintf(stderr, "case %s\n", t.c_str());
}
void Ctx::digest(uint64_t h)
{
  h = (h ^ (h >> 31)) * 0x9e3779b97f4a7c15ull;
  h ^= h >> 29;
  h |= 1;
  for (uint64_t k = 0; k < 64; k++)
  {
    uint64_t* e = &sh->tab[(h / 2 + k) & ((1 << 22) - 1)];
    uint64_t v = __atomic_load_n(e, __ATOMIC_RELAXED);
    if (v == h)
      return;
    if (v == 0)
    {
      if (__atomic_compare_exchange_n(e, &v, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
      {
        __atomic_fetch_add(&sh->distinct, 1, __ATOMIC_RELAXED);
        return;
      }
      if (v == h)
        return;
    }
  }
}
void Ctx::digest(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  digest(h);
}
void fail(const char* fmt, ...)
{
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Failure("property", b);
}
}  // namespace en
using namespace en;
static void run(const Enumerator& e, Ctx& c)
{
  auto& s = c.sh->s[c.shard];
  try
  {
    e.fn(c);
    s.state = 1;
    return;
  }
  catch (const Failure& f)
  {
    snprintf(s.kind, sizeof s.kind, "%s", f.kind.c_str());
    snprintf(s.msg, sizeof s.msg, "%s", f.what());
  }
  catch (const std::exception& f)
  {
    snprintf(s.kind, sizeof s.kind, "exception");
    snprintf(s.msg, sizeof s.msg, "unexpected exception: %s", f.what());
  }
  s.state = 2;
}
static std::string jstr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    char b[8];
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c < 32 || c > 126)
      snprintf(b, sizeof b, "\\u%04x", c), r += b;
    else
      r += (char)c;
  }
  return r + "\"";
}
int main(int argc, char** argv)
{
  bool thorough = false, replay = false;
  int64_t idx = -1;
  std::string out, vdir = ".", want;
  double tcap = 1e9;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") thorough = nxt() == "thorough";
    else if (a == "--out") out = nxt();
    else if (a == "--vdir") vdir = nxt();
    else if (a == "--time") tcap = atof(nxt().c_str());
    else if (a == "--only") want = nxt();
    else if (a == "--total") nxt();
    else if (a == "--replay")
    {
      std::ifstream in(nxt());
      std::string k;
      while (in >> k)
      {
        if (k == "enumerator") in >> want;
        else if (k == "index") in >> idx;
        else if (k == "tier") { std::string t; in >> t; thorough = t == "thorough"; }
      }
      replay = true;
    }
  }
  Shared* sh = nullptr;
  std::string js;
  int rc = 0;
  for (auto& e : list())
  {
    if (!want.empty() && want != e.name)
      continue;
    if (!replay && !(e.tiers & (thorough ? 2 : 1)))
      continue;
    if (sh)
      munmap(sh, sizeof(Shared));
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (replay)
    {
      Ctx c;
      c.thorough = thorough;
      c.verbose = true;
      c.only = idx;
      c.sh = sh;
      run(e, c);
      printf("%s: %s %s\n", sh->s[0].state == 2 ? "FAIL" : "ok", sh->s[0].kind, sh->s[0].msg);
      return sh->s[0].state == 2;
    }
    auto t0 = std::chrono::steady_clock::now();
    int n = 8;
    pid_t pids[64];
    int st[64];
    bool alive[64];
    for (int k = 0; k < n; k++)
    {
      pids[k] = fork();
      alive[k] = true;
      if (pids[k] == 0)
      {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string lf = vdir + "/" + e.name + ".shard" + std::to_string(k) + ".log";
        int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        int nu = open("/dev/null", O_RDWR);
        dup2(nu, 1);
        dup2(nu, 0);
        Ctx c;
        c.thorough = thorough;
        c.verbose = false;
        c.shard = k;
        c.shards = n;
        c.sh = sh;
        run(e, c);
        _exit(0);
      }
    }
    int left = n;
    bool capped = false, hang = false;
    uint64_t last[64] = { 0 };
    int stale[64] = { 0 };
    int bad = -1;
    int ticks = 0;
    while (left > 0)
    {
      for (int k = 0; k < n; k++)
        if (alive[k] && waitpid(pids[k], &st[k], WNOHANG) == pids[k])
        {
          alive[k] = false;
          left--;
          if (sh->s[k].state == 0 && !capped && bad < 0)
          {
            snprintf(sh->s[k].kind, 64, "crash");
            snprintf(sh->s[k].msg, 4000, "worker died (wait status %d) while executing this case", st[k]);
            sh->s[k].state = 2;
          }
          if (sh->s[k].state == 2 && bad < 0)
          {
            bad = k;
            for (int j = 0; j < n; j++)
              if (alive[j])
                kill(pids[j], SIGKILL);
          }
        }
      if (left == 0)
        break;
      usleep(20000);
      if (++ticks % 50 == 0)
      {
        for (int k = 0; k < n; k++)
          if (alive[k])
          {
            if (sh->s[k].executed == last[k])
              stale[k]++;
            else
              stale[k] = 0;
            last[k] = sh->s[k].executed;
            if (stale[k] >= 60 && bad < 0)
            {
              snprintf(sh->s[k].kind, 64, "hang");
              snprintf(sh->s[k].msg, 4000, "case did not finish within 60 s");
              sh->s[k].state = 2;
              bad = k;
              hang = true;
              for (int j = 0; j < n; j++)
                if (alive[j])
                  kill(pids[j], SIGKILL);
            }
          }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tcap && !capped)
        {
          capped = true;
          for (int j = 0; j < n; j++)
            if (alive[j])
              kill(pids[j], SIGKILL);
        }
      }
    }
    (void)hang;
    uint64_t ex = 0, tr = 0;
    for (int k = 0; k < n; k++)
      ex += sh->s[k].executed, tr += sh->s[k].transitions;
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    fprintf(stderr, "%-34s cases %llu distinct %llu transitions %llu %.1fs%s%s\n", e.name, (unsigned long long)ex, (unsigned long long)sh->distinct,
            (unsigned long long)tr, secs, capped ? " (time cap)" : "", bad >= 0 ? " VIOLATION" : "");
    js += js.empty() ? "" : ",\n";
    js += "{\"scenario\":" + jstr(e.name) + ",\"executions\":" + std::to_string(ex) + ",\"states\":" + std::to_string(sh->distinct) + ",\"transitions\":" + std::to_string(tr) +
          ",\"exhaustive\":" + (capped || bad >= 0 ? "false" : "true") + ",\"enumerator\":true,\"seconds\":" + std::to_string(secs) + ",\"distinct_outcomes\":" +
          std::to_string(sh->distinct) + ",\"outcomes\":[";
    int cnt = 0;
    for (int k = 0; k < n && cnt < 8; k++)
      for (int j = 0; j < sh->s[k].nsample && cnt < 8; j++)
        js += (cnt++ ? "," : "") + jstr(sh->s[k].sample[j]);
    js += "]";
    if (bad >= 0)
    {
      auto& s = sh->s[bad];
      std::string log;
      {
        std::ifstream in(vdir + "/" + e.name + ".shard" + std::to_string(bad) + ".log");
        std::string l;
        int c = 0;
        while (std::getline(in, l) && c < 14)
          if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos)
            log += "\n    " + l, c++;
      }
      std::string rf = vdir + "/" + e.name + ".replay";
      std::ofstream o(rf);
      o << "enumerator " << e.name << "\nindex " << s.index << "\ntier " << (thorough ? "thorough" : "quick") << "\n# " << s.kind << ": " << s.msg << "\n# case " << s.desc << "\n# " << log << "\n";
      fprintf(stderr, "  %s: %s\n  case %llu %s%s\n", s.kind, s.msg, (unsigned long long)s.index, s.desc, log.c_str());
      js += ",\"violation\":{\"kind\":" + jstr(s.kind) + ",\"msg\":" + jstr(s.msg) + ",\"case\":" + jstr(s.desc) + ",\"where\":" + jstr(log) + ",\"replay\":" + jstr(rf) + "}";
      rc = 1;
    }
    js += "}";
    for (int k = 0; k < n; k++)
      unlink((vdir + "/" + e.name + ".shard" + std::to_string(k) + ".log").c_str());
    if (bad >= 0)
      break;
  }
  if (!out.empty())
  {
    std::ofstream o(out);
    o << "[" << js << "]\n";
  }
  return rc;
}
