// P23: scoped tracepoints are balanced and nest on every path.
#include <scalopus_tracing/trace_macro.h>
#include <functional>
#include <map>
#include <stdexcept>
#include <thread>
#include "tp.h"
using namespace tp;
std::vector<Ev> other_file(int what);
int many_points(int what);
struct Log
{
  int from = 0;
  int scopes = 0;                  // scopes entered
  std::map<int, unsigned> site_id;  // source location -> identifier
};
static thread_local Log* L;
static int seen()
{
#ifdef TP_LTTNG
  return mc::record_count();
#else
  return (int)mine().size();
#endif
}
std::vector<Ev> events_since(int from) { return mine(from); }
int events_now() { return seen(); }
static void begin(Log& l)
{
  l.from = seen();
  L = &l;
}
// called right after a tracepoint of the given type at the given place
static void at(int site, int type, long long value = 0)
{
  auto v = mine(L->from);
  MC_REQUIRE(!v.empty() && v.back().type == type, "site %d did not emit an event of type %d: %s", site, type, str(v).c_str());
  MC_REQUIRE(v.back().value == value, "site %d emitted value %lld instead of %lld", site, v.back().value, value);
  unsigned id = v.back().id;
  if (type == ENTRY)
    L->scopes++;
  if (L->site_id.count(site))
    MC_REQUIRE(L->site_id[site] == id, "site %d changes its identifier", site);
  else
    for (auto& o : L->site_id)
      MC_REQUIRE(o.second != id, "sites %d and %d share identifier %u", o.first, site, id);
  L->site_id[site] = id;
}
static void balanced(const char* when)
{
  auto v = mine(L->from);
  std::vector<unsigned> st;
  int n = 0;
  for (auto& e : v)
  {
    if (e.type == ENTRY)
    {
      st.push_back(e.id);
      n++;
    }
    if (e.type == EXIT)
    {
      MC_REQUIRE(!st.empty() && st.back() == e.id, "%s: exit %u does not match the innermost open scope: %s", when, e.id, str(v).c_str());
      st.pop_back();
    }
  }
  MC_REQUIRE(st.empty(), "%s: %zu scopes were entered and not left: %s", when, st.size(), str(v).c_str());
  MC_REQUIRE(n == L->scopes, "%s: %d entries for %d scopes: %s", when, n, L->scopes, str(v).c_str());
}
struct Thrower
{
  ~Thrower() noexcept(false)
  {
    if (on)
      throw std::runtime_error("destructor");
  }
  bool on = false;
};
// every path through nested scopes, to the given depth
static int walk(int depth)
{
  TRACE_PRETTY_FUNCTION();
  at(1, ENTRY);
  int path = mc::choose(12, "path");
  if (depth == 0 && (path == 5 || path == 6 || path == 11))
    return 0;
  switch (path)
  {
    case 0:
      break;  // fall through
    case 1:
    {
      TRACE_SCOPE_RAII("returns");
      at(2, ENTRY);
      return 1;
    }
    case 2:
    {
      TRACE_SCOPE_RAII("throws");
      at(3, ENTRY);
      throw std::runtime_error("x");
    }
    case 3:
      for (int i = 0; i < 3; i++)
      {
        TRACE_SCOPE_RAII("loop");
        at(4, ENTRY);
        if (i == 0)
          continue;
        TRACE_SCOPE_RAII("loop2");
        at(5, ENTRY);
        if (i == 1)
          break;
      }
      break;
    case 4:
      try
      {
        TRACE_SCOPE_RAII("try");
        at(6, ENTRY);
        {
          TRACE_SCOPE_RAII("inner");
          at(7, ENTRY);
          throw 3;
        }
      }
      catch (int)
      {
        TRACE_SCOPE_RAII("catch");
        at(8, ENTRY);
      }
      break;
    case 5:
    {
      TRACE_SCOPE_RAII("recursion");
      at(9, ENTRY);
      walk(depth - 1);
      break;
    }
    case 6:
      try
      {
        TRACE_SCOPE_RAII("guarded recursion");
        at(10, ENTRY);
        walk(depth - 1);
        TRACE_SCOPE_RAII("after");
        at(11, ENTRY);
      }
      catch (const std::exception&)
      {
      }
      break;
    case 7:
    {
      TRACE_SCOPE_START("manual");
      at(12, ENTRY);
      TRACE_SCOPE_START("manual 2");
      at(13, ENTRY);
      TRACE_SCOPE_END("manual 2");
      at(13, EXIT);
      TRACE_SCOPE_END("manual");
      at(12, EXIT);
      break;
    }
    case 8:
    {
      auto f = [](int k) {
        TRACE_SCOPE_RAII("lambda");
        at(14, ENTRY);
        return k;
      };
      f(1);
      f(2);
      break;
    }
    case 9:
    {
      TRACE_SCOPE_RAII("throwing destructor");
      at(15, ENTRY);
      Thrower t;
      t.on = true;
      TRACE_SCOPE_RAII("inside");
      at(16, ENTRY);
      break;
    }
    case 10:
    {
      TRACE_SCOPE_RAII("goto");
      at(17, ENTRY);
      goto out;
    }
    case 11:
    {
      std::function<int()> f = [depth] { return walk(depth - 1); };
      TRACE_SCOPE_RAII("a");
      at(18, ENTRY);
      TRACE_SCOPE_RAII("b");
      at(19, ENTRY);
      return f();
    }
  }
out:
  return 0;
}
MC_SCENARIO(paths, 0, 0, mc::SEQ, 5)
{
  Log l;
  begin(l);
  for (int i = 0; i < 2; i++)
  {
    try
    {
      walk(mc::tier() ? 3 : 2);
    }
    catch (const std::exception&)
    {
    }
    balanced("after the outermost scope");
    if (i == 0 && !mc::choose(2, "again"))
      break;
  }
}
template <typename T>
static void counted(T v)
{
  TRACE_COUNT_SERIES("counter", "series", v);
  at(30, COUNT, static_cast<long long>(v));
  TRACE_COUNT("counter", v);
  at(31, COUNT, static_cast<long long>(v));
}
static void same_line();
MC_SCENARIO(marks_and_counters, 0, 0, mc::SEQ, 5)
{
  Log l;
  begin(l);
  for (int round = 0; round < 2; round++)
  {
    {
      TRACE_MARK_EVENT_GLOBAL("mark");
      at(20, MARK_G);
    }
    {
      TRACE_MARK_EVENT_PROCESS("mark of process");
      at(21, MARK_P);
    }
    {
      TRACE_MARK_EVENT_THREAD("mark of thread");
      at(22, MARK_T);
    }
    {
      TRACE_MARK_EVENT_GLOBAL("mark g2");
      at(23, MARK_G);
    }
    for (int a : { 1, 2 })
    {
      TRACE_MARK_EVENT_THREAD("mark");  // the same name as the global one: the same identifier is allowed
      auto v = mine(l.from);
      MC_REQUIRE(v.back().type == MARK_T && v.back().id == l.site_id[20], "same name, other identifier: %s (%d)", str(v).c_str(), a);
    }
    switch (mc::choose(12, "value"))
    {
      case 0: counted(0); break;
      case 1: counted(-1); break;
      case 2: counted(INT64_MAX); break;
      case 3: counted(INT64_MIN); break;
      case 4: counted(3000000000u); break;
      case 5: counted(true); break;
      case 6: counted((signed char)-7); break;
      case 7: counted(2.75); break;
      case 8: counted((size_t)1 << 40); break;
      case 9: counted(-2147483648LL - 1); break;
      case 10: counted((short)-300); break;
      case 11: counted('x'); break;
    }
  }
  auto v = mine(l.from);
  MC_REQUIRE(v.size() == 16, "%zu events emitted instead of 16: %s", v.size(), str(v).c_str());
  same_line();
  MC_REQUIRE(mine(l.from).size() == 18, "scope on line 9000 did not emit two events");
  l.site_id[50] = mine(l.from).back().id;
  // the same names at another place in the same file are the same trace point, in another file they are not
  auto o = other_file(0);
  for (auto& e : o)
    for (auto& x : l.site_id)
      MC_REQUIRE(e.id != x.second, "tracepoints of two files share identifier %u", e.id);
}
// Hundreds of lines (near, far, powers of two apart) and of names (every byte, lengths, positions, orders): all identifiers are
// different, and they are the same the second time.
MC_SCENARIO(many, 0, 0, mc::SEQ, 5)
{
  int what = mc::choose(5, "what");
  int from = events_now();
  int n = many_points(what);
  auto v = mine(from);
  std::map<unsigned, int> first;
  std::vector<unsigned> ids;
  for (size_t i = 0; i < v.size(); i++)
  {
    if (what == 0 && i % 2)
    {
      MC_REQUIRE(v[i].type == EXIT && v[i].id == v[i - 1].id, "scope %zu is not left", i / 2);
      continue;
    }
    MC_REQUIRE(v[i].type == (what == 0 ? ENTRY : what % 2 ? MARK_G : COUNT), "point %zu emitted %s", ids.size(), str(v[i]).c_str());
    MC_REQUIRE(!first.count(v[i].id), "points %d and %zu share identifier %u", first[v[i].id], ids.size(), v[i].id);
    first[v[i].id] = (int)ids.size();
    ids.push_back(v[i].id);
  }
  MC_REQUIRE((int)ids.size() == n, "%zu events for %d points", ids.size(), n);
  from = events_now();
  many_points(what);
  auto w = mine(from);
  MC_REQUIRE(w == v, "identifiers are not the same the second time");
}
// Scopes on several lines and of several threads.
MC_SCENARIO(threads, 1, 2, 0, 5)
{
  auto body = [](int n) {
    Log l;
    begin(l);
    for (int i = 0; i < n; i++)
    {
      TRACE_SCOPE_RAII("outer");
      at(40, ENTRY);
      TRACE_SCOPE_RAII("inner");
      at(41, ENTRY);
    }
    balanced("thread");
  };
  std::thread a(body, 2), b(body, 1);
  a.join();
  b.join();
}
static void same_line()
{
#line 9000
  TRACE_SCOPE_RAII("loop");
}
