// P17: LTTng events become correct, time-ordered trace viewer events.
#include <functional>
#include "bt.h"
#include "conv.h"
using namespace conv;
using scalopus::LttngProvider;
using scalopus::TraceEventSource;
// names: the same identifiers mean different things in different processes
static const names::Table kNames = {
  { 100, { { 1, "scope" }, { 2, "cnt/a" }, { 3, "cnt/b" }, { 4, "single" }, { 5, "other/a" }, { 4294967295u, "max id" }, { 0, "zero" }, { 9, "a/b/c" } } },
  { 200, { { 1, "different" }, { 2, "cnt/b" }, { 3, "cnt/a" }, { 4, "cnt/z" }, { 6, "tail/" } } }
};
static const char* kEvent[] = { "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };
struct World
{
  std::shared_ptr<names::Manager> manager = std::make_shared<names::Manager>(kNames);
  LttngProvider::Ptr provider = std::make_shared<LttngProvider>("session", manager);
  TraceEventSource::Ptr source = provider->makeSource();
};
static std::string text_line(const Ev& e, const std::string& ts, const char* domain = "scalopus_scope_id")
{
  std::string s = "[" + ts + "] host " + domain + ":" + kEvent[e.kind] + ": { cpu_id = 1 }, { vpid = " + std::to_string(e.pid) + ", pthread_id = " + std::to_string(e.tid) + " }, { id = " + std::to_string(e.id);
  if (e.kind == COUNT)
    s += ", value = " + std::to_string(e.value);
  return s + " }\n";
}
static std::string secs(int us)
{
  char b[40];
  snprintf(b, sizeof b, "1544361620.%06d000", us);
  return b;
}
static Ev at(Kind k, int pid, unsigned long tid, int us, unsigned id, int64_t v = 0)
{
  Ev e;
  e.kind = k;
  e.pid = pid;
  e.tid = tid;
  e.us = strtod(secs(us).c_str(), nullptr) * 1e6;
  e.id = id;
  e.value = v;
  return e;
}
static std::vector<json> record(World& w, const std::string& text)
{
  mc::count_case();
  w.source->startInterval();
  bt::emit(text);
  bt::settle();
  return w.source->finishInterval();
}
// Every kind of event with every combination of identifiers, on its own.
MC_SCENARIO(single, 0, 0, mc::SEQ, 3600)
{
  World w;
  Kind k = (Kind)mc::choose(KINDS, "kind");
  static const int pids[] = { 100, 200, 300, 1, 0, 2147483647 };
  static const unsigned long tids[] = { 0, 1, 4294967296ul, 139688084124608ul, 9223372036854775807ul, 18446744073709551615ul };
  static const unsigned ids[] = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 2147483648u, 4294967295u };
  static const int64_t values[] = { 0, 1, -1, INT64_MAX, INT64_MIN, 4294967296 };
  static const char* times[] = { "0.000000000", "0.000001000", "12.345678901", "1544361620.739021131", "4102444800.000000500" };
  int pid = pids[mc::choose(6, "pid")];
  for (unsigned long tid : tids)
    for (unsigned id : ids)
      for (const char* t : times)
        for (int64_t v : values)
        {
          Ev e;
          e.kind = k;
          e.pid = pid;
          e.tid = tid;
          e.id = id;
          e.value = v;
          e.us = strtod(t, nullptr) * 1e6;
          auto r = record(w, text_line(e, t));
          check(r, { e }, kNames);
          if (k != COUNT)
            break;
        }
}
// Every order in which events with few distinct times can arrive: sorted by time, ties stay in arrival order.
MC_SCENARIO(order, 0, 0, mc::SEQ, 3600)
{
  World w;
  int n = 2 + mc::choose(mc::tier() ? 5 : 4, "events");
  int first = mc::choose(4, "first time");
  int rest = 1;
  for (int i = 1; i < n; i++)
    rest *= 4;
  for (int c = 0; c < rest; c++)
  {
    std::vector<Ev> ev;
    std::string text;
    int x = c;
    for (int i = 0; i < n; i++)
    {
      int t = i ? x % 4 : first;
      if (i)
        x /= 4;
      ev.push_back(at((Kind)((i + c) % 5), i % 2 ? 100 : 200, 50 + (unsigned)i, t * 1000 + 7, 1));
      text += text_line(ev.back(), secs(t * 1000 + 7));
    }
    check(record(w, text), ev, kNames);
  }
}
// Many events with the same time (a sort that is only stable for short inputs would show).
MC_SCENARIO(many, 0, 0, mc::SEQ, 3600)
{
  World w;
  int n = 15 + 7 * mc::choose(8, "events");
  int distinct = 1 + mc::choose(3, "distinct times");
  std::vector<Ev> ev;
  std::string text;
  for (int i = 0; i < n; i++)
  {
    int t = (i * 7 % distinct) * 10;
    ev.push_back(at(i % 3 ? ENTRY : COUNT, i % 2 ? 100 : 200, 50 + (unsigned)i, t, 1 + (unsigned)i % 4, i));
    text += text_line(ev.back(), secs(t));
  }
  check(record(w, text), ev, kNames);
}
// Every sequence of counter events over two processes, their series and few times.
MC_SCENARIO(counters, 0, 0, mc::SEQ, 3600)
{
  World w;
  struct O { int pid; unsigned id; int t; };
  std::vector<O> o;
  for (int t = 0; t < 3; t++)
  {
    o.push_back({ 100, 2, t });  // cnt/a
    o.push_back({ 100, 3, t });  // cnt/b
    o.push_back({ 100, 5, t });  // other/a
    o.push_back({ 200, 2, t });  // cnt/b of the other process
    o.push_back({ 200, 4, t });  // cnt/z
  }
  int n = (int)o.size();
  int a = mc::choose(n, "first"), b = mc::choose(n, "second");
  int more = mc::tier() ? 3 : 2, total = 1;
  for (int i = 0; i < more; i++)
    total *= n;
  for (int c = 0; c < total; c++)
  {
    std::vector<Ev> ev;
    std::string text;
    int x = c;
    for (int i = 0; i < 2 + more; i++)
    {
      const O& k = o[(size_t)(i == 0 ? a : i == 1 ? b : x % n)];
      if (i >= 2)
        x /= n;
      ev.push_back(at(COUNT, k.pid, 7, k.t * 100, k.id, 11 * (i + 1)));
      text += text_line(ev.back(), secs(k.t * 100));
    }
    check(record(w, text), ev, kNames);
  }
}
// Other events and incomplete lines anywhere among complete events change nothing about those.
MC_SCENARIO(noise, 0, 0, mc::SEQ, 3600)
{
  World w;
  std::vector<std::string> noise = {
    "[T] host lttng_ust_statedump:start: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { }\n",
    "[T] host other:scope_entry: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 2, value = 99 }\n",
    "[T] host scalopus_scope_id2:count_event: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 2, value = 99 }\n",
    "[T] host scalopus:count_event: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 2, value = 99 }\n",
    "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 2 }\n",
    "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { vpid = 100 }, { id = 2, value = 99 }\n",
    "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { pthread_id = 100 }, { id = 2, value = 99 }\n",
    "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { }, { id = 2, value = 99 }\n",
    "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { }\n",
    "[T] host scalopus_scope_id:scope_entry: { }, { }, { }\n",
    "[T] host scalopus_scope_id:scope_exit: { cpu_id = 2 }, { vpid = 100 }, { id = 1 }\n",
    "[T] host scalopus_scope_id:mark_event_global: { cpu_id = 2 }, { pthread_id = 100 }, { id = 1 }\n",
    "[T] host scalopus_scope_id:something_new: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 1 }\n",
    "[T] host scalopus_scope_id:: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 1 }\n",
    "[T] host scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }\n",
    "[T] host scalopus_scope_id:scope_entry:\n",
    "[T] host scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = x, pthread_id = y }, { id = z }\n",
    "[scalopus] Cleaning up transport to: 404305\n", "\n", "[]\n", "{ } { } { }\n", "[T\n", "[warning] Tracer discarded 7 events between [1] and [2]\n",
  };
  // and every truncation of a complete line
  std::string whole = "[T] host scalopus_scope_id:count_event: { cpu_id = 2 }, { vpid = 100, pthread_id = 5 }, { id = 2, value = 99 }";
  for (size_t i = 0; i < whole.size(); i += mc::tier() ? 1 : 4)
    noise.push_back(whole.substr(0, i) + "\n");
  int n = (int)noise.size();
  int first = mc::choose(n, "noise");
  Ev e1 = at(COUNT, 100, 70, 100, 2, 5), e2 = at(ENTRY, 100, 71, 200, 1), e3 = at(COUNT, 100, 72, 300, 3, 6);
  for (int second = -1; second < n; second++)
    for (int pos = 0; pos < 4; pos++)
    {
      auto fill = [&](int k, int us) {
        std::string s = noise[(size_t)k];
        for (size_t p; (p = s.find("T")) != std::string::npos && p < 3;)
          s.replace(p, 1, secs(us));
        return s;
      };
      std::string a = fill(first, 150) + (second >= 0 ? fill(second, 250) : "");
      std::string l[] = { text_line(e1, secs(100)), text_line(e2, secs(200)), text_line(e3, secs(300)) };
      std::string text;
      for (int i = 0; i < 3; i++)
        text += (pos == i ? a : "") + l[i];
      if (pos == 3)
        text += a;
      auto r = record(w, text);
      check(r, { e1, e2, e3 }, kNames, [&](const json& j) { return j.count("tid") == 0 || j.at("tid").get<int>() < 70 || j.at("tid").get<int>() > 72; });
      // an event of another domain or a line that is not one contributes nothing
      for (auto& j : r)
        MC_REQUIRE(j.count("ph") && j.count("pid") && j.count("tid") && j.count("name") && j.count("ts"), "an incomplete event came out: %s", j.dump().c_str());
      if (first < 4 && second < 4)
        MC_REQUIRE(r.size() == 3, "an event of another domain was converted: %s", conv::text(r).c_str());
    }
}
// Intervals do not influence each other: counters start afresh.
MC_SCENARIO(fresh_counters, 0, 0, mc::SEQ, 3600)
{
  World w;
  for (int i = 0; i < 3; i++)
  {
    unsigned id = 2 + (unsigned)mc::choose(3, "series");
    Ev e = at(COUNT, 100 + 100 * mc::choose(2, "process"), 7, 500 - i, id, i + 1);
    check(record(w, text_line(e, secs(500 - i))), { e }, kNames);
  }
  check(record(w, ""), {}, kNames);
}
