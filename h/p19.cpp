// P19 (LTTng): recording intervals contain exactly the events between start and stop.
#include <algorithm>
#include <atomic>
#include <functional>
#include <thread>
#include "bt.h"
#include "names.h"
using scalopus::LttngProvider;
using scalopus::TraceEventSource;
using json = nlohmann::json;
enum { WROTE = 1 };

static std::string line(int k)
{
  char b[300];
  snprintf(b, sizeof b, "[%d.000000000] host scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 77, pthread_id = %d }, { id = 1 }\n", k + 1, 1000 + k);
  return b;
}
struct World
{
  std::shared_ptr<names::Manager> manager = std::make_shared<names::Manager>(names::Table{ { 77, { { 1, "scope" } } } });
  LttngProvider::Ptr provider = std::make_shared<LttngProvider>("session", manager);
};
// which lines a source returned, in order
static std::vector<int> taken(const TraceEventSource::Ptr& s)
{
  std::vector<int> r;
  for (auto& e : s->finishInterval())
    r.push_back(e.at("tid").get<int>() - 1000);
  return r;
}
static std::string show(const std::vector<int>& v)
{
  std::string s = "[";
  for (int x : v)
    s += " " + std::to_string(x);
  return s + " ]";
}
static void contiguous(const std::vector<int>& v, int lo, int hi)
{
  for (size_t i = 0; i < v.size(); i++)
    MC_REQUIRE(v[i] >= lo && v[i] < hi && (i == 0 || v[i] == v[i - 1] + 1), "interval returned %s, lines %d..%d went by", show(v).c_str(), lo, hi - 1);
}

// Every history of two sources over start, stop, finish, replace and arriving lines, each step settled.
MC_SCENARIO(histories, 0, 0, mc::SEQ, 30)
{
  World w;
  struct Model
  {
    TraceEventSource::Ptr s;
    bool on = false, started = false;
    std::vector<int> got;
    bool finished = false;  // what a second finish of the same interval returns is not specified, but nothing from after the first one
    void finish(const char* when)
    {
      auto v = taken(s);
      if (!finished)
        MC_REQUIRE(v == got, "%s: an interval returned %s instead of %s", when, show(v).c_str(), show(got).c_str());
      for (int k : v)
        MC_REQUIRE(std::count(got.begin(), got.end(), k), "%s: a finished interval returned %s, it had %s", when, show(v).c_str(), show(got).c_str());
      on = false;
      finished = true;
    }
  } m[2];
  for (auto& x : m)
    x.s = w.provider->makeSource();
  int n = 0, steps = mc::tier() ? 7 : 5;
  for (int i = 0; i < steps; i++)
  {
    int op = mc::choose(9, "op");
    if (op == 8)
    {
      bt::emit(line(n));
      for (auto& x : m)
        if (x.on)
          x.got.push_back(n);
      n++;
      bt::settle();
      continue;
    }
    Model& x = m[op / 4];
    if (op % 4 == 0)
    {
      x.s->startInterval();
      x.finished = false;
      x.on = x.started = true;
      x.got.clear();
    }
    else if (op % 4 == 1)
    {
      x.s->stopInterval();
      x.on = false;
    }
    else if (op % 4 == 2)
    {
      x.finish("finish");
    }
    else
    {
      x.s.reset();
      x.s = w.provider->makeSource();
      x.on = x.started = x.finished = false;
      x.got.clear();
    }
    x.s->work();
    if (mc::tier())
      bt::settle();
  }
  for (auto& x : m)
    x.finish("at the end");
}
// Lines written together, in pieces, without a final newline: each is one event as soon as it is complete.
MC_SCENARIO(pieces, 0, 0, mc::SEQ, 60)
{
  World w;
  auto s = w.provider->makeSource();
  s->startInterval();
  std::string all = line(0) + line(1) + line(2);
  size_t l = line(0).size();
  int a = mc::choose((int)std::min<size_t>(all.size(), 240), "first cut"), b = mc::choose(8, "second cut");
  size_t c1 = (size_t)a, c2 = std::min(all.size(), c1 + (b < 4 ? (size_t)b : l - 2 + (size_t)(b - 4)));
  size_t cuts[4] = { 0, c1, c2, all.size() };
  for (int i = 0; i < 3; i++)
  {
    bt::emit(all.substr(cuts[i], cuts[i + 1] - cuts[i]));
    bt::settle();
    if (mc::choose(2, "check here"))
    {
      auto v = taken(s);
      int whole = (int)(cuts[i + 1] / l);
      std::vector<int> want;
      for (int k = 0; k < whole; k++)
        want.push_back(k);
      MC_REQUIRE(v == want, "%d complete lines arrived, the interval returned %s", whole, show(v).c_str());
      return;
    }
  }
}
// Lines longer than any buffer.
MC_SCENARIO(long_lines, 0, 0, mc::SEQ, 60)
{
  World w;
  auto s = w.provider->makeSource();
  s->startInterval();
  static const int sizes[] = { 0, 100, 800, 880, 890, 895, 900, 905, 910, 920, 1000, 1024, 1500, 2000, 4000, 4096, 5000, 9000 };
  for (int k = 0; k < 2; k++)
  {
    std::string t = line(k);
    std::string fill(sizes[mc::choose(18, "length")], 'x');
    t.insert(t.find("cpu_id"), "note = \"" + fill + "\", ");
    bt::emit(t);
  }
  bt::settle();
  auto v = taken(s);
  MC_REQUIRE((v == std::vector<int>{ 0, 1 }), "two long lines gave %s", show(v).c_str());
}
// Many lines.
MC_SCENARIO(many, 0, 0, mc::SEQ, 60)
{
  World w;
  static const int N[] = { 100, 256, 500, 999, 1000, 1001, 2500 };
  const int n = N[mc::choose(7, "lines")];
  const int at_once = mc::choose(2, "at once") ? 50 : 1;
  auto s = w.provider->makeSource();
  s->startInterval();
  std::vector<int> want;
  std::string text;
  for (int i = 0; i < n; i++)
  {
    text += line(i);
    want.push_back(i);
    if (i % at_once == at_once - 1 || i + 1 == n)
    {
      bt::emit(text);
      text.clear();
    }
    if (i % 100 == 99)
      bt::settle();
  }
  bt::settle();
  auto v = taken(s);
  MC_REQUIRE(v == want, "%zu events of %zu were returned", v.size(), want.size());
}
// The stream ends (babeltrace exits), then everything else still works.
MC_SCENARIO(stream_ends, 0, 0, mc::SEQ, 30)
{
  World w;
  auto s = w.provider->makeSource();
  auto t = w.provider->makeSource();
  s->startInterval();
  int n = mc::choose(3, "lines");
  for (int i = 0; i < n; i++)
    bt::emit(line(i));
  bool partial = mc::choose(2, "partial line");
  if (partial)
    bt::emit(line(n).substr(0, 30));
  if (mc::choose(2, "settle"))
    bt::settle();
  bt::eof();
  bt::settle();
  if (mc::choose(2, "restart"))
    t->startInterval();
  std::vector<int> want;
  for (int i = 0; i < n; i++)
    want.push_back(i);
  auto v = taken(s);
  MC_REQUIRE(v == want, "after the stream ended the interval returned %s instead of %s", show(v).c_str(), show(want).c_str());
  v = taken(t);
  MC_REQUIRE(v.empty(), "an interval after the end of the stream returned %s", show(v).c_str());
}
// ------------------------------------------------------------------------------------------------ concurrency
static void feed(int n)
{
  for (int i = 0; i < n; i++)
    bt::emit(line(i));
}
// Lines arrive while an interval is started and finished.
MC_SCENARIO(start_finish, 4, 5, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  std::thread f([] { feed(3); });
  s->startInterval();
  auto v = taken(s);
  contiguous(v, 0, 3);
  f.join();
  mc::outcome("%s", show(v).c_str());
}
// Two intervals of one source and one that is dropped in the middle.
MC_SCENARIO(two_intervals, 3, 4, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  auto t = w.provider->makeSource();
  std::thread f([] { feed(3); });
  t->startInterval();
  s->startInterval();
  s->stopInterval();
  t.reset();
  auto v1 = taken(s);
  s->startInterval();
  auto v2 = taken(s);
  f.join();
  contiguous(v1, 0, 3);
  contiguous(v2, v1.empty() ? 0 : v1.back() + 1, 3);
  mc::outcome("%s %s", show(v1).c_str(), show(v2).c_str());
}
// Two sources driven by two threads while lines arrive.
MC_SCENARIO(two_sources, 3, 4, mc::NO_TIMERS, 5)
{
  World w;
  auto s = w.provider->makeSource();
  auto t = w.provider->makeSource();
  std::vector<int> vt;
  bt::emit(line(0) + line(1));
  std::thread other([&] {
    t->startInterval();
    vt = taken(t);
    t.reset();
  });
  s->startInterval();
  bt::emit(line(2));
  bt::settle();
  auto vs = taken(s);
  other.join();
  contiguous(vs, 0, 3);
  MC_REQUIRE(!vs.empty() && vs.back() == 2, "line 2 arrived during the interval, it returned %s", show(vs).c_str());
  contiguous(vt, 0, 3);
}
// An interval started before the lines were written holds all of them, whoever else comes and goes.
MC_SCENARIO(complete, 3, 4, mc::NO_TIMERS, 5)
{
  World w;
  auto s = w.provider->makeSource();
  s->startInterval();
  std::thread other([&] {
    auto t = w.provider->makeSource();
    t->startInterval();
    t->stopInterval();
  });
  feed(2);
  other.join();
  bt::settle();
  auto v = taken(s);
  MC_REQUIRE((v == std::vector<int>{ 0, 1 }), "lines 0 and 1 arrived during the interval, it returned %s", show(v).c_str());
}
// A source is destroyed without being stopped.
MC_SCENARIO(destroy_source, 4, 5, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  std::thread f([] { feed(2); });
  s->startInterval();
  s.reset();
  f.join();
  bt::settle();
}
// The provider goes away: at once, while lines arrive, with a source that lives on, with an incomplete line in the pipe.
MC_SCENARIO(destroy_provider, 4, 5, 0, 5)
{
  auto w = std::make_unique<World>();
  int what = mc::choose(4, "what");
  TraceEventSource::Ptr s;
  std::thread f;
  if (what == 1)
    f = std::thread([] { feed(1); });
  if (what >= 2)
    s = w->provider->makeSource();
  if (what == 2)
    s->startInterval();
  if (what == 3)
  {
    bt::emit(line(0).substr(0, 40));
    bt::settle();
  }
  w.reset();
  s.reset();
  if (f.joinable())
    f.join();
  MC_REQUIRE(mc::live_threads() == 0, "%d threads are left", mc::live_threads());
}
// The logging function is replaced while lines arrive and the stream ends.
MC_SCENARIO(set_logger, 3, 4, 0, 5)
{
  World w;
  std::thread f([] {
    feed(1);
    bt::eof();
  });
  std::atomic<int> logged{ 0 };
  auto s = w.provider->makeSource();
  s->startInterval();
  w.provider->setLogger([&](const std::string&) { logged++; });
  s->stopInterval();
  f.join();
  bt::settle();
  w.provider->setLogger([](const std::string&) {});
}
