// P19 (native): recording intervals contain exactly the events between start and stop.
#include <algorithm>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include <atomic>
#include <thread>
#include "chunk.h"
#include "names.h"
using scalopus::NativeTraceProvider;
using scalopus::TraceEventSource;
static scalopus::Data item(int k)
{
  return chunk::make(77, { { 1000ul + (unsigned)k, (uint64_t)(k + 1) * 1000000, 1, 1, false, 0 } });
}
struct World
{
  std::shared_ptr<names::Manager> manager = std::make_shared<names::Manager>(names::Table{ { 77, { { 1, "scope" } } } });
  NativeTraceProvider::Ptr provider = std::make_shared<NativeTraceProvider>(manager);
  std::shared_ptr<direct::Client> client = std::make_shared<direct::Client>();
  scalopus::Endpoint::Ptr ep = provider->factory(client);
  void arrive(int k)
  {
    scalopus::Data out;
    ep->unsolicited(*client, item(k), out);
  }
};
static std::vector<int> taken(const TraceEventSource::Ptr& s)
{
  std::vector<int> r;
  for (auto& e : s->finishInterval())
    r.push_back(e.at("tid").get<int>() - 1000);
  return r;
}
static std::string show(const std::vector<int>& v)
{
  std::string s = "[";
  for (int x : v)
    s += " " + std::to_string(x);
  return s + " ]";
}
static void contiguous(const std::vector<int>& v, int lo, int hi)
{
  for (size_t i = 0; i < v.size(); i++)
    MC_REQUIRE(v[i] >= lo && v[i] < hi && (i == 0 || v[i] == v[i - 1] + 1), "interval returned %s, data %d..%d went by", show(v).c_str(), lo, hi - 1);
}
// Every history of two sources over start, stop, finish, replace and arriving data.
MC_SCENARIO(histories, 0, 0, mc::SEQ, 30)
{
  World w;
  struct Model
  {
    TraceEventSource::Ptr s;
    bool on = false;
    std::vector<int> got;
    bool finished = false;  // what a second finish of the same interval returns is not specified, but nothing from after the first one
    void finish(const char* when)
    {
      auto v = taken(s);
      if (!finished)
        MC_REQUIRE(v == got, "%s: an interval returned %s instead of %s", when, show(v).c_str(), show(got).c_str());
      for (int k : v)
        MC_REQUIRE(std::count(got.begin(), got.end(), k), "%s: a finished interval returned %s, it had %s", when, show(v).c_str(), show(got).c_str());
      on = false;
      finished = true;
    }
  } m[2];
  for (auto& x : m)
    x.s = w.provider->makeSource();
  int n = 0, steps = mc::tier() ? 7 : 5;
  for (int i = 0; i < steps; i++)
  {
    int op = mc::choose(9, "op");
    if (op == 8)
    {
      w.arrive(n);
      for (auto& x : m)
        if (x.on)
          x.got.push_back(n);
      n++;
      continue;
    }
    Model& x = m[op / 4];
    if (op % 4 == 0)
    {
      x.s->startInterval();
      x.finished = false;
      x.on = true;
      x.got.clear();
    }
    else if (op % 4 == 1)
    {
      x.s->stopInterval();
      x.on = false;
    }
    else if (op % 4 == 2)
    {
      x.finish("finish");
    }
    else
    {
      std::weak_ptr<TraceEventSource> gone = x.s;
      x.s.reset();
      MC_REQUIRE(gone.expired(), "a source nobody holds any more goes on recording");
      x.s = w.provider->makeSource();
      x.on = x.finished = false;
      x.got.clear();
    }
    x.s->work();
  }
  for (auto& x : m)
    x.finish("at the end");
}
// many data
MC_SCENARIO(many, 0, 0, mc::SEQ, 30)
{
  World w;
  static const int N[] = { 100, 255, 256, 257, 500, 999, 1000, 1001, 2500 };
  const int n = N[mc::choose(9, "data")];
  const bool again = mc::choose(2, "again");
  auto s = w.provider->makeSource();
  for (int round = 0; round <= again; round++)
  {
    s->startInterval();
    std::vector<int> want;
    for (int i = 0; i < n; i++)
    {
      w.arrive(i);
      want.push_back(i);
    }
    s->stopInterval();
    w.arrive(n);
    auto v = taken(s);
    MC_REQUIRE(v == want, "%zu events of %zu were returned", v.size(), want.size());
  }
}
static void feed(World& w, int n)
{
  for (int i = 0; i < n; i++)
    w.arrive(i);
}
MC_SCENARIO(start_finish, 3, 5, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  std::thread f([&] { feed(w, 3); });
  s->startInterval();
  auto v = taken(s);
  contiguous(v, 0, 3);
  f.join();
  mc::outcome("%s", show(v).c_str());
}
MC_SCENARIO(two_intervals, 3, 4, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  auto t = w.provider->makeSource();
  std::thread f([&] { feed(w, 3); });
  t->startInterval();
  s->startInterval();
  s->stopInterval();
  t.reset();
  auto v1 = taken(s);
  s->startInterval();
  auto v2 = taken(s);
  f.join();
  contiguous(v1, 0, 3);
  contiguous(v2, v1.empty() ? 0 : v1.back() + 1, 3);
  mc::outcome("%s %s", show(v1).c_str(), show(v2).c_str());
}
// Data that arrived completely before the start, or after the stop returned, is in no interval.
MC_SCENARIO(edges, 3, 4, 0, 5)
{
  World w;
  auto s = w.provider->makeSource();
  auto t = w.provider->makeSource();
  t->startInterval();
  std::thread f([&] {
    for (int k = 0; k < 3; k++)
    {
      mc::record(1, k);
      w.arrive(k);
      mc::record(2, k);
    }
  });
  mc::record(3);
  s->startInterval();
  mc::record(4);
  mc::record(5);
  s->stopInterval();
  mc::record(6);
  auto v = taken(s);
  f.join();
  // position of each record in the history
  int at[3][2] = {}, startB = 0, startE = 0, stopB = 0, stop = 0;
  for (int i = 0; i < mc::record_count(); i++)
  {
    auto& r = mc::record_at(i);
    if (r.kind <= 2)
      at[r.a][r.kind - 1] = i;
    else
      (r.kind == 3 ? startB : r.kind == 4 ? startE : r.kind == 5 ? stopB : stop) = i;
  }
  for (int k = 0; k < 3; k++)
  {
    bool in = std::find(v.begin(), v.end(), k) != v.end();
    if (at[k][1] < startB)
      MC_REQUIRE(!in, "data %d arrived before the start and is in the interval", k);
    if (at[k][0] > stop)
      MC_REQUIRE(!in, "data %d arrived after the stop and is in the interval", k);
    if (at[k][0] > startE && at[k][1] < stopB)
      MC_REQUIRE(in, "data %d arrived during the interval and is not in it", k);
  }
  contiguous(v, 0, 3);
  auto all = taken(t);
  MC_REQUIRE((all == std::vector<int>{ 0, 1, 2 }), "the other source got %s", show(all).c_str());
}
// Data from two connections at once, two sources driven by two threads.
MC_SCENARIO(two_sources, 2, 3, 0, 5)
{
  World w;
  auto ep2 = w.provider->factory(w.client);
  auto s = w.provider->makeSource();
  s->startInterval();
  std::thread f([&] {
    scalopus::Data out;
    ep2->unsolicited(*w.client, item(1), out);
  });
  std::thread g([&] {
    auto t = w.provider->makeSource();
    t->startInterval();
    auto v = taken(t);
    for (int k : v)
      MC_REQUIRE(k == 0 || k == 1, "unexpected data %d", k);
  });
  w.arrive(0);
  f.join();
  auto v = taken(s);
  g.join();
  MC_REQUIRE((v == std::vector<int>{ 0, 1 }), "two connections delivered data, the interval returned %s", show(v).c_str());
}
// Sources and the provider disappear while data arrives.
MC_SCENARIO(destroy, 3, 5, mc::REFCOUNTS, 5)
{
  World w;
  auto s = w.provider->makeSource();
  int what = mc::choose(3, "what");
  s->startInterval();
  std::thread f([&] { feed(w, 2); });
  if (what == 0)
    s.reset();
  else
  {
    w.provider.reset();
    if (what == 2)
    {
      auto v = taken(s);
      contiguous(v, 0, 2);
    }
    s.reset();
  }
  f.join();
}
// Finishing or dropping an interval of a provider that is gone.
MC_SCENARIO(orphan_source, 0, 0, mc::SEQ, 5)
{
  World w;
  auto s = w.provider->makeSource();
  int ops = mc::choose(2, "start first");
  if (ops)
  {
    s->startInterval();
    if (mc::choose(2, "data"))
      w.arrive(0);
  }
  w.provider.reset();
  if (mc::choose(2, "stop"))
    s->stopInterval();
  auto v = s->finishInterval();
  MC_REQUIRE(v.size() <= 1, "%zu events", v.size());
  s->startInterval();
  w.arrive(1);
  s->finishInterval();
}
