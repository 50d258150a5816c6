// P18: native events become correct, time-ordered trace viewer events.
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include "chunk.h"
#include "conv.h"
using namespace conv;
using scalopus::Data;
using scalopus::NativeTraceProvider;
using scalopus::TraceEventSource;
static const names::Table kNames = {
  { 100, { { 1, "scope" }, { 2, "cnt/a" }, { 3, "cnt/b" }, { 4, "single" }, { 5, "other/a" }, { 4294967295u, "max id" }, { 0, "zero" }, { 9, "a/b/c" } } },
  { 200, { { 1, "different" }, { 2, "cnt/b" }, { 3, "cnt/a" }, { 4, "cnt/z" }, { 6, "tail/" } } }
};
using C = scalopus::TracePointCollectorNative;
static int type_of(Kind k)
{
  const uint8_t t[] = { C::SCOPE_ENTRY, C::SCOPE_EXIT, C::MARK_GLOBAL, C::MARK_PROCESS, C::MARK_THREAD, C::COUNTER };
  return t[k];
}
struct World
{
  std::shared_ptr<names::Manager> manager = std::make_shared<names::Manager>(kNames);
  NativeTraceProvider::Ptr provider = std::make_shared<NativeTraceProvider>(manager);
  std::shared_ptr<direct::Client> client = std::make_shared<direct::Client>();
  scalopus::Endpoint::Ptr ep = provider->factory(client);
  TraceEventSource::Ptr source = provider->makeSource();
  std::vector<json> record(const std::vector<Data>& d)
  {
    mc::count_case();
    source->startInterval();
    Data out;
    for (auto& x : d)
      ep->unsolicited(*client, x, out);
    return source->finishInterval();
  }
};
static const uint64_t kBase = 1544361620000000000ull;
static Ev at(Kind k, int pid, unsigned long tid, uint64_t ns, unsigned id, int64_t v = 0)
{
  Ev e;
  e.kind = k;
  e.pid = pid;
  e.tid = tid;
  e.us = (double)ns / 1e3;
  e.id = id;
  e.value = v;
  return e;
}
static chunk::Event raw(const Ev& e, uint64_t ns)
{
  return { e.tid, ns, e.id, type_of(e.kind), e.kind == COUNT, e.value };
}
static Data one(const Ev& e, uint64_t ns)
{
  return chunk::make(e.pid, { raw(e, ns) });
}
MC_SCENARIO(single, 0, 0, mc::SEQ, 3600)
{
  World w;
  Kind k = (Kind)mc::choose(KINDS, "kind");
  static const int pids[] = { 100, 200, 300, 1, 0, 2147483647 };
  static const unsigned long tids[] = { 0, 1, 23, 24, 255, 256, 65536, 4294967296ul, 139688084124608ul, 18446744073709551615ul };
  static const unsigned ids[] = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 24, 255, 256, 65535, 65536, 2147483648u, 4294967295u };
  static const int64_t values[] = { 0, 1, -1, 23, 24, -24, -25, 255, 256, -256, -257, 65536, -65537, INT64_MAX, INT64_MIN, 4294967296, -4294967297 };
  static const uint64_t times[] = { 0, 1, 999, 1000, 1544361620739021131ull, kBase, 9223372036854775807ull };
  int pid = pids[mc::choose(6, "pid")];
  unsigned long tid = tids[mc::choose(10, "tid")];
  for (unsigned id : ids)
      for (uint64_t t : times)
        for (int64_t v : values)
        {
          if (!mc::tier() && k == COUNT && t != times[0] && t != times[4])
            break;
          Ev e = at(k, pid, tid, t, id, v);
          check(w.record({ one(e, t) }), { e }, kNames);
          if (k != COUNT)
            break;
        }
}
// Every order of arrival and every distribution over chunks and threads.
MC_SCENARIO(order, 0, 0, mc::SEQ, 3600)
{
  World w;
  int n = 2 + mc::choose(mc::tier() ? 4 : 3, "events");
  int first = mc::choose(4, "first time");
  int grouping = mc::choose(3, "chunks");
  int rest = 1;
  for (int i = 1; i < n; i++)
    rest *= 4;
  for (int c = 0; c < rest; c++)
  {
    std::vector<Ev> ev;
    std::vector<Data> data;
    std::vector<chunk::Event> pend;
    int x = c;
    for (int i = 0; i < n; i++)
    {
      int t = i ? x % 4 : first;
      if (i)
        x /= 4;
      uint64_t ns = kBase + (uint64_t)t * 1000000;
      // threads in increasing order, so that arrival order within a chunk is well defined
      Ev e = at((Kind)((i + c) % 5), 100, grouping == 2 ? 50 : 50 + (unsigned)i, ns, (unsigned)(i + 1));
      ev.push_back(e);
      pend.push_back(raw(e, ns));
      if (grouping == 0 || (grouping == 1 && i % 2))
      {
        data.push_back(chunk::make(100, pend));
        pend.clear();
      }
    }
    if (!pend.empty())
      data.push_back(chunk::make(100, pend));
    check(w.record(data), ev, kNames);
  }
}
MC_SCENARIO(counters, 0, 0, mc::SEQ, 3600)
{
  World w;
  struct O { int pid; unsigned id; int t; };
  std::vector<O> o;
  for (int t = 0; t < 3; t++)
  {
    o.push_back({ 100, 2, t });
    o.push_back({ 100, 3, t });
    o.push_back({ 100, 5, t });
    o.push_back({ 200, 2, t });
    o.push_back({ 200, 4, t });
  }
  int n = (int)o.size();
  int a = mc::choose(n, "first"), b = mc::choose(n, "second");
  int more = mc::tier() ? 3 : 2, total = 1;
  for (int i = 0; i < more; i++)
    total *= n;
  for (int c = 0; c < total; c++)
  {
    std::vector<Ev> ev;
    std::vector<Data> data;
    int x = c;
    for (int i = 0; i < 2 + more; i++)
    {
      const O& k = o[(size_t)(i == 0 ? a : i == 1 ? b : x % n)];
      if (i >= 2)
        x /= n;
      uint64_t ns = kBase + (uint64_t)k.t * 100000;
      ev.push_back(at(COUNT, k.pid, 7, ns, k.id, 11 * (i + 1)));
      data.push_back(one(ev.back(), ns));
    }
    check(w.record(data), ev, kNames);
  }
}
// Data that is not a chunk, at every place among intact chunks; events of unknown kind inside a chunk.
static std::vector<Data> corrupt()
{
  std::vector<Data> r = { {}, { 0 }, { 0xff }, { 0xa0 }, { 0x80 }, { 0xf6 }, { 0x60 }, { 0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff } };
  Ev e = at(COUNT, 100, 5, kBase, 2, 99);
  Data whole = one(e, kBase);
  for (size_t i = 0; i < whole.size(); i++)
    r.emplace_back(whole.begin(), whole.begin() + (long)i);
  for (size_t i = 0; i < whole.size(); i++)
    for (uint8_t v : { 0x00, 0x20, 0x40, 0x60, 0x61, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xf6, 0xff, 0x1b, 0x5b, 0x7b, 0x9b, 0xbb })
    {
      Data d = whole;
      if (d[i] == v)
        continue;
      d[i] = v;
      r.push_back(d);
    }
  return r;
}
static std::vector<Data> odd_events()
{
  std::vector<Data> r;
  for (int type : { 0, 7, 8, 100, 255 })
    for (bool v : { false, true })
      r.push_back(chunk::make(100, { { 5, kBase, 2, type, v, 99 } }));
  r.push_back(chunk::make(100, { { 5, kBase, 2, C::COUNTER, false, 0 } }));  // a counter without a value
  r.push_back(chunk::make(100, {}));
  return r;
}
static void among(const Data& bad, int pos, World& w)
{
  Ev e1 = at(COUNT, 200, 70, kBase + 1000000, 2, 5), e2 = at(ENTRY, 200, 71, kBase + 2000000, 1), e3 = at(COUNT, 200, 72, kBase + 3000000, 4, 6);
  std::vector<Data> d = { one(e1, kBase + 1000000), one(e2, kBase + 2000000), one(e3, kBase + 3000000) };
  d.insert(d.begin() + pos, bad);
  auto r = w.record(d);
  check(r, { e1, e2, e3 }, kNames, [](const json& j) { return j.at("pid").get<int>() != 200 || j.at("tid").get<unsigned long>() < 70 || j.at("tid").get<unsigned long>() > 72; });
}
MC_SCENARIO(corrupted, 0, 0, mc::SEQ, 3600)
{
  World w;
  auto bad = corrupt();
  auto odd = odd_events();
  bad.insert(bad.end(), odd.begin(), odd.end());
  int part = mc::choose(32, "part");
  for (size_t i = (size_t)part; i < bad.size(); i += 32)
    for (int pos = 0; pos < 4; pos++)
    {
      mc::note("data %s at position %d", mc::hex(bad[i]).c_str(), pos);
      among(bad[i], pos, w);
    }
}
// An event of unknown kind, or a counter without value, next to intact events of the same chunk.
MC_SCENARIO(odd_neighbours, 0, 0, mc::SEQ, 3600)
{
  World w;
  int pos = mc::choose(3, "position"), type = mc::choose(7, "type"), same = mc::choose(2, "same thread"), valued = mc::choose(2, "with a value");
  static const int types[] = { 0, 7, 8, 100, 255, C::COUNTER, 9 };
  Ev e1 = at(ENTRY, 100, 70, kBase + 1000, 1), e2 = at(COUNT, 100, same ? 70 : 71, kBase + 2000, 2, 9);
  std::vector<chunk::Event> v = { raw(e1, kBase + 1000), raw(e2, kBase + 2000) };
  v.insert(v.begin() + pos, chunk::Event{ same ? 70ul : 69ul + (unsigned)pos, kBase, 3, types[type], valued && types[type] != C::COUNTER, 77 });
  auto r = w.record({ chunk::make(100, v) });
  check(r, { e1, e2 }, kNames);
}
// Byte-for-byte: every single bit flip and every truncation of a chunk with two threads leaves the neighbours intact.
MC_SCENARIO(bit_flips, 0, 0, mc::SEQ, 3600)
{
  World w;
  Data whole = chunk::make(100, { { 5, kBase, 2, C::COUNTER, true, -99 }, { 6, kBase + 5, 1, C::SCOPE_ENTRY, false, 0 } });
  int bit = mc::choose(8, "bit");
  for (size_t i = 0; i < whole.size(); i++)
  {
    Data d = whole;
    d[i] = (uint8_t)(d[i] ^ (1u << bit));
    mc::note("data %s", mc::hex(d).c_str());
    among(d, (int)(i % 4), w);
  }
}
MC_SCENARIO(fresh_counters, 0, 0, mc::SEQ, 3600)
{
  World w;
  for (int i = 0; i < 3; i++)
  {
    uint64_t ns = kBase + 500000 - (uint64_t)i * 1000;
    Ev e = at(COUNT, 100 + 100 * mc::choose(2, "process"), 7, ns, 2 + (unsigned)mc::choose(3, "series"), i + 1);
    check(w.record({ one(e, ns) }), { e }, kNames);
  }
  check(w.record({}), {}, kNames);
}
// Many events with the same time.
MC_SCENARIO(many, 0, 0, mc::SEQ, 3600)
{
  World w;
  int n = 15 + 7 * mc::choose(8, "events");
  int distinct = 1 + mc::choose(3, "distinct times");
  int per_chunk = 1 + 19 * mc::choose(2, "events per chunk");
  std::vector<Ev> ev;
  std::vector<Data> data;
  std::vector<chunk::Event> pend;
  for (int i = 0; i < n; i++)
  {
    uint64_t ns = kBase + (uint64_t)(i * 7 % distinct) * 10000;
    ev.push_back(at(i % 3 ? ENTRY : COUNT, 100, 50, ns, 1 + (unsigned)i % 4, i));
    pend.push_back(raw(ev.back(), ns));
    if ((int)pend.size() == per_chunk || i == n - 1)
    {
      data.push_back(chunk::make(100, pend));
      pend.clear();
    }
  }
  check(w.record(data), ev, kNames);
}
