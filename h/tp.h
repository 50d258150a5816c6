// Observing emitted tracepoints.  Compiled with -DTP_LTTNG (lttng-ust replaced by the stub) or -DTP_NATIVE.
#pragma once
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <scalopus_tracing/trace_configurator.h>
#include <cstring>
#include <string>
#include <vector>
#include "mc.h"
namespace tp
{
// same numbering as the native event types
enum { ENTRY = 1, EXIT = 2, MARK_G = 3, MARK_P = 4, MARK_T = 5, COUNT = 6 };
enum { EV = 1001 };
struct Ev
{
  int type;
  unsigned id;
  long long value;
  bool operator==(const Ev& o) const { return type == o.type && id == o.id && value == o.value; }
};
inline std::string str(const Ev& e)
{
  static const char* n[] = { "?", "entry", "exit", "mark_global", "mark_process", "mark_thread", "count" };
  char b[80];
  snprintf(b, sizeof b, "%s(%u%s%s)", n[e.type], e.id, e.type == COUNT ? "," : "", e.type == COUNT ? std::to_string(e.value).c_str() : "");
  return b;
}
inline std::string str(const std::vector<Ev>& v)
{
  std::string r = "[";
  for (auto& e : v)
    r += str(e) + " ";
  return r + "]";
}
}  // namespace tp
#ifdef TP_LTTNG
#include <lttng/tracepoint.h>
void stub_tracepoint(const StubTracepoint& t)
{
  static const char* n[] = { "", "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };
  int k = 1;
  while (k <= 6 && strcmp(t.name, n[k]))
    k++;
  MC_REQUIRE(k <= 6 && !strcmp(t.provider, "scalopus_scope_id"), "unknown tracepoint %s:%s", t.provider, t.name);
  MC_REQUIRE(t.n == (k == 6 ? 2 : 1) && !strcmp(t.field[0], "id") && (k != 6 || !strcmp(t.field[1], "value")), "tracepoint %s has other fields than documented", t.name);
  mc::record(tp::EV, k, (long)t.value[0], &t.value[1], 8);
}
namespace tp
{
// everything emitted so far by the calling thread, in order
inline std::vector<Ev> mine(int since = 0)
{
  std::vector<Ev> r;
  for (int i = since; i < mc::record_count(); i++)
  {
    auto& q = mc::record_at(i);
    if (q.kind != EV || q.thread != mc::self_id())
      continue;
    long long v = 0;
    memcpy(&v, q.s, 8);
    r.push_back({ (int)q.a, (unsigned)q.b, q.a == COUNT ? v : 0 });
    MC_REQUIRE(q.b >= 0 && q.b <= 0xffffffffL, "identifier out of range");
  }
  return r;
}
}  // namespace tp
#endif
#ifdef TP_NATIVE
#include <native/tracepoint_collector_native.h>
namespace tp
{
// everything emitted by the calling thread and not taken before
inline std::vector<Ev>& taken()
{
  thread_local std::vector<Ev> t;
  return t;
}
inline std::vector<Ev> mine(int since = 0)
{
  auto b = scalopus::TracePointCollectorNative::getInstance()->getBuffer();
  MC_REQUIRE(b != nullptr, "no buffer");
  std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent> v;
  b->pop_into(std::back_inserter(v), b->size());
  for (auto& e : v)
  {
    Ev r{ e.trace_type, e.trace_id, 0 };
    if (e.trace_type == COUNT)
    {
      MC_REQUIRE(e.dynamic_data != nullptr, "counter without value");
      std::int64_t x = 0;
      cbor::from_cbor(x, *e.dynamic_data);
      r.value = x;
    }
    taken().push_back(r);
  }
  return std::vector<Ev>(taken().begin() + since, taken().end());
}
}  // namespace tp
#endif
