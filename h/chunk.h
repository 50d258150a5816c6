// Native event data as a traced process sends it.
#pragma once
#include <cbor/stl.h>
#include <scalopus_interface/types.h>
#include <map>
#include <string>
#include <vector>
#include "tracepoint_collector_native.h"
namespace chunk
{
using scalopus::Data;
namespace tct = scalopus::tracepoint_collector_types;
struct Event
{
  unsigned long tid;
  uint64_t ns;
  unsigned id;
  int type;
  bool has_value;
  int64_t value;
};
inline Data make(int pid, const std::vector<Event>& ev)
{
  tct::ThreadedEvents m;
  for (auto& e : ev)
  {
    tct::StaticTraceEvent s;
    s.time_point = e.ns;
    s.trace_id = e.id;
    s.trace_type = (uint8_t)e.type;
    if (e.has_value)
      s.dynamic_data = std::make_unique<Data>(cbor::cbor_object{ e.value }.serialized());
    m[e.tid].push_back(std::move(s));
  }
  const std::map<std::string, cbor::cbor_object> d{ { "pid", cbor::cbor_object{ static_cast<unsigned long>(pid) } }, { "events", cbor::cbor_object{ m } } };
  Data out;
  cbor::to_cbor(d, out);
  return out;
}
}  // namespace chunk
