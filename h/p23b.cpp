// second translation unit of P23: the same names
#include <scalopus_tracing/trace_macro.h>
#include <vector>
#ifdef TP_LTTNG
#define TP_HAVE 1
#endif
#include <scalopus_tracing/internal/count_tracepoint.h>
#include "mc.h"
namespace tp
{
struct Ev
{
  int type;
  unsigned id;
  long long value;
  bool operator==(const Ev& o) const { return type == o.type && id == o.id && value == o.value; }
};
}  // namespace tp
std::vector<tp::Ev> events_since(int from);
int events_now();
std::vector<tp::Ev> other_file(int)
{
  int from = events_now();
  {
    TRACE_MARK_EVENT_GLOBAL("mark");
  }
  {
    TRACE_MARK_EVENT_PROCESS("mark of process");
  }
  {
    TRACE_MARK_EVENT_THREAD("mark of thread");
  }
  {
    TRACE_COUNT_SERIES("counter", "series", 1);
  }
  {
    TRACE_COUNT("counter", 1);
  }
  for (int i = 0; i < 2; i++)
  {
    TRACE_SCOPE_RAII("loop");
#line 9000
    TRACE_SCOPE_RAII("loop");
  }
  return events_since(from);
}
