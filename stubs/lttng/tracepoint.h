// Stand-in for lttng-ust: every tracepoint hands its serialised fields to stub_tracepoint().  Field conversions
// declared with ctf_integer() are carried out as lttng-ust would.
#pragma once
#include <cstdint>
struct StubTracepoint
{
  const char* provider;
  const char* name;
  int n;
  const char* field[4];
  long long value[4];
  template <typename T>
  void add(const char* f, T v)
  {
    if (n < 4)
    {
      field[n] = f;
      value[n] = (long long)v;
      n++;
    }
  }
};
void stub_tracepoint(const StubTracepoint& t);  // provided by the harness

#define STUB_NARGS(...) STUB_NARGS_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1)
#define STUB_NARGS_(a, b, c, d, e, f, g, h, n, ...) n
#define STUB_CAT(a, b) STUB_CAT_(a, b)
#define STUB_CAT_(a, b) a##b
#define STUB_DECL2(t1, n1) t1 n1
#define STUB_DECL4(t1, n1, t2, n2) t1 n1, t2 n2
#define STUB_DECL6(t1, n1, t2, n2, t3, n3) t1 n1, t2 n2, t3 n3
#define STUB_USE2(t1, n1) n1
#define STUB_USE4(t1, n1, t2, n2) n1, n2
#define STUB_USE6(t1, n1, t2, n2, t3, n3) n1, n2, n3
#define STUB_DECL_(...) STUB_CAT(STUB_DECL, STUB_NARGS(__VA_ARGS__))(__VA_ARGS__)
#define STUB_USE_(...) STUB_CAT(STUB_USE, STUB_NARGS(__VA_ARGS__))(__VA_ARGS__)
#define TP_ARGS(...) (__VA_ARGS__)
#define TP_FIELDS(...) __VA_ARGS__
#define LTTNG_UST_TP_ARGS TP_ARGS
#define LTTNG_UST_TP_FIELDS TP_FIELDS
#define ctf_integer(type, item, src) t.add(#item, (type)(src));
#define ctf_integer_hex ctf_integer
#define lttng_ust_field_integer ctf_integer
#define lttng_ust_field_integer_hex ctf_integer
#define TRACEPOINT_EVENT_CLASS(p, c, args, fields) \
  static inline void stub_class_##p##_##c(StubTracepoint& t, STUB_DECL_ args) { fields }
#define TRACEPOINT_EVENT_INSTANCE(p, c, nm, args)                     \
  static inline void stub_event_##p##___##nm(STUB_DECL_ args)         \
  {                                                                   \
    StubTracepoint t{ #p, #nm, 0, {}, {} };                           \
    stub_class_##p##_##c(t, STUB_USE_ args);                          \
    stub_tracepoint(t);                                               \
  }
#define TRACEPOINT_EVENT(p, nm, args, fields)                 \
  static inline void stub_event_##p##___##nm(STUB_DECL_ args) \
  {                                                           \
    StubTracepoint t{ #p, #nm, 0, {}, {} };                   \
    fields stub_tracepoint(t);                                \
  }
#define TRACEPOINT_LOGLEVEL(...)
#define tracepoint(p, nm, ...) stub_event_##p##___##nm(__VA_ARGS__)
#define do_tracepoint tracepoint
#define tracepoint_enabled(p, nm) 1
#define lttng_ust_tracepoint tracepoint
#define lttng_ust_do_tracepoint tracepoint
#define lttng_ust_tracepoint_enabled(p, nm) 1
#define LTTNG_UST_TRACEPOINT_EVENT_CLASS TRACEPOINT_EVENT_CLASS
#define LTTNG_UST_TRACEPOINT_EVENT_INSTANCE TRACEPOINT_EVENT_INSTANCE
#define LTTNG_UST_TRACEPOINT_EVENT TRACEPOINT_EVENT
#define LTTNG_UST_TRACEPOINT_LOGLEVEL(...)
