// P09, concurrent: one producer and one consumer, every interleaving of their atomic accesses.
#include <algorithm>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <thread>
#include <vector>
#include "mc.h"
#include "spsc_ringbuffer.h"
// Elements own memory, so a torn or duplicated transfer is also seen as a double free or use after free.
struct El
{
  std::unique_ptr<int> p;
  int v = -1;
};
typedef std::vector<El> Cont;
typedef scalopus::SPSCRingBuffer<Cont> Ring;
enum { PUSHED = 1, POPPED, SIZE };
static void body(int slots, int pre, int npush, int mode)
{
  Cont c(static_cast<size_t>(slots));
  Ring r(std::move(c));
  // measure the capacity of such a ring
  size_t cap = 0;
  {
    Ring t{ Cont(static_cast<size_t>(slots)) };
    El e;
    while (cap < 20 && t.push(El{}))
      cap++;
  }
  for (int i = 0; i < pre && cap > 0; i++)
  {
    El e;
    MC_REQUIRE(r.push(El{}), "push into empty ring fails");
    MC_REQUIRE(r.pop(e), "pop from non empty ring fails");
  }
  int base = mc::record_count();
  (void)base;
  std::thread prod([&] {
    for (int i = 0; i < npush; i++)
    {
      El e;
      e.p = std::make_unique<int>(i * 3 + 1);
      e.v = i;
      // what has been popped so far is a lower bound for what is free: count records before the call
      int popped_before = 0, pushed = 0;
      for (int k = 0; k < mc::record_count(); k++)
      {
        if (mc::record_at(k).kind == POPPED)
          popped_before++;
        if (mc::record_at(k).kind == PUSHED)
          pushed++;
      }
      bool ok = r.push(std::move(e));
      if (ok)
        mc::record(PUSHED, i);
      else
        MC_REQUIRE(pushed - popped_before >= (int)cap, "push failed although at most %d of %d elements were held", pushed - popped_before, (int)cap);
      if (mode == 2)
      {
        size_t s = r.size();
        MC_REQUIRE(s <= cap, "producer sees size %zu > capacity %zu", s, cap);
      }
    }
  });
  std::vector<int> got;
  auto take = [&](El& e) {
    MC_REQUIRE(e.p != nullptr, "popped an element that was not pushed (or was moved from)");
    MC_REQUIRE(*e.p == e.v * 3 + 1, "popped element is corrupted: %d with payload %d", e.v, *e.p);
    got.push_back(e.v);
    mc::record(POPPED, e.v);
  };
  auto pushed_now = [&] {
    int n = 0;
    for (int k = 0; k < mc::record_count(); k++)
      if (mc::record_at(k).kind == PUSHED)
        n++;
    return n;
  };
  int tries = npush + 1;
  for (int i = 0; i < tries; i++)
  {
    int before = pushed_now();
    if (mode == 1)
    {
      std::vector<El> out;
      size_t k = r.pop_into(std::back_inserter(out), i == 0 ? 1 : 10);
      MC_REQUIRE(k == out.size(), "pop_into reports %zu elements but wrote %zu", k, out.size());
      MC_REQUIRE(k > 0 || before <= (int)got.size(), "pop_into returned nothing although %d were pushed and %zu popped", before, got.size());
      for (auto& e : out)
        take(e);
    }
    else
    {
      if (mode == 2)
      {
        size_t s = r.size();
        MC_REQUIRE(s <= cap, "consumer sees size %zu > capacity %zu", s, cap);
        MC_REQUIRE((int)s >= before - (int)got.size(), "consumer sees size %zu although %d were pushed and %zu popped", s, before, got.size());
        bool em = r.empty();
        El e;
        bool ok = r.pop(e);
        MC_REQUIRE(em || ok, "empty() was false but the next pop failed");
        MC_REQUIRE(ok || s == 0, "size() was %zu but the next pop failed", s);
        if (ok)
          take(e);
      }
      else
      {
        El e;
        bool ok = r.pop(e);
        MC_REQUIRE(ok || before <= (int)got.size(), "pop failed although %d were pushed and %zu popped", before, got.size());
        if (ok)
          take(e);
      }
    }
  }
  prod.join();
  El e;
  while (r.pop(e))
    take(e);
  MC_REQUIRE(r.size() == 0 && r.empty(), "drained ring reports size %zu", r.size());
  // everything pushed is popped exactly once in order
  size_t k = 0;
  for (int i = 0; i < mc::record_count(); i++)
    if (mc::record_at(i).kind == PUSHED)
    {
      MC_REQUIRE(k < got.size(), "element %ld was pushed but never popped", mc::record_at(i).a);
      MC_REQUIRE(got[k] == mc::record_at(i).a, "popped %d where %ld was pushed", got[k], mc::record_at(i).a);
      k++;
    }
  MC_REQUIRE(k == got.size(), "popped more elements (%zu) than were pushed (%zu)", got.size(), k);
  for (int v : got)
    mc::outcome("%d ", v);
}
// slots and offset are enumerated, three preemptions in the quick tier
MC_SCENARIO(ring_pop, 3, 6, 0, 60)
{
  int slots = 2 + mc::choose(mc::tier() ? 4 : 3, "slots");
  int pre = mc::choose(slots, "offset");
  body(slots, pre, mc::tier() ? 5 : 4, 0);
}
MC_SCENARIO(ring_pop_into, 3, 6, 0, 60)
{
  int slots = 2 + mc::choose(mc::tier() ? 4 : 3, "slots");
  int pre = mc::choose(slots, "offset");
  body(slots, pre, mc::tier() ? 5 : 4, 1);
}
MC_SCENARIO(ring_size, 3, 5, 0, 60)
{
  int slots = 2 + mc::choose(mc::tier() ? 3 : 2, "slots");
  int pre = mc::choose(slots, "offset");
  body(slots, pre, 3, 2);
}
