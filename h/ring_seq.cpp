// P09, sequential histories: every sequence of operations up to a depth, for every small capacity, against a queue.
#include "en.h"
#include <algorithm>
#include <array>
#include <deque>
#include <iterator>
#include <memory>
#include <stdexcept>
#include "spsc_ringbuffer.h"
typedef std::vector<std::unique_ptr<int>> Cont;
typedef scalopus::SPSCRingBuffer<Cont> Ring;
enum Op { PUSH, POP, POP1, POP2, POPALL, NOPS };
static std::vector<std::vector<int>> seqs(int depth)
{
  std::vector<std::vector<int>> all;
  size_t n = 1;
  for (int i = 0; i < depth; i++)
    n *= NOPS;
  for (size_t k = 0; k < n; k++)
  {
    std::vector<int> v;
    size_t x = k;
    for (int i = 0; i < depth; i++)
      v.push_back((int)(x % NOPS)), x /= NOPS;
    all.push_back(v);
  }
  return all;
}
static size_t capacity(size_t n)
{
  Ring r{ Cont(n) };
  size_t k = 0;
  while (k < n + 3 && r.push(std::make_unique<int>((int)k)))
    k++;
  EN_REQUIRE(k + 1 >= n && k <= n, "an empty ring over %zu slots accepts %zu elements", n, k);
  EN_REQUIRE(r.size() == k, "size() of a full ring is %zu, pushed %zu", r.size(), k);
  return k;
}
EN_CASES(histories, 3)
{
  {
    bool thrown = false;
    try
    {
      Ring r{ Cont(0) };
    }
    catch (const std::runtime_error&)
    {
      thrown = true;
    }
    EN_REQUIRE(thrown, "a ring over an empty container is accepted");
  }
  auto all = seqs(c.thorough ? 8 : 7);
  for (size_t n = 1; n <= 5; n++)
  {
    size_t cap = capacity(n);
    // the starting offset makes every wrap position reachable within the depth
    for (size_t off = 0; off < n; off++)
      for (auto& s : all)
      {
        if (!c.next())
          continue;
        std::string d = "slots " + std::to_string(n) + " offset " + std::to_string(off) + " ops";
        for (int o : s)
          d += " " + std::to_string(o);
        c.describe(d);
        Ring r{ Cont(n) };
        std::unique_ptr<int> v;
        for (size_t i = 0; i < off && cap > 0; i++)
        {
          EN_REQUIRE(r.push(std::make_unique<int>(-1)), "push into empty ring fails");
          EN_REQUIRE(r.pop(v), "pop fails although one element was pushed");
        }
        std::deque<int> q;
        int nextv = 0;
        uint64_t dg = n * 31 + off;
        for (int o : s)
        {
          int max = o == POP1 ? 1 : o == POP2 ? 2 : 100;
          if (o == PUSH)
          {
            bool ok = r.push(std::make_unique<int>(nextv));
            EN_REQUIRE(ok == (q.size() < cap), "push returned %d with %zu of %zu elements held", ok, q.size(), cap);
            if (ok)
              q.push_back(nextv);
            nextv++;
          }
          else if (o == POP)
          {
            bool ok = r.pop(v);
            EN_REQUIRE(ok == !q.empty(), "pop returned %d with %zu elements held", ok, q.size());
            if (ok)
            {
              EN_REQUIRE(v && *v == q.front(), "pop yields %d, expected %d", v ? *v : -99, q.front());
              q.pop_front();
            }
          }
          else
          {
            std::vector<std::unique_ptr<int>> out;
            size_t k = r.pop_into(std::back_inserter(out), (size_t)max);
            size_t want = std::min(q.size(), (size_t)max);
            EN_REQUIRE(k == want && out.size() == want, "pop_into(%d) returned %zu (%zu written) with %zu elements held", max, k, out.size(), q.size());
            for (auto& x : out)
            {
              EN_REQUIRE(x && *x == q.front(), "pop_into yields %d, expected %d", x ? *x : -99, q.front());
              q.pop_front();
            }
          }
          EN_REQUIRE(r.size() == q.size(), "size() is %zu, expected %zu", r.size(), q.size());
          EN_REQUIRE(r.empty() == q.empty(), "empty() is %d with %zu elements", r.empty(), q.size());
          dg = dg * 1099511628211ull + (uint64_t)o * 7 + q.size();
        }
        c.transitions(s.size());
        c.digest(dg);
      }
  }
}
// capacities around every power of two, filled, emptied in part or as a whole and filled again, from several offsets
EN_CASES(capacities, 3)
{
  for (int bits = 3; bits <= (c.thorough ? 21 : 17); bits++)
    for (int d = -1; d <= 1; d++)
      for (int o = 0; o < 4; o++)
        for (int part = 0; part < 4; part++)
        {
          if (!c.next())
            continue;
          const size_t n = (size_t)((1l << bits) + d), cap = n - 1, off = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? n / 2 : n - 1;
          c.describe("slots " + std::to_string(n) + " offset " + std::to_string(off) + " part " + std::to_string(part));
          scalopus::SPSCRingBuffer<std::vector<size_t>> r{ std::vector<size_t>(n) };
          size_t v = 0, in = 0, out = 0;
          for (size_t i = 0; i < off; i++)
            EN_REQUIRE(r.push(0) && r.pop(v), "a push into or a pop from a ring with room fails");
          for (int round = 0; round < 3; round++)
          {
            while (in - out < n + 3 && r.push(size_t(in)))
              in++;
            EN_REQUIRE(in - out >= cap && in - out <= n, "a push fails with %zu of %zu elements held", in - out, cap);
            EN_REQUIRE(r.size() == in - out && !r.empty(), "size() is %zu with %zu elements held", r.size(), in - out);
            // one by one, a batch of part of it, everything in one batch
            const size_t take = part == 0 ? in - out : part == 1 ? (in - out) / 2 : part == 2 ? in - out - 1 : in - out + 5;
            std::vector<size_t> got;
            if (part == 0)
              while (r.pop(v))
                got.push_back(v);
            else
            {
              const size_t k = r.pop_into(std::back_inserter(got), take);
              EN_REQUIRE(k == got.size(), "pop_into returned %zu and wrote %zu", k, got.size());
            }
            EN_REQUIRE(got.size() == std::min(take, in - out), "%zu elements popped of %zu, asked for %zu", got.size(), in - out, take);
            for (size_t x : got)
              EN_REQUIRE(x == out++, "popped %zu where %zu was pushed", x, out - 1);
            EN_REQUIRE(r.size() == in - out && r.empty() == (in == out), "size() is %zu with %zu elements held", r.size(), in - out);
          }
          c.transitions(3 * n);
          c.digest((uint64_t)in * 31 + out);
        }
}
