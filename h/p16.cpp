// P16: trace text lines.  Exhaustive enumeration of lines against an independent description of what they hold.
#include <cfloat>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include "en.h"
#include "scalopus_tracing/ctfevent.h"
using scalopus::CTFEvent;
using Map = std::map<std::string, unsigned long long>;

struct Field
{
  std::string key, text;
  bool integer;
  unsigned long long value;
};
struct Line
{
  std::string ts, host, domain, name;
  std::vector<Field> ctx[3];
  std::string tail;
  std::string str() const
  {
    std::string s = "[" + ts + "] " + host + " " + domain + ":" + name + ": ";
    for (int i = 0; i < 3; i++)
    {
      s += i ? ", { " : "{ ";
      for (size_t k = 0; k < ctx[i].size(); k++)
        s += (k ? ", " : "") + ctx[i][k].key + " = " + ctx[i][k].text;
      s += ctx[i].empty() ? "}" : " }";
    }
    return s + tail;
  }
  Map map(int i) const
  {
    Map m;
    for (auto& f : ctx[i])
      if (f.integer)
        m[f.key] = f.value;
    return m;
  }
};

// Everything observable about an event.
struct Seen
{
  double time = 0;
  std::string domain, name, line, text;
  Map ctx[3];
  bool operator==(const Seen& o) const
  {
    return memcmp(&time, &o.time, sizeof time) == 0 && domain == o.domain && name == o.name && line == o.line && text == o.text &&
           ctx[0] == o.ctx[0] && ctx[1] == o.ctx[1] && ctx[2] == o.ctx[2];
  }
  std::string str() const
  {
    std::ostringstream o;
    o.precision(17);
    o << "time " << time << " domain " << en::show(domain) << " name " << en::show(name);
    for (int i = 0; i < 3; i++)
    {
      o << " {";
      for (auto& k : ctx[i])
        o << " " << en::show(k.first) << "=" << k.second;
      o << " }";
    }
    return o.str();
  }
};
static Seen look(const CTFEvent& e)
{
  Seen s;
  s.time = e.time();
  s.domain = e.domain();
  s.name = e.name();
  s.line = e.line();
  s.ctx[0] = e.streamContext();
  s.ctx[1] = e.eventContext();
  s.ctx[2] = e.eventData();
  std::ostringstream o;
  o << e;
  s.text = o.str();
  return s;
}
// Parses the line in memory that previously held the given byte, so that anything left uninitialised shows up.
static Seen parseIn(const std::string& line, int poison)
{
  alignas(CTFEvent) static unsigned char mem[sizeof(CTFEvent)];
  memset(mem, poison, sizeof mem);
  CTFEvent* e = nullptr;
  try
  {
    e = new (mem) CTFEvent(line);
    Seen s = look(*e);
    // the identifiers: the value in the context, or the documented lookup error
    for (int i = 0; i < 2; i++)
    {
      auto it = s.ctx[1].find(i ? "pthread_id" : "vpid");
      try
      {
        unsigned long long v = i ? e->tid() : e->pid();
        EN_REQUIRE(it != s.ctx[1].end() && it->second == v, "line %s: %s() returned %llu", en::show(line).c_str(), i ? "tid" : "pid", v);
      }
      catch (const std::out_of_range&)
      {
        EN_REQUIRE(it == s.ctx[1].end(), "line %s: %s() failed though the field is there", en::show(line).c_str(), i ? "tid" : "pid");
      }
    }
    e->~CTFEvent();
    return s;
  }
  catch (const en::Failure&)
  {
    throw;
  }
  catch (const std::exception& x)
  {
    en::fail("parsing %s failed: %s", en::show(line).c_str(), x.what());
  }
}
static Seen parse(const std::string& line)
{
  Seen a = parseIn(line, 0), b = parseIn(line, 0xa5);
  EN_REQUIRE(a == b, "parsing %s depends on what was in memory before: %s, then %s", en::show(line).c_str(), a.str().c_str(), b.str().c_str());
  EN_REQUIRE(a.line == line, "line() of %s is %s", en::show(line).c_str(), en::show(a.line).c_str());
  return a;
}

static void wellFormed(en::Ctx& c, const Line& l)
{
  std::string text = l.str();
  c.describe(text);
  c.transitions(1);
  Seen s = parse(text);
  c.digest(s.str());
  EN_REQUIRE(s.time == strtod(l.ts.c_str(), nullptr), "line %s: time is %.9f", en::show(text).c_str(), s.time);
  EN_REQUIRE(s.domain == l.domain, "line %s: domain is %s", en::show(text).c_str(), en::show(s.domain).c_str());
  EN_REQUIRE(s.name == l.name, "line %s: name is %s", en::show(text).c_str(), en::show(s.name).c_str());
  for (int i = 0; i < 3; i++)
    EN_REQUIRE(s.ctx[i] == l.map(i), "line %s: context %d came out wrong: %s", en::show(text).c_str(), i, s.str().c_str());
}

static Field I(const std::string& k, unsigned long long v)
{
  return { k, std::to_string(v), true, v };
}
static Field S(const std::string& k, long long v)
{
  return { k, std::to_string(v), true, static_cast<unsigned long long>(v) };
}
static Field T(const std::string& k, const std::string& t)
{
  return { k, "\"" + t + "\"", false, 0 };
}
static Line real()
{
  Line l;
  l.ts = "1544361620.739021131";
  l.host = "eagle";
  l.domain = "scalopus_scope_id";
  l.name = "scope_exit";
  l.ctx[0] = { I("cpu_id", 2) };
  l.ctx[1] = { I("vpid", 14897), I("pthread_id", 139688084124608ULL) };
  l.ctx[2] = { I("id", 4144779573ULL), S("value", -3) };
  return l;
}
static const std::vector<std::string> kTails = { "", "\n" };
static const std::vector<std::string> kTimes = { "0", "0.000000000", "0.000000001", "1.5", "12.345678901", "999999999.999999999", "1544361620.739021131", "1544361620.000000000",
                                                 "4294967295.999999999", "4294967296.000000001", "18446744073.709551615" };
// [time] host domain:name over all combinations of the header parts
EN_CASES(header, 3)
{
  const std::vector<std::string> words = { "a", "x1", "scalopus_scope_id", "scope_entry", "count_event", "lttng_ust_statedump", "A-b.c/d", std::string(300, 'q') };
  const std::vector<std::string> hosts = { "h", "eagle", "my-host.domain.org", "host_1", "10", "a:b", "a=b", std::string(200, 'h') };
  const std::vector<std::string> names = { "n", "scope_exit", "start", "a:b", "x_y", "e1", std::string(300, 'n') };
  for (auto& t : kTimes)
    for (auto& h : hosts)
      for (auto& d : words)
        for (auto& n : names)
          for (int shape = 0; shape < 3; shape++)
            for (auto& tail : kTails)
            {
              if (!c.next())
                continue;
              Line l = real();
              l.ts = t;
              l.host = h;
              l.domain = d;
              l.name = n;
              l.tail = tail;
              if (shape == 1)
                l.ctx[0].clear();
              if (shape == 2)
                for (auto& x : l.ctx)
                  x.clear();
              wellFormed(c, l);
            }
}
// every microsecond-to-nanosecond digit of a time
EN_CASES(times, 3)
{
  std::vector<std::string> secs;
  for (unsigned long long s = 0; s < 20; s++)
    secs.push_back(std::to_string(s));
  unsigned long long p = 1;
  for (int i = 0; i < 11; i++, p *= 10)
    for (long long d : { -1, 0, 1 })
      secs.push_back(std::to_string(p * 10 + d));
  std::vector<std::string> fracs;
  for (int pos = 0; pos < 9; pos++)
    for (char d = '0'; d <= '9'; d++)
      for (char fill : { '0', '9' })
      {
        std::string f(9, fill);
        f[pos] = d;
        fracs.push_back(f);
      }
  for (auto& s : secs)
    for (auto& f : fracs)
    {
      if (!c.next())
        continue;
      Line l = real();
      l.ts = s + "." + f;
      wellFormed(c, l);
    }
}
static std::vector<Field> fieldChoices(const std::string& key, bool wide)
{
  std::vector<Field> r = { I(key, 0), I(key, 1), S(key, -1), S(key, INT64_MIN), I(key, INT64_MAX), I(key, UINT64_MAX), T(key, "text"), T(key, "") };
  if (wide)
    for (int b = 1; b < 64; b++)
    {
      r.push_back(I(key, 1ULL << b));
      r.push_back(I(key, (1ULL << b) - 1));
      if (b < 63)
      {
        r.push_back(S(key, -(1LL << b)));
        r.push_back(S(key, -(1LL << b) + 1));
        r.push_back(S(key, -(1LL << b) - 1));
      }
    }
  return r;
}
// every value shape in every position of every context
EN_CASES(values, 3)
{
  for (int ctx = 0; ctx < 3; ctx++)
    for (int before = 0; before < 3; before++)
      for (int after = 0; after < 3; after++)
        for (const char* key : { "v", "vpid", "pthread_id", "a_much_longer_key_name", "k1" })
          for (auto& f : fieldChoices(key, true))
            for (auto& tail : kTails)
            {
              if (!c.next())
                continue;
              Line l = real();
              l.ctx[ctx].clear();
              for (int i = 0; i < before; i++)
                l.ctx[ctx].push_back(I("b" + std::to_string(i), 7 + i));
              l.ctx[ctx].push_back(f);
              for (int i = 0; i < after; i++)
                l.ctx[ctx].push_back(I("c" + std::to_string(i), 9 + i));
              l.tail = tail;
              wellFormed(c, l);
            }
}
// all combinations of up to 2 fields (thorough: 3) in each of the three contexts
EN_CASES(contexts, 3)
{
  std::vector<std::vector<Field>> opts = { {} };
  auto one = fieldChoices("a", false);
  for (auto& f : one)
    opts.push_back({ f });
  std::vector<Field> small = { I("b", 1), S("b", -7), T("b", "x"), I("id", UINT64_MAX) };
  for (auto& f : small)
    for (auto& g : small)
    {
      Field g2 = g;
      g2.key = "vpid";
      opts.push_back({ f, g2 });
      if (c.thorough)
        for (auto& h : small)
        {
          Field h2 = h;
          h2.key = "c";
          opts.push_back({ f, g2, h2 });
        }
    }
  for (auto& x : opts)
    for (auto& y : opts)
      for (auto& z : opts)
      {
        if (!c.next())
          continue;
        Line l = real();
        l.ctx[0] = x;
        l.ctx[1] = y;
        l.ctx[2] = z;
        l.tail = "\n";
        wellFormed(c, l);
      }
}
EN_CASES(many_fields, 3)
{
  for (int ctx = 0; ctx < 3; ctx++)
    for (int n = 0; n < (c.thorough ? 2000 : 300); n++)
      for (int neg = 0; neg < 2; neg++)
      {
        if (!c.next())
          continue;
        Line l = real();
        l.ctx[ctx].clear();
        for (int i = 0; i < n; i++)
          l.ctx[ctx].push_back(neg ? S("k" + std::to_string(i), -i * 1000003LL) : I("k" + std::to_string(i), i * 1000003ULL));
        wellFormed(c, l);
      }
}

// ---------------------------------------------------------------- anything else
// Whatever is reported has to be in the line: a field is spelled "key = number" there.
static void anyLine(en::Ctx& c, const std::string& text)
{
  c.describe(text);
  c.transitions(1);
  Seen s = parse(text);
  c.digest(s.str());
  auto has = [&](const std::string& w) { return text.find(w) != std::string::npos; };
  EN_REQUIRE(has(s.domain) && has(s.name), "line %s: domain %s and name %s are not in it", en::show(text).c_str(), en::show(s.domain).c_str(), en::show(s.name).c_str());
  for (int i = 0; i < 3; i++)
    for (auto& f : s.ctx[i])
    {
      bool ok = false;
      for (size_t p = text.find(f.first + " = "); p != std::string::npos && !ok; p = text.find(f.first + " = ", p + 1))
      {
        std::string v = text.substr(p + f.first.size() + 3);
        size_t used = 0;
        try
        {
          ok = std::stoull(v, &used) == f.second;
        }
        catch (const std::exception&)
        {
        }
      }
      EN_REQUIRE(ok, "line %s: it holds no field %s with value %llu", en::show(text).c_str(), en::show(f.first).c_str(), f.second);
    }
  if (s.time != 0)
  {
    bool ok = false;
    for (size_t p = 0; p < text.size() && !ok; p++)
      if (text[p] == '[')
        ok = strtod(text.c_str() + p + 1, nullptr) == s.time || s.time != s.time;
    EN_REQUIRE(ok, "line %s: time %g is not in it", en::show(text).c_str(), s.time);
  }
}
static std::vector<Line> templates()
{
  std::vector<Line> r;
  Line l = real();
  r.push_back(l);
  l.tail = "\n";
  l.ctx[0].clear();
  r.push_back(l);
  l = real();
  l.ctx[1].clear();
  l.ctx[2].clear();
  r.push_back(l);
  l = real();
  l.ts = "7";
  l.host = "h";
  l.domain = "d";
  l.name = "n";
  l.ctx[0] = { I("a", 1), T("s", "x") };
  l.ctx[1] = { T("t", "") };
  l.ctx[2] = { S("v", INT64_MIN), I("w", UINT64_MAX), I("x", 0) };
  r.push_back(l);
  return r;
}
// every prefix of a line: no part may be there that was cut off or cut short
EN_CASES(truncations, 3)
{
  for (auto& l : templates())
  {
    std::string full = l.str();
    size_t nameEnd = full.find(":" + l.name + ": ") + 1 + l.name.size();
    for (size_t n = 0; n < full.size(); n++)
    {
      if (!c.next())
        continue;
      std::string text = full.substr(0, n);
      anyLine(c, text);
      Seen s = parse(text);
      double t = strtod(l.ts.c_str(), nullptr);
      EN_REQUIRE(s.time == t || s.time == 0, "line %s: time is %.9f", en::show(text).c_str(), s.time);
      EN_REQUIRE(n < l.ts.size() + 2 || s.time == t, "line %s: the time is there and was not found", en::show(text).c_str());
      EN_REQUIRE(s.domain == l.domain || s.domain.empty(), "line %s: domain is %s", en::show(text).c_str(), en::show(s.domain).c_str());
      EN_REQUIRE(s.name == l.name || s.name.empty(), "line %s: name is %s", en::show(text).c_str(), en::show(s.name).c_str());
      EN_REQUIRE(n < nameEnd + 2 || (s.domain == l.domain && s.name == l.name), "line %s: domain and name are there and were not found", en::show(text).c_str());
      for (int i = 0; i < 3; i++)
      {
        Map m = l.map(i);
        for (auto& f : s.ctx[i])
          EN_REQUIRE(m.count(f.first) && m[f.first] == f.second, "line %s: context %d got field %s=%llu", en::show(text).c_str(), i, en::show(f.first).c_str(), f.second);
      }
    }
  }
}
static const std::string kSpecial = std::string("[]{}:=,\" \n\t-+.019aexn") + char(0x80) + char(0);
// every single-character deletion, duplication, insertion and replacement; thorough: every pair of deletions/replacements
EN_CASES(single_edits, 3)
{
  for (auto& l : templates())
  {
    std::string full = l.str();
    for (size_t p = 0; p <= full.size(); p++)
    {
      if (p < full.size())
        if (c.next())
          anyLine(c, full.substr(0, p) + full.substr(p + 1));
      for (char x : kSpecial)
      {
        if (c.next())
          anyLine(c, full.substr(0, p) + x + full.substr(p));
        if (p < full.size())
          if (c.next())
            anyLine(c, full.substr(0, p) + x + full.substr(p + 1));
      }
    }
  }
}
EN_CASES(double_edits, 2)
{
  const std::string alpha = "[]{}:=, 9";
  for (auto& l : templates())
  {
    std::string full = l.str();
    for (size_t p = 0; p < full.size(); p++)
      for (size_t q = p + 1; q < full.size(); q++)
        for (size_t x = 0; x <= alpha.size(); x++)
          for (size_t y = 0; y <= alpha.size(); y++)
          {
            if (!c.next())
              continue;
            std::string a = x < alpha.size() ? std::string(1, alpha[x]) : "", b = y < alpha.size() ? std::string(1, alpha[y]) : "";
            anyLine(c, full.substr(0, p) + a + full.substr(p + 1, q - p - 1) + b + full.substr(q + 1));
          }
  }
}
// every removed span
EN_CASES(spans, 3)
{
  for (auto& l : templates())
  {
    std::string full = l.str();
    for (size_t p = 0; p < full.size(); p++)
      for (size_t q = p + 1; q <= full.size(); q++)
      {
        if (!c.next())
          continue;
        anyLine(c, full.substr(0, p) + full.substr(q));
      }
  }
}
// every string over the syntax characters up to a length, on its own and in each place of a line
EN_CASES(strings, 3)
{
  const std::string alpha = "[]{}: =,1";
  const std::vector<std::pair<std::string, std::string>> slots = { { "", "" },
                                                                   { "[", "] h d:n: { a = 1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5", "h d:n: { a = 1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h", "d:n: { a = 1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d", "n: { a = 1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n", "{ a = 1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n: ", ", { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n: { a", "1 }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n: { a = ", " }, { vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n: { a = 1", "{ vpid = 2 }, { id = 3 }" },
                                                                   { "[1.5] h d:n: { a = 1 }, { vpid = 2", "id = 3 }" },
                                                                   { "[1.5] h d:n: { a = 1 }, { vpid = 2 }, { id", "" },
                                                                   { "[1.5] h d:n: { a = 1 }, { vpid = 2 }, ", "" },
                                                                   { "[1.5] h d:n: { a = 1 }, { vpid = 2 }, { id = 3 }", "" } };
  for (size_t si = 0; si < slots.size(); si++)
  {
    int maxlen = (c.thorough ? 7 : 5) - (si ? 1 : 0);
    std::string s;
    std::function<void(int)> rec = [&](int left) {
      if (c.next())
        anyLine(c, slots[si].first + s + slots[si].second);
      if (!left)
        return;
      for (char x : alpha)
      {
        s.push_back(x);
        rec(left - 1);
        s.pop_back();
      }
    };
    rec(maxlen);
  }
}
// numbers that do not fit, everywhere a number goes
EN_CASES(numbers, 3)
{
  std::vector<std::string> nums;
  for (int n = 1; n <= 400; n += n < 25 ? 1 : 25)
    for (char d : { '0', '1', '9' })
      for (const char* sign : { "", "-", "+" })
        nums.push_back(sign + std::string(n, d));
  for (auto& s : { "", "-", "+", ".", "1e400", "-1e400", "1e-400", "1e5", "0x10", "0x", "inf", "nan", "-inf", "18446744073709551616", "18446744073709551615",
                   "-9223372036854775809", "99999999999999999999999999", "1.7976931348623157e308", "1.8e308", "4.9e-324", "1e-310", "--1", "1-1", " 1" })
    nums.push_back(s);
  for (auto& n : nums)
    for (int where = 0; where < 4; where++)
      for (int pos = 0; pos < 3; pos++)
      {
        if (!c.next())
          continue;
        Line l = real();
        if (where == 3)
          l.ts = n;
        else
          l.ctx[where].insert(l.ctx[where].begin() + std::min<size_t>(pos, l.ctx[where].size()), Field{ "odd", n, false, 0 });
        anyLine(c, l.str());
        // the intact parts are still found
        Seen s = parse(l.str());
        if (where == 3)
        {
          if (s.domain.empty())
            continue;
        }
        else
          EN_REQUIRE(s.time == strtod(l.ts.c_str(), nullptr), "line %s: time is %.9f", en::show(l.str()).c_str(), s.time);
        EN_REQUIRE(s.domain == l.domain && s.name == l.name, "line %s: domain %s, name %s", en::show(l.str()).c_str(), s.domain.c_str(), s.name.c_str());
        for (int i = 0; i < 3; i++)
          for (auto& f : l.map(i))
            EN_REQUIRE(s.ctx[i].count(f.first) && s.ctx[i][f.first] == f.second, "line %s: field %s was lost or changed: %s", en::show(l.str()).c_str(), f.first.c_str(), s.str().c_str());
      }
}
// an event that was never parsed from anything
EN_CASES(default_event, 3)
{
  for (int poison : { 0, 0xa5, 0xff })
  {
    if (!c.next())
      continue;
    c.describe("default constructed");
    c.transitions(1);
    alignas(CTFEvent) unsigned char mem[sizeof(CTFEvent)];
    memset(mem, poison, sizeof mem);
    CTFEvent* e = new (mem) CTFEvent;
    Seen s = look(*e);
    c.digest(s.str());
    EN_REQUIRE(s.time == 0 && s.domain.empty() && s.name.empty() && s.line.empty() && s.ctx[0].empty() && s.ctx[1].empty() && s.ctx[2].empty(), "a default event is not empty: %s", s.str().c_str());
    e->~CTFEvent();
  }
}
