// What converted events have to look like, independent of where they came from.
#pragma once
#include <nlohmann/json.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "mc.h"
#include "names.h"
namespace conv
{
using json = nlohmann::json;
enum Kind { ENTRY, EXIT, MARK_G, MARK_P, MARK_T, COUNT, KINDS };
struct Ev
{
  Kind kind = ENTRY;
  int pid = 1;
  unsigned long tid = 1;
  double us = 0;       // microseconds
  unsigned id = 0;
  int64_t value = 0;
};
inline std::string name_of(const names::Table& t, int pid, unsigned id)
{
  auto p = t.find(pid);
  if (p != t.end() && p->second.count(id))
    return p->second.at(id);
  char b[40];
  snprintf(b, sizeof b, "Unknown 0x%x", id);
  return b;
}
inline std::pair<std::string, std::string> series_of(const std::string& n)
{
  auto p = n.find('/');
  if (p == std::string::npos)
    return { n, "count" };
  std::string s = n.substr(p + 1);
  return { n.substr(0, p), s.empty() ? "count" : s };
}
struct Want
{
  Ev e;
  std::string name, ph, s;
  std::map<std::string, int64_t> args;
};
// the events in arrival order -> the trace viewer events in the order they have to come out
inline std::vector<Want> expected(std::vector<Ev> ev, const names::Table& t)
{
  std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.us < b.us; });
  static const char* ph[] = { "B", "E", "i", "i", "i", "C" };
  static const char* sc[] = { "", "", "g", "p", "t", "" };
  std::vector<Want> r;
  for (size_t i = 0; i < ev.size(); i++)
  {
    Want w;
    w.e = ev[i];
    w.name = name_of(t, ev[i].pid, ev[i].id);
    w.ph = ph[ev[i].kind];
    w.s = sc[ev[i].kind];
    if (ev[i].kind == COUNT)
    {
      w.name = series_of(w.name).first;
      // latest value of every series up to here; of a series that only comes later, its first value
      for (size_t k = 0; k < ev.size(); k++)
      {
        if (ev[k].kind != COUNT || ev[k].pid != ev[i].pid)
          continue;
        auto cs = series_of(name_of(t, ev[k].pid, ev[k].id));
        if (cs.first != w.name)
          continue;
        if (k <= i || !w.args.count(cs.second))
          w.args[cs.second] = ev[k].value;
      }
    }
    r.push_back(w);
  }
  return r;
}
inline bool close(double a, double b)
{
  return std::fabs(a - b) <= 1e-3 + std::fabs(b) * 4e-16;
}
inline std::string text(const Want& w)
{
  json j = { { "name", w.name }, { "ph", w.ph }, { "s", w.s }, { "pid", w.e.pid }, { "tid", w.e.tid }, { "ts", w.e.us }, { "args", w.args } };
  return j.dump(-1, ' ', false, json::error_handler_t::replace);
}
inline std::string text(const std::vector<json>& v)
{
  std::string s;
  for (auto& x : v)
    s += x.dump(-1, ' ', false, json::error_handler_t::replace) + " ";
  return s;
}
// `ignore` tells which results stem from incomplete input and are not judged
template <typename F>
void check(const std::vector<json>& all, const std::vector<Ev>& ev, const names::Table& t, F ignore)
{
  std::vector<json> got;
  for (auto& x : all)
    if (!ignore(x))
      got.push_back(x);
  auto want = expected(ev, t);
  MC_REQUIRE(got.size() == want.size(), "%zu events recorded, %zu came out: %s", want.size(), got.size(), text(got).c_str());
  for (size_t i = 1; i < all.size(); i++)
    MC_REQUIRE(all[i - 1].at("ts").get<double>() <= all[i].at("ts").get<double>(), "events are not in time order: %s", text(all).c_str());
  for (size_t i = 0; i < got.size(); i++)
  {
    const json& g = got[i];
    const Want& w = want[i];
    auto is = [&](const char* k, const json& v) { return g.count(k) && g.at(k) == v; };
    bool ok = is("name", w.name) && is("ph", w.ph) && is("pid", w.e.pid) && is("tid", w.e.tid) && close(g.at("ts").get<double>(), w.e.us);
    ok = ok && (w.s.empty() || is("s", w.s));
    if (w.e.kind == COUNT)
      ok = ok && g.count("args") && g.at("args").is_object() && g.at("args").size() == w.args.size();
    if (ok && w.e.kind == COUNT)
      for (auto& a : w.args)
        ok = ok && g.at("args").count(a.first) && g.at("args").at(a.first) == a.second;
    MC_REQUIRE(ok, "event %zu should be %s, came out: %s", i, text(w).c_str(), text(got).c_str());
  }
}
inline void check(const std::vector<json>& all, const std::vector<Ev>& ev, const names::Table& t)
{
  check(all, ev, t, [](const json&) { return false; });
}
}  // namespace conv
