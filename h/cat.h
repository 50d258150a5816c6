// Scripted trace event sources and the judgement of what a session or recorder does with them.
#pragma once
#include <scalopus_interface/trace_event_provider.h>
#include <scalopus_interface/trace_event_source.h>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "mc.h"
namespace cat
{
using json = nlohmann::json;
enum Call { START, STOP, FINISH };
// what the sources of one world went through
struct World
{
  std::mutex m;
  std::vector<std::pair<int, int>> calls;  // source, Call
  std::vector<json> expected;              // returned by finishInterval calls, in order
  int works = 0;
  int made = 0;
  int live = 0;
  bool closed = false;  // no source may be driven any more
  std::string show()
  {
    std::lock_guard<std::mutex> l(m);
    static const char* n[] = { "start", "stop", "finish" };
    std::string s;
    for (auto& c : calls)
      s += n[c.second] + std::to_string(c.first) + " ";
    return s;
  }
  std::vector<std::pair<int, int>> take_calls()
  {
    std::lock_guard<std::mutex> l(m);
    auto r = calls;
    calls.clear();
    return r;
  }
  int worked()
  {
    std::lock_guard<std::mutex> l(m);
    return works;
  }
  int sources()
  {
    std::lock_guard<std::mutex> l(m);
    return live;
  }
  int count(int call)
  {
    std::lock_guard<std::mutex> l(m);
    int n = 0;
    for (auto& c : calls)
      n += c.second == call;
    return n;
  }
};
class Source : public scalopus::TraceEventSource
{
public:
  Source(std::shared_ptr<World> w, int i, int n, bool odd = false) : world(w), id(i), events(n), odd_text(odd)
  {
    std::lock_guard<std::mutex> l(world->m);
    world->live++;
  }
  ~Source() override
  {
    std::lock_guard<std::mutex> l(world->m);
    world->live--;
  }
  struct Use
  {
    explicit Use(Source& s) : src(s)
    {
      MC_REQUIRE(!src.busy.exchange(true), "a source is driven by two threads at once");
      std::lock_guard<std::mutex> l(src.world->m);
      MC_REQUIRE(!src.world->closed, "a source is driven after the end");
    }
    ~Use() { src.busy = false; }
    Source& src;
  };
  void called(Call c)
  {
    std::lock_guard<std::mutex> l(world->m);
    world->calls.push_back({ id, c });
  }
  void startInterval() override
  {
    Use u(*this);
    called(START);
  }
  void stopInterval() override
  {
    Use u(*this);
    called(STOP);
  }
  std::vector<json> finishInterval() override
  {
    Use u(*this);
    called(FINISH);
    if (throws)
      throw std::runtime_error("source failed");
    std::vector<json> r;
    for (int i = 0; i < events; i++)
      r.push_back({ { "ph", "X" }, { "src", id }, { "round", round }, { "i", i } });
    round++;
    if (events && odd_text)
      r[0]["name"] = "quote \" back\\slash \n\t\x01 \xc3\xa9 </script>";
    std::lock_guard<std::mutex> l(world->m);
    world->expected.insert(world->expected.end(), r.begin(), r.end());
    return r;
  }
  void work() override
  {
    Use u(*this);
    std::lock_guard<std::mutex> l(world->m);
    world->works++;
  }
  std::shared_ptr<World> world;
  int id, events, round = 0;
  bool odd_text;
  std::atomic<bool> throws{ false };
  std::atomic<bool> busy{ false };
};
class Provider : public scalopus::TraceEventProvider
{
public:
  Provider(std::shared_ptr<World> w, int n, bool odd = false) : world(w), events(n), odd_text(odd) {}
  scalopus::TraceEventSource::Ptr makeSource() override
  {
    int i;
    {
      std::lock_guard<std::mutex> l(world->m);
      i = world->made++;
    }
    return std::make_shared<Source>(world, i, events, odd_text);
  }
  std::shared_ptr<World> world;
  int events;
  bool odd_text;
};
}  // namespace cat
