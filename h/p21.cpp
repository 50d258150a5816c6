// P21: a tracing session answers every command and delivers every event once.
#include <thread>
#include "cat.h"
#include "trace_session.h"
using cat::json;
using scalopus::TraceSession;
static std::string cmd(const char* method, const json& id) { return json{ { "method", method }, { "id", id } }.dump(); }
// What came out of a session.
struct Out
{
  std::mutex m;
  std::vector<std::string> all;
  std::vector<std::string> take()
  {
    std::lock_guard<std::mutex> l(m);
    return all;
  }
  int completed()
  {
    std::lock_guard<std::mutex> l(m);
    int n = 0;
    for (auto& s : all)
      n += s.find("Tracing.tracingComplete") != std::string::npos;
    return n;
  }
  size_t size()
  {
    std::lock_guard<std::mutex> l(m);
    return all.size();
  }
};
struct Expect
{
  json id;
  bool end;
  size_t events = 0;
};
// Judges the messages of a session: the answers in order, after each end the events and the completion.
static void judge(const std::vector<std::string>& out, const std::vector<Expect>& want, const std::vector<json>& events)
{
  size_t pos = 0, ev = 0;
  auto next = [&](const char* what) {
    MC_REQUIRE(pos < out.size(), "%s was not sent (%zu messages)", what, out.size());
    json j;
    try
    {
      j = json::parse(out[pos]);
    }
    catch (const json::exception& e)
    {
      MC_REQUIRE(false, "message is not JSON: %s", out[pos].substr(0, 200).c_str());
    }
    pos++;
    return j;
  };
  for (auto& w : want)
  {
    json a = next("an answer");
    MC_REQUIRE(a.count("id") && a["id"] == w.id && a.count("result") && !a.count("method"), "command with id %s was answered by %s", w.id.dump().c_str(), out[pos - 1].substr(0, 200).c_str());
    if (!w.end)
      continue;
    size_t got = 0;
    for (;;)
    {
      json d = next("the completion");
      std::string m = d.value("method", "");
      if (m == "Tracing.tracingComplete")
        break;
      MC_REQUIRE(m == "Tracing.dataCollected", "unexpected message after the end: %s", out[pos - 1].substr(0, 200).c_str());
      auto& v = d.at("params").at("value");
      MC_REQUIRE(v.is_array() && v.size() <= 1000, "a chunk of %zu events", v.size());
      long lines = std::count(out[pos - 1].begin(), out[pos - 1].end(), '\n');
      MC_REQUIRE(v.size() < 2 || lines >= (long)v.size() - 1, "the events of a chunk are not on lines of their own");
      for (auto& e : v)
      {
        MC_REQUIRE(ev < events.size() && got < w.events, "more events than the sources returned");
        MC_REQUIRE(e == events[ev], "event %zu was delivered as %s, the source returned %s", ev, e.dump().c_str(), events[ev].dump().c_str());
        ev++;
        got++;
      }
    }
    MC_REQUIRE(got == w.events, "%zu events delivered, the sources returned %zu", got, w.events);
  }
  MC_REQUIRE(pos == out.size(), "unexpected message %s", pos < out.size() ? out[pos].substr(0, 200).c_str() : "");
}
struct Session
{
  std::shared_ptr<cat::World> world = std::make_shared<cat::World>();
  std::shared_ptr<Out> out = std::make_shared<Out>();
  std::unique_ptr<TraceSession> s;
  std::vector<std::shared_ptr<cat::Source>> sources;
  void open()
  {
    auto o = out;
    auto w = world;
    s = std::make_unique<TraceSession>([o](std::string m) {
      std::lock_guard<std::mutex> l(o->m);
      o->all.push_back(m);
    });
    s->setLogger([](const std::string&) {});
  }
  void add(int events, bool odd = false)
  {
    sources.push_back(std::make_shared<cat::Source>(world, (int)sources.size(), events, odd));
    scalopus::TraceEventSource::Ptr p = sources.back();
    s->addSource(std::move(p));
  }
};
static const json kIds[] = { 1, "text", 0, -5, 4294967296ll, 7 };
static std::vector<std::string> bad()
{
  std::vector<std::string> r = { "", " ", "{", "nul", "[1,2]", "[]", "5", "-1.5", "\"Tracing.start\"", "null", "true", "{}", "{\"id\":1}", "{\"method\":5,\"id\":1}", "{\"method\":null,\"id\":2}",
                                 "{\"method\":[\"Tracing.start\"],\"id\":3}", "{\"method\":{\"Tracing.end\":1},\"id\":3}", "{\"method\":\"Tracing.en", "{\"method\":\"Tracing.end\",\"id\":",
                                 "{\"method\":\"Tracing.endx\",\"id\":4}", "{\"method\":\"Page.enable\",\"id\":4,\"params\":{}}", "{\"method\":\"\",\"id\":4}", "{\"method\":\"tracing.start\",\"id\":4}",
                                 "{\"method\":\"\xff\xfe\",\"id\":5}", std::string("{\"method\"\0", 10), "{\"method\":\"Tracing.start\",\"id\":1}}", "{'method':'Tracing.start','id':1}",
                                 std::string(5000, '['), "{\"id\":1e999}", "{\"method\":\"Target.\\ud800\",\"id\":1}" };
  return r;
}
// All command sequences, with anything malformed in between, against a model of the session.
MC_SCENARIO(sequences, 0, 0, mc::SEQ, 600)
{
  Session x;
  x.open();
  x.add(2);
  x.add(1, true);
  std::vector<Expect> want;
  std::vector<std::string> sent;
  int steps = mc::tier() ? 5 : 4;
  auto b = bad();
  std::vector<std::pair<int, int>> calls;
  auto each = [&](int c) {
    for (int i = 0; i < 2; i++)
      calls.push_back({ i, c });
  };
  bool burst = mc::choose(2, "burst");
  int nbad = 0;
  for (int i = 0; i < steps; i++)
  {
    int op = mc::choose(4, "command");
    const json& id = kIds[i];
    if (op == 0)
    {
      x.s->incoming(cmd("Tracing.getCategories", id));
      want.push_back({ id, false });
    }
    else if (op == 1)
    {
      x.s->incoming(cmd("Tracing.start", id));
      want.push_back({ id, false });
      each(cat::START);
    }
    else if (op == 2)
    {
      x.s->incoming(cmd("Tracing.end", id));
      want.push_back({ id, true, 3 });
      each(cat::STOP);
      each(cat::FINISH);
    }
    else
    {
      int k = nbad++ ? i * 7 % (int)b.size() : mc::choose((int)b.size(), "malformed");
      mc::note("[malformed %d] ", k);
      x.s->incoming(b[(size_t)k]);
    }
    if (!burst)
      mc::sleep_ms(20);
  }
  mc::sleep_ms(50);
  // the calls of one command are in no particular order among the sources
  auto got = x.world->take_calls();
  MC_REQUIRE(got.size() == calls.size(), "sources went through %zu calls, expected %zu", got.size(), calls.size());
  for (size_t i = 0; i + 1 < calls.size(); i += 2)
  {
    if (got[i].first > got[i + 1].first)
      std::swap(got[i], got[i + 1]);
    for (size_t k = i; k < i + 2; k++)
      MC_REQUIRE(got[k] == calls[k], "call %zu on source %d is %d, expected %d on source %d", k, got[k].first, got[k].second, calls[k].second, calls[k].first);
  }
  int works = x.world->worked();
  mc::sleep_ms(60);
  MC_REQUIRE(x.world->worked() >= works + 2, "the sources are not worked periodically");
  x.s.reset();
  judge(x.out->take(), want, x.world->expected);
}
// Numbers of events around the chunk size.
MC_SCENARIO(chunks, 0, 0, mc::SEQ, 600)
{
  static const int n[] = { 0, 1, 2, 499, 999, 1000, 1001, 1999, 2000, 2001, 3500 };
  int a = n[mc::choose(11, "events of source 1")], b = n[mc::choose(11, "events of source 2")];
  int sources = mc::choose(2, "sources") ? 2 : 3;
  Session x;
  x.open();
  x.add(a, true);
  x.add(b);
  if (sources == 3)
    x.add(1, true);
  size_t total = (size_t)(a + b + sources - 2);
  x.s->incoming(cmd("Tracing.start", 1));
  x.s->incoming(cmd("Tracing.end", 2));
  x.s->incoming(cmd("Tracing.start", 3));
  x.s->incoming(cmd("Tracing.end", 4));
  mc::sleep_ms(50);
  x.s.reset();
  judge(x.out->take(), { { 1, false }, { 2, true, total }, { 3, false }, { 4, true, total } }, x.world->expected);
}
// Many commands at once, long ones, identifiers of any kind.
MC_SCENARIO(flood, 0, 0, mc::SEQ, 600)
{
  static const int N[] = { 3, 15, 31, 32, 33, 63, 64, 65, 129, 300 };
  static const size_t L[] = { 0, 1000, 4000, 4096, 70000 };
  static const json ids[] = { 2147483647ll, 2147483648ll, -2147483649ll, 9223372036854775807ll, INT64_MIN, 18446744073709551615ull, 1.5, "", "5", std::string(3000, 'i'), "\xc3\xa9 \"quote\"\n", 7 };
  const int n = N[mc::choose(10, "commands")];
  const size_t pad = L[n > 3 ? 0 : mc::choose(5, "length")];
  const int first = n > 3 && n < 300 ? 0 : mc::choose(12, "identifier");
  Session x;
  x.open();
  x.add(2);
  std::vector<Expect> want;
  for (int i = 0; i < n; i++)
  {
    const json& id = ids[(first + i) % 12];
    const bool end = i % 3 == 2;
    json c = { { "method", end ? "Tracing.end" : i % 3 ? "Tracing.start" : "Tracing.getCategories" }, { "id", id } };
    if (pad)
      c["params"] = { { "traceConfig", std::string(pad, 'p') } };
    x.s->incoming(c.dump());
    want.push_back(end ? Expect{ id, true, 2 } : Expect{ id, false });
  }
  mc::sleep_ms(50);
  x.s.reset();
  judge(x.out->take(), want, x.world->expected);
}
// Texts that are not valid UTF-8 (names come from other processes) neither end the session nor make the chunk invalid.
class Bytes : public scalopus::TraceEventSource
{
public:
  std::vector<json> finishInterval() override
  {
    if (fail == 1)
      throw std::runtime_error("source failed");
    return { { { "ph", "B" }, { "name", text } }, { { "ph", "E" } } };
  }
  void work() override
  {
    if (fail == 2)
      throw std::runtime_error("source failed");
  }
  std::string text;
  int fail = 0;
};
MC_SCENARIO(texts, 0, 0, mc::SEQ, 600)
{
  static const char* t[] = { "\xff", "\xc3", "a\xc3(", "\xe2\x82", "\xed\xa0\x80", "\xf5\x80\x80\x80", "fine", "\xc3\xa9", "" };
  Session x;
  x.open();
  auto s = std::make_shared<Bytes>();
  s->text = t[mc::choose(9, "text")];
  scalopus::TraceEventSource::Ptr p = s;
  x.s->addSource(std::move(p));
  x.s->incoming(cmd("Tracing.start", 1));
  x.s->incoming(cmd("Tracing.end", 2));
  x.s->incoming(cmd("Tracing.getCategories", 3));
  mc::sleep_ms(50);
  auto out = x.out->take();
  MC_REQUIRE(out.size() >= 5, "only %zu messages", out.size());
  size_t events = 0;
  for (auto& o : out)
  {
    json j;
    try
    {
      j = json::parse(o);
    }
    catch (const json::exception&)
    {
      MC_REQUIRE(false, "message is not valid JSON");
    }
    if (j.value("method", "") == "Tracing.dataCollected")
    {
      for (auto& e : j["params"]["value"])
        events += e["ph"] == "B" || e["ph"] == "E";
    }
  }
  MC_REQUIRE(events == 2, "%zu events of 2 delivered", events);
  MC_REQUIRE(json::parse(out.back())["id"] == 3, "the next command is not answered");
}
// Commands from two threads while the session is being set up.
MC_SCENARIO(concurrent, 2, 3, 0, 30)
{
  Session x;
  x.open();
  x.add(1);
  x.add(1);
  std::thread t([&] { x.s->incoming(cmd("Tracing.start", 1)); });
  x.s->incoming(cmd("Tracing.getCategories", 2));
  t.join();
  x.s->incoming(cmd("Tracing.end", 3));
  for (int i = 0; i < 20 && !x.out->completed(); i++)
    mc::sleep_ms(10);
  mc::sleep_ms(20);
  x.s.reset();
  auto out = x.out->take();
  MC_REQUIRE(out.size() > 0, "no answer");
  bool first = json::parse(out[0]).value("id", 0) == 1;
  judge(out, { { first ? 1 : 2, false }, { first ? 2 : 1, false }, { 3, true, 2 } }, x.world->expected);
}
// Destruction at any moment.
MC_SCENARIO(destroy, 2, 3, 0, 30)
{
  Session x;
  x.open();
  x.add(1);
  int n = mc::choose(4, "commands");
  if (n > 0)
    x.s->incoming(cmd("Tracing.start", 1));
  if (n > 1)
    x.s->incoming(cmd("Tracing.end", 2));
  if (n > 2)
    x.s->incoming("{");
  if (mc::choose(2, "pause"))
    mc::sleep_ms(10);
  x.s.reset();
  {
    std::lock_guard<std::mutex> l(x.world->m);
    x.world->closed = true;
  }
  MC_REQUIRE(mc::live_threads() == 0, "a thread is left behind");
  MC_REQUIRE(x.sources[0].use_count() == 1, "the session keeps its source");
  size_t k = x.out->size();
  mc::sleep_ms(50);
  MC_REQUIRE(x.out->size() == k, "a destroyed session answers");
  // what was answered is a prefix of the full sequence
  auto out = x.out->take();
  for (size_t i = 0; i < out.size(); i++)
  {
    auto j = json::parse(out[i]);
    MC_REQUIRE(i < 2 ? j["id"] == (int)i + 1 : j.count("method"), "message %zu is %s", i, out[i].c_str());
  }
}
// Without a logger nothing is logged.
MC_SCENARIO(no_logger, 0, 1, 0, 30)
{
  auto o = std::make_shared<Out>();
  TraceSession s([o](std::string m) {
    std::lock_guard<std::mutex> l(o->m);
    o->all.push_back(m);
  });
  s.incoming(cmd("Tracing.start", 1));
  for (int i = 0; i < 20 && !o->size(); i++)
    mc::sleep_ms(10);
  judge(o->take(), { { 1, false } }, {});
}
