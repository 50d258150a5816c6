// P20: process and thread names become metadata events.
#include <scalopus_general/endpoint_process_info.h>
#include <scalopus_general/general_provider.h>
#include <scalopus_general/general_source.h>
#include <scalopus_general/internal/thread_name_tracker.h>
#include <scalopus_interface/endpoint_manager.h>
#include <nlohmann/json.hpp>
#include <algorithm>
#include <thread>
#include "direct.h"
#include "mc.h"
using namespace scalopus;
using json = nlohmann::json;
// one remote process
struct Proc;
class Link : public direct::Client
{
public:
  using direct::Client::Client;
  PendingResponse request(const std::string& ep, const Data& out) override;
  Proc* proc = nullptr;
  bool fixed = false;
};
struct Proc
{
  int pid;
  std::string name;
  std::map<unsigned long, std::string> threads;
  std::shared_ptr<direct::Server> server = std::make_shared<direct::Server>();
  std::shared_ptr<Link> link;
  EndpointManager::EndpointMap eps;
  EndpointProcessInfo::Ptr ep;
  Proc(int p) : pid(p)
  {
    mc::set_pid(pid);
    ep = std::make_shared<EndpointProcessInfo>();
    server->addEndpoint(ep);
    link = std::make_shared<Link>(server);
    link->proc = this;
    eps[EndpointProcessInfo::name] = EndpointProcessInfo::factory(link);
    mc::set_pid(1);
  }
  bool answers() const { return link->mode == direct::ANSWER && !eps.empty(); }
};
// The thread names are a singleton of the process; give it the names of the process that is asked.
Transport::PendingResponse Link::request(const std::string& ep, const Data& out)
{
  if (fixed)
    return direct::Client::request(ep, out);
  auto& t = ThreadNameTracker::getInstance();
  t.clear();
  for (auto& x : proc->threads)
    t.setThreadName(x.first, x.second);
  proc->ep->setProcessName(proc->name);
  return direct::Client::request(ep, out);
}
class Manager : public EndpointManager
{
public:
  TransportEndpoints endpoints() const override
  {
    TransportEndpoints r;
    for (auto& p : procs)
      r[p->link] = p->eps;
    return r;
  }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  std::vector<std::shared_ptr<Proc>> procs;
};
static void expect(const std::vector<json>& got, const Manager& m, const char* when)
{
  std::vector<std::string> w, g;
  for (auto& p : m.procs)
    if (p->answers())
    {
      w.push_back("process_name " + std::to_string(p->pid) + " " + p->name);
      for (auto& t : p->threads)
        w.push_back("thread_name " + std::to_string(p->pid) + " " + std::to_string(t.first) + " " + t.second);
    }
  for (auto& e : got)
  {
    MC_REQUIRE(e.is_object() && e.value("ph", "") == "M" && e.count("args") && e["args"].is_object() && e["args"].count("name") && e["args"]["name"].is_string() &&
                   e.count("pid") && e["pid"].is_number_integer() && e.count("name") && e["name"].is_string(),
               "not a metadata event: %s", e.dump().c_str());
    std::string n = e["name"], s = n + " " + std::to_string(e["pid"].get<long>()) + " ";
    if (n == "thread_name")
    {
      MC_REQUIRE(e.count("tid") && e["tid"].is_number_integer(), "no thread: %s", e.dump().c_str());
      s += std::to_string(e["tid"].get<unsigned long>()) + " ";
    }
    g.push_back(s + e["args"]["name"].get<std::string>());
  }
  std::sort(w.begin(), w.end());
  std::sort(g.begin(), g.end());
  std::string ws, gs;
  for (auto& x : w)
    ws += x + "; ";
  for (auto& x : g)
    gs += x + "; ";
  MC_REQUIRE(ws == gs, "%s: events '%s' instead of '%s'", when, gs.c_str(), ws.c_str());
}
static void shape(Proc& p, int k)
{
  static const char* NAMES[] = { "", "alpha", "b\xc3\xa9ta \"q\"\n" };
  p.name = NAMES[(p.pid + k) % 3];
  p.threads.clear();
  if (k >= 1)
    p.threads[5] = "main";
  if (k >= 2)
    p.threads[0x7ffff7d8a740ul] = "";
}
static std::vector<json> finish(TraceEventSource& s)
{
  try
  {
    return s.finishInterval();
  }
  catch (const std::exception& e)
  {
    mc::fail("property", "finishing the interval fails: %s", e.what());
  }
}
static void scripted(bool two)
{
  static const char* G[] = { "", "x", "\x05\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff" };
  static const size_t N[] = { 0, 1, 5, 6 };
  auto m = std::make_shared<Manager>();
  auto provider = std::make_shared<GeneralProvider>(m);
  auto src = provider->makeSource();
  int n = 1 + mc::choose(two && !mc::tier() ? 2 : 3, "processes");
  for (int i = 0; i < n; i++)
    m->procs.push_back(std::make_shared<Proc>(i == 0 ? 10 : 20 * i));
  for (int round = 0; round < (two ? 2 : 1); round++)
  {
    for (auto& p : m->procs)
    {
      int k = mc::choose(two ? 6 : 9, "behaviour");
      p->link->mode = direct::ANSWER;
      if (k < 3)
        shape(*p, k);
      else if (k == 3)
        p->link->mode = direct::SILENT;
      else if (k == 4)
        p->link->mode = direct::BROKEN;
      else
      {
        p->link->mode = direct::GARBAGE;
        int g = two ? 2 : k - 5;
        p->link->garbage.assign(G[g], G[g] + N[g]);
      }
    }
    src->startInterval();
    src->stopInterval();
    expect(finish(*src), *m, round ? "second interval" : "first interval");
    if (two && round == 0)
    {
      int c = mc::choose(4, "change");
      if (c == 1)
        m->procs.erase(m->procs.begin());
      if (c == 2)
        m->procs.push_back(std::make_shared<Proc>(99));
      if (c == 3)
        m->procs[0]->eps.clear();
    }
  }
}
MC_SCENARIO(one_round, 0, 0, mc::SEQ, 60) { scripted(false); }
MC_SCENARIO(two_rounds, 0, 0, mc::SEQ, 60) { scripted(true); }
// many processes with many threads
MC_SCENARIO(crowd, 0, 0, mc::SEQ, 60)
{
  static const int P[] = { 1, 7, 8, 9, 16, 17, 32, 33, 65 }, T[] = { 0, 1, 31, 32, 33, 64, 65, 128, 129, 300 };
  auto m = std::make_shared<Manager>();
  auto provider = std::make_shared<GeneralProvider>(m);
  auto src = provider->makeSource();
  const int n = P[mc::choose(9, "processes")], t = T[mc::choose(10, "threads")];
  for (int i = 0; i < n; i++)
  {
    m->procs.push_back(std::make_shared<Proc>(i * 1000 + 10));
    auto& p = *m->procs.back();
    p.name = "process " + std::to_string(i);
    for (int k = 1; k <= (i == 0 || i == n - 1 ? t : i % 3); k++)
      p.threads[(unsigned long)k << (i % 2 ? 33 : 4)] = "thread " + std::to_string(k);
    if (i % 5 == 3)
      p.link->mode = direct::SILENT;
  }
  src->startInterval();
  src->stopInterval();
  expect(finish(*src), *m, "a crowd");
}
MC_SCENARIO(two_sources, 3, 4, mc::DELAY, 10)
{
  auto m = std::make_shared<Manager>();
  auto provider = std::make_shared<GeneralProvider>(m);
  m->procs.push_back(std::make_shared<Proc>(10));
  m->procs.push_back(std::make_shared<Proc>(20));
  for (auto& p : m->procs)
  {
    p->link->fixed = true;
    p->ep->setProcessName(p->name = p->pid == 10 ? "alpha" : "beta");
    p->threads[3] = "t";
  }
  ThreadNameTracker::getInstance().setThreadName(3, "t");
  auto a = provider->makeSource(), b = provider->makeSource();
  std::thread t([&] { expect(finish(*a), *m, "first source"); });
  expect(finish(*b), *m, "second source");
  t.join();
}
