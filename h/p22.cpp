// P22: the recorder can be driven through any life cycle and loses no events.
#include <scalopus_catapult/catapult_recorder.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <set>
#include <thread>
#include "cat.h"
using cat::json;
using scalopus::CatapultRecorder;
// Sources that really record: between start and stop of the interval every arriving event.
struct Bus;
class Rec : public scalopus::TraceEventSource
{
public:
  Rec(std::shared_ptr<Bus> b, int id);
  ~Rec() override;
  void startInterval() override;
  void stopInterval() override;
  std::vector<json> finishInterval() override;
  void work() override;
  std::shared_ptr<Bus> bus;
  int id;
  bool on = false;
  std::vector<json> kept;
  std::atomic<bool> busy{ false };
};
struct Bus
{
  std::mutex m;
  std::vector<Rec*> all;
  int made = 0, works = 0;
  bool may_work = false;
  std::string text = "x";
  void arrive(int n)
  {
    std::lock_guard<std::mutex> l(m);
    for (auto* r : all)
      if (r->on)
        r->kept.push_back({ { "ph", "i" }, { "src", r->id }, { "n", n }, { "name", text } });
  }
  int live()
  {
    std::lock_guard<std::mutex> l(m);
    return (int)all.size();
  }
  int worked()
  {
    std::lock_guard<std::mutex> l(m);
    return works;
  }
  void allow(bool v)
  {
    std::lock_guard<std::mutex> l(m);
    may_work = v;
  }
};
struct Use
{
  explicit Use(Rec& r) : rec(r) { MC_REQUIRE(!rec.busy.exchange(true), "a source is driven by two threads at once"); }
  ~Use() { rec.busy = false; }
  Rec& rec;
};
Rec::Rec(std::shared_ptr<Bus> b, int i) : bus(b), id(i)
{
  std::lock_guard<std::mutex> l(bus->m);
  bus->all.push_back(this);
}
Rec::~Rec()
{
  std::lock_guard<std::mutex> l(bus->m);
  bus->all.erase(std::find(bus->all.begin(), bus->all.end(), this));
}
void Rec::startInterval()
{
  Use u(*this);
  std::lock_guard<std::mutex> l(bus->m);
  on = true;
  kept.clear();
}
void Rec::stopInterval()
{
  Use u(*this);
  std::lock_guard<std::mutex> l(bus->m);
  on = false;
}
std::vector<json> Rec::finishInterval()
{
  Use u(*this);
  std::lock_guard<std::mutex> l(bus->m);
  auto r = kept;
  kept.clear();
  on = false;
  return r;
}
void Rec::work()
{
  Use u(*this);
  std::lock_guard<std::mutex> l(bus->m);
  MC_REQUIRE(bus->may_work, "a source is worked outside start and stop");
  bus->works++;
}
class Prov : public scalopus::TraceEventProvider
{
public:
  Prov(std::shared_ptr<Bus> b, int i) : bus(b), id(i) {}
  scalopus::TraceEventSource::Ptr makeSource() override
  {
    {
      std::lock_guard<std::mutex> l(bus->m);
      bus->made++;
    }
    return std::make_shared<Rec>(bus, id);
  }
  std::shared_ptr<Bus> bus;
  int id;
};
// A file without a name in any directory.
struct Memfile
{
  int fd;
  std::string path;
  Memfile() : fd((int)syscall(SYS_memfd_create, "dump", 0)), path("/proc/self/fd/" + std::to_string(fd)) {}
  ~Memfile() { syscall(SYS_close, fd); }
  std::string text()
  {
    std::string r;
    char b[4096];
    long n;
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0)
      r.append(b, (size_t)n);
    return r;
  }
};
// (source, n) of every event
typedef std::multiset<std::pair<int, int>> Events;
static Events parse(const std::string& s, const char* what)
{
  Events r;
  try
  {
    json j = json::parse(s);
    MC_REQUIRE(j.is_array(), "%s is no list", what);
    for (auto& e : j)
      r.insert({ e.at("src").get<int>(), e.at("n").get<int>() });
  }
  catch (const json::exception& e)
  {
    MC_REQUIRE(false, "%s is not valid: %s: %s", what, e.what(), s.substr(0, 200).c_str());
  }
  return r;
}
static std::string show(const Events& e)
{
  std::string s;
  for (auto& x : e)
    s += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
  return s;
}
static void same(const Events& got, const Events& want, const char* what)
{
  MC_REQUIRE(got == want, "%s holds the events %s, the interval had %s", what, show(got).c_str(), show(want).c_str());
}
// All histories of the recorder's operations, against a model.
MC_SCENARIO(histories, 0, 0, mc::SEQ, 60)
{
  auto bus = std::make_shared<Bus>();
  auto rec = std::make_unique<CatapultRecorder>();
  int providers = mc::choose(3, "providers"), sources = 0, n = 0;
  Memfile dump, out;
  bool has_dump = mc::choose(2, "dump file");
  if (has_dump)
    rec->setupDumpFile(dump.path);
  for (int i = 0; i < providers; i++)
    rec->addProvider(std::make_shared<Prov>(bus, i));
  bool running = false, interval = false;
  Events kept;
  int steps = mc::tier() ? 7 : 5;
  for (int k = 0; k < steps; k++)
  {
    switch (mc::choose(7, "op"))
    {
      case 0:
        bus->allow(true);
        rec->start();
        if (!running)
        {
          sources = providers;
          interval = false;
          kept.clear();
        }
        running = true;
        break;
      case 1:
        rec->stop();
        bus->allow(false);
        running = false;
        break;
      case 2:
        // not specified for a stopped recorder that still has sources
        if (!running && sources)
          continue;
        rec->startInterval();
        interval = sources > 0;
        kept.clear();
        break;
      case 3:
        rec->stopInterval();
        interval = false;
        break;
      case 4:
        n++;
        bus->arrive(n);
        if (interval)
          for (int i = 0; i < sources; i++)
            kept.insert({ i, n });
        break;
      case 5:
        same(parse(rec->collectEvents(), "the collection"), kept, "the collection");
        kept.clear();
        interval = false;
        break;
      default:
        rec->writeToFile(out.path);
        same(parse(out.text(), "the file"), kept, "the file");
        kept.clear();
        interval = false;
        break;
    }
    int w = bus->worked();
    mc::sleep_ms(25);
    if (running && providers)
      MC_REQUIRE(bus->worked() > w, "the sources are not worked");
  }
  rec.reset();
  bus->allow(false);
  if (has_dump)
    same(parse(dump.text(), "the dump file"), kept, "the dump file");
  else
    MC_REQUIRE(dump.text().empty(), "a dump file that was not asked for");
  MC_REQUIRE(bus->live() == 0, "sources are left behind");
  MC_REQUIRE(mc::live_threads() == 0, "threads are left behind");
  mc::sleep_ms(30);
}
// Dump files: configured late, shorter than an older file, texts of any kind.
MC_SCENARIO(dumps, 0, 0, mc::SEQ, 60)
{
  static const char* t[] = { "fine", "quote \" back\\slash \n\t\x01", "\xc3\xa9", "\xff", "a\xc3(", "\xe2\x82", "" };
  auto bus = std::make_shared<Bus>();
  bus->text = t[mc::choose(7, "text")];
  auto rec = std::make_unique<CatapultRecorder>();
  int late = mc::choose(2, "late");
  int stopped = mc::choose(4, "stopped");
  static const int kCounts[] = { 0, 1, 2, 300, 6000 };
  int count = kCounts[mc::choose(bus->text == "fine" && !late && stopped == 0 ? 5 : 3, "events")];
  Memfile dump;
  std::string old(5000, 'z');
  MC_REQUIRE(syscall(SYS_write, dump.fd, old.data(), old.size()) == (long)old.size(), "cannot write");
  rec->addProvider(std::make_shared<Prov>(bus, 0));
  rec->addProvider(std::make_shared<Prov>(bus, 1));
  if (!late)
    rec->setupDumpFile(dump.path);
  bus->allow(true);
  rec->start();
  rec->startInterval();
  Events want;
  for (int i = 0; i < count; i++)
  {
    bus->arrive(i);
    want.insert({ 0, i });
    want.insert({ 1, i });
  }
  if (stopped & 1)
  {
    rec->stopInterval();
    bus->arrive(100);
  }
  if (stopped & 2)
    rec->stop();
  if (late)
    rec->setupDumpFile(dump.path);
  rec.reset();
  same(parse(dump.text(), "the dump file"), want, "the dump file");
}
// The worker and two users of the recorder.
MC_SCENARIO(concurrent, 2, 3, 0, 30)
{
  auto bus = std::make_shared<Bus>();
  auto rec = std::make_unique<CatapultRecorder>();
  rec->addProvider(std::make_shared<Prov>(bus, 0));
  bus->allow(true);
  rec->start();
  rec->startInterval();
  bus->arrive(1);
  Events got;
  std::thread t([&] { got = parse(rec->collectEvents(), "the collection"); });
  int how = mc::choose(2, "how");
  if (how)
    rec->stopInterval();
  else
  {
    Events mine = parse(rec->collectEvents(), "the collection");
    got.size();
    t.join();
    mine.insert(got.begin(), got.end());
    same(mine, { { 0, 1 } }, "both collections");
    return;
  }
  t.join();
  same(got, { { 0, 1 } }, "the collection");
}
MC_SCENARIO(destroy, 2, 3, 0, 30)
{
  auto bus = std::make_shared<Bus>();
  auto rec = std::make_unique<CatapultRecorder>();
  Memfile dump;
  rec->setupDumpFile(dump.path);
  rec->addProvider(std::make_shared<Prov>(bus, 0));
  int n = mc::choose(4, "operations");
  bus->allow(true);
  rec->start();
  if (n > 0)
    rec->startInterval();
  if (n > 1)
    bus->arrive(1);
  if (n > 2)
    rec->stop();
  if (mc::choose(2, "pause"))
    mc::sleep_ms(10);
  rec.reset();
  bus->allow(false);
  MC_REQUIRE(mc::live_threads() == 0 && bus->live() == 0, "threads or sources are left behind");
  Events want;
  if (n > 1)
    want.insert({ 0, 1 });
  same(parse(dump.text(), "the dump file"), want, "the dump file");
}
// Restarting.
MC_SCENARIO(restart, 2, 3, 0, 30)
{
  auto bus = std::make_shared<Bus>();
  auto rec = std::make_unique<CatapultRecorder>();
  rec->addProvider(std::make_shared<Prov>(bus, 0));
  bus->allow(true);
  rec->start();
  rec->stop();
  rec->start();
  rec->start();
  rec->startInterval();
  bus->arrive(1);
  same(parse(rec->collectEvents(), "the collection"), { { 0, 1 } }, "the collection");
  MC_REQUIRE(bus->live() == 1 && bus->made == 2, "%d sources, %d made", bus->live(), bus->made);
}
