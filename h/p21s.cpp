// P21 at the level of connections: every websocket has a session of its own.
#include <scalopus_catapult/catapult_server.h>
#include <seasocks/Server.h>
#include <thread>
#include "cat.h"
using cat::json;
using scalopus::CatapultServer;
void seasocks::Server::bad_send(int id, bool open)
{
  mc::fail("property", open ? "websocket %d used outside the server thread" : "websocket %d used after it was closed", id);
}
static std::string cmd(const char* method, const json& id) { return json{ { "method", method }, { "id", id } }.dump(); }
struct World
{
  std::shared_ptr<cat::World> world = std::make_shared<cat::World>();
  std::unique_ptr<CatapultServer> server = std::make_unique<CatapultServer>();
  std::mutex m;
  std::map<int, std::vector<std::string>> sent;
  World()
  {
    server->addProvider(std::make_shared<cat::Provider>(world, 1));
    seasocks::Server::on_send() = [this](int id, const std::string& s) {
      std::lock_guard<std::mutex> l(m);
      sent[id].push_back(s);
    };
  }
  ~World() { seasocks::Server::on_send() = nullptr; }
  void in_server(std::function<void(seasocks::Server&)> f)
  {
    auto* s = seasocks::Server::current();
    s->execute([s, f] { f(*s); });
  }
  void connect(int id)
  {
    in_server([id](seasocks::Server& s) { s.client_connect(id); });
  }
  void text(int id, const std::string& t)
  {
    in_server([id, t](seasocks::Server& s) { s.client_text(id, t); });
  }
  void close(int id)
  {
    in_server([id](seasocks::Server& s) { s.client_close(id); });
  }
  std::vector<std::string> of(int id)
  {
    std::lock_guard<std::mutex> l(m);
    return sent[id];
  }
};
// answers (id), data (events), completions of one connection
static void judge(const std::vector<std::string>& out, const std::vector<int>& ids, const std::vector<size_t>& ends, size_t limit)
{
  size_t a = 0, done = 0, events = 0;
  for (auto& s : out)
  {
    json j;
    try
    {
      j = json::parse(s);
    }
    catch (const json::exception&)
    {
      MC_REQUIRE(false, "message is not JSON: %s", s.c_str());
    }
    if (j.count("id"))
    {
      MC_REQUIRE(a < ids.size() && j["id"] == ids[a], "answer %s, expected id %d", s.c_str(), a < ids.size() ? ids[a] : -1);
      a++;
    }
    else if (j["method"] == "Tracing.tracingComplete")
      done++;
    else
      events += j["params"]["value"].size();
  }
  if (limit)
    MC_REQUIRE(a == ids.size() && done == ends.size() && events == ends.size(), "%zu of %zu commands answered, %zu of %zu completed with %zu events", a, ids.size(), done, ends.size(), events);
}
// Scripts of connects, commands and disconnects of two clients.
MC_SCENARIO(clients, 0, 0, mc::SEQ, 60)
{
  World w;
  seasocks::Server::reuse() = true;
  w.server->start(9222);
  struct
  {
    bool open = false;
    int generation = 0;
    std::vector<int> ids;
    std::vector<size_t> ends;
  } c[2];
  int steps = mc::tier() ? 6 : 5, next = 1;
  auto number = [&](int i) { return i * 100 + c[i].generation; };
  for (int k = 0; k < steps; k++)
  {
    int op = mc::choose(8, "op"), i = op / 4;
    switch (op % 4)
    {
      case 0:
        // connects or disconnects
        if (c[i].open)
        {
          w.close(number(i));
          mc::sleep_ms(30);
          judge(w.of(number(i)), c[i].ids, c[i].ends, 1);
          c[i].open = false;
        }
        else
        {
          c[i].generation++;
          c[i].ids.clear();
          c[i].ends.clear();
          w.connect(number(i));
          c[i].open = true;
        }
        break;
      case 1:
        w.text(number(i), cmd("Tracing.start", next));
        if (c[i].open)
          c[i].ids.push_back(next);
        next++;
        break;
      case 2:
        w.text(number(i), cmd("Tracing.end", next));
        if (c[i].open)
        {
          c[i].ids.push_back(next);
          c[i].ends.push_back(1);
        }
        next++;
        break;
      default:
      {
        int n = number(i);
        w.text(n, "{\"method\"");
        w.in_server([n](seasocks::Server& s) { s.client_binary(n, "binary"); });
      }
    }
    mc::sleep_ms(30);
    MC_REQUIRE(w.world->sources() == c[0].open + c[1].open, "%d sources exist, %d clients are connected", w.world->sources(), c[0].open + c[1].open);
  }
  mc::sleep_ms(30);
  for (int i = 0; i < 2; i++)
    if (c[i].open)
      judge(w.of(number(i)), c[i].ids, c[i].ends, 1);
  w.server.reset();
  MC_REQUIRE(mc::live_threads() == 0, "threads are left behind");
  MC_REQUIRE(w.world->sources() == 0, "sources are left behind");
}
// A client disconnects, or the server goes away, while a session is answering.
MC_SCENARIO(disconnect, 2, 3, 0, 30)
{
  World w;
  w.server->start(9222);
  int how = mc::choose(4, "how");
  seasocks::Server::reuse() = how == 3;
  w.connect(1);
  w.text(1, cmd("Tracing.start", 1));
  if (mc::choose(2, "pause"))
    mc::sleep_ms(15);
  w.text(1, cmd("Tracing.end", 2));
  if (how == 0)
    w.close(1);
  if (how == 1 || how == 3)
  {
    w.close(1);
    for (int i = 0; i < 20 && (i < 3 || w.world->sources()); i++)
      mc::sleep_ms(10);
    MC_REQUIRE(w.world->sources() == 0, "the session of a closed connection lives on");
    w.connect(2);  // with 3, at the address of the one that is gone
    w.text(2, cmd("Tracing.start", 3));
    for (int i = 0; i < 20 && w.of(2).empty(); i++)
      mc::sleep_ms(10);
    judge(w.of(2), { 3 }, {}, 1);
  }
  w.server.reset();
  judge(w.of(1), { 1, 2 }, { 1 }, 0);
  MC_REQUIRE(mc::live_threads() == 0, "threads are left behind");
  MC_REQUIRE(w.world->sources() == 0, "sources are left behind");
}
// Never started, and the pages.
MC_SCENARIO(unstarted, 0, 0, mc::SEQ, 30)
{
  World w;
  if (mc::choose(2, "start"))
    w.server->start(1);
  w.server.reset();
  MC_REQUIRE(mc::live_threads() == 0, "threads are left behind");
}
