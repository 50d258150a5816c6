// A transport that hands requests straight to the endpoints of a server-side transport object, with scriptable failures.
#pragma once
#include <scalopus_interface/endpoint.h>
#include <scalopus_interface/transport.h>
#include <atomic>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace direct
{
using scalopus::Data;
using scalopus::Transport;
// the server side: only holds endpoints, and keeps what was broadcast
class Server : public Transport
{
public:
  PendingResponse request(const std::string&, const Data&) override { throw std::runtime_error("request on server"); }
  std::size_t pendingRequests() const override { return 0; }
  bool isConnected() const override { return true; }
  std::vector<std::pair<std::string, Data>> drain()
  {
    std::vector<std::pair<std::string, Data>> r;
    while (haveBroadcast())
      r.push_back(popBroadcast());
    return r;
  }
};
enum Mode { ANSWER, SILENT, BROKEN, GARBAGE, THROWS };
class Client : public Transport
{
public:
  explicit Client(std::shared_ptr<Transport> s = nullptr) : server(s) {}
  PendingResponse request(const std::string& ep, const Data& out) override
  {
    requests++;
    std::promise<Data> p;
    auto f = std::make_shared<std::future<Data>>(p.get_future());
    if (mode == THROWS)
      throw scalopus::communication_error("scripted failure");
    if (mode == BROKEN)
      p.set_exception(std::make_exception_ptr(scalopus::communication_error("scripted failure")));
    else if (mode == GARBAGE)
      p.set_value(garbage);
    else
    {
      auto e = mode == ANSWER && server ? server->getEndpoint(ep) : nullptr;
      Data resp;
      if (e && e->handle(*server, out, resp))
        p.set_value(resp);
      else
      {
        std::lock_guard<std::mutex> l(m);
        kept.push_back(std::move(p));  // never answered
      }
    }
    return f;
  }
  std::size_t pendingRequests() const override { return kept.size(); }
  bool isConnected() const override { return connected; }
  // delivers a broadcast of the server
  void deliver(const std::string& ep, const Data& d)
  {
    auto e = getEndpoint(ep);
    Data out;
    if (e)
      e->unsolicited(*this, d, out);
  }
  std::shared_ptr<Transport> server;
  Mode mode = ANSWER;
  Data garbage;
  bool connected = true;
  std::atomic<int> requests{ 0 };
  std::mutex m;
  std::vector<std::promise<Data>> kept;
};
}  // namespace direct
