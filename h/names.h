// Processes with trace names, seen through the real trace mapping endpoint.
#pragma once
#include <scalopus_interface/endpoint_manager.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <map>
#include <memory>
#include <string>
#include "direct.h"
#include "mc.h"
namespace names
{
using Table = std::map<int, std::map<unsigned, std::string>>;
// answers as the given process would
class Process : public scalopus::Endpoint
{
public:
  Process(int pid, std::map<unsigned, std::string> n) : pid_(pid), names_(std::move(n)) {}
  std::string getName() const override { return scalopus::EndpointTraceMapping::name; }
  bool handle(scalopus::Transport& t, const scalopus::Data& req, scalopus::Data& resp) override
  {
    auto& tr = scalopus::StaticStringTracker::getInstance();
    auto before = tr.getMap();
    tr.clear();
    for (auto& x : names_)
      tr.insert(x.first, x.second);
    int me = ::getpid();
    mc::set_pid(pid_);
    bool r = scalopus::EndpointTraceMapping().handle(t, req, resp);
    mc::set_pid(me);
    tr.clear();
    for (auto& x : before)
      tr.insert(x.first, x.second);
    return r;
  }

private:
  int pid_;
  std::map<unsigned, std::string> names_;
};
class Manager : public scalopus::EndpointManager
{
public:
  explicit Manager(const Table& t)
  {
    for (auto& p : t)
    {
      auto s = std::make_shared<direct::Server>();
      s->addEndpoint(std::make_shared<Process>(p.first, p.second));
      auto c = std::make_shared<direct::Client>(s);
      map_[c] = { { scalopus::EndpointTraceMapping::name, scalopus::EndpointTraceMapping::factory(c) } };
    }
  }
  TransportEndpoints endpoints() const override { return map_; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}

private:
  TransportEndpoints map_;
};
}  // namespace names
