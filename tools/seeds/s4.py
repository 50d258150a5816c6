import os, runpy
H = os.path.dirname(os.path.abspath(__file__))
COMMON = runpy.run_path(H + '/s1.py')['COMMON']
LOOP = COMMON.replace('transport_unix.h', 'transport_loopback.h')
TU = 'scalopus_transport/src/transport_unix.cpp'
TR = 'scalopus_tracing/'
NATIVE = ['scalopus_tracing/src/native/' + f for f in ('native_trace_source.cpp', 'native_trace_provider.cpp', 'endpoint_native_trace_receiver.cpp', 'endpoint_native_trace_sender.cpp', 'tracepoint_collector_native.cpp', 'native_tracepoint.cpp', 'scope_tracepoint_native.cpp')]
SEEDS = [
dict(id='mapping_keeps_last', prop='P28', libs=['interface', 'transport', 'general', 'tracing'], needs='a server that answers at first and does not answer a later query over the same endpoint',
 breaks='the result without an answer is that of the earlier one instead of empty',
 edits=[(TR + 'src/endpoint_trace_mapping.cpp', '    return res;\n', '    last_mapping_ = res;\n    return res;\n'),
        (TR + 'src/endpoint_trace_mapping.cpp', '  return {};\n', '  return last_mapping_;  // busy, names do not change so what we had is fine.\n'),
        (TR + 'include/scalopus_tracing/endpoint_trace_mapping.h', '  std::string getName() const;\n', '  std::string getName() const;\n\nprivate:\n  ProcessTraceMap last_mapping_;\n\npublic:\n')],
 demo=LOOP + r'''
#include <scalopus_general/internal/bson_request.h>
#include "scalopus_tracing/endpoint_trace_mapping.h"
int main() {
  TransportLoopbackFactory f; auto s = f.serve();
  auto e = std::make_shared<Ep>(EndpointTraceMapping::name);
  std::atomic<bool> answers{ true };
  e->h = [&](const Data&, Data& o) { nlohmann::json j; j["mapping"] = std::map<int, std::map<unsigned, std::string>>{ { 5, { { 1, "a" } } } }; o = nlohmann::json::to_bson(j); if (!answers) std::this_thread::sleep_for(std::chrono::milliseconds(600)); return true; };
  s->addEndpoint(e);
  auto c = f.connect(s->getAddress());
  auto m = EndpointTraceMapping::factory(c);
  CHECK(m->mapping().size() == 1);
  answers = false;
  CHECK(m->mapping().empty());
}'''),
dict(id='unknown_locale', prop='P30', libs=['interface', 'transport', 'general', 'tracing'], needs='a program whose locale groups digits',
 breaks='the names of unknown scopes hold separators',
 edits=[(TR + 'src/scope_tracing_provider.cpp', '  z << "Unknown 0x" << std::hex << trace_id;\n', '  std::ostringstream id;\n  id << std::hex << trace_id;\n  z << "Unknown 0x" << id.str();\n')],
 demo=LOOP + r'''
#include <locale>
#include "scalopus_tracing/scope_tracing_provider.h"
struct G : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct P : ScopeTracingProvider { using ScopeTracingProvider::ScopeTracingProvider; TraceEventSource::Ptr makeSource() override { return nullptr; } };
int main() {
  std::locale::global(std::locale(std::locale::classic(), new G));
  std::string n = P::getScopeName({}, 1, 0x12345678);
  printf("%s\n", n.c_str());
  CHECK(n == "Unknown 0x12345678");
}'''),
dict(id='native_names_once', prop='P31', libs=['interface', 'transport', 'general', 'scalopus_tracing/src/*.cpp'] + NATIVE, stubs=['cbor'], needs='a tracepoint that is reached for the first time after the first recording',
 breaks='its name is not in the later recordings',
 edits=[(TR + 'src/native/native_trace_source.cpp', '  provider->updateMapping();\n  const auto mapping = provider->getMapping();\n', '  auto mapping = provider->getMapping();\n  if (mapping.empty())\n  {\n    provider->updateMapping();\n    mapping = provider->getMapping();\n  }\n')],
 demo=LOOP + r'''
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/endpoint_trace_mapping.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/native_trace_provider.h>
#include <scalopus_tracing/native_trace_source.h>
#include <scalopus_tracing/native_tracepoint.h>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_introspect.h>
#include <nlohmann/json.hpp>
int main() {
  auto f = std::make_shared<TransportLoopbackFactory>(); auto s = f->serve();
  s->addEndpoint(std::make_shared<EndpointIntrospect>()); s->addEndpoint(std::make_shared<EndpointTraceMapping>()); s->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  auto m = std::make_shared<EndpointManagerPoll>(f);
  m->addEndpointFactory<EndpointTraceMapping>();
  auto p = std::make_shared<NativeTraceProvider>(m);
  m->addEndpointFactory(EndpointNativeTraceSender::name, p);
  m->manage();
  auto src = p->makeSource();
  for (unsigned i = 1; i < 4; i++) {
    src->startInterval();
    StaticStringTracker::getInstance().insert(i, "name " + std::to_string(i));
    native::scope_entry(i); native::scope_exit(i);
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    src->stopInterval();
    auto r = src->finishInterval();
    CHECK(r.size() == 2);
    printf("%s\n", r[0].dump().c_str());
    CHECK(r[0]["name"] == "name " + std::to_string(i));
  }
}'''),
dict(id='sender_cap', prop='P10', libs=['interface', 'transport', 'general', 'scalopus_tracing/src/*.cpp'] + NATIVE, stubs=['cbor'], needs='a thread that ends with more than 4096 events that were not collected yet',
 breaks='all but 4096 of them are lost',
 edits=[(TR + 'src/native/endpoint_native_trace_sender.cpp', '      const auto available = buffer->size();\n', '      // Limit the size of the messages, the remainder stays in the buffer for the next time.\n      const auto available = std::min<std::size_t>(buffer->size(), 4096);\n'),
        (TR + 'src/native/endpoint_native_trace_sender.cpp', '#include <cstring>\n', '#include <algorithm>\n#include <cstring>\n')],
 demo=LOOP + r'''
#include <mutex>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/native_tracepoint.h>
#include <cbor/stl.h>
#include "tracepoint_collector_native.h"
int main() {
  const int N = 3000;
  std::thread([&] { for (int i = 0; i < N; i++) { native::scope_entry(1); native::scope_exit(1); } }).join();
  TransportLoopbackFactory f; auto s = f.serve(); CHECK(s);
  auto c = f.connect(f.discover().front()); CHECK(c);
  std::mutex m; int n = 0;
  auto b = std::make_shared<Ep>("native_trace_receiver");
  b->u = [&](const Data& d, Data&) {
    std::map<std::string, cbor::cbor_object> parsed; cbor::from_cbor(parsed, d);
    tracepoint_collector_types::ThreadedEvents ev; parsed.at("events").get_to(ev);
    std::lock_guard<std::mutex> l(m); for (auto& t : ev) n += t.second.size(); return false; };
  c->addEndpoint(b);
  s->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  std::this_thread::sleep_for(std::chrono::milliseconds(1000));
  std::lock_guard<std::mutex> l(m);
  printf("%d events\n", n);
  CHECK(n == 2 * N);
}'''),
dict(id='unix_clients_above', prop='P29', needs='a client whose connection gets a lower descriptor than the one of the server, as one was closed after it started to serve',
 breaks='that client is never answered',
 edits=[(TU, '    for (const auto& connection : copy_of_connections)\n    {\n      if ((connection == server_fd_) || (connection == client_fd_))\n      {\n        continue;\n      }\n', '    for (auto it = copy_of_connections.upper_bound(server_fd_); it != copy_of_connections.end(); it++)  // skips ourselves\n    {\n      const auto connection = *it;\n      if (connection == client_fd_)\n      {\n        continue;\n      }\n')],
 demo=COMMON + r'''
#include <fcntl.h>
int main() {
  TransportUnixFactory f;
  int low[4]; for (auto& x : low) x = open("/dev/null", O_RDONLY);
  auto s = f.serve(); CHECK(s);
  auto e = std::make_shared<Ep>("echo"); e->h = [](const Data& r, Data& o) { o = r; return true; }; s->addEndpoint(e);
  for (auto& x : low) close(x);
  auto c = f.connect(s->getAddress()); CHECK(c);
  auto r = c->request("echo", Data(3, 'x')); CHECK(ready(r)); CHECK(r->get() == Data(3, 'x'));
}'''),
dict(id='broadcast_same', prop='P08', libs=['interface', 'transport'], needs='the same broadcast issued twice while the first is still queued',
 breaks='it is delivered once',
 edits=[('scalopus_interface/src/transport.cpp', '  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);', '  std::pair<std::string, Data> message{ remote_endpoint_name, outgoing };\n  if (broadcast_messages_.empty() || broadcast_messages_.back() != message)  // still on its way\n  {\n    broadcast_messages_.push_back(std::move(message));\n  }')],
 demo=LOOP + r"""
int main() {
  TransportLoopbackFactory f; auto s = f.serve();
  auto e = std::make_shared<Ep>("go");
  e->h = [&](const Data&, Data&) { for (int i = 0; i < 5; i++) s->broadcast("b", Data(1, 'x')); return true; };
  s->addEndpoint(e);
  auto c = f.connect(s->getAddress());
  std::atomic<int> n{ 0 };
  auto b = std::make_shared<Ep>("b"); b->u = [&](const Data&, Data&) { n++; return false; };
  c->addEndpoint(b);
  auto r = c->request("go", Data{}); CHECK(ready(r));
  for (int i = 0; i < 20 && n < 5; i++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  CHECK(n == 5);
}"""),
dict(id='broadcast_cap', prop='P04', libs=['interface', 'transport'], needs='more than 64 broadcasts queued before the worker sends them, for example by a handler',
 breaks='the oldest of them are dropped',
 edits=[('scalopus_interface/src/transport.cpp', '  broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);', '  if (broadcast_messages_.size() >= 64)\n  {\n    broadcast_messages_.erase(broadcast_messages_.begin());  // nobody reads them.\n  }\n  broadcast_messages_.push_back({ remote_endpoint_name, outgoing });')],
 demo=COMMON + r"""
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  auto e = std::make_shared<Ep>("go");
  e->h = [&](const Data&, Data&) { for (int i = 0; i < 200; i++) s->broadcast("b", Data(1, 'x')); return true; };
  s->addEndpoint(e);
  auto c = f.connect(s->getAddress()); CHECK(c);
  std::atomic<int> n{ 0 };
  auto b = std::make_shared<Ep>("b"); b->u = [&](const Data&, Data&) { n++; return false; };
  c->addEndpoint(b);
  auto r = c->request("go", Data{}); CHECK(ready(r));
  for (int i = 0; i < 60 && n < 200; i++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  CHECK(n == 200);
}"""),
dict(id='unix_name_nul', prop='P02', libs=['interface', 'transport'], needs='an endpoint name that holds a zero byte',
 breaks='the name is cut there and the endpoint is not found',
 edits=[('scalopus_transport/src/protocol.cpp', '    std::memcpy(&incoming.endpoint[0], tmp.data(), length_endpoint_name);', '    incoming.endpoint.assign(tmp.begin(), std::find(tmp.begin(), tmp.end(), 0));'), ('scalopus_transport/src/protocol.cpp', '#include <cstring>\n', '#include <algorithm>\n#include <cstring>\n')],
 demo=COMMON + r"""
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  const std::string name("a\0b", 3);
  auto e = std::make_shared<Ep>(name); e->h = [](const Data& r, Data& o) { o = r; return true; }; s->addEndpoint(e);
  auto c = f.connect(s->getAddress()); CHECK(c);
  auto r = c->request(name, Data(3, 'x')); CHECK(ready(r, 2000)); CHECK(r->get() == Data(3, 'x'));
}"""),
]
