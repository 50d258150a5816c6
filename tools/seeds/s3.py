import os, runpy
H = os.path.dirname(os.path.abspath(__file__))
COMMON = runpy.run_path(H + '/s1.py')['COMMON']
TU = 'scalopus_transport/src/transport_unix.cpp'
SEEDS = [
dict(id='unix_discover_shared_file', prop='P07', needs='two threads that discover servers at the same time',
 breaks='their reads of the table take lines from one another: servers are missing or garbled',
 edits=[(TU, '  std::ifstream infile("/proc/net/unix");\n', '  static std::ifstream infile("/proc/net/unix");  // keep it open, this is called at every round of discovery.\n  infile.clear();\n  infile.seekg(0);\n')],
 timeout=120,
 demo=COMMON + r'''
#include <atomic>
#include <unistd.h>
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  std::atomic<int> bad{ 0 };
  auto look = [&]() {
    for (int i = 0; i < 3000 && !bad; i++) {
      int n = 0;
      for (auto& d : f.discover()) n += std::string(*d) == "<unix:" + std::to_string(getpid()) + ">";
      if (n != 1) bad = 1;
    }
  };
  std::thread a(look), b(look), c(look); a.join(); b.join(); c.join();
  CHECK(!bad);
}'''),
dict(id='mapping_cached_reply', prop='P13', libs=['interface', 'transport', 'general', 'tracing'], needs='an identifier that is registered again under another name after its mapping was queried',
 breaks='queries keep answering the old name',
 edits=[('scalopus_tracing/src/endpoint_trace_mapping.cpp', '  ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };\n  // cool, we have the mappings... now we need to serialize this...\n',
  '  static std::mutex cache_mutex;\n  static ProcessTraceMap mapping;\n  std::lock_guard<std::mutex> lock(cache_mutex);\n  auto names = scalopus::StaticStringTracker::getInstance().getMap();\n  if (mapping[::getpid()].size() != names.size())\n  {\n    mapping = { { ::getpid(), std::move(names) } };  // names were added since the last time.\n  }\n  // cool, we have the mappings... now we need to serialize this...\n')],
 demo=r'''
#include <unistd.h>
#include <cstdio>
#include <mutex>
#include "scalopus_tracing/endpoint_trace_mapping.h"
#include "scalopus_tracing/internal/static_string_tracker.h"
#include "scalopus_transport/transport_loopback.h"
using namespace scalopus;
int main() {
  TransportLoopbackFactory f; auto s = f.serve(); s->addEndpoint(std::make_shared<EndpointTraceMapping>());
  auto c = f.connect(s->getAddress()); auto e = EndpointTraceMapping::factory(c);
  for (const char* name : { "first", "second" }) {
    StaticStringTracker::getInstance().insert(5, name);
    auto m = e->mapping();
    if (m[getpid()][5] != name) { printf("%s instead of %s\n", m[getpid()][5].c_str(), name); return 1; }
  }
  return 0;
}'''),
dict(id='native_sort_whole_us', prop='P18', libs=['interface', 'transport', 'general', 'tracing', 'scalopus_tracing/src/native/native_trace_source.cpp', 'scalopus_tracing/src/native/native_trace_provider.cpp', 'scalopus_tracing/src/native/endpoint_native_trace_receiver.cpp', 'scalopus_tracing/src/native/endpoint_native_trace_sender.cpp', 'scalopus_tracing/src/native/tracepoint_collector_native.cpp'],
 stubs=['cbor'], needs='events less than a microsecond apart that arrive out of order',
 breaks='they are not put in order of time',
 edits=[('scalopus_tracing/src/native/native_trace_source.cpp', '    return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();\n', '    return lhs.at("ts").get<std::int64_t>() < rhs.at("ts").get<std::int64_t>();\n')],
 demo=r'''
#include <cstdio>
#include <cbor/stl.h>
#include "tracepoint_collector_native.h"
#include "scalopus_tracing/native_trace_provider.h"
#include "scalopus_tracing/native_trace_source.h"
#include "scalopus_general/endpoint_manager_poll.h"
#include "scalopus_transport/transport_loopback.h"
using namespace scalopus;
int main() {
  auto m = std::make_shared<EndpointManagerPoll>(std::make_shared<TransportLoopbackFactory>());
  auto p = std::make_shared<NativeTraceProvider>(m);
  auto s = p->makeSource(); s->startInterval();
  auto n = std::dynamic_pointer_cast<NativeTraceSource>(s);
  auto add = [&](unsigned long tid, std::uint64_t t) {
    tracepoint_collector_types::ThreadedEvents ev;
    tracepoint_collector_types::StaticTraceEvent e{}; e.time_point = t; e.trace_id = 1; e.trace_type = TracePointCollectorNative::SCOPE_ENTRY;
    ev[tid].emplace_back(std::move(e));
    const std::map<std::string, cbor::cbor_object> o{ { "pid", cbor::cbor_object{ 7ul } }, { "events", cbor::cbor_object{ ev } } };
    auto d = std::make_shared<Data>(); cbor::to_cbor(o, *d); n->addData(d);
  };
  add(1, 5900); add(2, 5100); s->stopInterval();
  auto r = s->finishInterval();
  if (r.size() != 2) return 2;
  double a = r[0]["ts"], b = r[1]["ts"];
  return a <= b ? 0 : 1;
}'''),
dict(id='general_keep_when_empty', prop='P20', libs=['interface', 'transport', 'general'], needs='all processes disconnect between two intervals',
 breaks='the processes that are gone keep their names in the later recording',
 edits=[('scalopus_general/src/general_provider.cpp', '  mapping_.clear();\n\n  auto endpoints = manager_->endpoints();\n', '  auto endpoints = manager_->endpoints();\n  if (endpoints.empty())\n  {\n    return;  // nothing to ask.\n  }\n  mapping_.clear();\n\n')],
 demo=r'''
#include <cstdio>
#include "scalopus_general/endpoint_manager_poll.h"
#include "scalopus_general/endpoint_process_info.h"
#include "scalopus_general/endpoint_introspect.h"
#include "scalopus_general/general_provider.h"
#include "scalopus_transport/transport_loopback.h"
using namespace scalopus;
struct Manager : EndpointManager {
  TransportEndpoints now;
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  TransportEndpoints endpoints() const override { return now; }
};
int main() {
  TransportLoopbackFactory f; auto s = f.serve(); s->addEndpoint(std::make_shared<EndpointProcessInfo>());
  auto c = f.connect(s->getAddress());
  auto m = std::make_shared<Manager>();
  m->now[c][EndpointProcessInfo::name] = EndpointProcessInfo::factory(c);
  auto p = std::make_shared<GeneralProvider>(m); auto src = p->makeSource();
  src->startInterval(); src->stopInterval();
  if (src->finishInterval().empty()) return 2;
  m->now.clear();
  src->startInterval(); src->stopInterval();
  return src->finishInterval().empty() ? 0 : 1;
}'''),
dict(id='macro_line_12bit', prop='P23', libs=['interface', 'transport', 'general', 'tracing'], needs='two scopes in one file that are a multiple of 4096 lines apart',
 breaks='both have the same identifier, so one is shown under the name of the other',
 edits=[('scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h', '(CRC32_STR(__FILE__) + __LINE__)\n', '(CRC32_STR(__FILE__) ^ (__LINE__ & 0xfff))\n')],
 demo=r'''
#include <set>
#include <scalopus_tracing/internal/scope_tracepoint.h>
#include <scalopus_tracing/internal/static_string_tracker.h>
#include <scalopus_tracing/internal/scope_trace_raii.h>
#include <scalopus_tracing/internal/trace_macro.h>
#include <scalopus_tracing/tracing.h>
#line 17 "big.cpp"
static void a() { TRACE_SCOPE_RAII("a"); }
#line 4113 "big.cpp"
static void b() { TRACE_SCOPE_RAII("b"); }
int main() {
  a(); b();
  std::set<std::string> names;
  for (auto& n : scalopus::StaticStringTracker::getInstance().getMap()) names.insert(n.second);
  return names == std::set<std::string>{ "a", "b" } ? 0 : 1;
}'''),
dict(id='cli_shared_configuration', prop='P27', kind='python', needs='several servers of which only some are matched, the matched one before others',
 breaks='what was asked of one process is also done to those after it',
 edits=[('scalopus_python/scalopus/__main__.py', '    entries = []\n    for transport, endpoint_map in endpoints.items():\n', '    entries = []\n    new_state = scalopus.tracing.EndpointTraceConfigurator.TraceConfiguration()\n    for transport, endpoint_map in endpoints.items():\n'),
        ('scalopus_python/scalopus/__main__.py', '        new_state = scalopus.tracing.EndpointTraceConfigurator.TraceConfiguration()\n\n        if (pinfo.pid', '        if (pinfo.pid')],
 demo=r'''
import sys, types, os, io, contextlib
S = types.SimpleNamespace
class Conf:
    def __init__(self):
        self.process_state = self.cmd_success = self.set_process_state = False
        self.thread_state = {}
    def add_thread_entry(self, i, s): self.thread_state[i] = s
    def to_dict(self): return dict(vars(self))
class Info: name = 'info'
class Cfg: name = 'conf'; TraceConfiguration = Conf
class Nat: name = 'native'
class Map: name = 'map'
class Intro: name = 'intro'
for c in (Info, Cfg, Nat, Map, Intro): c.factory = None
state = {1: True, 2: True, 3: True}
def endpoints(pid):
    i, c = Info(), Cfg()
    i.processInfo = lambda: S(pid=pid, name='p', threads={}, to_dict=lambda: dict(pid=pid, name='p', threads={}))
    def set(n):
        if n.set_process_state: state[pid] = n.process_state
        r = Conf(); r.cmd_success, r.process_state = True, state[pid]
        return r
    c.setTraceState = set
    return {'info': i, 'conf': c}
class Poll:
    def __init__(self, f): pass
    def addEndpointFactory(self, n, f): pass
    def manage(self): pass
    def endpoints(self): return {S2(p): endpoints(p) for p in (1, 2, 3)}
class S2:
    def __init__(self, p): self.p = p
    def getAddress(self): return self.p
m = types.ModuleType('scalopus')
m.transport = S(TransportUnixFactory=object.__new__ and (lambda: None))
m.general = S(EndpointManagerPoll=Poll, EndpointProcessInfo=Info, EndpointIntrospect=Intro)
m.tracing = S(have_lttng=False, EndpointTraceConfigurator=Cfg)
sys.modules['scalopus'] = m
sys.argv = ['scalopus', 'trace_configure', 'off', '2']
try:
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(open('scalopus_python/scalopus/__main__.py').read(), 'main', 'exec'), {'__name__': '__main__'})
except SystemExit as e:
    if e.code: sys.exit(e.code)
print(state)
sys.exit(0 if state == {1: True, 2: False, 3: True} else 1)
'''),
]
