import os, runpy
H = os.path.dirname(os.path.abspath(__file__))
COMMON = runpy.run_path(H + '/s1.py')['COMMON']
TU = 'scalopus_transport/src/transport_unix.cpp'
FAKE = r'''
#include <unistd.h>
#include <sys/stat.h>
#include <cstdlib>
#include <fstream>
#include <thread>
#include <chrono>
#include <cstdio>
#include "scalopus_tracing/lttng_provider.h"
#include "scalopus_tracing/lttng_source.h"
using namespace scalopus;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\n", #c); fflush(stdout); r = 1; goto end; } } while (0)
// a stand-in for the babeltrace program, in a scratch directory
struct Fake {
  std::string dir;
  Fake(const std::string& script) {
    char t[] = "/tmp/fakebtXXXXXX"; dir = mkdtemp(t);
    std::ofstream(dir + "/babeltrace") << "#!/bin/sh\n" << script; chmod((dir + "/babeltrace").c_str(), 0755);
    setenv("PATH", (dir + ":" + getenv("PATH")).c_str(), 1); }
  ~Fake() { unlink((dir + "/babeltrace").c_str()); unlink((dir + "/go").c_str()); rmdir(dir.c_str()); }
  void go() { std::ofstream(dir + "/go") << "x"; }
};
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
'''
SEEDS = [
dict(id='unix_drop_order', prop='P05', needs='an older request that is still held while a younger one (by endpoint name and id) is dropped',
 breaks='the dropped request stays counted as pending for as long as the older one is held',
 edits=[(TU, '          it++;\n', '          break;  // ordered by age, so the remainder is still held too.\n')],
 demo=COMMON + r'''
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  auto c = f.connect(s->getAddress()); CHECK(c);
  auto a = c->request("a", Data(1, 'x'));
  c->request("b", Data(1, 'y'));
  for (int i = 0; i < 100 && c->pendingRequests() != 1; i++) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  CHECK(c->pendingRequests() == 1);
}'''),
dict(id='unix_double_close', prop='P06', needs='a client outlives its server, and the program opens another descriptor between the loss of the connection and the destruction of the client',
 breaks='destroying the client closes a descriptor it does not own',
 edits=[(TU, '        // we failed reading data, if this happens we lost the connection.\n        running_ = false;\n', '        // we failed reading data, so we lost the connection, its descriptor is of no use any more.\n        ::close(client_fd_);\n        running_ = false;\n')],
 demo=COMMON + r'''
#include <fcntl.h>
int main() {
  TransportUnixFactory f; auto s = f.serve(); CHECK(s);
  auto c = f.connect(s->getAddress()); CHECK(c);
  auto e = std::make_shared<Ep>("echo"); e->h = [](const Data& r, Data& o) { o = r; return true; }; s->addEndpoint(e);
  auto r = c->request("echo", Data(1, 'x')); CHECK(ready(r));
  s.reset();
  for (int i = 0; i < 100 && c->isConnected(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  CHECK(!c->isConnected());
  int fds[16];
  for (int& fd : fds) { fd = open("/dev/null", O_RDONLY); CHECK(fd >= 0); }
  c.reset();
  for (int fd : fds) CHECK(fcntl(fd, F_GETFD) != -1);
}'''),
dict(id='loop_stale_break', prop='P08', needs='a request whose future was dropped before the worker got to it, followed by another request in the same cycle of the worker',
 breaks='the requests behind the dropped one are never answered',
 edits=[('scalopus_transport/src/transport_loopback.cpp', '          continue;  // request went stale.\n', '          break;  // request went stale.\n')],
 demo=COMMON.replace('transport_unix.h', 'transport_loopback.h') + r'''
int main() {
  TransportLoopbackFactory f; auto s = f.serve(); CHECK(s);
  auto e = std::make_shared<Ep>("echo"); e->h = [](const Data& r, Data& o) { o = r; return true; }; s->addEndpoint(e);
  auto c = f.connect(f.discover().front()); CHECK(c);
  for (int i = 0; i < 20; i++) {
    c->request("echo", Data(1, 'd'));
    auto r = c->request("echo", Data(1, 'k')); CHECK(ready(r)); CHECK(r->get() == Data(1, 'k'));
  }
}'''),
dict(id='raii_nothing_changed', prop='P11', libs=['interface', 'general', 'tracing'], needs='a scoped switch that sets the value the switch already has, and somebody changing the switch inside of that scope',
 breaks='the previous state is not restored at the end of the scope',
 edits=[('scalopus_tracing/include/scalopus_tracing/internal/trace_configuration_raii.h', '  bool previous_state_;\n', '  bool previous_state_;\n  bool changed_{ false };  //!< Only if we changed something there is something to restore.\n'),
        ('scalopus_tracing/src/trace_configuration_raii.cpp', '    previous_state_ = configurator->setThreadState(new_state);\n  }\n', '    previous_state_ = configurator->setThreadState(new_state);\n  }\n  changed_ = previous_state_ != new_state;\n'),
        ('scalopus_tracing/src/trace_configuration_raii.cpp', '{\n  TraceConfigurator::Ptr configurator = TraceConfigurator::getInstance();\n  if (is_process_)\n  {\n    configurator->setProcessState(previous_state_);', '{\n  if (!changed_)\n  {\n    return;\n  }\n  TraceConfigurator::Ptr configurator = TraceConfigurator::getInstance();\n  if (is_process_)\n  {\n    configurator->setProcessState(previous_state_);')],
 demo=r'''
#include <scalopus_tracing/internal/trace_configuration_raii.h>
#include <scalopus_tracing/trace_configurator.h>
using namespace scalopus;
int main() {
  auto c = TraceConfigurator::getInstance();
  c->setThreadState(false);
  { TraceConfigurationRAII off(false, false); c->setThreadState(true); }
  return c->getThreadState() ? 1 : 0;
}'''),
dict(id='conf_unknown_tid', prop='P12', libs=['interface', 'transport', 'general', 'tracing'], needs='a set command that lists a thread that does not exist (any more) before one that does',
 breaks='the switches of the threads listed behind the unknown one are not changed',
 edits=[('scalopus_tracing/src/endpoint_trace_configurator.cpp', '      if (it != thread_map.end())\n      {\n        it->second->store(k_v.second);\n      }\n', '      if (it == thread_map.end())\n      {\n        break;  // no such thread.\n      }\n      it->second->store(k_v.second);\n')],
 demo=COMMON.replace('transport_unix.h', 'transport_loopback.h') + r'''
#include <pthread.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
int main() {
  TransportLoopbackFactory f; auto s = f.serve(); CHECK(s);
  s->addEndpoint(std::make_shared<EndpointTraceConfigurator>());
  auto c = f.connect(f.discover().front()); CHECK(c);
  TraceConfigurator::getInstance()->setThreadState(true);
  auto e = std::make_shared<EndpointTraceConfigurator>(); e->setTransport(c.get());
  EndpointTraceConfigurator::TraceConfiguration t;
  t.thread_state[1] = false; t.thread_state[(unsigned long)pthread_self()] = false;
  auto r = e->setTraceState(t); CHECK(r.cmd_success);
  CHECK(!TraceConfigurator::getInstance()->getThreadState());
}'''),
dict(id='conf_partial', prop='P24', libs=['interface', 'transport', 'general', 'tracing'], needs='a set command whose process part is well-formed and whose thread part is not',
 breaks='the malformed command is rejected, after it switched the process',
 edits=[('scalopus_tracing/src/endpoint_trace_configurator.cpp', '    const auto new_state = req.at("state").get<TraceConfiguration>();\n    // Store the new process state\n    if (new_state.set_process_state)\n    {\n      process_state->store(new_state.process_state);\n    }\n',
  '    const auto& new_state = req.at("state");\n    // Store the new process state\n    if (new_state.at("sp").get<bool>())\n    {\n      process_state->store(new_state.at("p").get<bool>());\n    }\n'),
  ('scalopus_tracing/src/endpoint_trace_configurator.cpp', '    for (const auto& k_v : new_state.thread_state)\n', '    for (const auto& k_v : new_state.at("t").get<std::map<unsigned long, bool>>())\n')],
 demo=r'''
#include <nlohmann/json.hpp>
#include <scalopus_interface/transport.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
#include <scalopus_tracing/trace_configurator.h>
#include "transport_loopback.h"
using namespace scalopus; using nlohmann::json;
int main() {
  TransportLoopbackFactory f; auto s = f.serve();
  EndpointTraceConfigurator e; Data out;
  json q = { { "cmd", "set" }, { "state", { { "p", false }, { "sp", true }, { "t", "all" } } } };
  try { e.handle(*s, json::to_bson(q), out); } catch (const std::exception&) { }
  return TraceConfigurator::getInstance()->getProcessState() ? 0 : 1;
}'''),
dict(id='ctf_short_field', prop='P16', libs=['scalopus_tracing/src/lttng/ctfevent.cpp'], needs='a field with a one letter name and a one digit value',
 breaks='that field and those behind it are missing from the event',
 edits=[('scalopus_tracing/src/lttng/ctfevent.cpp', '      if (kvpair.size() <= 4)  // cannot', '      if (kvpair.size() < 6)  // cannot')],
 demo=r'''
#include "scalopus_tracing/ctfevent.h"
using namespace scalopus;
int main() {
  CTFEvent e("[1544361620.739021131] eagle scalopus_scope_id:exit: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { id = 12, a = 5, value = 9 }");
  return e.eventData().size() == 3 && e.eventData().count("a") && e.eventData().at("a") == 5 && e.eventData().at("value") == 9 ? 0 : 1;
}'''),
dict(id='lttng_late_stop', prop='P19', libs=['interface', 'transport', 'general', 'tracing', 'lttngsrc'], needs='an event that arrives between stopping an interval and collecting it',
 breaks='the events after the stop are recorded too',
 edits=[('scalopus_tracing/src/lttng/lttng_source.cpp', '    callback_->disable();\n    callback_.reset();\n', '    callback_.reset();  // the tool drops callbacks that are not used any more.\n')],
 demo=FAKE + r'''
int main() {
  int r = 0;
  Fake fake("D=$(dirname \"$0\")\nwhile [ ! -e $D/go ]; do sleep 0.05; done\nfor i in 1 2 3; do echo \"[15443616$i.5] eagle scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139 }, { id = $i }\"; done\nsleep 60\n");
  {
    auto tool = std::make_shared<BabeltraceTool>(); tool->init("/a"); ms(100);
    LttngSource s(tool, std::make_shared<LttngProvider>("/a", nullptr));
    s.startInterval(); s.stopInterval(); fake.go(); ms(500);
    CHECK(s.finishInterval().empty());
  }
end:
  return r;
}'''),
dict(id='lttng_unstable_sort', prop='P17', libs=['interface', 'transport', 'general', 'tracing', 'lttngsrc'], needs='more than 16 events in one interval, several of them with the same time',
 breaks='events with the same time come in another order than they arrived',
 edits=[('scalopus_tracing/src/lttng/lttng_source.cpp', '  std::stable_sort(result', '  std::sort(result')],
 demo=FAKE + r'''
int main() {
  int r = 0;
  Fake fake("D=$(dirname \"$0\")\nwhile [ ! -e $D/go ]; do sleep 0.05; done\nfor i in $(seq 100 160); do echo \"[1544361620.5] eagle scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 14897, pthread_id = $i }, { id = 12 }\"; done\nsleep 60\n");
  {
    auto tool = std::make_shared<BabeltraceTool>(); tool->init("/a"); ms(100);
    LttngSource s(tool, std::make_shared<LttngProvider>("/a", nullptr));
    s.startInterval(); fake.go(); ms(700);
    auto ev = s.finishInterval();
    CHECK(ev.size() == 61);
    for (int i = 0; i < 61; i++) CHECK(ev[i].at("tid").get<int>() == 100 + i);
  }
end:
  return r;
}'''),
dict(id='sender_reused_tid', prop='P10', libs=['interface', 'transport', 'general', 'scalopus_tracing/src/*.cpp', 'scalopus_tracing/src/native/scope_tracepoint_native.cpp', 'scalopus_tracing/src/native/endpoint_native_trace_sender.cpp', 'scalopus_tracing/src/native/native_tracepoint.cpp', 'scalopus_tracing/src/native/tracepoint_collector_native.cpp'], stubs=['cbor'],
 needs='two threads with the same identity, the first one gone, both with events that were not collected yet',
 breaks='the events of the thread that is gone are lost',
 edits=[('scalopus_tracing/src/native/endpoint_native_trace_sender.cpp', '      auto& output_buffer = events[thread_id];\n      output_buffer.reserve(output_buffer.size() + available);\n', '      auto& output_buffer = events[thread_id];\n      output_buffer.clear();\n      output_buffer.reserve(available);\n')],
 demo=COMMON.replace('transport_unix.h', 'transport_loopback.h') + r'''
#include <mutex>
#include <scalopus_tracing/endpoint_native_trace_sender.h>
#include <scalopus_tracing/native_tracepoint.h>
#include <cbor/stl.h>
#include "tracepoint_collector_native.h"
int main() {
  unsigned long ids[2];
  for (int i = 0; i < 2; i++) std::thread([&] { ids[i] = (unsigned long)pthread_self(); native::scope_entry(10 + i); native::scope_exit(10 + i); }).join();
  if (ids[0] != ids[1]) { printf("identity not reused, nothing to see\n"); return 0; }
  TransportLoopbackFactory f; auto s = f.serve(); CHECK(s);
  auto c = f.connect(f.discover().front()); CHECK(c);
  std::mutex m; int n = 0;
  auto b = std::make_shared<Ep>("native_trace_receiver");
  b->u = [&](const Data& d, Data&) {
    std::map<std::string, cbor::cbor_object> parsed; cbor::from_cbor(parsed, d);
    tracepoint_collector_types::ThreadedEvents ev; parsed.at("events").get_to(ev);
    std::lock_guard<std::mutex> l(m); for (auto& t : ev) n += t.second.size(); return false; };
  c->addEndpoint(b);
  s->addEndpoint(std::make_shared<EndpointNativeTraceSender>());
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  std::lock_guard<std::mutex> l(m);
  printf("%d events\n", n);
  CHECK(n == 4);
}'''),
dict(id='manager_last_server', prop='P15', libs=['interface', 'transport', 'general'], needs='the last server that is left dies',
 breaks='the dead server is kept while no other one is discovered',
 edits=[('scalopus_general/src/endpoint_manager_poll.cpp', '  const auto current_transports = transports_;\n', '  const auto current_transports = transports_;\n  const auto providers = factory_->discover();\n  if (providers.empty())\n  {\n    return;  // nothing out there.\n  }\n'),
        ('scalopus_general/src/endpoint_manager_poll.cpp', '  const auto providers = factory_->discover();\n  for', '  for')],
 demo=COMMON + r'''
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_introspect.h>
// the real transport, but only our own process is visible
struct Only : TransportUnixFactory {
  std::vector<Destination::Ptr> discover() override { std::vector<Destination::Ptr> r; for (auto& d : TransportUnixFactory::discover()) if (d->hash_code() == (std::size_t)getpid()) r.push_back(d); return r; }
};
int main() {
  auto f = std::make_shared<Only>(); auto s = f->serve(); CHECK(s);
  s->addEndpoint(std::make_shared<EndpointIntrospect>());
  EndpointManagerPoll m(f);
  m.manage(); CHECK(m.endpoints().size() == 1);
  auto t = m.endpoints().begin()->first;
  s.reset();
  for (int i = 0; i < 100 && t->isConnected(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(20));
  m.manage(); CHECK(m.endpoints().empty());
}'''),
dict(id='session_finish_each', prop='P21', libs=['interface', 'scalopus_catapult/src/trace_session.cpp'], needs='more than one source, and events that arrive while the first source is converting its events',
 breaks='sources go on recording while the events of the others are already collected',
 edits=[('scalopus_catapult/src/trace_session.cpp', '      source->stopInterval();\n    }\n\n', '      auto results = source->finishInterval();  // this stops the interval.\n      events.insert(events.end(), results.begin(), results.end());\n    }\n\n'),
        ('scalopus_catapult/src/trace_session.cpp', '    // Tracing was stopped.\n', '    // Tracing was stopped.\n    std::vector<json> events;\n'),
        ('scalopus_catapult/src/trace_session.cpp', '    std::vector<json> events;\n    for (auto& source : getSources())\n    {\n      auto results = source->finishInterval();\n      events.insert(events.end(), results.begin(), results.end());\n    }\n    chunked', '    chunked')],
 demo=r'''
#include <mutex>
#include <cstdio>
#include "trace_session.h"
using namespace scalopus;
static std::mutex m; static std::string order;
struct Src : TraceEventSource {
  void startInterval() override {} void work() override {}
  void stopInterval() override { std::lock_guard<std::mutex> l(m); order += 's'; }
  std::vector<json> finishInterval() override { std::lock_guard<std::mutex> l(m); order += 'f'; return {}; }
};
int main() {
  {
    TraceSession s([](const std::string&) {}); s.setLogger([](const std::string&) {});
    for (int i = 0; i < 2; i++) s.addSource(std::make_shared<Src>());
    s.incoming("{\"id\":1,\"method\":\"Tracing.start\"}"); s.incoming("{\"id\":2,\"method\":\"Tracing.end\"}");
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
  }
  printf("%s\n", order.c_str());
  auto f = order.find('f');
  return f != std::string::npos && order.find("ss") < f ? 0 : 1;
}'''),
dict(id='recorder_unlocked_finish', prop='P22', libs=['interface', 'scalopus_catapult/src/catapult_recorder.cpp'], needs='events are collected while the worker is driving the same source',
 breaks='two threads use a source at the same time',
 edits=[('scalopus_catapult/src/catapult_recorder.cpp', '  std::vector<json> events;\n  {\n    std::lock_guard<std::mutex> lock{ source_mutex_ };\n    for', '  std::vector<json> events;\n  {\n    for')],
 demo=r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include "scalopus_catapult/catapult_recorder.h"
using namespace scalopus;
static std::atomic<int> inside{ 0 }; static std::atomic<bool> overlap{ false };
struct In { In() { if (inside++ != 0) overlap = true; } ~In() { inside--; } };
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
struct Src : TraceEventSource {
  void startInterval() override { In i; } void stopInterval() override { In i; }
  void work() override { In i; ms(20); }
  std::vector<json> finishInterval() override { In i; ms(20); return {}; }
};
struct Prov : TraceEventProvider { TraceEventSource::Ptr makeSource() override { return std::make_shared<Src>(); } };
int main() {
  CatapultRecorder r; r.addProvider(std::make_shared<Prov>()); r.start(); r.startInterval();
  for (int i = 0; i < 20; i++) { ms(7); r.collectEvents(); }
  r.stop();
  return overlap ? 1 : 0;
}'''),
dict(id='ring_early_release', prop='P09', libs=[], needs='the producer pushes while the consumer is still moving elements out of a full ring',
 breaks='a push succeeds into a slot that was not read yet, its element is lost and another one comes twice',
 edits=[('scalopus_tracing/src/spsc_ringbuffer.h', '    for (std::size_t index = read_index; index < read_index + readable_count; index++)\n    {\n      *(output++) = std::move(container_[index % max_size_]);  // This deals with wrapping automatically.\n    }\n    std::size_t next = (read_index + readable_count) % max_size_;\n    read_index_.store(next, std::memory_order_release);\n',
  '    std::size_t next = (read_index + readable_count) % max_size_;\n    read_index_.store(next, std::memory_order_release);\n    for (std::size_t index = read_index; index < read_index + readable_count; index++)\n    {\n      *(output++) = std::move(container_[index % max_size_]);  // This deals with wrapping automatically.\n    }\n')],
 demo=r'''
#include <algorithm>
#include <stdexcept>
#include <vector>
#include "spsc_ringbuffer.h"
using Ring = scalopus::SPSCRingBuffer<std::vector<int>>;
// what the producer does while the consumer is in the middle of a batch
struct Out {
  Ring* r; std::vector<int>* v; int* pushed;
  Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++(int) { return *this; }
  Out& operator=(int x) { while (r->push(100 + *pushed)) (*pushed)++; v->push_back(x); return *this; }
};
int main() {
  Ring r(std::vector<int>(4)); std::vector<int> v; int pushed = 0;
  for (int i = 0; i < 3; i++) if (!r.push(int(i))) return 1;
  r.pop_into(Out{ &r, &v, &pushed }, 3);
  int x; while (r.pop(x)) v.push_back(x);
  std::vector<int> want{ 0, 1, 2 }; for (int i = 0; i < pushed; i++) want.push_back(100 + i);
  return v == want ? 0 : 1;
}'''),
dict(id='py_helper_global_prefix', prop='P25', kind='python', needs='two helpers with different prefixes and the same section name',
 breaks='the second helper hands out the section of the first one, registered under the other prefix',
 edits=[('scalopus_python/scalopus/tracing.py', '        ctx = self.ctx_type(self.prefix + name)\n        setattr(self, name, ctx)\n', '        ctx = self.ctx_type(self.prefix + name)\n        setattr(type(self), name, ctx)\n')],
 demo=r'''
import sys, types, os, itertools
S = types.SimpleNamespace
names, log, count = {}, [], itertools.count(1)
b = S(scope_entry=log.append, scope_exit=log.append, mark_event=None, count_event=None, EndpointNativeTraceSender=object, NativeTraceProvider=object)
t = S(setTraceName=names.__setitem__, getThreadState=None, setThreadState=None, getProcessState=None, setProcessState=None, MarkLevel=S(GLOBAL=0, PROCESS=1, THREAD=2),
      EndpointTraceMapping=object, EndpointTraceConfigurator=object, uniqueTraceId=lambda: next(count), native=b, nop=b)
pkg = types.ModuleType('scalopus'); pkg.__path__ = [os.path.join(os.getcwd(), 'scalopus_python', 'scalopus')]
sys.modules['scalopus'] = pkg
lib = types.ModuleType('scalopus.lib'); lib.tracing = t
sys.modules['scalopus.lib'] = lib; pkg.lib = lib
from scalopus import tracing
x, y = tracing.TraceContextHelper('x/'), tracing.TraceContextHelper('y/')
with x.run: pass
with y.run: pass
got = [names[i] for i in log]
print(got)
sys.exit(0 if got == ['x/run', 'x/run', 'y/run', 'y/run'] else 1)
'''),
dict(id='popen_keeps_write_end', prop='P26', libs=['interface', 'transport', 'general', 'tracing', 'lttngsrc'], needs='the babeltrace process ends by itself',
 breaks='a descriptor stays open in the program for every initialisation and the end of the output is never seen',
 edits=[('scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp', 'child(argv);\n\n        ::close(in_pipe[READ]);\n        ::close(out_pipe[WRITE]);\n', 'child(argv);\n\n        ::close(in_pipe[READ]);\n        if (out_pipe[READ] == -1) ::close(out_pipe[WRITE]);  // handed to the process only.\n')],
 demo=FAKE + r'''
#include <dirent.h>
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
int main() {
  int r = 0;
  Fake fake("exit 0\n");
  {
    BabeltraceTool tool; tool.init("/a"); ms(200); tool.halt();
    int n = fds();
    for (int i = 0; i < 3; i++) { tool.init("/a"); ms(200); tool.halt(); }
    CHECK(fds() == n);
  }
end:
  return r;
}'''),
]
