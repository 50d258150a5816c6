#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    kw = {k: v.split(', ') if k == 'observe_at' else v for k, v in kw.items()}
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop("P01", "Unix transport: every answered request resolves with its own response",
 "For any number of concurrent requests, from several threads and several clients, to any endpoints of a server reached over the unix domain socket transport, each request that the server answers resolves exactly once, with exactly the bytes the addressed endpoint produced for that request. A response is never lost, never swapped with that of another request or client, and never handed to an endpoint as unsolicited data.",
 ["schedules"], "all interleavings of requesting threads, client workers and the server worker (within a preemption bound), for several numbers of clients, threads, endpoints and response orders",
 "The unit tests issue a handful of requests one at a time from one thread; the loss or swap of a response needs the worker to run at a particular instant between sending a request and remembering it.",
 ["scalopus_transport/src/transport_unix.cpp", "scalopus_transport/src/transport_unix.h", "scalopus_transport/src/protocol.cpp"],
 [("request id allocation, send and promise registration", "TransportUnix::request"), ("response matching", "TransportUnix::work"), ("request dispatch to endpoints", "TransportUnix::processMsg")],
 observe_at="futures returned by request(), endpoint handle()/unsolicited() calls")
prop("P02", "Unix transport: messages survive every segmentation of the byte stream",
 "A message with any endpoint name and any payload (empty, one byte, larger than internal buffers) sent over the unix domain socket transport arrives with exactly the same endpoint name, payload and request association, and so do the messages behind it, no matter how the stream is cut into reads and writes: short reads, short writes, interrupted system calls, full socket buffers. A message the protocol cannot represent is refused with an error.",
 ["fault_sequences", "inputs"], "all cut points of the stream for all message shapes in a bounded alphabet; all placements of up to k short/interrupted reads and writes in longer conversations",
 "The kernel delivers small local messages in one piece, so the tests never see a short read or write; correctness at each cut needs enumeration of the cuts.",
 ["scalopus_transport/src/protocol.cpp", "scalopus_transport/src/transport_unix.cpp"],
 [("length prefixed reading", "protocol::readData, protocol::receive"), ("length prefixed writing", "protocol::send")],
 observe_at="bytes on the socket, data handed to endpoints and futures")
prop("P03", "Unix transport: a peer dying at any byte never yields fabricated data",
 "If the process at the other end of a unix domain socket connection disappears after any prefix of any message, no future resolves with data the peer did not completely send and no endpoint is invoked with an incomplete message. A client then reports that it is not connected and new requests on it fail with an error; a server drops only that connection and keeps answering its other clients and new ones.",
 ["crash_points"], "every byte position at which a peer can die in a request, response or broadcast, for clean close and for reset, with and without other clients",
 "Tests only close connections between messages; the outcome depends on the exact byte at which the peer dies.",
 ["scalopus_transport/src/transport_unix.cpp", "scalopus_transport/src/protocol.cpp"],
 [("disconnect handling of a client", "TransportUnix::work (client branch)"), ("disconnect handling of a server", "TransportUnix::work (connection loop)"), ("end of file detection", "protocol::readData")],
 observe_at="futures, endpoint invocations, isConnected()")
prop("P04", "Unix transport: broadcasts reach every client exactly once and in order",
 "Every message broadcast by a server on the unix domain socket transport is delivered to the addressed endpoint of every client that has completed a request before and stays connected, exactly once, unmodified, and messages broadcast by one thread arrive in the order in which they were broadcast. Broadcasts never resolve or disturb outstanding requests, and a client that disconnects does not prevent delivery to the others.",
 ["schedules"], "all interleavings of broadcasting threads, requests, client workers and the server worker within a preemption bound",
 "The test broadcasts one message to one client; ordering and exactly-once delivery depend on how broadcasts interleave with the worker draining the queue.",
 ["scalopus_interface/src/transport.cpp", "scalopus_transport/src/transport_unix.cpp"],
 [("broadcast queue", "Transport::broadcast, Transport::haveBroadcast, Transport::popBroadcast"), ("broadcast delivery", "TransportUnix::work")],
 observe_at="unsolicited() calls of client endpoints")
prop("P05", "Unix transport: dropped and unanswered requests are forgotten safely",
 "A request whose future is dropped, at any moment relative to its transmission and answer, is eventually no longer counted as pending and its late answer never resolves another request and is never taken for a broadcast. A request that is never answered (unknown endpoint, or an endpoint that declines to answer) stays unresolved without affecting requests before, after or concurrent with it.",
 ["schedules"], "all interleavings of dropping futures with sending, answering, receiving and clean-up",
 "Whether a dropped future is cleaned up and where a late response goes depends on the relative timing of three threads.",
 ["scalopus_transport/src/transport_unix.cpp"],
 [("clean up of dropped requests", "TransportUnix::work"), ("pending count", "TransportUnix::pendingRequests"), ("unknown endpoints", "TransportUnix::processMsg")],
 observe_at="pendingRequests(), futures")
prop("P06", "Unix transport: creation, failure and teardown are safe at any moment",
 "Serving, connecting, communicating and destroying servers and clients in any order and at any moment never crashes, hangs or corrupts memory; destruction returns promptly, after which no worker thread and no open descriptor of that transport remains and no foreign descriptor has been closed. When serving or connecting fails at any step (no such server, name already taken, socket error) the factory returns no transport and leaves nothing behind.",
 ["schedules", "fault_sequences"], "all interleavings of construction, use and destruction of up to three transports and every single failing system call in serve and connect",
 "Tests never make a connection attempt fail and always tear down idle transports in one order.",
 ["scalopus_transport/src/transport_unix.cpp", "scalopus_transport/src/transport_unix.h"],
 [("set up", "TransportUnix::serve, TransportUnix::connect"), ("tear down", "TransportUnix::~TransportUnix"), ("factory", "TransportUnixFactory::serve, TransportUnixFactory::connect")],
 observe_at="open descriptors, threads alive, returned pointers")
prop("P07", "Unix discovery lists exactly the processes that are serving",
 "Discovery over unix domain sockets returns each process that is currently serving exactly once, and nothing else: established or half-open client connections, sockets of other programs and malformed entries do not add, duplicate or hide a destination.",
 ["inputs"], "all socket tables assembled from a bounded alphabet of entries (listening, connected, pending, foreign, malformed names), in every order",
 "Tests look for their own single server in whatever the machine's socket table happens to contain.",
 ["scalopus_transport/src/transport_unix.cpp"],
 [("socket table parsing", "TransportUnix::getTransportServers"), ("discovery", "TransportUnixFactory::discover")],
 observe_at="destinations returned by discover()")
prop("P08", "Loopback transport: requests and broadcasts match a real transport",
 "Over the loopback transport every request to an existing endpoint of the server resolves exactly once with the bytes that endpoint produced for it, and a request to an endpoint the server does not have fails with an exception while leaving the transport usable. Every broadcast reaches the addressed endpoint of each connected client exactly once and in order, under any interleaving of requests, broadcasts, connects, dropped futures and teardown.",
 ["schedules"], "all interleavings of up to two clients, requesting threads and broadcasts within a preemption bound",
 "The tests run one client against one server; the missing-endpoint path, several broadcasts in one cycle and concurrent connects are never exercised.",
 ["scalopus_transport/src/transport_loopback.cpp", "scalopus_transport/src/transport_loopback.h", "scalopus_interface/src/transport.cpp"],
 [("request queue", "TransportLoopback::request, TransportLoopback::work"), ("client list", "TransportLoopback::addClient"), ("broadcast queue", "Transport::popBroadcast")],
 observe_at="futures, endpoint calls")
prop("P09", "Ring buffer is a bounded FIFO between one producer and one consumer",
 "For one producer and one consumer running concurrently, everything successfully pushed into the ring buffer is popped exactly once, unmodified and in order, whether consumed one at a time or in batches, for every capacity and any number of wrap-arounds. A push fails only when the buffer already holds its maximum number of elements, a pop fails only when the buffer is empty, and the reported size and emptiness are consistent with that.",
 ["schedules", "histories"], "all interleavings (with the memory orderings used) of a producer and a consumer for capacities 1..4, and all sequential operation histories up to a depth",
 "The unit test runs short sequential histories; missing ordering or an off by one at the wrap shows only in particular interleavings.",
 ["scalopus_tracing/src/spsc_ringbuffer.h"],
 [("producer", "SPSCRingBuffer::push"), ("consumer", "SPSCRingBuffer::pop, SPSCRingBuffer::pop_into"), ("occupancy", "SPSCRingBuffer::available, size, empty")],
 observe_at="return values and popped values")
prop("P10", "Native tracing delivers each recorded event exactly once, in thread order",
 "Every tracepoint that a thread emits (before the teardown of its thread-local objects) while tracing is enabled and its buffer has room reaches the transport exactly once, attributed to that thread, with its identifier, type, counter value and the time it was emitted, and in the order the thread emitted it, also when the thread exits before its events were collected or a new thread reuses its identity. Events are lost only when the emitting thread's buffer is full.",
 ["schedules"], "all interleavings of emitting threads (including their exit), the collecting worker and configuration changes within a preemption bound",
 "The moment at which a thread's buffer moves from active to orphaned relative to a collection cycle cannot be chosen by a test.",
 ["scalopus_tracing/src/native/tracepoint_collector_native.cpp", "scalopus_tracing/src/native/tracepoint_collector_native.h", "scalopus_tracing/src/native/endpoint_native_trace_sender.cpp", "scalopus_tracing/src/native/native_tracepoint.cpp"],
 [("per thread buffers", "TracePointCollectorNative::getBuffer"), ("orphaned buffers", "TracePointCollectorNative::retrieveAndClearOrphanedBuffers"), ("collection", "EndpointNativeTraceSender::work"), ("emission", "native::scope_entry and friends")],
 observe_at="data broadcast by the sender endpoint")
prop("P11", "Tracing switches: a tracepoint is emitted iff process and thread are enabled",
 "A tracepoint of any kind is emitted exactly when both the process switch and the switch of the calling thread are on at that moment; threads start enabled, switching one thread never affects another, and a thread that inherits the identity of an exited thread starts fresh. Setting a switch returns its previous value, and scoped switches restore the previous value when their scope ends, for every nesting.",
 ["histories", "schedules"], "all histories of switch, scoped switch, trace and thread start/exit operations up to a depth, and all interleavings of two threads doing so",
 "The space of nested and concurrent switch histories is exponential; the tests sample a few straight lines.",
 ["scalopus_tracing/src/trace_configurator.cpp", "scalopus_tracing/src/trace_configuration_raii.cpp", "scalopus_tracing/src/lttng/lttng_tracepoint.cpp", "scalopus_tracing/src/native/native_tracepoint.cpp", "scalopus_tracing/src/scope_trace_raii.cpp"],
 [("switch storage", "TraceConfigurator::getThreadStatePtr, setThreadState, setProcessState"), ("scoped switches", "TraceConfigurationRAII"), ("gating", "lttng::scope_entry, native::scope_entry and friends")],
 observe_at="emitted tracepoints, returned states")
prop("P12", "Remote trace switches change exactly what was asked and report the truth",
 "Setting trace switches from a remote client changes exactly the process switch if requested and the switches of the listed threads that exist, leaves every other switch alone, and returns, as does a query, the complete actual state of the process and of all its registered threads after the command. If no answer arrives in time the result is marked unsuccessful.",
 ["histories", "schedules"], "all sequences of set and query commands up to a depth over subsets of existing and unknown threads, and all interleavings with threads coming, going and switching locally",
 "The subsets of threads and the races with thread exit form a product that the single test does not cover.",
 ["scalopus_tracing/src/endpoint_trace_configurator.cpp", "scalopus_tracing/src/trace_configurator.cpp"],
 [("command handling", "EndpointTraceConfigurator::handle"), ("client calls", "EndpointTraceConfigurator::setTraceState, getTraceState")],
 observe_at="returned configuration, local switches")
prop("P13", "Trace names: any emitted trace identifier can be resolved remotely",
 "Once a tracepoint has been emitted, from whichever thread reached it first, a remote query of the trace mapping returns its identifier with exactly the name given in the source, for every interleaving of threads registering and clients querying; registered names never disappear or change without being re-registered. Identifiers of unknown processes or trace points resolve to a placeholder naming the identifier.",
 ["schedules", "inputs"], "all interleavings of threads passing the same and different tracepoints with remote queries; all small mappings and lookups",
 "The first-use registration is a race between threads that a test cannot steer.",
 ["scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h", "scalopus_tracing/src/static_string_tracker.cpp", "scalopus_tracing/src/endpoint_trace_mapping.cpp", "scalopus_tracing/src/scope_tracing_provider.cpp", "scalopus_general/include/scalopus_general/map_tracker.h"],
 [("first use registration", "TRACE_TRACKED_MAPPING_REGISTER_ONCE"), ("mapping endpoint", "EndpointTraceMapping::handle, mapping"), ("name lookup", "ScopeTracingProvider::updateMapping, getScopeName")],
 observe_at="mapping() at the client and emitted identifiers")
prop("P14", "Process info reports the process and the names of exactly the live threads",
 "A remote query of the process information returns the process id, the process name last set and the name last given for exactly those threads that named themselves and are still alive, besides names assigned explicitly to other threads; a thread's name disappears when it exits and is never attributed to another thread. The concurrent map behind it behaves like a plain map whose operations each happen at one instant.",
 ["schedules", "histories"], "all interleavings of naming, renaming, exiting and querying threads within a preemption bound; all linearizations of concurrent map operations",
 "Removal at thread exit races with naming and querying; linearizability quantifies over schedules.",
 ["scalopus_general/src/endpoint_process_info.cpp", "scalopus_general/src/thread_name_tracker.cpp", "scalopus_general/include/scalopus_general/map_tracker.h", "scalopus_general/include/scalopus_general/destructor_callback.h"],
 [("thread naming", "ThreadNameTracker::setCurrentName"), ("query", "EndpointProcessInfo::handle, processInfo"), ("concurrent map", "MapTracker")],
 observe_at="processInfo(), getMap()")
prop("P15", "The endpoint manager tracks exactly the reachable servers",
 "After each management round the endpoint manager holds exactly one live transport per discovered, connectable server, with exactly those endpoints that the server offered when it was connected and the manager has a factory for; servers that died are dropped, reappearing ones are reconnected, and existing connections are kept. Servers that vanish, refuse, fail or answer garbage during any step neither crash the manager nor affect other servers.",
 ["histories", "fault_sequences"], "all histories of servers appearing, dying, returning, refusing, answering late, badly or not at all, over up to two servers and several rounds, and all interleavings of the polling thread with queries and shutdown",
 "The product of server histories and failure points is not sampled by any test; there is no unit test for the manager.",
 ["scalopus_general/src/endpoint_manager_poll.cpp", "scalopus_general/src/endpoint_introspect.cpp", "scalopus_interface/src/endpoint_manager.cpp"],
 [("round", "EndpointManagerPoll::manage"), ("connection set up", "EndpointManagerPoll::connect"), ("introspection", "EndpointIntrospect::handle, supported"), ("polling", "EndpointManagerPoll::startPolling, stopPolling, work")],
 observe_at="endpoints(), transports created by the factory")
prop("P16", "Trace text lines are parsed exactly and never crash the parser",
 "Every well-formed line of trace text yields an event with exactly its timestamp, domain, name and all integer fields of its three contexts, in particular empty contexts, negative and maximal values and any number of fields. Any other line, of whatever shape or truncation, yields an event without the missing parts and never an exception or a crash.",
 ["inputs"], "all well-formed lines over a bounded grammar; all truncations, single token deletions, duplications and swaps of them; all short strings over the token alphabet",
 "The unit test parses four lines; malformed and boundary inputs are unbounded.",
 ["scalopus_tracing/src/lttng/ctfevent.cpp", "scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h"],
 [("line parsing", "CTFEvent::CTFEvent")],
 observe_at="accessors of the parsed event")
prop("P17", "LTTng events become correct, time-ordered trace viewer events",
 "Converting the events of an interval yields exactly one trace viewer event per scalopus tracepoint, with the right phase, scope, process, thread, microsecond time and resolved name, in non-decreasing time order with ties in arrival order; events of other domains are ignored and incomplete lines never make the conversion fail. Every counter event carries, for its own process, the current value of every series of that counter, taken in time order, including those that only appear later.",
 ["histories"], "all sequences of trace events up to a length over a small alphabet of kinds, processes, counters, times and malformed lines",
 "Ordering and counter bookkeeping depend on the whole sequence; there is no test of the conversion at all.",
 ["scalopus_tracing/src/lttng/lttng_source.cpp", "scalopus_tracing/src/scope_tracing_provider.cpp"],
 [("conversion", "LttngSource::convertEvents"), ("counter names", "ScopeTracingProvider::splitCounterSeriesName")],
 observe_at="result of finishInterval()")
prop("P18", "Native events become correct, time-ordered trace viewer events",
 "Converting the native event data received during an interval yields exactly one trace viewer event per received event, with the right phase, scope, process, thread, microsecond time and resolved name, in non-decreasing time order with ties in arrival order; every counter event carries, for its own process, the value of every series of that counter in time order, including those that only appear later. Corrupt data is skipped without crashing and without losing the intact data, an event of an unknown kind or a counter without a value yields nothing.",
 ["histories"], "all sequences of received chunks up to a size over a small alphabet of event kinds, threads, processes, counters, times and corruptions",
 "Ordering and counter bookkeeping depend on the whole sequence of chunks.",
 ["scalopus_tracing/src/native/native_trace_source.cpp", "scalopus_tracing/src/native/native_trace_provider.cpp", "scalopus_tracing/src/native/tracepoint_collector_native.h"],
 [("conversion", "NativeTraceSource::finishInterval"), ("wire format", "to_cbor/from_cbor of StaticTraceEvent")],
 observe_at="result of finishInterval()")
prop("P19", "Recording intervals contain exactly the events between start and stop",
 "A recording source returns every event that arrived after its interval was started and before it was stopped, and no event from before the start, after the stop or from an earlier interval, for any sequence of starting, stopping and finishing (which stops as well), concurrent with arriving events and with any number of other sources. Stopping, finishing or destroying a source while events arrive is safe, and a source that nobody holds any more does not go on recording.",
 ["schedules", "histories"], "all interleavings of one feeding thread and one or two sources going through their life cycle within a preemption bound; all sequential histories up to a depth",
 "Whether an event in flight is dropped, duplicated or touches a destroyed source depends on the interleaving of feeder and recorder.",
 ["scalopus_tracing/src/lttng/babeltrace_parser.cpp", "scalopus_tracing/src/lttng/lttng_source.cpp", "scalopus_tracing/src/native/native_trace_provider.cpp", "scalopus_tracing/src/native/native_trace_source.cpp"],
 [("text feed", "BabeltraceParser::process, setCallback, EventCallback::disable"), ("native feed", "NativeTraceProvider::incoming, NativeTraceSource::addData"), ("interval", "startInterval, stopInterval, finishInterval")],
 observe_at="results of finishInterval()")
prop("P20", "Process and thread names become exactly one metadata event each",
 "Finishing an interval of the general source yields, for every connected process that answers, exactly one process-name event and exactly one thread-name event per named thread, with the correct identifiers; processes that do not answer contribute nothing, and no stale or fabricated process appears.",
 ["histories", "fault_sequences"], "all combinations of up to three connected processes answering, not answering or lacking the endpoint, with all small sets of named threads, over several intervals",
 "The combinations of answering and silent processes over several intervals are not tested.",
 ["scalopus_general/src/general_provider.cpp", "scalopus_general/src/general_source.cpp", "scalopus_general/src/endpoint_process_info.cpp"],
 [("mapping", "GeneralProvider::updateMapping"), ("events", "GeneralSource::finishInterval")],
 observe_at="result of finishInterval()")
prop("P21", "A tracing session answers every command and delivers every event once",
 "A devtools tracing session answers each supported command exactly once, with the command's id and in arrival order; ending a recording stops every source, then delivers every event of every source exactly once in chunks of at most 1000 events, each chunk being valid JSON, and finally announces completion. Unknown or malformed messages and undecodable names do not end the session or the process. Every connection has a session of its own that ends with it, at any moment; answers go only to the connection that asked, only while it is open and only on the server's thread.",
 ["histories", "schedules"], "all message sequences up to a depth (including malformed messages), event counts around every chunk boundary, and all interleavings of message arrival, worker and destruction",
 "Chunk boundaries, message histories and destruction during processing are a product no test samples; there is no unit test for the session.",
 ["scalopus_catapult/src/trace_session.cpp", "scalopus_catapult/src/trace_session.h"],
 [("message queue", "TraceSession::incoming, popIncoming, loop"), ("commands", "TraceSession::processMessage"), ("chunking", "TraceSession::chunkedTransmit, formatEvents")],
 observe_at="messages passed to the response function")
prop("P22", "The recorder can be driven through any life cycle and loses no events",
 "The catapult recorder can be started, stopped, restarted, asked for events and destroyed in any order without crashing or hanging; collecting returns valid JSON holding exactly the events of all sources of the interval, also after stop, the worker drives the sources only between start and stop and never at the same time as another call, and a configured dump file is written on destruction with the events of the current recording.",
 ["histories", "schedules"], "all sequences of recorder operations up to a depth and all interleavings with the recorder's worker",
 "Life cycle sequences such as destroying a recorder that was never started are not in any test.",
 ["scalopus_catapult/src/catapult_recorder.cpp", "scalopus_catapult/include/scalopus_catapult/catapult_recorder.h"],
 [("life cycle", "CatapultRecorder::start, stop, ~CatapultRecorder"), ("collection", "CatapultRecorder::collectEvents, writeToFile")],
 observe_at="source calls, collected JSON, dump file")
prop("P23", "Scoped tracepoints are balanced and nest on every path",
 "While tracing stays enabled, every scope tracepoint emits exactly one entry and exactly one exit with the same identifier, in properly nested order, on every path out of the scope: fall through, return, exception, loop and recursion; scopes on different lines of a file, and marks and counters with different names, have distinct identifiers and marks and counters carry the given level and value.",
 ["programs", "histories"], "all programs of nested scopes, marks, counters, returns and throws up to a size",
 "The tests cover two or three fixed shapes; balance must hold for every nesting and exit path.",
 ["scalopus_tracing/src/scope_trace_raii.cpp", "scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h", "scalopus_tracing/include/scalopus_tracing/trace_macro.h", "scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp"],
 [("scoped tracepoint", "TraceRAII"), ("macros", "TRACE_SCOPE_RAII and friends"), ("identifier", "CRC32_STR")],
 observe_at="sequence of emitted tracepoints")
prop("P24", "Endpoints survive any request bytes from any client",
 "Whatever bytes a client sends to any of the endpoints of a server, well-formed or not, the server process keeps running, gives no answer or a well-formed one, does not change its tracing state because of a malformed request, and answers the next well-formed request correctly.",
 ["inputs"], "all requests up to a length over a byte alphabet, and all single-byte corruptions and truncations of valid requests, for every endpoint",
 "The tests only send well-formed requests produced by the library itself.",
 ["scalopus_general/src/endpoint_process_info.cpp", "scalopus_general/src/endpoint_introspect.cpp", "scalopus_tracing/src/endpoint_trace_mapping.cpp", "scalopus_tracing/src/endpoint_trace_configurator.cpp", "scalopus_transport/src/transport_unix.cpp"],
 [("request parsing", "handle() of each endpoint"), ("dispatch", "TransportUnix::processMsg")],
 observe_at="server liveness, responses")
prop("P25", "Python trace switches, contexts and helpers keep their word for every nesting",
 "In Python, the suppression decorator, the thread state switcher and traced sections restore the tracing state of their thread and balance entry and exit for every nesting, recursion, re-use of the same object by one or several threads and exceptional exit; decorated functions keep arguments, result and name. The helpers give every name one identifier registered under prefix plus name, events carry the identifier, level and value given, and go to the backend selected last. A weak provider factory creates endpoints while its provider lives, returns None afterwards, and does not keep the provider alive.",
 ["histories", "programs", "schedules"], "all programs of nested and recursive uses of shared and fresh switchers, suppressed and traced functions up to a depth, with and without exceptions; all interleavings of two or three threads at the calls into the library; all sequences of helper look-ups, events and backend changes up to a length",
 "The tests never nest the same switcher, call a suppressed function recursively or from two threads, nor use the weak factory helper.",
 ["scalopus_python/scalopus/tracing.py", "scalopus_python/scalopus/general.py"],
 [("state switcher", "ThreadStateSwitcher, suppressed"), ("traced sections", "TraceContext, traced, TraceContextHelper"), ("weak factory", "weak_provider_endpoint_factory")],
 observe_at="calls made to the tracing backend, thread state, endpoints created")

prop("P26", "The LTTng consumer runs, follows and ends exactly one babeltrace process",
 "Initialising the babeltrace tool starts one process, babeltrace for a path with a slash and lttng view for a session name, with the documented arguments, and none while one is running. Whatever that process does (prints much or little, to either output, ends, is killed, closes its output, ignores interrupts), every event it prints reaches the callbacks in order once, and halt or destruction returns, leaves no process, zombie, thread or descriptor, signals only that process, and the tool can be initialised again; whatever descriptors the program has open or closed, and the process inherits none but its three streams. A command that is missing or a failing fork or pipe harms nothing but that initialisation; the program never goes on in a second copy of itself.",
 ["programs", "fault_sequences", "histories"], "all behaviours of the process up to a number of steps, all sequences of operations on the tool up to a length, with two tools, every failing system call at start, every inherited signal disposition, every set of closed standard streams and descriptor numbers around the size of an fd_set",
 "The tests never start babeltrace.",
 ["scalopus_tracing/src/lttng/babeltrace_tool.cpp", "scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp"],
 [("process life cycle", "BabeltraceTool::init, BabeltraceTool::halt"), ("process start", "subprocess::popen")],
 observe_at="processes, descriptors and threads of the program, signals sent, events delivered")

prop("P27", "The command line tool serves every set of servers and every command line",
 "Of the Python command line, discover lists every server process that reports its process information exactly once, ordered by process id, with its name, endpoints and named threads, and nothing else; trace_configure sets the switch of every process matched by an id, of the others only when asked to, and of every named thread matched by an id, changes nothing else, and shows the state each server reports; record, once interrupted, prints one valid JSON list with exactly the events its sources recorded; catapult_server and the default exposer set up every natively supported provider and endpoint with the given options. A server that lacks an endpoint, does not answer, answers garbage or is gone at any step is left alone, and neither ends a command nor changes what it does with the others; likewise for a failing source.",
 ["inputs", "fault_sequences", "histories"], "all sets of up to three servers with every combination of offered endpoints and of ways to (not) answer each question, with equal and different process ids, under all command lines with up to five ids; every number of waits, events and failing source of a recording; all options of the catapult server",
 "The tests never run the command line tool.",
 ["scalopus_python/scalopus/__main__.py", "scalopus_python/scalopus/common.py"],
 [("discover", "run_discover"), ("trace switches", "run_trace_configure"), ("recording", "run_record"), ("set up", "run_catapult_server, DefaultExposer")],
 observe_at="what the tool prints, exit status, trace switches of the servers, endpoints and providers set up")

prop("P28", "Queries survive any answer bytes from any server",
 "Whatever bytes a server answers to any query of the library (supported endpoints, process info, trace mapping, reading and writing the trace state), the asking process keeps running and the query ends within a bounded time: a well-formed answer gives exactly what it says and nothing of an earlier answer; an answer that is truncated, nested absurdly deep, or lacks a field or has one of the wrong kind raises an exception; without an answer the result is empty or marked unsuccessful; over a failing or absent transport an exception is raised. The next well-formed answer is understood, and providers that ask several servers keep what the others say.",
 ["inputs", "fault_sequences"], "all well-formed answers of a family in every order of two, all short byte strings, every truncation and single-byte change of well-formed answers, all combinations of wrong or absent fields, large and deeply nested answers, all sequences of three queries over the ways not to answer, for every query",
 "The tests only see the answers of the library itself.",
 ["scalopus_general/src/endpoint_process_info.cpp", "scalopus_general/src/endpoint_introspect.cpp", "scalopus_tracing/src/endpoint_trace_mapping.cpp", "scalopus_tracing/src/endpoint_trace_configurator.cpp", "scalopus_general/src/general_provider.cpp", "scalopus_tracing/src/scope_tracing_provider.cpp"],
 [("queries", "EndpointIntrospect::supported, EndpointProcessInfo::processInfo, EndpointTraceMapping::mapping, EndpointTraceConfigurator::getTraceState, setTraceState"), ("providers", "GeneralProvider::updateMapping, ScopeTracingProvider::updateMapping")],
 observe_at="results and exceptions of queries, liveness of the asking process")

prop("P29", "The unix transport copes with any descriptors and children of the program",
 "Whatever descriptors the program has open or closed, servers and clients over unix sockets work: the numbers the system hands out (0 to 2 included) make no difference, no byte is written to, and nothing closes, a descriptor that is not the transport's own, also after the connection was lost. Sockets with numbers the implementation cannot handle, or that cannot be had because no descriptor is left, make only that serve, connect or connection fail: clients that are connected are served on, and once there is room everything works again. Other programs started by the process (at any moment, living on) do not get its sockets: a server that ends or dies is noticed by its clients and not discovered any more, and a client that ends is noticed by the server.",
 ["histories", "fault_sequences"], "all scripts of serving, connecting two clients, closing and stopping up to a length, for every subset of descriptors 0 to 2 closed, for next descriptors around the size of an fd_set, and for every number of descriptors left from every step on; every moment at which a program is started and every way its starter ends",
 "The tests run with a handful of open files, standard descriptors open and no other programs.",
 ["scalopus_transport/src/transport_unix.cpp", "scalopus_transport/src/transport_unix.h"],
 [("descriptors", "TransportUnix::serve, connect, isConnected, request"), ("accepting", "TransportUnix::work")],
 observe_at="answers, broadcasts, descriptors and their targets, discovery")

prop("P30", "Nothing depends on the locale of the program",
 "Whatever locale the program sets, for C, for C++ or for both, and whenever it changes it, the library behaves the same: servers and clients with different locales have the same addresses and discover, connect to and understand each other; answers to queries and the names of unknown scopes are the same; timestamps and values of lttng events are read exactly as under the classic locale; recordings and the messages of viewer sessions are the same JSON, byte for byte.",
 ["configurations", "histories"], "all assignments of locales (with other decimal points, thousands separators and groupings, of C, of C++ and of both) to the steps of a script of serving, discovering, connecting and asking, with short and long process ids; every locale against the classic one for a family of queries, events of both sources, recordings and session messages",
 "The tests run under the classic locale; programs with a user interface set another one.",
 ["scalopus_transport/src/transport_unix.cpp", "scalopus_tracing/src/scope_tracing_provider.cpp", "scalopus_tracing/src/lttng/ctfevent.cpp", "scalopus_catapult/src/catapult_recorder.cpp", "scalopus_catapult/src/trace_session.cpp"],
 [("addresses", "TransportUnix::serve, connect, DestinationUnix"), ("numbers", "CTFEvent, ScopeTracingProvider::getScopeName"), ("json", "CatapultRecorder::collectEvents, TraceSession::incoming")],
 observe_at="addresses, answers, events, JSON texts")

prop("P31", "What was traced is what is shown, through the whole of the system",
 "When a process traces with the native backend and a viewer is connected to it, everything its threads emit through the tracing macros between the start of an interval and its end (a settling time apart) is in the recording or what the viewer session delivers: every event exactly once, with the kind, level, name and value given in the source, the thread that emitted it, in the order of that thread, at the time it was emitted; and with one name per connected process and named live thread. Nothing else is: nothing emitted outside the interval or while the process or the thread was switched off, and nothing of servers that have nothing to say. It stays so when threads end, servers restart and are found again, intervals follow one another, and over the unix and the loopback transport.",
 ["histories", "schedules", "configurations"], "all sequences of emitting (from lasting and from ending threads), starting, showing, switching, looking for servers and restarting the server up to a length, from every kind of event, with the recorder and with the viewer session, over unix sockets and over the loopback transport; threads that emit and end in all schedules up to a bound",
 "The tests have one fixed history for single parts; nothing tests the whole.",
 ["scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h", "scalopus_tracing/src/native/native_tracepoint.cpp", "scalopus_tracing/src/native/endpoint_native_trace_sender.cpp", "scalopus_transport/src/transport_unix.cpp", "scalopus_general/src/endpoint_manager_poll.cpp", "scalopus_tracing/src/native/native_trace_source.cpp", "scalopus_catapult/src/catapult_recorder.cpp", "scalopus_catapult/src/trace_session.cpp"],
 [("producing", "TRACE_SCOPE_RAII, TRACE_MARK_EVENT_*, TRACE_COUNT*, EndpointNativeTraceSender::work"), ("finding", "EndpointManagerPoll::manage"), ("showing", "NativeTraceSource::finishInterval, GeneralSource::finishInterval, CatapultRecorder::collectEvents, TraceSession::incoming")],
 observe_at="the JSON of recordings and viewer sessions")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
