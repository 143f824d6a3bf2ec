import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement)
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TU="scalopus_transport/src/transport_unix.cpp"; TUH="scalopus_transport/src/transport_unix.h"
PR="scalopus_transport/src/protocol.cpp"; TL="scalopus_transport/src/transport_loopback.cpp"; TLH="scalopus_transport/src/transport_loopback.h"
TI="scalopus_interface/src/transport.cpp"; TIH="scalopus_interface/include/scalopus_interface/transport.h"
EM="scalopus_general/src/endpoint_manager_poll.cpp"
EI="scalopus_general/src/endpoint_introspect.cpp"; EP="scalopus_general/src/endpoint_process_info.cpp"
ET="scalopus_tracing/src/endpoint_trace_mapping.cpp"; EC="scalopus_tracing/src/endpoint_trace_configurator.cpp"
TC="scalopus_tracing/src/trace_configurator.cpp"

p("C01","A reply resolves exactly the request it answers, however fast it arrives",
 "On a socket connection, every reply the remote endpoint produces resolves the future of the request it answers, with exactly the bytes of that reply, even when it arrives before the requesting call has returned and when many requests are in flight. Requests are numbered uniquely, never with the number used for broadcasts; the serving side answers with the number and endpoint name of the request it handled; a future that was resolved or dropped no longer counts as pending. A future is never resolved with data that did not arrive as a complete message for it.",
 ["schedules","histories"],"every interleaving of requesting threads, the receiving thread and the remote, and every reply latency including zero",
 "The transport tests issue a handful of sequential requests; the reply always arrives after the requesting call returned, so the window between sending and registering is never exercised.",
 [TU,TUH],[("pending-request registration","TransportUnix::request"),("reply matching","TransportUnix::work client branch"),("echo of request id","TransportUnix::processMsg")],
 [("ongoing_requests_","promises of unanswered requests, keyed by endpoint name and request number")],["future returned by Transport::request","Transport::pendingRequests"])

p("C02","A socket message is delivered whole and field-exact, or not at all",
 "For every way the kernel may split or shorten socket reads and writes, receiving succeeds only after every byte announced by the message has been read, and reports failure on any read error or end of stream. Sender and receiver agree on the order, width and meaning of every field, and sending reports success only if every byte was accepted by the socket. A message whose name or payload does not fit its length field is rejected before any of its bytes are written.",
 ["inputs","fault_sequences"],"every message size and every sequence of short reads, short writes and errors from the socket calls",
 "Unix-socket reads of small test messages always return in one piece; short reads, mid-message disconnects and oversize names never occur in the tests.",
 [PR,"scalopus_transport/src/protocol.h"],[("chunked read loop","protocol::readData"),("field sequence","protocol::receive / protocol::send")],None,["bool returned by send/receive","message contents handed to endpoints"])

p("C03","Messages written to one connection never interleave",
 "Whenever several threads write to the same socket connection (requests, replies, broadcasts), each message is written under one uninterrupted hold of the same lock, from its first byte to its last. No code path writes message bytes to a socket without holding that lock.",
 ["schedules"],"every interleaving of threads sending over one transport object",
 "Tests send from one thread at a time; an interleaving inside a multi-part write needs a specific schedule.",
 [TU,PR],[("write lock","TransportUnix::request, TransportUnix::work")],[("write_lock_","serialises writers of one transport")],["byte stream on the socket"])

p("C04","Losing the peer fails outstanding requests and ends the connection",
 "When the connection of a client transport breaks or a message cannot be read completely, the transport stops reporting itself as connected, every still outstanding request is resolved with an error, and nothing from the incomplete message reaches a future or an endpoint. A request made on a connection whose send fails yields a future holding an error instead of one that never resolves. On the serving side a client whose message cannot be read is dropped and no further messages are read from it.",
 ["fault_sequences","histories"],"every point at which the peer may die relative to outstanding requests and partially received messages",
 "The unix transport test only destroys the server after all requests completed.",
 [TU],[("failed receive handling","TransportUnix::work"),("failed send handling","TransportUnix::request")],[("client_fd_","socket to the server, reset when the connection is lost"),("ongoing_requests_","requests that must be failed")],["Transport::isConnected","future returned by Transport::request"])

p("C05","Nothing received from outside can terminate a Scalopus worker thread",
 "An exception raised by an endpoint while handling a request or unsolicited message, by decoding received bytes (binary JSON, CBOR, text from the trace viewer or from a websocket), by an endpoint factory, or by a remote query, never escapes the background thread it occurs on. This holds for the transports, the connection poller, the trace parser, the trace sender and the websocket sessions. Handlers never read outside the received bytes, so an empty or truncated request is harmless.",
 ["inputs","fault_sequences"],"every byte string a peer may send and every exception an endpoint or factory may raise; loggers and event sinks are assumed not to throw, and exhausted memory is left out",
 "Tests only exchange well-formed messages; an escaping exception terminates the process and needs malformed input to show.",
 [TU,TL,EM,"scalopus_tracing/src/lttng/babeltrace_parser.cpp","scalopus_catapult/src/trace_session.cpp",ET,EP,EC],[("thread entry functions","lambdas passed to std::thread"),("endpoint dispatch","calls of Endpoint::handle / Endpoint::unsolicited")],None,["process survival"])

p("C06","A missing endpoint, peer, provider or session is handled, never dereferenced",
 "Every lookup that can come back empty (an endpoint by name, a weakly held object, a transport that could not connect, a failed downcast, a map search) is tested before its result is used, on every path. In particular asking a loopback server for an unknown endpoint yields an error through the future, a factory that cannot connect is skipped, and a trace source outliving its provider returns without touching it.",
 ["histories","inputs"],"every order of object destruction, registration and lookup in the library itself (the bundled third-party subprocess header is left out)",
 "The tests look up only things that exist; absent-case paths are taken only under particular destruction orders or names.",
 [TL,TU,EM,"scalopus_tracing/src/native/native_trace_source.cpp","scalopus_tracing/src/scope_tracing_provider.cpp","scalopus_catapult/src/catapult_backend.cpp"],[("nullable results","weak_ptr::lock, getEndpoint, dynamic_pointer_cast, TransportFactory::connect, container find")],None,["absence of null dereference"])

p("C07","Broadcasts reach every connected client once, in the order queued",
 "Each broadcast is taken from the queue exactly once and handed, with its name and payload unchanged and in the order the broadcasts were queued, to every client connected to the serving transport at that time, and never written to the listening socket. A broadcast is recognisable by clients as unsolicited, so it can never resolve a request. Dead clients do not stop delivery to the others.",
 ["schedules","histories"],"every sequence of queued broadcasts, number of clients and timing of the worker",
 "The existing tests send one broadcast to one client, which cannot show reordering, duplication or a skipped client.",
 [TI,TU,TL],[("queue","Transport::broadcast / popBroadcast / haveBroadcast"),("fan-out","TransportUnix::work, TransportLoopback::work")],[("broadcast_messages_","messages waiting to be sent")],["Endpoint::unsolicited calls on the clients"])

p("C08","Every socket a transport opens is closed exactly once and not used afterwards",
 "On every path, including every failing setup step, each socket obtained by serving, connecting or accepting is closed exactly once: when its setup fails, when its client is dropped, or when the transport is destroyed. No socket is read, written, shut down or selected on after it was closed, so a recycled descriptor number of unrelated code is never touched.",
 ["fault_sequences","histories"],"every combination of failing system calls and every connect/disconnect history; serve or connect is called once per transport, and descriptor 0 is never handed out",
 "Tests do not inject socket failures and do not observe leaked or doubly closed descriptors.",
 [TU],[("socket creation","TransportUnix::serve / connect / work accept"),("socket release","TransportUnix::~TransportUnix / work")],[("connections_","set of open sockets")],["open file descriptors of the process"])

p("C09","Background threads stop and are joined; teardown never aborts the process",
 "Every object that owns a background thread (transports, connection poller, trace sender, trace viewer tool, recorder, websocket session and server) tells it to stop before waiting for it, waits for it exactly once and only if it was started, and does so before the state the thread uses is destroyed, also when setup failed, was never done, or stop is called repeatedly. The thread re-checks the stop request in every iteration of its loop.",
 ["histories","fault_sequences"],"every order of start, failed start, stop, repeated stop and destruction; owners without a public way to stop are started once",
 "Tests only run the happy start-then-destroy sequence.",
 [TU,TL,EM,"scalopus_tracing/src/lttng/babeltrace_tool.cpp","scalopus_tracing/src/native/endpoint_native_trace_sender.cpp","scalopus_catapult/src/catapult_recorder.cpp","scalopus_catapult/src/trace_session.cpp","scalopus_catapult/src/catapult_server.cpp"],[("owned threads","std::thread data members")],None,["process termination on destruction"])

p("C10","Transport state shared between threads is always accessed under its lock",
 "All mutable state of a transport that its worker thread and callers both touch (endpoint table, broadcast queue, pending requests, client lists, socket handles, run flags) is either only accessed while holding the one lock that guards it, or is atomic. This holds for both transport kinds and the common base.",
 ["schedules"],"every interleaving of API calls with the worker thread; the logger is set before serving or connecting",
 "A data race needs a particular schedule and often has no visible effect in a test run.",
 [TU,TUH,TL,TLH,TI,TIH],[("guarding locks","endpoint_mutex_, broadcast_message_mutex_, request_lock_")],None,["data-race freedom of the Transport API"])

p("C11","Discovery, naming and endpoint tables are race free",
 "The connection manager's transport and factory tables, the poller's control flags, the provider's process and thread name tables and the process-wide name and identifier registries are only accessed while holding their own lock or atomically, with writers excluding readers. Accessors hand out copies, never references to state guarded by a lock that is released on return.",
 ["schedules"],"every interleaving of registration, polling and querying threads; factories and the logger are configured before polling starts, and internal helpers are called with the lock their documentation asks for",
 "Tests use these registries from one or two threads for a few operations.",
 [EM,"scalopus_general/include/scalopus_general/map_tracker.h","scalopus_general/src/general_provider.cpp",EP,"scalopus_tracing/src/scope_tracing_provider.cpp"],[("table locks","EndpointManagerPoll::mutex_, MapTracker::mutex_, mapping_mutex_")],None,["data-race freedom"])

p("C12","Trace recording and configuration state is race free",
 "Trace switches, per-thread state tables, native event buffers, recorded data, trace parser callbacks, recorder sources and session message queues are only accessed while holding their guarding lock or atomically, so recording may be started, stopped and configured while events arrive. A callback that was disabled is never invoked afterwards.",
 ["schedules"],"every interleaving of traced threads, the parser or transport thread and the controlling thread; providers, loggers, buffer size and the dump file are configured before the worker starts",
 "Tests do not run recording control concurrently with event arrival.",
 [TC,"scalopus_tracing/src/native/tracepoint_collector_native.cpp","scalopus_tracing/src/native/native_trace_source.cpp","scalopus_tracing/src/lttng/babeltrace_parser.cpp","scalopus_tracing/src/lttng/lttng_source.cpp","scalopus_catapult/src/catapult_recorder.cpp","scalopus_catapult/src/trace_session.cpp"],[("guards","threads_map_mutex_, orphaned_mutex_, data_mutex_, BabeltraceParser::mutex_, source_mutex_, incoming_mutex_")],None,["data-race freedom"])

p("C13","No deadlock: consistent lock order and no re-entry under internal locks",
 "No two internal locks are ever acquired in opposite orders, no lock is acquired by a thread that already holds it, and no thread is waited for while holding a lock that thread needs. Endpoint handlers for requests and unsolicited messages are invoked with no transport lock held, so a handler may itself call any operation of the transport.",
 ["schedules","programs"],"every interleaving of API calls and every endpoint implementation that calls back into its transport",
 "Deadlocks need a specific schedule or a handler that re-enters the transport; the test endpoints do not.",
 [TU,TL,TI,EM,"scalopus_general/src/general_provider.cpp","scalopus_catapult/src/catapult_backend.cpp"],[("lock acquisition sites","all std::lock_guard/unique_lock/shared_lock"),("handler dispatch","Endpoint::handle / Endpoint::unsolicited call sites")],None,["progress of API calls"])

p("C14","A serving process is discoverable and reachable under its process id",
 "The socket name a process serves under, the name a client connects to and the name pattern discovery searches for are built identically from the process id, with the same address length, for every process id. A transport only announces itself as serving or connected after every setup step succeeded, and a factory never returns a transport whose setup failed.",
 ["inputs","fault_sequences"],"every process id and every failing setup step",
 "Tests only ever connect to their own pid; a name or length mismatch at other digit counts or a failing step is not covered.",
 [TU],[("socket naming","TransportUnix::serve / connect / getTransportServers")],None,["TransportFactory::serve/connect/discover"])

p("C15","Remote queries through endpoints are bounded in time and well defined on timeout",
 "Every client-side endpoint call (introspection, process information, trace mapping, trace configuration) waits for the reply with a finite timeout and reads the reply only if it arrived; without a transport it raises a communication error instead of crashing. When the reply does not arrive the result is a fully initialised empty value, and the trace configuration calls report success only if a reply was decoded. Process information that was not received is not presented as belonging to a process.",
 ["fault_sequences","schedules"],"every remote that is slow, silent or gone at any moment",
 "All test servers answer immediately.",
 [EI,EP,ET,EC,"scalopus_general/src/general_provider.cpp"],[("bounded wait","future wait_for before get in supported/processInfo/mapping/setTraceState/getTraceState")],None,["return value and duration of endpoint client calls"])

p("C16","Client and server sides of every endpoint speak the same message format",
 "For every endpoint, each command the client side sends is one the server side recognises, each field the client reads from a reply is written by the server's reply to that command, and request fields the server reads are written by the client, with the same names. The name a client addresses is the name the server side registers under, and trace data is broadcast to the name the receiving endpoint registers under.",
 ["programs","inputs"],"every endpoint and command, including optional fields and data not present in a test",
 "Tests exercise only a few commands with particular contents; a mismatch in a rarely used field or name goes unnoticed.",
 [EI,EP,ET,EC,"scalopus_tracing/src/native/endpoint_native_trace_sender.cpp","scalopus_tracing/src/native/endpoint_native_trace_receiver.cpp"],[("message fields","json keys in handle() and in client calls; to_json/from_json")],None,["decoded replies"])

p("C17","The connection manager keeps one live transport per destination, or none",
 "The manager never connects twice to a destination it already has a transport for, forgets a disconnected transport and its endpoints together, and never lists endpoints of a transport it does not hold. A destination that refuses the connection is skipped without affecting the others, and only endpoints whose factory produced an instance are listed and attached to the transport.",
 ["histories","fault_sequences"],"every sequence of polls with servers appearing, refusing and disappearing",
 "No existing test runs the manager against disappearing or refusing servers.",
 [EM],[("tables","EndpointManagerPoll::manage / connect")],[("transports_","transport per destination hash"),("transport_endpoints_","endpoints per transport")],["EndpointManager::endpoints"])

p("C18","A tracepoint emits exactly one event when enabled and none when disabled",
 "In every backend and for scope entry, scope exit, marks of each level and counts, an event is emitted only if tracing is enabled both for the process and for the calling thread at the time of the call, and then exactly one event is emitted carrying the given identifier and value. The switches consulted are the process-wide one and the calling thread's own.",
 ["histories","programs"],"every combination of switch states, marker level and calling thread",
 "Only the LTTng macros are compiled into a test here, and it does not inspect emitted events.",
 ["scalopus_tracing/src/lttng/lttng_tracepoint.cpp","scalopus_tracing/src/native/native_tracepoint.cpp","scalopus_tracing/src/nop/nop_tracepoint.cpp"],[("gate","process and thread state loads in each tracepoint function")],None,["events in the trace"])

p("C19","Event kinds keep their meaning from tracepoint to Trace Event Format",
 "For each backend, what is emitted for scope begin, scope end, global, process and thread marks and counters is turned by the consumer into phases B, E, instant with scope g, p or t, and C respectively; distinct kinds stay distinct. Every emitted kind has a consumer branch, unknown kinds never produce an event without a phase, times are given in microseconds, and events are returned in time order without reordering equal times.",
 ["programs","inputs"],"every event kind of every backend",
 "No runnable test covers the consumer conversion; a swapped constant or name compiles.",
 ["scalopus_tracing/src/native/native_tracepoint.cpp","scalopus_tracing/src/native/tracepoint_collector_native.cpp","scalopus_tracing/src/native/native_trace_source.cpp","scalopus_tracing/src/lttng/lttng_tracepoint.cpp","scalopus_tracing/src/lttng/lttng_source.cpp","scalopus_tracing/src/lttng/scope_tracepoint_lttng_definition.h"],[("encode","tracepoint functions"),("decode","finishInterval / convertEvents")],None,["json events returned by finishInterval"])

p("C20","Every traced scope emits a matched begin and end with the same identifier",
 "A scope tracepoint emits its begin event when constructed and its end event, with the same identifier, when the scope is left by any means including exceptions. Explicit start and end tracepoints with the same name in the same file use the same identifier, the generic tracepoint functions forward to the selected backend's function of the same kind with unchanged arguments, and each macro registers the name under the very identifier it emits.",
 ["programs"],"every program using the tracing macros, and every way to leave a scope",
 "Tests check a few macro expansions and never an exceptional exit or identifier agreement.",
 ["scalopus_tracing/src/scope_trace_raii.cpp","scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h","scalopus_tracing/include/scalopus_tracing/trace_macro.h","scalopus_tracing/src/lttng/scope_tracepoint_lttng.cpp","scalopus_tracing/src/native/scope_tracepoint_native.cpp"],[("RAII","TraceRAII"),("macros","TRACE_* macros"),("forwarders","scope_tracepoint_*.cpp")],None,["begin/end events"])

p("C21","Temporarily switching tracing always restores the previous state",
 "A scoped change of the thread or process trace switch applies to exactly that switch, and when the scope is left puts back the value the switch had before, also for nested changes. Setting a switch atomically returns its previous value, both switches start enabled, and a thread's switch affects only that thread.",
 ["programs","histories"],"every nesting of scoped changes on any number of threads",
 "The macro test samples one nesting on one thread.",
 ["scalopus_tracing/src/trace_configuration_raii.cpp",TC],[("RAII","TraceConfigurationRAII"),("switches","TraceConfigurator::setThreadState / setProcessState")],None,["TraceConfigurator::getThreadState/getProcessState"])

p("C22","Remote trace configuration changes exactly what was asked and reports the result",
 "A remote set request changes the process switch only if the request says so, and changes the switches of exactly those listed threads that exist, to the listed values; a get request changes nothing. The reply of both reports the process switch and all thread switches as they are after the change.",
 ["inputs"],"every configuration request and set of live threads",
 "The endpoint test sends one or two configurations.",
 [EC],[("apply","EndpointTraceConfigurator::handle")],None,["reply of the trace configuration endpoint","trace switches"])

p("C23","Thread exit removes the thread's registrations and keeps its unsent events",
 "Whenever a thread obtains a trace switch, an event buffer or a name, its registration is removed again when that thread exits, and only that thread's. Events still in the buffer of an exiting thread are handed to the sender before the buffer is unregistered, and handed-over buffers are taken by the sender exactly once, so no event is lost or sent twice.",
 ["schedules","histories"],"every interleaving of thread creation, exit and the collecting sender",
 "Tests cover thread names for one thread; buffers of exiting threads are not built or tested here.",
 ["scalopus_general/src/thread_name_tracker.cpp",TC,"scalopus_tracing/src/native/tracepoint_collector_native.cpp","scalopus_general/include/scalopus_general/destructor_callback.h"],[("thread-exit hooks","thread_local DestructorCallback objects")],None,["registries after thread exit","events received by clients"])

p("C24","The event ring buffer never loses, duplicates, tears or invents an element",
 "With one producer and one consumer running concurrently, an element becomes visible to the consumer only after it was completely written, its slot is reused only after the consumer has taken it, and each accepted element is returned exactly once and in order. Pushing to a full buffer and popping from an empty one fail without changing anything, indices always stay inside the container, and a zero-sized container is refused.",
 ["schedules","inputs"],"every interleaving of one producer and one consumer under the C++ memory model, every capacity and index position",
 "The ring buffer test is single threaded and small; a missing release or acquire ordering is invisible on x86.",
 ["scalopus_tracing/src/spsc_ringbuffer.h"],[("publication protocol","write_index_/read_index_ atomics")],None,["push/pop/pop_into results"])

p("C25","Any line of trace viewer output is parsed without failure or undefined values",
 "For every input line, well-formed or not, parsing returns an event without throwing and without reading out of range, and every field of that event has a defined value. Values that are not numbers or do not fit are skipped; a negative number is kept modulo the width of the field.",
 ["inputs"],"every string",
 "The parser test covers a few well-formed lines.",
 ["scalopus_tracing/src/lttng/ctfevent.cpp","scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h"],[("parser","CTFEvent::CTFEvent(std::string)")],None,["CTFEvent accessors"])

p("C26","A recording interval delivers each source's events once, then completes",
 "Starting an interval reaches every source, ending it stops every source before any source is asked for its results, and every source's results are included exactly once. A websocket session answers each known command with the identifier of that command, sends all collected data before announcing completion, and announces completion exactly once per end command. A new interval never contains data this process received before it started.",
 ["histories","inputs"],"every sequence of start, stop and collect over any number of sources",
 "The catapult library is not covered by tests.",
 ["scalopus_catapult/src/trace_session.cpp","scalopus_catapult/src/catapult_recorder.cpp","scalopus_tracing/src/native/native_trace_source.cpp","scalopus_tracing/src/lttng/lttng_source.cpp"],[("session protocol","TraceSession::processMessage"),("recorder","CatapultRecorder::collectEvents")],None,["messages to the websocket client","recorder output"])

p("C27","A helper process that cannot be launched never runs the host program's code",
 "After creating the trace viewer process, the child either becomes the requested program, connected to its pipes, or exits immediately, on every path including every failing step. If the process cannot be created this is reported as an error and no signal is ever sent to a process that is not the helper.",
 ["fault_sequences"],"every failing fork, pipe, dup and exec",
 "Tests never launch a helper process.",
 ["scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp","scalopus_tracing/src/lttng/babeltrace_tool.cpp"],[("fork/exec","subprocess::popen::run / child")],None,["running processes"])

p("C28","Python tracing wrappers emit matched events and restore the thread switch",
 "In the Python package, entering and leaving a traced context or decorated function emits matching begin and end events with one identifier through the same backend selector, on every exit including exceptions. Suppressing tracing restores the state the calling thread had before, also for nested, recursive and concurrent use. Every name the package uses is defined, so no documented helper fails when first called.",
 ["programs","schedules"],"every program using the Python wrappers, nested or from several threads",
 "The Python tests are not runnable without the native module, and do not nest or run suppression concurrently.",
 ["scalopus_python/scalopus/tracing.py","scalopus_python/scalopus/general.py","scalopus_python/scalopus/interface.py"],[("context managers","TraceContext, ThreadStateSwitcher")],None,["events and thread switch as seen from Python"])

# not applicable
p("N01","Trace identifiers of distinct scopes do not collide",
 "Two different scopes of one program never share a trace identifier, so names shown for events are always the right ones.",
 ["programs"],"every program and file name","Only a few names are sampled.",
 ["scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp"],[("identifier hash","CRC32 of file plus line or name")])
p("N02","Replies and broadcasts arrive within a bounded time",
 "A reply or broadcast is delivered within a fixed time of being produced, independent of load.",
 ["schedules"],"every load and schedule","Tests run unloaded.",
 [TU,TL],[("worker loops","select / sleep intervals")])
p("N03","Counter values and timestamps round-trip numerically unchanged",
 "Every 64-bit counter value and nanosecond timestamp recorded is shown with the same numeric value in the final trace.",
 ["inputs"],"every 64-bit value","Few values are sampled.",
 ["scalopus_tracing/src/native/native_trace_source.cpp","scalopus_tracing/src/native/tracepoint_collector_native.h"],[("encoding","CBOR and double conversion")])
p("N04","No events are dropped while the ring buffer is drained often enough",
 "As long as a thread produces fewer events than the buffer holds between two collections, every event reaches the consumer.",
 ["schedules","histories"],"every production rate and scheduler behaviour","Needs rate bounds.",
 ["scalopus_tracing/src/native/endpoint_native_trace_sender.cpp"],[("collector loop","EndpointNativeTraceSender::work")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
