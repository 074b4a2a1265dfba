import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
S='bsp-server/src/'; T='bsp-types/src/'
p('C01','Outgoing messages appear on the stream as exact protocol frames, in order',
 "Whatever messages an application sends over a stdio or TCP connection, the peer sees exactly one frame per message, in send order, and no other bytes. Each frame is a `Content-Length: N` header, an empty line and N bytes (not characters) of UTF-8 JSON, the JSON being that message with `\"jsonrpc\":\"2.0\"`. Once the application has dropped the connection and joining its threads succeeded, all of it has been written.",
 ['inputs','histories'],'all sequences of messages (kind, id, method, payload, size from empty to megabytes, any Unicode) over both stream transports',
 'The tests serialise a handful of single ASCII messages to strings and never exercise the framing or a transport.',
 [S+'message.rs',S+'transporter.rs',S+'io_thread.rs'],[('Message::write, JsonRpc','bsp-server/src/message.rs'),('writer threads','bsp-server/src/transporter.rs'),('IoThreads::join','bsp-server/src/io_thread.rs')],obs=['bytes on the TCP socket','bytes on stdout'])
p('C02','Incoming frames are delivered exactly once and in order, however they arrive',
 "For any sequence of well-formed frames, the application receives exactly the messages they contain, each once and in order, followed by end-of-stream when the peer closes between frames; joining then reports success. How the bytes are cut into reads, the size of a body, header fields other than Content-Length (before or after it), and JSON spelling (whitespace, member order, escapes) make no difference.",
 ['inputs','schedules','histories'],'all sequences of well-formed frames, all ways of splitting the byte stream into chunks, all equivalent spellings of headers and JSON',
 'No test reads from a stream at all; the reading loop, its buffering and short reads are never executed.',
 [S+'message.rs',S+'transporter.rs'],[('read_msg_text','bsp-server/src/message.rs'),('reader threads','bsp-server/src/transporter.rs')],obs=['Connection.receiver','IoThreads::join'])
p('C03','Malformed or truncated input ends the stream cleanly and yields no message',
 "When the incoming stream is malformed (bad header, missing or non-numeric length, a body that is not UTF-8 or not a JSON-RPC message object) or is cut inside a frame, every message before the fault is delivered, nothing at or after the fault is, and the application sees end-of-stream. A malformed frame or a body cut short makes joining report an error; nothing the peer sends, including an absurd declared length or deep nesting, panics, aborts or exhausts the memory of the process.",
 ['inputs','fault_sequences'],'all prefixes of valid frames followed by any fault at any byte position, followed by any further bytes',
 'Tests feed only valid JSON strings to the decoder; no malformed frame, truncation or hostile length is ever tried.',
 [S+'message.rs',S+'transporter.rs',S+'io_thread.rs'],[('read_msg_text error paths','bsp-server/src/message.rs'),('reader threads returning the error','bsp-server/src/transporter.rs')],obs=['Connection.receiver','IoThreads::join','process exit status'])
p('C04','Every request keeps its method, id and parameters across the wire',
 "A request of any kind, sent and received with this library, arrives as the same kind of request with the same id and the same parameters, and on the wire it carries the method name the Build Server Protocol documents for that kind, its id, and its parameters under `params`. Requests without parameters (shutdown, workspace build targets, reload, custom requests with null) may leave `params` out, and are received the same whether it is absent, null or present.",
 ['inputs'],'all request kinds, ids and parameter values',
 'Tests cover four serialisations and two decodings with fixed values; most of the fifteen kinds are never decoded.',
 [S+'request.rs',S+'message.rs',T+'lib.rs'],[('Serialize for Request, Deserialize for Request, Request::method','bsp-server/src/request.rs')])
p('C05','Every notification keeps its method and parameters across the wire',
 "A notification of any kind, sent and received with this library, arrives as the same kind of notification with the same parameters, and on the wire it carries the method name the Build Server Protocol documents for that kind, its parameters under `params`, and no id. The exit and initialized notifications are received the same whether `params` is absent, null or present.",
 ['inputs'],'all notification kinds and parameter values',
 'Tests decode two kinds and serialise four, with one fixed value each.',
 [S+'notification.rs',S+'message.rs'],[('Serialize for Notification, Deserialize for Notification, Notification::method','bsp-server/src/notification.rs')])
p('C06','Every response keeps its id and its exact outcome across the wire',
 "A response sent and received with this library arrives with the same id and the same outcome: a success with exactly the result value that was sent, including null, or an error with the same code, message and data, and never both. Each error helper (parse error, invalid request, method not found, invalid params, internal error, server error start and end, server not initialized, request cancelled, content modified, server cancelled) produces an error with its own documented code and the message it was given.",
 ['inputs'],'all ids, result values, error codes, messages and data',
 'No test builds, serialises or decodes a response.',
 [S+'response.rs',S+'error.rs',S+'request/id.rs'],[('Response, ResponseError and their constructors','bsp-server/src/response.rs'),('ErrorCode','bsp-server/src/error.rs')])
p('C07','Message kind is decided by presence of a method and an id',
 "A well-formed message with a method and an id is delivered as a request, one with a method and no id as a notification, and one with an id and a result or error but no method as a response. This holds for any method name (a notification's name used by a request and the reverse included), any order of members and any unknown extra members.",
 ['inputs'],'all well-formed JSON-RPC message objects, with any member order and unknown members',
 'Only two whole messages are decoded in the tests; overlap between the three kinds is never probed.',
 [S+'message.rs',S+'request.rs',S+'notification.rs',S+'response.rs'],[('untagged Message enum','bsp-server/src/message.rs'),('visit_map of Request and Notification','bsp-server/src/request.rs, bsp-server/src/notification.rs')])
p('C08','The initialize handshake follows the protocol for every client history',
 "Whatever a client sends before its initialize request, the server answers each earlier request once with error -32002 and that request's id, ignores notifications other than exit, and otherwise ends the handshake with an error. It then hands the client's parameters to the server's callback exactly once, replies once with the callback's value under the initialize id, and succeeds, returning those parameters, only if the next message is the initialized notification. Later messages stay untouched, and a client that disconnects at any point gives an error, never a panic.",
 ['histories','inputs','fault_sequences'],'all sequences of client messages and disconnects (sending side, receiving side) around the handshake',
 'No test calls the handshake.',
 [S+'lib.rs',T+'initialize_params.rs'],[('Connection::initialize, initialize_start, initialize_finish','bsp-server/src/lib.rs')],obs=['return value of initialize','messages received by the client'])
p('C09','The shutdown handshake answers once and succeeds only on exit',
 "Given a shutdown request, handling it sends exactly one successful null response with that request's id and succeeds if and only if the next message is the exit notification; any other message, a disconnect, or half a minute of silence gives an error. An exit that is already queued is honoured even if the client is no longer reading. For any other request nothing is sent, nothing is consumed and the answer is `false`.",
 ['histories','inputs','fault_sequences'],'all requests and all continuations of client messages, delays below the limit, and disconnects',
 'No test calls the shutdown handling.',
 [S+'lib.rs'],[('Connection::handle_shutdown','bsp-server/src/lib.rs')],obs=['return value of handle_shutdown','messages received by the client'])
p('C10','The exit notification ends reading and nothing else does',
 "On a stdio or TCP connection the exit notification is delivered to the application and is the last message delivered: nothing after it is read, the receiver reports end-of-stream and the reading thread finishes with success even while the peer keeps its side open. The application can still send after it. Messages that merely resemble it (a request named like it, similar method names) do not end reading.",
 ['histories','inputs'],'all streams with an exit notification at any position, any spelling of it, followed by anything, with the peer staying connected',
 'No test runs a reader thread.',
 [S+'transporter.rs'],[('is_exit break in both reader threads','bsp-server/src/transporter.rs')],obs=['Connection.receiver','IoThreads.reader'])
p('C11','Tearing a connection down in any order neither panics nor loses sent data',
 "Whatever the order in which the application stops receiving, drops the connection and joins its threads, and the peer half-closes, closes or keeps sending, joining returns once the peer has closed (or sent exit) and the connection is dropped: it returns success or an error, it never panics, and nothing but frames is written to the stream. If the peer is still reading, and its stream was well-formed and is not left partly unread, joining succeeds and the peer has every message that was accepted for sending. After the peer is gone, sending fails or is discarded instead of blocking.",
 ['histories','schedules','fault_sequences'],'all interleavings of application teardown steps with peer writes, half-closes and closes, over both stream transports',
 'Tests never create or tear down a stream connection.',
 [S+'transporter.rs',S+'io_thread.rs',S+'lib.rs'],[('reader and writer threads','bsp-server/src/transporter.rs'),('IoThreads::join','bsp-server/src/io_thread.rs')],obs=['IoThreads::join','peer side of the stream'])
p('C12','Unknown methods and free-form data pass through unaltered',
 "A request or notification whose method the library does not know reaches the application with exactly that method name and parameters, and the application can send any such message itself. The same fidelity holds for result values, error data and the free-form data members of typed messages: every nested value, null, key, string and integer comes out as it went in, in both directions.",
 ['inputs'],'all method names (near misses of known names included) and all JSON values within the decoder\'s nesting limit',
 'Tests serialise one custom request and one custom notification with null parameters.',
 [S+'request.rs',S+'notification.rs',S+'response.rs',T+'task/start.rs',T+'bt_run.rs'],[('Custom variants','bsp-server/src/request.rs, bsp-server/src/notification.rs'),('data members','bsp-types/src')])
p('C13','An in-memory connection pair is two independent ordered channels',
 "On an in-memory connection pair, every message sent on one end by any of the send operations is received by the other end exactly once, unchanged and in send order, the two directions do not affect each other, and sending never waits for the receiver. Sending to an end that is gone fails and gives the message back; receiving from one that is gone yields what was sent before it went and then end-of-stream.",
 ['histories'],'all sequences of send, try_send, send_timeout, send_deadline, receive and drop operations on both ends',
 'No test uses the in-memory connection.',
 [S+'lib.rs'],[('Connection::memory, send, try_send, send_timeout, send_deadline','bsp-server/src/lib.rs')])
p('C14','Every protocol payload survives decoding and encoding with its documented names',
 "For every request parameter, notification parameter and result type, any document that fits the type is accepted, and encoding the decoded value gives back the same document under the same member names (an unset optional member may be absent or null, a defaulted member may be left out at its default). Unknown members are ignored.",
 ['inputs'],'all documents fitting the parameter, notification and result types, with every combination of optional members',
 'Tests touch four of the types with one fixed value each; no result type is ever encoded or decoded.',
 [T+'lib.rs',T+'bt_run.rs',T+'bt_sources.rs',T+'bt_test.rs',T+'bt_compile.rs',T+'workspace_build_targets.rs',T+'server_capabilities.rs',T+'publish_diagnostics.rs',T+'task.rs'],[('serde derives and rename/skip/default attributes','bsp-types/src')])
p('C15','Constructors, setters and getters agree with what is sent',
 "For every payload type with constructors and accessors, after any sequence of constructor and setter calls each getter returns the value last given for its own member, and the encoded document contains exactly those values under the matching member names. Convenience constructors set exactly what they say (severity of log and show messages, omitted optionals, the task's parents) and leave the rest at its default.",
 ['histories','inputs'],'all sequences of constructor, setter and mutable-access calls with any arguments',
 'Tests call three setters or constructors in all.',
 [T+'initialize_params.rs',T+'initialize_result.rs',T+'server_capabilities.rs',T+'bt_capabilities.rs',T+'bt_run.rs',T+'bt_test.rs',T+'bt_compile.rs',T+'show_message.rs',T+'log_message.rs',T+'task/id.rs'],[('new, new_simple, set_*, getters','bsp-types/src')])
p('C16','Enumerated values use the protocol\'s codes, and unknown codes are refused',
 "Message types, task statuses, source kinds and target event kinds are encoded as and decoded from exactly the numbers the protocol assigns, and any other number is rejected rather than mapped to some value. Task data kinds and build target tags are encoded as and decoded from exactly the protocol's strings, and any other string is kept as a custom value with its text unchanged.",
 ['inputs'],'all members of each enumeration and all other numbers and strings',
 'No test encodes or decodes an enumerated value.',
 [T+'message_type.rs',T+'task/status.rs',T+'task/kind.rs',T+'bt_sources.rs',T+'bt_did_change.rs',T+'bt_tag.rs'],[('serde_repr discriminants','bsp-types/src/message_type.rs and others'),('string tables','bsp-types/src/task/kind.rs, bsp-types/src/bt_tag.rs')])
p('C17','Concurrent senders never corrupt, lose or reorder messages',
 "When several threads send through clones of one connection's sender, over TCP or stdio, the peer receives every message exactly once as an intact frame, and the messages of each thread in the order that thread sent them.",
 ['schedules','histories'],'all interleavings of several sending threads with messages of any size',
 'No test uses more than one thread.',
 [S+'transporter.rs',S+'message.rs'],[('single writer thread behind a channel','bsp-server/src/transporter.rs')])
p('C18','Decoding a message does not depend on the route taken',
 "Decoding the same message from text, from bytes, from a reader or from an already parsed JSON value, and either as a message of any kind or directly as the kind it is, gives the same message or fails on all routes. Extra members such as `jsonrpc`, wherever they stand and whatever they contain, make no difference to any route.",
 ['inputs'],'all message objects and all routes of decoding them',
 'Tests decode each sample by one route only.',
 [S+'request.rs',S+'notification.rs',S+'message.rs'],[('hand-written visitors','bsp-server/src/request.rs, bsp-server/src/notification.rs')])
p('C19','Conversions into messages put each value in its own place',
 "Converting an id paired with a result into a message gives a successful response with that id and exactly that result; converting an id paired with request parameters gives the request of that kind with that id and those parameters; converting notification parameters gives the notification of that kind; and a method name with a value gives the custom request or notification. Converting to a message directly or through the request or notification makes no difference.",
 ['inputs'],'all supported conversions and all ids and values',
 'No test uses a conversion other than from an integer to an id.',
 [S+'request.rs',S+'notification.rs',S+'response.rs'],[('convertible! macros and From impls','bsp-server/src/request.rs, bsp-server/src/notification.rs, bsp-server/src/response.rs')])
p('C20','A message\'s accessors agree with its content',
 "For every request and notification, however obtained, the reported method is the method it is encoded with, the reported id is the id it carries, and the reported parameters are the parameters it is encoded with (null when it has none). Two ids are equal exactly when they are the same integer or the same string; an integer never equals its decimal string.",
 ['inputs'],'all requests, notifications and ids',
 'Tests never call these accessors.',
 [S+'request.rs',S+'notification.rs',S+'request/id.rs'],[('Request::method, id, params; Notification::method','bsp-server/src/request.rs, bsp-server/src/notification.rs'),('RequestId','bsp-server/src/request/id.rs')])
p('C21','The workspace root path is the path the client named',
 "For every absolute file path, an initialize request whose root URI was made from that path reports exactly that path as the workspace root path, including after a round trip over the wire, whatever characters the path contains. For a root URI with a host of its own it reports the path of the URI as written.",
 ['inputs'],'all absolute file paths, including spaces, percent signs, non-ASCII and non-UTF-8 bytes',
 'No test asks for the root path.',
 [T+'initialize_params.rs'],[('InitializeBuild::root_path','bsp-types/src/initialize_params.rs')])
p('C22','A full session answers every request exactly once',
 "When a server built as the documentation shows serves a client over TCP or stdio, any session of requests and notifications between the handshake and shutdown gets exactly one response per request, with that request's id, in request order, a method-not-found error for those the server does not implement, and nothing for notifications. After shutdown and exit both sides join successfully.",
 ['histories','schedules'],'all client sessions, pipelined or lock-step, over both stream transports',
 'No test runs a session.',
 [S+'lib.rs',S+'transporter.rs','README.md'],[('Connection, IoThreads, message conversions together','bsp-server/src/lib.rs')])
p('C23','Requests shaped as the protocol specifies are understood',
 "A request whose method and parameters are shaped as the Build Server Protocol 2.0 specification defines them, with any subset of the optional parameters, is delivered as the typed request of that method with all its parameters, so that the server can answer it.",
 ['inputs'],'all specification-shaped requests of the fourteen methods',
 'Tests decode one initialize request.',
 [S+'request.rs',T+'bt_compile.rs',T+'bt_test.rs',T+'bt_run.rs',T+'bt_dependency_sources.rs'],[('Deserialize for Request','bsp-server/src/request.rs'),('parameter types','bsp-types/src')])
p('C24','Ill-formed messages are never mistaken for well-formed ones',
 "A payload that lacks a mandatory member, or has a member of the wrong type, is rejected rather than completed with invented values. A call or answer with an unusable id, method, outcome or parameters, or a body that is no object, is either rejected or delivered as a request with its own id; it is never delivered as another kind of message.",
 ['inputs'],'all well-formed messages with one mandatory part removed or replaced by a value of another type',
 'Tests contain no ill-formed message.',
 [S+'message.rs',S+'request.rs',S+'notification.rs',S+'response.rs',T+'lib.rs'],[('required fields in serde derives','bsp-types/src'),('missing_field errors, untagged Message','bsp-server/src')])
p('C25','Messages get through without waiting for further traffic',
 "A message that was sent reaches the peer completely without any further message being sent, and a frame whose last byte has arrived is delivered without any further byte arriving, so a strict request-response exchange over TCP or stdio always makes progress, whatever the message sizes.",
 ['schedules','inputs'],'all lock-step exchanges, message sizes around every buffer size, both stream transports',
 'No test exchanges messages over a stream.',
 [S+'message.rs',S+'transporter.rs'],[('flush in Message::write','bsp-server/src/message.rs'),('exact-length body read','bsp-server/src/message.rs')])
p('C26','The two directions of a stream connection are independent',
 "Over TCP or stdio, a peer that does not read what the application sends does not stop the application from receiving what the peer sends, and an application that does not receive does not stop its own messages from reaching the peer. When the stalled side resumes, everything held back arrives intact and in order.",
 ['schedules','histories'],'all stalls of either direction, with message volumes beyond the buffers in between',
 'No test exchanges messages over a stream.',
 [S+'transporter.rs'],[('separate reader and writer threads and channels','bsp-server/src/transporter.rs')])
p('C27','Sends with a limit accept a message whole or hand it back, in time',
 "Over TCP and stdio, a try, timeout or deadline send either accepts the message, which then reaches the peer whole and in its place, or refuses it, in which case nothing of it is ever sent and the message is handed back unchanged. A limited send returns no sooner than its limit when it reports full or timed out, soon after it at the latest, and a past deadline is no error of its own. On a live connection whose peer reads, a generous limit never refuses, and disconnected is never reported.",
 ['histories','schedules','inputs'],'all sequences of the four send operations, limits from past to generous, peers that read, stall or leave, messages of other threads in between',
 'No test sends over a stream, and none uses a limit.',
 [S+'lib.rs',S+'transporter.rs'],[('Connection::send, try_send, send_timeout, send_deadline','bsp-server/src/lib.rs'),('rendezvous channel of the writer','bsp-server/src/transporter.rs')],obs=['results of the sends','bytes on the stream'])
p('C28','Connections of one process do not affect each other',
 "Several connections opened in one process, by connecting or listening, each carry exactly their own messages. A connection whose peer sends junk or half a frame, vanishes, sends exit, stops reading or is not received from, or that is dropped, does not delay, alter, misdirect or end the traffic of the others; and what a stalled one held back is still delivered when it resumes.",
 ['histories','schedules','fault_sequences'],'all interleavings of exchanges and faults on several connections, from one thread or one each',
 'No test opens a connection over a stream, let alone two.',
 [S+'lib.rs',S+'transporter.rs',S+'message.rs'],[('per-connection threads and channels','bsp-server/src/transporter.rs')],obs=['Connection.receiver of each connection','bytes on each socket'])
p('C29','A running connection does not use up memory, threads or files',
 "However many messages pass over a TCP, stdio or in-memory connection, the memory the process keeps afterwards does not grow with their number, as long as the set of method names is bounded; and opening, using and closing connections any number of times leaves no threads, open files or growing memory behind.",
 ['histories'],'all message sets repeated any number of times, all transports, and any number of connections opened and closed one after the other',
 'No test runs long enough, or measures anything.',
 [S+'message.rs',S+'request.rs',S+'notification.rs',S+'transporter.rs',S+'io_thread.rs'],[('names of custom methods','bsp-server/src/message.rs'),('buffers of Message::read','bsp-server/src/message.rs'),('threads and socket handles','bsp-server/src/transporter.rs')],obs=['allocated bytes','/proc/self/task','/proc/self/fd'])
p('C30','Logging does not change what the library does',
 "With a subscriber installed that takes every event and span the library emits and formats all of it, sending, receiving, malformed input, both handshakes, exit, teardown, concurrent senders, sessions and decoding behave exactly as stated for them without one: no panic, no lost, altered or additional message or byte on the stream, whatever the content and size of the messages.",
 ['inputs','histories'],'all messages and histories of the other stream and handshake properties, with full tracing on',
 'The tests install no subscriber, so no log statement is ever formatted.',
 [S+'message.rs',S+'lib.rs',S+'request.rs'],[('tracing::trace! of whole messages','bsp-server/src/message.rs'),('tracing events and spans of the handshakes','bsp-server/src/lib.rs'),('fmt::Debug for Request','bsp-server/src/request.rs')])
p('C31','Interrupted and partial system calls go unnoticed',
 "When signals interrupt the process at any moment, so that its blocking reads and writes return early with part of the data or none, sending, receiving, malformed input, initialize, exit, teardown, concurrent senders and sessions over TCP and stdio behave exactly as stated for them: no message or byte is lost, repeated or altered, and no connection ends.",
 ['schedules','fault_sequences'],'all points at which a system call of the library may be interrupted or return short',
 'No test makes a system call that can be interrupted.',
 [S+'message.rs',S+'transporter.rs'],[('write_all and read loops of Message::write and Message::read','bsp-server/src/message.rs'),('reader and writer threads','bsp-server/src/transporter.rs')])
p('C32','Equal payloads are those with equal content, and copies are faithful',
 "Two values of a comparable payload type are equal exactly when they encode to the same document, in both directions; a copy of a message equals the original in every part and is unaffected by what becomes of the original; and the default of a payload type encodes as the document that sets nothing, and decodes again.",
 ['inputs'],'all pairs of values of every comparable payload type, in particular those differing in a single part, and all messages',
 'Tests compare strings, never values.',
 [T+'lib.rs',S+'message.rs',S+'request.rs'],[('PartialEq, Clone and Default of the payload types','bsp-types/src')])
p('C33','Opening a connection uses the first usable address and reports failure',
 "Connecting to a list of addresses connects to the first of them that accepts, and listening on a list listens on the first that is free; if there is none, or the text is no address, the call returns an error rather than panicking or waiting. Text, an address-port pair and an address mean the same. A listening connection serves exactly its one peer, a further client is not accepted, and after it was taken down the same address can be listened on again.",
 ['inputs','histories'],'all lists of used, free and unusable addresses in every spelling, and sequences of opening and closing',
 'No test opens a TCP connection.',
 [S+'lib.rs',S+'transporter.rs'],[('Connection::connect, listen','bsp-server/src/lib.rs')],obs=['result of the call','which listener or client is served'])
p('C34','A build server answers every operation, implemented or not',
 "Through the build server interface, an operation that an implementation provides is called with exactly the parameters of the request and its result or error is returned unchanged. One that it does not provide answers with an empty result (targets, sources, inverse and dependency sources, resources, reload, shutdown) or an error (dependency modules, debug session, run, compile, test, clean cache), whatever the parameters; it never panics.",
 ['inputs','histories'],'all sequences of requests of the fourteen methods, to implementations that provide any part of the operations',
 'No test implements the interface.',
 [T+'server.rs'],[('default methods of trait BuildServer','bsp-types/src/server.rs')],obs=['return values of the operations','Response at the client'])
p('C35','Applications see the same session whatever the transport',
 "A session between two applications that both use the library, from handshake to exit and teardown, is the same over an in-memory pair, over connect and listen, and over any combination of TCP and stdio however the bytes in between are cut: each side receives the same messages in the same order, its handshakes have the same outcome, and both sides join successfully.",
 ['histories','schedules','inputs'],'all sessions of handshake, sends, receives, echoes, shutdown and exit in a global order, all pairs of transports',
 'Tests only use in-memory pairs.',
 [S+'lib.rs',S+'transporter.rs',S+'message.rs',S+'io_thread.rs'],[('Connection::memory, connect, listen, stdio','bsp-server/src/lib.rs'),('reader and writer threads','bsp-server/src/transporter.rs')],obs=['Connection.receiver of both sides','results of the handshakes and of join'])
p('C36','A message that is passed on stays the same message',
 "Whatever document the library accepts as a message, well-formed or not, sending the message on gives a document that is accepted again, as the same message, and that stays the same however often it is passed on; an application that sends back what it receives over TCP or stdio returns exactly that document.",
 ['inputs'],'all documents that are accepted, in particular those that are unlike what the library itself would write',
 'Tests only decode what the library encodes.',
 [S+'message.rs',S+'request.rs',S+'notification.rs',S+'response.rs'],[('Serialize and Deserialize of Message, Request, Notification, Response','bsp-server/src')])
p('C37','Several receivers share a stream without loss or repetition',
 "When several threads receive through clones of one connection's receiver, by any of the ways a receiver offers and over any transport, each message is received exactly once and unchanged, each thread sees an ascending part of the stream, a thread that stops leaves the rest to the others, and every remaining one sees the end of the stream.",
 ['schedules','histories'],'all numbers and kinds of receivers, streams that end by closing or by exit',
 'Tests receive from one thread.',
 [S+'lib.rs',S+'transporter.rs'],[('Connection.receiver','bsp-server/src/lib.rs'),('reader thread','bsp-server/src/transporter.rs')])
p('C38','A message costs no more than in proportion to its size',
 "The memory (at most and in total) and the processor time that receiving or sending takes grow at most in proportion to the bytes that are actually transferred, whatever the shape of the message: long texts, long or deep lists, many members, many or long header fields, many messages. A frame that declares a large length takes no memory until the bytes arrive.",
 ['inputs'],'all shapes and sizes of messages, and declared lengths up to 2^40',
 'Tests use messages of a few hundred bytes and measure nothing.',
 [S+'message.rs',S+'request.rs',S+'notification.rs'],[('read_msg_text: no allocation by declared size','bsp-server/src/message.rs'),('untagged decoding','bsp-server/src/message.rs')],obs=['bytes allocated','processor time'])
p('C39','Answers find their calls by id: same number or string, nothing else',
 "Request ids work as keys of pending calls however they came about (built, received in a request or a response, custom or not, copied): an entry of a hash or ordered table keyed by RequestId is found by exactly the ids that are the same JSON value, so that 1 is not \"1\" and \"a\" is not \"A\". Equality, hash, ordering (total) and display agree with that: different ids are displayed differently.",
 ['inputs','histories'],'all histories of calls and answers under ids that look alike',
 'Tests compare a few fixed ids.',
 [S+'request/id.rs'],[('RequestId, IdRepr: Eq, Hash, Ord, Display, serde','bsp-server/src/request/id.rs')],obs=['table look-ups','comparison, hash and display of ids'])
p('C40','A slow receiver holds the sender back and loses nothing',
 "Over TCP and stdio, when the application receives nothing the peer is held back, and when the peer reads nothing the application's sends are held back (wait, or time out if limited): the library takes only a bounded number of messages ahead (fewer than 40, besides what the operating system buffers), never all that come. When the slow side goes on, everything accepted arrives once and in order, and nothing that was refused arrives.",
 ['histories','schedules','faults'],'all kinds and sizes of messages, both directions, fill-ups before, between and after partial progress',
 'No test fills a connection up.',
 [S+'transporter.rs',S+'lib.rs'],[('bounded(0) channels','bsp-server/src/transporter.rs')],obs=['number of messages taken ahead','results of sends with a limit','the messages that arrive'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
