import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Framed messages survive any chunking of the byte stream",
 "Every sequence of non-empty message bodies (arbitrary bytes, any length) that is written through the framing writer is read back by the framing reader as exactly the same bodies in the same order, however the transport splits the bytes across reads and in both invalid-data modes. Each written message is on the wire exactly 'Content-Length: <decimal byte count>', CRLF CRLF, then the body bytes and nothing else. At the end of the stream, or after a truncated last frame, the reader yields no message.",
 ["inputs","histories"],"all sequences of byte-string bodies (including header look-alikes, NULs and sizes around internal buffer boundaries) x all partitions of the stream into reads x both invalid-data modes",
 "Existing tests use three fixed ASCII bodies and two chunkings; bodies with binary data, header look-alikes, lengths above 256 or mixed chunk boundaries are never generated.",
 ["src/content_stream.cpp","src/content_stream.h"],
 [("ContentWriter::write","src/content_stream.cpp"),("ContentReader::read / buffer / match","src/content_stream.cpp")],
 [("buf","bytes read ahead but not consumed","src/content_stream.h")],["ContentReader::read","ContentWriter::write"])

p("C02","Ignore mode skips garbage and loses no well-formed message",
 "In the default (ignore) mode, bytes that are not part of a well-formed frame are skipped: every well-formed frame that is separated from its neighbours by garbage which does not itself contain a header prefix is still delivered exactly once and in order, and nothing that was not framed is ever delivered. A header whose length is missing, zero, not representable or not followed by CRLF CRLF yields no message, and reading resumes with the next header in the stream.",
 ["inputs"],"all interleavings of well-formed frames, random garbage, partial header prefixes and malformed headers, under all read chunkings",
 "The only garbage tested is two fixed English phrases; partial prefixes, NUL bytes, overflowing lengths and header fragments are not covered.",
 ["src/content_stream.cpp"],[("ContentReader::scan / match / matchAny","src/content_stream.cpp"),("ContentReader::badHeader","src/content_stream.cpp")],None,["ContentReader::read","Session handlers"])

p("C03","Close mode closes the stream at the first malformed frame header",
 "When a session (or framing reader) is configured to close on invalid data, it delivers exactly the well-formed frames that precede the first byte deviating from strict framing ('Content-Length:', optional blanks, a positive decimal length, CRLF CRLF, body), then closes its underlying reader. No message located after that point is ever delivered, whatever follows.",
 ["inputs"],"all streams made of a valid prefix, one deviation (mutated, inserted, dropped, truncated header byte, zero/overflowing length, extra header line) and an arbitrary continuation, under all chunkings",
 "One HTTP request is tested; the guarantee is a security boundary (browser-originated requests) and must hold for every malformed header.",
 ["src/content_stream.cpp","src/session.cpp","include/dap/session.h"],[("on_invalid_data == kClose branches","src/content_stream.cpp"),("setOnInvalidData / connect","src/session.cpp")],None,["ContentReader::read/isOpen","Session::setOnInvalidData"])

p("C04","No received bytes can crash a session or stop it serving",
 "Whatever bytes a peer sends - malformed or truncated JSON, wrong field types, missing fields, out-of-range numbers, invalid UTF-8, unknown messages, very deep nesting - the session neither crashes, throws, leaks nor corrupts memory, with each of the three JSON back ends. A framed message that is not a dispatchable DAP message is reported to the error handler and invokes no handler, and well-formed messages that follow it are still dispatched.",
 ["inputs"],"all byte strings as message bodies, generated structurally (mutated valid DAP messages) and as raw bytes, for the nlohmann, RapidJSON and JsonCpp builds",
 "Unit tests send only messages produced by the library itself; the shipped fuzzer is built for one back end only, is not run, and has no oracle besides crashing.",
 ["src/session.cpp","src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","include/dap/serialization.h"],
 [("processMessage / processRequest / processEvent / processResponse","src/session.cpp"),("Deserializer type guards","src/*_json_serializer.cpp")],None,["Session::onError","registered handlers"])

p("C05","Every DAP value survives a JSON encode/decode round trip",
 "For each JSON back end, serializing any DAP value (boolean, any 64-bit integer, any finite number, any valid UTF-8 string including NUL and control characters, null, arrays, objects with arbitrary keys, structs, derived structs, optionals, variants, nested to any reasonable depth) yields a valid JSON document denoting that value, and deserializing that document yields an equal value: integers and numbers are exact and keep their kind, strings keep every byte. Strings that are not valid UTF-8 and non-finite numbers never abort the process and still yield a complete, syntactically valid document.",
 ["inputs"],"all values of the DAP type system (generated recursively with boundary-biased scalars) x three back ends",
 "Tests round-trip a handful of small constants (no 64-bit any, no NULs, no extreme doubles, no invalid UTF-8).",
 ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","include/dap/serialization.h","include/dap/typeof.h"],
 [("Serializer::serialize overloads / dump","src/*_json_serializer.cpp"),("Deserializer::deserialize overloads","src/*_json_serializer.cpp"),("struct field tables","include/dap/typeof.h")],None,["json::Serializer","json::Deserializer"])

p("C06","The three JSON back ends are interchangeable on the wire",
 "For every DAP value, the document written by any one back end is read by each of the other back ends as that same value. For every well-formed JSON document whose numbers fit the DAP types, all back ends give the same accept/reject verdict when decoding it to a given DAP type, and the same decoded value.",
 ["inputs","configurations"],"all ordered pairs of back ends x all generated values and JSON documents (free formatting, escapes, exponents, unicode) x a set of target types",
 "Each back end is only ever tested against itself with the same few constants.",
 ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp"],
 [("three implementations of the Serializer/Deserializer interfaces","src/*_json_serializer.cpp")],None,["json::Serializer::dump","json::Deserializer::deserialize"])

p("C07","Typed decoding rejects mismatches and leaves absent optionals unset",
 "Decoding a JSON document to a struct succeeds exactly when every required field is present with a value of its declared type; a missing or wrongly-typed required field (at any nesting depth) makes the decode fail. An optional field that is absent or whose value cannot be decoded is left without a value and never makes the decode fail, a present and well-typed optional is set, unknown extra fields are ignored, and field order is irrelevant.",
 ["inputs"],"all documents derived from a valid one by dropping, retyping, reordering, nulling or adding fields at any depth, for structs covering every field kind x three back ends",
 "No test decodes a document with a missing, extra or wrongly-typed field.",
 ["include/dap/serialization.h","include/dap/typeof.h","src/null_json_serializer.h","src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp"],
 [("Deserializer::field / deserialize(optional) / deserialize(array)","include/dap/serialization.h"),("NullDeserializer","src/null_json_serializer.h"),("deserializeFields","include/dap/typeof.h")],None,["json::Deserializer::deserialize return value and decoded struct"])

p("C08","Protocol structs map every field to its DAP wire name",
 "Every DAP request, response, event and type struct is encoded as a JSON object that has, for each field holding a value, exactly the field's DAP-specified key with that field's value (and no key for an optional without a value), and decoding such an object sets exactly the same fields. Every request and event is sent and dispatched under its DAP-specified command or event name.",
 ["inputs","configurations"],"all 170+ protocol structs x all combinations of present/absent optionals x generated field values",
 "Tests exercise one protocol struct (setBreakpoints) with one field; the hundreds of hand-maintained field-table entries are otherwise unchecked.",
 ["src/protocol_types.cpp","src/protocol_requests.cpp","src/protocol_response.cpp","src/protocol_events.cpp","include/dap/protocol.h"],
 [("DAP_IMPLEMENT_STRUCT_TYPEINFO tables","src/protocol_*.cpp"),("DAP_OFFSETOF / DAP_FIELD","include/dap/typeof.h")],None,["JSON produced by json::Serializer","TypeInfo::name"])

p("C09","Each request's future receives exactly its own response",
 "For any number of outstanding requests sent from any number of threads, each returned future becomes ready with precisely the response body or error message that the peer sent for that request's sequence number, whatever the order in which responses arrive. Duplicate responses, responses with unknown sequence numbers, events and malformed messages interleaved with them never complete, alter or lose another request's result.",
 ["schedules","histories"],"all interleavings of sender threads, receiver thread and peer x all permutations of response order, errors, duplicates and stray messages",
 "Tests await one request at a time with an in-order peer; cross-talk needs several outstanding requests, reordering, or a specific interleaving of registration and arrival.",
 ["src/session.cpp","include/dap/session.h","include/dap/future.h"],[("response handler map keyed by seq, registered before sending","src/session.cpp"),("nextSeq","src/session.cpp"),("processResponse","src/session.cpp")],
 [("responseMap","outstanding requests by sequence number","src/session.cpp")],["future::get of Session::send"])

p("C10","Incoming requests and events are dispatched once, in order, intact",
 "Every well-formed request or event with a registered handler is passed to that handler exactly once with exactly the transmitted field values (absent arguments or an absent body counting as an empty object), handlers run one at a time in the order the messages arrived, and messages without a handler or that fail to decode invoke no handler and do not disturb the others. This holds in the threaded mode and when the application pulls payloads itself, including for messages received just before the peer closes an orderly stream, and whether or not the writer is still open.",
 ["schedules","histories","inputs"],"all message sequences (requests, events, responses, invalid ones) x all interleavings of receive thread, dispatch thread and registration",
 "Tests send one message and compare it; ordering, duplication, loss under load and mixed traffic are not observed (the concurrency test counts events without checking them).",
 ["src/session.cpp","src/chan.h"],[("recv thread -> inbox -> dispatch thread","src/session.cpp"),("Chan FIFO","src/chan.h"),("getPayload","src/session.cpp")],
 [("inbox","received but undispatched payloads","src/session.cpp")],["registered handlers"])

p("C11","Concurrent sends put whole, uniquely numbered messages on the wire",
 "However many threads send requests, events and responses concurrently, the outgoing byte stream is a concatenation of complete frames, one per successful send, whose contents are exactly the sent messages; messages sent by one thread appear in the order it sent them. Across a session every outgoing message carries a distinct sequence number, numbered consecutively from 1.",
 ["schedules"],"all interleavings of concurrent senders (requests, events, responses from the dispatch thread and from asynchronous callbacks) at the granularity of memory accesses",
 "One stress test counts events under the OS scheduler and never looks at the wire, the sequence numbers or the order.",
 ["src/session.cpp","src/content_stream.cpp"],[("sendMutex","src/session.cpp"),("atomic nextSeq","src/session.cpp"),("ContentWriter::write","src/content_stream.cpp")],
 [("nextSeq","next outgoing sequence number","src/session.cpp")],["bytes written to the bound Writer"])

p("C12","Every handled request is answered exactly once and faithfully",
 "For each dispatched request, when its handler completes - by returning a response, an Error or a response-or-error, or by invoking its callback during or after the call and on any thread - exactly one response is written carrying the request's sequence number and command, success flag and the handler's body or full error message. A registered response-sent handler is then invoked exactly once with that same result, after the response has been handed to the transport.",
 ["inputs","schedules","histories"],"all handler styles x success/error results x payload values x completion orders and threads",
 "Tests check one response per style with fixed payloads; long error messages, wire-level correlation fields, and sent-handler ordering are unchecked.",
 ["src/session.cpp","include/dap/session.h"],[("processRequest onSuccess/onError closures","src/session.cpp"),("registerHandler template adapters","include/dap/session.h"),("responseSent map","src/session.cpp")],None,["bytes on the wire","registerSentHandler callbacks"])

p("C13","The close callback fires exactly once when the endpoint closes",
 "A session that is processing messages invokes its close callback exactly once after its connection ends - because the peer closed, the local side closed the stream, the stream reached end of input, or the session is being destroyed - over in-memory pipes, TCP and any custom reader, and never while the connection is still open. After that the session performs no further reads and does not spin.",
 ["schedules","fault_sequences"],"all points at which the connection can end (idle, mid-header, mid-body, after a complete message) x who ends it x transport kind x interleavings",
 "Tests cover only an idle in-memory pipe closed by the peer session's destruction.",
 ["src/session.cpp","src/content_stream.cpp","src/socket.cpp","src/io.cpp"],[("recvThread loop on reader.isOpen()","src/session.cpp"),("onClose","src/session.cpp")],None,["ClosedHandler"])

p("C14","A session can be destroyed at any moment without hanging or late calls",
 "Destroying a bound session at any point - while messages are arriving, handlers (that themselves return) are running, or the peer is being destroyed at the same time - always terminates, closes its streams so that the peer observes the close, and no handler, error or close callback of that session runs after destruction has returned. All memory held for received but undelivered messages is released and no data race or use of freed memory occurs.",
 ["schedules"],"all interleavings of destruction with receive, dispatch, handler execution, asynchronous completion and peer destruction",
 "Tests destroy sessions only when idle or after a fixed stress run under the OS scheduler, with no leak, race or late-callback detection.",
 ["src/session.cpp","src/chan.h","src/io.cpp"],[("~Impl close/join sequence","src/session.cpp"),("Chan::close","src/chan.h"),("Pipe::close","src/io.cpp")],None,["Session destructor","handlers"])

p("C15","Sends that cannot be delivered fail promptly instead of hanging",
 "When the session is unbound, its stream is closed, or the transport rejects any of the writes of a message, sending a request returns a future that becomes ready with an error, and sending an event or response returns without blocking or crashing. A send on an unbound or closed session is reported to the error handler; a later failing send never affects requests already answered.",
 ["fault_sequences","schedules"],"all positions of the first failing or refused write within a message history x failure kind (closed, write returns false) x concurrent senders",
 "Tests cover only the never-bound session.",
 ["src/session.cpp","include/dap/session.h"],[("send(const std::string&) open check","src/session.cpp"),("promise.set_value on failed send","include/dap/session.h")],None,["future of Session::send","onError"])

p("C16","API misuse and protocol errors are reported and have no other effect",
 "Connecting or starting a session twice, registering a second handler for the same request, event or response type, and receiving a message with a missing or unknown type, command, event or sequence number each invoke the currently registered error handler and otherwise change nothing: the first binding and first handler stay in force and later traffic is unaffected. Only the most recently registered error handler is called, and no protocol error is reported for valid traffic.",
 ["histories","schedules"],"all histories mixing registration, binding, error-handler replacement and incoming valid/invalid messages",
 "Tests assert only that an error was raised when sending unbound.",
 ["src/session.cpp"],[("isBound / isProcessingMessages","src/session.cpp"),("EventHandlers::put / error","src/session.cpp")],None,["onError","registered handlers"])

p("C17","any and variant are exact value types under every history",
 "After any sequence of construction, copy, move, assignment (including self-assignment and assignment from a part of itself), retyping and reset of any and variant objects holding small or large DAP values, each object holds exactly the type and value an ordinary value semantics would give it, type queries answer true for exactly the held type, and distinct objects never share state. Every held value is constructed and destroyed exactly once: no leak, double destruction, or access to freed memory.",
 ["histories"],"all operation sequences over a pool of any/variant objects with values of every size class and alignment (in-place and heap)",
 "Tests perform one or two operations on fresh objects; moved-from reuse, self-assignment and heap/in-place transitions need longer histories.",
 ["include/dap/any.h","include/dap/variant.h","include/dap/typeof.h"],[("any alloc/free/reset/copy/move","include/dap/any.h"),("TypeInfo construct/copyConstruct/destruct","include/dap/typeof.h")],
 [("value/heap/buffer","storage of the contained value","include/dap/any.h")],["any::is/get","variant::is/get"])

p("C18","optional behaves as an optional value under every history",
 "After any sequence of construction, copy, move, assignment and value access of optionals, each optional has a value exactly when the reference semantics says so, with exactly that value; value-or-default, boolean test and the six comparison operators (same and mixed types) agree with 'empty is less than any value' ordering. Assigning an empty optional empties the target.",
 ["histories","inputs"],"all operation sequences over a pool of optionals of several element types, and all pairs for comparisons",
 "Tests check single operations with fixed constants and a few comparison pairs.",
 ["include/dap/optional.h"],[("optional members and comparison operators","include/dap/optional.h")],None,["optional public API"])

p("C19","A promised value reaches every waiter under every schedule",
 "For every interleaving of setting a promise's value with any number of waiting, timed-waiting and getting threads, every get and wait returns, get yields exactly the value that was set, and a timed wait reports ready if and only if the value was set before its deadline decision. Futures and promises may outlive each other.",
 ["schedules"],"all interleavings at memory-access granularity of one setter and several waiters (get, wait, wait_for, wait_until), including spurious wakeups",
 "The type has no unit test of its own; lost wakeups need specific interleavings.",
 ["include/dap/future.h"],[("promise_state mutex/cv/hasVal","include/dap/future.h")],None,["future::get/wait/wait_for/wait_until/valid"])

p("C20","The internal message queue is FIFO, lossless and wakes every taker",
 "For any number of concurrent producers and consumers, every item put into the queue is taken exactly once, items of one producer are taken in the order it put them, and a taker blocks only while the queue is empty and open. Closing the queue wakes all takers, items put before the close are still delivered, then takers receive 'no value'; resetting makes the queue empty and open again.",
 ["schedules","histories"],"all interleavings of put/take/close/reset by several threads, including spurious wakeups",
 "The one test has a single producer and consumer under the OS scheduler.",
 ["src/chan.h"],[("mutex/cv/queue/closed","src/chan.h")],None,["Chan::put/take/close/reset"])

p("C21","The reader/writer lock excludes writers and never loses a wakeup",
 "Under every schedule a writer lock is held by at most one thread and never together with a reader lock, any number of readers may hold the lock together, data written under the lock is visible to later holders, and when locks are released every thread waiting for the lock eventually proceeds. Scoped lock objects release what they hold exactly once, also after being moved or move-assigned.",
 ["schedules","histories"],"all interleavings of several readers and writers (raw and scoped, moved) at memory-access granularity, including spurious wakeups",
 "Tests run fixed thread mixes under the OS scheduler; exclusion failures and lost wakeups need particular interleavings; move assignment is never tested.",
 ["src/rwmutex.h"],[("readLocks/pendingWriteLocks/mutex/cv","src/rwmutex.h"),("RLock/WLock","src/rwmutex.h")],None,["RWMutex, RLock, WLock"])

p("C22","An in-memory pipe is a lossless byte stream until closed",
 "Bytes written to a pipe are read in exactly the written order with none lost, duplicated or altered, for every split into writes and reads and every interleaving of writer and reader threads; a read blocks only while there is nothing to read and the pipe is open. Closing from either side makes the pipe not open, wakes every blocked reader (which returns the bytes it has already got), and makes every later write fail and every later read return no data.",
 ["schedules","histories"],"all splits into write/read sizes x all interleavings of writers, readers and close, including spurious wakeups",
 "Pipes are only used indirectly by the session tests; they have no test of their own.",
 ["src/io.cpp","include/dap/io.h"],[("Pipe","src/io.cpp")],[("data/closed","buffered bytes and closed flag","src/io.cpp")],["ReaderWriter returned by pipe()"])

p("C23","File, spy, composite and formatted streams pass bytes through unchanged",
 "A file stream writes exactly the given bytes in order, reporting success only if the file took them, and reads back exactly the file's bytes, closing the underlying file once if and only if it is closable, even when several threads close it, and after being closed its reads return nothing and its writes fail. A spy returns and forwards exactly what the wrapped stream does while copying each successful transfer to the spy writer after the prefix; a composite stream delegates to its two halves, is open only while both are, and closes both; formatted writes emit exactly the printf-formatted text whatever its length.",
 ["inputs","histories","fault_sequences"],"all sequences of reads, writes and closes with generated sizes and injected short or failing transfers in the wrapped streams",
 "None of these stream wrappers has a unit test.",
 ["src/io.cpp","include/dap/io.h"],[("File / RW / ReaderSpy / WriterSpy / writef","src/io.cpp")],None,["Reader/Writer returned by file(), spy(), ReaderWriter::create(), writef()"])

p("C24","TCP streams deliver every byte and report failure without killing the process",
 "Bytes written to one end of a TCP connection arrive at the other end complete and in order, for every message size and write pattern in both directions, even if the operating system accepts a write only partially or interrupts a call; a write reports success only if all its bytes were accepted. Writing to a connection whose peer has gone returns false without terminating the process, and closing a connection (from any thread, or by the peer) makes blocked and later reads return nothing, later writes fail, and releases its file descriptor. A connection that the peer has reset reports that it is not open.",
 ["inputs","fault_sequences","schedules"],"all write/read size patterns, injected short writes/reads and EINTR at any call, peer close/reset at any point, concurrent close",
 "Tests send 12 bytes once; partial sends, signals, peer resets, descriptor leaks and large transfers never occur.",
 ["src/socket.cpp","src/network.cpp","src/rwmutex.h"],[("Socket::Shared read/write/close/isOpen","src/socket.cpp")],None,["ReaderWriter from net::connect / Server callbacks"])

p("C25","A TCP server serves every connection between start and stop",
 "For every sequence of start, connect, stop and restart, a started server invokes its connection callback exactly once per client connection with a stream connected to that client, and once stop (or destruction) has returned no callback runs any more, the port can be bound again, and no descriptor or thread is left behind. Starting on an unusable address or occupied port returns false and reports an error without hanging, and stop called from outside the server's own callbacks always returns. A server that can no longer accept connections reports that once through its error callback, which an ordinary stop does not invoke, and can be stopped and started again; a port number outside 0 to 65535 is refused.",
 ["histories","schedules"],"all histories of start/stop/connect/restart/destroy on one or two servers, with clients connecting at any time relative to stop",
 "Tests connect sequentially to one server and restart it once; occupied ports, races of stop with connects and callback counts are unchecked.",
 ["src/network.cpp","src/socket.cpp"],[("accept thread / stopWithLock","src/network.cpp"),("Socket constructor/accept/close","src/socket.cpp")],None,["net::Server::start/stop, OnConnect/OnError"])

p("C26","Connecting succeeds iff a listener accepts, and respects its timeout",
 "Connecting to a listening port yields an open, blocking-mode stream to that listener; connecting to a port nobody listens on, to an unresolvable address, or with a port number outside 0 to 65535, yields no stream. This holds even if system calls are interrupted by signals. With a non-zero timeout the call never gives up on an unresponsive listener before that timeout has elapsed and returns once it has, for every timeout value and any number of descriptors already open.",
 ["inputs","configurations","fault_sequences"],"all timeout values (including large ones), listener states (listening, saturated backlog, absent, closing) and descriptor numbers",
 "One test uses a single 200 ms timeout with few open descriptors.",
 ["src/socket.cpp","src/network.cpp"],[("Socket::connect non-blocking connect + wait","src/socket.cpp"),("setBlocking","src/socket.cpp")],None,["net::connect"])

p("C27","Type information stays valid, stable and unique for the library's lifetime",
 "For every balanced history of library initialize/terminate calls (no initialize after the first terminate), and for values held in global state between them, type descriptors remain usable: each DAP type has exactly one descriptor no matter which thread or how many threads first ask for it, it never changes, and its name, size, alignment, construction, copy and destruction match the type. Descriptors are released only after the last terminate or at exit, and nothing is leaked or used after release.",
 ["histories","schedules"],"all interleavings and nestings of initialize/terminate and first-use of descriptors from several threads, including static-destruction-time use",
 "Tests call initialize/terminate in balanced pairs without using any type afterwards, and never from static destructors.",
 ["src/typeof.cpp","include/dap/typeof.h","include/dap/dap.h"],[("TypeInfos reference count","src/typeof.cpp"),("TypeInfo::create / deleteOnExit","include/dap/typeinfo.h")],[("refcount","outstanding initialize calls + static instance","src/typeof.cpp")],["TypeOf<T>::type()","dap::initialize/terminate"])

p("C28","A serializer stores the last value written to it",
 "When several values are written one after another to the same serializer, or to the same field of an object being serialized, the resulting document denotes exactly the last value written - whatever the kinds and sizes of the earlier values - and removing a field leaves the document without that field and with all other fields intact. This holds for each JSON back end.",
 ["histories","inputs"],"all sequences of writes of arbitrary values to one serializer or object field, ending with a write or removal, x three back ends",
 "Every test serializes exactly one value per serializer.",
 ["include/dap/serialization.h","src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp"],
 [("Serializer::serialize/array/object/remove","src/*_json_serializer.cpp")],None,["json::Serializer::dump"])

p("C29","The protocol generator emits code matching any DAP schema",
 "For every schema in the DAP schema dialect (object and string-enumeration definitions, allOf with one base, references, arrays, type lists, oneOf; message bodies that are objects or references to plain objects; property names that are identifiers up to surrounding underscores, or `default`), the protocol generator succeeds and the emitted C++ compiles against the library, declares one struct per definition reachable from a request, response or event through properties, array items and bases, in dependency order, with every schema property as a field of the mapped type (optional unless required; a required closed enumeration starts as its first value) and under its schema name on the wire, and with each request and event bound to its schema command or event name and each request to its response type; the fuzzer request list and dictionary cover every request and every name, and the output depends only on the schema content, not on the order of its keys",
 ["programs","inputs"],"all generated schemas (definitions, references, enums, arrays, unions, required sets, reserved names)",
 "The generator has no test at all and is run by hand against one schema.",
 ["tools/protocol_gen/protocol_gen.go"],[("buildTypes / buildRootStruct / getType / emitFiles","tools/protocol_gen/protocol_gen.go")],None,["generated protocol.h / protocol_*.cpp / fuzz.h / dictionary.txt"])
p("C30","A value or message is encoded completely or not at all",
 "Serializing a value reports success exactly if every part of it - at any depth of structs, base structs, arrays, objects, optionals, variants and anys - was serialized; a custom type whose own serialization fails makes the whole fail, on each JSON back end, and success means that the document denotes the whole value. A session never transmits such a message in part: a request that cannot be serialized yields a future with an error, an event is not sent, and a response is replaced by exactly one error response to the same request (which the response-sent handler is told); all other messages and futures are unaffected.",
 ["inputs","schedules"],"all values with any number of unencodable parts at any place and depth, x three back ends; all mixes of encodable and unencodable requests, events and responses sent by several threads",
 "No test has a value that fails to serialize.",
 ["include/dap/serialization.h","include/dap/typeof.h","src/session.cpp","src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp"],
 [("serializeFields","include/dap/typeof.h"),("Serializer::serialize/array/object","src/*_json_serializer.cpp"),("send / processRequest","src/session.cpp")],None,["TypeInfo::serialize","Session::send"])
p("C31","Handlers can use the session that calls them",
 "From within a request, event, response-sent or response handler, or a close callback, the application may send events and requests on the same session, wait for the answers of those requests (except in response handlers and close callbacks), complete requests received earlier, register further handlers and replace the error handler. Such calls take effect as they do outside a handler, no schedule of them, of other threads and of the peer's messages leads to a deadlock, and the messages received meanwhile are dispatched afterwards, each once and in order.",
 ["schedules","histories"],"all programs of such calls in handlers of any kind, nested through response handlers, x all schedules of the session's threads, the application's threads and a peer answering in any order",
 "Tests never call a session from its own handlers, except for one event sent from a sent handler.",
 ["src/session.cpp"],[("receive thread / dispatch thread","src/session.cpp"),("handlers maps and their locks","src/session.cpp"),("processResponse","src/session.cpp")],None,["Session::send, registerHandler, onError called from a handler"])
p("C32","Errors, responses-or-errors and basic types carry their values",
 "An Error made from a format string has exactly the printf-formatted text, one made from a string has exactly that string, of any length and with any bytes, and converts to true exactly if its message is not empty. A response-or-error has the response or error that it was made from, under every history of construction, copying, moving and (self-)assignment, and an error with no response or vice versa is empty in the other part. Integers, numbers and booleans default to zero and keep every value of their range.",
 ["inputs","histories"],"all format strings, arguments and texts; all histories of constructions, copies, moves and assignments; all 64-bit integers and doubles",
 "Tests use one short error message.",
 ["src/session.cpp","include/dap/session.h","include/dap/types.h"],[("Error::Error","src/session.cpp"),("ResponseOrError","include/dap/session.h")],None,["Error::message, ResponseOrError::response/error"])
p("C33","Sessions of one process do not affect each other",
 "A session behaves as if it were the only one, whatever other sessions of the process do at the same time or did before: its sequence numbers start at 1, only its own handlers, error handler, response-sent handlers and close callback are called for its traffic, its requests are completed only by responses that it received, and its invalid-data mode is its own. Destroying a session, closing its streams, a peer of it that does not read, or a handler of it that does not return leaves all other sessions working.",
 ["schedules","histories"],"all programs of sends, received messages, invalid data, destructions and re-creations on several sessions at once, with any set of registered handlers each, x all schedules of their threads",
 "Tests have at most a client and a server session that talk to each other, one exchange at a time.",
 ["src/session.cpp","src/content_stream.cpp"],[("Impl members, EventHandlers","src/session.cpp"),("ContentReader / ContentWriter","src/content_stream.cpp")],None,["bytes sent, handler calls, futures of each session"])
p("C34","A DAP client and server work end to end over TCP",
 "For any number of clients connected to a server, with a session at both ends of every connection: every request of either side completes with precisely the response or error that its handler at the other end gave, every event arrives once, and what a sender sent in one order is handled in that order, for all message sizes and whatever the network does (partial transfers, interrupted calls, full buffers). Stopping or destroying the server leaves the accepted connections working. However a connection ends - either session is destroyed, or either stream is closed - both ends get their close callback exactly once, what was sent before an orderly end still arrives, and no descriptor is left behind.",
 ["schedules","histories","fault_sequences"],"all programs of events, requests and requests back on several connections at once, x endings x network faults x schedules of all threads of both ends",
 "Tests of sessions use in-memory pipes, tests of the network exchange 12 bytes without a session; the two are never combined.",
 ["src/session.cpp","src/socket.cpp","src/network.cpp","src/content_stream.cpp"],[("Session bind / send / dispatch","src/session.cpp"),("accept thread, connect","src/network.cpp"),("Socket::Shared read/write/close","src/socket.cpp")],None,["net::Server, net::connect, Session::bind/send"])
p("C35","getPayload() yields each message, and a payload acts when it is called",
 "After connect(), each getPayload() call waits for the next message and returns a payload for it - also for responses and for messages that no handler gets - and an empty function only once the connection has been closed or lost, immediately and every time from then on (and before connect()). A payload calls the handler and sends the response when it is called, on whichever thread and in whichever order, also for several payloads at the same time; a payload that is not called has no effect, and no message takes effect before getPayload() returned it. Responses complete their futures, and unknown or malformed messages are reported, as they are with bind().",
 ["inputs","histories","schedules"],"all message sequences x all uses of the payloads (at once, later in any order, on other threads, never) x endings x schedules",
 "One test pulls one request and one response.",
 ["src/session.cpp","include/dap/session.h","src/content_stream.cpp"],[("getPayload / processMessage","src/session.cpp")],None,["Session::connect, Session::getPayload"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
