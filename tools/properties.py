import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
C,H,T,S,J,JR,B,R,D,O="bomba_core.hpp","bomba_http.hpp","bomba_tcp_server.hpp","bomba_sync_client.hpp","bomba_json.hpp","bomba_json_rpc.hpp","bomba_binary_protocol.hpp","bomba_rpc_object.hpp","bomba_download_server.hpp","bomba_object.hpp"

p("R01","A JSON-RPC call over the network equals a local call",
  "A call made on a remote object through the JSON-RPC client over a working connection runs the named method exactly once on the server, with exactly the arguments the caller passed (integers, floating-point numbers, booleans, text, lists, arrays, maps, optional values, pointers and nested objects, also of methods in nested groups), and returns exactly the value the method returned. This holds however the network splits, merges, delays or throttles the bytes and however large the message is. With several clients at once, the results are those of executing the calls one at a time in some order that respects each client's own order.",
  ["schedules","inputs","histories"],"every sequence of calls and argument values, every segmentation, delay and back-pressure of both directions, every interleaving of up to four clients and the server thread",
  "The unit tests feed whole messages to the protocol objects in one piece, with two or three fixed argument values; no test runs a client against a server over a byte stream, so segmentation, large messages and several clients are never reached.",
  [R,JR,J,H,S,T],[("argument and result serialisation",R),("request/response objects",JR),("length-delimited framing and incremental parsing",H),("receive buffer management",T),("receive loop",S)],
  ["value returned by the call","calls logged by the server object"])
p("R02","A binary-protocol call over the network equals a local call",
  "A call made on a remote object through the binary-protocol client over a working connection, whose message fits the protocol's length field, runs the named method exactly once on the server with exactly the arguments the caller passed and returns exactly the value the method returned. This holds however the network splits, merges, delays or throttles the bytes, and with several clients at once the results are those of executing the calls one at a time in some order that respects each client's own order.",
  ["schedules","inputs","histories"],"every sequence of calls and argument values (integers of every width, floating-point numbers, booleans, text, lists, optionals, nested objects, nested method groups), every segmentation, delay and back-pressure, every interleaving of up to four clients and the server thread",
  "The unit tests check a handful of fixed messages delivered whole to the protocol objects; no test connects the binary client to the binary server, and none splits a message.",
  [R,B,S,T],[("binary reader and writer",B),("length-prefixed framing, client and server",B),("receive loop",S),("receive buffer management",T)],
  ["value returned by the call","calls logged by the server object"])
p("R03","Form posts and query-string requests run the named method once, as sent",
  "A form post or a GET request with a query string that names an existing method runs that method exactly once with the arguments as the sender encoded them, whatever characters they contain and in whatever order they come, and a request that names no method runs nothing. The answer to a query-string request is the file if one exists at the path and otherwise the method's result; the answer to a form post tells success, and a request that matches nothing is answered with an error status. This holds for any segmentation of the connection and any number of requests on it.",
  ["inputs","schedules","histories"],"every sequence of form and query requests over text and number arguments with arbitrary percent-encoded characters, every segmentation and interleaving of connections",
  "The unit tests decode a few fixed strings and run one request per session in one piece; they do not vary characters, order, request sequences or segmentation.",
  [H,R,T],[("percent decoding","demangleHttpResponse in bomba_http.hpp"),("form reader","HtmlMessageEncoding in bomba_http.hpp"),("method lookup by path","PathWithSeparator in bomba_core.hpp"),("query/file dispatch","DownloadIfFilePresent in bomba_http.hpp")],
  ["response bytes","calls logged by the server object"])
p("R04","Updating a stored object from received data changes exactly what was sent",
  "Reading received JSON or binary data into an object that already has a value changes exactly what the data says: with JSON, members that are present are updated, members that are absent (or unknown) change nothing else, elements of lists and entries of maps that are present already are updated in place, lists end with the length and maps with the keys received, and null empties an optional value or pointer. Data written by the library itself, in either format, makes any object, whatever it held before, equal to the one that was written, and an update whose end is missing is refused. This holds for every sequence of updates of an object and of its mirrors, over any segmentation of the connection and with several clients.",
  ["histories","inputs","schedules"],"every history of partial and complete updates and readings of an object with lists, arrays, maps, optional values, pointers, nested objects and numbers of every width by up to three clients, every segmentation",
  "The unit tests read each format once into a fresh object; none updates an object that has contents, and none does so repeatedly.",
  [C,O,J,B,T],[("reading of containers and optional values",C),("member lookup",O),("readers",J+", "+B)],
  ["value of the object after each update","text written"])
p("R05","Methods called through HttpClient run once on the server, as called",
  "A call of a method made on a remote object whose responder is the HTTP client, served by a form post responder, runs exactly that method (also one in nested objects) exactly once on the server with exactly the arguments the caller passed (text with any characters, numbers, booleans, absent optional values), and a method that throws on the server makes the call throw. If the server's responder answers with results, each call returns the result of its own method. This holds for synchronous and asynchronous calls, for any segmentation, and with several clients.",
  ["inputs","schedules","histories"],"every sequence of synchronous and asynchronous calls by up to three clients with text, number, boolean and optional arguments, over every shape of method tree, every segmentation and delay",
  "The unit tests compare one request text with a fixed one; no client calls a server.",
  [H,R,S,C],[("form writer and reader","HtmlMessageEncoding in bomba_http.hpp"),("path of the method","HttpClient in bomba_http.hpp, PathWithSeparator in bomba_core.hpp"),("form post responder","HtmlPostResponder in bomba_http.hpp")],
  ["outcome of each call","calls logged by the server object"])
p("J01","Each JSON-RPC request with an id gets exactly one matching response",
  "For every well-formed JSON-RPC request with named parameters, alone or in a batch, with its members in any order and with any legal whitespace, the server runs the named method exactly once if it exists and never otherwise, and answers with exactly one response carrying the same id and either the method's result or an error object; a request without an id runs the method and yields no response. In a batch the responses match the requests one to one, and a request that fails (unknown method, method that throws) does not affect the others.",
  ["inputs","histories","schedules"],"every batch of up to eight requests over valid, unknown, throwing, void and notification requests, every member order, id type and whitespace, every segmentation",
  "The unit tests check about ten fixed request texts, always delivered whole; they do not cover every member order combined with failures, batches with failing members, or several requests on one connection.",
  [JR,J,C],[("request interpretation independent of member order","respondInternal in bomba_json_rpc.hpp"),("batch handling","post in bomba_json_rpc.hpp"),("position store/restore",J)],
  ["response bytes","calls logged by the server object"])
p("M01","HTTP/JSON-RPC clients give every request its own response",
  "When several JSON-RPC calls or plain HTTP requests are in flight on one client, each result obtained is the response to the request it was asked for, in whatever order the results are collected and however the response bytes are split, merged or delayed. No response is lost, repeated or given to another request, also when some responses have no body.",
  ["schedules","histories","inputs"],"every number of outstanding requests up to twelve, every collection order, every segmentation and delay of the response stream",
  "The unit tests replace the network with a fixture that returns one whole response at a time; two responses arriving in one read, a response split over reads, or out-of-order collection over the real client never happen.",
  [H,S,JR],[("response queue for not yet collected responses",S),("sequence-number matching","HttpClient::getResponse in bomba_http.hpp")],
  ["value of each future","body passed to each response callback"])
p("M02","Binary client gives every call its own response, even answered out of order",
  "When several binary-protocol calls are in flight on one client, each result obtained is the response to that call, in whatever order the results are collected, in whatever order the server sends them, and however the response bytes are split, merged or delayed. No response is lost, repeated or given to another call.",
  ["schedules","histories","inputs"],"every number of outstanding calls up to twelve, every collection order, every order of responses on the wire, every segmentation and delay",
  "The unit tests use a fixture with one whole response per read; out-of-order responses over the real client's stream handling never happen.",
  [B,S],[("message identifiers","getResponseReader in bomba_binary_protocol.hpp"),("response queue for not yet collected responses",S)],
  ["value of each future"])
p("M03","Readiness polling never blocks, never loses a response and tells the truth",
  "Asking an outstanding asynchronous call whether its result is ready returns without waiting for the network, says yes only when the result can then be collected without waiting, and says yes within a bounded time after the complete response has arrived. Asking, however often and in whatever mix with collecting results, never consumes, duplicates or alters any response.",
  ["schedules","histories"],"every mix of polling and collecting over up to eight outstanding calls, every arrival schedule and segmentation, for the JSON-RPC and the binary client",
  "The unit tests poll against a fixture whose response is either absent or complete; a partly arrived response, polling of a later call first, and collecting after polling over a real stream are not covered.",
  [S,H,B,R],[("non-blocking search","tryToGetResponse in bomba_sync_client.hpp"),("readiness query","hasResponse in bomba_http.hpp, bomba_binary_protocol.hpp"),("future object",R)],
  ["return value and blocking of the readiness query"])
p("S01","HTTP server answers a request stream independently of how it is split",
  "The bytes a connection receives from the HTTP server are exactly the concatenation, in order, of the responses its requests would get if each were sent alone on its own connection, however the request bytes are split or merged by the network, however many requests are pipelined and however large they are. A request that asks for the connection to be closed is the last one answered, and then the connection is closed; otherwise the connection stays open.",
  ["schedules","inputs","histories"],"every sequence of up to a dozen valid GET, POST and unsupported-method requests with headers in any order and bodies up to tens of kilobytes, every segmentation, with and without connection close",
  "The unit tests split one short request at a few positions into the parser; the buffer that carries leftovers between reads, pipelining and large messages over a connection are not exercised.",
  [H,T],[("incremental header parsing and per-request state","HttpParseState in bomba_http.hpp"),("leftover handling across reads","TcpServerBuffer in bomba_tcp_server.hpp")],
  ["bytes received by the peer","close of the connection"],[("parse position","how much of the current message was understood",H),("kept range","unconsumed bytes",T)])
p("S02","Binary server answers a message stream independently of how it is split",
  "The bytes a connection receives from the binary-protocol server are exactly the concatenation, in order, of the responses to its messages, however the message bytes are split or merged by the network, however many messages are pipelined and however large they are. Every message runs its method exactly once.",
  ["schedules","inputs","histories"],"every sequence of up to a dozen valid messages up to the maximal size, every segmentation",
  "The unit tests hand one whole message to the protocol object.",
  [B,T],[("length-prefixed framing","BinaryProtocolServer in bomba_binary_protocol.hpp"),("leftover handling across reads","TcpServerBuffer in bomba_tcp_server.hpp")],
  ["bytes received by the peer","calls logged by the server object"])
p("S03","One connection's failure or misbehaviour never harms the others or the server",
  "Whatever happens to one connection (the peer sends malformed input, stops in the middle of a request, disconnects or resets at any instant, including while a response is being sent, or the accepting of it fails for a passing reason such as an aborted connection or exhausted descriptors), the server keeps running, other connections keep getting exactly the responses they would get otherwise, and new connections are accepted once the condition has passed. A peer that does not read its responses is outside this promise.",
  ["fault_sequences","schedules","histories"],"every mix of well-behaved and failing peers over the HTTP, JSON-RPC and binary servers, every instant of reset, close, stall and accept failure",
  "No test opens a connection, so nothing about broken connections is tested.",
  [T,H,B],[("per-session error handling","Session in bomba_tcp_server.hpp"),("accept loop","startSession in bomba_tcp_server.hpp"),("exceptions turned into error responses or disconnects","respond in bomba_http.hpp, bomba_binary_protocol.hpp")],
  ["responses of the well-behaved peers","server thread alive"])
p("S04","Every server connection is closed exactly once and fully released",
  "The server closes its end of a connection exactly once, soon after the peer has closed or reset it or a request demanded closing, releases its descriptor and memory, and never reads, writes or closes a descriptor it no longer owns, even if the number has been reused by another connection. However many connections come, go and overlap in whatever order, the resources held are those of the connections still open.",
  ["schedules","histories","fault_sequences"],"every history of up to forty connections opened, used, reset and closed in any overlapping order",
  "No test opens a connection.",
  [T],[("session table and removal","destroySession in bomba_tcp_server.hpp"),("session end","cancel in bomba_tcp_server.hpp")],
  ["open descriptors of the process","live memory","uses of closed descriptors"],[("session table","owner of all live sessions","_sessions in bomba_tcp_server.hpp")])
p("S05","Arbitrary bytes sent to a server are handled safely and in bounded resources",
  "Whatever bytes a peer sends to an HTTP, JSON-RPC, form or binary server, in whatever pieces, the server never accesses memory it does not own, never uses an uninitialised value, never stops, and never loops forever; it answers, waits for more, or closes that connection. A message whose arguments are incomplete (their sizes reach beyond the message, or make no sense) runs nothing and is not answered with a result: bytes outside a message never become its contents. The memory it uses for a connection is bounded by a small multiple of what the peer has sent.",
  ["inputs","schedules"],"byte streams made by mutating, truncating, splicing and numerically corrupting valid requests of every protocol, every segmentation",
  "The unit tests contain a few fixed malformed inputs delivered whole to parser objects.",
  [H,JR,J,B,T],[("bounds checks in the parsers",H+", "+J+", "+B),("input exceptions",C)],
  ["process state","memory sanitizer","live memory"])
p("S06","Every HTTP response on the wire is complete and correctly framed",
  "Every response the HTTP server puts on a connection starts with a status line and headers, declares the length of its body exactly, and is delivered completely even if the peer reads slowly, the socket accepts only part of a write, or the response exceeds every buffer; the content is exactly what the responder produced (if the server is given a buffer that can't grow, what was produced in the buffer's capacity counts as the response: a beginning of the content, declared with its own length). If a response cannot be completed because its producer fails midway, the connection is closed rather than continued with a wrongly delimited stream.",
  ["schedules","fault_sequences","inputs"],"every response size from 0 to hundreds of kilobytes, of known or unknown size, written in any pieces, with the producer failing at any point, every socket buffer size, throttling and interruption",
  "The unit tests collect the response in a string; partial writes, back-pressure and producers failing midway never happen.",
  [H,T,C],[("response header writing","WriteStarter in bomba_http.hpp"),("buffers","ExpandingBuffer, NonOwningStreamingBuffer in bomba_core.hpp"),("socket write","feedToResponder in bomba_tcp_server.hpp")],
  ["bytes received by the peer"])
p("C01","A call over a failing connection ends in its true value or an exception",
  "If the connection cannot be made, or closes or resets at any point before the complete response has arrived, the synchronous call or the collecting of an asynchronous result ends with an exception within bounded time: it never returns a value the server did not send, never waits forever and never crashes the process. The method runs at most once per call whatever fails, and a result that was returned implies that it ran exactly once.",
  ["fault_sequences","crash_points","schedules"],"every byte position and instant of close or reset in either direction, refused and timed-out connects, server crash during a call, for synchronous and asynchronous calls of both clients",
  "The unit tests never break a connection.",
  [S,H,JR,B,R],[("socket error handling",S),("errors turned into exceptions",C),("result reading","readResponse in bomba_rpc_object.hpp")],
  ["outcome of each call","calls logged by the server object"])
p("C02","Arbitrary bytes received from a server never crash or corrupt a client",
  "Whatever bytes a server sends to an HTTP, JSON-RPC or binary client, in whatever pieces, collecting a result returns or throws an exception within bounded time once the stream has ended; it never accesses memory it does not own, returns an uninitialised value or loops forever.",
  ["inputs","schedules"],"response streams made by mutating, truncating, splicing and numerically corrupting valid responses, every segmentation, followed by close",
  "The unit tests only feed valid responses.",
  [S,H,JR,J,B],[("bounds checks in the response parsers",H+", "+J+", "+B)],
  ["outcome of the call","memory sanitizer"])
p("C03","A failure the server reports reaches the caller as an exception",
  "If the server answers a call with an HTTP error status or a JSON-RPC error object, collecting that call's result throws an exception, for synchronous and asynchronous calls alike, and never returns a value. Other calls on the same client, before, after or in flight together with it, still get their own results.",
  ["histories","inputs","schedules"],"every mix of failing and succeeding calls, pipelined or not, every error form, collection order and segmentation",
  "The unit tests check one JSON-RPC error text against a fixture; error statuses and later calls on the same connection are not covered.",
  [JR,H,R,S],[("error member handling","getResponse in bomba_json_rpc.hpp"),("status handling","HttpClient in bomba_http.hpp")],
  ["outcome of each call"])
p("F01","File servers return exactly the file's bytes and type, or an error status",
  "A GET for a regular, readable file under the served folder, or for a generated file, returns exactly its content with the correct length and a content type that follows from its extension, whatever its size and name; the path / (with the dynamic server any path ending with a slash) returns the index page of the folder if there is one. A GET for anything else returns an error status. This holds for the dynamic and for the caching server.",
  ["inputs","configurations","schedules"],"every tree of files with sizes 0 to tens of kilobytes and sizes that do not fit into 31 or 32 bits, names with and without extension, nested folders, generated files, every request sequence, segmentation and socket buffer size",
  "No unit test covers the file servers.",
  [D,H],[("file reading in chunks","DynamicFileServer::get in bomba_download_server.hpp"),("loading of the folder","cacheFile in bomba_download_server.hpp"),("content type","extensionDescription in bomba_download_server.hpp")],
  ["response bytes"])
p("F02","File servers never serve anything outside their folder or hidden files",
  "No request path, however it is built (dot segments, doubled or trailing slashes, absolute paths, embedded special characters), makes a file server open or return a file outside the folder it serves or, with the dynamic server, a file or folder whose name starts with a dot.",
  ["inputs","configurations"],"every path built from names of existing files inside and outside, dot and dot-dot segments, empty segments, absolute prefixes, percent and control characters, against a file system holding secrets around the served folder",
  "No unit test covers the file servers.",
  [D],[("path check","DynamicFileServer::get in bomba_download_server.hpp"),("lookup in a fixed set","CachingFileServer::get in bomba_download_server.hpp")],
  ["paths opened","response bytes"])
p("F03","Caching file server serves the snapshot taken at its last reload",
  "Between reloads the caching file server returns exactly the content that was in the folder at the last load, whatever happens to the files since; after a reload it returns the new content, deleted files are gone, and generated files are still served; after a reset generated files are gone too. A load that fails changes nothing. Serving never touches the disk.",
  ["histories"],"every history of file creation, change, deletion, generated-file registration, reload, reset and requests",
  "No unit test covers the file servers.",
  [D],[("cache and reload","CachingFileServer in bomba_download_server.hpp"),("modifiers","addModifier in bomba_download_server.hpp")],
  ["response bytes","disk operations"])
p("F04","Caching file server may be reloaded and extended while it serves",
  "When one thread reloads, resets or adds generated files while other threads or a running server serve requests, every response is entirely the content of one single version, as if each reload happened at one instant between its call and return; no response is torn, no memory is misused and no thread is blocked forever.",
  ["schedules","histories"],"every interleaving of up to three serving threads and up to two modifying threads, including slow clients and slow disks",
  "No unit test covers the file servers or uses threads.",
  [D],[("reader/writer lock","_mutex in bomba_download_server.hpp")],
  ["response bytes","memory sanitizer"])
p("F05","Disk errors never turn into wrong content",
  "If opening, reading or inspecting a file fails or delivers fewer bytes than expected, or the file changes, shrinks or vanishes while it is being served or loaded, the file servers answer with an error status or break off the connection, and never deliver a complete-looking response with bytes that were never in the file; the server keeps serving other files, and serves the file correctly once the disk works again.",
  ["fault_sequences","schedules"],"every position of open, read, stat and directory errors, short reads, truncation and removal during serving and loading",
  "No unit test covers the file servers or injects disk errors.",
  [D],[("file reading","DynamicFileServer::get in bomba_download_server.hpp"),("loading","cacheFile in bomba_download_server.hpp")],
  ["response bytes"])
p("L01","The background server can be stopped at any moment",
  "Destroying a background server at any moment, idle, with connections open, in the middle of receiving a request or with requests queued, returns within bounded time as long as peers read their responses, and afterwards nothing of the server runs, the port and every descriptor are released and no memory is misused. Every response started before is either complete or cut off by the close, never altered.",
  ["schedules","crash_points"],"every instant of destruction relative to connects, request bytes and responses of up to four connections",
  "No test starts a server.",
  [T],[("stop and join","BackgroundTcpServer in bomba_tcp_server.hpp")],
  ["return of the destructor","open descriptors"])
p("L02","The reported average response time is truthful",
  "The average response time a server reports equals, up to the resolution of the clock, the total time it spent handling input divided by the number of messages it handled, and asking for it at any time, also before any message was handled or while the server is working, is safe.",
  ["schedules","histories"],"every sequence of requests with any processing time and clock resolution, asking at any moment",
  "No test starts a server; the real clock makes the value unpredictable.",
  [T],[("statistics","averageResponseTime in bomba_tcp_server.hpp")],
  ["reported value against the simulated clock"])
p("L03","A server driven by polling makes progress without ever blocking the caller",
  "A server that is driven by repeated single rounds instead of its own thread never waits inside a round for input that has not arrived, and as long as rounds are called every complete request is answered, every new connection accepted and every closed one released within a bounded number of rounds, with the same response bytes as a continuously running server.",
  ["schedules","histories"],"every interleaving of rounds with connects, partial requests, complete requests and closes of up to four connections",
  "No test starts a server.",
  [T],[("single round","runARound in bomba_tcp_server.hpp")],
  ["simulated time spent inside a round","bytes received by the peers"])
p("T01","Concurrent use that the library allows is free of data races",
  "Asking a running background server for its statistics, reloading or extending a caching file server while it serves, stopping a server from another thread, and using separate clients and servers in separate threads involve no data race.",
  ["schedules"],"every interleaving of those operations by up to four threads",
  "No test uses threads.",
  [T,D,R],[("reader/writer lock",D),("session lock and statistics",T),("lazily initialised parts",C+", "+R)],
  ["happens-before relation over memory accesses"])
p("D01","The generated description fits the served methods exactly",
  "The JSON-WSP description generated for any tree of remote objects (objects with methods, lambdas with or without closures, typed holders, groups nested to any depth, owned or not) and served over HTTP next to the JSON-RPC interface is valid JSON with the given URL and service name. It lists each method of the tree exactly once under its full dotted name, with exactly its parameters by name and type, numbered in order from 1, and its return type, and lists nothing else; every class used by a parameter, a result or a member of another listed class, also inside containers, is listed exactly once with its members and their types. Every listed method can be called through JSON-RPC with arguments made from nothing but the description, runs exactly once and returns a value of the described type; a name that is not listed gets an error and runs nothing. Generating or serving the description runs no method.",
  ["inputs","histories"],"every tree composed of the supported parts in any shape, with any names (also ones that need escaping), and every sequence of calls made from the description, over a network that splits and delays everything",
  "The tests compare the description of two fixed classes and of one flat dynamic object; nothing nested or non-owning is described, and no call is ever derived from a description.",
  ["bomba_json_wsp_description.hpp","bomba_dynamic_object.hpp",R,O,C,JR],[("description generator","bomba_json_wsp_description.hpp"),("dynamic objects","DynamicRpcObject and RpcLambdaHolder in bomba_dynamic_object.hpp"),("types of arguments and members","describeType and listTypes in "+C+", "+R+", "+O)],["description received by the client","calls logged by the methods"])
p("N01","Serialising and parsing a value in one format is lossless",
  "For every object and every format that supports its types, writing the object and reading the text back yields an equal object.",
  ["inputs"],"every object and format",
  "The tests cover a few fixed objects per format.",
  [J,B,H,O],[("format readers and writers",J+", "+B+", "+H)],["object equality"])
p("W01","The JavaScript client calls exactly the described methods",
  "An API object generated by the bundled JavaScript client from the description of any served object has a function for every described method at its path, also for methods of nested objects, and none for anything else. Calling one with arguments that match the described types (numbers, strings, booleans, arrays, tables indexed by strings, instances of the generated classes, nested in each other, any of the last ones left out) makes the server run exactly that method exactly once with exactly those values and the default for what was left out, and the promise is fulfilled with the result of that execution; it is rejected if the method failed or the connection did. Arguments that don't match are refused without anything being sent. This holds for any number of calls pending at once, answered in any order, each with an id of its own, both in a browser and in node.",
  ["inputs","schedules","fault_sequences"],"every tree of methods and types, every sequence of matching and mismatching arguments, every number of calls pending and order of responses, connections failing at any point",
  "No test runs the JavaScript client.",
  ["public_html/bomba.js","bomba_json_wsp_description.hpp",JR],[("generated functions","generateApiCall and generateApi in public_html/bomba.js"),("generated classes and checks of arguments","generateType and the checks of arguments in public_html/bomba.js"),("description it is generated from","bomba_json_wsp_description.hpp")],["fulfilment or rejection of the promise","calls logged by the server's methods","requests sent"])
p("W02","Generated forms call their method with what was entered",
  "The bundled JavaScript client generates a form for every method of any described object, also of nested ones and whatever its arguments are, with a field for each number, string and boolean among its arguments and the members of their classes. Pressing its button makes the server run exactly that method exactly once with exactly the values entered and the defaults for what can't be entered, and the result of that execution is then shown; the generated page of the whole interface offers exactly one such button for each method.",
  ["inputs","schedules","fault_sequences"],"every tree of methods and types, everything entered into the fields, every order of presses and responses",
  "No test runs the JavaScript client.",
  ["public_html/bomba.js","bomba_json_wsp_description.hpp"],[("form generator","the gui functions in public_html/bomba.js")],["buttons and fields in the page","calls logged by the server's methods","text shown"])
p("S07","A protocol of the user's own is given its peer's stream exactly",
  "A server that runs a responder written by the user gives each of its sessions the bytes of one connection, in order, without losing, repeating or altering any: every call gets what earlier calls left unconsumed followed by what has arrived since, whatever number of bytes they consumed and in whatever pieces the stream arrives; everything the responder writes reaches the peer in order; a responder that ends the connection or throws ends only that connection, after what it wrote has been sent. The network client treats a reader written by the user likewise: it is given the stream continuously, responses that it identifies as belonging to other requests are kept and given back unchanged when they are asked for, asking without waiting neither waits nor loses any, and once the stream ends or the reader refuses it, waiting for a response that isn't there ends with an exception.",
  ["inputs","schedules","histories","fault_sequences"],"messages delimited by lines, lengths, blocks, consumed by parts or byte by byte, several per call or one, sizes around those of the buffers and far above, up to five connections, every segmentation; responses in any order, up to forty outstanding, collected and polled in any order",
  "The unit tests feed the buffer with a few fixed messages of the library's own protocols.",
  [T,S,C],[("buffer that joins the pieces","TcpServerBuffer in bomba_tcp_server.hpp"),("responses kept for later","searchRequests in bomba_sync_client.hpp"),("interfaces","ITcpResponder, ITcpClient in bomba_core.hpp")],
  ["bytes given to the responder and reader","bytes received by peers"])
p("C04","Swapping in the TLS client changes nothing about calls",
  "A JSON-RPC or binary client that uses TlsSyncClient instead of SyncNetworkClient, talking to a server behind TLS, gives the same guarantees as over a plain connection: every call returns the value its single execution gave, in whatever order asynchronous results are collected and however the encrypted stream is cut into records and pieces; asking whether a result is ready neither waits nor loses a response; a call whose connection can't be made, or closes or resets at any point, during the handshake included, ends with an exception within bounded time.",
  ["inputs","schedules","histories","fault_sequences"],"the workloads, schedules and faults of R01, R02, M01, M02, M03 and C01, times TLS 1.2 and 1.3, session tickets, sizes of records, announced and unannounced ends",
  "The only TLS test needs a public server to run, and makes one request.",
  ["tls/tls_sync_client.hpp",H,B],[("TLS client","tls/tls_sync_client.hpp")],["outcome of each call","calls logged by the server object"])
p("N03","The TLS server gives the same guarantees as the plain one",
  "Everything promised for servers on plain connections also holds for servers on TLS connections.",
  ["schedules","fault_sequences"],"as for the plain server",
  "There is no test of the TLS server that runs.",
  ["tls/tls_server.hpp"],[("TLS session","tls/tls_server.hpp")],["bytes exchanged"])
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
