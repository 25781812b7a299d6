#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ROLE="src/proto/h1/role.rs"; CONN="src/proto/h1/conn.rs"; IO="src/proto/h1/io.rs"; DEC="src/proto/h1/decode.rs"
ENC="src/proto/h1/encode.rs"; DISP="src/proto/h1/dispatch.rs"; HDR="src/headers.rs"; CD="src/client/dispatch.rs"
H2="src/proto/h2/mod.rs"; H2C="src/proto/h2/client.rs"; H2S="src/proto/h2/server.rs"; H2U="src/proto/h2/upgrade.rs"; PING="src/proto/h2/ping.rs"
INC="src/body/incoming.rs"; UPG="src/upgrade.rs"

p("C01","Server: exactly one, unambiguous framing for every HTTP/1 request",
 "For every parsed HTTP/1 request head the server delimits the body by chunked coding exactly when Transfer-Encoding is present on an HTTP/1.1 request and its final coding is chunked, otherwise by the Content-Length, otherwise by zero bytes. A request that carries Transfer-Encoding on HTTP/1.0, a Transfer-Encoding whose final coding is not chunked, an unparsable Content-Length, or Content-Length lines that disagree is rejected. When Transfer-Encoding and Content-Length are both present, in whatever order, the length is ignored and withheld from the application and the connection is not reused.",
 ["inputs"],"every request head: any number, order and combination of Transfer-Encoding and Content-Length lines, any version and method",
 "Request smuggling needs a specific order and combination of header lines; the unit tests in the role module sample about forty heads, and the header loop carries state from line to line, so no sample covers the product of orders.",
 [ROLE,HDR],[("header loop of the server-side head parser and the framing decision after it",ROLE),("Transfer-Encoding / Content-Length value predicates",HDR)],
 observe=["body bytes delivered to the service","error responses","whether the connection accepts another request"])
p("C02","Client: response body framing follows the RFC decision table",
 "The client delimits every HTTP/1 response by the precedence of RFC 9112: responses to HEAD and responses with status 204 or 304 have no body, other 1xx are skipped without ending the exchange, 101 and a successful CONNECT hand the connection over, then chunked if it is the final Transfer-Encoding, then until close if another Transfer-Encoding is final, then Content-Length, then until close. A Transfer-Encoding on an HTTP/1.0 response and an invalid or conflicting Content-Length are errors, never a guess. A response delimited by close is complete only at end of input.",
 ["inputs","histories"],"every response head, for every request method in flight and every version",
 "Tests sample some rows of the status x method x header table; the precedence must hold on all of them, including combinations such as 204 with Transfer-Encoding or HEAD with chunked.",
 [ROLE,HDR,CONN],[("client-side head parser: decoder selection",ROLE),("skipping of interim responses in the same parser",ROLE)],
 observe=["response body bytes","is the connection usable for the next request"])
p("C03","Chunked decoder accepts only the chunked grammar and never ends early",
 "The chunked reader accepts exactly hexadecimal sizes followed by optional whitespace or an extension and CRLF, chunk data followed by CRLF, and a terminating zero chunk with an optional trailer section; any other byte is an error. End of input anywhere before the final CRLF is reported as an error and never as a normal end of body. Chunk-size overflow, total extension bytes, trailer field count and trailer bytes are all bounded and exceeding a bound is an error.",
 ["inputs","schedules"],"every byte sequence, in every split across reads",
 "The decoder is a byte-driven automaton; tests run a few dozen strings, while the claim is about every byte in every state and about end of input in every state.",
 [DEC],[("per-state byte transition functions",DEC),("checked accumulation of the chunk size",DEC),("extension and trailer limits",DEC)],
 observe=["body data and errors seen by the application"])
p("C04","Length-delimited bodies deliver exactly the declared bytes or an error",
 "A body declared with a length delivers at most that many bytes, leaves every later byte to the next message, and reports an error if the connection ends first. Only a close-delimited body may treat end of input as a normal end. No received body byte is dropped, repeated or delivered beyond the message boundary.",
 ["inputs","schedules","fault_sequences"],"every declared length, every split of the byte stream into reads, end of input at every position",
 "Tests use scripted reads for a few lengths; the accounting must be right for every read size relative to the remaining length.",
 [DEC,IO],[("length arm of the decoder",DEC),("bounded read from the connection buffer",IO)],
 observe=["body frames, body errors, next message's bytes"])
p("C05","An HTTP/1 connection is reused only after both messages completed cleanly",
 "A connection returns to the idle state only when the request and the response of the current exchange have both been completely transferred and neither side asked to close. Once closing or closed, for reading or writing, it never becomes usable again, and a decode or encode failure always leaves it closed. An exchange that ends with unread body bytes never lets those bytes be parsed as a new message.",
 ["schedules","histories","fault_sequences"],"every interleaving of reading, writing, body drops, errors and end of input over the life of a connection",
 "Desynchronisation needs a particular order of read-side and write-side completion; tests exercise a handful of schedules.",
 [CONN],[("transition to idle",CONN),("close / close_read / close_write transitions",CONN),("draining or closing on unread body",CONN)],
 state=[("reading / writing / keep-alive","the typestate of the two halves of the connection",CONN)],
 observe=["which bytes are parsed as a message head","whether the connection accepts another exchange"])
p("C06","Connection persistence follows the Connection options and the version",
 "A message that carries the close option in any Connection header line ends reuse of the connection after the current exchange, whichever side sends it and whatever other lines say. An HTTP/1.0 peer's connection is kept only if keep-alive was negotiated, and then the response states it; disabling keep-alive is permanent. When hyper decides to close after a response on HTTP/1.1 it says so with Connection: close.",
 ["inputs","histories"],"every combination of Connection lines on requests and responses, versions, and local keep-alive settings",
 "The negotiation depends on header order, version and both directions' messages; tests check single combinations.",
 [ROLE,CONN,HDR],[("Connection handling in both head parsers and both head encoders",ROLE),("version and keep-alive fix-ups before encoding",CONN)],
 observe=["Connection header on the wire","whether the socket is reused"])
p("C07","100 Continue is sent at most once, only when asked and still useful",
 "The server sends an interim 100 Continue only for an HTTP/1.1 (or later) request that expects it and has a non-empty body, only when the application first asks for that body, and only before a final response has been started. It is sent at most once per request. Body polling for other requests never emits an interim response.",
 ["inputs","schedules"],"every expectation header, version, body kind, and order of body polling relative to the response",
 "It depends on whether the handler polls the body before or after responding; few schedules are sampled.",
 [CONN,ROLE],[("expect-continue transition on first body poll",CONN),("expectation recognition in the request parser",ROLE)],
 observe=["bytes written before the final response"])
p("C08","Head parsing is bounded: buffer, header count and target length",
 "No peer can make hyper buffer an unbounded message head: the read buffer is never grown for a head once it holds the configured maximum, and the connection fails with a too-large error instead. The number of headers accepted is bounded by the configured limit (100 by default) and the request target by 65,534 bytes. The read strategy never asks for more than the configured maximum. A head or trailer section whose fields do not fit into a header map is the too-large error, whatever the configured count; it never panics the connection and no field is left out.",
 ["inputs","schedules"],"every peer that sends a head of any size in any fragmentation",
 "A test can show one oversized head rejected; the guarantee is that no path reads more without passing the limit check.",
 [IO,ROLE],[("limit check in the head-parsing read loop",IO),("adaptive read strategy clamp",IO),("header array sizing and target length check",ROLE)],
 observe=["memory held per connection","error kind"])
p("C09","A malformed request gets the right error status and then a closed connection",
 "When parsing a request fails, the server answers 431 if there are too many or too large headers, 414 if the target is too long, and 400 for other grammar, version or framing errors, provided no response has been started, and then stops reading from that connection. A complete HTTP/2 preface received on an HTTP/1 connection is reported as a version error without an error page, and a connection that closes before a complete head is an incomplete-message error. The error is also returned from the connection future.",
 ["inputs","fault_sequences"],"every parse failure, at every point in the connection's life",
 "Each parse error kind must map to a status and to a closed reading side on every path; tests check a few kinds.",
 [ROLE,CONN,IO,"src/error.rs"],[("error-to-status mapping",ROLE),("parse failure handling",CONN)],
 observe=["status line of the error response","connection future's result"])
p("C10","Encoded bodies always match the framing announced in the head",
 "For a message announced with a length, hyper writes at most that many body bytes, and if the body ends short the write side is closed so the peer never sees a complete message. A chunked body is written as valid chunks with one terminating zero chunk, written only when the body really ended. A message with no body writes no body bytes, and a message of unknown length that is not chunked is ended by closing.",
 ["inputs","schedules"],"every sequence of body frames, of any sizes, against every announced framing",
 "Whether a body over- or under-runs depends on runtime frame sizes relative to the remaining length; tests sample a few.",
 [ENC,CONN],[("body encoder: per-kind accounting",ENC),("end-of-body handling",CONN)],
 observe=["bytes written after the head","connection closed or reusable"])
p("C11","Server response heads carry exactly one correct body framing",
 "Every HTTP/1 response head hyper writes announces a framing that agrees with the body encoding it then uses: no Transfer-Encoding or Content-Length on 1xx, 204 or successful CONNECT responses, no chunked towards HTTP/1.0 peers, never Transfer-Encoding together with Content-Length, and never a second or conflicting Content-Length. When the body's length is known, a Content-Length the application set itself is trusted to state it. Responses to HEAD and 304 responses are never followed by body bytes. If no framing can be announced the connection is closed to end the body.",
 ["inputs","configurations"],"every status, request method, version, user-supplied framing header and body size hint",
 "The decision is a large product of status, method, version, user headers and body length; tests pin individual cells.",
 [ROLE,ENC],[("server-side header encoder and its framing decision",ROLE)],
 observe=["response head bytes vs body bytes"])
p("C12","Client request heads carry exactly one correct body framing",
 "Every HTTP/1 request head hyper writes announces the framing it then uses for the body: Content-Length for a known length, chunked for an unknown one on HTTP/1.1, and nothing for no body (a body of unknown length is not sent at all with GET, HEAD or CONNECT, or on another version than 1.1, if the application announced no framing for it). Chunked is never sent on an HTTP/1.0 request, a request never carries both framings, and when user-set Transfer-Encoding does not end with chunked hyper adds it. A user-set valid Content-Length bounds the body actually written.",
 ["inputs","configurations"],"every method, version, user-supplied framing header and body size hint",
 "Product of method x version x headers x body kind; tests pin individual cells.",
 [ROLE,HDR],[("client-side length/encoder selection",ROLE),("helpers that add chunked or set the length",HDR)],
 observe=["request head bytes vs body bytes"])
p("C13","No response-splitting through reason phrases or generated head parts",
 "A custom reason phrase can only contain bytes allowed in a reason phrase (never CR, LF or other control characters except tab), however it is constructed by safe code or received from a peer. Every part of the status line and headers that hyper writes comes from a validated type or a fixed literal. Obsolete line folding and invalid bytes accepted under lenient parser settings are never re-emitted unvalidated by safe constructors.",
 ["inputs","programs"],"every program using the public constructors and every byte string",
 "A byte-class predicate must be right for all 256 byte values and every constructor must apply it.",
 ["src/ext/h1_reason_phrase.rs",ROLE],[("reason-phrase byte validation and constructors","src/ext/h1_reason_phrase.rs"),("status line writing",ROLE)],
 observe=["status line bytes"])
p("C14","Outgoing trailers are sent only when allowed and never alter framing",
 "Trailer fields are written only at the end of a chunked body and only for names announced in the message's Trailer header. Fields that affect framing, routing, authentication or content processing (authorization, cache-control, content-encoding, content-length, content-range, content-type, host, max-forwards, set-cookie, trailer, transfer-encoding, te) are never written as trailers. A server writes trailers only if the request said it accepts them.",
 ["inputs"],"every trailer map, announced set and request",
 "Filtering must hold for every field name and combination, not the three or four in tests.",
 [ENC,ROLE,CONN],[("trailer encoding and forbidden-name list",ENC),("acceptance of trailers recorded from the request",CONN)],
 observe=["bytes after the final chunk"])
p("C15","Every final HTTP/1 response carries exactly one Date unless disabled",
 "The server adds a Date header to a response if and only if the application did not set one and the option is on; user-supplied Date values are written unchanged and never duplicated by hyper. The generated Date is the wall-clock time of the last time the connection was polled, at most about a second old then. HTTP/2 responses get a Date when absent under the same option. Other user headers are written as given, in either the normal or the case-preserving path; title-case writing changes nothing but the case of letters in names.",
 ["inputs","configurations"],"every response header map and configuration",
 "Both header-writing paths (plain and case-preserving) must agree for every header map.",
 [ROLE,H2S,"src/common/date.rs"],[("date decision at the end of header encoding",ROLE),("date insertion for HTTP/2 responses",H2S)],
 observe=["Date header on the wire"])
p("C16","Bytes reach the transport in order, and nothing queued is forgotten",
 "Bytes hyper accepts for a connection are written to the transport in the order they were produced: a new head or interim response never overtakes body bytes already queued. Unwritten bytes are flushed whenever the connection would otherwise go idle, a zero-length write is an error, and an error from the transport is never swallowed. Except when the connection ends with an error, the transport is shut down or handed over (upgrade, poll_without_shutdown) only after all queued bytes were written.",
 ["schedules","fault_sequences"],"every partial-write pattern, write strategy and interleaving of reads with writes",
 "Overtaking needs a partially written body while the next head is produced; deterministic tests rarely have a partially blocked writer.",
 [IO,CONN,DISP],[("two-part write buffer (head bytes + queued body)",IO),("flush in the connection loop",DISP),("head/body writing",CONN)],
 observe=["byte stream at the transport"])
p("C17","Body producers are back-pressured by the transport",
 "The connection polls the outgoing body for more data only while its write buffer is below its limit, so a slow peer bounds the memory held for a body. A new message head is only encoded while the buffer can accept one. Reading ahead from the peer never continues while a previous message is unconsumed. The request queue of an HTTP/1 client holds at most one request that the connection has not asked for.",
 ["schedules","configurations"],"every rate mismatch between body producer, handler and transport",
 "Memory bounds need every poll site to be guarded; a test shows one slow peer.",
 [DISP,CONN,IO],[("capacity check before polling the body",DISP),("buffer limit predicate",IO)],
 observe=["bytes buffered while the transport is blocked"])
p("C18","Every client request is answered exactly once",
 "Each request handed to a client connection resolves exactly once: with its response or with an error, on every path including connection failure, shutdown, cancellation and drop of the connection task. No reply handle is dropped unanswered and none is answered twice. A request left in the queue when the connection ends is returned as cancelled.",
 ["schedules","fault_sequences","histories"],"every interleaving of sends, cancellations, connection errors and drops",
 "A lost reply shows only when the connection dies at a specific point; tests try a few.",
 [CD,DISP,H2C],[("reply handle and its drop guard",CD),("queue drain on close",CD),("HTTP/1 and HTTP/2 client dispatchers",DISP)],
 observe=["the future returned by send_request"])
p("C19","A request is handed back for retry only if it never touched the wire",
 "An error that gives the request back to the caller (so a pool may retry it) is produced only for requests of which no byte was written. A request whose caller has gone away before it was written is never sent. Once writing started, failures are reported without returning the request.",
 ["schedules","fault_sequences"],"every point at which the connection can fail relative to the request being dequeued and encoded",
 "Duplicate execution of non-idempotent requests appears only for failures in a narrow window.",
 [CD,DISP,H2C],[("error construction with or without the message",CD),("dequeue path of the HTTP/1 client dispatcher",DISP)],
 observe=["TrySendError message presence vs bytes written"])
p("C20","Client: responses pair with requests; unsolicited data is an error",
 "A client connection delivers a response only to the request currently in flight. Bytes that arrive while no request is in flight close the connection with an error instead of being kept for, or matched to, a later request. A connection that hits end of input while idle closes cleanly; while a response is expected it fails that request as incomplete.",
 ["schedules","histories","inputs"],"every arrival time of peer bytes relative to request submission",
 "Response-queue poisoning depends on timing between idle reads and new requests.",
 [CONN,DISP],[("idle-read handling",CONN),("in-flight callback slot",DISP)],
 observe=["which request a response resolves","error kinds"])
p("C21","Server: pipelined requests are served one at a time and in order",
 "The HTTP/1 server gives the service the next request only after the previous response has been completely written and the previous request body consumed or discarded, so responses leave in request order. A service future that is not ready never lets a second request start. Errors from the service close the connection without starting another request.",
 ["schedules","inputs"],"every pipelining depth and completion order",
 "Ordering must hold for all schedules; tests pipeline two requests.",
 [DISP,CONN],[("in-flight slot of the server dispatcher",DISP),("read gating in the connection",CONN)],
 observe=["order of responses on the wire"])
p("C22","Graceful shutdown finishes in-flight work and accepts nothing new",
 "After graceful shutdown is requested, an idle connection closes promptly, an HTTP/1 exchange in progress completes with keep-alive disabled, and HTTP/2 finishes already accepted streams after announcing going-away. Requesting it again, or before the handshake completed, has the same effect. It never aborts an exchange in progress.",
 ["schedules","histories"],"shutdown requested at every point in the life of a connection",
 "Each protocol state must handle the request; tests use a few moments.",
 ["src/server/conn/http1.rs","src/server/conn/http2.rs",DISP,CONN,H2S],[("keep-alive disabling and read close",CONN),("graceful shutdown for HTTP/2 states",H2S)],
 observe=["connection future, in-flight responses"])
p("C23","The header-read timeout is armed for every head and cleared by it",
 "When a header-read timeout is configured, it is armed when the server starts waiting for a request head and the connection fails with a timeout error if it fires before the head is complete. It is disarmed once a head was parsed, so it can never fire during body transfer or while a response is being produced. Configuring a timeout without a timer is reported, never silently ignored.",
 ["schedules","configurations"],"every fragmentation of heads over the life of a connection, including later keep-alive requests",
 "Arming and clearing is a per-request typestate; tests cover the first request and one keep-alive.",
 [CONN,"src/server/conn/http1.rs","src/common/time.rs"],[("arm/poll/clear of the timer around head parsing",CONN)],
 observe=["connection error, time of closing"])
p("C24","Upgrades hand over the connection with every byte and no shutdown",
 "When an exchange upgrades the connection, hyper stops parsing HTTP on it, hands over the transport together with every byte already read beyond the message, and does not shut the transport down. The party waiting for the upgrade is always resolved: with the connection, with an error, or with a note that it is handled manually. A message that did not upgrade never yields an upgraded connection.",
 ["schedules","inputs","fault_sequences"],"every split of bytes around the upgrade and every failure between head and hand-over",
 "Losing early bytes requires the peer's first bytes to arrive in the same read as the head; resolution must hold on every exit.",
 [DISP,CONN,UPG,"src/server/conn/http1.rs","src/client/conn/http1.rs"],[("end-of-dispatch upgrade outcome",DISP),("hand-over with the read buffer",CONN),("pending upgrade resolution",UPG)],
 observe=["bytes read from the upgraded connection","OnUpgrade future"])
p("C25","Replayed prefix bytes come first, once, and intact",
 "A connection wrapper that holds bytes already read delivers all of them, in order and exactly once, before reading from the transport again, for every caller buffer size. It never drops the remainder when the caller's buffer is small. Taking the wrapper apart returns exactly the bytes not yet delivered.",
 ["inputs","schedules"],"every prefix length and sequence of caller buffer sizes",
 "Relies on the relation of two lengths on every poll; tests use two sizes.",
 ["src/common/io/rewind.rs",UPG],[("prefix-first read","src/common/io/rewind.rs"),("downcast keeps the buffer",UPG)],
 observe=["bytes read from an upgraded connection"])
p("C26","An incomplete incoming body never looks complete",
 "If a message body ends because the connection failed, was closed early or its producer was dropped before the end, the reader gets an error, never a clean end of stream (except an HTTP/2 stream reset with NO_ERROR, which ends the body as RFC 9113 8.1 allows). A clean end is reported once the framing said the body was complete, and only then. Trailers are delivered only after all data.",
 ["schedules","fault_sequences"],"every failure point during body transfer, over both protocols",
 "Truncation that looks like success is silent; only a fault at a particular point shows it.",
 [INC,DISP,CONN],[("body sender drop/abort handling",INC),("body read loop in the dispatcher",DISP)],
 observe=["frames and errors from the incoming body"])
p("C27","Body size hints and end-of-stream flags never lie",
 "The size hint of an incoming body is exact when the length is known, never counts below zero, and shrinks by exactly the bytes delivered; unknown lengths are never reported as exact. A body reports end-of-stream only when no further frame can come. A declared length of zero, or an HTTP/2 stream that ended with its head, is an empty body.",
 ["inputs","schedules"],"every declared length and sequence of data frames",
 "The hint is state updated per frame on two backends; tests check initial values.",
 [INC,"src/body/length.rs"],[("length bookkeeping per data frame",INC),("decoded length arithmetic","src/body/length.rs")],
 observe=["size_hint and is_end_stream of the incoming body"])
p("C28","HTTP/2 messages never carry connection-specific headers",
 "Before any request or response is sent over HTTP/2, hyper removes Connection and every field it nominates, Proxy-Connection, Keep-Alive, Transfer-Encoding and Upgrade, and removes TE unless it is exactly trailers on a request. This covers every path that sends a head, including upgrades and CONNECT. No other header is removed.",
 ["inputs","programs"],"every header map an application can supply, including repeated Connection lines",
 "The stripping must dominate every send; repeated lines and unusual combinations are not tested.",
 [H2,H2C,H2S],[("connection-header stripping",H2),("request sending path",H2C),("response sending path",H2S)],
 observe=["header frames sent"])
p("C29","HTTP/2 bodies are sent whole, under flow control, and ended once",
 "Every frame an application body yields is sent in order, data only after the stream has capacity, and the stream is ended exactly once: with the last data, with trailers, or with an empty ending frame. A body error resets the stream and is reported; a peer reset stops the body. After the end or a reset nothing more is sent on the stream.",
 ["schedules","inputs","fault_sequences"],"every body frame sequence, window update schedule and reset point",
 "End-of-stream handling depends on when the body learns that it is finished relative to capacity; tests sample few.",
 [H2,H2C,H2S],[("body pipe",H2)],
 observe=["DATA, HEADERS and RST_STREAM frames"])
p("C30","HTTP/2 receive window is returned for every consumed byte",
 "For every data chunk taken from an HTTP/2 stream, by a body reader or by an upgraded stream, hyper releases exactly that many bytes of flow-control capacity once they are handed over. No chunk is handed to the application without being accounted, and none is accounted twice. Bytes that did not fit the caller's buffer are kept for the next read.",
 ["schedules","inputs"],"every chunk size and read size",
 "A leak stalls a connection only after a full window of traffic.",
 [INC,H2U],[("capacity release in the incoming body",INC),("capacity release in upgraded streams",H2U)],
 observe=["WINDOW_UPDATE frames","bytes read"])
p("C31","An HTTP/2 stream failure never takes down other streams",
 "A request that is malformed or refused at the level of one stream, a service error, a body error or a reset affects only that stream: hyper resets or answers it and keeps serving the others. Only connection-level errors end the connection. Every accepted stream is answered or reset.",
 ["schedules","inputs","fault_sequences"],"every single-stream failure among concurrent streams",
 "Needs concurrent streams with one failing in each possible way.",
 [H2S,H2C],[("accept loop",H2S),("per-stream task",H2S)],
 observe=["other streams' completion after one fails"])
p("C32","HTTP/2 keep-alive pings: one outstanding, timed out only if unanswered",
 "When HTTP/2 keep-alive is enabled, a ping is sent only after the idle interval without received frames, at most one ping is outstanding, and the connection is declared dead only when a sent ping has gone unanswered for the timeout. Received data postpones pings. Without the while-idle option no keep-alive ping is sent when there are no open streams.",
 ["schedules","configurations"],"every interleaving of frames, pongs and timer events",
 "It is a timer-driven automaton with several orders of events per tick.",
 [PING],[("keep-alive state machine",PING),("ping sender and pong handling",PING)],
 observe=["PING frames, connection error"])
p("C33","HTTP/2 CONNECT tunnels relay both directions and report failures",
 "Over HTTP/2, bytes written to an upgraded stream are sent in order as data, respecting capacity, and shutdown ends the stream; bytes from the peer are readable until its end of stream. A peer reset or lost connection surfaces as an I/O error and never as success, except that a no-error or cancel reset is treated as end of stream. A CONNECT request whose headers promise a body is refused on that stream.",
 ["schedules","fault_sequences"],"every ordering of writes, shutdowns, window updates and resets",
 "Needs resets at precise points in the tunnel's life.",
 [H2U,H2S,H2C],[("upgraded stream I/O",H2U),("send task",H2U)],
 observe=["I/O results of the upgraded stream"])
p("C34","Every configuration option set on a builder takes effect",
 "Every option of the HTTP/1 and HTTP/2 client and server builders, set alone or after any other option, has exactly its documented effect on the connection made, and no other: the parser configuration, header limit, buffer strategy, title case, header case, header order, HTTP/0.9, half-close, keep-alive, Date, timeouts and timer of HTTP/1; the h2 crate's settings, the adaptive window and the keep-alive pings of HTTP/2. Documented interactions are the only exceptions: setting a window turns the adaptive window off, turning it on sets both windows to the protocol's initial size; an exact read size and a maximum buffer size replace each other (the later wins); pipelined flushing forces copying writes; a timeout set without a timer panics when the connection is made, and so does a buffer below the minimum. An option that is left unset has its documented default. What the connection stores reaches the parser and the encoder of every head unchanged.",
 ["configurations","programs"],"every option on every builder, for both protocols and roles",
 "Most options have no test at all; a dropped or swapped field compiles and passes.",
 ["src/server/conn/http1.rs","src/server/conn/http2.rs","src/client/conn/http1.rs","src/client/conn/http2.rs",H2C,H2S],[("builder setters and connection construction","src/server/conn/http1.rs"),("protocol configuration","src/proto/h2/server.rs")],
 observe=["behaviour configured"])
p("C35","Read-buffer cursors never expose uninitialised or out-of-range memory",
 "Through the public read-buffer types, safe code can never observe uninitialised bytes nor make the filled part exceed the initialised part or the capacity. Appending more than the remaining space panics instead of writing out of bounds. Advancing the cursor without writing is only possible through unsafe operations.",
 ["inputs","programs"],"every sequence of operations on every buffer",
 "Memory-safety invariants must hold for every call sequence; tests run a few and would not observe undefined behaviour.",
 ["src/rt/io.rs","src/common/io/compat.rs",IO],[("filled <= initialised <= capacity maintained by every operation","src/rt/io.rs")],
 observe=["bytes visible through the cursor"])
p("C36","I/O adapters forward every operation faithfully",
 "Every adapter hyper puts around a transport forwards each read, write, vectored write, flush and shutdown to the same operation of the wrapped transport, with the same buffers, and returns its result unchanged. An adapter reports vectored-write support exactly as its transport does. No adapter turns an error or a pending result into success.",
 ["programs","schedules"],"every transport and every operation on each adapter",
 "A mis-forwarded operation (flush for shutdown, vectored for plain) compiles and mostly works.",
 ["src/rt/io.rs","src/common/io/compat.rs","src/common/io/rewind.rs",UPG],[("forwarding implementations","src/rt/io.rs")],
 observe=["operations seen by the transport"])
p("C37","C API: no panic crosses the boundary and null is always checked",
 "No panic ever unwinds out of a C API function, and every handle argument (a pointer to a hyper object, or an optional URI part) that is null is found out before it is dereferenced; buffers, and byte strings passed with their length, are required to be non-null. Every function reports failure through its return value. Ownership of each handle is taken exactly where documented, so no function frees a handle twice or leaks one it took. Result codes, error codes and task types are the ones hyper.h documents, and what a C callback answers (pending, error, a count, ready) is taken for that.",
 ["programs","inputs"],"every C program calling the API",
 "The C API has almost no tests in the suite; the rule must hold for every entry point.",
 ["src/ffi/macros.rs","src/ffi/client.rs","src/ffi/body.rs","src/ffi/http_types.rs","src/ffi/task.rs","src/ffi/io.rs","src/ffi/error.rs"],[("entry-point wrapper macro","src/ffi/macros.rs"),("null checks","src/ffi/macros.rs")],
 observe=["process aborts or error codes"])
p("C38","Locks are never held across callbacks or taken in conflicting orders",
 "No two internal locks are acquired in opposite orders by different paths, so no interleaving of threads can deadlock inside hyper. No lock is acquired twice on one path. No internal lock is held while user code that may come back to it is run (a waker, a task poll, a callback, the drop of a task). The exceptions are by design: the C executor's driver lock is held while its tasks run (they may spawn further tasks, but not poll the executor), the HTTP/2 ping lock while the connection's own timer, clock and current waker are used, and the pending upgrade's lock while that one upgrade is polled.",
 ["schedules"],"every interleaving of threads through the executor, upgrade and ping state",
 "Deadlocks need a precise interleaving of two threads; the suite has no such test.",
 ["src/ffi/task.rs",PING,UPG,"src/common/lock.rs"],[("executor queue and driver locks","src/ffi/task.rs"),("shared ping state",PING)],
 observe=["progress of two threads"])
p("C39","Cross-task notifications cannot be lost",
 "When one task signals another (body demand, dispatch readiness, upgrade or tunnel close), the signal is published before the other side is woken, and the waiting side registers its waker before it re-checks the signal. So no interleaving leaves a task asleep after its event, and a write accepted before a tunnel is closed is seen by whoever sees the close. The C executor reports nothing to do only after it saw no spawned task and no wake-up later than its last poll. Each signal has its own waker slot.",
 ["schedules"],"every interleaving of the signalling and the waiting task",
 "A lost wake-up needs a two-instruction window; tests on one thread never hit it.",
 ["src/common/watch.rs",H2U,CD],[("watch channel: store then wake, register then load","src/common/watch.rs"),("tunnel close notification",H2U)],
 observe=["hang"])
p("C40","A pending result always has a wake-up arranged",
 "Whenever a hyper future or poll function returns pending, it has, in that same call, received pending from something it polled with the current context, registered the current waker, or scheduled its own wake-up. It never returns pending after merely checking a flag, nor right after an item came out of a part that may have more. The exceptions are states in which another part of the same connection task, polled in the same turn, owns the wake-up: reading for keep-alive when reading is over, half-closing is allowed or bytes are buffered; a head error that became a response still to be written; a server whose service is still answering; and the pinger with no ping or keep-alive timer outstanding. So no connection stalls with work left and nobody to wake it.",
 ["schedules"],"every path to a pending return in every poll function",
 "A missed registration shows as a rare hang; the rule is about each path.",
 [DISP,CONN,CD,H2,H2C,H2S,INC,UPG],[("pending returns across poll functions",DISP)],
 observe=["hang"])
p("C41","Every supported feature combination builds and keeps its public API",
 "The crate compiles with every combination of its public features (client, server, http1, http2), with and without tracing, and with the C API on top of client and http1, and each combination exposes the API documented for it. No combination depends on an item that another feature defines. Public connection, body and upgrade types keep the thread-safety (Send/Sync/Unpin) they promise.",
 ["configurations"],"all combinations of public features",
 "The test suite builds three of the combinations.",
 ["Cargo.toml","src/lib.rs","src/cfg.rs"],[("feature gates","src/cfg.rs")],
 observe=["compilation"])
p("C42","Stored error causes and kinds reach the user unchanged",
 "A failure reported by the transport, the HTTP/2 layer, the head parser, the user's body or the user's service reaches the application (the connection future, the request's caller or the body's reader) as a hyper error of the documented kind, with the original error as its source. It is not swallowed, except: a transport failure while a connection is idle with nothing buffered is a clean close; a no-error reset or shutdown is a clean end; a keep-alive time-out or an earlier failure of the same connection takes precedence; body bytes nobody reads any more; and on the HTTP/2 client an outgoing-body failure, which resets only that stream. The public predicates (parse, user, canceled, closed, incomplete message, timeout and so on) answer true exactly for their kinds; a timeout is found anywhere in the chain of sources. An HTTP/2 reset reason after a user error is that of the first HTTP/2 error in its chain, else INTERNAL_ERROR.",
 ["inputs","fault_sequences"],"every error source and kind",
 "Kind and source are set at dozens of construction sites; tests check a few.",
 ["src/error.rs"],[("error constructors and predicates","src/error.rs")],
 observe=["is_* predicates and source()"])
p("C43","A message head is recognised however its bytes arrive",
 "An HTTP/1 message head that is complete in the bytes received is parsed, on the server and on the client, whichever pieces the transport delivered it in: after an incomplete attempt, the quick scan that decides whether to parse again answers no only if no empty line (LF LF or LF CR LF) ends in the bytes that came since; it looks far enough back, never outside the buffer, and never counts bytes of an earlier message as examined. After a skipped interim response the bytes that came with it are parsed at once, without waiting for more.",
 ["inputs","schedules"],"every split of every head; the scan for every content of buffers of up to 6 bytes (7 in the thorough tier), which covers every offset it can depend on",
 "Tests feed a few fixed splits; a wrong look-back distance loses only heads split at one place.",
 ["src/proto/h1/role.rs","src/proto/h1/io.rs"],[("is_complete_fast, parse_headers, Client::parse","src/proto/h1/role.rs"),("Buffered::parse","src/proto/h1/io.rs")],
 observe=["head delivered when its last byte was received"])
# Not decidable statically here
p("C60","Timers fire at the configured times",
 "Header-read, keep-alive and handshake timers fire neither early nor noticeably late under any load.",
 ["schedules"],"every load and timer implementation","Wall-clock behaviour.",
 ["src/common/time.rs",PING],[("timer trait calls","src/rt/timer.rs")])
p("C61","Adaptive HTTP/2 windows converge to the bandwidth-delay product",
 "With adaptive windows on, the advertised window grows to about twice the measured bandwidth-delay product and stabilises.",
 ["schedules","histories"],"every network","Numeric convergence.",
 [PING],[("bandwidth-delay estimation",PING)])
p("C62","Decoding inverts encoding for every message",
 "For every message, what a hyper server decodes from a hyper client's bytes equals what the client application sent, and likewise for responses.",
 ["inputs"],"every message","Round-trip equality over all inputs.",
 [ROLE,ENC,DEC],[("encoders and decoders",ENC)])
p("C63","HTTP/2 framing, HPACK and stream state conform to RFC 9113",
 "Every frame sequence hyper sends is valid and every invalid sequence received is rejected as the RFC requires.",
 ["inputs","histories"],"every frame sequence","Implemented in a dependency outside this repository.",
 [H2C,H2S],[("delegated to the h2 crate",H2)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
