"""Per property: (deciding technique, what the check assures and assumes); reasons for those not claimed."""
COMMON = "Decides from the source on every run, for all inputs and schedules of the analysed entry points; trusts rustc's MIR, the driver, and the models of std/http/bytes functions named in engine/models.py. "
CLAIMS = {
 "C03": ("automaton extraction by abstract interpretation of MIR, product with a reference automaton",
         COMMON + "The chunked decoder's reachable states are extracted and compared with the chunked grammar on every byte value; source contract assumed: read_mem(n) returns at most n bytes and nothing only at end of input."),
}
NOT = {
 "C60": "Quantifies over real time and scheduler latency; no static argument over the source bounds when a timer provided by the runtime fires. The structural part (arming and clearing) is C23 and C32.",
 "C61": "A numerical convergence property of measured round-trip times and byte counts; its truth is in runtime values, not in the shape of the code.",
 "C62": "Round-trip equality of the encoder and the decoder over all messages is a relation between run-time values of two programs; the structural parts (framing tables on both sides) are decided by C01, C02, C03, C10, C11 and C12.",
 "C63": "Frame encoding, HPACK and stream states are implemented by the h2 crate, which is not part of this repository; hyper's own obligations towards it are C28 to C33.",
}
CLAIMS.update({
 "C04": ("symbolic length accounting over MIR paths (linear facts)", COMMON + "Every path of the length, close-delimited and buffered-read code is enumerated; bytes delivered, remaining count and buffer advance are compared as linear expressions."),
 "C05": ("typestate analysis: full transition relation of the connection state machine by abstract interpretation", COMMON + "All operations from all 60 abstract states, both roles; decoder, encoder, parser and transport are replaced by all their outcomes."),
 "C17": ("dominance of buffer-room queries over producers on all dispatcher paths, plus linear-fact entailment for the buffer predicates", COMMON + "The body and service are replaced by all their outcomes."),
 "C21": ("typestate analysis of the dispatcher and its service slot over all abstract paths", COMMON + "Connection operations and the service future are replaced by all their outcomes."),
 "C22": ("path-sensitive analysis of the shutdown entry points and of the states they leave", COMMON + "Covers HTTP/1 dispatcher and connection and the HTTP/2 server future; prompt closing is decided up to the next poll, which C40 says is arranged."),
})
CLAIMS.update({
 "C18": ("linear-resource (ownership) analysis of reply handles over all MIR paths including drop glue", COMMON + "Queue, oneshot channel, executor and h2 crate are replaced by all their outcomes."),
 "C19": ("ownership and ordering analysis: hand-back only from untouched requests, cancellation check dominates sending", COMMON + "A request counts as touched once it is taken apart for writing or given to the h2 stream."),
 "C20": ("decision-table extraction for the client's read states, plus typestate of the in-flight slot", COMMON + "Transport and parser are replaced by all their outcomes; an idle connection is one whose state machine says idle (after an exchange)."),
})
CLAIMS.update({
 "C28": ("path-sensitive effect analysis of header maps at every send point (abstract iterators over arbitrary header lines)", COMMON + "Iteration over header lines and list items is analysed for up to two elements each, from arbitrary element values; a Connection line that is not visible ASCII nominates nothing."),
 "C29": ("typestate analysis of the body pipe, with ownership of the chunk in hand and dominance of capacity over data", COMMON + "Body and h2 stream are replaced by all their outcomes; one frame per pass from each abstract state, so any number of frames."),
 "C30": ("linear-equation check of bytes taken against bytes released on all paths of every reader of HTTP/2 data", COMMON + "All call sites of RecvStream::poll_data and release_capacity are found and must be in analysed readers."),
 "C31": ("path enumeration of the accept loop, stream future and client task with per-stream outcomes", COMMON + "The h2 crate, service, executor and queue are replaced by all their outcomes."),
 "C33": ("typestate and decision-table analysis of the tunnel reader, writer, its task and the CONNECT paths", COMMON + "h2 streams and channels are replaced by all their outcomes."),
})
CLAIMS.update({
 "C10": ("abstract interpretation of the encoder to wire segments with linear length facts; typestate of its uses", COMMON + "Chunk length and remaining length are symbolic; number formatting itself is std's."),
})
CLAIMS.update({
 "C01": ("decision-table extraction from the request-head parser over abstract header lines, compared with RFC 9112 section 6", COMMON + "The httparse library is replaced by all its outcomes; up to three framing-relevant lines per path from an arbitrary sequence, each value split into arbitrary list items."),
 "C02": ("decision-table extraction from the response-head parser over methods, statuses, versions and abstract header lines", COMMON + "The httparse library is replaced by all its outcomes; status is symbolic (value sets); loops over interim responses are cut at the second parse, which starts from the same state."),
})
CLAIMS.update({
 "C06": ("decision-table extraction from both head parsers plus typestate analysis of keep-alive in the connection", COMMON + "Up to two Connection lines with two items each per path in the quick tier (three in thorough), from arbitrary lines; header-map writes in front of the head encoder are recorded on all paths."),
 "C23": ("typestate analysis of the header timer over all connection states and timer configurations", COMMON + "The timer implementation is the user's; that firing wakes the task is its contract."),
 "C07": ("typestate analysis of the connection and dispatcher plus decision-table extraction from the head parser", COMMON + "The interim response is one literal; its position in the write order is decided under C16."),
 "C16": ("path-sensitive abstract interpretation with a linear-arithmetic heap model of the write buffer, plus typestate analysis of connection and dispatcher", COMMON + "Partial writes are decided for two consecutive writes of arbitrary sizes and inductive advance steps; body queues for up to three buffers of arbitrary length."),
})
CLAIMS.update({
 "C36": ("forwarding check: abstract interpretation of every Read/Write/AsyncRead/AsyncWrite implementation of a wrapper, in two build configurations", COMMON + "The wrapped transport is an unknown; endpoints (the HTTP/2 tunnel, the C callbacks) are not adapters and belong to C33 and C37."),
 "C25": ("abstract interpretation with symbolic prefix length and caller room (linear facts)", COMMON + "Bytes are modelled as ranges of one buffer; the contract of the bytes crate is assumed."),
})
CLAIMS.update({
 "C24": ("ownership tracking of the pending upgrade through the connection and its consumers by abstract interpretation, plus decision tables of request head and response head", COMMON + "The transport, the message contents and the channel are replaced by all their outcomes; HTTP/2 tunnels are C33."),
})
CLAIMS.update({
 "C26": ("typestate analysis of body readers, the connection's body state and the dispatcher's ownership of the body sender", COMMON + "Channels, decoder and the h2 stream are replaced by all their outcomes; correctness of the decoder's end is C04."),
 "C27": ("linear-equation check of the length bookkeeping over three length classes (known, chunked, close-delimited)", COMMON + "That no more than the announced bytes arrive is C04 for HTTP/1 and the h2 crate's contract for HTTP/2; for a body whose stream ends only after its head was handed over the hint is the announced length."),
})
CLAIMS.update({
 "C35": ("abstract interpretation of every buffer operation with symbolic filled/initialised/capacity and linear facts; memory as ranges", COMMON + "Slices, raw pointers and their copy/fill operations are modelled as ranges of one block; out-of-range slicing panics (core). The user's transport is assumed to keep filled <= initialised <= capacity, as its unsafe contract says; what C callbacks report is trusted (C API)."),
 "C08": ("abstract interpretation of the head-reading loop, the single read, the read strategy and the parser with symbolic buffer lengths and limits; linear facts", COMMON + "BytesMut::reserve may round the allocation up (bytes crate); httparse stops at the number of slots it is given. That the builder options reach these fields is C34."),
 "C09": ("exhaustive table of error kinds to pages, parser outcomes to kinds, and typestate of the connection after a failed head", COMMON + "The page's own encoding is C11. A preface that is still incomplete when the parser refuses it gets the 400 page, as documented in the statement. A Content-Length beyond 2^64-3 counts as too large (431)."),
})
CLAIMS.update({
 "C11": ("abstract interpretation of the response encoder over method x version x body x sequences of framing header lines x status classes; the bytes written are parsed back and compared with the encoder chosen", COMMON + "Up to three header lines of each relevant kind per head (a line's treatment depends on earlier lines only through finitely many flags); header values are symbolic with their parsed meaning (number, ends in chunked) forked. A Content-Length set next to a body of known length is trusted, as the code documents."),
 "C12": ("abstract interpretation of the request encoder over method x version x body x sequences of framing header lines; the bytes written are parsed back and compared with the encoder chosen", COMMON + "Up to three header lines of each relevant kind per head; header values are symbolic with their parsed meaning forked."),
 "C13": ("byte-class value sets of every constructor's predicate (all 256 values), enumeration of all construction sites of the type, and taint of every segment written into a head", COMMON + "Values of the http crate's validated types (HeaderName, HeaderValue, Method, Uri parts) are taken to be free of CR and LF. Unfolding is judged over every sequence of up to five byte classes (carriage return, line feed, white space, other)."),
 "C14": ("abstract interpretation of the trailer encoder against the forbidden table and the announced names, and of the recording and gating of the request's TE", COMMON + "Up to three trailer names per map; names compare as symbols of the http crate's case-insensitive type."),
 "C15": ("decision table of Date over application headers, option and writing mode from the encoder's abstract paths; linear facts over the date cache's clock", COMMON + "The text of a date is httpdate's. Freshness is relative to the poll in which the response is written."),
 "C32": ("abstract interpretation of one poll of the ping automaton from every state, with symbolic times and linear facts; effect tables of the recorder and its call sites", COMMON + "Timers are the user's and are taken to fire at the deadline they were set to; the h2 crate's PingPong answers in every way. The bandwidth estimate's arithmetic is floating point and is not judged."),
})
CLAIMS.update({
 "C34": ("abstract interpretation of every builder from every option, alone and after every other option, through to the connection state, buffers, h2 builder calls and ping configuration; tables of what heads are parsed and encoded with", COMMON + "What the h2 crate and httparse do with a setting is theirs; ReadStrategy and limits are C08/C29, header timeouts C21, pings C32."),
})
CLAIMS.update({
 "C39": ("ordering (happens-before on each path) analysis of store/wake and register/load on every shared signal, and of the last looks before waiting in the C executor, by abstract interpretation with every read's outcome forked", COMMON + "Each atomic read may see any value, so every interleaving of the other side is covered at the granularity of these operations; AtomicWaker, want, mpsc and oneshot are trusted."),
 "C41": ("type-level witnesses: the compiler's type checker over every feature combination of the crate and of a crate of callers and trait-bound assertions, one per public item", COMMON + "The promised API is the one of the pinned commit (witness/src/api.rs, generated once from rustdoc's JSON, plus hand-written callers); additions and wider bounds are accepted. Behaviour of a combination is not compared: the other properties are decided on the full, C API and single-role builds."),
 "C42": ("error provenance: abstract interpretation of every connection, dispatcher, stream, body, client and upgrade path with each external failure forked, comparing the kind and cause of every error reported with the failure on that path; constructor and predicate tables evaluated over all kinds", COMMON + "Constructors are not trusted by name: what each makes is computed from its body. The wording of messages is not checked, nor which parse kind a given malformed byte gives (C09/C12 decide the rejection itself). Failures inside the runtime's executor are out of reach."),
})
CLAIMS.update({
 "C38": ("may-held dataflow of lock guards over every body with call summaries; held-before graph checked for cycles, and the calls and drops under each lock classified", COMMON + "Lock kinds are told apart by the type they guard. Locks inside the h2, tokio and futures crates are theirs. hyper_executor_poll called from inside a task is excluded, as documented in the source. A user's timer and sleep are run under the ping lock and must not call back into the connection."),
})
CLAIMS.update({
 "C40": ("wake-up arrangement analysis: abstract interpretation of every poll function in two build configurations, each polled part forked into pending and ready (items of streams apart), judging every path that returns pending; decision tables of the HTTP/1 dispatcher's turn", COMMON + "That a part which answered pending keeps the waker it was given is its own obligation (checked here for every part in this crate; trusted for h2, tokio, futures, the transport and the body). The states in which another part of the task owns the wake-up are listed in the rule. Async functions are polled by compiler-made code and not re-analysed."),
 "C37": ("abstract interpretation of every exported C function as its header declares it, once as called and once per pointer that may be null, with ownership, failure and panic-containment rules; tables of codes and callback answers compared with hyper.h", COMMON + "Buffers and byte strings with a length are required non-null by the API. What tasks do later in the executor is covered by C38, C39 and C40; user callbacks are foreign code and must not unwind."),
})
CLAIMS.update({
 "C43": ("abstract interpretation of the quick scan over buffers of symbolic bytes (every answer judged against the bytes still possible on its path), of the attempt to parse, of the read loop's record of what was examined, and of the client parser behind a skipped interim response", COMMON + "The scan is decided for buffers of up to 6 bytes (7 thorough) and any number of bytes examined before; it inspects windows of at most 4 bytes, so longer buffers repeat these cases, but that is an argument, not part of the check. httparse's own answer to complete bytes is trusted."),
})
