#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

B = "websocket-base/src/"
p("C01", "Frame headers are written in the unique shortest RFC 6455 form",
  "For every combination of FIN/RSV bits, opcode, mask and 64-bit payload length, writing a frame header either emits exactly the RFC 6455 section 5.2 bytes (length in the shortest of the 7, 16 and 64-bit big-endian forms, mask bit set exactly when a key follows) or fails and emits nothing. It fails exactly when the opcode exceeds 15 or a control opcode (8-15) has a payload longer than 125 bytes. Reading the emitted bytes back yields the identical header and consumes exactly those bytes (except for a control header without FIN, which no receiver accepts).",
  ["inputs"], "all flags, all opcodes 0..=255, mask absent or any 4-byte key, all payload lengths 0..2^64-1",
  "Tests cover one simple and one complex header; the length boundaries 125/126, 65535/65536 and 2^63 times flag/mask combinations are a 2^100 input space.",
  [B+"ws/util/header.rs"], [("write_header / read_header length classes", B+"ws/util/header.rs")],
  observe=["bytes given to the writer", "header returned by the reader"])
p("C02", "Malformed frame headers are rejected, well-formed ones decoded exactly",
  "For every byte string presented as a frame header, the reader reports success exactly when it starts with a complete header whose length is in shortest form and which, if its opcode is a control opcode, has FIN set and length at most 125; the decoded flags, opcode, mask and length are then those RFC 6455 assigns and exactly the header's bytes are consumed. A proper prefix of a well-formed header is reported as no data available, never as a header.",
  ["inputs"], "all byte strings of up to 14 bytes (the longest header), including every truncation",
  "Two good headers are tested; no malformed header (non-minimal length, oversize or fragmented control frame) is ever fed to the reader.",
  [B+"ws/util/header.rs"], [("minimal-length and control-frame checks", B+"ws/util/header.rs read_header")])
p("C03", "A written frame has the RFC wire form and reads back unchanged",
  "Writing any data frame produces exactly one header followed by the payload, XORed with the announced key when masking is on; the number of bytes equals the size the frame predicts beforehand. Reading those bytes with matching mask expectation yields an equal frame (except for a control frame without FIN, which no receiver accepts) and consumes exactly them, leaving following bytes untouched. A control frame whose payload exceeds 125 bytes is refused with an error and no byte reaches the transport.",
  ["inputs"], "all FIN/RSV bits, all 16 opcodes, masked or not with any key, any payload (content symbolic; lengths at and around every length-class boundary)",
  "Tests write one 43-byte unmasked text frame and predict sizes for a dozen fixed messages.",
  [B+"dataframe.rs", B+"ws/dataframe.rs", B+"ws/util/header.rs", B+"ws/util/mask.rs"],
  [("DataFrame::write_to / frame_size", B+"ws/dataframe.rs"), ("DataFrame::read_dataframe", B+"dataframe.rs")])
p("C04", "Masking is one key stream whatever the chunking or short writes",
  "Masking XORs byte i of the payload with byte i mod 4 of the key, so that applying it twice restores the payload. Streaming a payload through the masking writer gives the underlying writer the same bytes as masking it at once, for every way the payload is split into writes and however many bytes the underlying writer accepts per call, including calls that are interrupted and retried.",
  ["inputs", "fault_sequences"], "all keys and payload bytes; all splits of the payload and all per-call accept counts / interruptions within the bound",
  "One fixed 8-byte vector is tested; the streaming masker is only ever driven with an infallible in-memory sink.",
  [B+"ws/util/mask.rs"], [("Masker position tracking", B+"ws/util/mask.rs")], state=[("pos", "key stream position", B+"ws/util/mask.rs")])
p("C05", "Clients mask every frame, servers none, and the wrong form is rejected",
  "Every frame a client endpoint sends is masked and no frame a server endpoint sends is, through every sending interface (blocking and asynchronous, frame and message level, whole and split connections). A server endpoint rejects every unmasked frame and a client endpoint every masked frame with an error, delivering nothing from it.",
  ["inputs"], "all message and frame kinds and payloads within the bound, on every endpoint type of both APIs",
  "Tests exercise a single text message per direction through one API.",
  ["src/client/sync.rs", "src/sender.rs", "src/receiver.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/client/async.rs", B+"codec/ws.rs", B+"dataframe.rs"],
  [("Sender/Receiver mask flags", "src/sender.rs, src/receiver.rs"), ("Context in codecs", B+"codec/ws.rs"), ("read_dataframe_body mask check", B+"dataframe.rs")])
p("C06", "A message sent by one endpoint arrives unchanged at the other",
  "Every message (text, binary, ping, pong, close with or without code and reason) sent by a client is received as an equal message by a server and vice versa, for the blocking and asynchronous APIs in any combination. Several messages sent back to back arrive in order, each exactly once, with nothing added.",
  ["inputs", "histories"], "all message kinds, all payload bytes and close codes/reasons within the length bound, sequences of messages",
  "Tests send one fixed text per direction.",
  [B+"message.rs", B+"codec/ws.rs", "src/receiver.rs", "src/sender.rs", "src/client/sync.rs"],
  [("serialize / from_dataframes", B+"message.rs"), ("MessageCodec", B+"codec/ws.rs")])
p("C07", "Fragmented messages are reassembled around interleaved control frames",
  "When a text or binary message arrives as any sequence of fragments, the receiver delivers one message of the first fragment's kind whose payload is the concatenation of the fragments in order. Control frames arriving between fragments are delivered at once, in arrival order, each as its own message, and do not disturb the message under assembly.",
  ["inputs", "histories"], "all fragment payloads and all placements of control frames in frame sequences within the bound, blocking and asynchronous receivers",
  "No test ever receives a fragmented message.",
  ["src/receiver.rs", B+"codec/ws.rs", B+"message.rs"],
  [("Receiver::recv_message_dataframes", "src/receiver.rs"), ("MessageCodec::decode", B+"codec/ws.rs")],
  state=[("buffer", "fragments of the message under assembly", "src/receiver.rs, "+B+"codec/ws.rs")])
p("C08", "Illegal frame sequences, reserved bits and opcodes are rejected",
  "A continuation frame with no message in progress, a new text or binary frame while a fragmented message is in progress, any frame of a message with a reserved bit set, and any message with a reserved opcode all make the receiver return an error instead of a message. Every other sequence of individually valid frames is accepted.",
  ["inputs", "histories"], "all sequences of frames within the bound with all header bit combinations, blocking and asynchronous receivers",
  "No test feeds an illegal sequence.",
  ["src/receiver.rs", B+"codec/ws.rs", B+"message.rs"],
  [("opcode dispatch", "src/receiver.rs, "+B+"codec/ws.rs"), ("reserved bits and opcode checks", B+"message.rs from_dataframes")])
p("C09", "Text payloads and close reasons are delivered iff they are valid UTF-8",
  "A text message is delivered exactly when the concatenation of its fragments' payloads is well-formed UTF-8, regardless of where fragment boundaries cut a character, and a close reason exactly when it is well-formed; otherwise the receiver reports a UTF-8 error. Binary, ping and pong payloads are never validated or altered.",
  ["inputs"], "all byte strings within the bound as text payload (whole or split at any point) or close reason",
  "Tests only use valid ASCII text.",
  [B+"message.rs", B+"ws/util/mod.rs"], [("from_utf8 in from_dataframes; bytes_to_string", B+"message.rs, "+B+"ws/util/mod.rs")])
p("C10", "Close payloads are parsed into code and reason or rejected",
  "An empty close payload yields a close message without data, and a payload of two or more bytes yields the big-endian status code and the remaining bytes as reason. A one-byte close payload is reported as an error that is not an end-of-data indication. Sending a close message writes exactly that code and reason.",
  ["inputs"], "all close payloads within the length bound, both directions, both APIs",
  "Tests never parse a close payload from the wire.",
  [B+"message.rs"], [("Close branch of from_dataframes", B+"message.rs"), ("write_payload / take_payload of Close", B+"message.rs")])
p("C11", "Receivers enforce frame and message size limits",
  "A frame whose header announces more payload than the configured frame limit is rejected from the header alone, before any of its payload is awaited or buffered, and a frame at or under the limit is never rejected for its size. As soon as the accumulated payload of an unfinished fragmented message exceeds the configured message limit the receiver returns an error instead of asking for another frame, and it returns none as long as the payload plus a fixed overhead of at most 64 bytes per frame is within the limit. Unfragmented messages are subject to the frame limit only.",
  ["inputs", "histories", "configurations"], "all announced 64-bit lengths against all limit values up to 4 GiB; all fragment sizes in sequences within the bound; blocking and asynchronous receivers",
  "Tests never set a limit nor exceed one.",
  ["src/receiver.rs", B+"codec/ws.rs", B+"dataframe.rs"],
  [("max_dataframe_size / max_message_size checks", "src/receiver.rs, "+B+"codec/ws.rs"), ("read_dataframe_with_limit", B+"dataframe.rs")])
p("C12", "Configured size limits reach the connection they were configured for",
  "Frame and message size limits given to a client builder, or to a server's accept-with-limits call, are the limits the resulting connection enforces, each for what it names, in the blocking and asynchronous APIs. Without configuration the documented default frame limit (100 MB) applies, and a default message limit above it.",
  ["inputs", "configurations"], "all pairs of limits and all frame/fragment sizes relative to them within the bound, on all four kinds of established connection",
  "No test establishes a connection with limits.",
  ["src/client/builder.rs", "src/client/sync.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/receiver.rs", B+"codec/ws.rs"],
  [("ClientBuilder::max_dataframe_size/max_message_size -> connect_on/async_connect_on", "src/client/builder.rs"), ("accept_with_limits", "src/server/upgrade/")])
p("C13", "Asynchronous decoding does not depend on how bytes arrive",
  "However the incoming byte stream is cut into chunks, the asynchronous frame and message decoders yield the same sequence of frames, messages and errors. A decode that yields a frame consumes exactly its bytes, and one that reports that more data is needed consumes nothing of an incomplete frame.",
  ["inputs", "schedules"], "all byte streams within the bound and all chunk boundaries",
  "Tests decode from a cursor that delivers everything at once.",
  [B+"codec/ws.rs"], [("DataFrameCodec::decode / MessageCodec::decode", B+"codec/ws.rs")])
p("C14", "Blocking and asynchronous receivers agree on every input",
  "For every incoming byte stream the blocking and the asynchronous receiver, configured alike, deliver the same sequence of messages and fail on the same message, with the same class of error where the peer violated the protocol (exceeding a size limit is not such a violation). This holds for client and server roles.",
  ["inputs"], "all byte streams within the bound (sizes away from the limits' documented off-by-one)",
  "No test compares the two implementations.",
  ["src/receiver.rs", B+"codec/ws.rs", B+"dataframe.rs", B+"message.rs"],
  [("two separate implementations of the same state machine", "src/receiver.rs and "+B+"codec/ws.rs")])
p("C15", "No input makes a receiver panic or allocate what it has not received",
  "No byte stream from the peer makes the blocking or asynchronous frame and message readers panic, overflow, read out of bounds or abort. Memory requested before payload arrives is bounded by the configured frame limit and never by the length the peer merely announces.",
  ["inputs"], "all byte streams within the bound, including all 64-bit announced lengths, with and without limits",
  "Tests feed only well-formed frames.",
  [B+"dataframe.rs", B+"codec/ws.rs", "src/receiver.rs", B+"message.rs", B+"ws/util/header.rs"],
  [("length checks before allocation", B+"dataframe.rs, "+B+"codec/ws.rs")])
p("C16", "A truncated stream never yields a frame and is reported as end of data",
  "If the transport ends inside a frame, the blocking readers report no data available and deliver nothing from that frame, and the asynchronous ones deliver nothing from it and report an error at the end of the stream (which between frames is none); frames completed before the cut are still delivered. Any other transport error is reported to the caller as an I/O error of the same kind.",
  ["inputs", "fault_sequences"], "every cut point of every frame sequence within the bound; transport errors of every kind at every read",
  "Tests truncate one frame at two points.",
  [B+"dataframe.rs", B+"result.rs", "src/receiver.rs", B+"codec/ws.rs"],
  [("UnexpectedEof mapping", B+"result.rs"), ("incomplete payload check", B+"dataframe.rs")])
p("C17", "Message forms convert into each other without loss",
  "Converting between borrowed and owned messages, in either direction, preserves kind, payload and close data. Taking a message's payload gives the same bytes as writing it, its predicted size is their count, and the close data's byte form is that payload. Kind predicates agree with the kind, and turning a message into a pong succeeds exactly for pings and keeps the payload.",
  ["inputs"], "all message kinds and all payload bytes within the bound",
  "Tests check sizes of fixed messages; conversions and predicates are checked on single examples.",
  [B+"message.rs"], [("From impls, DataFrame impls, CloseData::into_bytes, into_pong", B+"message.rs")])
p("C18", "Sending survives short writes and reports transport failures",
  "However few bytes the transport accepts per call, and wherever it interrupts a call, a successful send delivers the complete frame bytes in order exactly once. A transport failure is reported to the caller, what was delivered before it is a prefix of the frame bytes, and a failed send is never reported as success.",
  ["inputs", "fault_sequences"], "all sequences of per-call accept counts, interruptions and failures within the bound; all message kinds",
  "Tests write only to infallible in-memory buffers.",
  [B+"ws/dataframe.rs", "src/sender.rs", "src/client/sync.rs", B+"ws/sender.rs"], [("write_all of the complete frame", B+"ws/dataframe.rs")])
p("C19", "Splitting or unwrapping a blocking connection loses no buffered bytes",
  "Bytes already read from the transport but not yet consumed when a blocking connection is split are delivered by the resulting reader, so that the messages received before and after splitting are together those of the unsplit connection. The reader keeps the connection's role and limits, the writer its masking, and unwrapping the connection hands back the unread bytes.",
  ["inputs", "histories"], "all message streams within the bound and all split/unwrap points",
  "No test splits a connection with data in flight.",
  ["src/client/sync.rs", "src/receiver.rs", "src/sender.rs", B+"stream.rs"], [("Client::split / into_stream", "src/client/sync.rs")])
p("C20", "The accept token is the RFC 6455 digest of the key, for every key",
  "The accept value derived from a key is SHA-1 over exactly the 24-character base64 form of the 16-byte key followed by the RFC 6455 GUID, for every key. The server sends the base64 form of that value for the client's key, and the client compares the server's value with that of the key it sent.",
  ["inputs"], "all 2^128 keys",
  "Tests check one key.",
  [B+"header.rs", "src/header/accept.rs", "src/server/upgrade/mod.rs", "src/client/builder.rs"],
  [("WebSocketAccept::new", B+"header.rs")])
p("C21", "Key and accept headers parse exactly the canonical-length base64 values",
  "Printing a key or accept value and parsing it back gives the same value; printing gives the standard padded base64 text. Parsing a key succeeds only when the text is base64 of 16 bytes and parsing an accept value only when it is base64 of 20 bytes, always for the standard padded form; the value is then the one the text encodes. Every text of another length or with a character outside the alphabet is rejected with an error, and none makes the parser panic.",
  ["inputs"], "all key and accept values; all header texts within the length bound",
  "Tests parse three fixed strings.",
  [B+"header.rs", "src/header/key.rs", "src/header/accept.rs"], [("FromStr / serialize", B+"header.rs")])
p("C22", "A server accepts exactly well-formed WebSocket upgrade requests",
  "A request is taken as a WebSocket upgrade exactly when it is a GET of at least HTTP/1.1 carrying a valid key, an upgrade header naming websocket and a connection header naming upgrade (both case-insensitive, in any header order and alongside other tokens), and its version header, if any, is a single 13. Every other request is refused with an error that identifies the failed requirement and gives the caller the request, the transport and the buffered bytes back.",
  ["inputs"], "all methods, HTTP versions and presence/absence/values of the five headers within the bound",
  "Tests send a couple of fixed requests.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("validate", "src/server/upgrade/mod.rs")])
p("C23", "The server's acceptance response is a correct 101 for that request",
  "Accepting an upgrade writes status 101 with upgrade websocket, connection upgrade, the accept token of the request's key, and the chosen subprotocol and extensions if and only if they were chosen. Custom headers supplied by the caller are sent but never replace or duplicate the upgrade, connection and accept headers, and the response is complete before any frame is exchanged.",
  ["inputs", "configurations"], "all keys; all choices of subprotocol/extensions/custom headers within the bound; blocking and asynchronous servers",
  "Tests do not inspect the response bytes.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("prepare_headers / accept", "src/server/upgrade/mod.rs, sync.rs, async.rs")])
p("C24", "A client accepts exactly a correct 101 response to its own request",
  "A client treats the handshake as successful exactly when the response has status 101, the accept token derived from the key it sent, an upgrade header whose value is websocket and a connection header naming upgrade (both case-insensitive, whatever the order of the headers). Any other response, including one whose token belongs to another key or whose required headers are missing, ends in an error and no connection, in the blocking and asynchronous APIs.",
  ["inputs"], "all status codes, accept tokens and presence/absence/values of the required headers within the bound, in any order",
  "Tests only run a successful handshake.",
  ["src/client/builder.rs"], [("ClientBuilder::validate", "src/client/builder.rs")])
p("C25", "The client's request is a correct upgrade request for its URL and settings",
  "The request is a GET of the URL's path and query without the fragment, with host (and port if not the scheme default), upgrade, connection, version 13 and exactly one fresh 16-byte key in base64, plus the configured origin, subprotocols, extensions, custom headers and the URL's decoded credentials in Basic form. Host, upgrade, connection, version and key appear exactly once whatever custom headers are configured or cleared.",
  ["inputs", "configurations"], "all URLs of the bounded shapes and all builder settings within the bound",
  "Tests check builder getters on fixed URLs, never the request bytes.",
  ["src/client/builder.rs"], [("build_request", "src/client/builder.rs")])
p("C26", "No byte that follows a handshake message is lost or reordered",
  "Bytes arriving in the same read as the end of the handshake request or response are the first bytes of the WebSocket stream on the established connection, for the blocking and asynchronous client and server. If a server refuses the request they are handed back with the transport.",
  ["inputs", "schedules"], "all trailing bytes within the bound and all chunkings of handshake plus trailing data",
  "Tests never put frame bytes behind a handshake.",
  ["src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/codec/http.rs", "src/client/sync.rs", B+"ws/util/mod.rs"],
  [("Buffer / BufReader::from_parts / FramedParts.read_buf", "src/server/upgrade/, src/client/builder.rs, "+B+"ws/util/mod.rs")])
p("C27", "Rejecting an upgrade request answers 400 and returns the transport",
  "Rejecting an upgrade writes a complete HTTP 400 response, including exactly the custom headers supplied by the caller, and gives the transport back without consuming further input. No 101 status or accept token is ever sent for a rejected request.",
  ["inputs", "configurations"], "all requests and custom headers within the bound, blocking and asynchronous servers",
  "Rejection is not tested.",
  ["src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/server/upgrade/mod.rs"], [("reject / reject_with / internal_reject", "src/server/upgrade/")])
p("C28", "HTTP handshake decoding is chunk-independent and never drops a head",
  "The asynchronous handshake codecs yield the same request or response, consume exactly its head and leave the same remaining bytes however the input is cut into chunks. A complete head is never silently discarded: it yields a message or an error. An encoded request or response decodes to an equal one.",
  ["inputs", "schedules"], "all heads of the bounded shapes, all chunk boundaries, all trailing bytes",
  "Tests decode one fixed request and response delivered whole.",
  ["src/codec/http.rs"], [("decode_head, HttpServerCodec/HttpClientCodec decode", "src/codec/http.rs")])
p("C29", "Client builder settings do what they name and nothing else",
  "Adding subprotocols or extensions appends them in order to those already configured and clearing removes them all; setting the version, origin, key or custom headers affects only that header, the last setting wins, and clearing removes it. Settings may be made in any order with the same result, and the request sent reflects exactly the final settings.",
  ["histories", "inputs"], "all sequences of builder calls within the bound",
  "Tests check a handful of fixed call sequences.",
  ["src/client/builder.rs"], [("ClientBuilder setters", "src/client/builder.rs")])
p("C30", "WebSocket HTTP headers survive printing and parsing",
  "Extension lists with names and parameters, subprotocol lists, origins and version values print to the RFC 6455 text form and parse back to equal values. Parsing splits extension parameters into name and optional value at the first equals sign, and never panics on any text.",
  ["inputs"], "all header values and texts within the bound",
  "Tests check one or two fixed strings per header.",
  ["src/header/extensions.rs", "src/header/protocol.rs", "src/header/origin.rs", "src/header/version.rs"], [("parse_header / Display", "src/header/")])
p("C31", "Masking keys and handshake nonces come fresh from the random source",
  "Each masked frame uses a key of 4 bytes newly drawn from the random generator for that frame, and each client handshake without a configured key a 16-byte nonce newly drawn for that handshake, used unmodified. No key or nonce is derived from data, time or an earlier draw.",
  ["inputs", "histories"], "all outputs of the random source; sequences of frames and handshakes within the bound",
  "Tests cannot distinguish a fixed or reused key from a fresh one.",
  [B+"ws/util/mask.rs", B+"ws/dataframe.rs", B+"header.rs", "src/client/builder.rs"], [("gen_mask, WebSocketKey::new", B+"ws/util/mask.rs, "+B+"header.rs")])
p("C32", "Client and server complete a handshake with each other and then talk",
  "For every key and every builder configuration the request a client sends is accepted by this library's server, and the server's response to it is accepted by that client, with both ends agreeing on the chosen subprotocol and extensions. Messages sent right after the handshake, even before the peer has read the response, arrive unchanged.",
  ["inputs", "configurations", "schedules"], "all keys, subprotocol choices and first messages within the bound; blocking and asynchronous ends in combination",
  "The only end-to-end tests need real sockets and use one configuration.",
  ["src/client/builder.rs", "src/client/sync.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"], [("both handshake halves", "src/client/builder.rs, src/server/upgrade/")])
p("C33", "Client connections go to the URL's host and port, over TLS exactly when asked",
  "Connecting looks up exactly the URL's host, or uses the IP address in it, and connects to the addresses found with the URL's port (default 80 for ws, 443 for wss). connect and async_connect speak TLS exactly for wss (and https) URLs, connect_secure always, connect_insecure never. TLS uses the caller's connector or else one with default validation, and checks the certificate for the URL's host, an IPv6 address without its brackets; every WebSocket byte, the request included, then travels inside TLS. When the look-up, the connection or the TLS handshake fails the caller gets an error, nothing is sent outside TLS, and no socket stays open.",
  ["inputs", "configurations"], "all URLs, ports, resolved addresses, TLS settings and answers of the peer",
  "No test opens a TLS connection or connects by name.",
  ["src/client/builder.rs"], [("establish_tcp, wrap_ssl, extract_host_port, extract_host_ssl_conn, async_tcpstream", "src/client/builder.rs")])
p("C34", "Servers bind exactly what was asked and take each connection on its own",
  "Each bind function (bind, bind_secure, blocking or asynchronous, into_async, try_clone) listens on the first of the given addresses that is free, reports an error when none is, and local_addr reports the address bound; dropping the server closes it. Every incoming connection gives exactly one result of its own: a good WebSocket client an upgrade on its own stream (through TLS for a secure server) with its own peer address; a connection that fails to be accepted, speaks no TLS, breaks off, or sends something else or a plain HTTP request gives an error, nothing is sent to it, and the stream and a parsed request are handed back where there are such. No failed, silent or slow connection ends the server or, with an asynchronous one, holds up or hides another connection. set_nonblocking makes accept report WouldBlock when nobody is there.",
  ["inputs", "histories"], "all addresses, sequences of connections and failures, and orders of arrival",
  "The tests only see an empty non-blocking accept.",
  ["src/server/sync.rs", "src/server/async.rs", "src/server/mod.rs"], [("accept, incoming, bind, bind_secure", "src/server/sync.rs, src/server/async.rs")])
p("C35", "Socket operations act on the connection's own socket only",
  "peer_addr, local_addr, set_nodelay, set_nonblocking and shutdown of a client (over TCP, TLS or boxed streams, and of connections a server accepted) act on exactly that connection's socket with exactly the value given, and report its result, errors included. shutdown_sender and a writer's shutdown close only the writing side, shutdown_receiver and a reader's shutdown only the reading side, shutdown_all both. Splitting a connection gives a reader and a writer on the same socket, each usable on its own and when the other is dropped; the socket is closed when all handles are gone.",
  ["inputs", "configurations"], "all connections, operations, values and failures",
  "No test uses these operations.",
  ["src/client/sync.rs", "src/receiver.rs", "src/sender.rs", "websocket-base/src/stream.rs"], [("shutdown*, set_*, *_addr, split", "src/client/sync.rs"), ("AsTcpStream, Splittable", "websocket-base/src/stream.rs")])
p("C36", "What the handshake said is reported as it was said",
  "An offered upgrade reports the subprotocols and extensions (with their parameters, in order, over however many header lines), key, version, origin and target of the request exactly as the client sent them, and hands on every header; a client reports the subprotocols, extensions and headers of the response exactly as the server sent them, also in the asynchronous API; a connection a server accepted reports what was chosen for it and the headers it really answered, not what was offered.",
  ["inputs", "configurations"], "all names, values, targets and numbers and arrangements of header lines within the bound",
  "Tests look at one fixed request.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/client/sync.rs", "src/client/builder.rs"], [("protocols, extensions, key, version, uri, origin", "src/server/upgrade/mod.rs"), ("protocols, extensions, headers", "src/client/sync.rs")])
p("C37", "A failed handshake is reported as what failed",
  "A response with another status than 101 is reported as that status, one with a 3xx status and a location as a redirection with exactly that status and location; a 101 response with a wrong or missing upgrade, connection or accept header as a wrong response naming that header. A request that a server refuses for one unmet requirement alone is refused with the error of that requirement, which tells a missing upgrade or connection header from one without the right word. A transport that fails with an error (other than Interrupted or WouldBlock) while the request or the response is read or written gives, on both sides and in every accept and reject function, an I/O error of the same kind, never a connection or a success. Converting one of the library's errors into another keeps the kind and OS code of the I/O error or the unmet requirement it carries, and an error that wraps another names it as its source.",
  ["inputs", "faults"], "all statuses, locations, wrong header values and error kinds within the bound, at every chosen place of the exchange",
  "Tests let no handshake fail.",
  ["src/client/builder.rs", "src/result.rs", "src/codec/http.rs", "src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "websocket-base/src/result.rs"], [("validate", "src/client/builder.rs"), ("error types and conversions", "src/result.rs, websocket-base/src/result.rs, src/server/upgrade/mod.rs, src/codec/http.rs")])
p("C38", "Frame, message and receiver types of one's own work like the library's",
  "A frame type of the user's own (implementing the frame trait: opcode, flags, size, payload written in any pieces) is sent, through every sending interface on either side, as exactly one frame with those flags and that opcode, the payload it writes, the shortest length and the form of the role (masked from a client, with the payload XORed with the announced key; unmasked from a server), of the size predicted. A message type of the user's own that serializes itself into several frames is sent as exactly those frames and reaches the peer as one message. A receiver of the user's own built on the trait gets exactly the frames sent, in order, through the trait's provided functions and iterators, up to the reported end. The library's messages can be made from frames of the user's own and are refused for a reserved flag, a first frame that is not the start of a message, or no frame.",
  ["inputs", "configurations"], "all flags, opcodes and payloads of user-defined frames within the bound, on every sending and receiving interface",
  "Tests use the library's own frame and message types only.",
  [B+"ws/dataframe.rs", B+"ws/message.rs", B+"ws/sender.rs", B+"ws/receiver.rs", B+"message.rs", "src/sender.rs", "src/client/sync.rs", B+"codec/ws.rs"], [("write_to, frame_size defaults", B+"ws/dataframe.rs"), ("provided functions and iterators", B+"ws/receiver.rs, "+B+"ws/sender.rs")])
p("C39", "A pair of streams reads as its reader and writes as its writer",
  "A stream made of a reader and a writer behaves, in every sequence of reads, writes, flushes and shutdowns (blocking and asynchronous), exactly as its reader for reading and as its writer for writing: the same results, counts and error kinds, the same bytes taken and given, the same number of flushes and shutdowns, never anything on the other half; splitting it gives both halves back as they are. A connection over such a pair receives from the reader and sends to the writer alone, and when asynchronous flushes and shuts down the writer.",
  ["inputs", "histories", "faults"], "all sequences of operations, failures and short reads and writes within the bound",
  "Tests use a pair for one exchange.",
  [B+"stream.rs"], [("ReadWritePair", B+"stream.rs")])
p("C40", "Operations on one connection take their places in one order",
  "On one blocking connection every operation takes its place in the order made: receiving messages and frames, singly or through iterators, reading raw bytes through its reader, sending messages and frames, and writing raw bytes through its writer. Each read gets exactly the next bytes received, wherever the transport cut them and however much was read ahead, and what it leaves is what the next operation, the reader made by splitting or the unwrapped stream gets; each write is on the wire when it returns, behind the one before; a message begun before other operations is still completed; nothing else is read, written or lost, also when the connection or an offered upgrade is dropped. A framed connection whose codec is exchanged keeps what it has read but not delivered and what it has accepted but not written.",
  ["inputs", "histories"], "all sequences of operations, read boundaries and payload contents within the bound",
  "Tests perform one or two operations on a connection and never mix raw access with messages.",
  ["src/client/sync.rs", "src/receiver.rs", B+"ws/receiver.rs", B+"ws/util/mod.rs", B+"stream.rs", "src/server/upgrade/mod.rs"], [("reader_mut, writer_mut, stream_ref, split, into_stream", "src/client/sync.rs"), ("update_framed_codec", B+"ws/util/mod.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
