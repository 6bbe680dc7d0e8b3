#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for titles / statements / anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": None},
    })

B = "websocket-base/src/"
# ------------------------------------------------------------------ frames
p("F01", "Every frame written is exactly its RFC 6455 encoding",
  "Writing a frame or message emits exactly one RFC 6455 frame: the FIN, reserved and opcode bits given, the shortest length form (7, 16 or 64 bit, big-endian), the mask bit and 4-byte key if and only if masking was asked for, then the payload (XORed with that key when masked). The size reported for it beforehand equals the number of bytes emitted. A control opcode with a payload over 125 bytes, or an opcode above 15, is refused with an error and nothing at all is written.",
  ["inputs"], "all opcodes 0..255, all reserved/FIN/mask combinations, all payload lengths around 0/125/126/65535/65536 and beyond, through every writing API (frame, message, header function, Sender, Writer, codecs)",
  "websocket-base's unit tests for headers and frames are not even compiled by the test run; the rest sample two or three fixed messages under 126 bytes.",
  [B+"ws/dataframe.rs", B+"ws/util/header.rs", B+"dataframe.rs", B+"message.rs", B+"codec/ws.rs", "src/sender.rs"],
  [("write_to", B+"ws/dataframe.rs"), ("write_header", B+"ws/util/header.rs"), ("frame_size", B+"ws/dataframe.rs"), ("Encoder for DataFrameCodec/MessageCodec", B+"codec/ws.rs")],
  observe=["bytes handed to the underlying writer"])
p("F02", "Frame decoding is the exact inverse of RFC 6455 encoding",
  "Reading a well-formed frame yields exactly its FIN, reserved bits, opcode and unmasked payload and consumes exactly its bytes, however the bytes are divided into reads or buffer refills, in both the blocking and the asynchronous decoder. A length that is not in its shortest form, a fragmented control frame and a control frame longer than 125 bytes are always rejected with an error. An incomplete frame is never delivered: the blocking reader reports that no data is available and the asynchronous decoder asks for more, leaving the partial bytes in place.",
  ["inputs", "schedules"], "all frames, all chunkings of the byte stream, all truncation points",
  "Tests read a handful of complete, in-memory frames; none split a frame at every byte or test the malformed length forms.",
  [B+"ws/util/header.rs", B+"dataframe.rs", B+"codec/ws.rs", "src/receiver.rs"],
  [("read_header", B+"ws/util/header.rs"), ("read_dataframe / read_dataframe_with_limit / read_dataframe_body", B+"dataframe.rs"), ("Decoder for DataFrameCodec", B+"codec/ws.rs")],
  observe=["returned frames", "remaining bytes of the reader / buffer"])
p("F03", "Masking is a position-exact XOR with the 4-byte key",
  "Masking XORs byte i of the payload with key byte i mod 4 and nothing else, so applying the same key twice restores the data and the length never changes. A masking writer treats everything passed through it as one continuous stream: whatever the sizes of the writes, and even when the underlying writer accepts only part of a write, byte i that reaches the underlying writer is data byte i XOR key byte i mod 4. A received masked frame of any key and length is delivered with its original payload.",
  ["inputs", "fault_sequences"], "all keys, payload lengths and alignments, all sequences of write sizes and short writes",
  "The masking unit tests are not compiled by the test run and use one aligned 8-byte buffer.",
  [B+"ws/util/mask.rs", B+"dataframe.rs", B+"ws/dataframe.rs"],
  [("mask_data", B+"ws/util/mask.rs"), ("Masker::write", B+"ws/util/mask.rs")],
  state=[("Masker.pos", "position in the key of the next byte", B+"ws/util/mask.rs")])
p("F04", "Client frames are always masked, server frames never, and enforced",
  "Every frame or message a client endpoint sends is masked and every one a server endpoint sends is unmasked, whatever API sends it (connected client, split writer, frame or message codec, sync or async). A server endpoint rejects every unmasked incoming frame and a client endpoint every masked one with an error, for data, continuation and control frames of any length including empty ones, and never delivers their content.",
  ["inputs", "configurations"], "all frames, both roles, every sending and receiving API, at any position of a connection's history",
  "Existing tests exercise one role for one text message; no test sends a frame with the wrong masking.",
  [B+"dataframe.rs", B+"codec/ws.rs", "src/client/sync.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/sender.rs", "src/receiver.rs"],
  [("read_dataframe_body should_be_masked", B+"dataframe.rs"), ("Context / is_server", B+"codec/ws.rs"), ("unchecked_with_limits(out_mask, in_mask)", "src/client/sync.rs")])
p("F05", "Mask keys are fresh and unpredictable for every frame",
  "Every masked frame carries its own newly generated 32-bit key: keys do not repeat across frames, messages, connections, threads or processes more often than independent uniform random choice would, every key bit varies, and keys neither follow a fixed step nor depend on the payload.",
  ["inputs", "histories"], "all sequences of sends, over all APIs that mask, across process restarts",
  "No test looks at the key of a sent frame at all.",
  [B+"ws/util/mask.rs", B+"ws/dataframe.rs"],
  [("gen_mask", B+"ws/util/mask.rs"), ("write_to", B+"ws/dataframe.rs")])
p("F06", "The data frame size limit is exact and applied before buffering",
  "A receiving endpoint configured with a maximum data frame size accepts every frame whose payload is at most that size and rejects with an error every frame that announces more, as soon as the frame's header has arrived and before any of its payload is waited for or buffered. This holds for blocking and asynchronous endpoints, first, continuation and control frames alike.",
  ["inputs", "configurations"], "all limits (0 up to above u32::MAX), all announced lengths up to 2^63, both decoders, all frame kinds",
  "No test sets a limit.",
  ["src/receiver.rs", B+"dataframe.rs", B+"codec/ws.rs"],
  [("read_dataframe_with_limit", B+"dataframe.rs"), ("max_dataframe_size check", B+"codec/ws.rs")],
  state=[("max_dataframe_size", "limit in bytes", "src/receiver.rs, "+B+"codec/ws.rs")])
# ------------------------------------------------------------------ messages
p("M01", "A message is sent as one final frame carrying exactly its content",
  "Sending a borrowed or owned text, binary, ping, pong or close message emits one FIN frame with no reserved bits, the opcode of its kind and exactly its payload; a close with a status code carries the code as two big-endian bytes followed by the reason, and a close without one is empty. The announced message size equals the bytes written. Decoding what was sent, with the blocking or asynchronous receiver, gives an equal message.",
  ["inputs"], "all message kinds, texts, byte strings, close codes and reasons; masked and unmasked; Message and OwnedMessage",
  "Tests cover one short text, ping and close each.",
  [B+"message.rs", B+"ws/dataframe.rs", B+"codec/ws.rs", "src/sender.rs"],
  [("DataFrame impls for Message / OwnedMessage", B+"message.rs"), ("from_dataframes", B+"message.rs")])
p("M02", "Blocking receive reassembles messages exactly once and in order",
  "For any valid incoming frame sequence, successive blocking receives return each data message exactly once, with its fragments' payloads concatenated in order and the kind of its first fragment, at the point its final fragment arrives, and every control frame on its own at the point where it arrives, even between fragments of a data message. This does not depend on how the bytes are divided into reads, on reads that are interrupted, on reads that would block between two frames, or on which receiving API (single receive, iterator, split reader) is used for each message. When the stream ends between messages the receiver reports that no data is available.",
  ["inputs", "schedules", "histories"], "all sequences of fragmented/unfragmented data messages with interleaved control frames, all read chunkings, would-block at any frame boundary, any mix of receive APIs",
  "No test receives a fragmented message, let alone one with interleaved control frames or short reads.",
  ["src/receiver.rs", B+"message.rs", B+"ws/receiver.rs", "src/client/sync.rs"],
  [("recv_message_dataframes", "src/receiver.rs"), ("from_dataframes", B+"message.rs"), ("MessageIterator / DataFrameIterator", B+"ws/receiver.rs")],
  state=[("Receiver.buffer", "fragments of the unfinished message", "src/receiver.rs")])
p("M03", "Asynchronous message decoding is chunking-invariant and agrees with sync",
  "For any incoming byte sequence the asynchronous message decoder yields the same messages in the same order whatever the sizes of the chunks in which the bytes arrive, down to single bytes, and it delivers each message as soon as its last byte is there. On valid frame sequences its messages are exactly those of the blocking receiver; on invalid ones both deliver the same messages before failing. Bytes after a complete message stay available for the next one.",
  ["inputs", "schedules"], "all frame sequences (valid and invalid), all chunkings and readiness patterns",
  "The async tests decode one or two whole unfragmented messages given in one piece.",
  [B+"codec/ws.rs", "src/receiver.rs", B+"message.rs"],
  [("Decoder for MessageCodec", B+"codec/ws.rs"), ("Decoder for DataFrameCodec", B+"codec/ws.rs")],
  state=[("MessageCodec.buffer", "fragments of the unfinished message", B+"codec/ws.rs")])
p("M04", "Text and close reasons are valid UTF-8, judged on the whole message",
  "A text message is delivered if and only if the concatenation of its fragments is valid UTF-8, wherever the fragment boundaries fall (including inside a multi-byte character), and then with exactly those characters; otherwise receiving fails with an error. The same holds for the reason after the status code of a close message. Binary, ping and pong payloads are never subject to UTF-8 validation.",
  ["inputs"], "all byte strings (valid, truncated, overlong, surrogate, out-of-range sequences) and all fragmentations, sync and async",
  "No test receives non-ASCII or invalid text.",
  [B+"message.rs", B+"ws/util/mod.rs", "src/receiver.rs", B+"codec/ws.rs"],
  [("from_dataframes UTF-8 check", B+"message.rs"), ("bytes_to_string", B+"ws/util/mod.rs")])
p("M05", "Protocol violations are errors, never messages",
  "Receiving fails with an error, and delivers nothing of the offending message, when a frame of a message has a reserved bit set, a message starts with an undefined opcode (3-7, 11-15) or with a continuation, a new data frame arrives inside an unfinished message, a control frame is fragmented or over 125 bytes, or a close body is exactly one byte long. Every message completed before the violation has been delivered, and this is the same for the blocking and asynchronous receivers and for forming a message directly from frames.",
  ["inputs", "histories"], "one violation of every kind at every position of a valid frame history (start, inside a fragmented message, after control frames)",
  "No test feeds an invalid frame sequence.",
  ["src/receiver.rs", B+"codec/ws.rs", B+"message.rs", B+"ws/util/header.rs"],
  [("recv_message_dataframes opcode checks", "src/receiver.rs"), ("MessageCodec::decode opcode checks", B+"codec/ws.rs"), ("from_dataframes", B+"message.rs"), ("read_header", B+"ws/util/header.rs")])
p("M06", "The message size limit stops further continuation frames",
  "Once the fragments received for an unfinished message carry more payload than the configured maximum message size, no more continuation frames are accepted: receiving fails with an error and the message is never delivered, in the blocking and the asynchronous receiver alike. A message whose unfinished fragments stay below the maximum, counting 64 bytes of bookkeeping per fragment, is always delivered. A message of more than 1,048,576 frames is refused even when its fragments are empty.",
  ["inputs", "histories", "configurations"], "all limits and fragment size sequences, with control frames interleaved anywhere, including floods of empty fragments",
  "No test sets a message limit or sends a fragmented message.",
  ["src/receiver.rs", B+"codec/ws.rs"],
  [("current_message_length check", "src/receiver.rs"), ("current_message_length check", B+"codec/ws.rs"), ("MAX_DATAFRAMES_IN_ONE_MESSAGE", "src/receiver.rs, "+B+"codec/ws.rs")],
  state=[("max_message_size", "limit in bytes", "src/receiver.rs, "+B+"codec/ws.rs")])
p("M07", "Message conversions and predicates preserve kind and content",
  "Converting between borrowed and owned messages in either direction, and from strings and byte vectors, preserves kind, payload, close code and reason, so a round trip gives an equal message. The kind predicates (close, control, data, ping, pong) agree with the kind, taking the payload gives exactly the bytes that would be sent, close data converts to its wire bytes, and turning a ping into a pong keeps the data and fails without change on any other kind. Data frames returned by the low-level API report and give up exactly their payload.",
  ["inputs"], "all messages of every kind and content",
  "Doc tests check one hard-coded message per predicate.",
  [B+"message.rs", B+"dataframe.rs"],
  [("From impls", B+"message.rs"), ("into_pong", B+"message.rs"), ("CloseData::into_bytes", B+"message.rs"), ("Opcode::new", B+"dataframe.rs")])
# ------------------------------------------------------------------ robustness / IO
p("R01", "No input bytes can panic, hang or over-allocate a receiver",
  "Whatever bytes a peer sends, every receiving entry point (frame and message receive, frame and message decoders, request and response parsing, header value parsing, handshake in either role) returns a result or an error: it never panics, never loops without consuming input, and never allocates memory out of proportion to the bytes actually received, in particular not for a length merely announced in a header.",
  ["inputs"], "all byte strings: random, structured-then-mutated frames and HTTP heads, extreme announced lengths",
  "Tests feed only well-formed input.",
  [B+"dataframe.rs", B+"ws/util/header.rs", B+"codec/ws.rs", B+"message.rs", "src/receiver.rs", "src/codec/http.rs", "src/server/upgrade/mod.rs", "src/client/builder.rs", "src/header/"],
  [("read_dataframe / read_dataframe_with_limit", B+"dataframe.rs"), ("from_dataframes", B+"message.rs"), ("validate", "src/server/upgrade/mod.rs")],
  observe=["panics", "counting allocator", "reads past end of input"])
p("R02", "Short writes, interrupted I/O and I/O errors never corrupt the stream",
  "When the transport accepts writes only piecemeal or interrupts them, every frame, message and handshake head still arrives complete, once and in order. When the transport fails, the bytes it accepted are a prefix of the correct encoding and the caller gets an error; read errors are reported as errors and an end of stream inside a frame or fragmented message is never turned into a message or a truncated payload.",
  ["fault_sequences", "crash_points"], "every transport fault pattern: short read/write sizes, interruptions, an error or end of stream at every byte position, for both blocking and asynchronous endpoints",
  "Tests use in-memory buffers that never fail or split.",
  [B+"ws/dataframe.rs", B+"dataframe.rs", B+"result.rs", "src/client/builder.rs", "src/server/upgrade/sync.rs", B+"codec/ws.rs", "src/codec/http.rs"],
  [("write_all in write_to", B+"ws/dataframe.rs"), ("incomplete payload check", B+"dataframe.rs"), ("From<io::Error>", B+"result.rs"), ("WsUpgrade::send", "src/server/upgrade/mod.rs")])
p("R03", "Errors say what went wrong",
  "A failing transport is reported as an I/O error of the same kind, whichever error variant carries it, while receiving, sending, shaking hands (either role, blocking and asynchronous) and connecting, and converting between the error types keeps the kind, the text, the source and the concrete error. A malformed HTTP head is reported as an HTTP parsing error, the end of the stream inside a head as an I/O or protocol error, protocol violations and wrong masking as protocol or data frame errors, bad text as a UTF-8 error, and an exceeded limit never as something that callers take for the end of the data or for 'try again'. A refused connection, a URL without host and a peer that does not speak TLS are told apart.",
  ["inputs", "fault_sequences"], "every kind of I/O error at every byte of every exchange, every violation at any place of a history, malformed heads, unreachable and misbehaving peers, all conversions between error types",
  "Tests hardly look at errors beyond that there is one.",
  [B+"result.rs", "src/result.rs", "src/codec/http.rs", "src/server/upgrade/mod.rs", "src/server/upgrade/async.rs", "src/client/builder.rs", "src/client/async.rs"],
  [("From<io::Error>", B+"result.rs"), ("towse, From impls", "src/result.rs"), ("HttpCodecError", "src/codec/http.rs"), ("HyperIntoWsError", "src/server/upgrade/mod.rs")])
p("R04", "Long-running connections and servers keep a steady footprint",
  "Memory held by a connection does not grow with the number of messages received or sent, and memory held by a process does not grow with the number of handshakes made or served, whether they succeed, fail, are rejected or are dropped, and whatever their keys, paths and hosts are; no message gets lost or altered however many came before. When a connection, both halves of a split connection, a handshake in progress, a refused request or a failed attempt to connect is dropped, its stream is closed so that the peer sees the end; dropping one half alone leaves the other usable. A dropped server frees its port.",
  ["inputs", "histories", "programs"], "every history repeated any number of times through every receiving and sending API; every sequence of handshakes with any outcome, any number of times; every way to let go of a connection or server",
  "Tests exchange a handful of messages and never look at what is left behind.",
  ["src/receiver.rs", "src/sender.rs", B+"codec/ws.rs", B+"ws/util/mask.rs", B+"header.rs", B+"stream.rs", "src/client/sync.rs", "src/client/async.rs", "src/client/builder.rs", "src/server/sync.rs", "src/server/async.rs", "src/server/upgrade/"],
  [("Receiver::buffer", "src/receiver.rs"), ("MessageCodec::buffer", B+"codec/ws.rs"), ("Splittable::split", B+"stream.rs"), ("WsServer::accept", "src/server/sync.rs")],
  observe=["counting allocator", "ends of streams", "refused connects"])
# ------------------------------------------------------------------ handshake
p("H01", "Accept tokens are derived from the key exactly as RFC 6455 says",
  "For every 16-byte key the accept token is the base64 of the SHA-1 of the key's base64 text followed by the WebSocket GUID. A key header parses if and only if it is the base64 of exactly 16 bytes and an accept header if and only if it is the base64 of exactly 20 bytes; parsing and formatting are inverse.",
  ["inputs"], "all keys; all strings offered as key or accept values",
  "Tests check the single RFC example and three lengths.",
  [B+"header.rs", "src/header/key.rs", "src/header/accept.rs"],
  [("WebSocketAccept::new", B+"header.rs"), ("FromStr for WebSocketKey / WebSocketAccept", B+"header.rs")])
p("H02", "WebSocket headers survive formatting and parsing unchanged",
  "Formatting a protocol list, extension list (with parameters, with and without values), version, origin, key or accept header and parsing the result gives back an equal value, and parsing ignores optional whitespace around the separators. Elements keep their order and number, lists split over several header lines are joined, and an extension parameter `name=value` parses into that name and that value.",
  ["inputs"], "all lists of tokens, extensions with any parameters, all whitespace layouts",
  "Tests compare the formatted text of one fixed value per header, which hides that parameters were parsed wrongly.",
  ["src/header/protocol.rs", "src/header/extensions.rs", "src/header/version.rs", "src/header/origin.rs", "src/header/key.rs", "src/header/accept.rs"],
  [("Extension::from_str", "src/header/extensions.rs"), ("parse_header / fmt_header", "src/header/*.rs")])
p("H03", "A server upgrades exactly the requests RFC 6455 allows",
  "A request is accepted for upgrade if and only if its method is GET, its HTTP version is at least 1.1, its WebSocket version is 13 or not given, it has a key of 16 base64-encoded bytes, its Upgrade header lists websocket and its Connection header lists upgrade (both in any letter case, among other values). Otherwise it is refused with an error naming a condition that the request really violates.",
  ["inputs"], "all combinations of satisfied and violated conditions, with header case, order, whitespace, list values and unrelated headers varied, over sync, async and direct validation",
  "Tests try a few fixed requests, one violation each.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("validate", "src/server/upgrade/mod.rs")])
p("H04", "All upgrade entry points agree, and refusals hand everything back",
  "The blocking stream, asynchronous stream, parsed request with stream, and hyper request entry points make the same decision on the same request and expose the same parsed request. A refused connection returns the stream, the parsed request if the head could be parsed, and the buffered bytes, so that together with what is still unread on the stream exactly the bytes following the request head are available (all bytes, for a blocking stream whose head could not be parsed).",
  ["inputs", "schedules"], "all requests valid and invalid, with any trailing bytes and any chunking of the connection",
  "Tests look only at the decision for the blocking entry point.",
  ["src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/server/sync.rs", "src/server/async.rs", "src/server/mod.rs"],
  [("IntoWs impls", "src/server/upgrade/sync.rs, src/server/upgrade/async.rs"), ("InvalidConnection", "src/server/mod.rs")])
p("H05", "An accepted upgrade is answered with exactly the right 101 response",
  "Accepting sends one 101 Switching Protocols head whose accept token matches the request key, with Upgrade websocket and Connection Upgrade whatever custom headers were given, all other custom headers, and the chosen protocols and extensions in the order they were added. The connection returned reports the headers that were sent, and blocking and asynchronous accepts send the same.",
  ["inputs", "histories"], "all valid requests, sequences of protocol/extension choices and custom header sets, every accept variant",
  "Tests do not look at the bytes of an accept response.",
  ["src/server/upgrade/mod.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs"],
  [("prepare_headers", "src/server/upgrade/mod.rs"), ("send", "src/server/upgrade/mod.rs"), ("internal_accept_with_limits", "src/server/upgrade/sync.rs, async.rs")])
p("H06", "A rejected upgrade sends a 400 response and gives the stream back",
  "Rejecting sends one 400 Bad Request head with the custom headers and chosen protocols/extensions but no accept token, in the HTTP version of the request, followed by nothing, and hands the stream back still usable; dropping an upgrade sends nothing. Blocking and asynchronous rejects send the same.",
  ["inputs"], "all valid requests and custom header sets, sync and async, with pending bytes on the connection",
  "No test rejects an upgrade.",
  ["src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/server/upgrade/mod.rs"],
  [("internal_reject", "src/server/upgrade/sync.rs, async.rs"), ("send", "src/server/upgrade/mod.rs")])
p("H07", "The client handshake request is exactly what the builder was told",
  "Connecting sends one GET request for the URL's path and query (no fragment) with the URL's host and any non-default port in Host, Upgrade websocket, Connection Upgrade, version 13 unless overridden, a 16-byte key, Basic credentials if the URL has a user name, and precisely the protocols, extensions, origin and custom headers resulting from the sequence of builder calls, with later calls overriding or clearing earlier ones as documented. No value given to the builder can inject additional header lines. Blocking and asynchronous connects send the same request, and a builder can be used for several connections.",
  ["inputs", "histories"], "all URLs and all sequences of builder operations",
  "Two tests check protocol lists and one fixed user name inside the builder, never the bytes sent.",
  ["src/client/builder.rs"],
  [("build_request", "src/client/builder.rs"), ("connect_on / async_connect_on", "src/client/builder.rs"), ("builder setters", "src/client/builder.rs")],
  state=[("ClientBuilder.headers, key_set, version_set", "accumulated request headers", "src/client/builder.rs")])
p("H08", "A client accepts exactly the handshake responses RFC 6455 allows",
  "A connection is established if and only if the response has status 101, the accept token belonging to the key sent, an Upgrade header equal to websocket and a Connection header listing upgrade, in any letter case. Otherwise connecting fails with an error that says why: a redirect with the target for a 3xx status with a Location, the status for any other status, a response error naming the header. Blocking and asynchronous clients agree.",
  ["inputs"], "all response statuses and header combinations, accept tokens of other keys, varied case and extra headers, sync and async",
  "Tests use only a correct response, which hid that the response's Connection header was never looked at.",
  ["src/client/builder.rs", "src/result.rs"],
  [("validate", "src/client/builder.rs")])
p("H09", "Bytes arriving together with the handshake are not lost",
  "WebSocket frames that reach an endpoint in the same chunk as, or split anywhere relative to, the end of the handshake head are all received, once and in order, by the resulting connection. This holds for blocking and asynchronous clients, for every server accept variant, and for a hyper server request handed over for upgrade.",
  ["inputs", "schedules"], "all frame sequences following the head, all chunkings of head plus frames",
  "Tests send the handshake and data separately or not at all.",
  ["src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", B+"ws/util/mod.rs", "src/client/sync.rs"],
  [("BufReader::from_parts", "src/server/upgrade/sync.rs"), ("update_framed_codec", B+"ws/util/mod.rs"), ("take_buf", "src/server/upgrade/sync.rs")],
  state=[("Buffer{buf,pos,cap}", "read-ahead bytes", "src/server/upgrade/sync.rs")])
p("H10", "Every connection attempt uses a fresh random key unless one is fixed",
  "Unless the user fixed a key, each handshake carries a newly generated 16-byte key that does not repeat across attempts, builders, threads or processes and whose every bit varies; a fixed key is sent on every attempt until it is cleared, after which keys are random again. The response is always judged against the key of the same attempt.",
  ["inputs", "histories"], "all sequences of setting/clearing the key and connecting, with one or many builders, across processes",
  "No test compares the keys of two connections.",
  ["src/client/builder.rs", B+"header.rs", "src/header/key.rs"],
  [("key_set", "src/client/builder.rs"), ("WebSocketKey::new", B+"header.rs")])
p("H11", "The asynchronous HTTP codecs are exact, incremental and loss-free",
  "Encoding a request or response head and decoding it with the opposite codec gives the same method, target, version, status and headers. Decoding does not depend on how the bytes arrive, yields nothing until the blank line, then consumes exactly the head and leaves everything after it untouched. A complete head is never silently dropped: it yields the message or an error.",
  ["inputs", "schedules"], "all heads (including too many headers and malformed ones), chunkings, pipelined heads and trailing bytes",
  "Two tests decode one fixed head each in a single chunk.",
  ["src/codec/http.rs"],
  [("split_off_http", "src/codec/http.rs"), ("Decoder/Encoder for HttpClientCodec / HttpServerCodec", "src/codec/http.rs")])
# ------------------------------------------------------------------ connections
p("E01", "Connected endpoints exchange every message intact and in order",
  "After a handshake between a client and a server, each of them blocking or asynchronous, every message sent by either side is received by the other exactly once, in order and with equal content, for any interleaving of sends in both directions and any way the transport divides the bytes. A client that has sent everything and ends its stream lets the server see the end only after all messages.",
  ["inputs", "schedules", "histories"], "all message sequences in both directions, all four client/server pairings, all transport chunkings",
  "Tests connect no client to a server; examples send one message.",
  ["src/client/builder.rs", "src/client/sync.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", B+"codec/ws.rs", "src/receiver.rs", "src/sender.rs"],
  [("Client::send_message / recv_message", "src/client/sync.rs"), ("MessageCodec", B+"codec/ws.rs")])
p("E02", "Configured size limits are the ones the connection enforces",
  "The data frame and message size limits given to the client builder or to an accept call are the ones the resulting connection enforces, each for its own quantity, on blocking and asynchronous connections alike. Without configuration, connections and stand-alone receivers and codecs accept data frames up to 100 MiB and stop accepting continuations of a message beyond 200 MiB.",
  ["configurations", "inputs"], "all pairs of limits, every connect and accept variant, frames and messages around both limits",
  "No test sets limits, which hid that the blocking client ignored the message limit.",
  ["src/client/builder.rs", "src/server/upgrade/sync.rs", "src/server/upgrade/async.rs", "src/client/sync.rs", "src/receiver.rs", B+"codec/ws.rs"],
  [("connect_on", "src/client/builder.rs"), ("async_connect_on", "src/client/builder.rs"), ("internal_accept_with_limits", "src/server/upgrade/*.rs"), ("DEFAULT_MAX_*", "several")])
p("C01", "Splitting or dismantling a connection loses no state",
  "Splitting a connection into a reader and a writer at any moment, or taking its stream back, keeps every byte already buffered, the fragments of a partly received message, the masking role and the limits: the reader continues exactly where the connection stopped, the writer sends as the connection would, and the returned buffer followed by the rest of the stream is exactly what had not been consumed. Raw access to the reading side yields exactly those bytes and raw access to the writing side reaches the transport unchanged.",
  ["histories", "schedules"], "all histories of receives before the split, with any amount of read-ahead and partly received messages",
  "One doc test splits a fresh connection.",
  ["src/client/sync.rs", "src/receiver.rs", "src/sender.rs", B+"stream.rs"],
  [("Client::split / into_stream / reader_mut / writer_mut", "src/client/sync.rs"), ("Splittable", B+"stream.rs"), ("ReadWritePair", B+"stream.rs")],
  state=[("BufReader buf/pos/cap", "read-ahead", "src/client/sync.rs")])
p("C02", "Shutdown and socket options act on the right direction and socket",
  "Shutting down the sending side makes the peer see the end of the stream after all data sent while receiving still works; shutting down the receiving side ends local receiving while sending still works; a full shutdown does both; on a connected client and on its split reader and writer alike. The non-blocking and no-delay options and the local and peer addresses are those of the connection's own socket, and a non-blocking receive without data fails with would-block instead of blocking or ending.",
  ["histories"], "all sequences of sends, receives, option changes and shutdowns on client, reader and writer",
  "No test calls a shutdown or reads an address.",
  ["src/client/sync.rs", "src/receiver.rs", "src/sender.rs", B+"stream.rs"],
  [("shutdown*", "src/client/sync.rs, src/receiver.rs, src/sender.rs"), ("AsTcpStream", B+"stream.rs")])
p("C03", "Waiting is unlimited, and sockets keep the options the application gave them",
  "The library gives nothing up because it takes long: between accepting a connection and its TLS handshake, within the TLS handshake, within a request or response head, before a request is answered, within a message, between messages and before the end, either side may rest for any time, and everything goes on afterwards as if it had not, for blocking and asynchronous clients and servers, plain and TLS. Sockets handed out (connected clients, both halves of a split one, requests not answered yet, accepted clients, streams of rejected or refused requests, streams taken out of a client) have no read or write timeout, do not linger, have the system's TTL, and block (non-blocking on asynchronous endpoints), unless the application changed that; what it changed stays changed through handshake, exchanges, split and taking apart.",
  ["inputs", "schedules", "histories"], "all lengths of rests (up to 34 s quick, 130 s thorough) at all points of a connection's life; all options set at all points",
  "Tests answer at once and never look at socket options.",
  ["src/client/builder.rs", "src/client/sync.rs", "src/client/async.rs", "src/server/sync.rs", "src/server/async.rs", "src/server/upgrade/", B+"stream.rs"],
  [("ClientBuilder::connect*/async_connect*", "src/client/builder.rs"), ("WsServer::accept / incoming", "src/server/"), ("Upgrade::accept/reject", "src/server/upgrade/"), ("Splittable::split", B+"stream.rs")],
  observe=["received bytes", "getsockopt", "fcntl"])
p("C04", "A pair of streams behaves as its halves do",
  "Every reading call on a ReadWritePair gives what the same call on its first half gives and every writing call, flush and shutdown what it gives on its second half, with the same bytes moved and the same errors, whatever the halves do (piecemeal, interrupted, would-block, broken); neither half is touched by calls meant for the other. Splitting a pair gives back the two halves as they are.",
  ["inputs", "histories", "faults"], "all sequences of calls; all behaviours of the halves",
  "No test calls anything but plain reads and writes on a pair.",
  [B+"stream.rs"],
  [("Read / Write / AsyncRead / AsyncWrite for ReadWritePair", B+"stream.rs"), ("Splittable for ReadWritePair", B+"stream.rs")])
p("A01", "Upgrade and connection accessors report what was really negotiated",
  "Before accepting, an upgrade reports exactly the request's protocols, extensions, key, version, resource and origin, in order, empty or absent when not sent. A connected client reports the protocols, extensions and headers of the server's response, and a server connection those of the response it sent.",
  ["inputs"], "all valid requests and responses with any protocol, extension, origin, key and URI values",
  "Tests query no accessor on a parsed request.",
  ["src/server/upgrade/mod.rs", "src/client/sync.rs", "src/client/builder.rs"],
  [("WsUpgrade::protocols/extensions/key/version/uri/origin", "src/server/upgrade/mod.rs"), ("Client::protocols/extensions/headers", "src/client/sync.rs")])
# ------------------------------------------------------------------ transport / servers
p("T01", "Connecting reaches the endpoint and transport the URL names",
  "The client opens its TCP connection to the URL's host and explicit port, or port 80 for ws and 443 for wss when none is given (for schemes without a default, 443 when TLS is used and 80 otherwise), and a URL without host fails with an error. Automatic connecting uses TLS exactly for wss (and https) URLs; the explicitly secure and insecure variants always and never use TLS. Blocking and asynchronous variants agree.",
  ["inputs", "configurations"], "all schemes, hosts (names, IPv4, IPv6), ports, paths and every connect variant, observed at loopback listeners",
  "No test opens a connection.",
  ["src/client/builder.rs"],
  [("extract_host_port", "src/client/builder.rs"), ("is_secure_url", "src/client/builder.rs"), ("establish_tcp / async_tcpstream", "src/client/builder.rs")])
p("T02", "TLS connections authenticate the server and protect the handshake",
  "Over a secure URL nothing but TLS is sent, the server certificate must be trusted and match the URL's host under the default configuration or the connector the user supplied, and otherwise connecting fails before any WebSocket data is sent. A secure server completes handshakes and exchanges messages only over TLS and reports a failed TLS negotiation as an error while continuing to serve others. Blocking and asynchronous variants agree.",
  ["configurations", "inputs"], "trusted/untrusted/mismatching certificates, supplied and default connectors, plaintext and garbage peers, sync and async, both roles",
  "No test uses TLS.",
  ["src/client/builder.rs", "src/server/sync.rs", "src/server/async.rs"],
  [("wrap_ssl / extract_host_ssl_conn", "src/client/builder.rs"), ("bind_secure / accept", "src/server/sync.rs"), ("incoming", "src/server/async.rs")])
p("S01", "The asynchronous server serves each connection independently",
  "The asynchronous server's stream of incoming connections yields one result for every connection that completes or fails its handshake, with the right peer address and request, in any order of arrival; idle, slow, invalid or dropped connections neither end the stream nor delay or disturb others. Data sent right after the handshake stays with its own connection.",
  ["schedules", "histories"], "all mixes and interleavings of good, bad, slow, idle and aborting connections",
  "No test runs the server.",
  ["src/server/async.rs", "src/server/upgrade/async.rs"],
  [("incoming + buffer_unordered", "src/server/async.rs")])
p("S02", "The blocking server yields each connection in order and survives bad ones",
  "The blocking server's accept and iterator return, for each connection in arrival order, an upgrade for a valid handshake or the error with stream, request and buffered bytes for an invalid one, and keep working afterwards. The reported local address is the bound one, clones accept from the same socket, non-blocking mode makes accept fail with would-block when nobody is connecting, and converting to an asynchronous server keeps the socket and its pending connections.",
  ["histories", "schedules"], "all sequences of valid, invalid and dropped connections, accept/iterator/clone/non-blocking/conversion operations",
  "One test calls a non-blocking accept with no connection.",
  ["src/server/sync.rs", "src/server/mod.rs"],
  [("accept / Iterator / try_clone / set_nonblocking / into_async / local_addr", "src/server/sync.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
