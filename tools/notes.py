# technique and assurance per property (used by gen_manifest.py)
T = "Random search with shrinking, no proof: a violation outside the generated space can be missed. Trusted: the independent RFC 6455 model in harness/src/rfc.rs (self-tested against RFC vectors at every start) and the scripted in-memory transports. "
NOTES = {
"F01": ("frames and messages through 7 sending APIs against an independent RFC 6455 encoder", T + "Payloads up to 140 kB, some up to 20 MB; header-only cases with any 64-bit length."),
"F02": ("independently encoded frames, whole, malformed and truncated, through 10 reading APIs under generated chunkings", T + "Payloads up to 140 kB, some up to 20 MB."),
"F03": ("write/partial-write sequences and received frames against a reference XOR", T + "Streams of up to 200 kB per case, some up to 20 MB."),
"F04": ("every sending and receiving API in both roles with right and wrong masking", T),
"F05": ("statistical judgement of thousands of keys over APIs, threads and processes", "Statistical: false alarm probability below 1e-9 per run; finds repeats, fixed steps, stuck or correlated bits, seeds shared by processes. Cannot show cryptographic unpredictability."),
"F06": ("limits and announced lengths around each other, payload withheld, through all receiving APIs", T),
"M01": ("generated messages sent through 7 APIs and received through 9", T),
"M02": ("generated histories of fragmented messages with interleaved control frames under scripted reads against a reassembly model", T),
"M03": ("metamorphic chunking relation plus differential check blocking vs asynchronous vs model on valid and mutated histories", T),
"M04": ("valid and damaged UTF-8 in every message kind, cut anywhere, against an independent validator", T),
"M05": ("one violation of nine kinds injected at any position of a valid history, through nine APIs", T),
"M06": ("fragment size sequences around the limit against upper and lower bounds; floods of a million frames", T + "Between payload sum and payload sum + 64 bytes per fragment either outcome is accepted, as the bookkeeping allowance is not specified more closely."),
"M07": ("generated messages through every conversion and predicate", T),
"H01": ("random keys, near-miss base64 texts and arbitrary text against independent SHA-1 and base64", T + "Base64 without padding or with spare bits set may go either way."),
"H02": ("format/parse round trip of six headers and a reader for generated layouts (whitespace, empty elements, several lines)", T),
"H03": ("generated requests violating any subset of the conditions, four upgrade entry points and validate, against an independent judge", T),
"H04": ("differential over four entry points plus conservation of bytes, under generated chunkings, on well-formed and damaged heads", T),
"H05": ("generated requests, choices and custom headers through all accept variants; the 101 head is parsed independently and compared with a model", T),
"H06": ("as H05 for reject and drop", T),
"H11": ("encode/decode round trip and incremental decoding of pipelined heads under generated chunkings", T),
"A01": ("generated requests and responses, accessors compared with the generating model", T),
"H07": ("builder call sequences against a model of the request, blocking and asynchronous, with attempts to inject header lines", T),
"H08": ("responses right and wrong in every respect, computed for the key actually sent, against an independent judge", T),
"H09": ("frames behind the head under generated read boundaries, clients and all server entries and accept variants, against the reassembly model", T),
"H10": ("fix/clear/connect sequences against a model; statistical judgement of keys over threads and processes", "Statistical for freshness: false alarm probability below 1e-9 per run; cannot show cryptographic unpredictability. " + T),
"R01": ("hostile bytes (random, damaged valid histories and heads, announced lengths) through every receiver, handshake entry and header parser under a counting, capping allocator", T + "Memory bound 1 MiB + 256 bytes per byte received, per thread; time bound only as a hang (60 s of processor time for one case)."),
"R02": ("fault injection at every byte offset of sends, receives and handshake heads over scripted transports against the correct encoding", T),
"R03": ("faults at every byte of sends, receives and heads, protocol violations, malformed heads, misbehaving peers on sockets and generated conversions; the reported cause is compared with the injected one", T + "Which variant carries an I/O error is left free."),
"R04": ("histories, sends and handshakes repeated up to 70,000 times with live memory measured after every round; clients, halves, refused and failed handshakes and servers dropped over sockets with the peer watching for the end", "Random search with shrinking, no proof. Memory is the allocator's count of the thread; descriptors are judged by the peer seeing the end. Growth that stops within the first half of the rounds is not seen as growth."),
"E01": ("client and server, each blocking or asynchronous, joined by scripted pipes under generated schedules of sends, receives and flushes, against FIFO models", T + "One thread, deterministic; real sockets and threads in the tcp suite."),
"E02": ("limits through every builder, accept and constructor variant, probed with frames and fragment sequences around them; defaults with real and withheld data", T + "The library clamps limits of 4 GiB and more, which is accepted; between payload sum and payload sum + 64 bytes per fragment either outcome is accepted."),
"C01": ("operation sequences before and after split / into_stream / into_parts at any point against a position model", T + "Receives that would block inside a frame are not resumed on blocking connections."),
"C02": ("operation sequences (shutdowns, sends, receives, timeouts, addresses, socket options) over real loopback sockets of four kinds of connection, against a two-direction state model", "Random search with shrinking, no proof. Real Linux loopback sockets; a wrong block shows as a stall (20 s, confirmed by repetition). What a peer sees after unread data was discarded is not claimed."),
"C03": ("rooms of up to 160 connections over real sockets that rest for generated times at generated points of their life, against expected exchanges; generated socket options at generated points against the options the kernel reports", "Random search with shrinking, no proof. Rests of up to 34 s (quick) or 130 s (thorough) in total per connection; limits beyond that are not seen unless they show as a socket option. Buffer sizes, keep-alive and (unless the application set it) TCP_NODELAY are not judged."),
"C04": ("sequences of all reading and writing calls on a pair of scripted halves, differential against the halves themselves", "Random search with shrinking, no proof."),
"T01": ("generated URLs and connect variants against listeners on generated loopback addresses and ports; what arrives is parsed independently", "Random search with shrinking, no proof. Names resolve through the loopback only (localhost, 127/8, ::1); several addresses behind one name are not exercised."),
"T02": ("certificates, trust settings, protocol versions and connect variants crossed at random with a recording man in the middle; secure servers under generated sequences and sets of peers", "Random search with shrinking, no proof. native-tls and OpenSSL are trusted for TLS itself; the checks decide that it is used, with the right name and trust, before anything is sent."),
"S01": ("up to eight concurrent peers of ten kinds under generated interleavings, and crowds of up to 1400 idle ones, against per-peer expectations", "Random search with shrinking, no proof. One executor thread, real loopback sockets; liveness is judged by a stall of 20 s, confirmed by repetition."),
"S02": ("operation sequences (connections of six kinds, accept / iterator / clone / non-blocking / conversion) against a queue model", "Random search with shrinking, no proof. Real Linux loopback sockets; liveness is judged by a stall of 20 s, confirmed by repetition."),
}
