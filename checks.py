"""What each check runs: harness functions, bounds per tier."""
ASSUMPTIONS = [
    "QtCore is replaced by the model in /verif/model and sockets/timers by /verif/env; sampled paths are replayed natively against libQt5Core and must agree",
    "one thread; events are delivered in the order the harness chooses; virtual time",
    "heap addresses are concrete; memory allocation succeeds",
]
CHECKS = {
    "C01": dict(harness="c01", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end"),
        dict(fn="roundtrip", quick=dict(len=6), thorough=dict(len=9), bounds="payload of 0..len bytes, every byte symbolic"),
        dict(fn="decode", quick=dict(len=6), thorough=dict(len=9), bounds="encoded input of 0..len bytes, every byte symbolic"),
        dict(fn="frame", quick=dict(len=4), thorough=dict(len=6), bounds="16-bit symbolic address, payload of 0..len symbolic bytes")]),
    "C02": dict(harness="c02", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end; reads of three (thorough: six) sizes"),
        dict(fn="many", steps=1500000000, quick=dict(frames=150), thorough=dict(frames=1000), bounds="`frames` frames with a symbolic byte in reads of six sizes"),
        dict(fn="anystream", quick=dict(len=8), thorough=dict(len=9), w=3, bounds="any stream of len symbolic bytes, one cut anywhere; frames shorter than an address or for the API are left to cuts/C09"),
        dict(fn="cuts", quick=dict(maxcut=6), thorough=dict(maxcut=12), w=3, bounds="three frames of six kinds with symbolic payload bytes, two cuts up to maxcut bytes apart")]),
    "C05": dict(harness="c05", fns=[
        dict(fn="histories", quick=dict(steps=4, conns=3, uuids=2), thorough=dict(steps=5, conns=3, uuids=2), w=3, bounds="histories of `steps` events (connect, register server/client, data, DisconnectClient, disconnect) over up to conns connections and `uuids` UUIDs, immediate and deferred closing, symbolic payload byte"),
        dict(fn="established", quick=dict(steps=2), thorough=dict(steps=3), w=3, bounds="two servers with two clients each, then `steps` arbitrary events on these and a seventh connection")]),
    "C06": dict(harness="c06", fns=[
        dict(fn="valid", quick=dict(steps=4, conns=3, uuids=2), thorough=dict(steps=5, conns=3, uuids=2), w=3, bounds="histories of `steps` events over up to conns connections and `uuids` UUIDs, immediate and deferred closing"),
        dict(fn="invalid", quick=dict(steps=3, conns=3, uuids=2), thorough=dict(steps=4, conns=3, uuids=2), w=3, bounds="the same with the null UUID and a malformed one")]),
    "C07": dict(harness="c07", fns=[
        dict(fn="address", bounds="DisconnectClient with any 32-bit socket address; two servers, three clients"),
        dict(fn="wire", bounds="ten socket addresses over the wire, immediate and deferred closing"),
        dict(fn="histories", quick=dict(steps=2), thorough=dict(steps=3), w=3, bounds="two servers and three clients, then `steps` arbitrary events on these and a sixth connection, immediate and deferred closing")]),
    "C03": dict(harness="c03", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end"),
        dict(fn="many", steps=1500000000, quick=dict(chunks=150), thorough=dict(chunks=1000), bounds="`chunks` chunks with a symbolic byte of two clients"),
        dict(fn="anyaddress", quick=dict(len=3), thorough=dict(len=5), bounds="any socket address 1..0xFFFE, payload of 1..len symbolic bytes"),
        dict(fn="apilike", quick=dict(chunks=2), thorough=dict(chunks=4), bounds="chunks of six payloads that look like API calls, frames or oversized input"),
        dict(fn="interleaved", quick=dict(chunks=3), thorough=dict(chunks=6), bounds="chunks of 1..2 symbolic bytes from three clients of two servers in any order")]),
    "C04": dict(harness="c04", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end"),
        dict(fn="many", steps=1500000000, quick=dict(frames=150), thorough=dict(frames=1000), bounds="`frames` frames with a symbolic byte to two clients"),
        dict(fn="anyframe", quick=dict(len=3), thorough=dict(len=5), bounds="frame with any address 1..0xFFFF and 0..len symbolic bytes; two clients, one possibly gone, and a client of another server"),
        dict(fn="anyaddress", quick=dict(len=2), thorough=dict(len=4), bounds="client with any address 1..0xFFFE, payload of len symbolic bytes"),
        dict(fn="batch", quick=dict(frames=3), thorough=dict(frames=4), bounds="frames for five kinds of addresses in one read, 1..2 symbolic bytes each")]),
    "C08": dict(harness="c08", fns=[
        dict(fn="arbitrary", quick=dict(clients=3), thorough=dict(clients=4), bounds="up to `clients` registrations with the allocator counter arbitrary (16 bit) before each, and removals in between"),
        dict(fn="crowded", quick=dict(clients=130), thorough=dict(clients=300), bounds="`clients` registered clients, then a registration with an arbitrary counter"),
        dict(fn="wrap", steps=4000000000, bounds="65600 registrations with two clients staying")]),
    "C09": dict(harness="c09", fns=[
        dict(fn="requests", quick=dict(requests=2), thorough=dict(requests=3), w=3, bounds="sequences of requests from 26 method/params cases, first one with 10 ids (valid, missing, wrong type); unregistered and server role; immediate and deferred closing"),
        dict(fn="ids", quick=dict(digits=2), thorough=dict(digits=4), bounds="any id of up to `digits` decimal digits, both signs"),
        dict(fn="garbage", quick=dict(len=4), thorough=dict(len=6), w=2, bounds="packets of 0..len symbolic bytes, in braces or bare"),
        dict(fn="switchover", quick=dict(later=3), thorough=dict(later=4), bounds="0..2 requests before RegisterServer and `later` messages of four kinds after it"),
        dict(fn="failedswitch", bounds="failed RegisterServer, two reasons")]),
    "C10": dict(harness="c10", fns=[
        dict(fn="cuts", quick=dict(requests=2, gap=2), thorough=dict(requests=3, gap=8), w=2, bounds="1..requests requests of four kinds, a cut anywhere and a second one up to gap bytes later"),
        dict(fn="twocuts", quick=dict(step=5), thorough=dict(step=1), w=2, bounds="three requests, two cuts at any multiple of step (one of them plus 0/1)"),
        dict(fn="pieces", bounds="three requests of four kinds in pieces of 1..24 bytes"),
        dict(fn="interleaved", bounds="two connections, one cut each"),
        dict(fn="innercuts", bounds="two requests, one cut directly behind any inner closing brace (known finding inner-brace)")],
        assumptions=["except in innercuts, no read ends directly behind an inner closing brace"]),
    "C11": dict(harness="c11", fns=[
        dict(fn="lengths", quick=dict(min=10100, max=10300), thorough=dict(min=0, max=10400), bounds="first read of min..max bytes, two more of 0, 1, 2, 300, 20000 bytes or up to exactly the limit / one more"),
        dict(fn="requests", bounds="0..2 complete requests in front of 10237..10243 unterminated bytes, three splits"),
        dict(fn="complete", bounds="complete requests of 10238..10242 bytes, one or two reads")]),
    "C12": dict(harness="c12", fns=[
        dict(fn="unregistered", quick=dict(sends=2), thorough=dict(sends=3), bounds="timeouts 1, 700, 8000, 30000 ms; `sends` inputs of five kinds at 0, half, one before and at the timeout"),
        dict(fn="server", quick=dict(gaps=3), thorough=dict(gaps=4), w=2, bounds="`gaps` gaps of 1 ms..60 s followed by one of six events; four timeouts; early and late registration"),
        dict(fn="client", quick=dict(minutes=4), thorough=dict(minutes=10), bounds="`minutes` idle minutes of a client"),
        dict(fn="independent", bounds="two connections a third of the timeout apart, one of them registering or none")]),
    "C13": dict(harness="c13", fns=[
        dict(fn="histories", quick=dict(steps=3, conns=3), thorough=dict(steps=4, conns=3), w=3, bounds="histories of `steps` events over up to conns connections, both report kinds"),
        dict(fn="established", quick=dict(steps=2), thorough=dict(steps=3), w=2, bounds="two servers and two clients, then `steps` arbitrary events"),
        dict(fn="counters", quick=dict(chunks=2), thorough=dict(chunks=3), bounds="chunks of 0..1500 plain or escaped bytes in four ways"),
        dict(fn="throughput", quick=dict(seconds=2), thorough=dict(seconds=4), bounds="`seconds` seconds with up to two events of four kinds each")]),
    "C14": dict(harness="c14", fns=[
        dict(fn="ping", bounds="any 32-bit timestamp"),
        dict(fn="wire", quick=dict(digits=2), thorough=dict(digits=4), bounds="eight boundary values and any value of up to `digits` digits over the wire, plain and framed"),
        dict(fn="hello", quick=dict(calls=2), thorough=dict(calls=3), bounds="five server names, unregistered and server role")]),
    "C19": dict(harness="c19", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end, both directions"),
        dict(fn="many", steps=1500000000, quick=dict(conns=20), thorough=dict(conns=80), bounds="`conns` connections, 300 reads of one, one killed and one closed by its peer"),
        dict(fn="plain", quick=dict(steps=5, socks=2), thorough=dict(steps=6, socks=3), w=3, bounds="`steps` events (accept, data, send, kill, peer close, error, stop, start, unknown ids) over up to socks sockets, immediate and deferred closing"),
        dict(fn="tls", quick=dict(steps=5, socks=2), thorough=dict(steps=6, socks=3), w=3, bounds="the same with TLS: handshake completion, certificate errors and time"),
        dict(fn="bytes", quick=dict(len=4), thorough=dict(len=8), bounds="1..len symbolic bytes in both directions"),
        dict(fn="handshake", bounds="handshake of one of two sockets at 18 points in time"),
        dict(fn="accept", bounds="descriptor that cannot be taken over, occupied port")]),
    "C20": dict(harness="c20", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end, both directions"),
        dict(fn="many", steps=1500000000, quick=dict(conns=20), thorough=dict(conns=80), bounds="`conns` connections, 300 reads of one, one killed and one closed by its peer"),
        dict(fn="histories", quick=dict(steps=5, socks=2), thorough=dict(steps=6, socks=3), w=3, bounds="`steps` events (accept, data, send, kill, peer close, error, stop, start, unknown ids) over up to socks sockets, immediate and deferred closing"),
        dict(fn="bytes", quick=dict(len=4), thorough=dict(len=8), bounds="1..len symbolic bytes in both directions"),
        dict(fn="file", bounds="restarts, socket file present before")]),
    "C21": dict(harness="c21", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), a symbolic ASCII character at the start, in the middle or at the end, both directions"),
        dict(fn="many", steps=1500000000, quick=dict(conns=20), thorough=dict(conns=80), bounds="`conns` connections, 300 reads of one, one killed and one closed by its peer"),
        dict(fn="histories", quick=dict(steps=5, socks=2), thorough=dict(steps=6, socks=3), w=3, bounds="`steps` events (accept, text, binary, send, kill, peer close, error, stop, start, unknown ids) over up to socks sockets, immediate and deferred closing"),
        dict(fn="bytes", quick=dict(len=3), thorough=dict(len=5), bounds="1..len symbolic ASCII characters, with and without characters of 2..4 bytes"),
        dict(fn="versions", bounds="nine protocol versions")]),
    "C22": dict(harness="c22", fns=[
        dict(fn="keys", w=2, bounds="every subset of the 13 keys besides the TLS file names, one value each"),
        dict(fn="values", quick=dict(digits=4), thorough=dict(digits=5), bounds="numbers of up to `digits` symbolic digits, names of three symbolic characters, all booleans"),
        dict(fn="tls", bounds="certificate, key and chain each absent, missing, or one of two files; configuration file missing"),
        dict(fn="twice", bounds="a full file followed by one with a single key, with and without a failing load between")]),
    "C23": dict(harness="c23", fns=[
        dict(fn="sequences", quick=dict(steps=4, conns=2), thorough=dict(steps=5, conns=2), w=4, bounds="`steps` operations (start with two configurations, stop, destroy, event loop turn, 100 s, connection in one of seven states, immediate and deferred closing), with and without TLS"),
        dict(fn="leaks", w=2, bounds="five identical cycles with up to two connections in seven states; engine heap compared"),
        dict(fn="rollover", quick=dict(restarts=1), thorough=dict(restarts=2), bounds="up to `restarts` earlier runs of 0..5 s, then four roll overs"),
        dict(fn="occupied", bounds="either or both ports occupied, socket names impossible")]),
    "C24": dict(harness="c24", fns=[
        dict(fn="requests", quick=dict(requests=2), thorough=dict(requests=3), w=2, bounds="`requests` requests of 14 kinds from one or two monitors, immediate and deferred closing"),
        dict(fn="garbage", quick=dict(len=3), thorough=dict(len=5), bounds="1..len symbolic bytes"),
        dict(fn="flipped", bounds="any byte of a valid request replaced by a symbolic one"),
        dict(fn="methods", quick=dict(len=2), thorough=dict(len=3), bounds="1..len symbolic printable characters inserted into, replacing part of or cutting off the method name, or seven instead of it"),
        dict(fn="histories", quick=dict(steps=4), thorough=dict(steps=5), w=2, bounds="`steps` events: monitors connect, ask, leave; proxy connections close and transmit")]),
    "C15": dict(harness="c15", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end, both directions, three transports; reads of three (thorough: six) sizes"),
        dict(fn="many", steps=1500000000, quick=dict(messages=100), thorough=dict(messages=600), bounds="`messages` messages with a symbolic byte in both directions"),
        dict(fn="histories", quick=dict(steps=3, kinds=3), thorough=dict(steps=4, kinds=3), w=3, bounds="plain TCP, TLS and web socket transports; from each of six phases `steps` events: (re)connect, transport up, TLS handshake, refused, seven kinds of answers, peer closes (immediately or with unsent data), data either way, disconnectServer, certificate errors; event loop run in between or not"),
        dict(fn="handover", quick=dict(len=3, gap=3), thorough=dict(len=4, gap=200), bounds="registration response followed by len symbolic bytes, one cut anywhere before its end or two cuts from there on"),
        dict(fn="pieces", bounds="both answers in pieces of 1..24 bytes"),
        dict(fn="payload", quick=dict(len=4), thorough=dict(len=8), bounds="1..len symbolic bytes each way")],
        assumptions=["answers of the proxy carry an id"]),
    "C16": dict(harness="c16", fns=[
        dict(fn="histories", quick=dict(steps=3), thorough=dict(steps=4), w=3, bounds="0..2 outstanding requests, then `steps` events: five kinds of requests, success and error responses with the id of any earlier request or an unknown one, three kinds of notifications with any of these ids, malformed messages"),
        dict(fn="anyid", quick=dict(requests=12, digits=2), thorough=dict(requests=120, digits=3), bounds="`requests` outstanding requests, a response with any id of up to `digits` symbolic digits, both signs"),
        dict(fn="content", quick=dict(len=2), thorough=dict(len=3), bounds="ClientConnected with five socket addresses and a name of len symbolic ASCII characters"),
        dict(fn="batch", quick=dict(messages=4), thorough=dict(messages=5), bounds="`messages` messages in one read, to 2..3 outstanding requests, notifications, unknown ids")],
        assumptions=["each read holds complete messages (splits are decided by C15 and C17)", "answers of the proxy carry an id"]),
    "C17": dict(harness="c17", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), 3 patterns and a symbolic byte at the start, in the middle or at the end, both directions; reads of three (thorough: six) sizes"),
        dict(fn="many", steps=1500000000, quick=dict(frames=100, clients=20), thorough=dict(frames=600, clients=100), bounds="`clients` clients, `frames` frames with a symbolic byte in reads of six sizes"),
        dict(fn="anystream", quick=dict(len=8), thorough=dict(len=9), w=3, bounds="any stream of len symbolic bytes in two reads, two sockets; frames for the API (address 0) are left to the other functions"),
        dict(fn="cuts", quick=dict(frames=2, gap=4), thorough=dict(frames=3, gap=8), w=2, bounds="`frames` frames of eight kinds (two sockets, unknown address, empty, malformed, without payload, short, API answer) with symbolic payload bytes and a last one, a cut anywhere and a second one less than gap bytes later"),
        dict(fn="lifetime", bounds="eleven frames: three clients come, one leaves, data before, while and after; one cut anywhere"),
        dict(fn="pieces", bounds="six frames in pieces of 1..24 bytes"),
        dict(fn="handover", quick=dict(len=1, gap=3), thorough=dict(len=2, gap=100), bounds="registration response, ClientConnected and data (symbolic) in up to three reads"),
        dict(fn="writes", quick=dict(len=4), thorough=dict(len=7), bounds="six socket addresses, 0..len symbolic bytes, plain and TLS"),
        dict(fn="disconnects", bounds="DisconnectClient for six socket addresses"),
        dict(fn="webwrites", bounds="one symbolic ASCII byte written over a web socket (known finding websocket-frames)")],
        assumptions=["the proxy sends complete JSON messages in frames for the API", "the proxy never announces an address twice"]),
    "C18": dict(harness="c18", fns=[
        dict(fn="histories", quick=dict(steps=2), thorough=dict(steps=3), w=3, bounds="plain TCP, TLS and web socket transports; from each of six phases `steps` events (start, stop, transport up, refused, answers, peer closes with or without unsent data, clients, data, time of 1 ms..95 s), then two reconnects, stop or destruction; event loop run in between or not"),
        dict(fn="running", quick=dict(steps=2), thorough=dict(steps=3), w=3, bounds="the same from a running server with one or two clients"),
        dict(fn="unreachable", bounds="network down at the start: 0..3 more attempts, then up or stopped"),
        dict(fn="keepalive", quick=dict(gaps=3), thorough=dict(gaps=4), bounds="`gaps` gaps of 1 ms..60 s ended by data, data in two reads or nothing")],
        assumptions=["the proxy never announces an address twice", "answers of the proxy carry an id"]),
    "C25": dict(harness="c25", fns=[
        dict(fn="sizes", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000), reads of six sizes"),
        dict(fn="cuts", quick=dict(reports=2, gap=3), thorough=dict(reports=3, gap=8), w=2, bounds="1..reports reports of five kinds, a cut anywhere and a second one less than gap bytes later"),
        dict(fn="pieces", bounds="five reports in pieces of 1..16 bytes"),
        dict(fn="content", quick=dict(len=2), thorough=dict(len=3), bounds="a name of len symbolic ASCII characters, one cut"),
        dict(fn="requests", quick=dict(steps=5), thorough=dict(steps=7), w=2, bounds="`steps` operations: connect, established, refused, refresh, option, peer close, disconnect")]),
    "C26": dict(harness="c26", fns=[
        dict(fn="types", bounds="one parameter of seven types, mandatory or optional, absent or with a value of nine kinds"),
        dict(fn="keys", quick=dict(keys=3), thorough=dict(keys=4), bounds="`keys` keys, each mandatory, optional or undocumented; absent, valid or invalid"),
        dict(fn="names", bounds="parameter names of up to three symbolic characters (a-z, A, colon)"),
        dict(fn="nested", bounds="object in object, list of objects, list of strings, enum reference; values of nine kinds"),
        dict(fn="wire", quick=dict(odd=1), thorough=dict(odd=3), w=3, bounds="all six methods, from an unregistered and a server connection; up to `odd` parameters absent or of any of nine kinds, undocumented parameter")]),
    "C27": dict(harness="c27", fns=[
        dict(fn="histories", params=dict(log=1), quick=dict(steps=2, conns=2, few=1), thorough=dict(steps=3, conns=2, few=1), w=4, bounds="`steps` events over up to conns connections of four kinds (TCP with and without TLS, web socket, unix, monitor): 14 kinds of input, peer closes, errors, time, engine stop/destroy/start; event loop run in between or not; immediate and deferred closing"),
        dict(fn="established", params=dict(log=1), quick=dict(steps=1), thorough=dict(steps=2), w=3, bounds="a server with two clients and a monitor, then `steps` such events"),
        dict(fn="deep", quick=dict(steps=3), thorough=dict(steps=4), w=2, bounds="a server with a client over plain TCP, then `steps` events: four kinds of input, ends, further registrations, time, engine stop/start; event loop run in between or not; immediate and deferred closing"),
        dict(fn="garbage", quick=dict(len=3), thorough=dict(len=5), w=2, bounds="len symbolic bytes in up to two reads to an unregistered, client, server or monitor connection"),
        dict(fn="frame", params=dict(log=1), quick=dict(len=2), thorough=dict(len=4), bounds="frame of 0..len symbolic bytes to the API or a client, alone or among others in one read"),
        dict(fn="leaks", params=dict(log=1), w=2, bounds="five identical connections of four kinds with up to two of 14 inputs; engine heap compared")]),
    "C28": dict(harness="c28", fns=[
        dict(fn="histories", quick=dict(steps=4), thorough=dict(steps=5), w=3, bounds="`steps` events: up to three requests on two connections (plain and framed), replies finished (successfully or not, once or twice), connections dropped, time up to, across and far beyond the timeout; immediate and deferred closing"),
        dict(fn="mixed", bounds="two asynchronous and a synchronous request in one read, in every order, finished in both orders")]),
    "C29": dict(harness="c29", fns=[
        dict(fn="transfer", steps=600000000, quick=dict(steps=3), thorough=dict(steps=4), w=3, bounds="two clients (TCP, TLS or web socket) of one server, `steps` events: a chunk with a symbolic byte either way or part of a stream moved on; then everything arrives"),
        dict(fn="establish", steps=600000000, quick=dict(every=3), thorough=dict(every=1), bounds="Hello, registration or their answers of a connection in two parts, cut at every position (quick: every third one) but behind an inner brace of a request (see C10)"),
        dict(fn="fresh", steps=600000000, quick=dict(every=60), thorough=dict(every=7), bounds="the announcement of a client and its first data (sent from the slot or afterwards, the server greeting it or not, a second client or not) in one read or cut at every `every`th byte"),
        dict(fn="leave", steps=600000000, bounds="two clients with data on its way, five transport states; one of six ends, further data sent and moved or not"),
        dict(fn="idle", steps=1500000000, quick=dict(minutes=3), thorough=dict(minutes=12), bounds="`minutes` minutes with a single message"),
        dict(fn="again", steps=1500000000, bounds="connection of the server lost at three times, at both ends or noticed by the library only"),
        dict(fn="amounts", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="13 sizes of 255..65537 bytes (thorough: 49 of 15..100000) both ways, read sizes as in C02")]),
    "C30": dict(harness="c30", fns=[
        dict(fn="report", quick=dict(all=0), thorough=dict(all=1), bounds="reports of 0..3 servers with 0..2 clients, 14 amounts of data up to 1.5 TiB, nine times up to 2106 and five kinds of names in rotation (thorough: each combination), three reads"),
        dict(fn="names", quick=dict(len=2), thorough=dict(len=3), bounds="names of a server, a client or the proxy with `len` symbolic printable characters, with and without non-ASCII characters"),
        dict(fn="live", bounds="real monitor server; up to three messages of two sizes either way")]),
    "C31": dict(harness="c31", fns=[
        dict(fn="report", quick=dict(all=0), thorough=dict(all=1), bounds="reports of 0..3 servers with 0..2 clients, 14 amounts of data up to 1.5 TiB, nine times and five kinds of names in rotation (thorough: each combination), two reads"),
        dict(fn="follow", quick=dict(steps=2), thorough=dict(steps=3), bounds="histories of `steps` reports, keys, sizes of the terminal, seconds, and ends"),
        dict(fn="polls", bounds="up to three seconds"),
        dict(fn="sizes", quick=dict(max=6), thorough=dict(max=12), bounds="terminals of 1..`max` rows and six widths, resized once"),
        dict(fn="names", quick=dict(len=2), thorough=dict(len=3), bounds="names of a server, a client or the proxy with `len` symbolic printable characters")]),
    "C32": dict(harness="c32", fns=[
        dict(fn="server", quick=dict(steps=3), thorough=dict(steps=5), bounds="histories of `steps` clients that come and go, frames with symbolic bytes, losses of the connection and times"),
        dict(fn="amounts", steps=1500000000, quick=dict(few=1), thorough=dict(few=0), bounds="frames of 255..65537 bytes (thorough: 15..100000) with a symbolic byte, up to three frames in one read"),
        dict(fn="client", quick=dict(steps=3, rand=1), thorough=dict(steps=5, rand=2), bounds="histories of `steps` times, received data and losses; the first `rand` values of rand() symbolic"),
        dict(fn="rejected", bounds="three refusals"),
        dict(fn="certificate", bounds="any of three certificate errors")]),
    "C33": dict(harness="c33", fns=[
        dict(fn="trust", quick=dict(rounds=2), thorough=dict(rounds=3), bounds="`rounds` connections of either kind of object over either transport; any of three certificate errors; four decisions of the application"),
        dict(fn="calls", quick=dict(steps=5), thorough=dict(steps=7), bounds="histories of `steps` calls and connection events"),
        dict(fn="urls", bounds="four schemes, three hosts, four ports")]),
    "C34": dict(harness="c34", fns=[
        dict(fn="configuration", bounds="configuration file given in four forms or not at all, present or not, with or without TLS and its material, --verbose or not"),
        dict(fn="logfile", bounds="log file in the configuration and on the command line (four forms), four kinds of paths each, an older log file or none"),
        dict(fn="messages", quick=dict(len=2), thorough=dict(len=4), bounds="two messages of any level, the first with `len` symbolic printable characters, non-ASCII ones or not"),
        dict(fn="interrupted", bounds="four signals at any of the first three writes of the program to a connection, within three kinds of events"),
        dict(fn="stopped", bounds="six signals, once or twice, up to two connections, TLS or not")]),
    "C35": dict(harness="c35", fns=[
        dict(fn="role", bounds="server, client, both or neither, three names, no, a valid and an invalid UUID each; options in three forms"),
        dict(fn="options", bounds="four urls and none, three levels of messages, every combination of the other options; options in three forms")]),
    "C36": dict(harness="c36", fns=[
        dict(fn="modes", bounds="every combination of the options, three sockets and none, options in three forms")]),
    "C37": dict(harness="c37", fns=[
        dict(fn="histories", quick=dict(steps=5), thorough=dict(steps=6), w=3, bounds="`steps` events (connect, four network errors, refusal, transport, TLS, three answers, peer closes, stop, 5 s) for both kinds of objects over four transports"),
        dict(fn="established", quick=dict(steps=3), thorough=dict(steps=5), w=2, bounds="the same from an established connection"),
        dict(fn="identity", quick=dict(len=2), thorough=dict(len=4), bounds="four texts of `len` symbolic printable characters")]),
}
# The statements that log are executed as well (a null pointer in one of them is a crash); not where most of the time would go into them
for _c, _s in CHECKS.items():
    if _c not in ("C01", "C02", "C03", "C04", "C05", "C17", "C27"):
        for _f in _s["fns"]:
            _f["params"] = dict(dict(log=1), **_f.get("params", {}))
