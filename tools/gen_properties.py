#!/usr/bin/env python3
"""Source of properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

C="common/"; S="libnymea-remoteproxy/"; L="libnymea-remoteproxyclient/"
p("C01","SLIP codec round trip and frame delimiting",
  "Encoding any byte string yields bytes in which the frame delimiter 0xC0 occurs exactly once, as the last byte, and decoding those bytes gives back exactly the original string. Building a frame from any 16-bit socket address and any payload and parsing it back yields the same address and payload, with the address in the first two bytes in big-endian order. Decoding rejects (returns a null array for) any input in which an escape byte is followed by a byte that is not one of the two defined escape codes before the first delimiter, or in which the input or the first delimiter comes within such an escape sequence, and otherwise decodes exactly per RFC 1055 up to the first delimiter.",
  ["inputs"],"All byte strings up to the length bound, all 65536 addresses.",
  "The tests round-trip two or three literal strings; a byte value or a sequence of special bytes mishandled at one position is not sampled.",
  [C+"slipdataprocessor.cpp",C+"slipdataprocessor.h"],
  [("serializeData/deserializeData",C+"slipdataprocessor.cpp"),("buildFrame/parseFrame",C+"slipdataprocessor.cpp")],
  observe=["return values of the codec functions"])
p("C02","SLIP reassembly on the proxy does not depend on fragmentation",
  "The tunnel payloads the proxy delivers to its clients, and the API requests it executes, for the byte stream received from a registered tunnel server depend only on the bytes of the stream, not on how they are split into reads: they are exactly the payloads of the complete frames of the stream, in order. Empty frames are ignored. A frame with an invalid escape sequence is dropped on its own and does not affect any other frame.",
  ["inputs","schedules"],"All byte streams up to the bound and all ways to cut them into reads.",
  "The tests deliver whole frames in one write; split positions inside an escape pair or between delimiter and header are never exercised.",
  [S+"tunnelproxy/tunnelproxyclient.cpp",S+"tunnelproxy/tunnelproxyserver.cpp"],
  [("processData SLIP branch",S+"tunnelproxy/tunnelproxyclient.cpp"),("onClientDataAvailable",S+"tunnelproxy/tunnelproxyserver.cpp")],
  [("m_dataBuffer","bytes of the incomplete frame",S+"server/transportclient.h")],
  ["TransportInterface::sendData per client"])
p("C03","Client to server tunnelling is byte transparent",
  "Every chunk of bytes the proxy receives from a registered tunnel client is sent to the tunnel server that client registered with, as exactly one SLIP frame carrying that client's socket address and exactly those bytes, in the order received. Nothing is sent to anybody else and nothing is interpreted as an API call.",
  ["inputs","histories"],"All payload bytes and lengths up to the bound, all socket addresses 1..0xFFFE, any interleaving of two clients.",
  "Tests send short ASCII payloads from clients with address 1; payload bytes 0xC0/0xDB/0x00 and addresses containing these bytes are not covered.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",C+"slipdataprocessor.cpp"],
  [("onClientDataAvailable, client branch",S+"tunnelproxy/tunnelproxyserver.cpp")],
  observe=["TransportInterface::sendData(server, bytes)"])
p("C04","Server to client tunnelling is byte transparent",
  "A frame that a registered tunnel server sends for the socket address of one of its live clients results in exactly the frame's payload being sent, unframed and unmodified, to that client and to nobody else, for every payload and every address. A frame for an address that no live client of that server has is dropped: no data is sent to anyone and no connection is closed because of it.",
  ["inputs","histories"],"All payload bytes and lengths up to the bound, all socket addresses.",
  "Tests use short ASCII payloads to address 1 only.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"tunnelproxy/tunnelproxyclient.cpp"],
  [("onClientDataAvailable, server branch",S+"tunnelproxy/tunnelproxyserver.cpp"),("getClientConnection",S+"tunnelproxy/tunnelproxyserverconnection.cpp")],
  observe=["TransportInterface::sendData(client, bytes)"])
p("C05","Tunnels are isolated from each other",
  "In every history of connections, registrations, data and disconnections, tunnel data only ever flows between a client and the one server it registered with: data of a client reaches only the server whose registration that client named, and data of a server reaches only clients currently registered with that server. A connection that has not registered never causes data to be delivered to another connection.",
  ["histories","inputs"],"All event histories up to the bound over several servers and clients.",
  "The tests run a handful of fixed scenarios with one server.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"tunnelproxy/tunnelproxyserverconnection.cpp",S+"tunnelproxy/tunnelproxyclientconnection.cpp"],
  [("registration maps",S+"tunnelproxy/tunnelproxyserver.h")],
  [("m_tunnelProxyServerConnections","server uuid to server connection",S+"tunnelproxy/tunnelproxyserver.h"),("m_tunnelProxyClientConnections","client uuid to client connection",S+"tunnelproxy/tunnelproxyserver.h")],
  ["TransportInterface::sendData"])
p("C06","Registration rules: unique UUIDs, one role per connection",
  "A registration succeeds exactly when the connection has no role yet, the UUIDs given are valid and non-null, the UUID being registered is not in use by any live server or client registration, and for clients the named server is registered; a failed one reports the matching error (invalid UUID, already registered, server not found) and changes no registration. After answering a failed registration the proxy closes that connection, except for an invalid UUID, which leaves the connection open and unregistered. A UUID becomes available again as soon as the connection that held it is gone.",
  ["histories","inputs"],"All histories of connect, register server, register client, disconnect up to the bound, UUIDs drawn from a small set including null and malformed.",
  "Tests run about ten fixed sequences; cross registration after partial disconnects is not covered.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"jsonrpc/tunnelproxyhandler.cpp"],
  [("registerServer/registerClient",S+"tunnelproxy/tunnelproxyserver.cpp"),("RegisterServer/RegisterClient",S+"jsonrpc/tunnelproxyhandler.cpp")],
  observe=["JSON-RPC responses, killClientConnection, currentStatistics()"])
p("C07","Disconnects are propagated to the other side of the tunnel",
  "When a registered server's connection goes away, every client registered with it is disconnected and no other connection is affected. When a registered client's connection goes away for any reason, its server (if still connected) receives exactly one ClientDisconnected notification with that client's socket address, other clients keep working, and the address no longer routes to anyone. A server's DisconnectClient request disconnects exactly the client with that address, or reports an unknown socket address and disconnects nobody.",
  ["histories","inputs"],"All histories up to the bound; all 32-bit socket address arguments of DisconnectClient.",
  "Tests disconnect one client or one server in a single scenario.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"jsonrpc/tunnelproxyhandler.cpp"],
  [("onClientDisconnected",S+"tunnelproxy/tunnelproxyserver.cpp"),("disconnectClient",S+"tunnelproxy/tunnelproxyserver.cpp")],
  observe=["sendData/killClientConnection on the transports"])
p("C08","Socket addresses are valid and unique per server",
  "The socket address assigned to a newly registered client is never 0x0000 or 0xFFFF and never equals the address of another live client of the same server, whatever addresses are in use and however many clients the server has had before. The address announced to the server is the one that routes to that client.",
  ["histories","inputs"],"One allocation step from any allocator state: any counter value and any set of addresses in use up to the bound.",
  "Reaching the 16-bit wrap-around takes 65000 registrations; no test gets near it.",
  [S+"tunnelproxy/tunnelproxyserverconnection.cpp"],
  [("getFreeAddress/registerClientConnection",S+"tunnelproxy/tunnelproxyserverconnection.cpp")],
  [("m_currentAddressCounter","last address tried",S+"tunnelproxy/tunnelproxyserverconnection.h")],
  ["TunnelProxyClientConnection::socketAddress()"])
p("C09","Every JSON-RPC request gets exactly one matching response",
  "Each complete request packet the proxy receives is answered by exactly one response carrying the request's id, or -1 if the packet is not valid JSON or has no usable id; unknown namespaces, unknown methods, malformed method names and invalid params are answered with status error. After an error response the connection is closed, and the response is always sent before the close. The response to a successful RegisterServer is sent unframed, and every later message to that connection is a SLIP frame with socket address 0x0000.",
  ["inputs","histories"],"All requests of the bounded request grammar with any 32-bit id, in plain and SLIP mode.",
  "Tests check a list of fixed malformed requests on a fresh connection only.",
  [S+"server/jsonrpcserver.cpp",S+"jsonrpc/jsonhandler.cpp"],
  [("processDataPacket, sendResponse, sendErrorResponse",S+"server/jsonrpcserver.cpp")],
  observe=["TransportInterface::sendData/killClientConnection order"])
p("C10","JSON message framing does not depend on fragmentation",
  "For newline-separated JSON requests from a connection that has not registered, the requests executed and their responses depend only on the bytes received, not on how they are split into reads. Several requests arriving in one read are all executed, in order, each exactly once.",
  ["inputs","schedules"],"All ways to cut a stream of requests into reads (up to the stated number of cuts), up to three requests.",
  "Tests send whole messages, plus one fixed fragmentation.",
  [S+"tunnelproxy/tunnelproxyclient.cpp",S+"server/jsonrpcserver.cpp"],
  [("processData JSON branch",S+"tunnelproxy/tunnelproxyclient.cpp")],
  [("m_dataBuffer","bytes of the incomplete message",S+"server/transportclient.h")],
  ["responses sent per request"])
p("C11","Unterminated API input is bounded",
  "A connection that has not registered and whose buffered, not yet complete API message exceeds 10240 bytes is disconnected as soon as that happens, without executing anything from that read. A connection whose incomplete message is at most 10240 bytes is never disconnected for its buffer size.",
  ["inputs","histories"],"All lengths of up to three consecutive reads of an unterminated message.",
  "The test sends one oversized message; the boundary and accumulation over several reads are not covered.",
  [S+"server/jsonrpcserver.cpp",S+"server/transportclient.cpp"],
  [("buffer size check in processData",S+"server/jsonrpcserver.cpp")],
  observe=["killClientConnection"])
p("C12","Inactivity timeouts hit exactly the connections they should",
  "A connection that does not register within the configured inactive timeout is disconnected when the timeout expires, no matter what else it sends. A registered server is disconnected once nothing has been received from it for 60 seconds and never earlier; a registered client is never disconnected for inactivity.",
  ["schedules","histories"],"All timings of connect, register and data events up to the bound, any configured timeout in the stated range.",
  "Tests wait for one timeout with a fixed setting; interleavings of data and timers over a minute are not sampled.",
  [S+"tunnelproxy/tunnelproxyclient.cpp",S+"tunnelproxy/tunnelproxyserver.cpp"],
  [("inactive timer, activateClient",S+"tunnelproxy/tunnelproxyclient.cpp")],
  [("m_inactiveTimer","inactivity timer",S+"tunnelproxy/tunnelproxyclient.h")],
  ["killClientConnection and virtual time"])
p("C13","Statistics describe the real connections and traffic",
  "The statistics report always contains the number of connected transports clients, registered servers and registered clients, and lists each registered server (only those with clients, unless all are requested) with exactly its live clients, with their names, UUIDs and addresses. The received and sent byte counters of each connection equal the number of bytes actually received from and sent to it, and the throughput value is the number of tunnel payload bytes forwarded in the last completed second.",
  ["histories","inputs"],"All histories up to the bound with arbitrary payload lengths.",
  "Tests only check that monitor output is not empty.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"server/transportclient.cpp",S+"engine.cpp"],
  [("currentStatistics, tick",S+"tunnelproxy/tunnelproxyserver.cpp"),("addRxDataCount/addTxDataCount",S+"server/transportclient.cpp")],
  observe=["Engine::buildMonitorData, TunnelProxyServer::currentStatistics"])
p("C14","Hello and Ping answers are faithful",
  "Ping returns exactly the timestamp value that was sent, for every 32-bit unsigned value, over plain and SLIP framing and from any role. Hello returns the configured server name and the program's server, version and API version strings, whatever the connection's role, and neither call changes the connection's registration.",
  ["inputs","histories"],"All 32-bit timestamps; unregistered, server role.",
  "Tests ping with one timestamp.",
  [S+"jsonrpc/tunnelproxyhandler.cpp",S+"server/jsonrpcserver.cpp",L+"proxyjsonrpcclient.cpp"],
  [("Ping",S+"jsonrpc/tunnelproxyhandler.cpp"),("Hello",S+"server/jsonrpcserver.cpp")],
  observe=["JSON-RPC responses"])
p("C15","Client library: remote connection handshake and data gating",
  "A remote connection reports being remotely connected only after its transport is connected, Hello succeeded and RegisterClient succeeded with no error, and stops reporting it when the transport disconnects. Sending is refused and nothing is written unless it is remotely connected, and then exactly the given bytes are written; received bytes are delivered to the user unmodified exactly when remotely connected. An error answer to Hello or RegisterClient closes the transport. None of this depends on how the answers and the data behind them are split into reads, and connecting again replaces an earlier connection, whose end no longer affects the new one.",
  ["histories","inputs"],"All orders of transport events and peer answers up to the bound, arbitrary payload bytes.",
  "Tests only walk the successful handshake and two error answers.",
  [L+"tunnelproxy/tunnelproxyremoteconnection.cpp",L+"tcpsocketconnection.cpp",L+"proxyconnection.cpp"],
  [("state machine",L+"tunnelproxy/tunnelproxyremoteconnection.cpp")],
  [("m_state","connection state",L+"tunnelproxy/tunnelproxyremoteconnection.h")],
  ["remoteConnected(), dataReady, socket writes"])
p("C16","Client library: answers are matched to the request they belong to",
  "Every request the client library sends carries an id different from every other unanswered request on that connection, and a response completes exactly the pending request with that id, exactly once, with exactly that response. Responses with an unknown id complete nothing, and a notification never completes a request but is always delivered as that notification with its parameters.",
  ["histories","inputs"],"All orders of up to the bound of outstanding requests, responses (any id) and notifications (any id).",
  "Tests never have two requests outstanding nor a notification while a request is outstanding.",
  [L+"proxyjsonrpcclient.cpp",L+"jsonreply.cpp"],
  [("processDataPacket",L+"proxyjsonrpcclient.cpp")],
  [("m_replies","outstanding requests by id",L+"proxyjsonrpcclient.h")],
  ["JsonReply::finished, notification signals"])
p("C17","Client library: received frames reach the right socket",
  "For the byte stream a running tunnel socket server receives from the proxy, each complete valid frame with the socket address of a live socket is delivered to exactly that socket with exactly the frame's payload, in order and independent of how the stream is split into reads. Frames for unknown addresses, empty frames and malformed frames are dropped without affecting others, and data written to a socket is sent as one frame with that socket's address and exactly those bytes.",
  ["inputs","schedules"],"All byte streams up to the bound, all cuts into reads, all socket addresses.",
  "Tests exchange short ASCII messages over loopback, one frame per read.",
  [L+"tunnelproxy/tunnelproxysocketserver.cpp",L+"tunnelproxy/tunnelproxysocket.cpp"],
  [("onConnectionDataAvailable",L+"tunnelproxy/tunnelproxysocketserver.cpp"),("writeData",L+"tunnelproxy/tunnelproxysocket.cpp")],
  [("m_tunnelProxySockets","live sockets by address",L+"tunnelproxy/tunnelproxysocketserver.h")],
  ["TunnelProxySocket::dataReceived, ProxyConnection::sendData"])
p("C18","Client library: socket server life cycle",
  "A tunnel socket server reports running only after Hello and RegisterServer succeeded and stops reporting it once the connection is lost; every socket announced is reported disconnected exactly once, when its client leaves or the connection is lost. After losing the connection, or if the first attempt fails, it keeps trying to connect every 5 seconds until it succeeds or is stopped, and after stopServer it never reconnects on its own. While running it sends a Ping whenever nothing was received for 30 seconds.",
  ["histories","schedules"],"All histories of transport events, answers, notifications and timer expiries up to the bound.",
  "Tests start and stop one server in one fixed order.",
  [L+"tunnelproxy/tunnelproxysocketserver.cpp",L+"tcpsocketconnection.cpp"],
  [("timers and cleanUp",L+"tunnelproxy/tunnelproxysocketserver.cpp")],
  [("m_state","server state",L+"tunnelproxy/tunnelproxysocketserver.h"),("m_enabled","started and not stopped",L+"tunnelproxy/tunnelproxysocketserver.h")],
  ["signals and connection attempts"])
p("C19","TCP/TLS transport: announce, forward and clean up each socket once",
  "With TLS enabled a client is announced, and its data forwarded, only after its handshake completed; a socket that has not completed the handshake within 5 seconds is closed; without TLS it is announced on accept. Every announced client is announced under its own id and with its peer address exactly once, its received bytes are forwarded unmodified under that id, data sent to an id is written to exactly that socket, and its disconnection is reported exactly once, also when it is killed or the server is stopped, and its socket object is released.",
  ["histories","schedules"],"All histories of accept, encrypted, data, error, disconnect, kill, stop and time events up to the bound on two sockets.",
  "Tests use well-behaved loopback sockets that always complete the handshake.",
  [S+"server/tcpsocketserver.cpp"],
  [("SslServer::incomingConnection",S+"server/tcpsocketserver.cpp"),("SslClient timer",S+"server/tcpsocketserver.cpp")],
  [("m_clientList","announced sockets",S+"server/tcpsocketserver.h")],
  ["clientConnected/clientDisconnected/dataAvailable, socket writes and closes"])
p("C20","Unix socket transport: announce, forward and clean up each socket once",
  "Every local connection is announced under its own id exactly once, its received bytes are forwarded unmodified under that id, data sent to an id is written to exactly that socket, and its disconnection is reported exactly once, also when it is killed or the server is stopped, and its socket object is released. Killing or sending to an unknown id has no effect on other connections.",
  ["histories"],"All histories of connect, data, disconnect, send, kill and stop up to the bound on two sockets.",
  "Tests use one loopback connection in a fixed order.",
  [S+"server/unixsocketserver.cpp"],
  [("onClientConnected",S+"server/unixsocketserver.cpp")],
  [("m_clientList","announced sockets",S+"server/unixsocketserver.h")],
  ["clientConnected/clientDisconnected/dataAvailable, socket writes and closes"])
p("C21","WebSocket transport: announce, forward and clean up each socket once",
  "Every WebSocket client speaking protocol version 13 is announced under its own id exactly once (others are rejected unannounced), each of its text messages is forwarded completely, as UTF-8, under that id, UTF-8 text sent to an id is written as one text message with that text to exactly that socket, and its disconnection is reported exactly once, also when it is killed or the server is stopped. A binary message is never forwarded and closes that connection.",
  ["histories"],"All histories of connect (any version), text, binary, error, disconnect, send, kill and stop up to the bound on two sockets.",
  "Tests use one loopback connection; version mismatch and interleavings are not covered.",
  [S+"server/websocketserver.cpp"],
  [("onClientConnected and message slots",S+"server/websocketserver.cpp")],
  [("m_clientList","announced sockets",S+"server/websocketserver.h")],
  ["clientConnected/clientDisconnected/dataAvailable, socket writes and closes"])
p("C22","Configuration: each key reaches its setting, TLS material is mandatory",
  "Loading a configuration file gives every setting exactly the value of its key, or its built-in default when the key is absent, for every combination of present keys. Loading fails if the file does not exist or if the certificate, the key or a configured chain file cannot be opened; on success the TLS configuration requires at least TLS 1.2 and uses the certificate and key from the named files.",
  ["configurations","fault_sequences"],"Every subset of keys present, arbitrary integer values, every subset of files unreadable.",
  "Tests load three fixed files.",
  [S+"proxyconfiguration.cpp"],
  [("loadConfiguration",S+"proxyconfiguration.cpp")],
  observe=["accessors after loadConfiguration"])
p("C23","Engine start, stop and restart leave nothing behind",
  "After start the engine is running in the next event loop turn with all three transports and the monitor on the configured names, addresses and ports; stop closes them all, disconnects every client and reports not running. Any sequence of start and stop, with connections in any state, can be repeated without leaking listening servers, touching freed objects or reporting running state wrongly, and the throughput is rolled over once per second while running.",
  ["histories"],"All sequences of start, stop, destroy, connect and timer events up to the bound.",
  "Tests start and stop the engine around each test case only.",
  [S+"engine.cpp",S+"tunnelproxy/tunnelproxyserver.cpp"],
  [("start/clean/onTimerTick",S+"engine.cpp")],
  [("m_running","engine running",S+"engine.h")],
  ["running(), listening servers"])
p("C24","Monitor server answers refresh requests and nothing else",
  "A monitor connection that sends a valid refresh request, in one read, receives exactly one newline-terminated JSON document with the current statistics, with all servers if and only if the request says printAll; any other or malformed request closes that connection without an answer. Several monitors are served independently and the proxy itself is unaffected by monitors connecting, misbehaving or disconnecting.",
  ["histories","inputs"],"All histories of monitor connect, requests of the bounded grammar and disconnects up to the bound.",
  "Tests send one refresh request.",
  [S+"server/monitorserver.cpp",S+"engine.cpp"],
  [("processRequest",S+"server/monitorserver.cpp")],
  [("m_clients","connected monitors",S+"server/monitorserver.h")],
  ["bytes written to the monitor sockets"])
p("C25","Monitor client delivers each report independent of fragmentation",
  "The monitor client delivers each newline-terminated report of the stream it receives exactly once and in order, independent of how the stream is split into reads. Incomplete data of an earlier connection is never mixed into a later one. A refresh request is sent only while connected, and asks for all servers if and only if that option is set.",
  ["inputs","schedules"],"All ways to cut a stream of up to three reports into reads.",
  "No test covers the monitor program.",
  ["monitor/monitorclient.cpp"],
  [("onReadyRead",  "monitor/monitorclient.cpp")],
  [("m_dataBuffer","bytes of the incomplete report","monitor/monitorclient.h")],
  ["dataReady signal, socket writes"])
p("C26","API parameter validation accepts exactly the documented shape",
  "Parameters of an API call are accepted if and only if every mandatory parameter is present, no undocumented parameter is present and each value is convertible to the documented type; optional parameters may be absent, and a parameter has no other name than the documented one. Otherwise the call is rejected with an error and has no effect.",
  ["inputs"],"All subsets of documented and unknown parameters with values of every JSON type, for every method of the API and for synthetic templates with optional, nested and list parameters.",
  "Tests check a handful of invalid calls.",
  [S+"jsonrpc/jsontypes.cpp",S+"jsonrpc/jsonhandler.cpp"],
  [("validateMap/validateProperty",S+"jsonrpc/jsontypes.cpp")],
  observe=["validateParams result and JSON-RPC response"])
p("C27","No event history makes the proxy touch freed or foreign memory",
  "Whatever clients send, and in whatever order connections open, register, transmit, fail and close, the proxy never dereferences a null or dangling object, never reads or writes outside its buffers and never deletes an object twice. Objects of connections that are gone are released.",
  ["histories","inputs","schedules"],"All event histories up to the bound, arbitrary short byte strings as input.",
  "The tests run without memory checkers on a few fixed histories.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",S+"server/jsonrpcserver.cpp",S+"server/tcpsocketserver.cpp"],
  [("QObject ownership and deleteLater",S+"tunnelproxy/tunnelproxyserver.cpp")],
  observe=["memory accesses of the executed code"])
p("C28","Asynchronous API replies finish exactly once",
  "A request answered asynchronously gets exactly one response with its id: the reply's data if it finishes before the configured timeout, otherwise a timeout error, after which the connection is closed; an unsuccessful reply is answered and then the connection is closed. If the connection is gone before the reply finishes, nothing is sent and nothing of it is touched.",
  ["schedules","histories"],"All interleavings of finish, timeout and disconnect for up to two outstanding replies.",
  "No test uses asynchronous replies.",
  [S+"server/jsonrpcserver.cpp",S+"jsonrpc/jsonreply.cpp"],
  [("asyncReplyFinished",S+"server/jsonrpcserver.cpp"),("startWait/timeout",S+"jsonrpc/jsonreply.cpp")],
  [("m_asyncReplies","outstanding asynchronous replies",S+"server/jsonrpcserver.h")],
  ["TransportInterface::sendData/killClientConnection"])
p("C29","End to end: client library and proxy together carry both streams",
  "With the proxy and the client library joined by byte streams (TCP, TLS or web socket for the clients), every message a remote connection sends while remotely connected arrives complete, in order and unchanged at exactly the socket that the socket server of the named server announced for this connection, and everything written to that socket arrives likewise at that connection and nowhere else, however the streams are split, delayed and interleaved. When either end disconnects, is deleted, stops, or loses its connection, both ends learn it exactly once, what had been delivered is a prefix of what was sent, other tunnels are unaffected, and the client can connect again. Established tunnels survive any time without data. A server that loses its connection becomes available again by itself under the same UUID, even when the proxy did not notice the loss, with only one connection registered for it at any time.",
  ["inputs","schedules","histories"],"All schedules of partial delivery of up to three connections within the bound, all byte values, all ends of a tunnel at any transport state of the bound.",
  "The tests use a loopback connection that delivers each message at once and whole, one client at a time for most, and never wait for a minute.",
  [S+"tunnelproxy/tunnelproxyserver.cpp",L+"tunnelproxy/tunnelproxysocketserver.cpp",L+"tunnelproxy/tunnelproxyremoteconnection.cpp",L+"proxyjsonrpcclient.cpp"],
  [("tunnel data paths",S+"tunnelproxy/tunnelproxyserver.cpp"),("onConnectionDataAvailable",L+"tunnelproxy/tunnelproxysocketserver.cpp"),("sendData/onConnectionDataAvailable",L+"tunnelproxy/tunnelproxyremoteconnection.cpp")],
  [("m_tunnelProxySockets","sockets announced by the socket server",L+"tunnelproxy/tunnelproxysocketserver.h")],
  ["signals and return values of TunnelProxyRemoteConnection, TunnelProxySocketServer, TunnelProxySocket"])
M="monitor/"; T="tunnelclient/"
p("C30","Non-interactive monitor prints the report completely and truthfully",
  "The non-interactive monitor requests one report with the options it was given and prints it once it has arrived completely, in however many pieces: every server connection and every client connection of the report exactly once, each client beneath its server, with its own UUID, address, name, time and amounts of received and transmitted data, and the counts, the data rate, the transports and the identity of the proxy, each with the value of the report also beyond 2 GiB and 2038. As JSON it prints a document equal to the report. Then it exits successfully. Asked about a running proxy it shows the connections that exist and the data they really exchanged.",
  ["inputs","schedules"],"All numbers of servers and clients, amounts and times of the bound in combination, all splits of the report, all characters of names.",
  "No test runs the monitor programs.",
  [M+"noninteractivemonitor.cpp",M+"monitorclient.cpp",M+"utils.h"],
  [("onMonitorDataReady",M+"noninteractivemonitor.cpp"),("processBufferData",M+"monitorclient.cpp"),("humanReadableTraffic",M+"utils.h")],
  [("report","JSON document of the monitor server",S+"server/monitorserver.cpp")],
  ["standard output and exit status of the monitor"])
p("C31","Interactive monitor shows the current report and restores the terminal",
  "Once connected, the interactive monitor requests a report each second. Within 100 ms of the arrival of a report the screen shows that report and nothing else: in the header the identity of the proxy, the counts and the data rate, below it every server connection followed by its client connections, each once, with its own time, address, amounts of data and name, as far as the terminal has rows; keys and changes of the size of the terminal do not change that. Names are shown as text, whatever characters they have. No terminal size, key or report makes it use a window that was deleted or the terminal after it was left. When Esc is pressed or the proxy disconnects it deletes its windows, leaves the terminal and exits successfully; it never touches the terminal before it is connected.",
  ["inputs","histories"],"All reports, keys, terminal sizes and ends in all orders within the bound.",
  "No test runs the monitor programs.",
  [M+"terminalwindow.cpp",M+"monitor.cpp",M+"monitorclient.cpp",M+"utils.h"],
  [("paintHeader/paintContentTunnelProxy/eventLoop",M+"terminalwindow.cpp"),("onConnected/onDisconnected",M+"monitor.cpp")],
  [("screen","cells the ncurses windows put on the terminal",M+"terminalwindow.cpp")],
  ["cells of the terminal, requests on the monitor socket, exit status"])
p("C32","Tunnel client application sends what it was asked for and nothing else",
  "The tunnel client application connects, when told to, to the URL it was given and registers with the name and the UUIDs it was given. As a server with data requested it sends back every piece of data to exactly the client it came from, unchanged, once and in order; otherwise it never sends data to any client. As a client with random data requested it sends one hundred letters and digits each second while, and only while, it is remotely connected; otherwise it never sends data. It ignores errors of the certificate of the proxy if and only if it was told to.",
  ["inputs","histories"],"All histories of clients, data, losses of the connection and times within the bound; all bytes; all values of the random number generator.",
  "No test runs the application.",
  [T+"serverconnection.cpp",T+"clientconnection.cpp"],
  [("ServerConnection",T+"serverconnection.cpp"),("ClientConnection/generateRandomString",T+"clientconnection.cpp")],
  [("m_echo/m_sendRandomData/m_insecure","what the user asked for",T+"clientconnection.h")],
  ["bytes on the connection to the proxy"])
p("C33","Client library trusts a proxy only as far as the application decides",
  "Over an encrypted connection neither a remote connection nor a socket server sends anything or reports being connected to the proxy before the TLS handshake has finished. Every certificate error is reported to the application, once and as it is; none is ignored unless the application asks to, then exactly those it asked for, on this connection only: the next connection, including an automatic one, starts without trust. A connection that is refused for its certificate is reported disconnected and nothing has been sent. Asking to ignore errors is harmless at any time. Connections go to the host and port of the URL, by name or by address, encrypted if and only if the scheme says so.",
  ["inputs","histories"],"All combinations of certificate errors, decisions, transports and kinds of object over several connections; all orders of calls within the bound.",
  "The tests ignore all certificate errors and use one address.",
  [L+"tcpsocketconnection.cpp",L+"websocketconnection.cpp",L+"tunnelproxy/tunnelproxyremoteconnection.cpp",L+"tunnelproxy/tunnelproxysocketserver.cpp"],
  [("connectServer/onEncrypted/onStateChanged",L+"tcpsocketconnection.cpp"),("ignoreSslErrors",L+"tunnelproxy/tunnelproxysocketserver.cpp"),("ignoreSslErrors",L+"tunnelproxy/tunnelproxyremoteconnection.cpp")],
  [("ignored errors","errors the socket has been told to ignore","QSslSocket, QWebSocket")],
  ["sslErrors signals, bytes and options of the socket"])
V="server/"
p("C34","Server program starts as configured or not at all, logs everything, ends cleanly",
  "The server program runs with exactly the configuration file it was given; it starts if and only if that file loads, the TLS material it names can be read if TLS is enabled, and the log file, if there is one, can be opened (missing directories are created). Otherwise it ends with a failure code without having listened anywhere. A log file given on the command line takes precedence over the configuration. Every message of any level is written exactly once and unchanged to the console and, if there is one, to the end of the log file, whose older content stays. SIGINT, SIGTERM, SIGQUIT and SIGHUP close all listeners and connections and end the program, other signals do not; the exit code of the application is passed on.",
  ["inputs","histories"],"All command lines of the bound in all forms of options, with all states of the files they name; all message levels and printable texts of the bound; all signals of the bound in states with connections.",
  "No test runs the server program.",
  [V+"main.cpp",V+"remoteproxyserverapplication.cpp","common/loggingcategories.cpp"],
  [("main/consoleLogHandler",V+"main.cpp"),("catchUnixSignals",V+"remoteproxyserverapplication.cpp")],
  [("s_loggingEnabled/s_logFile","the log file in use",V+"main.cpp")],
  ["listeners, console, log file, exit code"])
p("C35","Tunnel client program does what its command line says or nothing",
  "The tunnel client program opens exactly one connection, to the URL given or to the documented default, in the role the command line asks for, and registers there with the name and the UUIDs given (a random UUID of its own if none is given). Ignoring certificate errors, echoing and random data are used if and only if asked for. A command line that makes no sense (both roles, a client without the valid UUID of its server, an invalid URL) ends the program with a failure code and without a connection. The level of messages shown follows the verbosity asked for.",
  ["inputs"],"All combinations of the options with the values of the bound in all forms of options.",
  "No test runs the program.",
  [T+"main.cpp",T+"serverconnection.cpp",T+"clientconnection.cpp"],
  [("main",T+"main.cpp")],[("options","what the command line asks for",T+"main.cpp")],
  ["connections, bytes written on them, exit code"])
p("C36","Monitor program picks the mode and socket its command line asks for",
  "The monitor program connects to the socket given or to the documented default, and only if it exists; otherwise it ends with a failure code. With the non-interactive option it prints one report as text, or as JSON if asked for that, of all connections if and only if asked for that; otherwise it shows the interactive screen and writes nothing else. Options that do not fit the mode are refused with a failure code.",
  ["inputs"],"All combinations of the options with the values of the bound in all forms of options.",
  "No test runs the program.",
  [M+"main.cpp",M+"noninteractivemonitor.cpp",M+"monitor.cpp"],
  [("main",M+"main.cpp")],[("options","what the command line asks for",M+"main.cpp")],
  ["connection to the monitor socket, requests, standard output, terminal, exit code"])
p("C37","Client library reports every error once and says who the proxy is",
  "Every network error of a connection is reported to the application as it occurs, once as long as it does not repeat, and error() is the last one of the connection; a new attempt starts without an error. A socket server reports the loss of its connection to the proxy as not connected and the rejection of its Hello or registration as a connection error, once for each connection, and has no server error while it is running. What the proxy says about itself is available unchanged.",
  ["histories","inputs"],"All histories of errors, answers, losses and calls within the bound over four transports and both kinds of objects; all printable texts of the bound.",
  "The tests look at two errors of one connection.",
  [L+"tunnelproxy/tunnelproxyremoteconnection.cpp",L+"tunnelproxy/tunnelproxysocketserver.cpp",L+"tcpsocketconnection.cpp",L+"websocketconnection.cpp"],
  [("setError/setServerError",L+"tunnelproxy/tunnelproxysocketserver.cpp"),("setError",L+"tunnelproxy/tunnelproxyremoteconnection.cpp"),("onHelloFinished",L+"tunnelproxy/tunnelproxyremoteconnection.cpp")],
  [("m_error/m_serverError","last error",L+"tunnelproxy/tunnelproxysocketserver.h")],
  ["errorOccurred, serverErrorOccurred, error(), serverError()"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
