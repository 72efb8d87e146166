# per property: how it is decided (oracle), what lies outside
D = {
"C01": ("serializeData, deserializeData, buildFrame and parseFrame on strings of symbolic bytes; the oracle is an independent RFC 1055 encoder/decoder written over the same symbols.", "Strings longer than the bound; the code treats each byte alike, so lengths beyond the bound only repeat."),
"C02": ("A registered server with two clients over the in-memory transport; a stream of symbolic bytes (or of frames of all kinds with symbolic payload) is delivered uncut and cut; payloads delivered per client must equal those of the oracle's decoder over the whole stream.", "API frames of arbitrary content (C09, C10 and C27 `frame` cover the API side); more than two cuts."),
"C03": ("Two servers, three clients; chunks in any interleaving; the decoded wire of each server must equal the list of chunks of its clients with their announced addresses; all other connections silent.", "Chunks longer than the bound other than the fixed 20000 byte one."),
"C04": ("A frame with symbolic address and payload; the set of (connection, bytes) sent must be exactly the oracle's; also with the client's own address arbitrary (counter set before its registration).", ""),
"C05": ("Histories over all kinds of events with an oracle that tracks role, server and liveness per connection; after every event the data sent to each connection must be exactly the tunnel data its tunnel allows.", "More than seven connections."),
"C06": ("Histories with an oracle of the UUID table; each answer's error and the closing of the connection must match it.", "The UUID string forms accepted by QUuid (null, malformed, valid only)."),
"C07": ("Oracle tracks which server each client belongs to; after every event notifications (with address), closings and routing are compared.", ""),
"C08": ("The private address counter of the server object is set to an arbitrary 16-bit value before each registration, so that every reachable and unreachable allocator state is covered; plus 65600 real registrations (concrete) over the wrap.", "More than 300 live clients (crowded): occupancy patterns beyond a contiguous block and single addresses."),
"C09": ("Sequences of requests of all methods and malformed kinds; the oracle knows which answer (id, status) is due and that the connection closes after an error, with the answer before it; framing by role.", "Packets of arbitrary symbolic text beyond 6 bytes."),
"C10": ("The same request texts delivered whole and in pieces; answers must be identical and in order.", "Reads that end directly behind an inner closing brace are the known finding; newline-less requests."),
"C11": ("Lengths are symbolic; closing must happen exactly when the oracle's count of unterminated bytes exceeds 10240.", "Registered connections (SLIP buffer is not bounded by the code; see limitations)."),
"C12": ("Virtual time; gaps are symbolic milliseconds; the instant of closing is compared with the oracle.", "Timer inaccuracy of Qt (coarse timers)."),
"C13": ("The statistics document is compared field by field with the oracle's own account of the history.", "Counters beyond the traffic of the bound (64-bit)."),
"C14": ("Any 32-bit timestamp through the handler, boundary values and symbolic digits through the JSON path.", "Values that JSON numbers cannot carry as 32-bit unsigned."),
"C15": ("RemoteConnection... (client role) against an in-memory proxy: oracle state machine of transport/Hello/RegisterClient with the events of the bound; what is written and delivered is compared byte by byte.", ""),
"C16": ("The JSON-RPC client with an in-memory connection; oracle keeps the set of outstanding ids; each reply must finish exactly once with exactly the response's map.", ""),
"C17": ("The tunnel socket server against an in-memory proxy: bytes delivered per socket must equal the oracle's decoding of the whole stream.", ""),
"C18": ("Oracle state machine of the socket server with virtual time (5 s reconnect, 30 s ping).", ""),
"C19": ("The real TcpSocketServer/SslServer over in-memory sockets; oracle per socket: announced, forwarded, written, closed, and that the socket object is deleted.", "The TLS protocol itself."),
"C20": ("As C19 for the unix socket server.", "The file system beyond existence of the socket file."),
"C21": ("As C19 for the web socket server (text and binary messages).", "The web socket protocol itself."),
"C22": ("A settings file generated from symbolic choices and digits in the virtual file system, read by the real ProxyConfiguration.", "INI syntax beyond what the file of the package uses; certificates are modelled as readable/unreadable."),
"C23": ("The real Engine over the in-memory environment: after any sequence of operations, which servers listen where, running(), connections closed, and the engine's count of live heap objects over identical cycles.", ""),
"C24": ("MonitorServer over in-memory local sockets; documents compared with the statistics of the proxy at that instant.", "Requests cut into several reads (documented as one read)."),
"C25": ("MonitorClient over an in-memory local socket; the list of reports delivered must equal that of the uncut stream.", "The terminal user interface."),
"C26": ("validateParams over synthetic templates and all six API methods, values of every JSON type, names with symbolic characters; oracle is the documented shape plus Qt's convertibility table.", "Templates of kinds no API uses (Double, $ref BasicType), see limitations."),
"C27": ("The full Engine with all four listeners; every memory access of every path is checked by the engine; live heap objects are compared over identical cycles.", "Memory safety inside Qt."),
"C28": ("A handler with an asynchronous method is registered with the real JsonRpcServer (moc output of the harness class in c28_moc.h); oracle per request.", "No method of the shipped API is asynchronous."),
"C29": ("The real Engine and the real client library in one encoding, joined by in-memory connections whose pieces the harness moves; bytes handed in at one end are compared with bytes handed out at the other.", "Servers connected through a web socket (the library sends frames as text messages, which do not survive it; see C17); loss of single bytes."),
"C30": ("The monitor's classes with what it writes to standard output captured; the lines are compared with the generated report. `live`: the real monitor server of an Engine with three connections answers, and the amounts are counted by the harness.", "Layout beyond: one line per connection, labels of the values."),
"C31": ("The monitor's classes on top of a stand-in for the ncurses functions they use (env/curses.cpp: cells, wrapping, scrolling, errors as documented; use of a deleted window, printf formats out of data and unbalanced terminal modes are violations); the cells shown are compared with the report.", "Terminals narrower than a line: only memory and window safety. ncurses itself."),
"C32": ("ServerConnection and ClientConnection of the application over the client library and the environment; rand() returns symbolic values first.", "main() of the application (options), output."),
"C33": ("Both objects of the client library with a symbolic application policy; the environment's socket decides like QSslSocket whether the handshake goes on.", "TLS itself; the default verification mode of Qt is trusted."),
"C34": ("main() itself runs over stand-ins for QCoreApplication, QCommandLineParser and the message handler (model/program.cpp; natively the parser is Qt's own) with files of the virtual file system; what must happen is computed from the symbolic choices.", "Signals are delivered between events and within one at every write to a connection, not at every instruction; the system's log rotation; options of Qt itself (--help, --version)."),
"C35": ("As C34, with the bytes of the connection compared with what the options ask for.", "--help, --version."),
"C36": ("As C34, with the stand-in for ncurses of C31 and a monitor socket of the environment.", "--help, --version."),
"C37": ("Oracle of the phases of both objects over the environment's connections; reports of each step are compared with the errors that occurred.", "Connections whose end is deferred by unsent data."),
}
