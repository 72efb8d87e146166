SH='''#!/bin/bash
# exit 0: the property holds; run with cwd = repository after the build
here=$(cd "$(dirname "$0")" && pwd)
export DEMO_DIR=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$DEMO_DIR"' EXIT
export LD_LIBRARY_PATH=$PWD/_build/libnymea-remoteproxy:$PWD/_build/libnymea-remoteproxyclient TZ=UTC TERM=xterm LC_ALL=C.UTF-8
timeout 120 python3 "$here/demo.py" "$PWD/_build"
'''
PY='''
# A monitor server with the given reports; returns what the monitor shows.
import json, os, pty, re, select, signal, socket, struct, subprocess, sys, time, fcntl, termios, threading
B = sys.argv[1]; D = os.environ["DEMO_DIR"]; SOCK = D + "/m.sock"
def conn(i, name, address, rx, tx, server=False, clients=()):
    m = dict(id="x", name=name, address=address, timestamp=1700000000 + i, rxDataCount=rx, txDataCount=tx)
    m["serverUuid" if server else "clientUuid"] = "0000%04d-0000-0000-0000-000000000000" % i
    if server: m["clientConnections"] = list(clients)
    return m
def report(servers): return dict(serverName="s", serverVersion="1", apiVersion="2", tunnelProxyStatistic=dict(totalClientCount=1, serverConnectionsCount=len(servers), clientConnectionsCount=1, troughput=0, transports={}, tunnelConnections=servers))
def serve(reports):
    l = socket.socket(socket.AF_UNIX); l.bind(SOCK); l.listen(1)
    def go():
        c, _ = l.accept(); n = 0; buf = b""
        while True:
            d = c.recv(4096)
            if not d: return
            buf += d
            while b"\\n" in buf:
                buf = buf.split(b"\\n", 1)[1]; c.sendall(json.dumps(reports[min(n, len(reports) - 1)], separators=(",", ":")).encode() + b"\\n"); n += 1
    threading.Thread(target=go, daemon=True).start()
def text(): # non-interactive
    return subprocess.run([B + "/monitor/nymea-remoteproxy-monitor", "-n", "-s", SOCK], stdout=subprocess.PIPE, timeout=30).stdout.decode()
def screen(seconds, rows=30, cols=160): # interactive: lines of the screen, rendered from what the terminal received
    pid, fd = pty.fork()
    if pid == 0:
        os.execv(B + "/monitor/nymea-remoteproxy-monitor", ["monitor", "-s", SOCK])
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0)); out = b""; end = time.time() + seconds
    while time.time() < end:
        if select.select([fd], [], [], 0.1)[0]:
            try: out += os.read(fd, 65536)
            except OSError: break
    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
    cell = [[" "] * cols for _ in range(rows)]; y = x = 0; i = 0; s = out.decode("latin1"); last = " "
    while i < len(s):
        m = re.match(r"\\x1b\\[([?>]?)([0-9;]*)([A-Za-z@`])", s[i:])
        if m:
            i += m.end(); a = [int(v) if v else 0 for v in m.group(2).split(";")]; k = m.group(3); n = max(a[0], 1)
            if m.group(1): continue
            if k == "H": y = n - 1; x = max(a[1], 1) - 1 if len(a) > 1 else 0
            elif k == "G": x = n - 1
            elif k == "d": y = n - 1
            elif k == "A": y -= n
            elif k == "B": y += n
            elif k == "C": x += n
            elif k == "D": x -= n
            elif k == "K":
                if a[0] == 1: cell[y][:x + 1] = [" "] * (x + 1)
                else: cell[y][x:] = [" "] * (cols - x)
            elif k == "J":
                if a[0] == 2: cell = [[" "] * cols for _ in range(rows)]
                else:
                    cell[y][x:] = [" "] * (cols - x)
                    for r in range(y + 1, rows): cell[r] = [" "] * cols
            elif k == "X": cell[y][x:x + n] = [" "] * min(n, cols - x)
            elif k == "P": cell[y][x:] = cell[y][x + n:] + [" "] * min(n, cols - x)
            elif k == "@": cell[y][x:] = ([" "] * n + cell[y][x:])[:cols - x]
            elif k == "b":
                for _ in range(n):
                    if x < cols: cell[y][x] = last; x += 1
            continue
        m = re.match(r"\\x1b[()][A-Z0-9]|\\x1b[=>78M]", s[i:])
        if m: i += m.end(); continue
        c = s[i]; i += 1
        if c == "\\r": x = 0
        elif c == "\\n": y = min(y + 1, rows - 1)
        elif c == "\\b": x = max(x - 1, 0)
        elif c >= " " and x < cols and 0 <= y < rows: cell[y][x] = last = c; x += 1
    return ["".join(r).rstrip() for r in cell]
bad = 0
def check(ok, what):
    global bad
    if not ok: bad = 1; print("FAIL", what)
'''
END='''
print("demo failed" if bad else "demo passed"); os._exit(bad)
'''
BUGS=[
dict(id="C29-announce",prop="C29",needs="the notification of a new client and its first data arrive at the socket server in one read",breaks="the socket of a new client is announced to the application one event loop iteration late; data that came with the announcement is lost",
 edits=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp","    m_tunnelProxySockets.insert(socketAddress, tunnelProxySocket);\n    emit clientConnected(tunnelProxySocket);","    m_tunnelProxySockets.insert(socketAddress, tunnelProxySocket);\n\n    // Let the application handle the new socket outside of the message processing\n    QTimer::singleShot(0, tunnelProxySocket, [this, tunnelProxySocket](){\n        if (tunnelProxySocket->connected())\n            emit clientConnected(tunnelProxySocket);\n    });")],
 pre='#include "tunnelproxy/tunnelproxysocketserver.h"\n#include "tunnelproxy/tunnelproxysocket.h"\nusing namespace remoteproxyclient;\n',
 demo='''
    QTcpServer l; CHECK(l.listen(QHostAddress::LocalHost, 0)); QTcpSocket *p = nullptr; QObject::connect(&l, &QTcpServer::newConnection, [&]() { p = l.nextPendingConnection(); });
    TunnelProxySocketServer s(QUuid::createUuid(), "srv"); QByteArray got; int announced = 0; QObject::connect(&s, &TunnelProxySocketServer::clientConnected, [&](TunnelProxySocket *t) { announced++; QObject::connect(t, &TunnelProxySocket::dataReceived, [&](const QByteArray &d) { got += d; }); });
    s.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(l.serverPort()))); CHECK(waitFor([&]() { return p && p->canReadLine(); })); QVariantMap m = json(p->readLine());
    p->write("{\\"id\\":" + QByteArray::number(m.value("id").toInt()) + ",\\"params\\":{\\"apiVersion\\":\\"0.3\\",\\"name\\":\\"p\\",\\"server\\":\\"n\\",\\"version\\":\\"1\\"},\\"status\\":\\"success\\"}\\n"); CHECK(waitFor([&]() { return p->canReadLine(); })); m = json(p->readLine());
    p->write("{\\"id\\":" + QByteArray::number(m.value("id").toInt()) + ",\\"params\\":{\\"tunnelProxyError\\":\\"TunnelProxyErrorNoError\\"},\\"status\\":\\"success\\"}\\n"); CHECK(waitFor([&]() { return s.running(); }));
    p->write(slip(0, "{\\"id\\":1,\\"notification\\":\\"TunnelProxy.ClientConnected\\",\\"params\\":{\\"clientName\\":\\"c\\",\\"clientPeerAddress\\":\\"10.0.0.9\\",\\"clientUuid\\":\\"" + uu(2) + "\\",\\"socketAddress\\":1}}\\n") + slip(1, "first data")); CHECK(waitFor([&]() { return announced == 1; })); spin(300); CHECK(got == "first data");'''),
dict(id="C30-behind",prop="C30",needs="two servers behind the same address",breaks="the non-interactive monitor shows only one of the servers that share an address",
 edits=[("monitor/noninteractivemonitor.cpp",'        foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {','        // Show the servers sorted by their address\n        QVariantMap sortedServers;\n        foreach (const QVariant &tunnelConnection, tunnelProxyMap.value("tunnelConnections").toList())\n            sortedServers.insert(tunnelConnection.toMap().value("address").toString(), tunnelConnection);\n\n        foreach (const QVariant &serverVariant, sortedServers) {')],
 files={"demo.sh":SH,"demo.py":PY+'''
serve([report([conn(1, "one", "10.0.0.1", 5, 6, True), conn(2, "two", "10.0.0.2", 7, 8, True, [conn(3, "c", "10.0.0.9", 1, 2)]), conn(4, "three", "10.0.0.1", 9, 10, True)])]); t = text()
for n in ("one", "two", "three"): check("| " + n in t, n)
'''+END}),
dict(id="C30-cut",prop="C30",needs="a client with a name of more than forty characters",breaks="the end of the line of a client, and with it of the name, is cut off",
 edits=[("monitor/noninteractivemonitor.cpp",'''                qStdOut() << clientLinePrint << "\\n";''','''                // Keep the line within the width of a common terminal
                if (clientLinePrint.length() > 150)
                    clientLinePrint = clientLinePrint.left(150);

                qStdOut() << clientLinePrint << "\\n";''')],
 files={"demo.sh":SH,"demo.py":PY+'''
serve([report([conn(2, "two", "10.0.0.2", 7, 8, True, [conn(3, "a client with quite a long name of many many characters, all of which count", "10.0.0.9", 1, 2)])])]); t = text()
check("all of which count" in t, "name cut")
'''+END}),
dict(id="C31-rest",prop="C31",needs="a connection is replaced by another one with a shorter name while the number of servers stays the same",breaks="the rest of the longer line stays on the screen",
 edits=[("monitor/terminalwindow.cpp","    werase(m_headerWindow);\n    werase(m_contentWindow);\n\n    resizeWindow();","    werase(m_headerWindow);\n\n    resizeWindow();"),
        ("monitor/terminalwindow.cpp","    m_dataMap = dataMap;\n\n    QVariantMap statisticMap","    // Only clear the content if the lines move, painting over it does not flicker\n    QVariantMap previousProxyMap = m_dataMap.value(\"tunnelProxyStatistic\").toMap();\n    QVariantMap currentProxyMap = dataMap.value(\"tunnelProxyStatistic\").toMap();\n    if (previousProxyMap.value(\"tunnelConnections\").toList().count() != currentProxyMap.value(\"tunnelConnections\").toList().count()\n            || previousProxyMap.value(\"clientConnectionsCount\") != currentProxyMap.value(\"clientConnectionsCount\"))\n        werase(m_contentWindow);\n\n    m_dataMap = dataMap;\n\n    QVariantMap statisticMap")],
 files={"demo.sh":SH,"demo.py":PY+'''
serve([report([conn(1, "a server with a long name", "10.0.0.1", 5, 6, True)])] * 2 + [report([conn(2, "short", "10.0.0.2", 7, 8, True)])]); t = "\\n".join(screen(6))
check("10.0.0.2" in t and re.search(r"\\| short$", t, re.M), t)
'''+END}),
dict(id="C31-gone",prop="C31",needs="the last server disappears while the monitor is open",breaks="a report without connections leaves the previous ones on the screen",
 edits=[("monitor/terminalwindow.cpp","    m_dataMap = dataMap;\n\n    QVariantMap statisticMap","    // Keep the connections of a report which has been requested while the server was busy\n    QVariantMap proxyMap = dataMap.value(\"tunnelProxyStatistic\").toMap();\n    if (proxyMap.value(\"tunnelConnections\").toList().isEmpty() && m_dataMap.contains(\"tunnelProxyStatistic\"))\n        proxyMap.insert(\"tunnelConnections\", m_dataMap.value(\"tunnelProxyStatistic\").toMap().value(\"tunnelConnections\"));\n\n    m_dataMap = dataMap;\n    m_dataMap.insert(\"tunnelProxyStatistic\", proxyMap);\n\n    QVariantMap statisticMap")],
 files={"demo.sh":SH,"demo.py":PY+'''
serve([report([conn(1, "a server", "10.0.0.1", 5, 6, True)])] * 2 + [report([])]); t = "\\n".join(screen(6))
check("Servers: 0" in t and "10.0.0.1" not in t, t)
'''+END}),
dict(id="C32-echo",prop="C32",needs="two clients connected to the tunnel client at once, the older one sends data",breaks="the data is sent back to the client that connected last",
 edits=[("tunnelclient/serverconnection.cpp","        if (m_echo) {\n            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [tunnelProxySocket](const QByteArray &data){\n                tunnelProxySocket->writeData(data);\n            });","        if (m_echo) {\n            m_echoSocket = tunnelProxySocket;\n            connect(tunnelProxySocket, &TunnelProxySocket::dataReceived, m_socketServer, [this](const QByteArray &data){\n                if (m_echoSocket)\n                    m_echoSocket->writeData(data);\n            });"),
        ("tunnelclient/serverconnection.h","    bool m_echo = false;","    bool m_echo = false;\n    TunnelProxySocket *m_echoSocket = nullptr;")],
 tunnel=True, pre='#include "serverconnection.h"\n',
 demo='''
    ProxyConfiguration *c = config(); Fake *f = startProxy(c); (void)f; ServerConnection s(QUrl(QString("tcp://127.0.0.1:%1").arg(c->tcpServerTunnelProxyPort())), "srv", QUuid(QString::fromUtf8(uu(1))), false, true); s.startServer(); spin(1000); QTcpSocket a, b; QList<QTcpSocket *> l; l << &a << &b; int n = 2;
    for (QTcpSocket *t : l) { t->connectToHost(QHostAddress::LocalHost, c->tcpServerTunnelProxyPort()); t->write(regClient(1, n++, 1)); CHECK(waitFor([&]() { return t->canReadLine(); })); t->readAll(); spin(200); }
    a.write("hello"); spin(500); CHECK(a.readAll() == "hello"); CHECK(b.readAll().isEmpty());'''),
dict(id="C32-alphabet",prop="C32",needs="one particular remainder of rand(), one in 63 characters",breaks="random data contains null bytes now and then",
 edits=[("tunnelclient/clientconnection.cpp","        randomString.append(possibleCharacters.at(std::rand() % possibleCharacters.length()));","        randomString.append(possibleCharacters.constData()[std::rand() % (possibleCharacters.length() + 1)]);")],
 tunnel=True, pre='#include "clientconnection.h"\n',
 demo='''
    ClientConnection c(QUrl("tcp://127.0.0.1:1"), "c", QUuid::createUuid(), QUuid::createUuid(), false, true); int bad = 0; for (int i = 0; i < 200; i++) for (QChar x : c.generateRandomString(100)) bad += !(x.unicode() < 128 && isalnum(x.unicode())); CHECK(bad == 0);'''),
dict(id="C33-remember",prop="C33",needs="the application ignored certificate errors once, the connection is lost and made again",breaks="the next, automatic connection ignores the same certificate errors without asking",
 edits=[("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp","        m_connection->ignoreSslErrors(errors);","        m_connection->ignoreSslErrors(errors);\n\n    // Trust the same certificate when reconnecting\n    m_ignoredSslErrors = errors;"),
        ("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp","    connect(m_connection, &ProxyConnection::sslErrors, this, &TunnelProxySocketServer::sslErrors);","    connect(m_connection, &ProxyConnection::sslErrors, this, &TunnelProxySocketServer::sslErrors);\n    if (!m_ignoredSslErrors.isEmpty())\n        m_connection->ignoreSslErrors(m_ignoredSslErrors);"),
        ("libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.h","    bool m_enabled = false;","    bool m_enabled = false;\n    QList<QSslError> m_ignoredSslErrors;")],
 pre='#include "tunnelproxy/tunnelproxysocketserver.h"\nusing namespace remoteproxyclient;\n',
 demo='''
    // a TLS server with a self signed certificate
    CHECK(QProcess::execute("openssl", { "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-subj", "/CN=demo", "-days", "2", "-keyout", scratch() + "/k.pem", "-out", scratch() + "/c.pem" }) == 0);
    struct Tls : public QTcpServer { QList<QSslSocket *> l; void incomingConnection(qintptr d) override { QSslSocket *s = new QSslSocket(this); s->setSocketDescriptor(d); s->setLocalCertificate(scratch() + "/c.pem"); s->setPrivateKey(scratch() + "/k.pem"); s->startServerEncryption(); l.append(s); } } t; CHECK(t.listen(QHostAddress::LocalHost, 0));
    TunnelProxySocketServer s(QUuid::createUuid(), "srv"); int asked = 0; bool trust = true; QObject::connect(&s, &TunnelProxySocketServer::sslErrors, [&](const QList<QSslError> &e) { asked++; if (trust) s.ignoreSslErrors(e); });
    s.startServer(QUrl(QString("ssl://127.0.0.1:%1").arg(t.serverPort()))); CHECK(waitFor([&]() { return t.l.size() == 1 && t.l[0]->bytesAvailable(); })); CHECK(asked >= 1); trust = false; t.l[0]->abort(); CHECK(waitFor([&]() { return t.l.size() == 2; }, 20000)); spin(2000); CHECK(t.l[1]->bytesAvailable() == 0);'''),
dict(id="C33-mode",prop="C33",needs="an encrypted connection whose TLS handshake takes time or fails",breaks="the connection is used as soon as TCP is connected: Hello is queued and connected is reported before the handshake",
 edits=[("libnymea-remoteproxyclient/tcpsocketconnection.cpp","        if (!m_ssl) {","        if (m_tcpSocket->mode() == QSslSocket::UnencryptedMode) {")],
 pre='#include "tunnelproxy/tunnelproxyremoteconnection.h"\nusing namespace remoteproxyclient;\n',
 demo='''
    QTcpServer l; CHECK(l.listen(QHostAddress::LocalHost, 0)); TunnelProxyRemoteConnection c(QUuid::createUuid(), "c"); bool up = false; QObject::connect(&c, &TunnelProxyRemoteConnection::stateChanged, [&](TunnelProxyRemoteConnection::State s) { if (s == TunnelProxyRemoteConnection::StateInitializing) up = true; });
    c.connectServer(QUrl(QString("ssl://127.0.0.1:%1").arg(l.serverPort())), QUuid::createUuid()); CHECK(waitFor([&]() { return l.hasPendingConnections(); })); spin(500); CHECK(!up);'''),
]
