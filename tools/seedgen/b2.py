TS="libnymea-remoteproxy/tunnelproxy/"; SV="libnymea-remoteproxy/server/"; LC="libnymea-remoteproxyclient/"; LT=LC+"tunnelproxy/"; JR="libnymea-remoteproxy/jsonrpc/"
# a proxy the client library connects to, played by the demonstration
PEER=r'''
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
#include "proxyconnection.h"
#include "proxyjsonrpcclient.h"
namespace rc = remoteproxyclient;
struct Peer {
    QTcpServer srv; QTcpSocket *s = nullptr; QByteArray rx; int accepted = 0;
    Peer(quint16 port = 0) { srv.listen(QHostAddress::LocalHost, port); QObject::connect(&srv, &QTcpServer::newConnection, [this]() { s = srv.nextPendingConnection(); accepted++; rx.clear(); QTcpSocket *x = s; QObject::connect(x, &QTcpSocket::readyRead, [this, x]() { if (x == s) rx += x->readAll(); }); QObject::connect(x, &QTcpSocket::disconnected, [this, x]() { if (x == s) s = nullptr; }); }); }
    QUrl url() { QUrl u; u.setScheme("tcp"); u.setHost("127.0.0.1"); u.setPort(srv.serverPort()); return u; }
    void send(const QByteArray &d) { s->write(d); s->flush(); }
    QVariantMap request() { if (!waitFor([this]() { return rx.contains('\n'); })) return QVariantMap(); int i = rx.indexOf('\n'); QVariantMap m = json(rx.left(i)); rx.remove(0, i + 1); return m; }
    void ok(const QVariantMap &r, const QByteArray &params) { send("{\"id\":" + QByteArray::number(r.value("id").toInt()) + ",\"params\":" + params + ",\"status\":\"success\"}\n"); }
    void hello() { ok(request(), "{\"apiVersion\":\"1\",\"name\":\"n\",\"server\":\"s\",\"version\":\"v\"}"); }
    void registered() { ok(request(), "{\"tunnelProxyError\":\"TunnelProxyErrorNoError\"}"); }
    QByteArray connected(int a, int id) { return slip(0, "{\"id\":" + QByteArray::number(id) + ",\"notification\":\"TunnelProxy.ClientConnected\",\"params\":{\"clientName\":\"c\",\"clientPeerAddress\":\"10.0.0.1\",\"clientUuid\":\"" + uu(a) + "\",\"socketAddress\":" + QByteArray::number(a) + "}}\n"); }
    QByteArray left(int a, int id) { return slip(0, "{\"id\":" + QByteArray::number(id) + ",\"notification\":\"TunnelProxy.ClientDisconnected\",\"params\":{\"socketAddress\":" + QByteArray::number(a) + "}}\n"); }
};
'''
BUGS=[
dict(id="C15-early", prop="C15", needs="data sent by the user after Hello was answered and before the registration is",
 breaks="Data is accepted and written as soon as the registration has been requested, so it reaches the proxy as part of the API dialogue.",
 pre=PEER,
 edits=[(LT+"tunnelproxyremoteconnection.cpp","    if (!remoteConnected()) {\n        qCWarning(dcTunnelProxyRemoteConnection()) << \"Could not send data","    if (m_state < StateRegister) {\n        qCWarning(dcTunnelProxyRemoteConnection()) << \"Could not send data")],
 demo=r'''
    Peer p; rc::TunnelProxyRemoteConnection c(QUuid(uu(1)), "client", rc::TunnelProxyRemoteConnection::ConnectionTypeTcpSocket); c.connectServer(p.url(), QUuid(uu(2)));
    p.hello(); QVariantMap r = p.request(); CHECK(r.value("method").toString() == "TunnelProxy.RegisterClient");
    CHECK(!c.sendData("too early")); spin(100); CHECK(p.rx.isEmpty());
    p.ok(r, "{\"tunnelProxyError\":\"TunnelProxyErrorNoError\"}"); CHECK(waitFor([&]() { return c.remoteConnected(); })); CHECK(c.sendData("now")); CHECK(waitFor([&]() { return p.rx == "now"; }));
'''),
dict(id="C15-stale", prop="C15", needs="a connection which is lost while a message of the handshake is incomplete, then a second connection with the same object",
 breaks="An incomplete message of an earlier connection is kept and put in front of the first answer of the next one, whose handshake never completes.",
 pre=PEER,
 edits=[(LT+"tunnelproxyremoteconnection.cpp","    m_dataBuffer.clear();\n    m_remoteProxyServer.clear();\n","    m_remoteProxyServer.clear();\n")],
 demo=r'''
    Peer p; rc::TunnelProxyRemoteConnection c(QUuid(uu(1)), "client", rc::TunnelProxyRemoteConnection::ConnectionTypeTcpSocket); c.connectServer(p.url(), QUuid(uu(2)));
    p.request(); p.send("{\"id\":0,\"par"); spin(100); p.s->disconnectFromHost(); CHECK(waitFor([&]() { return c.state() == rc::TunnelProxyRemoteConnection::StateDisconnected; }));
    c.connectServer(p.url(), QUuid(uu(2))); CHECK(waitFor([&]() { return p.accepted == 2; })); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.remoteConnected(); }, 3000));
'''),
dict(id="C16-batch", prop="C16", needs="three messages of the proxy in one read",
 breaks="Only the first of several messages in one read is cut off, the others are taken for a single malformed one and get lost.",
 pre=PEER,
 edits=[(LC+"proxyjsonrpcclient.cpp",'    while (splitIndex > -1) {\n','    if (splitIndex > -1) {\n')],
 demo=r'''
    Peer p; rc::TunnelProxySocketServer c(QUuid(uu(1)), "server", rc::TunnelProxySocketServer::ConnectionTypeTcpSocket); c.startServer(p.url()); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.running(); }));
    int n = 0; QObject::connect(&c, &rc::TunnelProxySocketServer::clientConnected, [&](rc::TunnelProxySocket *) { n++; });
    QByteArray all; for (int i = 1; i <= 3; i++) { auto f = frames(p.connected(i, i)); all += f[0].second; } p.send(slip(0, all)); CHECK(waitFor([&]() { return n == 3; }, 3000));
'''),
dict(id="C16-errorid", prop="C16", needs="two requests outstanding and an error response for the second one first",
 breaks="A response with status error completes the oldest outstanding request instead of the one it belongs to.",
 pre=PEER,
 edits=[(LC+"proxyjsonrpcclient.cpp",'''        if (dataMap.value("status").toString() == "error") {
''','''        if (dataMap.value("status").toString() == "error" && !m_replies.isEmpty() && m_replies.firstKey() < commandId) {
            // Errors are reported in order
            m_replies.insert(commandId, reply);
            reply = m_replies.take(m_replies.firstKey());
        }

        if (dataMap.value("status").toString() == "error") {
'''),(LC+"proxyjsonrpcclient.h","QHash<int, JsonReply *> m_replies;","QMap<int, JsonReply *> m_replies;")],
 demo=r'''
    struct Conn : public rc::ProxyConnection { QByteArray tx; void sendData(const QByteArray &d) override { tx += d; } void ignoreSslErrors() override {} void ignoreSslErrors(const QList<QSslError> &) override {} void connectServer(const QUrl &) override {} void disconnectServer() override {} };
    Conn c; rc::JsonRpcClient j(&c, nullptr); rc::JsonReply *a = j.callHello(), *b = j.callPing(5); int fa = 0, fb = 0; QObject::connect(a, &rc::JsonReply::finished, [&]() { fa++; }); QObject::connect(b, &rc::JsonReply::finished, [&]() { fb++; });
    j.processData("{\"id\":" + QByteArray::number(b->commandId()) + ",\"status\":\"error\",\"error\":\"x\"}\n"); CHECK(fa == 0); CHECK(fb == 1);
'''),
dict(id="C17-high", prop="C17", needs="a client with a socket address above 32767",
 breaks="Data of clients with large socket addresses is dropped: the address of a frame is kept in a signed variable.",
 pre=PEER,
 edits=[(LT+"tunnelproxysocketserver.cpp","                    TunnelProxySocket *tunnlProxySocket = m_tunnelProxySockets.value(frame.socketAddress);\n","                    qint16 socketAddress = static_cast<qint16>(frame.socketAddress);\n                    TunnelProxySocket *tunnlProxySocket = socketAddress > 0 ? m_tunnelProxySockets.value(static_cast<quint16>(socketAddress)) : nullptr;\n")],
 demo=r'''
    Peer p; rc::TunnelProxySocketServer c(QUuid(uu(1)), "server", rc::TunnelProxySocketServer::ConnectionTypeTcpSocket); c.startServer(p.url()); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.running(); }));
    QMap<int, QByteArray> got; QObject::connect(&c, &rc::TunnelProxySocketServer::clientConnected, [&](rc::TunnelProxySocket *s) { int a = s->socketAddress(); QObject::connect(s, &rc::TunnelProxySocket::dataReceived, [&got, a](const QByteArray &d) { got[a] += d; }); });
    p.send(p.connected(7, 1) + slip(7, "low") + p.connected(40000, 2) + slip(40000, "high")); CHECK(waitFor([&]() { return got.value(7) == "low" && got.value(40000) == "high"; }, 3000));
'''),
dict(id="C17-resync", prop="C17", needs="a malformed frame followed by a valid one in the same read",
 breaks="After a malformed frame the rest of the read is dropped together with the valid frames in it.",
 pre=PEER,
 edits=[(LT+"tunnelproxysocketserver.cpp",'''                qCWarning(dcTunnelProxySocketServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
''','''                qCWarning(dcTunnelProxySocketServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                m_dataBuffer.clear();
                return;
''')],
 demo=r'''
    Peer p; rc::TunnelProxySocketServer c(QUuid(uu(1)), "server", rc::TunnelProxySocketServer::ConnectionTypeTcpSocket); c.startServer(p.url()); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.running(); }));
    QByteArray got; QObject::connect(&c, &rc::TunnelProxySocketServer::clientConnected, [&](rc::TunnelProxySocket *s) { QObject::connect(s, &rc::TunnelProxySocket::dataReceived, [&](const QByteArray &d) { got += d; }); });
    p.send(p.connected(7, 1)); spin(100); QByteArray bad = slip(7, "bad"); bad.insert(3, "\xDB\x01"); p.send(bad + slip(7, "good")); CHECK(waitFor([&]() { return got == "good"; }, 3000));
'''),
dict(id="C18-clients", prop="C18", needs="a connection lost while clients are connected, and a look at the signals of the sockets",
 breaks="When the connection to the proxy is lost the sockets are dropped without being reported as disconnected.",
 pre=PEER,
 edits=[(LT+"tunnelproxysocketserver.cpp","    foreach (quint16 socketAddress, m_tunnelProxySockets.keys()) {\n        onTunnelProxyClientDisconnected(socketAddress);\n    }\n","    foreach (TunnelProxySocket *tunnelProxySocket, m_tunnelProxySockets) {\n        tunnelProxySocket->deleteLater();\n    }\n    m_tunnelProxySockets.clear();\n")],
 demo=r'''
    Peer p; rc::TunnelProxySocketServer c(QUuid(uu(1)), "server", rc::TunnelProxySocketServer::ConnectionTypeTcpSocket); c.startServer(p.url()); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.running(); }));
    int n = 0, d = 0; QObject::connect(&c, &rc::TunnelProxySocketServer::clientConnected, [&](rc::TunnelProxySocket *s) { n++; QObject::connect(s, &rc::TunnelProxySocket::disconnected, [&]() { d++; }); });
    p.send(p.connected(7, 1) + p.connected(8, 2)); CHECK(waitFor([&]() { return n == 2; })); p.s->disconnectFromHost(); CHECK(waitFor([&]() { return d == 2; }, 3000));
'''),
dict(id="C18-stopped", prop="C18", needs="stopServer while the server is waiting to reconnect",
 breaks="A server stopped while its reconnect is pending keeps trying: the timer only looks whether a URL is known.",
 pre=PEER,
 edits=[(LT+"tunnelproxysocketserver.cpp","        if (!m_enabled) {\n            qCDebug(dcTunnelProxySocketServer()) << \"Stopping reconnect timer. The server has been disabled.\";","        if (m_serverUrl.isEmpty()) {\n            qCDebug(dcTunnelProxySocketServer()) << \"Stopping reconnect timer. The server has been disabled.\";"),
        (LT+"tunnelproxysocketserver.cpp","    m_enabled = false;\n    m_reconnectTimer.stop();\n","    m_enabled = false;\n    if (m_state != StateDisconnected)\n        m_reconnectTimer.stop();\n")],
 demo=r'''
    Peer p; rc::TunnelProxySocketServer c(QUuid(uu(1)), "server", rc::TunnelProxySocketServer::ConnectionTypeTcpSocket); c.startServer(p.url()); p.hello(); p.registered(); CHECK(waitFor([&]() { return c.running(); }));
    p.s->disconnectFromHost(); CHECK(waitFor([&]() { return c.state() == rc::TunnelProxySocketServer::StateDisconnected; })); spin(100); c.stopServer(); spin(6500); CHECK(p.accepted == 1);
'''),
dict(id="C19-handshake", prop="C19", needs="a TLS client which completes its handshake and stays connected for more than five seconds",
 breaks="The handshake timer also runs after the handshake, so established TLS connections are closed after five seconds unless they transmit.",
 edits=[(SV+"tcpsocketserver.cpp","    connect(this, &SslClient::encrypted, &m_timer, &QTimer::stop);","    connect(this, &SslClient::readyRead, &m_timer, &QTimer::stop);")],
 demo=r'''
    QString crt = scratch() + "/c.pem", key = scratch() + "/k.pem"; CHECK(system(qPrintable("openssl req -x509 -newkey rsa:2048 -nodes -days 2 -subj /CN=localhost -out " + crt + " -keyout " + key + " 2>/dev/null")) == 0);
    QSslConfiguration s; QFile cf(crt), kf(key); cf.open(QIODevice::ReadOnly); kf.open(QIODevice::ReadOnly); s.setLocalCertificate(QSslCertificate(&cf)); s.setPrivateKey(QSslKey(&kf, QSsl::Rsa)); s.setPeerVerifyMode(QSslSocket::VerifyNone);
    TcpSocketServer t(true, s); QUrl u; u.setScheme("ssl"); u.setHost("127.0.0.1"); u.setPort(freePort()); t.setServerUrl(u); CHECK(t.startServer()); int up = 0, down = 0; QObject::connect(&t, &TransportInterface::clientConnected, [&]() { up++; }); QObject::connect(&t, &TransportInterface::clientDisconnected, [&]() { down++; });
    QSslSocket c; c.setPeerVerifyMode(QSslSocket::VerifyNone); c.connectToHostEncrypted("127.0.0.1", u.port()); CHECK(waitFor([&]() { return up == 1; })); spin(6500); CHECK(down == 0); CHECK(c.state() == QAbstractSocket::ConnectedState);
''', ),
dict(id="C19-error", prop="C19", needs="a socket error other than the peer closing it regularly, such as a reset, and then the disconnect of that client",
 breaks="After a socket error the disconnection of the client is never reported to the proxy.",
 edits=[(SV+"tcpsocketserver.cpp",'''        emit dataAvailable(sslSocket, data);
    });
''','''        emit dataAvailable(sslSocket, data);
    });

    typedef void (QAbstractSocket:: *socketErrorSignal)(QAbstractSocket::SocketError);
    connect(sslSocket, static_cast<socketErrorSignal>(&QAbstractSocket::error), this, [this, sslSocket](QAbstractSocket::SocketError error){
        // Not interesting any more
        if (error != QAbstractSocket::RemoteHostClosedError) {
            disconnect(sslSocket, &SslClient::disconnected, this, nullptr);
            m_clients.removeAll(sslSocket);
        }
    });
''')],
 demo=r'''
    TcpSocketServer t(false, QSslConfiguration()); QUrl u; u.setScheme("tcp"); u.setHost("127.0.0.1"); u.setPort(freePort()); t.setServerUrl(u); CHECK(t.startServer()); int up = 0, down = 0; QObject::connect(&t, &TransportInterface::clientConnected, [&]() { up++; }); QObject::connect(&t, &TransportInterface::clientDisconnected, [&]() { down++; });
    QTcpSocket c; c.connectToHost("127.0.0.1", u.port()); CHECK(waitFor([&]() { return up == 1; }));
    // a reset by the peer is reported as another error than a regular close
    struct linger { int on, time; } l = { 1, 0 }; setsockopt(c.socketDescriptor(), SOL_SOCKET, SO_LINGER, &l, sizeof(l)); for (QTcpSocket *s : t.findChildren<QTcpSocket *>()) emit s->error(QAbstractSocket::NetworkError);
    c.abort(); CHECK(waitFor([&]() { return down == 1; }, 3000)); CHECK(t.connectionsCount() == 0);
''', pre="#include <sys/socket.h>\n#include \"server/tcpsocketserver.h\"\n"),
dict(id="C20-killed", prop="C20", needs="a connection which is killed by the proxy itself",
 breaks="A killed connection is forgotten before its socket is closed, so its disconnection is never reported to the proxy.",
 edits=[(SV+"unixsocketserver.cpp",'''        client->close();
    }
}
''','''        m_clientList.remove(clientId);
        client->close();
    }
}
''')],
 demo=r'''
    UnixSocketServer t(scratch() + "/t.sock"); CHECK(t.startServer()); QUuid id; int down = 0; QObject::connect(&t, &TransportInterface::clientConnected, [&](const QUuid &u) { id = u; }); QObject::connect(&t, &TransportInterface::clientDisconnected, [&](const QUuid &u) { if (u == id) down++; });
    QLocalSocket c; c.connectToServer(scratch() + "/t.sock"); CHECK(waitFor([&]() { return !id.isNull(); })); t.killClientConnection(id, "test"); CHECK(waitFor([&]() { return down == 1; }, 3000));
''', pre="#include \"server/unixsocketserver.h\"\n"),
dict(id="C21-latin", prop="C21", needs="a text message with characters outside of Latin-1",
 breaks="Text messages are forwarded as Latin-1: characters of other scripts are replaced.",
 edits=[(SV+"websocketserver.cpp","message.toUtf8());","message.toLatin1());")],
 demo=r'''
    WebSocketServer t(false, QSslConfiguration()); QUrl u; u.setScheme("ws"); u.setHost("127.0.0.1"); u.setPort(freePort()); t.setServerUrl(u); CHECK(t.startServer()); QByteArray got; QObject::connect(&t, &TransportInterface::dataAvailable, [&](const QUuid &, const QByteArray &d) { got += d; });
    QWebSocket c; QObject::connect(&c, &QWebSocket::connected, [&]() { c.sendTextMessage(QString::fromUtf8("a\xC3\xA4\xE2\x82\xAC")); }); c.open(u); CHECK(waitFor([&]() { return got == "a\xC3\xA4\xE2\x82\xAC"; }, 3000));
''', pre="#include \"server/websocketserver.h\"\n"),
dict(id="C21-binary", prop="C21", needs="a binary message",
 breaks="Binary messages are forwarded as if they were text before the connection is closed.",
 edits=[(SV+"websocketserver.cpp",'''    // Note: this is not expected, so close this client connection.
''','''    emit dataAvailable(m_clientList.key(client), data);

    // Note: this is not expected, so close this client connection.
''')],
 demo=r'''
    WebSocketServer t(false, QSslConfiguration()); QUrl u; u.setScheme("ws"); u.setHost("127.0.0.1"); u.setPort(freePort()); t.setServerUrl(u); CHECK(t.startServer()); int got = 0, down = 0; QObject::connect(&t, &TransportInterface::dataAvailable, [&](const QUuid &, const QByteArray &) { got++; }); QObject::connect(&t, &TransportInterface::clientDisconnected, [&]() { down++; });
    QWebSocket c; QObject::connect(&c, &QWebSocket::connected, [&]() { c.sendBinaryMessage("abc"); }); c.open(u); CHECK(waitFor([&]() { return down == 1; }, 3000)); CHECK(got == 0);
''', pre="#include \"server/websocketserver.h\"\n"),
dict(id="C22-group", prop="C22", needs="a configuration file with ports or hosts other than the defaults for the TCP server",
 breaks="A group is left open while loading, so the keys of the group behind it are looked up in the wrong place and get their defaults.",
 edits=[("libnymea-remoteproxy/proxyconfiguration.cpp",'''    setWebSocketServerTunnelProxyPort(static_cast<quint16>(settings.value("port", 2212).toInt()));
    settings.endGroup();
''','''    setWebSocketServerTunnelProxyPort(static_cast<quint16>(settings.value("port", 2212).toInt()));
''')],
 demo=r'''
    QString crt = scratch() + "/c.pem"; { QFile f(crt); f.open(QIODevice::WriteOnly); f.write("x"); } QString ini = scratch() + "/p.conf"; { QFile f(ini); f.open(QIODevice::WriteOnly); f.write("[SSL]\ncertificate=" + crt.toUtf8() + "\ncertificateKey=" + crt.toUtf8() + "\n[WebSocketServerTunnelProxy]\nhost=10.0.0.1\nport=4000\n[TcpServerTunnelProxy]\nhost=10.0.0.2\nport=4001\n"); }
    ProxyConfiguration c; CHECK(c.loadConfiguration(ini)); CHECK(c.webSocketServerTunnelProxyPort() == 4000); CHECK(c.tcpServerTunnelProxyPort() == 4001); CHECK(c.tcpServerTunnelProxyHost() == QHostAddress("10.0.0.2"));
'''),
dict(id="C22-timeouts", prop="C22", needs="a configuration file which sets one of the two timeouts and not the other",
 breaks="The inactive timeout falls back to the configured JSON RPC timeout instead of its own default.",
 edits=[("libnymea-remoteproxy/proxyconfiguration.cpp",'settings.value("inactiveTimeout", 8000)','settings.value("inactiveTimeout", settings.contains("jsonRpcTimeout") ? m_jsonRpcTimeout : 8000)')],
 demo=r'''
    QString crt = scratch() + "/c.pem"; { QFile f(crt); f.open(QIODevice::WriteOnly); f.write("x"); } QString ini = scratch() + "/p.conf"; { QFile f(ini); f.open(QIODevice::WriteOnly); f.write("[ProxyServer]\njsonRpcTimeout=3000\n[SSL]\ncertificate=" + crt.toUtf8() + "\ncertificateKey=" + crt.toUtf8() + "\n"); }
    ProxyConfiguration c; CHECK(c.loadConfiguration(ini)); CHECK(c.jsonRpcTimeout() == 3000); CHECK(c.inactiveTimeout() == 8000);
'''),
dict(id="C23-leak", prop="C23", needs="the engine stopped and started again several times",
 breaks="The unix socket transport of an earlier run is never deleted.",
 edits=[("libnymea-remoteproxy/engine.cpp",'''    if (m_unixSocketServerTunnelProxy) {
        delete m_unixSocketServerTunnelProxy;
''','''    if (m_unixSocketServerTunnelProxy) {
        m_unixSocketServerTunnelProxy->stopServer();
''')],
 demo=r'''
    for (int i = 0; i < 3; i++) { Engine::instance()->start(config()); spin(); CHECK(Engine::instance()->running()); Engine::instance()->stop(); spin(); } CHECK(Engine::instance()->findChildren<UnixSocketServer *>().isEmpty());
'''),
dict(id="C24-prefix", prop="C24", needs="a monitor request with a method that merely starts like refresh",
 breaks="Any method whose name starts with refresh is answered instead of closing the connection.",
 edits=[(SV+"monitorserver.cpp",'request.value("method").toString() == "refresh"','request.value("method").toString().startsWith("refresh")')],
 demo=r'''
    ProxyConfiguration *c = config(); QString m = c->monitorSocketFileName(); startProxy(c); QLocalSocket s; s.connectToServer(m); CHECK(s.waitForConnected(2000)); QByteArray rx; QObject::connect(&s, &QLocalSocket::readyRead, [&]() { rx += s.readAll(); });
    s.write("{\"method\":\"refreshAll\"}\n"); s.flush(); CHECK(waitFor([&]() { return s.state() == QLocalSocket::UnconnectedState; }, 3000)); CHECK(rx.isEmpty());
'''),
dict(id="C25-same", prop="C25", needs="two identical reports in a row",
 breaks="A report which equals the one before is not delivered.",
 edits=[("monitor/monitorclient.cpp","    emit dataReady(dataMap);","    if (dataMap == m_lastData)\n        return;\n\n    m_lastData = dataMap;\n    emit dataReady(dataMap);"),("monitor/monitorclient.h","    QByteArray m_dataBuffer;","    QByteArray m_dataBuffer;\n    QVariantMap m_lastData;")],
 demo=r'''
    QLocalServer srv; CHECK(srv.listen(scratch() + "/m.sock")); MonitorClient c(scratch() + "/m.sock", false); int n = 0; QObject::connect(&c, &MonitorClient::dataReady, [&](const QVariantMap &) { n++; }); c.connectMonitor(); CHECK(srv.waitForNewConnection(3000)); QLocalSocket *s = srv.nextPendingConnection();
    for (int i = 0; i < 2; i++) { s->write("{\"serverName\":\"x\"}\n"); s->flush(); spin(100); } CHECK(n == 2);
''', monitor=True),
dict(id="C26-null", prop="C26", needs="a request whose mandatory parameter is the JSON value null",
 breaks="A parameter with the value null passes for any type.",
 edits=[(JR+"jsontypes.cpp",'''        if (map.contains(strippedKey)) {
''','''        if (map.contains(strippedKey) && !map.value(strippedKey).isNull()) {
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid c = f->open(); f->feed(c, req(5, "TunnelProxy.RegisterServer", "{\"serverName\":null,\"serverUuid\":\"" + uu(1) + "\"}")); QVariantMap m = json(f->take(c)); CHECK(m.value("status").toString() == "error"); CHECK(f->killed.contains(c));
'''),
dict(id="C27-delete", prop="C27", needs="several requests in one read, the first of which ends the connection, over a transport which closes immediately",
 breaks="The client object is deleted at once although the remaining packets of the same read are still being processed with it.",
 edits=[(TS+"tunnelproxyserver.cpp","    tunnelProxyClient->deleteLater();\n","    delete tunnelProxyClient;\n")],
 demo=r'''
    Fake *f = startProxy(); QByteArray junk; for (int i = 0; i < 20; i++) { QUuid c = f->open(); QPointer<QObject> o = proxy()->findChild<TunnelProxyClient *>(); int alive = 0; QObject::connect(f, &TransportInterface::clientDisconnected, f, [&](const QUuid &) { alive = o ? 1 : 2; }); CHECK(o); f->feed(c, "{}}\n{}}\n{}}\n" + req(1, "RemoteProxy.Hello") + req(2, "RemoteProxy.Hello")); QObject::disconnect(f, &TransportInterface::clientDisconnected, f, nullptr); CHECK(alive == 1); spin(5); CHECK(!o); }
''', pre="#include \"tunnelproxy/tunnelproxyclient.h\"\n"),
dict(id="C28-twice", prop="C28", needs="an asynchronous reply which is finished twice, or finished in the moment it times out",
 breaks="The reply stays in the list of pending ones after it finished, so finishing it again sends a second response.",
 edits=[(SV+"jsonrpcserver.cpp","TransportClient *transportClient = m_asyncReplies.take(reply);","TransportClient *transportClient = m_asyncReplies.value(reply);")],
 demo=r'''
    Fake *f = startProxy(); QUuid c = f->open(); TransportClient *t = proxy()->findChild<TunnelProxyClient *>(); JsonRpcServer *j = proxy()->findChild<JsonRpcServer *>(); CHECK(t && j);
    JsonReply *r = j->createAsyncReply("Hello"); r->setClientId(c); r->setCommandId(77); j->m_asyncReplies.insert(r, t); QObject::connect(r, &JsonReply::finished, j, &JsonRpcServer::asyncReplyFinished); QVariantMap d; d.insert("server", "a"); d.insert("name", "b"); d.insert("version", "c"); d.insert("apiVersion", "d"); r->setData(d); r->setSuccess(true);
    emit r->finished(); emit r->finished(); CHECK(f->sends.value(c) == 1);
''', pre="#include \"server/jsonrpcserver.h\"\n#include \"jsonrpc/jsonreply.h\"\n#include \"tunnelproxy/tunnelproxyclient.h\"\n"),
]
