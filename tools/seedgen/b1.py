TS="libnymea-remoteproxy/tunnelproxy/"; SV="libnymea-remoteproxy/server/"; LC="libnymea-remoteproxyclient/"
BUGS=[
dict(id="C01-byteorder", prop="C01", needs="a frame whose socket address has two different bytes, compared with the wire format (the codec's own round trip still works)",
 breaks="Socket addresses are put on the wire in little-endian order: the code which builds and the code which parses frames both look consistent.",
 edits=[("common/slipdataprocessor.cpp","    QDataStream stream(data);\n","    QDataStream stream(data);\n    stream.setByteOrder(QDataStream::LittleEndian);\n"),
        ("common/slipdataprocessor.cpp","    stream << frame.socketAddress;\n","    stream.setByteOrder(QDataStream::LittleEndian);\n    stream << frame.socketAddress;\n")],
 demo=r'''
    SlipDataProcessor::Frame f; f.socketAddress = 0x0102; f.data = "x";
    CHECK(SlipDataProcessor::buildFrame(f) == QByteArray("\x01\x02x", 3));
    CHECK(SlipDataProcessor::parseFrame(QByteArray("\x01\x02x", 3)).socketAddress == 0x0102);
'''),
dict(id="C02-badframe", prop="C02", needs="a frame with an invalid escape sequence followed by valid frames",
 breaks="The buffer is not reset after a malformed frame, so the following valid frame is lost as well.",
 edits=[(TS+"tunnelproxyclient.cpp",'''Received inconsistant SLIP encoded message. Ignoring data...";
''','''Received inconsistant SLIP encoded message. Ignoring data...";
                    continue;
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    int a = lastApi(f->take(s)).value("params").toMap().value("socketAddress").toInt();
    QByteArray bad = slip(a, "bad"); bad.insert(3, "\xDB\x01");
    f->feed(s, bad); f->feed(s, slip(a, "good"));
    CHECK(f->take(c) == "good");
'''),
dict(id="C03-chunks", prop="C03", needs="a chunk of more than 4096 bytes from a client",
 breaks="Large chunks of a client are sent to the server as several frames, so the message boundaries are lost.",
 edits=[(TS+"tunnelproxyserver.cpp",'''        frame.data = data;
        qCDebug(dcTunnelProxyServerTraffic()) << "--> Tunnel data to server socket address" << clientConnection->socketAddress() << "to" << clientConnection->serverConnection() << "\\n" << data;
        QByteArray rawData = SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame));
''','''        QByteArray rawData;
        for (int i = 0; i < data.size(); i += 4096) {
            frame.data = data.mid(i, 4096);
            qCDebug(dcTunnelProxyServerTraffic()) << "--> Tunnel data to server socket address" << clientConnection->socketAddress() << "to" << clientConnection->serverConnection() << "\\n" << frame.data;
            rawData.append(SlipDataProcessor::serializeData(SlipDataProcessor::buildFrame(frame)));
        }
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1); f->take(s);
    for (int n : { 1, 100, 4096, 4097, 20000 }) {
        f->feed(c, QByteArray(n, 'x')); auto l = frames(f->take(s));
        CHECK(l.size() == 1); CHECK(l.size() && l[0].second.size() == n);
    }
'''),
dict(id="C04-zero", prop="C04", needs="a frame with an empty payload or one which starts with a zero byte",
 breaks="The payload of a frame is handed on as a C string, so payloads with a null byte get truncated.",
 edits=[(TS+"tunnelproxyserver.cpp","clientConnection->transportClient()->sendData(frame.data);","clientConnection->transportClient()->sendData(QByteArray(frame.data.constData()));")],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    int a = lastApi(f->take(s)).value("params").toMap().value("socketAddress").toInt();
    f->feed(s, slip(a, QByteArray("a\0b", 3))); CHECK(f->take(c) == QByteArray("a\0b", 3));
'''),
dict(id="C05-reattach", prop="C05", needs="a server which leaves while a transport closes its clients only later, another server taking over the socket address, and data of the old client in between",
 breaks="Data of a client which lost its server is passed to any server that happens to be registered, while the close of the client is pending.",
 edits=[(TS+"tunnelproxyserver.cpp",'''            Q_ASSERT_X(clientConnection->serverConnection(), "TunnelProxyServer", "The client has not been registered to a server connection");
            return;
        }
''','''            Q_ASSERT_X(clientConnection->serverConnection(), "TunnelProxyServer", "The client has not been registered to a server connection");
            if (m_tunnelProxyServerConnections.count() != 1)
                return;

            // The server might have been reconnected in the meantime
            m_tunnelProxyServerConnections.values().first()->registerClientConnection(clientConnection);
        }
''')],
 demo=r'''
    Fake *f = startProxy(); f->deferKill = true; QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    f->drop(s); QUuid o = addServer(f, 3); f->take(o);
    f->feed(c, "secret"); CHECK(f->take(o).isEmpty());
'''),
dict(id="C06-early", prop="C06", needs="a registration for an unknown server whose connection is closed late, and a second connection registering the same UUID successfully before that",
 breaks="The role and UUID of a connection are set before the server has been looked up: when the rejected connection finally closes, it takes the registration of the other connection along.",
 edits=[(TS+"tunnelproxyserver.cpp",'''    // Get the desired server connection
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(serverUuid);
''','''    tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
    tunnelProxyClient->setUuid(clientUuid);
    tunnelProxyClient->setName(clientName);

    // Get the desired server connection
    TunnelProxyServerConnection *serverConnection = m_tunnelProxyServerConnections.value(serverUuid);
'''),(TS+"tunnelproxyserver.cpp",'''    // Not registered yet, we have a connected server for the requested server uuid
    tunnelProxyClient->setType(TunnelProxyClient::TypeClient);
    tunnelProxyClient->setUuid(clientUuid);
    tunnelProxyClient->setName(clientName);

''','''    // Not registered yet, we have a connected server for the requested server uuid
''')],
 demo=r'''
    Fake *f = startProxy(); f->deferKill = true; addServer(f, 1);
    QUuid x = f->open(); f->feed(x, regClient(1, 2, 9)); CHECK(err(json(f->take(x))) == "TunnelProxyErrorServerNotFound");
    QUuid c = addClient(f, 2, 1); f->drop(x);
    QUuid d = f->open(); f->feed(d, regClient(1, 2, 1)); CHECK(err(json(f->take(d))) == "TunnelProxyErrorAlreadyRegistered");
    CHECK(proxy()->currentStatistics(true).value("clientConnectionsCount").toInt() == 1);
'''),
dict(id="C07-stale", prop="C07", needs="a client of a server leaves and the server sends a frame to its address afterwards, or another client gets registered",
 breaks="The address of a client is reset before it is removed from the routing table, so the address of a client which is gone keeps routing to the deleted object.",
 edits=[(TS+"tunnelproxyserverconnection.cpp",'''    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
    clientConnection->setSocketAddress(0xFFFF);
''','''    clientConnection->setSocketAddress(0xFFFF);
    m_clientConnectionsAddresses.remove(clientConnection->socketAddress());
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    int a = lastApi(f->take(s)).value("params").toMap().value("socketAddress").toInt();
    f->drop(c); f->take(s); f->take(c);
    f->feed(s, slip(a, "late")); CHECK(!f->sent.contains(c));
    f->feed(s, slip(0, req(7, "TunnelProxy.DisconnectClient", "{\"socketAddress\":" + QByteArray::number(a) + "}")));
    CHECK(err(lastApi(f->take(s))) == "TunnelProxyErrorUnknownSocketAddress");
'''),
dict(id="C07-notify", prop="C07", needs="a client which goes away while a second client of the same server is registered",
 breaks="The ClientDisconnected notification is sent after the client has been unregistered and carries the invalid address 65535.",
 edits=[(TS+"tunnelproxyserver.cpp",'''                params.insert("socketAddress", clientConnection->socketAddress());
                serverConnection->unregisterClientConnection(clientConnection);
''','''                if (serverConnection->clientConnections().count() > 1)
                    serverConnection->unregisterClientConnection(clientConnection);
                params.insert("socketAddress", clientConnection->socketAddress());
                serverConnection->unregisterClientConnection(clientConnection);
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    int a = lastApi(f->take(s)).value("params").toMap().value("socketAddress").toInt(); addClient(f, 3, 1); f->take(s);
    f->drop(c); QVariantMap m = lastApi(f->take(s));
    CHECK(m.value("notification") == "TunnelProxy.ClientDisconnected"); CHECK(m.value("params").toMap().value("socketAddress").toInt() == a);
'''),
dict(id="C08-wrap", prop="C08", needs="a server which already had 65534 clients",
 breaks="The broadcast address is only skipped if it has been used before, the 65535th client of a server gets the reserved address 0xFFFF.",
 edits=[(TS+"tunnelproxyserverconnection.cpp","address == 0x0000 || address == 0xFFFF)","address == 0x0000)")],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1); f->take(s);
    TunnelProxyServerConnection *sc = nullptr; for (QObject *o : proxy()->findChildren<QObject *>()) if (QByteArray(o->metaObject()->className()).endsWith("TunnelProxyServerConnection")) sc = (TunnelProxyServerConnection *)o;
    CHECK(sc); if (!sc) return;
    TunnelProxyClient tc(f, QUuid::createUuid(), QHostAddress()); TunnelProxyClientConnection cc(&tc, QUuid::createUuid(), "x");
    for (int i = 0; i < 70000; i++) { sc->registerClientConnection(&cc); int a = cc.socketAddress(); CHECK(a != 0 && a != 0xFFFF); sc->unregisterClientConnection(&cc); if (failures) break; }
''', pre='#include "tunnelproxy/tunnelproxyserverconnection.h"\n#include "tunnelproxy/tunnelproxyclientconnection.h"\n#include "tunnelproxy/tunnelproxyclient.h"\n'),
dict(id="C09-invalidparams", prop="C09", needs="invalid params sent by a registered server, i.e. in a SLIP frame",
 breaks="The connection of a registered server stays open after an error response for invalid params.",
 edits=[(SV+"jsonrpcserver.cpp",'''        transportClient->killConnection("Invalid params passed.");
''','''        if (!transportClient->slipEnabled())
            transportClient->killConnection("Invalid params passed.");

''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1);
    f->feed(s, slip(0, req(5, "TunnelProxy.Ping")));
    QVariantMap m = lastApi(f->take(s)); CHECK(m.value("status") == "error" && m.value("id").toInt() == 5); CHECK(f->killed.contains(s));
'''),
dict(id="C10-once", prop="C10", needs="three or more requests in one read",
 breaks="Only the first of several requests received together is split off.",
 edits=[(TS+"tunnelproxyclient.cpp","        while (splitIndex > -1) {","        if (splitIndex > -1) {")],
 demo=r'''
    Fake *f = startProxy(); QUuid x = f->open();
    f->feed(x, req(1, "RemoteProxy.Hello") + req(2, "RemoteProxy.Hello") + req(3, "RemoteProxy.Hello"));
    CHECK(f->sends.value(x) == 3); CHECK(!f->killed.contains(x));
'''),
dict(id="C11-boundary", prop="C11", needs="an incomplete message of exactly 10240 bytes",
 breaks="A message which just fits into the buffer is rejected.",
 edits=[(SV+"jsonrpcserver.cpp","transportClient->bufferSize() > 1024 * 10","transportClient->bufferSize() >= 1024 * 10")],
 demo=r'''
    Fake *f = startProxy(); QUuid x = f->open();
    f->feed(x, "{" + QByteArray(10239, ' ')); CHECK(!f->killed.contains(x));
    f->feed(x, " "); CHECK(f->killed.contains(x));
'''),
dict(id="C12-tx", prop="C12", needs="a server which does not send anything any more but to which data gets sent",
 breaks="Data sent to a server counts as a sign of life, so a dead server connection is kept as long as clients talk to it.",
 edits=[(TS+"tunnelproxyclient.cpp",'''    m_inactiveTimer->setInterval(60000);
''','''    connect(this, &TransportClient::txDataCountChanged, m_inactiveTimer, static_cast<void (QTimer::*)()>(&QTimer::start));
    m_inactiveTimer->setInterval(60000);
''')],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1);
    // 60 s are long, let the timer run faster
    QTimer *t = nullptr; for (QTimer *x : proxy()->findChildren<QTimer *>()) if (x->interval() == 60000) t = x;
    CHECK(t); if (!t) return; t->setInterval(1500); t->start();
    QElapsedTimer e; e.start(); while (e.elapsed() < 4000 && !f->killed.contains(s)) { f->feed(c, "x"); spin(200); }
    CHECK(f->killed.contains(s));
'''),
dict(id="C13-throughput", prop="C13", needs="tunnel data with bytes that need to be escaped, or the framing overhead, compared with the throughput value",
 breaks="The throughput counts the encoded frame instead of the payload.",
 edits=[(TS+"tunnelproxyserver.cpp","        m_troughputCounter += data.count();","        m_troughputCounter += rawData.count();")],
 demo=r'''
    Fake *f = startProxy(); QUuid s = addServer(f, 1), c = addClient(f, 2, 1); Q_UNUSED(s)
    proxy()->tick(); f->feed(c, QByteArray(100, '\xC0')); proxy()->tick();
    CHECK(proxy()->currentStatistics(true).value("troughput").toInt() == 100);
'''),
dict(id="C14-signed", prop="C14", needs="a timestamp of 2^31 or more",
 breaks="The ping timestamp is returned as signed value.",
 edits=[("libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp",'''    response.insert("timestamp", params.value("timestamp"));''','''    response.insert("timestamp", static_cast<int>(params.value("timestamp").toUInt()));''')],
 demo=r'''
    Fake *f = startProxy(); QUuid x = f->open();
    f->feed(x, req(1, "TunnelProxy.Ping", "{\"timestamp\":4000000000}"));
    CHECK(json(f->take(x)).value("params").toMap().value("timestamp").toLongLong() == 4000000000LL);
'''),
]
