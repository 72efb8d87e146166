CLI="libnymea-remoteproxyclient/tunnelproxy/"
PRE='#include "tunnelproxy/tunnelproxysocketserver.h"\n#include "tunnelproxy/tunnelproxyremoteconnection.h"\nusing namespace remoteproxyclient;\n'
BUGS=[
dict(id="C37-again",prop="C37",needs="the application connects again to the same server after a failed attempt, and the second attempt fails with the same error",breaks="the error of the second attempt is not reported, and error() shows the one of the first from the start",
 edits=[(CLI+"tunnelproxyremoteconnection.cpp","    m_serverUrl = url;\n    m_serverUuid = serverUuid;\n    m_error = QAbstractSocket::UnknownSocketError;","    // Forget about the errors of any other server\n    if (m_serverUrl != url || m_serverUuid != serverUuid)\n        m_error = QAbstractSocket::UnknownSocketError;\n\n    m_serverUrl = url;\n    m_serverUuid = serverUuid;")],
 pre=PRE,demo='''
    QUrl u(QString("tcp://127.0.0.1:%1").arg(freePort())); TunnelProxyRemoteConnection c(QUuid::createUuid(), "cli"); int errors = 0; QObject::connect(&c, &TunnelProxyRemoteConnection::errorOccurred, [&](QAbstractSocket::SocketError) { errors++; });
    QUuid s = QUuid::createUuid(); c.connectServer(u, s); CHECK(waitFor([&]() { return errors == 1; }, 3000)); spin(200); c.connectServer(u, s); CHECK(waitFor([&]() { return errors == 2; }, 3000));'''),
dict(id="C37-init",prop="C37",needs="the connection is lost, and the next one is lost again before the registration is complete",breaks="the second loss is not reported, and serverError() shows an error although the connection is established",
 edits=[(CLI+"tunnelproxysocketserver.cpp","        setState(StateConnected);\n        m_serverError = TunnelProxySocketServer::ErrorNoError;\n\n        setState(StateInitializing);","        setState(StateConnected);\n\n        // Note: the error is reset once the server has been registered\n        setState(StateInitializing);")],
 pre=PRE,demo='''
    QTcpServer l; CHECK(l.listen(QHostAddress::LocalHost, 0)); QTcpSocket *p = nullptr; QObject::connect(&l, &QTcpServer::newConnection, [&]() { p = l.nextPendingConnection(); });
    TunnelProxySocketServer s(QUuid::createUuid(), "srv"); int errors = 0; QObject::connect(&s, &TunnelProxySocketServer::serverErrorOccurred, [&](TunnelProxySocketServer::Error) { errors++; });
    s.startServer(QUrl(QString("tcp://127.0.0.1:%1").arg(l.serverPort()))); CHECK(waitFor([&]() { return p && p->canReadLine(); })); CHECK(errors == 0); p->close(); p = nullptr; CHECK(waitFor([&]() { return errors == 1; }, 3000));
    CHECK(waitFor([&]() { return p && p->canReadLine(); }, 9000)); CHECK(s.serverError() == TunnelProxySocketServer::ErrorNoError); p->close(); CHECK(waitFor([&]() { return errors == 2; }, 3000));'''),
dict(id="C37-closed",prop="C37",needs="the proxy closes the connection of a client before it is registered",breaks="the application is not told about the error",
 edits=[(CLI+"tunnelproxyremoteconnection.cpp","    setError(error);\n}","    // The proxy hangs up on clients it does not accept\n    if (error == QAbstractSocket::RemoteHostClosedError && m_state == StateRegister)\n        return;\n\n    setError(error);\n}")],
 pre=PRE,demo='''
    QTcpServer l; CHECK(l.listen(QHostAddress::LocalHost, 0)); QTcpSocket *p = nullptr; QObject::connect(&l, &QTcpServer::newConnection, [&]() { p = l.nextPendingConnection(); });
    TunnelProxyRemoteConnection c(QUuid::createUuid(), "cli"); int errors = 0; QObject::connect(&c, &TunnelProxyRemoteConnection::errorOccurred, [&](QAbstractSocket::SocketError e) { errors += e == QAbstractSocket::RemoteHostClosedError; });
    c.connectServer(QUrl(QString("tcp://127.0.0.1:%1").arg(l.serverPort())), QUuid::createUuid()); CHECK(waitFor([&]() { return p && p->canReadLine(); })); QVariantMap m = json(p->readLine());
    p->write("{\\"id\\":" + QByteArray::number(m.value("id").toInt()) + ",\\"params\\":{\\"apiVersion\\":\\"0.3\\",\\"name\\":\\"p\\",\\"server\\":\\"n\\",\\"version\\":\\"1\\"},\\"status\\":\\"success\\"}\\n"); CHECK(waitFor([&]() { return p->canReadLine(); })); p->close(); CHECK(waitFor([&]() { return errors == 1; }, 3000));'''),
]
