// In-memory stand-ins for the QtNetwork / QtWebSockets classes the code under test uses.
#include "env.h"
#include <QtNetwork/QNetworkProxy>
#include <string.h>
#define NOT_MODELLED(f) vp_fail("environment: not covered: " f)
bool env_defer = false;
static QList<Sock *> *socks_; static QList<Srv *> *srvs_; static QList<int> *blocked_;
QList<Sock *> &env_socks() { if (!socks_) socks_ = new QList<Sock *>; return *socks_; }
QList<Srv *> &env_srvs() { if (!srvs_) srvs_ = new QList<Srv *>; return *srvs_; }
static QList<int> &blocked() { if (!blocked_) blocked_ = new QList<int>; return *blocked_; }
void env_purge()
{
    QList<Sock *> *l = new QList<Sock *>; for (int i = 0; i < env_socks().size(); i++) if (env_socks().at(i)->o) l->append(env_socks().at(i)); else delete env_socks().at(i); delete socks_; socks_ = l;
    QList<Srv *> *k = new QList<Srv *>; for (int i = 0; i < env_srvs().size(); i++) if (env_srvs().at(i)->o) k->append(env_srvs().at(i)); else delete env_srvs().at(i); delete srvs_; srvs_ = k;
}
Sock::Sock(Kind k, QObject *ob) : kind(k), o(ob), fd(-1), state(0), sslWanted(false), tlsStarted(false), encrypted(false), refuseFd(false), serverEnc(false), clientEnc(false), closeCode(1005), closedByCode(false), closeOnConnect(false), deferClose(false), closePending(false), version(13), port(0), errCode(-1), sslSet(false), ignoreErrors(false), connectRequested(false) {}
Srv::Srv(Sock::Kind k, QObject *ob) : kind(k), o(ob), listening(false), port(0), secure(false), maxPending(30), options(0) {}
Sock *env_sock(const QObject *o) { QList<Sock *> &l = env_socks(); for (int i = l.size() - 1; i >= 0; i--) if (l.at(i)->o == o) return l.at(i); return nullptr; }
static Sock *S(const QObject *o) { Sock *s = env_sock(o); if (!s) NOT_MODELLED("socket without state"); return s; }
static Srv *V(const QObject *o) { QList<Srv *> &l = env_srvs(); for (int i = l.size() - 1; i >= 0; i--) if (l.at(i)->o == o) return l.at(i); NOT_MODELLED("server without state"); }
void env_block_port(int p) { blocked().append(p); }
void env_unblock_port(int p) { blocked().removeAll(p); }
Srv *env_listening(Sock::Kind k, int port) { QList<Srv *> &l = env_srvs(); for (int i = 0; i < l.size(); i++) if (l.at(i)->o && l.at(i)->kind == k && l.at(i)->listening && l.at(i)->port == port) return l.at(i); return nullptr; }
Srv *env_listening_local(const QString &n) { QList<Srv *> &l = env_srvs(); for (int i = 0; i < l.size(); i++) if (l.at(i)->o && l.at(i)->kind == Sock::Local && l.at(i)->listening && l.at(i)->name == n) return l.at(i); return nullptr; }
static bool portTaken(int port) { if (blocked().contains(port)) return true; return env_listening(Sock::Tcp, port) || env_listening(Sock::Web, port); }

// ---------------------------------------------------------------- generic stream socket behaviour
static void emitState(Sock *s)
{
    if (!s->o) return;
    if (s->kind == Sock::Tcp) emit static_cast<QAbstractSocket *>(s->o)->stateChanged(QAbstractSocket::SocketState(s->state));
    else if (s->kind == Sock::Local) emit static_cast<QLocalSocket *>(s->o)->stateChanged(QLocalSocket::LocalSocketState(s->state));
    else emit static_cast<QWebSocket *>(s->o)->stateChanged(QAbstractSocket::SocketState(s->state));
}
static void emitDisc(Sock *s)
{
    if (!s->o) return;
    if (s->kind == Sock::Tcp) emit static_cast<QAbstractSocket *>(s->o)->disconnected();
    else if (s->kind == Sock::Local) emit static_cast<QLocalSocket *>(s->o)->disconnected();
    else emit static_cast<QWebSocket *>(s->o)->disconnected();
}
static void finishDisc(Sock *s)
{
    int prev = s->state; s->closePending = false; if (prev == 0) return;
    s->state = QAbstractSocket::UnconnectedState; emitState(s);
    if (prev == QAbstractSocket::ConnectedState || prev == QAbstractSocket::ClosingState) emitDisc(s);
}
static void startDisc(Sock *s, bool abort)
{
    if (s->state == QAbstractSocket::UnconnectedState) return;
    if (abort) { finishDisc(s); return; }
    if (s->state == QAbstractSocket::ConnectingState && s->kind != Sock::Local) { s->closeOnConnect = true; return; }
    if (s->state == QAbstractSocket::ConnectedState) { s->state = QAbstractSocket::ClosingState; emitState(s); if (s->state != QAbstractSocket::ClosingState) return; }
    if ((s->deferClose || env_defer) && s->state == QAbstractSocket::ClosingState) { s->closePending = true; return; }
    finishDisc(s);
}
void env_drain(Sock *s) { if (s->closePending) finishDisc(s); }
static qint64 rd(Sock *s, char *d, qint64 n) { qint64 k = qMin<qint64>(n, s->rx.size()); if (k <= 0) return s->state == QAbstractSocket::ConnectedState ? 0 : -1; memcpy(d, s->rx.constData(), k); s->rx.remove(0, k); return k; }
void (*env_point)();
static qint64 wr(Sock *s, const char *d, qint64 n) { if (s->state != QAbstractSocket::ConnectedState) return -1; if (env_point) env_point(); s->tx.append(d, int(n)); return n; }
static void err(Sock *s, int e, const QString &t)
{
    s->errCode = e; s->err = t; QObject *o = s->o; if (!o) return;
    if (s->kind != Sock::Web) static_cast<QIODevice *>(o)->setErrorString(t);
    if (s->kind == Sock::Tcp) { emit static_cast<QAbstractSocket *>(o)->errorOccurred(QAbstractSocket::SocketError(e)); if (s->o) emit static_cast<QAbstractSocket *>(o)->error(QAbstractSocket::SocketError(e)); }
    else if (s->kind == Sock::Local) { emit static_cast<QLocalSocket *>(o)->errorOccurred(QLocalSocket::LocalSocketError(e)); if (s->o) emit static_cast<QLocalSocket *>(o)->error(QLocalSocket::LocalSocketError(e)); }
    else emit static_cast<QWebSocket *>(o)->error(QAbstractSocket::SocketError(e));
}
void env_error(Sock *s, int e) { if (s->o) err(s, e, QStringLiteral("Network error")); }
void env_feed(Sock *s, const QByteArray &d) { if (!s->o || s->state != QAbstractSocket::ConnectedState) return; s->rx += d; emit static_cast<QIODevice *>(s->o)->readyRead(); }
void env_feed(Sock *s, const QByteArray &a, const QByteArray &b, bool together) { if (together) env_feed(s, a + b); else { env_feed(s, a); env_feed(s, b); } }
void env_text(Sock *s, const QString &m) { if (s->o && s->state == QAbstractSocket::ConnectedState) emit static_cast<QWebSocket *>(s->o)->textMessageReceived(m); }
void env_binary(Sock *s, const QByteArray &m) { if (s->o && s->state == QAbstractSocket::ConnectedState) emit static_cast<QWebSocket *>(s->o)->binaryMessageReceived(m); }
void env_connected(Sock *s)
{
    if (!s->o || s->state != QAbstractSocket::ConnectingState) return;
    if (s->closeOnConnect && s->kind == Sock::Web) { s->closeOnConnect = false; finishDisc(s); emitDisc(s); return; }
    s->state = QAbstractSocket::ConnectedState; emitState(s); if (!s->o || s->state != QAbstractSocket::ConnectedState) return;
    if (s->kind == Sock::Tcp) { static_cast<QIODevice *>(s->o)->setOpenMode(QIODevice::ReadWrite | QIODevice::Unbuffered); emit static_cast<QAbstractSocket *>(s->o)->connected(); if (s->clientEnc) s->tlsStarted = true; }
    else if (s->kind == Sock::Local) { static_cast<QIODevice *>(s->o)->setOpenMode(QIODevice::ReadWrite | QIODevice::Unbuffered); emit static_cast<QLocalSocket *>(s->o)->connected(); }
    else emit static_cast<QWebSocket *>(s->o)->connected();
    if (s->closeOnConnect) { s->closeOnConnect = false; startDisc(s, false); }
}
void env_encrypted(Sock *s) { if (!s->o || s->kind != Sock::Tcp || s->state != QAbstractSocket::ConnectedState || s->encrypted || !(s->serverEnc || s->clientEnc)) return; s->encrypted = true; emit static_cast<QSslSocket *>(s->o)->encrypted(); }
void env_ssl_errors(Sock *s, const QList<QSslError> &l)
{
    if (!s->o) return;
    if (s->kind == Sock::Tcp) emit static_cast<QSslSocket *>(s->o)->sslErrors(l); else if (s->kind == Sock::Web) emit static_cast<QWebSocket *>(s->o)->sslErrors(l);
}
void env_ssl_errors(Sock *s) { QList<QSslError> l; l.append(QSslError(QSslError::SelfSignedCertificate)); env_ssl_errors(s, l); }
void env_refused(Sock *s)
{
    if (!s->o || s->state != QAbstractSocket::ConnectingState) return;
    s->state = QAbstractSocket::UnconnectedState; err(s, QAbstractSocket::ConnectionRefusedError, QStringLiteral("Connection refused")); emitState(s); if (s->kind == Sock::Web) emitDisc(s);
}
void env_peer_close(Sock *s)
{
    if (!s->o) return; if (s->state == QAbstractSocket::ClosingState) { env_drain(s); return; } if (s->state != QAbstractSocket::ConnectedState) return;
    err(s, QAbstractSocket::RemoteHostClosedError, QStringLiteral("The remote host closed the connection"));
    if (s->o && (s->state == QAbstractSocket::ConnectedState || s->state == QAbstractSocket::ClosingState)) { s->deferClose = false; if (s->state == QAbstractSocket::ConnectedState) { s->state = QAbstractSocket::ClosingState; emitState(s); } finishDisc(s); }
}

void env_peer_closing(Sock *s)
{
    if (!s->o || s->state != QAbstractSocket::ConnectedState) return;
    err(s, QAbstractSocket::RemoteHostClosedError, QStringLiteral("The remote host closed the connection"));
    if (s->o && s->state == QAbstractSocket::ConnectedState) { s->deferClose = true; startDisc(s, false); }
}
bool env_refuse_now = false;

// ---------------------------------------------------------------- QAbstractSocket / QTcpSocket / QSslSocket
QAbstractSocket::QAbstractSocket(SocketType, QObject *p) : QIODevice(p) { env_socks().append(new Sock(Sock::Tcp, this)); }
QAbstractSocket::~QAbstractSocket() { Sock *s = env_sock(this); if (s) { s->closedByCode = s->closedByCode || s->state; if (s->state) finishDisc(s); s->o = nullptr; } }
QTcpSocket::QTcpSocket(QObject *p) : QAbstractSocket(QAbstractSocket::TcpSocket, p) {}
QTcpSocket::~QTcpSocket() {}
QSslSocket::QSslSocket(QObject *p) : QTcpSocket(p) {}
QSslSocket::~QSslSocket() {}
void QAbstractSocket::resume() {} void QSslSocket::resume() {}
static void conn(QAbstractSocket *o, const QString &h, int port, bool enc) { Sock *s = S(o); if (s->state != QAbstractSocket::UnconnectedState) return; s->host = h; s->port = port; s->clientEnc = enc; s->encrypted = false; s->connectRequested = true; s->closedByCode = s->closeOnConnect = false; s->rx.clear(); s->tx.clear(); o->setOpenMode(QIODevice::ReadWrite | QIODevice::Unbuffered); s->state = QAbstractSocket::ConnectingState; emitState(s); if (env_refuse_now) env_refused(s); }
void QAbstractSocket::connectToHost(const QString &h, quint16 port, OpenMode, NetworkLayerProtocol) { conn(this, h, port, false); }
void QAbstractSocket::connectToHost(const QHostAddress &a, quint16 port, OpenMode) { conn(this, a.toString(), port, false); }
void QSslSocket::connectToHost(const QString &h, quint16 port, OpenMode, NetworkLayerProtocol) { conn(this, h, port, false); }
void QSslSocket::connectToHostEncrypted(const QString &h, quint16 port, OpenMode, NetworkLayerProtocol) { conn(this, h, port, true); }
void QSslSocket::connectToHostEncrypted(const QString &h, quint16 port, const QString &, OpenMode, NetworkLayerProtocol) { conn(this, h, port, true); }
void QAbstractSocket::disconnectFromHost() { Sock *s = S(this); if (s->state) s->closedByCode = true; startDisc(s, false); }
void QSslSocket::disconnectFromHost() { QAbstractSocket::disconnectFromHost(); }
bool QAbstractSocket::isValid() const { return S(this)->state == ConnectedState; }
qint64 QAbstractSocket::bytesAvailable() const { return S(this)->rx.size(); }
qint64 QSslSocket::bytesAvailable() const { return S(this)->rx.size(); }
qint64 QAbstractSocket::bytesToWrite() const { return 0; }
qint64 QSslSocket::bytesToWrite() const { return 0; }
bool QAbstractSocket::canReadLine() const { return S(this)->rx.contains('\n'); }
bool QSslSocket::canReadLine() const { return S(this)->rx.contains('\n'); }
quint16 QAbstractSocket::peerPort() const { return S(this)->port; }
quint16 QAbstractSocket::localPort() const { return 0; }
QHostAddress QAbstractSocket::peerAddress() const { return S(this)->peer; }
QHostAddress QAbstractSocket::localAddress() const { return QHostAddress(); }
QString QAbstractSocket::peerName() const { return S(this)->host; }
qint64 QAbstractSocket::readBufferSize() const { return 0; }
void QAbstractSocket::setReadBufferSize(qint64) {} void QSslSocket::setReadBufferSize(qint64) {}
void QAbstractSocket::abort() { Sock *s = S(this); if (s->state) s->closedByCode = true; s->rx.clear(); if (s->state) startDisc(s, true); QIODevice::close(); }
void QSslSocket::abort() { QAbstractSocket::abort(); }
qintptr QAbstractSocket::socketDescriptor() const { return S(this)->fd; }
static bool setFd(QAbstractSocket *o, qintptr fd)
{
    Sock *me = S(o); QList<Sock *> &l = env_socks();
    for (int i = 0; i < l.size(); i++) { Sock *p = l.at(i); if (p->fd == (int)fd && !p->o && p != me && p->state == -2) {
        if (p->refuseFd) return false;
        int k = l.indexOf(me); l.removeAt(k); delete me; p->o = o; p->state = QAbstractSocket::ConnectedState; o->setOpenMode(QIODevice::ReadWrite | QIODevice::Unbuffered); return true; } }
    return false;
}
bool QAbstractSocket::setSocketDescriptor(qintptr fd, SocketState, OpenMode) { return setFd(this, fd); }
bool QSslSocket::setSocketDescriptor(qintptr fd, SocketState, OpenMode) { return setFd(this, fd); }
void QAbstractSocket::setSocketOption(SocketOption, const QVariant &) {} void QSslSocket::setSocketOption(QAbstractSocket::SocketOption, const QVariant &) {}
QVariant QAbstractSocket::socketOption(SocketOption) { return QVariant(); } QVariant QSslSocket::socketOption(QAbstractSocket::SocketOption) { return QVariant(); }
QAbstractSocket::SocketType QAbstractSocket::socketType() const { return TcpSocket; }
QAbstractSocket::SocketState QAbstractSocket::state() const { return SocketState(S(this)->state); }
QAbstractSocket::SocketError QAbstractSocket::error() const { return SocketError(S(this)->errCode); }
void QAbstractSocket::close() { QIODevice::close(); Sock *s = S(this); if (s->state) { s->closedByCode = true; disconnectFromHost(); } }
void QSslSocket::close() { QAbstractSocket::close(); }
bool QAbstractSocket::isSequential() const { return true; }
bool QAbstractSocket::atEnd() const { return S(this)->rx.isEmpty(); }
bool QSslSocket::atEnd() const { return S(this)->rx.isEmpty(); }
bool QAbstractSocket::flush() { return true; } bool QSslSocket::flush() { return true; }
bool QAbstractSocket::waitForConnected(int) { return state() == ConnectedState; } bool QSslSocket::waitForConnected(int) { return state() == ConnectedState; }
bool QAbstractSocket::waitForReadyRead(int) { return false; } bool QSslSocket::waitForReadyRead(int) { return false; }
bool QAbstractSocket::waitForBytesWritten(int) { return false; } bool QSslSocket::waitForBytesWritten(int) { return false; }
bool QAbstractSocket::waitForDisconnected(int) { return state() == UnconnectedState; } bool QSslSocket::waitForDisconnected(int) { return state() == UnconnectedState; }
bool QSslSocket::waitForEncrypted(int) { return false; }
qint64 QAbstractSocket::readData(char *d, qint64 n) { return rd(S(this), d, n); }
qint64 QSslSocket::readData(char *d, qint64 n) { return rd(S(this), d, n); }
qint64 QAbstractSocket::readLineData(char *d, qint64 n) { return QIODevice::readLineData(d, n); }
qint64 QAbstractSocket::writeData(const char *d, qint64 n) { return wr(S(this), d, n); }
qint64 QSslSocket::writeData(const char *d, qint64 n) { return wr(S(this), d, n); }
QSslSocket::SslMode QSslSocket::mode() const { Sock *s = S(this); return s->serverEnc ? SslServerMode : s->clientEnc && s->tlsStarted ? SslClientMode : UnencryptedMode; }
bool QSslSocket::isEncrypted() const { return S(this)->encrypted; }
void QSslSocket::setSslConfiguration(const QSslConfiguration &c) { Sock *s = S(this); s->ssl = c; s->sslSet = true; }
QSslConfiguration QSslSocket::sslConfiguration() const { return S(this)->ssl; }
void QSslSocket::setPeerVerifyMode(PeerVerifyMode m) { S(this)->ssl.setPeerVerifyMode(m); }
QSslSocket::PeerVerifyMode QSslSocket::peerVerifyMode() const { return S(this)->ssl.peerVerifyMode(); }
void QSslSocket::ignoreSslErrors(const QList<QSslError> &l) { S(this)->ignored = l; }
void QSslSocket::ignoreSslErrors() { S(this)->ignoreErrors = true; }
void QSslSocket::startClientEncryption() { S(this)->clientEnc = true; if (S(this)->state == ConnectedState) S(this)->tlsStarted = true; }
void QSslSocket::startServerEncryption() { S(this)->serverEnc = true; }
bool QSslSocket::supportsSsl() { return true; }
QDebug operator<<(QDebug d, QAbstractSocket::SocketError) { return d; }
QDebug operator<<(QDebug d, QAbstractSocket::SocketState) { return d; }
QDebug operator<<(QDebug d, QLocalSocket::LocalSocketError) { return d; }
QDebug operator<<(QDebug d, QLocalSocket::LocalSocketState) { return d; }
QDebug operator<<(QDebug d, const QSslError &) { return d; }
QDebug operator<<(QDebug d, const QSslError::SslError &) { return d; }
QDebug operator<<(QDebug d, const QSslCertificate &) { return d; }
QDebug operator<<(QDebug d, const QHostAddress &) { return d; }

// ---------------------------------------------------------------- servers
static Srv *mkSrv(Sock::Kind k, QObject *o) { Srv *v = new Srv(k, o); env_srvs().append(v); return v; }
static void goneSrv(QObject *o) { Srv *v = V(o); v->listening = false; v->o = nullptr; }
static int fdNo = 100;
QTcpServer::QTcpServer(QObject *p) : QObject(p) { mkSrv(Sock::Tcp, this); }
QTcpServer::~QTcpServer() { goneSrv(this); }
bool QTcpServer::listen(const QHostAddress &a, quint16 port) { Srv *v = V(this); if (v->listening) { return false; } if (portTaken(port)) { v->err = QStringLiteral("The bound address is already in use"); return false; } v->listening = true; v->port = port; v->addr = a; return true; }
void QTcpServer::close() { Srv *v = V(this); while (!v->pending.isEmpty()) delete v->pending.takeFirst(); v->listening = false; }
bool QTcpServer::isListening() const { return V(this)->listening; }
void QTcpServer::setMaxPendingConnections(int n) { V(this)->maxPending = n; }
int QTcpServer::maxPendingConnections() const { return V(this)->maxPending; }
quint16 QTcpServer::serverPort() const { return V(this)->listening ? V(this)->port : 0; }
QHostAddress QTcpServer::serverAddress() const { return V(this)->addr; }
bool QTcpServer::hasPendingConnections() const { return !V(this)->pending.isEmpty(); }
QTcpSocket *QTcpServer::nextPendingConnection() { Srv *v = V(this); return v->pending.isEmpty() ? nullptr : static_cast<QTcpSocket *>(v->pending.takeFirst()); }
QAbstractSocket::SocketError QTcpServer::serverError() const { return QAbstractSocket::UnknownSocketError; }
QString QTcpServer::errorString() const { return V(this)->err; }
void QTcpServer::pauseAccepting() {} void QTcpServer::resumeAccepting() {}
void QTcpServer::incomingConnection(qintptr fd) { QTcpSocket *s = new QTcpSocket(this); s->setSocketDescriptor(fd); addPendingConnection(s); }
void QTcpServer::addPendingConnection(QTcpSocket *s) { V(this)->pending.append(s); }
Sock *env_incoming_tcp(int port, bool refuseFd)
{
    Srv *v = env_listening(Sock::Tcp, port); if (!v) return nullptr;
    Sock *s = new Sock(Sock::Tcp, nullptr); s->fd = ++fdNo; s->state = -2; s->refuseFd = refuseFd; s->peer = QHostAddress(QStringLiteral("10.0.0.%1").arg(s->fd - 100)); env_socks().append(s);
    QTcpServer *t = static_cast<QTcpServer *>(v->o); t->incomingConnection(s->fd); if (v->o && v->listening) emit t->newConnection();
    return s->state == -2 ? nullptr : s;
}
QLocalServer::QLocalServer(QObject *p) : QObject(p) { mkSrv(Sock::Local, this); }
QLocalServer::~QLocalServer() { if (V(this)->listening) close(); goneSrv(this); }
void QLocalServer::close() { Srv *v = V(this); if (!v->listening) return; while (!v->pending.isEmpty()) delete v->pending.takeFirst(); v->listening = false; QFile::remove(v->name); }
QString QLocalServer::errorString() const { return V(this)->err; }
bool QLocalServer::hasPendingConnections() const { return !V(this)->pending.isEmpty(); }
bool QLocalServer::isListening() const { return V(this)->listening; }
bool QLocalServer::listen(const QString &n)
{
    Srv *v = V(this); if (v->listening) return false; if (n.isEmpty()) { v->err = QStringLiteral("Name error"); return false; }
    if (QFile::exists(n) || n.startsWith(QLatin1String("/nonexistent/"))) { v->err = QStringLiteral("QLocalServer::listen: Address in use"); return false; }
    QFile f(n); if (!f.open(QIODevice::WriteOnly)) { v->err = QStringLiteral("QLocalServer::listen: Permission denied"); return false; } f.close(); v->listening = true; v->name = n; return true;
}
bool QLocalServer::listen(qintptr) { NOT_MODELLED("QLocalServer::listen(fd)"); }
int QLocalServer::maxPendingConnections() const { return V(this)->maxPending; }
void QLocalServer::setMaxPendingConnections(int n) { V(this)->maxPending = n; }
QLocalSocket *QLocalServer::nextPendingConnection() { Srv *v = V(this); return v->pending.isEmpty() ? nullptr : static_cast<QLocalSocket *>(v->pending.takeFirst()); }
QString QLocalServer::serverName() const { return V(this)->name; }
QString QLocalServer::fullServerName() const { return V(this)->name; }
bool QLocalServer::removeServer(const QString &n) { if (QFile::exists(n)) return QFile::remove(n); return true; }
QAbstractSocket::SocketError QLocalServer::serverError() const { return QAbstractSocket::UnknownSocketError; }
void QLocalServer::setSocketOptions(SocketOptions o) { V(this)->options = int(o); }
QLocalServer::SocketOptions QLocalServer::socketOptions() const { return SocketOptions(V(this)->options); }
void QLocalServer::incomingConnection(quintptr fd)
{
    QLocalSocket *s = new QLocalSocket(this); Sock *me = S(s); QList<Sock *> &l = env_socks();
    for (int i = 0; i < l.size(); i++) { Sock *p = l.at(i); if (p->fd == (int)fd && !p->o && p->state == -2) { l.removeOne(me); delete me; p->o = s; p->state = QAbstractSocket::ConnectedState; s->setOpenMode(QIODevice::ReadWrite | QIODevice::Unbuffered); break; } }
    V(this)->pending.append(s); emit newConnection();
}
Sock *env_incoming_local(const QString &n)
{
    Srv *v = env_listening_local(n); if (!v) return nullptr;
    Sock *s = new Sock(Sock::Local, nullptr); s->fd = ++fdNo; s->state = -2; env_socks().append(s); static_cast<QLocalServer *>(v->o)->incomingConnection(s->fd); return s->state == -2 ? nullptr : s;
}
QLocalSocket::QLocalSocket(QObject *p) : QIODevice(p) { env_socks().append(new Sock(Sock::Local, this)); }
QLocalSocket::~QLocalSocket() { Sock *s = S(this); QIODevice::close(); if (s->state) { s->closedByCode = true; startDisc(s, false); } if (s->state) { s->state = 0; s->closePending = false; } s->o = nullptr; } // unsent data: goes away without a signal, like Qt's
void QLocalSocket::connectToServer(OpenMode) { Sock *s = S(this); if (s->state) return; s->connectRequested = true; s->state = QAbstractSocket::ConnectingState; emitState(s); }
void QLocalSocket::connectToServer(const QString &n, OpenMode m) { S(this)->host = n; connectToServer(m); }
void QLocalSocket::disconnectFromServer() { Sock *s = S(this); if (s->state) s->closedByCode = true; startDisc(s, false); }
void QLocalSocket::setServerName(const QString &n) { S(this)->host = n; }
QString QLocalSocket::serverName() const { return S(this)->host; }
QString QLocalSocket::fullServerName() const { return S(this)->host; }
void QLocalSocket::abort() { Sock *s = S(this); if (s->state) s->closedByCode = true; s->rx.clear(); startDisc(s, true); QIODevice::close(); }
bool QLocalSocket::isSequential() const { return true; }
qint64 QLocalSocket::bytesAvailable() const { return S(this)->rx.size(); }
qint64 QLocalSocket::bytesToWrite() const { return 0; }
bool QLocalSocket::canReadLine() const { return S(this)->rx.contains('\n'); }
bool QLocalSocket::open(OpenMode m) { connectToServer(m); return isOpen(); }
void QLocalSocket::close() { QIODevice::close(); Sock *s = S(this); if (s->state) s->closedByCode = true; startDisc(s, false); }
QLocalSocket::LocalSocketError QLocalSocket::error() const { return LocalSocketError(S(this)->errCode); }
bool QLocalSocket::flush() { return true; }
bool QLocalSocket::isValid() const { return S(this)->state == QAbstractSocket::ConnectedState; }
qint64 QLocalSocket::readBufferSize() const { return 0; } void QLocalSocket::setReadBufferSize(qint64) {}
bool QLocalSocket::setSocketDescriptor(qintptr, LocalSocketState, OpenMode) { NOT_MODELLED("QLocalSocket::setSocketDescriptor"); }
qintptr QLocalSocket::socketDescriptor() const { return S(this)->fd; }
QLocalSocket::LocalSocketState QLocalSocket::state() const { return LocalSocketState(S(this)->state); }
bool QLocalSocket::waitForBytesWritten(int) { return false; }
bool QLocalSocket::waitForConnected(int) { return isValid(); }
bool QLocalSocket::waitForDisconnected(int) { return state() == UnconnectedState; }
bool QLocalSocket::waitForReadyRead(int) { return false; }
qint64 QLocalSocket::readData(char *d, qint64 n) { return rd(S(this), d, n); }
qint64 QLocalSocket::writeData(const char *d, qint64 n) { return wr(S(this), d, n); }

// ---------------------------------------------------------------- web sockets
QWebSocketServer::QWebSocketServer(const QString &n, SslMode m, QObject *p) : QObject(p) { Srv *v = mkSrv(Sock::Web, this); v->title = n; v->secure = m == SecureMode; }
QWebSocketServer::~QWebSocketServer() { if (V(this)->listening) close(); goneSrv(this); }
bool QWebSocketServer::listen(const QHostAddress &a, quint16 port) { Srv *v = V(this); if (v->listening) return false; if (portTaken(port)) { v->err = QStringLiteral("The bound address is already in use"); return false; } v->listening = true; v->port = port; v->addr = a; return true; }
void QWebSocketServer::close() { Srv *v = V(this); bool was = v->listening; v->listening = false; while (!v->pending.isEmpty()) { QWebSocket *w = static_cast<QWebSocket *>(v->pending.takeFirst()); w->close(QWebSocketProtocol::CloseCodeGoingAway, QStringLiteral("Server closed.")); w->deleteLater(); } if (was) emit closed(); }
bool QWebSocketServer::isListening() const { return V(this)->listening; }
void QWebSocketServer::setMaxPendingConnections(int n) { V(this)->maxPending = n; } int QWebSocketServer::maxPendingConnections() const { return V(this)->maxPending; }
quint16 QWebSocketServer::serverPort() const { return V(this)->port; }
QHostAddress QWebSocketServer::serverAddress() const { return V(this)->addr; }
QWebSocketServer::SslMode QWebSocketServer::secureMode() const { return V(this)->secure ? SecureMode : NonSecureMode; }
bool QWebSocketServer::hasPendingConnections() const { return !V(this)->pending.isEmpty(); }
QWebSocket *QWebSocketServer::nextPendingConnection() { Srv *v = V(this); return v->pending.isEmpty() ? nullptr : static_cast<QWebSocket *>(v->pending.takeFirst()); }
QWebSocketProtocol::CloseCode QWebSocketServer::error() const { return QWebSocketProtocol::CloseCodeNormal; }
QString QWebSocketServer::errorString() const { return V(this)->err; }
void QWebSocketServer::setServerName(const QString &n) { V(this)->title = n; } QString QWebSocketServer::serverName() const { return V(this)->title; }
void QWebSocketServer::setSslConfiguration(const QSslConfiguration &c) { V(this)->ssl = c; } QSslConfiguration QWebSocketServer::sslConfiguration() const { return V(this)->ssl; }
void QWebSocketServer::pauseAccepting() {} void QWebSocketServer::resumeAccepting() {}
Sock *env_incoming_web(int port, int version)
{
    Srv *v = env_listening(Sock::Web, port); if (!v) return nullptr; QWebSocketServer *t = static_cast<QWebSocketServer *>(v->o);
    QWebSocket *w = new QWebSocket(QString(), QWebSocketProtocol::VersionLatest, t); Sock *s = S(w); s->state = QAbstractSocket::ConnectedState; s->version = version; s->fd = ++fdNo; s->peer = QHostAddress(QStringLiteral("10.0.1.%1").arg(s->fd - 100));
    v->pending.append(w); emit t->newConnection(); return s;
}
QWebSocket::QWebSocket(const QString &, QWebSocketProtocol::Version ver, QObject *p) : QObject(p) { Sock *s = new Sock(Sock::Web, this); s->version = int(ver); env_socks().append(s); }
QWebSocket::~QWebSocket() { Sock *s = S(this); if (s->state) { s->closedByCode = true; s->closeCode = 1001; finishDisc(s); } s->o = nullptr; }
void QWebSocket::abort() { Sock *s = S(this); if (s->state) s->closedByCode = true; startDisc(s, true); }
QAbstractSocket::SocketError QWebSocket::error() const { return QAbstractSocket::SocketError(S(this)->errCode); }
QString QWebSocket::errorString() const { return S(this)->err; }
bool QWebSocket::flush() { return true; }
bool QWebSocket::isValid() const { return S(this)->state == QAbstractSocket::ConnectedState; }
QHostAddress QWebSocket::localAddress() const { return QHostAddress(); } quint16 QWebSocket::localPort() const { return 0; }
QHostAddress QWebSocket::peerAddress() const { return S(this)->peer; }
QString QWebSocket::peerName() const { return S(this)->host; } quint16 QWebSocket::peerPort() const { return S(this)->port; }
void QWebSocket::resume() {}
QAbstractSocket::SocketState QWebSocket::state() const { return QAbstractSocket::SocketState(S(this)->state); }
QWebSocketProtocol::Version QWebSocket::version() const { return QWebSocketProtocol::Version(S(this)->version); }
QString QWebSocket::resourceName() const { return QStringLiteral("/"); }
QUrl QWebSocket::requestUrl() const { return QUrl(S(this)->url); }
QString QWebSocket::origin() const { return QString(); }
QWebSocketProtocol::CloseCode QWebSocket::closeCode() const { return QWebSocketProtocol::CloseCode(S(this)->closeCode); }
QString QWebSocket::closeReason() const { return S(this)->closeReason; }
qint64 QWebSocket::sendTextMessage(const QString &m) { Sock *s = S(this); if (s->state != QAbstractSocket::ConnectedState) return 0; s->msgs.append(m); return m.toUtf8().size(); }
qint64 QWebSocket::sendBinaryMessage(const QByteArray &d) { Sock *s = S(this); if (s->state != QAbstractSocket::ConnectedState) return 0; s->bins.append(d); return d.size(); }
void QWebSocket::ignoreSslErrors(const QList<QSslError> &l) { S(this)->ignored = l; } void QWebSocket::ignoreSslErrors() { S(this)->ignoreErrors = true; }
void QWebSocket::setSslConfiguration(const QSslConfiguration &c) { Sock *s = S(this); s->ssl = c; s->sslSet = true; } QSslConfiguration QWebSocket::sslConfiguration() const { return S(this)->ssl; }
qint64 QWebSocket::bytesToWrite() const { return 0; }
void QWebSocket::close(QWebSocketProtocol::CloseCode c, const QString &r) { Sock *s = S(this); if (s->state == QAbstractSocket::UnconnectedState) return; if (!s->closedByCode) { s->closedByCode = true; s->closeCode = int(c); s->closeReason = r; } if (s->closePending) return; emit aboutToClose(); if (s->o) startDisc(s, false); }
void QWebSocket::open(const QUrl &u) { Sock *s = S(this); if (s->state) return; s->url = u.toString(); s->host = u.host(); s->port = u.port(-1); s->connectRequested = true; s->closedByCode = false; s->state = QAbstractSocket::ConnectingState; emitState(s); if (env_refuse_now) env_refused(s); }
void QWebSocket::open(const QNetworkRequest &) { NOT_MODELLED("QWebSocket::open(QNetworkRequest)"); }
void QWebSocket::ping(const QByteArray &) {}

// ---------------------------------------------------------------- QHostAddress (IPv4, and ::1 / ::)
class QHostAddressPrivate : public QSharedData { public: int kind; quint32 v4; QHostAddressPrivate() : kind(0), v4(0) {} }; // 0 null, 1 IPv4, 2 ::1, 3 :: (any IPv6), 4 any
QHostAddress::QHostAddress() : d(new QHostAddressPrivate) {}
QHostAddress::QHostAddress(quint32 a) : d(new QHostAddressPrivate) { setAddress(a); }
QHostAddress::QHostAddress(const QString &s) : d(new QHostAddressPrivate) { setAddress(s); }
QHostAddress::QHostAddress(const QHostAddress &o) : d(o.d) {}
QHostAddress::QHostAddress(SpecialAddress a) : d(new QHostAddressPrivate) { setAddress(a); }
QHostAddress::~QHostAddress() {}
QHostAddress &QHostAddress::operator=(const QHostAddress &o) { d = o.d; return *this; }
QHostAddress &QHostAddress::operator=(SpecialAddress a) { setAddress(a); return *this; }
void QHostAddress::setAddress(quint32 a) { d.detach(); d->kind = 1; d->v4 = a; }
void QHostAddress::setAddress(SpecialAddress a)
{
    d.detach(); d->v4 = 0;
    switch (a) { case Null: d->kind = 0; break; case Broadcast: d->kind = 1; d->v4 = 0xffffffffu; break; case LocalHost: d->kind = 1; d->v4 = 0x7f000001u; break; case LocalHostIPv6: d->kind = 2; break; case Any: d->kind = 4; break; case AnyIPv6: d->kind = 3; break; case AnyIPv4: d->kind = 1; break; }
}
bool QHostAddress::setAddress(const QString &t)
{
    d.detach(); d->kind = 0; d->v4 = 0; QString s = t.trimmed(); if (s == QLatin1String("::1")) { d->kind = 2; return true; } if (s == QLatin1String("::")) { d->kind = 3; return true; }
    if (s.contains(QLatin1Char(':'))) NOT_MODELLED("IPv6 address text");
    quint32 v = 0; int part = 0, val = -1; for (int i = 0; i <= s.size(); i++) { char c = i < s.size() ? s.at(i).toLatin1() : '.'; if (c >= '0' && c <= '9') { if (val == 0) return false; val = (val < 0 ? 0 : val) * 10 + (c - '0'); if (val > 255) return false; } else if (c == '.') { if (val < 0 || part > 3) return false; v = v << 8 | val; part++; val = -1; } else return false; }
    if (part != 4) return false; d->kind = 1; d->v4 = v; return true;
}
QAbstractSocket::NetworkLayerProtocol QHostAddress::protocol() const { return d->kind == 1 ? QAbstractSocket::IPv4Protocol : d->kind == 4 ? QAbstractSocket::AnyIPProtocol : d->kind ? QAbstractSocket::IPv6Protocol : QAbstractSocket::UnknownNetworkLayerProtocol; }
quint32 QHostAddress::toIPv4Address() const { return d->v4; }
quint32 QHostAddress::toIPv4Address(bool *ok) const { if (ok) *ok = d->kind == 1; return d->v4; }
QString QHostAddress::toString() const
{
    switch (d->kind) { case 0: return QString(); case 2: return QStringLiteral("::1"); case 3: return QStringLiteral("::"); case 4: return QStringLiteral("0.0.0.0"); }
    QString r; for (int i = 3; i >= 0; i--) { r += QString::number(d->v4 >> (8 * i) & 255); if (i) r += QLatin1Char('.'); } return r;
}
bool QHostAddress::operator==(const QHostAddress &o) const { return d->kind == o.d->kind && d->v4 == o.d->v4; }
bool QHostAddress::operator==(SpecialAddress a) const { return *this == QHostAddress(a); }
bool QHostAddress::isNull() const { return d->kind == 0; }
void QHostAddress::clear() { setAddress(Null); }
bool QHostAddress::isLoopback() const { return d->kind == 2 || (d->kind == 1 && d->v4 >> 24 == 127); }
uint qHash(const QHostAddress &k, uint seed) noexcept { return k.toIPv4Address() ^ seed; }

// ---------------------------------------------------------------- certificates, keys, TLS configuration
static QByteArray pem(const QByteArray &a, const char *what) { int b = a.indexOf(QByteArray("-----BEGIN ") + what); return b < 0 ? QByteArray() : a.mid(b); }
class QSslCertificatePrivate : public QSharedData { public: QByteArray data; QSslCertificatePrivate(const QByteArray &a) : data(a) {} };
QSslCertificate::QSslCertificate(QIODevice *dev, QSsl::EncodingFormat) : d(new QSslCertificatePrivate(dev ? pem(dev->readAll(), "CERTIFICATE") : QByteArray())) {}
QSslCertificate::QSslCertificate(const QByteArray &a, QSsl::EncodingFormat) : d(new QSslCertificatePrivate(pem(a, "CERTIFICATE"))) {}
QSslCertificate::QSslCertificate(const QSslCertificate &o) : d(o.d) {}
QSslCertificate::~QSslCertificate() {}
QSslCertificate &QSslCertificate::operator=(const QSslCertificate &o) { d = o.d; return *this; }
bool QSslCertificate::operator==(const QSslCertificate &o) const { return d->data == o.d->data; }
bool QSslCertificate::isNull() const { return d->data.isEmpty(); }
QStringList QSslCertificate::issuerInfo(SubjectInfo) const { return QStringList(); }
QStringList QSslCertificate::subjectInfo(SubjectInfo) const { return QStringList(); }
QByteArray QSslCertificate::toPem() const { return d->data; }
class QSslKeyPrivate : public QSharedData { public: QByteArray data; QSslKeyPrivate(const QByteArray &a) : data(a) {} };
QSslKey::QSslKey() : d(new QSslKeyPrivate(QByteArray())) {}
QSslKey::QSslKey(const QByteArray &a, QSsl::KeyAlgorithm, QSsl::EncodingFormat, QSsl::KeyType, const QByteArray &) : d(new QSslKeyPrivate(a.contains("PRIVATE KEY") ? a : QByteArray())) {}
QSslKey::QSslKey(QIODevice *dev, QSsl::KeyAlgorithm, QSsl::EncodingFormat, QSsl::KeyType, const QByteArray &) : d(new QSslKeyPrivate(QByteArray())) { if (dev) { QByteArray a = dev->readAll(); if (a.contains("PRIVATE KEY")) d->data = a; } }
QSslKey::QSslKey(const QSslKey &o) : d(o.d) {}
QSslKey::~QSslKey() {}
QSslKey &QSslKey::operator=(const QSslKey &o) { d = o.d; return *this; }
bool QSslKey::isNull() const { return d->data.isEmpty(); }
QByteArray QSslKey::toPem(const QByteArray &) const { return d->data; }
bool QSslKey::operator==(const QSslKey &o) const { return d->data == o.d->data; }
class QSslErrorPrivate { public: QSslError::SslError e; QSslErrorPrivate(QSslError::SslError x) : e(x) {} };
QSslError::QSslError() : d(new QSslErrorPrivate(NoError)) {}
QSslError::QSslError(SslError e) : d(new QSslErrorPrivate(e)) {}
QSslError::QSslError(SslError e, const QSslCertificate &) : d(new QSslErrorPrivate(e)) {}
QSslError::QSslError(const QSslError &o) : d(new QSslErrorPrivate(*o.d)) {}
QSslError::~QSslError() {}
QSslError &QSslError::operator=(const QSslError &o) { d->e = o.d->e; return *this; }
bool QSslError::operator==(const QSslError &o) const { return d->e == o.d->e; }
QSslError::SslError QSslError::error() const { return d->e; }
QString QSslError::errorString() const { return QStringLiteral("ssl error"); }
QSslCertificate QSslError::certificate() const { return QSslCertificate(); }
class QSslConfigurationPrivate : public QSharedData { public: QSslCertificate cert; QSslKey key; int proto, verify; QList<QSslCertificate> ca; QSslConfigurationPrivate() : cert(QByteArray()), proto(0), verify(QSslSocket::AutoVerifyPeer) {} };
QSslConfiguration::QSslConfiguration() : d(new QSslConfigurationPrivate) {}
QSslConfiguration::QSslConfiguration(const QSslConfiguration &o) : d(o.d) {}
QSslConfiguration::~QSslConfiguration() {}
QSslConfiguration &QSslConfiguration::operator=(const QSslConfiguration &o) { d = o.d; return *this; }
bool QSslConfiguration::operator==(const QSslConfiguration &o) const { return d == o.d || (d->cert == o.d->cert && d->key == o.d->key && d->verify == o.d->verify && d->proto == o.d->proto); }
bool QSslConfiguration::isNull() const { return d->cert.isNull() && d->key.isNull(); }
QSslCertificate QSslConfiguration::localCertificate() const { return d->cert; }
void QSslConfiguration::setLocalCertificate(const QSslCertificate &c) { d->cert = c; }
QSslKey QSslConfiguration::privateKey() const { return d->key; }
void QSslConfiguration::setPrivateKey(const QSslKey &k) { d->key = k; }
QSsl::SslProtocol QSslConfiguration::protocol() const { return QSsl::SslProtocol(d->proto); }
void QSslConfiguration::setProtocol(QSsl::SslProtocol p) { d->proto = p; }
QSslSocket::PeerVerifyMode QSslConfiguration::peerVerifyMode() const { return QSslSocket::PeerVerifyMode(d->verify); }
void QSslConfiguration::setPeerVerifyMode(QSslSocket::PeerVerifyMode m) { d->verify = m; }
QList<QSslCertificate> QSslConfiguration::caCertificates() const { return d->ca; }
void QSslConfiguration::setCaCertificates(const QList<QSslCertificate> &l) { d->ca = l; }
QSslConfiguration QSslConfiguration::defaultConfiguration() { return QSslConfiguration(); }
