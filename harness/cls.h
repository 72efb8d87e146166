// Model of a tunnel socket server of the client library.
#pragma once
#include "cl.h"
static const QUuid SERVER(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12);
struct TSock { TunnelProxySocket *o; int address, gone, discSig, stateSig; QList<QByteArray> got, want; };
struct ServerModel {
    Kind kind; TunnelProxySocketServer *v; Sock *s; int ph; // 0 none 1 connecting 2 TLS handshake 3 Hello sent 4 RegisterServer sent 5 running 6 closing while connecting
    bool enabled; int id, tunnel; qint64 reconnectAt, pingAt; int runUp, runDown, wUp, wDown, connSig, discSig; QList<TSock *> k; QByteArray out; int tries, wtries, pings; bool checkPings;
    static TunnelProxySocketServer *create(Kind kind) { return kind == Plain ? new TunnelProxySocketServer(SERVER, "the server") : new TunnelProxySocketServer(SERVER, "the server", kind >= Web ? TunnelProxySocketServer::ConnectionTypeWebSocket : TunnelProxySocketServer::ConnectionTypeTcpSocket); }
    ServerModel(Kind kind, TunnelProxySocketServer *server = nullptr) : kind(kind), v(server ? server : create(kind)), s(nullptr), ph(0), enabled(false), id(-1), tunnel(0), reconnectAt(-1), pingAt(-1), runUp(0), runDown(0), wUp(0), wDown(0), connSig(0), discSig(0), tries(0), wtries(0), pings(0), checkPings(true)
    {
        QObject::connect(v, &TunnelProxySocketServer::runningChanged, v, [this](bool r) { vp_assert(v->running() == r, "signal and state differ"); if (r) runUp++; else runDown++; });
        QObject::connect(v, &TunnelProxySocketServer::clientConnected, v, [this](TunnelProxySocket *x) { TSock *t = new TSock; t->o = x; t->address = x->socketAddress(); t->gone = t->discSig = t->stateSig = 0; k.append(t); connSig++; vp_assert(x->connected(), "new socket not connected"); QObject::connect(x, &TunnelProxySocket::dataReceived, v, [this, t](const QByteArray &d) { vp_assert(t->discSig == 0, "data after the disconnection"); if (d.size()) t->got.append(d); }); QObject::connect(x, &TunnelProxySocket::disconnected, v, [t]() { vp_assert(!t->o->connected(), "still connected"); t->discSig++; }); QObject::connect(x, &TunnelProxySocket::connectedChanged, v, [t](bool c) { vp_assert(!c, "connected again"); t->stateSig++; }); });
        QObject::connect(v, &TunnelProxySocketServer::clientDisconnected, v, [this](TunnelProxySocket *x) { int f = -1; for (int i = 0; i < k.size(); i++) if (k.at(i)->o == x && !k.at(i)->gone) f = i; vp_assert(f >= 0, "socket reported disconnected twice or never announced"); k.at(f)->gone = 1; discSig++; });
    }
    TSock *live(int address) const { for (int i = 0; i < k.size(); i++) if (!k.at(i)->gone && k.at(i)->address == address) return k.at(i); return nullptr; }
    int liveCount() const { int n = 0; for (int i = 0; i < k.size(); i++) n += !k.at(i)->gone; return n; }
    QByteArray all(const QList<QByteArray> &l) const { QByteArray r; for (int i = 0; i < l.size(); i++) r += l.at(i); return r; }
    Sock *current() const { return sockOf(v); }
    void check()
    {
        vp_assert(v->running() == (ph == 5), ph == 5 ? "not running although registered" : "running without a successful registration"); vp_assert((v->state() == TunnelProxySocketServer::StateRunning) == (ph == 5), "state"); vp_assert(runUp == wUp && runDown == wDown, "runningChanged emissions");
        for (int i = 0; i < k.size(); i++) { vp_assert(k.at(i)->discSig == k.at(i)->gone && k.at(i)->stateSig == k.at(i)->gone, "disconnection signals of the socket"); vp_assert(k.at(i)->got.size() == k.at(i)->want.size(), "frames delivered to the socket"); for (int j = 0; j < k.at(i)->want.size(); j++) vp_assert(eqBytes(k.at(i)->got.at(j), k.at(i)->want.at(j)), "data delivered to the socket differs"); }
        if (ph != 5) vp_assert(liveCount() == 0, "socket not reported disconnected although the connection is lost");
        if (ph == 0) { vp_assert(v->state() == TunnelProxySocketServer::StateDisconnected, "not reported disconnected"); if (s) vp_assert(!s->o || s->state == 0 || s->closePending, "transport left open"); }
        else if (ph != 6) { vp_assert(s && s->o, "no transport"); vp_assert(s->state == (ph == 1 ? QAbstractSocket::ConnectingState : QAbstractSocket::ConnectedState), "transport closed without reason"); vp_assert(v->state() != TunnelProxySocketServer::StateDisconnected, "reported disconnected while it is not"); }
        if (s && s->o && ph >= 3 && ph <= 4) vp_assert(sent(s).size() == tunnel, "sent although not running");
        if (s && s->o && ph == 5 && checkPings) { takePings(); vp_assert(sent(s).size() == tunnel, "sent something nobody asked for"); }
        if (ph == 5) vp_assert(v->remoteProxyServerName() == "proxy" && v->remoteProxyServer() == "nymea-remoteproxy" && v->remoteProxyServerVersion() == "1.2.3" && v->remoteProxyApiVersion() == "0.3", "information about the proxy");
    }
    // requests in frames since the last look, Pings only
    int webSeen = 0; // messages seen: frames do not survive text messages (see C17), only their number is known
    int takePings() { int n = 0; if (kind >= Web) { n = s->msgs.size() - webSeen; webSeen = s->msgs.size(); tunnel = sent(s).size(); pings += n; return n; } QByteArray r = sent(s).mid(tunnel); tunnel += r.size(); QList<Fr> l = frames(r); for (int i = 0; i < l.size(); i++) { vp_assert(l.at(i).address == 0, "frame nobody asked for"); QVariantMap m = json(l.at(i).data); vp_assert(m.value("method").toString() == "TunnelProxy.Ping", "unexpected request"); id = m.value("id").toInt(); n++; } pings += n; return n; }
    void request(const char *method)
    {
        QByteArray r = sent(s).mid(tunnel); tunnel += r.size(); vp_assert(r.endsWith("\n"), "request not terminated"); QVariantMap m = json(r); vp_assert(m.value("method").toString() == method, "another request expected"); vp_assert(m.contains("id"), "request without id"); id = m.value("id").toInt();
        if (ph == 4) { QVariantMap p = m.value("params").toMap(); vp_assert(QUuid(p.value("serverUuid").toString()) == SERVER && p.value("serverName").toString() == "the server", "registered with other data"); }
    }
    void lost() { if (ph == 5) wDown++; ph = 0; pingAt = -1; if (enabled) reconnectAt = env_now() + 5000; }
    void attempt() { Sock *n = current(); vp_assert(n && n != s && n->connectRequested, "no connection attempt"); s = n; vp_assert(s->port == 2213 && (s->kind == Sock::Web) == (kind >= Web) && (s->kind == Sock::Web || s->clientEnc == (kind == Tls)), "connects elsewhere"); tunnel = 0; ph = 1; reconnectAt = -1; pingAt = -1; }
    void start() { if (ph == 5) wDown++; vp_assert(v->startServer(urlOf(kind)), "startServer"); enabled = true; attempt(); }
    void stop() { enabled = false; reconnectAt = -1; v->stopServer(); if (kind >= Web && ph == 1) ph = 6; else if (ph != 6) lost(); }
    void transportUp() { env_connected(s); if (kind == Tls) { ph = 2; return; } ph = 3; request("RemoteProxy.Hello"); }
    void encrypted() { env_encrypted(s); ph = 3; request("RemoteProxy.Hello"); }
    void rx(const QByteArray &d) { recv(s, d); }
    void answer(int a)
    {
        bool hello = ph == 3; switch (a) {
        case 0: rx(hello ? helloOk(id) : regOk(id)); if (hello) { ph = 4; request("TunnelProxy.RegisterServer"); webSeen = s->msgs.size(); } else { ph = 5; wUp++; pingAt = env_now() + 30000; } break;
        case 1: rx(errAnswer(id)); vp_assert(s->closedByCode, "transport not closed after an error"); lost(); break;
        case 2: if (hello) { rx(errAnswer(id + 5)); break; } rx(regFail(id)); vp_assert(s->closedByCode, "transport not closed after a failed registration"); lost(); break;
        case 3: rx(hello ? helloOk(id + 3) : regOk(id + 3)); break;
        case 4: rx((hello ? errAnswer(id) : regFail(id)) + helloOk(id) + regOk(id + 1) + slip(0, connectedNote(1)) + "tail"); vp_assert(s->closedByCode, "transport not closed after an error with more behind it"); lost(); break;
        }
    }
    void frame(int address, const QByteArray &d) { rx(slip(address, d)); pingAt = env_now() + 30000; }
    void client(int address) { int n = k.size(); frame(0, connectedNote(address)); vp_assert(k.size() == n + 1 && connSig == n + 1, "client not announced exactly once"); TSock *t = k.last(); vp_assert(t->address == address && t->o->clientName() == "client" && t->o->clientUuid() == QUuid(10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) && t->o->clientPeerAddress() == QHostAddress("10.0.0.9"), "client announced with other data"); }
    void left(int address) { TSock *t = live(address); int n = discSig; frame(0, disconnectedNote(address)); vp_assert(discSig == n + (t ? 1 : 0) && (!t || t->gone), "client not reported disconnected"); }
    void data(int address, const QByteArray &d) { TSock *t = live(address); frame(address, d); if (t) t->want.append(d); }
    void send(TSock *t, const QByteArray &d) { t->o->writeData(d); QByteArray r = sent(s).mid(tunnel), w = slip(t->address, d); tunnel += r.size(); vp_assert(eqBytes(r, w), "data written to a socket is not sent as its frame"); }
    void walk(int to) { if (to < 1) return; start(); if (to < 2) return; transportUp(); if (kind == Tls) { if (to < 3) return; encrypted(); } if (to < 4) return; answer(0); if (to < 5) return; answer(0); check(); }
    // virtual time, up to the next thing the server has to do by itself
    void pass(qint64 ms)
    {
        while (ms > 0) {
            qint64 next = env_now() + ms; if (reconnectAt >= 0 && reconnectAt < next) next = reconnectAt; if (pingAt >= 0 && pingAt < next) next = pingAt; int n = attempts(); ms -= next - env_now();
            if (next > env_now() + 1) { env_advance(next - env_now() - 1); quiet(n); } if (next > env_now()) env_advance(next - env_now());
            if (reconnectAt >= 0 && env_now() >= reconnectAt) attempt(); else vp_assert(attempts() == n, "connects again without reason");
            if (pingAt >= 0 && env_now() >= pingAt) { vp_assert(takePings() == 1, "no Ping after 30 seconds without data"); pingAt = env_now() + 30000; }
        }
    }
    void quiet(int n) { vp_assert(attempts() == n, "connects again without reason"); if (ph == 5) vp_assert(takePings() == 0, "Ping without reason"); }
};
