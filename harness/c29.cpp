// C29: the client library and the proxy together, joined by two byte streams per connection.
#include "proxy.h"
#include "leak.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
using remoteproxyclient::TunnelProxyRemoteConnection; using remoteproxyclient::TunnelProxySocketServer; using remoteproxyclient::TunnelProxySocket;
enum Kind { Plain, Tls, Web };
enum { CLIENTS = 2 };
static bool secure; // TLS
// one network connection: a at the library, b at the proxy
struct Link {
    Kind k; const QObject *lib; Sock *a, *b; int pa, pb;
    Sock *newest() const { Sock *r = nullptr; for (int i = 0; i < env_socks().size(); i++) { QObject *x = env_socks().at(i)->o; if (x && x->parent() && x->parent()->parent() == lib) r = env_socks().at(i); } return r; }
    void dial(bool first = true)
    {
        a = newest(); vp_assert(a && a->connectRequested && a->state == QAbstractSocket::ConnectingState, "no connection attempt"); pa = pb = 0; b = k == Web ? env_incoming_web(2212) : env_incoming_tcp(2213); vp_assert(b != nullptr, "proxy does not listen"); env_connected(a);
        if (k == Tls) { env_encrypted(first ? a : b); env_encrypted(first ? b : a); }
    }
    int waiting(bool up) const { Sock *f = up ? a : b; if (!f) return 0; return (k == Web ? f->msgs.size() : f->tx.size()) - (up ? pa : pb); }
    bool relay(bool up, int n = -1)
    {
        int w = waiting(up); if (w <= 0) return false; Sock *f = up ? a : b, *t = up ? b : a; int &p = up ? pa : pb; if (n < 0 || n > w) n = w;
        if (k == Web) { env_text(t, f->msgs.at(p++)); return true; }
        QByteArray d = f->tx.mid(p, n); p += n; env_feed(t, d); return true;
    }
    static bool gone(Sock *s) { return !s->o || s->state == QAbstractSocket::UnconnectedState; }
    static bool open(Sock *s) { return s->o && s->state == QAbstractSocket::ConnectedState; }
    bool close() { if (!a || !b) return false; if (gone(a) && open(b) && waiting(true) <= 0) { env_peer_close(b); return true; } if (gone(b) && open(a) && waiting(false) <= 0) { env_peer_close(a); return true; } return false; }
    void cut() { if (open(a)) env_peer_close(a); if (open(b)) env_peer_close(b); }
};
struct End { QByteArray sent, got; }; // bytes handed to / by the library at one end of a tunnel
struct Net {
    TunnelProxySocketServer *v; TunnelProxyRemoteConnection *c[CLIENTS]; TunnelProxySocket *s[CLIENTS]; Link l[1 + CLIENTS]; // the server first
    End ce[CLIENTS], se[CLIENTS]; int up[CLIENTS], down[CLIENTS], ann[CLIENTS], sdown[CLIENTS], gone[CLIENTS], run, stop; bool frozen[1 + CLIENTS];
    static QUuid cu(int i) { return QUuid(0xa1 + i, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); }
    static QUuid su() { return QUuid(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12); }
    static QUrl url(Kind k) { QUrl u; u.setScheme(k == Plain ? "tcp" : k == Tls ? "ssl" : secure ? "wss" : "ws"); u.setHost("127.0.0.1"); u.setPort(k == Web ? 2212 : 2213); return u; }
    Net(Kind sk, Kind ck) : run(0), stop(0)
    {
        ProxyConfiguration *cfg = testConfig(); cfg->setSslEnabled(sk == Tls); Engine::instance()->start(cfg); env_run();
        for (int i = 0; i <= CLIENTS; i++) { l[i].k = i ? ck : sk; l[i].a = l[i].b = nullptr; l[i].pa = l[i].pb = 0; frozen[i] = false; }
        v = sk == Tls ? new TunnelProxySocketServer(su(), "the server", TunnelProxySocketServer::ConnectionTypeTcpSocket) : new TunnelProxySocketServer(su(), "the server"); l[0].lib = v;
        QObject::connect(v, &TunnelProxySocketServer::runningChanged, v, [this](bool r) { vp_assert(v->running() == r, "signal and state differ"); if (r) run++; else stop++; });
        QObject::connect(v, &TunnelProxySocketServer::clientConnected, v, [this](TunnelProxySocket *x) {
            int i = -1; for (int k = 0; k < CLIENTS; k++) if (x->clientUuid() == cu(k)) i = k; vp_assert(i >= 0, "client announced that does not exist"); vp_assert(x->clientName() == QString("client %1").arg(i), "client announced with another name"); vp_assert(ann[i] == gone[i], "client announced twice"); ann[i]++; s[i] = x; se[i] = End();
            QObject::connect(x, &TunnelProxySocket::dataReceived, v, [this, i, x](const QByteArray &d) { vp_assert(s[i] == x && ann[i] == gone[i] + 1, "data of a disconnected client"); se[i].got += d; });
            QObject::connect(x, &TunnelProxySocket::disconnected, v, [this, i]() { sdown[i]++; });
        });
        QObject::connect(v, &TunnelProxySocketServer::clientDisconnected, v, [this](TunnelProxySocket *x) { int i = -1; for (int k = 0; k < CLIENTS; k++) if (s[k] == x) i = k; vp_assert(i >= 0 && ann[i] == gone[i] + 1, "client reported disconnected twice"); vp_assert(!x->connected(), "reported disconnected while it is not"); gone[i]++; });
        for (int i = 0; i < CLIENTS; i++) {
            s[i] = nullptr; up[i] = down[i] = ann[i] = sdown[i] = gone[i] = 0; QString name = QString("client %1").arg(i); c[i] = ck == Web ? new TunnelProxyRemoteConnection(cu(i), name, TunnelProxyRemoteConnection::ConnectionTypeWebSocket) : new TunnelProxyRemoteConnection(cu(i), name); l[1 + i].lib = c[i];
            QObject::connect(c[i], &TunnelProxyRemoteConnection::remoteConnectedChanged, c[i], [this, i](bool r) { vp_assert(c[i]->remoteConnected() == r, "signal and state differ"); if (r) { up[i]++; ce[i] = End(); } else down[i]++; });
            QObject::connect(c[i], &TunnelProxyRemoteConnection::dataReady, c[i], [this, i](const QByteArray &d) { vp_assert(c[i]->remoteConnected(), "data while not remotely connected"); ce[i].got += d; });
        }
    }
    void settle() { for (;;) { env_run(); bool m = false; for (int i = 0; i <= CLIENTS; i++) if (!frozen[i]) { m |= l[i].relay(true); m |= l[i].relay(false); m |= l[i].close(); } if (!m) return; } }
    void pass(qint64 ms, qint64 step = 1000) { while (ms > 0) { qint64 t = ms < step ? ms : step; env_advance(t); ms -= t; settle(); } }
    void startServer(bool first = true) { vp_assert(v->startServer(url(l[0].k)), "startServer"); env_run(); l[0].dial(first); }
    void startClient(int i, bool first = true) { vp_assert(c[i]->connectServer(url(l[1 + i].k), su()), "connectServer"); env_run(); l[1 + i].dial(first); }
    void setup() { startServer(); settle(); vp_assert(v->running() && run == 1, "socket server not running"); for (int i = 0; i < CLIENTS; i++) { startClient(i); settle(); linked(i); } }
    bool tunnel(int i) const { return c[i]->remoteConnected(); }
    void linked(int i) { vp_assert(c[i]->remoteConnected() && up[i] == down[i] + 1, "client not remotely connected"); vp_assert(ann[i] == gone[i] + 1 && s[i]->connected(), "client not announced"); }
    void unlinked(int i) { vp_assert(!c[i]->remoteConnected() && c[i]->state() == TunnelProxyRemoteConnection::StateDisconnected && up[i] == down[i], "client did not learn the disconnection exactly once"); vp_assert(ann[i] == gone[i] && sdown[i] == gone[i], "server did not learn the disconnection exactly once"); }
    void clientSends(int i, const QByteArray &d) { if (c[i]->sendData(d)) { vp_assert(tunnel(i), "sendData succeeds while not connected"); ce[i].sent += d; } else vp_assert(!tunnel(i), "sendData fails"); }
    void serverSends(int i, const QByteArray &d) { if (!s[i] || ann[i] != gone[i] + 1) return; s[i]->writeData(d); se[i].sent += d; }
    void complete(int i) { vp_assert(eqBytes(ce[i].sent, se[i].got), "bytes of the client differ at the server"); vp_assert(eqBytes(se[i].sent, ce[i].got), "bytes of the server differ at the client"); }
    static bool prefix(const QByteArray &all, const QByteArray &p) { return p.size() <= all.size() && eqBytes(all.left(p.size()), p); }
    void partial(int i) { vp_assert(prefix(ce[i].sent, se[i].got), "server received something the client did not send"); vp_assert(prefix(se[i].sent, ce[i].got), "client received something the server did not send"); }
    void log() { for (int i = 0; i < CLIENTS; i++) { logb("cgot", ce[i].got); logb("sgot", se[i].got); logi("up", up[i]); logi("down", down[i]); logi("gone", gone[i]); } }
};
static QByteArray some(Kind k, const char *name) { QByteArray d = symBytes(1, name); if (k == Web) vp_assume((uint8_t)d.at(0) < 128 && d.at(0)); return d; }
static Kind serverKind() { return secure ? Tls : Plain; }
static Kind clientKind() { secure = vp_choice(2, "tls"); int k = vp_choice(2, "web"); return k ? Web : serverKind(); }
// anything sent in either direction, moved in pieces of any order
extern "C" void transfer()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.setup(); int steps = (int)vp_param("steps", 4);
    for (int i = 0; i < steps; i++) {
        int w = vp_choice(CLIENTS, "who");
        switch (vp_choice(4, "op")) {
        case 0: { QByteArray d = some(ck, "up"); if (vp_bool("two")) d.append("\n"); n.clientSends(w, d); break; }
        case 1: { QByteArray d = some(ck, "down"); n.serverSends(w, d); break; }
        case 2: { bool up = vp_bool("serverUp"); vp_assume(n.l[0].waiting(up)); n.l[0].relay(up, vp_bool("all") ? -1 : n.l[0].waiting(up) - 1 > 0 ? n.l[0].waiting(up) - 1 : 1); vp_cover("part of the stream of the server"); break; }
        case 3: { bool up = vp_bool("clientUp"); vp_assume(n.l[1 + w].waiting(up)); n.l[1 + w].relay(up, 1); vp_cover("part of the stream of a client"); break; }
        }
        for (int k = 0; k < CLIENTS; k++) n.partial(k);
    }
    n.settle(); for (int k = 0; k < CLIENTS; k++) { n.linked(k); n.complete(k); if (n.ce[k].got.size() && n.se[k].got.size()) vp_cover("both directions"); } vp_assert(n.run == 1 && !n.stop, "server disturbed"); n.log();
}
// the streams of one connection are cut anywhere while it is established
extern "C" void establish()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); int which = vp_choice(2, "which"); bool up = vp_bool("up"), first = secure && vp_bool("first"); int msg = vp_choice(2, "message"); vp_assume(which == 0 || ck != Web); n.frozen[which] = true;
    n.startServer(first); if (which == 0) n.frozen[0] = true; else n.settle(); if (which) n.startClient(0, first);
    Link &l = n.l[which]; for (int r = 0; r < 2; r++) for (int d = 0; d < 2; d++) { // Hello, registration: request and answer
        bool u = d == 0; n.settle(); int w = l.waiting(u); vp_assert(w > 0, "no message");  if (r == msg && u == up) { int e = (int)vp_param("every", 3), at = vp_choice((w - 1 + e - 1) / e, "cut") * e + 1; Sock *f = u ? l.a : l.b; int p = u ? l.pa : l.pb; if (u) vp_assume(f->tx.at(p + at - 1) != '}'); l.relay(u, at); env_run(); vp_cover("message in two parts"); } l.relay(u); }
    n.frozen[which] = false; n.settle(); vp_assert(n.v->running(), "socket server not running"); for (int i = 0; i < CLIENTS; i++) if (!n.tunnel(i)) { n.startClient(i); n.settle(); } for (int i = 0; i < CLIENTS; i++) n.linked(i);
    QByteArray a = some(ck, "a"), b = some(ck, "b"); n.clientSends(0, a); n.serverSends(0, b); n.serverSends(1, a); n.settle(); for (int i = 0; i < CLIENTS; i++) n.complete(i); n.log();
}
// the first data of a tunnel: sent as soon as the client is connected, by the server as soon as the client is announced
extern "C" void fresh()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.startServer(); n.settle(); QByteArray a = some(ck, "a"), b = some(ck, "b"), x = some(ck, "x"); bool inSlot = vp_bool("inSlot"), greet = vp_bool("greet"), two = vp_bool("two");
    if (inSlot) for (int i = 0; i < CLIENTS; i++) QObject::connect(n.c[i], &TunnelProxyRemoteConnection::remoteConnectedChanged, n.c[i], [&n, a, i](bool r) { if (r) n.clientSends(i, a); });
    if (greet) QObject::connect(n.v, &TunnelProxySocketServer::clientConnected, n.v, [&n, x](TunnelProxySocket *s) { for (int i = 0; i < CLIENTS; i++) if (n.s[i] == s) n.serverSends(i, x); });
    n.frozen[0] = true; n.startClient(0); n.settle(); vp_assert(n.tunnel(0), "client not remotely connected"); if (!inSlot) n.clientSends(0, a); if (two) { n.clientSends(0, b); n.startClient(1); } n.settle();
    int w = n.l[0].waiting(false); vp_assert(w > 0, "no announcement"); int e = (int)vp_param("every", 40), at = vp_choice((w + e - 1) / e, "cut") * e; if (at) { n.l[0].relay(false, at); env_run(); vp_cover("announcement and first data in two reads"); } else vp_cover("announcement and first data in one read");
    n.l[0].relay(false); n.frozen[0] = false; n.settle(); n.linked(0); n.complete(0); if (two) { n.linked(1); n.complete(1); if (inSlot) vp_cover("two clients announced at once"); } n.log();
}
// one end leaves while data is on its way
extern "C" void leave()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.setup(); QByteArray d = some(ck, "d"); int before = vp_choice(5, "before"); bool sup = vp_bool("relayServer"), cup = vp_bool("relayClient");
    n.clientSends(0, d); n.serverSends(0, d); n.clientSends(1, d); n.serverSends(1, d); if (before & 1) n.l[1].relay(true); if (before & 2) n.l[0].relay(true, before & 1 ? 3 : -1); if (before & 4) n.l[0].relay(false);
    int how = vp_choice(6, "how"); bool all = false; switch (how) {
    case 0: n.c[0]->disconnectServer(); vp_cover("the client disconnects"); break;
    case 1: n.s[0]->disconnectSocket(); vp_cover("the server disconnects the client"); break;
    case 2: n.v->stopServer(); all = true; vp_cover("the server stops"); break;
    case 3: n.l[1].cut(); vp_cover("the connection of the client is lost"); break;
    case 4: n.l[0].cut(); all = true; vp_cover("the connection of the server is lost"); break;
    case 5: delete n.c[0]; n.c[0] = nullptr; vp_cover("the client is deleted"); break;
    }
    if (cup) { if (how != 5) n.clientSends(0, "x"); n.l[1].relay(true, 1); } if (sup) { n.serverSends(0, "yy"); n.l[0].relay(true); }
    n.settle();
    if (how == 5) { vp_assert(n.ann[0] == 1 && n.gone[0] == 1 && n.sdown[0] == 1, "server did not learn the disconnection exactly once"); } else n.unlinked(0);
    n.partial(0); if (how == 0) vp_assert(eqBytes(n.se[0].got, n.ce[0].sent), "bytes sent before the disconnection are missing"); if (how == 1) vp_assert(eqBytes(n.ce[0].got, n.se[0].sent.left(n.ce[0].got.size())) && n.ce[0].got.size() >= 1, "bytes sent before the disconnection are missing");
    if (all) { n.unlinked(1); n.partial(1); vp_assert(n.stop == 1 && !n.v->running(), "server did not learn the disconnection exactly once"); }
    else { n.linked(1); n.clientSends(1, "z"); n.serverSends(1, "z"); n.settle(); n.complete(1); vp_assert(n.run == 1 && !n.stop, "server disturbed"); }
    if (how != 5 && !all) { n.startClient(0); n.settle(); n.linked(0); n.clientSends(0, d); n.serverSends(0, d); n.settle(); n.complete(0); n.complete(1); vp_cover("connected again"); }
    n.log();
}
// minutes without data
extern "C" void idle()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.setup(); int minutes = (int)vp_param("minutes", 4), at = vp_choice(4, "at"); bool up = vp_bool("up"); QByteArray d = some(ck, "d");
    for (int i = 0; i < minutes * 4; i++) { n.pass(15000, 5000); if (i == at) { if (up) n.clientSends(0, d); else n.serverSends(1, d); } for (int k = 0; k < CLIENTS; k++) n.linked(k); vp_assert(n.run == 1 && !n.stop, "connection of the server lost while idle"); }
    n.clientSends(1, d); n.serverSends(0, d); n.settle(); for (int k = 0; k < CLIENTS; k++) n.complete(k); vp_cover("idle"); n.log();
}
// the connection of the server is lost, at both ends or noticed by the library only
extern "C" void again()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.setup(); bool half = vp_bool("half"); int wait = vp_choice(3, "wait"); n.pass(wait == 0 ? 1 : wait == 1 ? 4000 : 33000, 5000); Sock *old = n.l[0].b; QByteArray d = some(ck, "d");
    if (half) { env_peer_close(n.l[0].a); n.l[0].b = nullptr; n.l[0].a = nullptr; } else n.l[0].cut(); n.settle(); vp_assert(!n.v->running() && n.stop == 1, "loss not reported"); if (!half) for (int i = 0; i < CLIENTS; i++) n.unlinked(i);
    int tries = 0; for (int t = 0; t < 90 && !n.v->running(); t++) { env_advance(1000); n.settle(); Sock *x = n.l[0].newest(); if (x && x != n.l[0].a && x->state == QAbstractSocket::ConnectingState) { n.l[0].dial(); n.settle(); tries++; } }
    vp_assert(n.v->running() && n.run == 2, "server not available again"); if (!half) vp_assert(tries == 1, "more than one attempt"); else { vp_assert(Link::gone(old), "two connections for one server"); vp_cover("proxy did not notice the loss"); }
    for (int i = 0; i < CLIENTS; i++) { n.unlinked(i); n.startClient(i); n.settle(); n.linked(i); n.clientSends(i, d); n.serverSends(i, d); } n.settle(); for (int i = 0; i < CLIENTS; i++) n.complete(i); vp_cover("available again"); n.log();
}
// many and long messages
extern "C" void amounts()
{
    Kind ck = clientKind(); Net n(serverKind(), ck); n.setup(); QByteArray d = longBytes((int)vp_param("few", 1), ck == Web || vp_param("few", 1)); int r = readSize(d.size(), (int)vp_param("few", 1)); if (r * 40 < d.size()) r = d.size() / 40 + 1; n.clientSends(0, d); n.serverSends(0, d); n.serverSends(1, "short"); n.clientSends(1, "short");
    for (int i = 0; i <= CLIENTS; i++) n.frozen[i] = true; for (bool m = true; m;) { m = false; env_run(); for (int i = 0; i <= CLIENTS; i++) { m |= n.l[i].relay(true, r); m |= n.l[i].relay(false, r); } } for (int i = 0; i <= CLIENTS; i++) n.frozen[i] = false;
    n.settle(); for (int k = 0; k < CLIENTS; k++) { n.linked(k); n.complete(k); } vp_cover("complete"); logi("n", d.size());
}
