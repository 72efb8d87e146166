// C37: what the client library tells the application about errors and about the proxy.
#include "cl.h"
static const QUuid CLIENT(0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), SERVER(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12);
typedef TunnelProxyRemoteConnection RC; typedef TunnelProxySocketServer SS;
struct App {
    bool server; Kind kind; RC *c; SS *v; Sock *s; int ph, id, last; bool enabled; qint64 again; QList<int> got, want, sgot, swant; int slast, ups;
    App(bool server, Kind kind) : server(server), kind(kind), c(nullptr), v(nullptr), s(nullptr), ph(0), id(-1), last(-1), enabled(false), again(-1), slast(SS::ErrorNoError), ups(0)
    {
        if (server) {
            v = new SS(SERVER, "the server", kind >= Web ? SS::ConnectionTypeWebSocket : SS::ConnectionTypeTcpSocket); QObject::connect(v, &SS::errorOccurred, v, [this](QAbstractSocket::SocketError e) { vp_assert(v->error() == e, "error() differs from the error reported"); got.append(e); });
            QObject::connect(v, &SS::serverErrorOccurred, v, [this](SS::Error e) { vp_assert(v->serverError() == e, "serverError() differs from the error reported"); sgot.append(e); });
        } else { c = new RC(CLIENT, "the client", kind >= Web ? RC::ConnectionTypeWebSocket : RC::ConnectionTypeTcpSocket); QObject::connect(c, &RC::errorOccurred, c, [this](QAbstractSocket::SocketError e) { vp_assert(c->error() == e, "error() differs from the error reported"); got.append(e); }); }
    }
    int error() const { return server ? v->error() : c->error(); }
    void fresh() { Sock *n = sockOf(server ? (QObject *)v : (QObject *)c); vp_assert(n && n != s && n->connectRequested, "no connection attempt"); s = n; ph = 1; last = QAbstractSocket::UnknownSocketError; again = -1; }
    void open() { QUrl u = urlOf(kind); if (server) { vp_assert(v->startServer(u), "not started"); enabled = true; vp_assert(v->serverUrl() == u, "url"); } else { c->connectServer(u, SERVER); vp_assert(c->serverUrl() == u, "url"); } fresh(); }
    void error(int e) { if (e != last) want.append(e); last = e; }
    void serr(int e) { if (e != slast) swant.append(e); slast = e; }
    void lost() { if (server && ph >= 3) serr(SS::ErrorNotConnected); ph = 0; if (enabled) again = env_now() + 5000; }
    void request(const char *m) { QByteArray r = sent(s); int i = r.lastIndexOf('\n', r.size() - 2); QVariantMap q = json(r.mid(i + 1)); vp_assert(q.value("method").toString() == m, "another request expected"); id = q.value("id").toInt(); }
    void up() { env_connected(s); if (kind == Tls) { ph = 2; return; } hello(); }
    void hello() { ph = 3; slast = SS::ErrorNoError; request("RemoteProxy.Hello"); }
    static bool same(QList<int> a, QList<int> b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) { int k = b.indexOf(a.at(i)); if (k < 0) return false; b.removeAt(k); } return true; }
    void check(bool ordered = true)
    {
        vp_assert(got.size() >= want.size(), "error not reported"); vp_assert(got.size() == want.size(), "error reported that did not occur, or twice"); vp_assert(got == want, "another error reported"); vp_assert(error() == last, "error() is not the last error of the connection");
        if (server) { vp_assert(ordered ? sgot == swant : same(sgot, swant), sgot.size() < swant.size() ? "loss or rejection not reported" : "another server error reported"); if (!ordered && !sgot.isEmpty()) slast = sgot.last(); vp_assert(v->serverError() == slast, "serverError() is not the last server error"); if (ph == 5) vp_assert(v->serverError() == SS::ErrorNoError, "running in spite of an error"); }
        for (int i = 0; i < got.size(); i++) logi("error", got.at(i)); for (int i = 0; i < sgot.size(); i++) logi("servererror", sgot.at(i)); got.clear(); want.clear(); sgot.clear(); swant.clear();
    }
    // a: 0 accepted, 1 refused, 2 registration refused
    void answer(int a)
    {
        bool h = ph == 3; if (a == 0) { recv(s, h ? helloOk(id) : regOk(id)); if (h) { ph = 4; request(server ? "TunnelProxy.RegisterServer" : "TunnelProxy.RegisterClient"); } else { ph = 5; slast = SS::ErrorNoError; } env_run(); check(); return; }
        recv(s, a == 1 || h ? errAnswer(id) : regFail(id)); vp_assert(s->closedByCode, "transport not closed"); lost(); if (server) { swant.append(SS::ErrorConnectionError); slast = SS::ErrorConnectionError; } env_run(); check(false); vp_cover("refused by the proxy");
    }
};
static const int E[] = { QAbstractSocket::ConnectionRefusedError, QAbstractSocket::HostNotFoundError, QAbstractSocket::NetworkError, QAbstractSocket::SocketTimeoutError };
static void step(App &a)
{
    bool order = true;
    switch (vp_choice(8, "op")) {
    case 0: vp_assume(a.ph == 0 || a.ph == 3 || a.ph == 5); a.open(); break;
    case 1: { vp_assume(a.ph >= 1); int e = E[vp_choice(4, "error")]; env_error(a.s, e); a.error(e); vp_cover("network error"); break; }
    case 2: vp_assume(a.ph == 1); env_refused(a.s); a.error(QAbstractSocket::ConnectionRefusedError); a.lost(); break;
    case 3: vp_assume(a.ph == 1); a.up(); break;
    case 4: vp_assume(a.ph == 2); env_encrypted(a.s); a.hello(); break;
    case 5: { vp_assume(a.ph == 3 || a.ph == 4); a.answer(vp_choice(a.ph == 3 ? 2 : 3, "answer")); break; }
    case 6: vp_assume(a.ph >= 2); env_peer_close(a.s); a.error(QAbstractSocket::RemoteHostClosedError); a.lost(); break;
    case 7: vp_assume(a.ph >= 2); if (a.server) { a.enabled = false; a.v->stopServer(); } else a.c->disconnectServer(); a.lost(); a.again = -1; break;
    }
    env_run(); a.check(order); if (a.again >= 0 && vp_bool("wait")) { env_advance(5000); a.fresh(); a.check(); vp_cover("tried again"); }
}
extern "C" void histories()
{
    bool server = vp_bool("server"); App a(server, (Kind)vp_choice(4, "kind")); a.open(); a.check(); int n = (int)vp_param("steps", 4); for (int i = 0; i < n; i++) step(a);
}
// with an established connection
extern "C" void established()
{
    bool server = vp_bool("server"); App a(server, (Kind)vp_choice(4, "kind")); a.open(); a.up(); if (a.kind == Tls) { env_encrypted(a.s); a.hello(); } a.check(); a.answer(0); a.answer(0); int n = (int)vp_param("steps", 2); for (int i = 0; i < n; i++) step(a);
}
// what the proxy says about itself
extern "C" void identity()
{
    bool server = vp_bool("server"); App a(server, (Kind)vp_choice(4, "kind")); a.open(); a.up(); if (a.kind == Tls) { env_encrypted(a.s); a.hello(); }
    QByteArray t[4]; for (int i = 0; i < 4; i++) { QByteArray d = symBytes((int)vp_param("len", 2), "text"); for (int k = 0; k < d.size(); k++) { uint8_t b = d.at(k); vp_assume(b >= 32 && b < 127 && b != '"' && b != '\\'); } t[i] = d; }
    recv(a.s, "{\"id\":" + num(a.id) + ",\"params\":{\"apiVersion\":\"" + t[0] + "\",\"name\":\"" + t[1] + "\",\"server\":\"" + t[2] + "\",\"version\":\"" + t[3] + "\"},\"status\":\"success\"}\n"); a.ph = 4;
    QString g[4]; if (server) { g[0] = a.v->remoteProxyApiVersion(); g[1] = a.v->remoteProxyServerName(); g[2] = a.v->remoteProxyServer(); g[3] = a.v->remoteProxyServerVersion(); } else { g[0] = a.c->remoteProxyApiVersion(); g[1] = a.c->remoteProxyServerName(); g[2] = a.c->remoteProxyServer(); g[3] = a.c->remoteProxyServerVersion(); }
    for (int i = 0; i < 4; i++) { vp_assert(eqBytes(g[i].toLatin1(), t[i]), "not what the proxy said about itself"); logb("said", g[i].toLatin1()); } a.check(); vp_cover("identity");
}
