// C33: trust in the proxy's certificate, and where the client library connects to.
#include "cl.h"
static const QUuid CLIENT(0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), SERVER(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12);
static const QSslError::SslError ERR[] = { QSslError::SelfSignedCertificate, QSslError::HostNameMismatch, QSslError::CertificateExpired };
static QList<QSslError> errs(int mask) { QList<QSslError> l; for (int i = 0; i < 3; i++) if (mask >> i & 1) l.append(QSslError(ERR[i])); return l; }
static QList<QSslError> first(const QList<QSslError> &l) { QList<QSslError> r; r.append(l.at(0)); return r; }
enum { Nothing, All, Given, First, NPOLICY };
// an application, with either kind of object
struct App {
    bool server; TunnelProxyRemoteConnection *c; TunnelProxySocketServer *v; int policy, up; QList<QList<QSslError> > seen; Sock *s;
    App(bool server, bool web, int policy) : server(server), c(nullptr), v(nullptr), policy(policy), up(0), s(nullptr)
    {
        if (server) { v = new TunnelProxySocketServer(SERVER, "the server", web ? TunnelProxySocketServer::ConnectionTypeWebSocket : TunnelProxySocketServer::ConnectionTypeTcpSocket); QObject::connect(v, &TunnelProxySocketServer::sslErrors, v, [this](const QList<QSslError> &l) { on(l); }); }
        else { c = new TunnelProxyRemoteConnection(CLIENT, "the client", web ? TunnelProxyRemoteConnection::ConnectionTypeWebSocket : TunnelProxyRemoteConnection::ConnectionTypeTcpSocket); QObject::connect(c, &TunnelProxyRemoteConnection::sslErrors, c, [this](const QList<QSslError> &l) { on(l); }); }
    }
    void ignore(const QList<QSslError> *l) { if (server) { if (l) v->ignoreSslErrors(*l); else v->ignoreSslErrors(); } else if (l) c->ignoreSslErrors(*l); else c->ignoreSslErrors(); }
    void on(const QList<QSslError> &l) { seen.append(l); if (policy == All) ignore(nullptr); else if (policy == Given) ignore(&l); else if (policy == First) { QList<QSslError> f = first(l); ignore(&f); } }
    void open(const QUrl &u) { if (server) v->startServer(u); else c->connectServer(u, SERVER); take(); }
    void take() { Sock *n = sockOf(server ? (QObject *)v : (QObject *)c); vp_assert(n && n != s && n->connectRequested, "no connection attempt"); s = n; vp_assert(!s->ignoreErrors && s->ignored.isEmpty(), "certificate errors ignored before there are any"); }
    bool disconnected() const { return server ? v->state() == TunnelProxySocketServer::StateDisconnected : c->state() == TunnelProxyRemoteConnection::StateDisconnected; }
    bool ready() const { return server ? v->running() : c->remoteConnected(); }
    void trustKept() const { vp_assert(!s->sslSet || (s->ssl.peerVerifyMode() != QSslSocket::VerifyNone && s->ssl.peerVerifyMode() != QSslSocket::QueryPeer), "certificate of the proxy not verified"); vp_assert(s->ssl.peerVerifyMode() == QSslConfiguration::defaultConfiguration().peerVerifyMode() || s->ssl.peerVerifyMode() == QSslSocket::VerifyPeer || s->ssl.peerVerifyMode() == QSslSocket::AutoVerifyPeer, "certificate of the proxy not verified"); }
    void silent() const { vp_assert(sent(s).isEmpty(), "sent before the connection is secure"); vp_assert(!ready(), "ready before the connection is secure"); trustKept(); }
};
static Kind kindOf(bool web) { return web ? WebTls : Tls; }
// TLS handshake as in QSslSocket: certificate errors end it unless they are ignored
static bool handshake(App &a, const QList<QSslError> &l)
{
    Sock *s = a.s; int n = a.seen.size(); a.silent(); if (s->kind == Sock::Tcp) { env_connected(s); a.silent(); } if (vp_bool("slow")) { env_advance(1500); a.silent(); }
    if (!l.isEmpty()) {
        env_ssl_errors(s, l); vp_assert(a.seen.size() == n + 1 && a.seen.last() == l, "certificate errors not reported as they are"); a.silent();
        switch (a.policy) { case Nothing: vp_assert(!s->ignoreErrors && s->ignored.isEmpty(), "certificate errors ignored without being asked to"); break; case All: vp_assert(s->ignoreErrors || s->ignored == l, "errors not ignored although asked to"); break; case Given: vp_assert(!s->ignoreErrors && s->ignored == l, "other errors ignored than asked to"); break; case First: vp_assert(!s->ignoreErrors && s->ignored == first(l), "other errors ignored than asked to"); break; }
        bool ok = s->ignoreErrors; if (!ok) { ok = true; for (int i = 0; i < l.size(); i++) ok = ok && s->ignored.contains(l.at(i)); } vp_assert(ok == (a.policy == All || a.policy == Given || (a.policy == First && l.size() == 1)), "trust differs from the decision of the application");
        if (!ok) { if (s->kind == Sock::Tcp) { env_error(s, QAbstractSocket::SslHandshakeFailedError); vp_assert(sent(s).isEmpty(), "sent to a proxy that is not trusted"); env_peer_close(s); } else env_refused(s); env_run(); vp_assert(sent(s).isEmpty() && !a.ready(), "sent to a proxy that is not trusted"); vp_assert(a.disconnected(), "not reported disconnected"); vp_cover("not trusted"); return false; }
    } else vp_assert(a.seen.size() == n, "errors reported that did not occur");
    if (s->kind == Sock::Tcp) env_encrypted(s); else env_connected(s); env_run(); vp_assert(a.seen.size() == n + !l.isEmpty(), "errors reported again"); QVariantMap m = json(sent(s)); vp_assert(m.value("method").toString() == "RemoteProxy.Hello", "no Hello on a secure connection"); vp_cover("trusted"); return true;
}
extern "C" void trust()
{
    bool server = vp_bool("server"); bool web = vp_bool("web"); int policy = vp_choice(NPOLICY, "policy"); App a(server, web, policy); int rounds = (int)vp_param("rounds", 2); a.open(urlOf(kindOf(web)));
    for (int r = 0; r < rounds; r++) {
        QList<QSslError> l = errs(vp_choice(8, "errors")); bool ok = handshake(a, l); if (ok) { if (r + 1 < rounds) { env_peer_close(a.s); env_run(); vp_assert(a.disconnected(), "not reported disconnected"); } }
        if (r + 1 < rounds) { int was = attempts(); if (server) { env_advance(5000); vp_assert(attempts() == was + 1, "no further attempt"); a.take(); } else a.open(urlOf(kindOf(web))); vp_cover("again"); }
    }
}
// the calls of the application at any time
extern "C" void calls()
{
    bool server = vp_bool("server"); bool web = vp_bool("web"); App a(server, web, Nothing); QList<QSslError> l = errs(1); int ph = 0, n = (int)vp_param("steps", 4);
    for (int i = 0; i < n; i++) {
        switch (vp_choice(6, "op")) {
        case 0: a.ignore(nullptr); break;
        case 1: a.ignore(&l); break;
        case 2: vp_assume(ph == 0); a.open(urlOf(kindOf(web))); ph = 1; break;
        case 3: vp_assume(ph == 1); env_connected(a.s); ph = web ? 3 : 2; break;
        case 4: vp_assume(ph == 2); env_encrypted(a.s); ph = 3; break;
        case 5: vp_assume(ph == 3); env_peer_close(a.s); env_run(); if (server) a.v->stopServer(); ph = 0; break;
        }
        env_run(); if (ph == 1 || ph == 2) a.silent(); if (ph == 3) vp_assert(!sent(a.s).isEmpty(), "no Hello on a secure connection");
    }
    vp_cover("called");
}
// where it connects to
extern "C" void urls()
{
    static const char *HOST[] = { "127.0.0.1", "proxy.example.org", "localhost" }; bool server = vp_bool("server"); int k = vp_choice(4, "kind"); QString host = HOST[vp_choice(3, "host")]; static const int PORT[] = { 1, 443, 2213, 65535 }; int port = PORT[vp_choice(4, "port")];
    QUrl u; u.setScheme(k == Plain ? "tcp" : k == Tls ? "ssl" : k == Web ? "ws" : "wss"); u.setHost(host); u.setPort(port); App a(server, k >= Web, Nothing); a.open(u);
    vp_assert((a.s->kind == Sock::Web) == (k >= Web), "other kind of transport"); vp_assert(a.s->port == port, "port differs"); if (k < Web) vp_assert(a.s->host == host, "host differs"); else vp_assert(a.s->host == host && QUrl(a.s->url) == u, "URL differs"); vp_assert(k >= Web || a.s->clientEnc == (k == Tls), "encryption differs from the URL"); vp_assert(attempts() == 1, "more than one connection"); vp_cover("connects");
}
