// C32: tunnel client application.
#include "cls.h"
#include "serverconnection.h"
#include "clientconnection.h"
extern int env_rand_symbolic;
static const QUuid CLIENT(0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
// ---- as server
struct Tool : public ServerModel {
    ServerConnection *t; bool echo;
    static TunnelProxySocketServer *make(ServerConnection *&t, Kind kind, bool insecure, bool echo) { t = new ServerConnection(urlOf(kind), "the server", SERVER, insecure, echo); return t->m_socketServer; }
    Tool(Kind kind, bool insecure, bool echo) : ServerModel(kind, make(t, kind, insecure, echo)), echo(echo) { env_run(); vp_assert(attempts() == 0, "connects before it is told to"); }
    void begin() { t->startServer(); enabled = true; attempt(); }
    void up() { transportUp(); if (kind == Tls) encrypted(); answer(0); answer(0); check(); }
    void traffic(int address, const QByteArray &d) { bool l = live(address); data(address, d); if (l && echo) { QByteArray r = sent(s).mid(tunnel), w = slip(address, d); tunnel += r.size(); vp_assert(eqBytes(r, w), "data not sent back to the client it came from"); vp_cover("echo"); } else if (l) vp_cover("received"); check(); }
};
static QByteArray some(const char *tag) { QByteArray d; d.append((char)vp_byte(tag)); if (vp_bool("more")) d.append("\xC0\xDBrest", 6); return d; }
struct Client {
    ClientConnection *t; TunnelProxyRemoteConnection *c; Sock *s; bool random; Kind kind; int seen; qint64 at;
    Client(Kind kind, bool insecure, bool random) : random(random), kind(kind), seen(0), at(-1) { t = new ClientConnection(urlOf(kind), "the client", CLIENT, SERVER, insecure, random); c = t->m_remoteConnection; env_run(); vp_assert(attempts() == 0, "connects before it is told to"); t->connectToServer(); s = sockOf(c); vp_assert(s && s->connectRequested && s->port == 2213 && s->host == "127.0.0.1" && s->clientEnc == (kind == Tls), "connects elsewhere"); }
    QByteArray take() { QByteArray r = sent(s).mid(seen); seen += r.size(); return r; }
    QVariantMap request(const char *method) { QByteArray r = take(); vp_assert(r.endsWith("\n"), "request not terminated"); QVariantMap m = json(r); vp_assert(m.value("method").toString() == method, "another request expected"); return m; }
    void up() { env_connected(s); if (kind == Tls) { vp_assert(sent(s).isEmpty(), "sent before the handshake"); env_encrypted(s); } int id = request("RemoteProxy.Hello").value("id").toInt(); recv(s, helloOk(id)); QVariantMap m = request("TunnelProxy.RegisterClient"), p = m.value("params").toMap(); vp_assert(QUuid(p.value("clientUuid").toString()) == CLIENT && p.value("clientName").toString() == "the client" && QUuid(p.value("serverUuid").toString()) == SERVER, "registered with other data"); env_advance(1500); vp_assert(take().isEmpty(), "data sent before the registration"); recv(s, regOk(m.value("id").toInt())); vp_assert(c->remoteConnected(), "not connected"); at = env_now() + 1000; vp_assert(take().isEmpty(), "data sent at once"); }
    // random data: one hundred letters and digits each second
    void pass(qint64 ms, bool on) { while (ms > 0) { qint64 d = on && random && at < env_now() + ms ? at - env_now() : ms; ms -= d; bool due = on && random && at == env_now() + d; if (d > 1) { env_advance(d - 1); vp_assert(take().isEmpty(), random ? "random data before its time" : "data sent although nobody asked for it"); } env_advance(1); QByteArray r = take(); if (!due) { vp_assert(r.isEmpty(), random ? "random data before its time" : "data sent although nobody asked for it"); continue; } vp_assert(r.size() == 100, "amount of random data"); for (int i = 0; i < r.size(); i++) { uint8_t b = r.at(i); bool ok = (b >= 'a') & (b <= 'z') | (b >= 'A') & (b <= 'Z') | (b >= '0') & (b <= '9'); vp_assert(ok, "random data of other characters"); } at = env_now() + 1000; vp_cover("random data"); } }
};
extern "C" void server()
{
    bool tls = vp_bool("tls"), echo = vp_bool("echo"); Tool m(tls ? Tls : Plain, false, echo); m.begin(); m.up(); m.client(1); m.check(); int n = (int)vp_param("steps", 3), next = 2;
    for (int i = 0; i < n; i++) switch (vp_choice(6, "op")) {
        case 0: vp_assume(next <= 3); m.client(next++); m.check(); break;
        case 1: { int a = vp_choice(2, "who") + 1; m.traffic(a, some("rx")); break; }
        case 2: m.left(vp_choice(2, "who") + 1); m.check(); break;
        case 3: env_peer_close(m.s); m.lost(); m.check(); m.pass(5000); m.up(); next = 2; break;
        case 4: m.pass(vp_bool("long") ? 31000 : 1000); m.check(); break;
        case 5: vp_assume(!m.live(1)); m.client(1); m.check(); break;
    }
    if (m.live(1)) m.traffic(1, "last"); if (m.live(2)) m.traffic(2, "last"); vp_cover("served");
}
// long data and many frames at once
extern "C" void amounts()
{
    Tool m(Plain, false, true); m.begin(); m.up(); m.client(1); m.client(2); QByteArray d = longBytes((int)vp_param("few", 1)); if (!d.isEmpty()) m.traffic(1, d); m.traffic(2, "other"); int n = vp_choice(4, "frames"); QByteArray in, w; for (int i = 0; i < n; i++) { int a = 1 + i % 2; QByteArray x = "frame" + QByteArray::number(i); in += slip(a, x); w += slip(a, x); m.live(a)->want.append(x); } if (n) { m.rx(in); m.pingAt = env_now() + 30000; } QByteArray r = sent(m.s).mid(m.tunnel); m.tunnel += r.size(); vp_assert(eqBytes(r, w), "data not sent back in order"); m.check(); vp_cover("amounts");
}
// ---- as client
extern "C" void client()
{
    bool tls = vp_bool("tls"), random = vp_bool("random"); Client m(tls ? Tls : Plain, false, random); env_rand_symbolic = (int)vp_param("rand", 1); m.up(); bool on = true; int n = (int)vp_param("steps", 3); static const int T[] = { 999, 1, 1000, 2500 };
    for (int i = 0; i < n; i++) switch (vp_choice(3, "op")) {
        case 0: m.pass(T[vp_choice(4, "ms")], on); break;
        case 1: vp_assume(on); recv(m.s, some("rx")); vp_assert(m.take().isEmpty(), "received data answered"); break;
        case 2: vp_assume(on); env_peer_close(m.s); env_run(); on = false; vp_assert(!m.c->remoteConnected() && attempts() == 1, "still connected"); vp_cover("closed"); break;
    }
    m.pass(1000, on); vp_assert(attempts() == 1, "connects again"); vp_cover("client");
}
// rejected by the proxy: nothing is sent into the tunnel
extern "C" void rejected()
{
    Client m(Plain, false, true); env_connected(m.s); int id = m.request("RemoteProxy.Hello").value("id").toInt(); int k = vp_choice(3, "answer"); if (k == 0) recv(m.s, errAnswer(id)); else { recv(m.s, helloOk(id)); id = m.request("TunnelProxy.RegisterClient").value("id").toInt(); recv(m.s, k == 1 ? errAnswer(id) : regFail(id)); } env_run(); vp_assert(m.s->closedByCode && !m.c->remoteConnected(), "not closed"); env_advance(5000); vp_assert(m.take().isEmpty(), "sent although rejected"); vp_cover("rejected");
}
// ---- certificates
extern "C" void certificate()
{
    bool insecure = vp_bool("insecure"), server = vp_bool("server"), random = vp_bool("random"); int mask = 1 + vp_choice(7, "errors"); static const QSslError::SslError E[] = { QSslError::SelfSignedCertificate, QSslError::HostNameMismatch, QSslError::CertificateExpired }; QList<QSslError> l; for (int i = 0; i < 3; i++) if (mask >> i & 1) l.append(QSslError(E[i]));
    Sock *s; if (server) { ServerConnection *t = new ServerConnection(urlOf(Tls), "n", SERVER, insecure, random); t->startServer(); s = sockOf(t->m_socketServer); } else { ClientConnection *t = new ClientConnection(urlOf(Tls), "n", CLIENT, SERVER, insecure, random); t->connectToServer(); s = sockOf(t->m_remoteConnection); }
    vp_assert(s && s->clientEnc, "no encrypted connection"); env_connected(s); vp_assert(!s->ignoreErrors && s->ignored.isEmpty(), "certificate errors ignored before there are any"); env_ssl_errors(s, l); bool ok = s->ignoreErrors; if (!ok) { ok = true; for (int i = 0; i < l.size(); i++) ok = ok && s->ignored.contains(l.at(i)); } vp_assert(ok == insecure, insecure ? "certificate errors not ignored although asked to" : "certificate errors ignored although not asked to"); vp_assert(!s->sslSet || s->ssl.peerVerifyMode() != QSslSocket::VerifyNone, "certificate not verified"); vp_assert(sent(s).isEmpty(), "sent before the handshake"); vp_cover("certificate");
}
