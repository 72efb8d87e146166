// C23: engine life cycle.
#include "proxy.h"
#include "leak.h"
#include "server/monitorserver.h"
struct Life {
    bool started, turned; QList<bool> changes; QSslConfiguration conf; bool tls; int ws, tcp; QString mon, unx; QList<Sock *> socks; bool alive;
    Life(bool tls) : started(false), turned(false), tls(tls), ws(2212), tcp(2213), mon("monitor.sock"), unx("unix.sock"), alive(false) { conf.setProtocol(QSsl::TlsV1_2OrLater); }
    Engine *e() { Engine *x = Engine::instance(); if (!alive) { alive = true; changes.clear(); QObject::connect(x, &Engine::runningChanged, x, [this](bool r) { vp_assert(changes.isEmpty() ? r : changes.last() != r, "runningChanged without a change"); changes.append(r); }); } return x; }
    void start(int variant)
    {
        ProxyConfiguration *c = testConfig(); if (variant & 1) { ws = 3312; tcp = 3313; mon = "mon2.sock"; unx = "unix2.sock"; } else { ws = 2212; tcp = 2213; mon = "monitor.sock"; unx = "unix.sock"; }
        c->setWebSocketServerTunnelProxyPort(ws); c->setTcpServerTunnelProxyPort(tcp); c->setMonitorSocketFileName(mon); c->setUnixSocketFileName(unx); if (variant & 1) { c->setWebSocketServerTunnelProxyHost(QHostAddress("10.9.9.1")); c->setTcpServerTunnelProxyHost(QHostAddress("10.9.9.2")); c->setServerName("other"); } c->setSslEnabled(tls);
        e()->start(c); started = true; turned = false; listening(variant); vp_assert(e()->serverName() == (variant & 1 ? "other" : "testproxy"), "server name");
    }
    void listening(int variant)
    {
        Srv *w = env_listening(Sock::Web, ws), *t = env_listening(Sock::Tcp, tcp); vp_assert(w && w->secure == tls, "web socket server not listening as configured"); vp_assert(t != nullptr, "tcp server not listening on the configured port"); vp_assert(env_listening_local(unx) != nullptr, "unix server not listening"); vp_assert(env_listening_local(mon) != nullptr, "monitor not listening");
        vp_assert(w->addr == QHostAddress(variant & 1 ? "10.9.9.1" : "127.0.0.1") && t->addr == QHostAddress(variant & 1 ? "10.9.9.2" : "127.0.0.1"), "listening on another address"); int n = 0; for (int i = 0; i < env_srvs().size(); i++) n += env_srvs().at(i)->o && env_srvs().at(i)->listening; vp_assert(n == 4, "another server is listening");
    }
    void turn() { env_run(); if (started) turned = true; state(); }
    void state() { if (!alive) return; if (!started) { vp_assert(!e()->running(), "running although stopped"); } else if (turned) { vp_assert(e()->running(), "not running after the start"); vp_assert(e()->tunnelProxyServer()->running() && e()->monitorServer()->running() && e()->tcpSocketServerTunnelProxy()->running() && e()->webSocketServerTunnelProxy()->running() && e()->unixSocketServerTunnelProxy()->running(), "part of the proxy not running"); } if (changes.size()) vp_assert(changes.last() == e()->running(), "last runningChanged differs from running()"); }
    void closed() { for (int i = 0; i < env_srvs().size(); i++) vp_assert(!env_srvs().at(i)->o || !env_srvs().at(i)->listening, "server still listening"); vp_assert(!QFile::exists("unix.sock") && !QFile::exists("unix2.sock") && !QFile::exists("monitor.sock") && !QFile::exists("mon2.sock"), "socket file left"); }
    void gone() { for (int i = 0; i < socks.size(); i++) vp_assert(!socks.at(i)->o || socks.at(i)->state == 0, "connection left open"); }
    void stop() { e()->stop(); started = turned = false; vp_assert(!e()->running(), "running after stop"); closed(); }
    void destroy() { e()->destroy(); alive = started = turned = false; closed(); }
    void settleStopped() { env_run(); gone(); for (int i = 0; i < socks.size(); i++) vp_assert(!socks.at(i)->o, "socket object left"); socks.clear(); state(); }
    // a connection in one of eight states
    Sock *connect(int k, bool defer)
    {
        Sock *s = nullptr; QByteArray r = regServer(7, socks.size() + 1);
        switch (k) {
        case 0: s = env_incoming_tcp(tcp); break; // unregistered, or within the handshake
        case 1: s = env_incoming_tcp(tcp); if (tls) env_encrypted(s); env_feed(s, r); vp_assert(s->tx.size(), "no answer"); env_feed(s, "half a frame"); break;
        case 2: s = env_incoming_web(ws); env_text(s, QString::fromLatin1(r)); break;
        case 3: s = env_incoming_local(unx); env_feed(s, "{\"half"); break;
        case 4: s = env_incoming_local(mon); env_feed(s, "{\"method\":\"refresh\"}"); vp_assert(s->tx.endsWith("\n"), "no report"); break;
        case 5: { Sock *a = env_incoming_local(unx); a->deferClose = defer; socks.append(a); QByteArray rr = regServer(7, 70 + socks.size()); env_feed(a, rr); s = env_incoming_web(ws); env_text(s, QString::fromLatin1(regClient(8, 90 + socks.size(), 70 + socks.size()))); env_text(s, "payload"); break; }
        case 6: s = env_incoming_tcp(tcp); if (tls) env_encrypted(s); env_feed(s, "{\"id\":1,\"method\":\"None.None\"}\n"); break; // being closed
        }
        s->deferClose = defer && s->state == QAbstractSocket::ConnectedState; socks.append(s); return s;
    }
};
extern "C" void sequences()
{
    Life l(vp_bool("tls")); int k = (int)vp_param("steps", 5), conns = (int)vp_param("conns", 2);
    for (int i = 0; i < k; i++) {
        switch (vp_choice(6, "op")) {
        case 0: l.start(vp_choice(2, "variant")); l.state(); break;
        case 1: vp_assume(l.alive); l.stop(); l.state(); if (vp_bool("turn")) l.settleStopped(); break;
        case 2: vp_assume(l.alive); l.turn(); break;
        case 3: vp_assume(l.started && l.socks.size() < conns); { int w = vp_choice(7, "what"); l.connect(w, vp_bool("defer")); l.state(); break; }
        case 4: vp_assume(l.alive); l.destroy(); if (vp_bool("turn")) l.settleStopped(); break;
        case 5: vp_assume(l.started && l.turned); env_advance(100000); l.state(); break;
        }
    }
    if (l.started) { l.turn(); if (vp_bool("destroy")) l.destroy(); else l.stop(); vp_cover("stopped in the end"); } l.settleStopped();
}
// nothing is left of a cycle
extern "C" void leaks()
{
    bool tls = vp_bool("tls"); int a = vp_choice(7, "first"), b = vp_choice(8, "second"); bool da = vp_bool("deferfirst"), ds = b < 7 && vp_bool("defersecond"), destroy = vp_bool("destroy"), peer = vp_bool("peercloses"); Leak m; Life l(tls);
    for (int i = 0; i < 5; i++) { l.start(0); l.turn(); Sock *x = l.connect(a, da); if (b < 7) l.connect(b, ds); if (peer) { env_peer_close(x); env_run(); } env_advance(1100); if (destroy) l.destroy(); else l.stop(); l.settleStopped(); l.changes = QList<bool>(); l.socks = QList<Sock *>(); m.mark(); }
    vp_assert(!m.grows(), "memory grows with each start and stop"); vp_cover("five cycles");
}
// throughput roll over while running, after restarts
extern "C" void rollover()
{
    Life l(false); static const int G[] = { 0, 30, 700, 5000 }; env_advance(G[vp_choice(4, "before")]); int n = vp_choice((int)vp_param("restarts", 1) + 1, "restarts");
    for (int i = 0; i < n; i++) { l.start(0); l.turn(); env_advance(G[vp_choice(4, "on")]); if (vp_bool("stop")) { l.stop(); l.settleStopped(); env_advance(G[vp_choice(4, "off")]); } }
    l.start(0); l.turn(); FakeTransport *t = new FakeTransport(); proxy()->registerTransportInterface(t); int s = addServer(t, 1), c = addClient(t, 2, 1); (void)s;
    // first roll over within the first second and two ticks; one per second from then on
    quint64 seen = 0; int at = -1; t->feed(c, QByteArray(17, 'x')); for (int i = 0; i < 23 && at < 0; i++) { env_advance(50); if (Engine::instance()->buildMonitorData(true).value("tunnelProxyStatistic").toMap().value("troughput").toULongLong() == 17) at = i; } vp_assert(at >= 0, "throughput never rolled over");
    for (int r = 0; r < 3; r++) { quint64 sent = 0; for (int i = 0; i < 20; i++) { if (i == 3 || i == 15) { t->feed(c, QByteArray(10 + r, 'y')); sent += 10 + r; } if (i < 19) { env_advance(50); vp_assert(Engine::instance()->buildMonitorData(true).value("tunnelProxyStatistic").toMap().value("troughput").toULongLong() == (r ? seen : 17), "throughput rolled over before the second is over"); } else env_advance(50); } seen = sent; vp_assert(Engine::instance()->buildMonitorData(true).value("tunnelProxyStatistic").toMap().value("troughput").toULongLong() == seen, "throughput not rolled over after a second"); }
    l.stop(); env_advance(5000); vp_assert(!Engine::instance()->running(), "running after stop"); vp_cover("rolled over");
}
// part of the names and ports are taken
extern "C" void occupied()
{
    Life l(vp_bool("tls")); int b = vp_choice(3, "which"); if (b != 1) env_block_port(2212); if (b != 0) env_block_port(2213); int again = vp_choice(3, "again");
    ProxyConfiguration *c = testConfig(); if (vp_bool("files")) { c->setUnixSocketFileName("/nonexistent/u"); c->setMonitorSocketFileName("/nonexistent/m"); } l.e()->start(c); env_run(); vp_assert((env_listening(Sock::Web, 2212) != nullptr) == (b == 1) && (env_listening(Sock::Tcp, 2213) != nullptr) == (b == 0), "listening");
    if (again == 1) l.stop(); else if (again == 2) l.destroy(); env_unblock_port(2212); env_unblock_port(2213); env_run(); l.start(0); l.turn(); l.connect(1, false); l.connect(2, false); l.stop(); l.settleStopped(); vp_cover("started after all");
}
