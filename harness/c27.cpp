// C27: memory safety of the whole proxy under arbitrary histories over its real transports. The engine reports every
// access outside a live object, double deletion and null dereference; the harness adds that objects of connections
// that are gone are released.
#include "proxy.h"
#include "leak.h"
struct World {
    QList<Sock *> s; QList<int> kind; bool tls, running, defer, loop, few;
    World(bool tls, bool defer = false, bool loop = true) : tls(tls), running(false), defer(defer), loop(loop), few(false) { start(); }
    void start() { ProxyConfiguration *c = testConfig(); c->setSslEnabled(tls); Engine::instance()->start(c); env_run(); running = true; }
    void stop(bool destroy) { if (destroy) Engine::instance()->destroy(); else Engine::instance()->stop(); running = false; }
    int open(int k, bool defer, bool encrypted = true)
    {
        Sock *x = k == 0 ? env_incoming_tcp(2213) : k == 1 ? env_incoming_web(2212) : k == 2 ? env_incoming_local("unix.sock") : env_incoming_local("monitor.sock"); vp_assert(x != nullptr, "connection not accepted");
        s.append(x); kind.append(k); if (k == 0 && tls && encrypted) env_encrypted(x); x->deferClose = defer && x->o; return s.size() - 1;
    }
    bool there(int i) const { return s.at(i)->o && s.at(i)->state != QAbstractSocket::UnconnectedState; }
    void feed(int i, const QByteArray &d) { Sock *x = s.at(i); if (!there(i)) return; if (kind.at(i) == 1) env_text(x, QString::fromLatin1(d.constData(), d.size())); else env_feed(x, d); }
    // everything closed by the peers, or sent: nothing may be left of the connections
    void finish() { env_run(); for (int i = 0; i < s.size(); i++) if (there(i)) { if (s.at(i)->closePending) env_drain(s.at(i)); else env_peer_close(s.at(i)); env_run(); } for (int i = 0; i < s.size(); i++) vp_assert(!s.at(i)->o, "socket of a connection that is gone not released"); }
    void quiet() { QVariantMap m = Engine::instance()->buildMonitorData(true); QVariantMap p = m.value("tunnelProxyStatistic").toMap(); vp_assert(p.value("totalClientCount").toInt() == 0 && p.value("serverConnectionsCount").toInt() == 0 && p.value("clientConnectionsCount").toInt() == 0, "connections that are gone are still counted"); }
};
static const int PAYLOADS = 14;
static int pick(int kind, bool few) { static const int F[] = { 0, 1, 4, 6, 7, 13 }; if (kind != 3 && few) return F[vp_choice(6, "input")]; if (kind != 3) return vp_choice(PAYLOADS, "payload"); static const int M[] = { 5, 10, 12 }; return M[vp_choice(3, "request")]; }
static QByteArray payload(int n, int i)
{
    switch (n) {
    case 0: return regServer(10 + i, 1);
    case 1: return regClient(20 + i, 4 + i, 1);
    case 2: return slip(1, "data");
    case 3: return slip(0, req(30 + i, "TunnelProxy.DisconnectClient", "{\"socketAddress\":1}"));
    case 4: return regServer(40, 2 + i) + regServer(41, 2 + i) + regClient(42, 9, 1) + req(43, "RemoteProxy.Hello"); // the second one ends the connection
    case 5: return QByteArray("}\n}\n{\"id\":1}\n");
    case 6: return QByteArray(10300, '{');
    case 7: return QByteArray("\xC0\xC0\x01\xC0\xDB\x01\xC0\x00\x00\xC0", 10);
    case 8: return slip(0, regServer(50, 1)) + slip(0, "garbage") + slip(1, "behind") + slip(0, req(51, "TunnelProxy.DisconnectClient", "{\"socketAddress\":1}"));
    case 9: return regServer(60 + i, 2 + i) + slip(0, req(61, "RemoteProxy.Hello")) + slip(1, "early");
    case 10: return QByteArray("{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n");
    case 11: return slip(0, req(70, "TunnelProxy.DisconnectClient", "{\"socketAddress\":1}")) + slip(1, "to nobody") + slip(0, req(71, "TunnelProxy.DisconnectClient", "{\"socketAddress\":2}"));
    case 12: return QByteArray("{\"id\":{\"a\":[1]},\"method\":[\"x\"],\"params\":7}\n");
    default: return req(80, "RemoteProxy.Hello") + regClient(81, 4 + i, 1) + QByteArray("tunnelled");
    }
}
static void step(World &w, int max)
{
    int op = vp_choice(6, "op");
    switch (op) {
    case 0: { vp_assume(w.running && w.s.size() < max); int k = vp_choice(4, "kind"); vp_assume(!w.tls || k == 0 || w.s.size()); int i = w.open(k, w.defer, k != 0 || !w.tls || vp_bool("encrypted")); if (vp_bool("input")) w.feed(i, payload(pick(k, w.few && i), i)); break; }
    case 1: { vp_assume(w.s.size()); int i = vp_choice(w.s.size(), "conn"); vp_assume(w.there(i)); w.feed(i, payload(pick(w.kind.at(i), false), i)); break; }
    case 2: { vp_assume(w.s.size()); int i = vp_choice(w.s.size(), "conn"); vp_assume(w.there(i)); if (w.s.at(i)->closePending) env_drain(w.s.at(i)); else env_peer_close(w.s.at(i)); break; }
    case 3: { vp_assume(w.s.size()); int i = vp_choice(w.s.size(), "conn"); vp_assume(w.there(i)); if (w.kind.at(i) == 1 && vp_bool("binary")) env_binary(w.s.at(i), "binary"); else env_error(w.s.at(i)); break; }
    case 4: { static const int T[] = { 1000, 10000, 60000 }; int t = vp_choice(3, "time"); env_advance(T[t]); break; }
    case 5: if (w.running) w.stop(vp_bool("destroy")); else w.start(); break;
    }
    if (w.loop) env_run();
}
static void end(World &w, bool full)
{
    if (w.running && full) { if (vp_bool("stop")) w.stop(false); }
    w.finish(); if (w.running) { w.quiet(); env_advance(61000); w.quiet(); vp_cover("running to the end"); } else vp_cover("stopped");
}
extern "C" void histories() { bool tls = vp_bool("tls"), defer = vp_bool("defer"), loop = vp_bool("loop"); World w(tls, defer, loop); w.few = vp_param("few", 0); int k = (int)vp_param("steps", 3); for (int i = 0; i < k; i++) step(w, (int)vp_param("conns", 2)); end(w, true); }
// from a server with two clients and a monitor
extern "C" void established()
{
    bool tls = vp_bool("tls"), defer = vp_bool("defer"), loop = vp_bool("loop"); World w(tls, defer, loop); int s = w.open(vp_bool("unix") ? 2 : 0, defer), a = w.open(1, defer), b = w.open(0, defer), m = w.open(3, defer); w.feed(s, payload(0, 0)); w.feed(a, payload(1, 1)); w.feed(b, payload(1, 2)); w.feed(m, payload(10, 3)); w.feed(s, slip(1, "to") + slip(2, "both")); vp_assert(w.s.at(a)->msgs.size() == 2 && w.s.at(b)->tx.size(), "tunnels not working"); env_run();
    int k = (int)vp_param("steps", 2); for (int i = 0; i < k; i++) step(w, 5); end(w, true); vp_cover("established");
}
// longer histories of the events that end or start something, over plain TCP
extern "C" void deep()
{
    bool defer = vp_bool("defer"), loop = vp_bool("loop"); World w(false, defer, loop); int s = w.open(0, defer), a = w.open(0, defer); w.feed(s, payload(0, 0)); w.feed(a, payload(1, 1)); env_run();
    int k = (int)vp_param("steps", 3);
    for (int i = 0; i < k; i++) {
        int op = vp_choice(4, "op");
        if (op == 0) { int c = vp_choice(w.s.size(), "conn"); vp_assume(w.there(c)); static const int P[] = { 2, 3, 4, 13 }; int p = vp_choice(4, "input"); w.feed(c, payload(P[p], c)); }
        else if (op == 1) { int c = vp_choice(w.s.size(), "ended"); vp_assume(w.there(c)); if (w.s.at(c)->closePending) env_drain(w.s.at(c)); else env_peer_close(w.s.at(c)); }
        else if (op == 2) { vp_assume(w.running && w.s.size() < 4); int c = w.open(0, defer); bool server = vp_bool("server"); w.feed(c, payload(server ? 0 : 1, server ? 0 : c)); }
        else { bool time = vp_bool("time"); if (time) env_advance(60000); else if (w.running) w.stop(false); else w.start(); }
        if (loop) env_run();
    }
    end(w, false); vp_cover("deep");
}
// any bytes, in two reads, to a connection in one of four roles
extern "C" void garbage()
{
    World w(false); int kind = vp_choice(3, "kind"), role = vp_choice(kind == 1 ? 2 : 4, "role"); int n = (int)vp_param("len", 4); bool defer = vp_bool("defer"); int s = w.open(2, false); w.feed(s, payload(0, 0)); int i = role == 3 ? w.open(3, defer) : w.open(kind, defer); if (role == 1) w.feed(i, payload(1, i)); if (role == 2) w.feed(i, payload(9, i)); env_run();
    QByteArray d = symBytes(n, "byte"); if (kind == 1) for (int k = 0; k < n; k++) vp_assume((uint8_t)d.at(k) < 128); int cut = vp_choice(n, "cut"); if (cut) { w.feed(i, d.left(cut)); if (vp_bool("loop")) env_run(); } w.feed(i, d.mid(cut)); end(w, false); vp_cover("garbage");
}
// a frame for the API or for a client with any bytes, behind and before others in one read
extern "C" void frame()
{
    World w(false); int s = w.open(0, vp_bool("defer")), a = w.open(2, vp_bool("deferclient")); w.feed(s, payload(0, 0)); w.feed(a, payload(1, 1)); int n = vp_choice((int)vp_param("len", 3) + 1, "length"); QByteArray d = symBytes(n, "byte"); int addr = vp_choice(3, "address");
    QByteArray one = slip(addr, d), r; switch (vp_choice(3, "place")) { case 0: r = one; break; case 1: r = slip(1, "x") + one + slip(1, "y"); break; case 2: r = slip(0, req(9, "TunnelProxy.DisconnectClient", "{\"socketAddress\":1}")) + one + one; break; } w.feed(s, r); env_run(); end(w, false); vp_cover("frame");
}
// nothing is left of connections, whatever they did: five identical cycles while the proxy runs
extern "C" void leaks()
{
    World w(vp_bool("tls")); int k = vp_choice(4, "kind"), p = vp_choice(PAYLOADS + 1, "payload"), q = PAYLOADS; { static const int Q[] = { PAYLOADS, 0, 1, 4, 6, 11 }; q = Q[vp_choice(6, "then")]; } bool defer = vp_bool("defer"); int how = vp_choice(4, "how"); vp_assume(how != 3 || (k == 0 && w.tls && p == PAYLOADS && q == PAYLOADS)); Leak m;
    int srv = w.open(2, false); w.feed(srv, regServer(1, 1)); env_run();
    for (int c = 0; c < 5; c++) {
        int i = w.open(k, defer, how != 3); if (p < PAYLOADS) w.feed(i, payload(p, 1)); if (how == 1) env_run(); if (q < PAYLOADS) w.feed(i, payload(q, 1)); env_run();
        if (how == 2 && w.there(i)) { env_error(w.s.at(i)); env_run(); } if (how == 3) env_advance(6000); if (w.there(i)) { if (w.s.at(i)->closePending) env_drain(w.s.at(i)); else env_peer_close(w.s.at(i)); } env_run(); vp_assert(!w.s.at(i)->o, "socket of a connection that is gone not released");
        w.s.removeLast(); w.kind.removeLast(); w.s.at(0)->tx = QByteArray(); m.mark();
    }
    vp_assert(!m.grows(), "memory grows with each connection"); vp_cover("five cycles");
}
