// C15: remote connection of the client library.
#include "cl.h"
static const QUuid CLIENT(0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), SERVER(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12);
struct Model {
    Kind kind; TunnelProxyRemoteConnection *c; Sock *s; int ph; // 0 none 1 connecting 2 TLS handshake 3 Hello sent 4 RegisterClient sent 5 remotely connected
    int id, up, down, wup, wdown; QList<bool> sig; QList<QByteArray> got, want; QByteArray line; int tunnel; // tx position of the tunnel data
    QByteArray out; int answered;
    Model(Kind k) : kind(k), s(nullptr), ph(0), id(-1), up(0), down(0), wup(0), wdown(0), tunnel(0), answered(0)
    {
        c = k < Web ? (k == Plain ? new TunnelProxyRemoteConnection(CLIENT, "the client") : new TunnelProxyRemoteConnection(CLIENT, "the client", TunnelProxyRemoteConnection::ConnectionTypeTcpSocket)) : new TunnelProxyRemoteConnection(CLIENT, "the client", TunnelProxyRemoteConnection::ConnectionTypeWebSocket);
        QObject::connect(c, &TunnelProxyRemoteConnection::remoteConnectedChanged, c, [this](bool r) { vp_assert(c->remoteConnected() == r, "signal and state differ"); if (r) up++; else down++; });
        QObject::connect(c, &TunnelProxyRemoteConnection::dataReady, c, [this](const QByteArray &d) { vp_assert(c->remoteConnected(), "data delivered while not remotely connected"); got.append(d); });
    }
    QByteArray all(const QList<QByteArray> &l) { QByteArray r; for (int i = 0; i < l.size(); i++) r += l.at(i); return r; }
    void check()
    {
        vp_assert(c->remoteConnected() == (ph == 5), ph == 5 ? "not remotely connected although registered" : "remotely connected without a successful registration"); vp_assert((c->state() == TunnelProxyRemoteConnection::StateRemoteConnected) == (ph == 5), "state");
        vp_assert(up == wup && down == wdown, "remoteConnectedChanged emissions"); vp_assert(eqBytes(all(got), all(want)), "data delivered differs from the data received");
        if (ph == 6) return;
        if (ph == 0) { vp_assert(c->state() == TunnelProxyRemoteConnection::StateDisconnected, "not reported disconnected"); if (s) vp_assert(!s->o || s->state == 0 || s->closePending, "transport left open"); }
        else { vp_assert(s && s->o, "no transport"); vp_assert(s->state == (ph == 1 ? QAbstractSocket::ConnectingState : QAbstractSocket::ConnectedState), "transport closed without reason"); vp_assert(c->state() != TunnelProxyRemoteConnection::StateDisconnected, "reported disconnected while it is not"); }
        vp_assert(ph < 5 || c->remoteProxyServerName() == "proxy", "name of the proxy"); vp_assert(ph < 5 || (c->remoteProxyServer() == "nymea-remoteproxy" && c->remoteProxyServerVersion() == "1.2.3" && c->remoteProxyApiVersion() == "0.3"), "information about the proxy");
        if (s && s->o) { QByteArray t = sent(s); if (ph == 1 || ph == 2) vp_assert(t.isEmpty(), "sent before the transport is up"); if (ph == 5) vp_assert(eqBytes(t.mid(tunnel), out), "data sent differs from the data given"); else if (ph >= 3) vp_assert(t.size() == tunnel, "sent although not remotely connected"); }
    }
    // request in front of us: the next line written
    void request(const char *method)
    {
        QByteArray r = sent(s).mid(tunnel); tunnel += r.size(); vp_assert(r.endsWith("\n"), "request not terminated"); QVariantMap m = json(r); vp_assert(m.value("method").toString() == method, "another request expected"); vp_assert(m.contains("id"), "request without id"); id = m.value("id").toInt();
        if (ph == 4) { QVariantMap p = m.value("params").toMap(); vp_assert(QUuid(p.value("clientUuid").toString()) == CLIENT && p.value("clientName").toString() == "the client" && QUuid(p.value("serverUuid").toString()) == SERVER, "registered with other data"); }
    }
    void lost() { if (ph == 5) wdown++; ph = 0; }
    void connectTo() { lost(); vp_assert(c->connectServer(urlOf(kind), SERVER), "connectServer"); env_run(); s = sockOf(c); vp_assert(s && s->connectRequested, "no connection attempt"); vp_assert(s->port == 2213, "port"); vp_assert((s->kind == Sock::Web) == (kind >= Web), "transport"); vp_assert(s->kind == Sock::Web || s->clientEnc == (kind == Tls), "TLS"); if (s->kind == Sock::Web) vp_assert(QUrl(s->url) == urlOf(kind), "URL"); ph = 1; tunnel = 0; out.clear(); }
    void transportUp() { if (ph != 1) return; env_connected(s); if (kind == Tls) { ph = 2; return; } ph = 3; request("RemoteProxy.Hello"); }
    void encrypted() { if (ph != 2) return; env_encrypted(s); ph = 3; request("RemoteProxy.Hello"); }
    // k: 0 the expected success, 1 an error, 2 a registration error / unrelated id, 3 success with another id, 4 a notification with the id
    void answer(int k)
    {
        if (ph != 3 && ph != 4) return; bool hello = ph == 3;
        switch (k) {
        case 0: recv(s, hello ? helloOk(id) : regOk(id)); if (hello) { ph = 4; request("TunnelProxy.RegisterClient"); } else { ph = 5; wup++; } break;
        case 1: recv(s, errAnswer(id)); vp_assert(s->closedByCode, "transport not closed after an error"); ph = 0; break;
        case 2: if (hello) { recv(s, errAnswer(id + 5)); break; } recv(s, regFail(id)); vp_assert(s->closedByCode, "transport not closed after a failed registration"); ph = 0; break;
        case 3: recv(s, hello ? helloOk(id + 3) : regOk(id + 3)); break;
        case 4: recv(s, "{\"id\":" + num(id) + ",\"notification\":\"TunnelProxy.ClientConnected\",\"params\":{\"status\":\"success\"}}\n"); break;
        case 5: recv(s, "{\"id\":" + num(id) + ",\"status\":success}\n"); break;
        case 6: recv(s, (hello ? errAnswer(id) : regFail(id)) + helloOk(id) + regOk(id + 1) + "tail"); vp_assert(s->closedByCode, "transport not closed after an error with more behind it"); ph = 0; break;
        }
        answered++;
    }
    void data(const QByteArray &d) { if (ph != 5) return; recv(s, d); want.append(d); }
    void send(const QByteArray &d) { bool ok = c->sendData(d); vp_assert(ok == (ph == 5), "sendData"); if (ph == 5) out += d; }
    void walk(int to) { if (to < 1) return; connectTo(); check(); if (to < 2) return; transportUp(); check(); if (kind == Tls) { if (to < 3) return; encrypted(); check(); } if (to < 4) return; answer(0); check(); if (to < 5) return; answer(0); check(); }
    void disconnect() { c->disconnectServer(); if (kind >= Web && ph == 1) ph = 6; else if (ph != 6) lost(); }
    void step()
    {
        switch (vp_choice(11, "op")) {
        case 0: connectTo(); break;
        case 1: if (ph == 1) transportUp(); else if (ph == 2) encrypted(); else vp_assume(false); break;
        case 2: vp_assume(ph == 1 || ph == 6); if (ph == 6 && vp_bool("late")) { env_connected(s); ph = 0; break; } env_refused(s); ph = 0; break;
        case 3: vp_assume(ph == 3 || ph == 4); answer(vp_choice(7, "answer")); break;
        case 4: vp_assume(ph >= 2 && ph <= 5); env_peer_close(s); lost(); break;
        case 5: { vp_assume(ph >= 2 && ph <= 5 && kind != Plain); bool up = ph > 2; env_peer_closing(s); lost(); if (up) check(); if (vp_bool("run")) env_run(); if (up) check(); env_drain(s); break; }
        case 6: vp_assume(ph == 5); { QByteArray d; uint8_t b = vp_byte("rx"); if (kind >= Web) vp_assume(b < 128); d.append((char)b); d.append(vp_bool("brace") ? "}\n" : "x"); data(d); } break;
        case 7: { QByteArray d; uint8_t b = vp_byte("tx"); if (kind >= Web) vp_assume(b < 128); d.append((char)b); d.append('y'); send(d); } break;
        case 8: if (kind >= Web && s) s->deferClose = vp_bool("pending"); disconnect(); break;
        case 9: vp_assume(ph >= 1 && ph <= 5 && kind != Plain); env_ssl_errors(s); break;
        case 10: vp_assume(ph == 5); recv(s, regOk(id)); want.append(regOk(id)); break;
        }
        if (vp_bool("settle")) env_run(); check();
    }
};
extern "C" void histories()
{
    Kind k = Kind(vp_choice((int)vp_param("kinds", 3), "kind")); Model m(k); m.walk(vp_choice(6, "start")); int n = (int)vp_param("steps", 3); for (int i = 0; i < n; i++) m.step(); if (m.ph == 5) vp_cover("remotely connected"); if (m.wdown) vp_cover("lost"); if (m.out.size()) vp_cover("sent"); if (m.want.size()) vp_cover("received");
    env_run(); m.check(); if (vp_bool("destroy")) { m.lost(); Sock *s = m.s; delete m.c; vp_assert(!s || !s->o, "transport left behind"); env_run(); } else { m.disconnect(); env_run(); m.check(); } logi("up", m.up);
}
// the registration response and the tunnel data behind it, in any reads
extern "C" void handover()
{
    Model m(Plain); m.walk(4); QByteArray d = symBytes((int)vp_param("len", 3), "data"), all = regOk(m.id) + d; int n = all.size(), o = n - d.size() - 4, a, b; if (vp_bool("early")) { a = vp_choice(o, "cut1") + 1; b = o + 2; } else { a = vp_choice(n - o + 1, "cut") + o; b = a + vp_choice((int)vp_param("gap", 3), "gap"); } if (b > n) b = n;
    recv(m.s, all.left(a)); if (b > a) recv(m.s, all.mid(a, b - a)); if (b < n) recv(m.s, all.mid(b)); m.ph = 5; m.wup++; m.want.append(d); env_run(); m.check(); vp_cover("all delivered"); logb("d", m.all(m.got));
}
// the answers of the handshake in any pieces, both in the same read as soon as possible
extern "C" void pieces()
{
    Kind k = Kind(vp_choice(2, "kind")); Model m(k); m.walk(k == Tls ? 3 : 2); int p = vp_choice((int)vp_param("sizes", 24), "size") + 1; QByteArray h = helloOk(m.id); for (int i = 0; i < h.size(); i += p) recv(m.s, h.mid(i, p)); m.ph = 4; m.request("TunnelProxy.RegisterClient"); QByteArray r = regOk(m.id); for (int i = 0; i < r.size(); i += p) recv(m.s, r.mid(i, p)); m.ph = 5; m.wup++; m.check(); m.data("first"); m.check(); vp_cover("in pieces"); logi("p", p);
}
// any payload
extern "C" void payload()
{
    Kind k = Kind(vp_choice(3, "kind")); Model m(k); m.walk(5); int n = vp_choice((int)vp_param("len", 4), "len") + 1; QByteArray a = symBytes(n, "rx"), b = symBytes(n, "tx"); if (k == Web) for (int i = 0; i < n; i++) { vp_assume((uint8_t)a.at(i) < 128); vp_assume((uint8_t)b.at(i) < 128); } m.data(a); m.check(); m.send(b); m.check(); vp_cover("exchanged"); logb("rx", m.all(m.got)); logb("tx", m.out);
}
// long payloads and many
extern "C" void sizes()
{
    Kind k = Kind(vp_choice(3, "kind")); Model m(k); m.walk(5); QByteArray a = longBytes((int)vp_param("few", 1), k == Web); int r = k == Web ? a.size() : readSize(a.size()); for (int i = 0; i < a.size(); i += r) m.data(a.mid(i, r)); m.check(); m.send(a); m.data("x"); m.send("y"); m.check(); vp_cover("long payload"); logi("n", a.size());
}
extern "C" void many()
{
    Kind k = Kind(vp_choice(2, "kind")); Model m(k); m.walk(5); int n = (int)vp_param("messages", 300); uint8_t b = vp_byte("byte"); for (int i = 0; i < n; i++) { QByteArray d("a"); d.append((char)(b + i)); if (i & 1) m.data(d); else m.send(d); } m.check(); vp_cover("many messages");
}
