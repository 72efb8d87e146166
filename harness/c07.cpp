// C07: disconnects are propagated; DisconnectClient.
#include "hist.h"
#include "jsonrpc/tunnelproxyhandler.h"
extern "C" void histories()
{
    Hist h(DISC); h.t->deferKill = vp_bool("defer");
    h.open(); h.regServer_(0, 1); h.open(); h.regServer_(1, 2);
    for (int i = 0; i < 3; i++) { h.open(); h.regClient_(2 + i, 3 + i, 1 + (i & 1)); }
    int k = (int)vp_param("steps", 3); for (int s = 0; s < k; s++) h.step(6, 5, false);
    int gone = 0; for (int i = 0; i < 5; i++) gone += !h.there(i); if (gone > 1) vp_cover("several connections gone"); if (h.anyPending()) vp_cover("a close is pending");
    h.t->log();
}
// any 32-bit socket address
extern "C" void address()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), o = addServer(t, 2), c1 = addClient(t, 3, 1), c2 = addClient(t, 4, 1), c3 = addClient(t, 5, 2);
    int a1 = 1, a2 = 2; t->out.clear();
    // the handler is called as the JSON-RPC dispatcher does it
    struct Caller : public TransportClient { Caller(TransportInterface *i, const QUuid &u) : TransportClient(i, u, QHostAddress(), nullptr) {} QList<QByteArray> processData(const QByteArray &) override { return QList<QByteArray>(); } }; Caller *tc = new Caller(t, t->id(s));
    quint32 a = (quint32)vp_sym(32, "address"); QVariantMap p; p.insert("socketAddress", QVariant((uint)a));
    TunnelProxyHandler handler; JsonReply *r = handler.DisconnectClient(p, tc); QString e = r->data().value("tunnelProxyError").toString(); logs("error", e); env_run();
    if (a == (quint32)a1 || a == (quint32)a2) { vp_cover("known address"); int c = a == (quint32)a1 ? c1 : c2; vp_assert(e == "TunnelProxyErrorNoError" && t->kills(c) == 1 && !t->alive.at(c), "client not disconnected"); vp_assert(t->kills(c == c1 ? c2 : c1) == 0, "another client disconnected"); vp_assert(t->sends(s) == 1 && parseApiFrame(t->last(s)).value("notification").toString() == "TunnelProxy.ClientDisconnected", "server not notified"); }
    else { vp_cover("unknown address"); vp_assert(e == "TunnelProxyErrorUnknownSocketAddress", "unknown socket address not reported"); vp_assert(t->kills(c1) == 0 && t->kills(c2) == 0, "client disconnected for another address"); }
    vp_assert(t->kills(c3) == 0 && t->kills(o) == 0 && t->kills(s) == 0, "connection of another tunnel closed");
}
// the same over the wire, for particular values
extern "C" void wire()
{
    static const quint32 v[] = { 0, 1, 2, 3, 0xFFFF, 0x10000, 0x10001, 0x10002, 0xFFFF0001u, 0xFFFFFFFFu };
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 3, 1), c2 = addClient(t, 4, 1); t->out.clear(); t->deferKill = vp_bool("defer");
    quint32 a = v[vp_choice(10, "value")]; t->feed(s, slip(0, req(9, "TunnelProxy.DisconnectClient", QByteArray("{\"socketAddress\":").append(QByteArray::number(a)).append("}")))); t->settle(); env_run();
    vp_assert(t->kills(c1) == (a == 1) && t->kills(c2) == (a == 2) && t->kills(s) == 0, "wrong connection closed"); int resp = 0, note = 0;
    for (int i = 0; i < t->out.size(); i++) if (!t->out.at(i).kill && t->out.at(i).conn == s) { QVariantMap m = parseApiFrame(t->out.at(i).data); if (m.contains("notification")) { note++; vp_assert(m.value("notification").toString() == "TunnelProxy.ClientDisconnected" && m.value("params").toMap().value("socketAddress").toUInt() == a, "notification names another client"); } else { resp++; vp_assert(okResp(m, 9) && error(m) == (a == 1 || a == 2 ? "TunnelProxyErrorNoError" : "TunnelProxyErrorUnknownSocketAddress"), "wrong result"); } }
    vp_assert(resp == 1 && note == (a == 1 || a == 2 ? 1 : 0), "answers"); if (a == 1) vp_cover("disconnected"); if (a == 0x10001) vp_cover("large value"); t->log();
}
