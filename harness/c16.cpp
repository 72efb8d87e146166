// C16: answers are matched to the requests of the client library.
#include "cl.h"
#include "proxyjsonrpcclient.h"
struct Conn : public ProxyConnection { QList<QByteArray> sentData; void sendData(const QByteArray &d) override { sentData.append(d); } void ignoreSslErrors() override {} void ignoreSslErrors(const QList<QSslError> &) override {} void connectServer(const QUrl &) override {} void disconnectServer() override {} };
struct Pending { JsonReply *r; int id, done; QVariantMap resp; };
struct M {
    Conn con; JsonRpcClient *c; QList<Pending> p; int noteIn, noteOut, est; QString name, addr; QUuid uuid; int sa;
    M() : noteIn(0), noteOut(0), est(0), sa(-1)
    {
        c = new JsonRpcClient(&con);
        QObject::connect(c, &JsonRpcClient::tunnelProxyClientConnected, c, [this](const QString &n, const QUuid &u, const QString &a, quint16 s) { noteIn++; name = n; uuid = u; addr = a; sa = s; });
        QObject::connect(c, &JsonRpcClient::tunnelProxyClientDisonnected, c, [this](quint16 s) { noteOut++; sa = s; });
        QObject::connect(c, &JsonRpcClient::tunnelEstablished, c, [this](const QString &, const QString &) { est++; });
    }
    int call(int k)
    {
        static const QUuid A(0xa1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), B(0xb1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12); int n = con.sentData.size(); JsonReply *r;
        switch (k) { case 0: r = c->callHello(); break; case 1: r = c->callRegisterServer(A, "server"); break; case 2: r = c->callRegisterClient(A, "client", B); break; case 3: r = c->callDisconnectClient(0xC0DB); break; default: r = c->callPing(1234); break; }
        vp_assert(con.sentData.size() == n + 1, "not sent exactly once"); QByteArray d = con.sentData.last(); if (k >= 3) { QList<Fr> l = frames(d); vp_assert(l.size() == 1 && l.at(0).address == 0, "not one frame to the API"); d = l.at(0).data; }
        vp_assert(d.endsWith("\n"), "request not terminated"); QVariantMap m = json(d), q = m.value("params").toMap(); static const char *ME[] = { "RemoteProxy.Hello", "TunnelProxy.RegisterServer", "TunnelProxy.RegisterClient", "TunnelProxy.DisconnectClient", "TunnelProxy.Ping" }; vp_assert(m.value("method").toString() == ME[k], "method");
        if (k == 1) vp_assert(QUuid(q.value("serverUuid").toString()) == A && q.value("serverName").toString() == "server", "parameters"); if (k == 2) vp_assert(QUuid(q.value("clientUuid").toString()) == A && q.value("clientName").toString() == "client" && QUuid(q.value("serverUuid").toString()) == B, "parameters"); if (k == 3) vp_assert(q.value("socketAddress").toInt() == 0xC0DB, "parameters"); if (k == 4) vp_assert(q.value("timestamp").toInt() == 1234, "parameters");
        bool ok = false; Pending x; x.r = r; x.id = m.value("id").toInt(&ok); vp_assert(ok, "request without id"); x.done = 0; for (int i = 0; i < p.size(); i++) vp_assert(p.at(i).done || p.at(i).id != x.id, "id of an unanswered request used again"); int me = p.size(); p.append(x); vp_assert(r->nameSpace() + "." + r->method() == ME[k], "method of the reply");
        QObject::connect(r, &JsonReply::finished, c, [this, me]() { p[me].done++; p[me].resp = p[me].r->response(); }); return me;
    }
    void check(int which, const QList<int> &before, const QByteArray &msg) { for (int i = 0; i < p.size(); i++) vp_assert(p.at(i).done == before.at(i) + (i == which ? 1 : 0), i == which ? "response does not complete its request once" : "another request completed"); if (which >= 0) vp_assert(p.at(which).resp == json(msg), "response differs"); }
    QList<int> dones() const { QList<int> l; for (int i = 0; i < p.size(); i++) l.append(p.at(i).done); return l; }
    int waiting(int id) const { for (int i = 0; i < p.size(); i++) if (!p.at(i).done && p.at(i).id == id) return i; return -1; }
    void response(int id, bool err, bool extra) { QByteArray m = "{\"id\":" + num(id) + (err ? ",\"status\":\"error\",\"error\":\"" : ",\"status\":\"success\",\"params\":{\"tunnelProxyError\":\"") + num(con.sentData.size()) + (err ? "\"" : "\"}") + (extra ? ",\"params2\":{\"notification\":1}" : "") + "}\n"; int w = waiting(id); QList<int> b = dones(); c->processData(m); check(w, b, m); vp_assert(noteIn + noteOut + est == notes, "notification out of nothing"); }
    int notes = 0;
    void note(int id, int kind)
    {
        QByteArray m = kind == 0 ? connectedNote(0x1234 + notes) : kind == 1 ? disconnectedNote(0xFFFE) : QByteArray("{\"id\":7,\"notification\":\"TunnelProxy.Other\",\"params\":{}}\n"); int a = m.indexOf("\"id\":"), e = m.indexOf(',', a); m.replace(a, e - a, "\"id\":" + num(id)); if (vp_bool("status")) m.replace(m.size() - 2, 2, ",\"status\":\"success\"}\n");
        QList<int> b = dones(); int in = noteIn, out = noteOut; c->processData(m); check(-1, b, m); vp_assert(noteIn == in + (kind == 0) && noteOut == out + (kind == 1) && est == 0, "notification not delivered exactly once"); notes += kind < 2;
        if (kind == 0) vp_assert(sa == 0x1234 + notes - 1 && name == "client" && addr == "10.0.0.9" && uuid == QUuid(10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), "parameters of the notification"); if (kind == 1) vp_assert(sa == 0xFFFE, "parameters of the notification");
    }
};
extern "C" void histories()
{
    M m; int n = (int)vp_param("steps", 3), first = vp_choice(3, "outstanding"); for (int i = 0; i < first; i++) m.call(i * 3);
    for (int i = 0; i < n; i++) {
        int op = vp_choice(4, "op");
        if (op == 0) { m.call(vp_choice(5, "method")); }
        else { // any id in use, used, or never used
            int known = m.p.size(), k = vp_choice(known + 2, "id"), id; if (k < known) id = m.p.at(k).id; else { id = k == known ? 4711 : -1; for (int j = 0; j < known; j++) vp_assume(m.p.at(j).id != id); }
            if (op == 1) { bool err = vp_bool("err"); m.response(id, err, vp_bool("extra")); } else if (op == 2) m.note(id, vp_choice(3, "kind")); else { QList<int> b = m.dones(); m.c->processData("{\"id\":" + num(id) + ",}\n"); m.check(-1, b, QByteArray()); }
        }
    }
    int done = 0; for (int i = 0; i < m.p.size(); i++) done += m.p.at(i).done; if (done > 1) vp_cover("several answered"); if (m.notes && done) vp_cover("notified and answered"); logi("done", done);
}
// any answer id against outstanding requests
extern "C" void anyid()
{
    M m; int n = (int)vp_param("requests", 12); for (int i = 0; i < n; i++) m.call(i % 5); int digits = vp_choice((int)vp_param("digits", 2), "digits") + 1; QByteArray d; for (int i = 0; i < digits; i++) { uint8_t b = vp_byte("digit"); vp_assume(b >= '0' && b <= '9'); if (i == 0 && digits > 1) vp_assume(b != '0'); d.append((char)b); }
    QByteArray msg = "{\"id\":" + QByteArray(vp_bool("minus") ? "-" : "") + d + ",\"status\":\"success\"}\n"; m.c->processData(msg); QVariantMap v = json(msg); int id = v.value("id").toInt(), cnt = 0; for (int i = 0; i < n; i++) { vp_assert(m.p.at(i).done == (m.p.at(i).id == id ? 1 : 0), "wrong request completed"); cnt += m.p.at(i).done; } if (cnt) vp_cover("completed"); else vp_cover("unknown id"); logi("cnt", cnt);
}
// any contents of notifications
extern "C" void content()
{
    M m; m.call(0); static const int ADDR[] = { 1, 0xC0DB, 0x7FFF, 0x8000, 0xFFFF }; int addr = ADDR[vp_choice(5, "address")]; QByteArray name = symBytes((int)vp_param("len", 2), "char"); for (int i = 0; i < name.size(); i++) vp_assume((uint8_t)name.at(i) < 128); QVariantMap p, v; p.insert("clientName", QString::fromLatin1(name)); p.insert("clientUuid", "{0000000a-0001-0002-0304-05060708090a}"); p.insert("clientPeerAddress", "::1"); p.insert("socketAddress", addr); v.insert("notification", "TunnelProxy.ClientConnected"); v.insert("id", 0); v.insert("params", p);
    m.c->processData(QJsonDocument::fromVariant(v).toJson(QJsonDocument::Compact) + "\n"); vp_assert(m.noteIn == 1 && m.name == QString::fromLatin1(name) && m.sa == addr && m.addr == "::1" && m.uuid == QUuid(10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10), "parameters of the notification"); vp_assert(m.p.at(0).done == 0, "notification completes a request"); vp_cover("notified"); logi("addr", m.sa);
}
// several messages in one read
extern "C" void batch()
{
    M m; int n = 2 + vp_choice(2, "requests"); for (int i = 0; i < n; i++) m.call(i); QByteArray all; int notes = 0, fill = (int)vp_param("messages", 4); QList<int> want = m.dones(); for (int i = 0; i < fill; i++) { int k = vp_choice(n + 2, "message"); if (k < n) { all += "{\"id\":" + num(m.p.at(k).id) + ",\"params\":{\"a\":{}},\"status\":\"success\"}\n"; want[k] = 1; } else if (k == n) { all += connectedNote(i + 1); notes++; } else { all += "{\"id\":99,\"status\":\"success\"}\n"; } }
    m.c->processData(all); for (int i = 0; i < n; i++) vp_assert(m.p.at(i).done == want.at(i), "request completed"); vp_assert(m.noteIn == notes, "notifications"); vp_cover("batch"); logi("n", notes);
}
