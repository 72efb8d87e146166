// C24: monitor server.
#include "proxy.h"
struct Mon {
    FakeTransport *t; QList<Sock *> m; QList<bool> open; QList<int> sent;
    Mon() { t = startProxy(); addServer(t, 1, "one"); addClient(t, 2, 1, "cli"); addServer(t, 3, "two"); t->out.clear(); }
    int connect(bool defer) { Sock *s = env_incoming_local("monitor.sock"); vp_assert(s != nullptr, "monitor not accepted"); s->deferClose = defer; m.append(s); open.append(true); sent.append(0); quiet(-1); return m.size() - 1; }
    void quiet(int except) { for (int i = 0; i < m.size(); i++) if (i != except) { vp_assert(m.at(i)->tx.size() == sent.at(i), "answer to another monitor"); vp_assert(!open.at(i) || (m.at(i)->state == QAbstractSocket::ConnectedState && !m.at(i)->closedByCode), "another monitor closed"); } vp_assert(t->out.isEmpty(), "monitor affects the proxy"); }
    // what: 0 no answer and closed, 1 report of active servers, 2 report of all
    void request(int i, const QByteArray &d, int what)
    {
        if (!open.at(i)) return; env_feed(m.at(i), d); QByteArray tx = m.at(i)->tx; QByteArray add = tx.mid(sent.at(i));
        if (!what) { vp_assert(add.isEmpty(), "answer to an invalid request"); vp_assert(m.at(i)->closedByCode, "invalid request does not close the connection"); open[i] = false; quiet(i); return; }
        vp_assert(m.at(i)->state == QAbstractSocket::ConnectedState && !m.at(i)->closedByCode, "valid request closes the connection"); vp_assert(add.endsWith("\n") && add.count('\n') == 1, "not exactly one newline terminated document"); QVariantMap r = parseJson(add); sent[i] = tx.size();
        QJsonDocument w = QJsonDocument::fromVariant(Engine::instance()->buildMonitorData(what == 2)); vp_assert(QJsonDocument::fromJson(add) == w, "report differs from the current statistics");
        vp_assert(r.value("serverName").toString() == "testproxy" && r.contains("serverVersion") && r.contains("apiVersion"), "report is not about the server"); QVariantList l = r.value("tunnelProxyStatistic").toMap().value("tunnelConnections").toList(); int ns = 0, act = 0; for (int k = 0; k < t->alive.size(); k++) { if (k == 0 && t->alive.at(0)) { ns++; act += t->alive.at(1); } if (k == 2 && t->alive.at(2)) ns++; } vp_assert(l.size() == (what == 2 ? ns : act), "servers in the report"); quiet(i); vp_cover("report");
    }
    void close(int i) { if (m.at(i)->state == QAbstractSocket::ConnectedState || m.at(i)->state == QAbstractSocket::ClosingState) env_peer_close(m.at(i)); open[i] = false; quiet(i); }
    void settle() { env_run(); for (int i = 0; i < m.size(); i++) if (m.at(i)->state == 0) vp_assert(!m.at(i)->o, "socket of a closed monitor not released"); }
};
struct Q { const char *text; int what; };
static const Q QS[] = { { "{\"method\":\"refresh\"}", 1 }, { "{\"method\":\"refresh\",\"params\":{\"printAll\":true}}\n", 2 }, { "{\"method\":\"refresh\",\"params\":{\"printAll\":false}}\n", 1 }, { "{\"method\":\"refresh\",\"params\":{}}", 1 }, { " {\"params\":{\"printAll\":true,\"x\":1},\"method\":\"refresh\",\"id\":3}\n", 2 },
    { "{\"method\":\"Refresh\"}", 0 }, { "{}", 0 }, { "[]", 0 }, { "{\"method\":\"refresh\"", 0 }, { "{\"method\":5}", 0 }, { "refresh\n", 0 }, { "{\"params\":{\"printAll\":true}}", 0 }, { "[\"refresh\"]", 0 }, { "{\"method\":\"refresh\"}{\"method\":\"refresh\"}", 0 } };
extern "C" void requests()
{
    Mon m; bool two = vp_bool("two"); int a = m.connect(vp_bool("defer")), b = two ? m.connect(false) : -1; int k = (int)vp_param("requests", 3);
    for (int i = 0; i < k; i++) { int w = two && vp_bool("other") ? b : a; int q = vp_choice(14, "request"); m.request(w, QByteArray(QS[q].text), QS[q].what); m.settle(); if (!QS[q].what) vp_cover("closed"); }
}
// any bytes
extern "C" void garbage() { Mon m; int a = m.connect(vp_bool("defer")), b = m.connect(false); int n = vp_choice((int)vp_param("len", 4), "length") + 1; QByteArray d = symBytes(n, "byte"); m.request(a, d, 0); m.settle(); m.request(b, "{\"method\":\"refresh\"}", 1); vp_cover("another monitor is served"); }
// one byte of a valid request replaced
extern "C" void flipped()
{
    Mon m; int a = m.connect(false); QByteArray d(QS[1].text); int p = vp_choice(d.size(), "position"); d[p] = (char)vp_byte("byte"); QJsonParseError e; QVariantMap j = QJsonDocument::fromJson(d, &e).toVariant().toMap(); bool ok = e.error == QJsonParseError::NoError && j.value("method").type() == QVariant::String && j.value("method").toString() == "refresh";
    QVariant v = j.value("params").toMap().value("printAll"); vp_assume(!v.isValid() || v.type() == QVariant::Bool); bool all = ok && v.toBool(); m.request(a, d, ok ? all ? 2 : 1 : 0); if (ok) vp_cover("still valid"); else vp_cover("invalid now");
}
// monitors come and go while the proxy works
extern "C" void histories()
{
    Mon m; int k = (int)vp_param("steps", 4);
    for (int i = 0; i < k; i++) {
        int n = m.m.size(); int op = vp_choice(5, "op");
        switch (op) {
        case 0: vp_assume(n < 2); m.connect(vp_bool("defer")); break;
        case 1: { vp_assume(n); int q = vp_choice(4, "request"); static const int S[] = { 0, 1, 5, 8 }; m.request(vp_choice(n, "monitor"), QByteArray(QS[S[q]].text), QS[S[q]].what); break; }
        case 2: vp_assume(n); m.close(vp_choice(n, "monitor")); break;
        case 3: { int c = vp_choice(3, "conn"); m.t->drop(c); m.t->settle(); m.t->out.clear(); break; }
        case 4: m.t->feed(0, slip(1, "data")); m.t->out.clear(); env_advance(500); m.t->out.clear(); break;
        }
        m.settle();
    }
    vp_cover("histories");
}
// any method name near or of the length of the valid one
extern "C" void methods()
{
    Mon m; int a = m.connect(false); QByteArray n("refresh"); int how = vp_choice(4, "how"), p = vp_choice(n.size() + 1, "position"), k = vp_choice((int)vp_param("len", 2), "length") + 1; QByteArray b = symBytes(how == 3 ? 7 : k, "byte"); for (int i = 0; i < b.size(); i++) { uint8_t c = b.at(i); vp_assume(c >= 32 && c < 127 && c != '"' && c != '\\'); }
    switch (how) { case 0: n = n.left(p) + b + n.mid(p); break; case 1: n = n.left(p) + b + n.mid(p + k); break; case 2: n = n.left(p) + b; break; case 3: vp_assume(p == 0 && k == 1); n = b; break; }
    bool ok = n == "refresh"; m.request(a, "{\"method\":\"" + n + "\"}\n", ok ? 1 : 0); m.settle(); if (ok) vp_cover("the method"); else vp_cover("another method");
}
