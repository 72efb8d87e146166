// C25: monitor client.
#include "h.h"
#include "monitorclient.h"
struct Rec { QList<QVariantMap> got; int conn, disc; };
static MonitorClient *client(Rec &r) { MonitorClient *c = new MonitorClient("mon.sock", false); r.conn = r.disc = 0; Rec *p = &r; QObject::connect(c, &MonitorClient::dataReady, c, [p](const QVariantMap &m) { p->got.append(m); }); QObject::connect(c, &MonitorClient::connected, c, [p]() { p->conn++; }); QObject::connect(c, &MonitorClient::disconnected, c, [p]() { p->disc++; }); return c; }
static Sock *sock(MonitorClient *c) { Sock *s = nullptr; for (int i = 0; i < env_socks().size(); i++) if (env_socks().at(i)->o && env_socks().at(i)->o->parent() == c) s = env_socks().at(i); vp_assert(s != nullptr, "no socket"); return s; }
static const char *REP[] = { "{\"a\":1}\n", "{\"serverName\":\"x\",\"tunnelProxyStatistic\":{\"l\":[{\"n\":{}},{}],\"s\":\"}\"}}\n", "{}\n", "{\"b\":{\"c\":{\"d\":{}}}}\n", "{\"t\":\"}\\n{\",\"u\":\"\\u007d\\n\"}\n" };
static QVariantMap val(const QByteArray &d) { return QJsonDocument::fromJson(d).toVariant().toMap(); }
static void expect(const Rec &r, const QList<QByteArray> &w) { vp_assert(r.got.size() == w.size(), "number of reports"); for (int i = 0; i < w.size(); i++) vp_assert(r.got.at(i) == val(w.at(i)), "report differs"); }
// any two reads
extern "C" void cuts()
{
    Rec r; MonitorClient *c = client(r); c->connectMonitor(); Sock *s = sock(c); env_connected(s); int n = vp_choice((int)vp_param("reports", 3), "reports") + 1; QByteArray all; QList<QByteArray> w; for (int i = 0; i < n; i++) { int k = vp_choice(5, "report"); all += REP[k]; w.append(QByteArray(REP[k])); }
    int a = vp_choice(all.size() + 1, "cut"), step = (int)vp_param("gap", 3), b = a + vp_choice(step, "gap"); if (b > all.size()) b = all.size(); if (a) env_feed(s, all.left(a)); if (b > a) env_feed(s, all.mid(a, b - a)); if (b < all.size()) env_feed(s, all.mid(b)); expect(r, w); vp_cover("reports"); logi("n", r.got.size());
}
extern "C" void pieces()
{
    Rec r; MonitorClient *c = client(r); c->connectMonitor(); Sock *s = sock(c); env_connected(s); QByteArray all; QList<QByteArray> w; for (int i = 0; i < 5; i++) { all += REP[i]; w.append(QByteArray(REP[i])); } int p = vp_choice(16, "size") + 1; for (int i = 0; i < all.size(); i += p) { env_feed(s, all.mid(i, p)); int done = 0, pos = 0; for (int k = 0; k < 5; k++) { pos += w.at(k).size(); done += pos <= i + p; } vp_assert(r.got.size() == done, "report not delivered as soon as it is complete"); } expect(r, w); vp_cover("pieces");
}
// values with any characters
extern "C" void content()
{
    Rec r; MonitorClient *c = client(r); c->connectMonitor(); Sock *s = sock(c); env_connected(s); QByteArray b = symBytes((int)vp_param("len", 2), "char"); for (int i = 0; i < b.size(); i++) vp_assume((uint8_t)b.at(i) < 128); QVariantMap m; m.insert("name", QString::fromLatin1(b)); QByteArray d = QJsonDocument::fromVariant(m).toJson(QJsonDocument::Compact) + "\n"; int cut = vp_choice(d.size() < 16 ? d.size() : 16, "cut"); if (cut) env_feed(s, d.left(cut)); env_feed(s, d.mid(cut)); vp_assert(r.got.size() == 1 && r.got.at(0).value("name").toString() == QString::fromLatin1(b), "name differs"); vp_cover("content");
}
// refresh requests
extern "C" void requests()
{
    Rec r; MonitorClient *c = client(r); int k = (int)vp_param("steps", 5); Sock *s = nullptr; int st = 0; bool all = false; QByteArray want; int nc = 0, nd = 0; // 0 idle 1 connecting 2 connected
    for (int i = 0; i < k; i++) {
        switch (vp_choice(7, "op")) {
        case 0: if (st == 0) { c->connectMonitor(); s = sock(c); st = 1; want.clear(); s->tx.clear(); } break;
        case 1: vp_assume(st == 1); env_connected(s); st = 2; nc++; break;
        case 2: vp_assume(st == 1); env_refused(s); st = 0; break;
        case 3: { QByteArray before = s ? s->tx : QByteArray(); c->refresh(); QByteArray add = s ? s->tx.mid(before.size()) : QByteArray(); if (st != 2) { vp_assert(add.isEmpty(), "refresh request sent while not connected"); break; } vp_assert(add.endsWith("\n"), "request not terminated"); QVariantMap m = val(add); vp_assert(m.value("method").toString() == "refresh", "not a refresh request"); vp_assert(m.value("params").toMap().value("printAll").toBool() == all, "request asks for other servers"); vp_cover("request sent"); break; }
        case 4: all = vp_bool("all"); c->setPrintAll(all); vp_assert(c->printAll() == all, "option"); break;
        case 5: vp_assume(st == 2); env_feed(s, "{\"part"); env_peer_close(s); st = 0; nd++; break;
        case 6: vp_assume(st == 2); c->disconnectMonitor(); st = 0; nd++; break;
        }
        env_run(); vp_assert(r.conn == nc && r.disc == nd, "connected and disconnected reports");
    }
    if (st == 2) { int n = r.got.size(); env_feed(s, REP[0]); vp_assert(r.got.size() == n + 1 && r.got.last() == val(REP[0]), "report after a reconnect"); vp_cover("connected in the end"); } else vp_assert(r.got.isEmpty(), "report out of nothing");
}
// long reports
extern "C" void sizes()
{
    Rec r; MonitorClient *c = client(r); c->connectMonitor(); Sock *s = sock(c); env_connected(s); int n = SIZES[vp_choice((int)vp_param("few", 1) ? FEWSIZES : NSIZES, "size")]; uint8_t b = vp_byte("byte"); vp_assume(b >= 'a' && b <= 'z'); QByteArray name(n, 'x'); name.data()[n - 1] = (char)b; QByteArray d = "{\"name\":\"" + name + "\"}\n{\"second\":1}\n"; int p = readSize(d.size()); for (int i = 0; i < d.size(); i += p) env_feed(s, d.mid(i, p)); vp_assert(r.got.size() == 2, "number of reports"); vp_assert(eqBytes(r.got.at(0).value("name").toString().toUtf8(), name) && r.got.at(1).value("second").toInt() == 1, "report differs"); vp_cover("long report");
}
