// C30: report of the non-interactive monitor.
#include "proxy.h"
#include "report.h"
#include "noninteractivemonitor.h"
QString &env_stdout();
static Report *want; static QByteArray wantJson; static bool jsonMode; static int code;
static QString valueOf(const QStringList &l, const char *label) { int n = 0; QString r; for (int i = 0; i < l.size(); i++) if (l.at(i).contains(label)) { n++; r = l.at(i).mid(l.at(i).indexOf(label) + (int)strlen(label)).trimmed(); } vp_assert(n == 1, "value not shown exactly once"); return r; }
static void onExit(int rc)
{
    code = rc; logs("out", env_stdout()); vp_assert(rc == 0, "exit status of a successful report");
    if (jsonMode) { QJsonParseError e; QByteArray o = env_stdout().toUtf8(); vp_assert(QJsonDocument::fromJson(o, &e) == QJsonDocument::fromJson(wantJson) && e.error == QJsonParseError::NoError, "document printed differs from the report"); vp_cover("printed"); vp_done(); }
    QStringList l = env_stdout().split("\n"); want->entries(connLines(l), true);
    vp_assert(valueOf(l, "Server name:") == want->proxy && valueOf(l, "Server version:") == "1.2.3" && valueOf(l, "API version:") == "0.3", "information about the server"); vp_assert(valueOf(l, "Total client count:") == QString::number(want->total) && valueOf(l, "Server connections:") == QString::number(want->servers) && valueOf(l, "Client connections:") == QString::number(want->clients), "counts"); vp_assert(valueOf(l, "Data troughput:") == traffic(want->through) + " / s", "data rate");
    for (int i = 0; i < want->tname.size(); i++) vp_assert(valueOf(l, ("Connections on " + want->tname.at(i) + ":").toUtf8().constData()) == QString::number(want->tcount.at(i)), "connections of a transport");
    vp_cover("printed"); vp_done();
}
// the real server of the reports: what is shown is what happened
static FakeTransport *T; static int rxS, txS, rxC, txC, svr;
static void onExitLive(int)
{
    QStringList l = env_stdout().split("\n"), c = connLines(l); QStringList sorted = l; sorted.sort(); logs("out", sorted.join("\n")); vp_assert(c.size() == (svr == 2 ? 3 : 2), "connections shown"); int at = c.at(0).contains("10.0.0.1 ") ? 0 : 1; vp_assert(svr == 2 || at == 0, "server not shown first");
    vp_assert(c.at(at).contains(uuid(1).toString(QUuid::WithoutBraces)) && c.at(at).contains("10.0.0.1 ") && c.at(at).endsWith("the one"), "server"); vp_assert(Report::after(c.at(at), "RX:") == traffic(rxS) && Report::after(c.at(at), "TX:") == traffic(txS), "data of the server");
    vp_assert(c.at(at + 1).contains(uuid(2).toString(QUuid::WithoutBraces)) && c.at(at + 1).contains("10.0.0.2 ") && c.at(at + 1).trimmed().endsWith("the client"), "client"); vp_assert(Report::after(c.at(at + 1), "RX:") == traffic(rxC) && Report::after(c.at(at + 1), "TX:") == traffic(txC), "data of the client");
    vp_assert(valueOf(l, "Server name:") == "testproxy" && valueOf(l, "Total client count:") == "3" && valueOf(l, "Server connections:") == "2" && valueOf(l, "Client connections:") == "1" && valueOf(l, "Connections on fake:") == "3", "summary"); vp_cover("live report"); vp_done();
}
static Sock *monitorSock(bool all) { NonInteractiveMonitor *m = new NonInteractiveMonitor("mon.sock", jsonMode, all); (void)m; env_run(); vp_assert(env_socks().size() == 1, "not one connection"); Sock *s = env_socks().at(0); vp_assert(s->kind == Sock::Local && s->connectRequested && s->host == "mon.sock", "connects elsewhere"); env_on_exit = onExit; return s; }
static void deliver(Sock *s, const QByteArray &d) { int cut = vp_choice(3, "reads"); if (cut == 0) env_feed(s, d); else { int at = cut == 1 ? d.size() / 2 : d.size() - 1; env_feed(s, d.left(at)); vp_assert(env_stdout().isEmpty(), "printed before the report was complete"); env_feed(s, d.mid(at)); } env_run(); vp_assert(false, "report not printed"); }
extern "C" void report()
{
    jsonMode = vp_bool("json"); bool all = vp_bool("all"); Sock *s = monitorSock(all); env_connected(s); env_run(); QVariantMap q = parseJson(s->tx); vp_assert(q.value("method").toString() == "refresh" && q.value("params").toMap().value("printAll").toBool() == all, "request"); vp_assert(s->tx.count('\n') == 1, "more than one request");
    int nc[3], ns = vp_choice(4, "servers"); for (int i = 0; i < ns; i++) nc[i] = i < 2 ? vp_choice(i ? 2 : 3, "clients") : 1; Report *r = new Report; int k = (int)vp_param("all", 0); r->fill(ns, nc, vp_choice(NAMOUNTS, "amount"), k ? vp_choice(NTIMES, "time") : ns, k ? vp_choice(5, "name") : nc[0] & 1); want = r; wantJson = r->json(); deliver(s, wantJson);
}
// names of any characters
extern "C" void names()
{
    jsonMode = vp_bool("json"); Sock *s = monitorSock(false); env_connected(s); env_run(); int nc[1] = { 1 }; Report *r = new Report; r->fill(1, nc, 3, 0, 0); QByteArray b = symBytes((int)vp_param("len", 2), "char"); for (int i = 0; i < b.size(); i++) { uint8_t c = b.at(i); vp_assume(c >= 32 && c < 127); } bool umlaut = vp_bool("umlaut"), wide = vp_bool("long"); QString n = QString("n") + QString::fromLatin1(b) + (umlaut ? QString::fromUtf8("\xC3\xA4\xE2\x82\xAC") : QString()) + (wide ? QString(300, QLatin1Char('l')) : QString()) + "."; int who = vp_choice(3, "who"); if (who == 2) { r->proxy = n; vp_cover("name of the proxy"); } else if (who == 1) r->s[0].name = n; else r->s[0].clients[0].name = n; want = r; wantJson = r->json(); deliver(s, wantJson);
}
extern "C" void live()
{
    T = startProxy(); QByteArray a = regServer(1, 1, "the one"), b = regClient(2, 2, 1, "the client"); rxS = a.size(); rxC = b.size(); int s = T->open(); T->feed(s, a); int c = T->open(); T->feed(c, b); addServer(T, 3, "idle one"); int addr = announced(T, s, 2); int n = vp_choice(4, "messages"); for (int i = 0; i < n; i++) { if (vp_bool("up")) { QByteArray d(vp_choice(2, "long") ? 3000 : 5, 'x'); T->feed(c, d); rxC += d.size(); } else { QByteArray d = slip(addr, QByteArray(vp_choice(2, "long") ? 2000 : 3, 'y')); T->feed(s, d); rxS += d.size(); } }
    for (int k = 0; k < T->out.size(); k++) if (!T->out.at(k).kill) { if (T->out.at(k).conn == s) txS += T->out.at(k).data.size(); if (T->out.at(k).conn == c) txC += T->out.at(k).data.size(); }
    jsonMode = false; bool all = vp_bool("all"); svr = all ? 2 : 1; NonInteractiveMonitor *m = new NonInteractiveMonitor("monitor.sock", false, all); (void)m; Sock *x = env_socks().last(); env_on_exit = onExitLive; Sock *y = env_incoming_local("monitor.sock"); vp_assert(x->connectRequested && y, "no connection"); env_connected(x); env_run(); env_feed(y, x->tx); env_run(); env_feed(x, y->tx); env_run(); vp_assert(false, "report not printed");
}
