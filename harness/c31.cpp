// C31: screen of the interactive monitor.
#include "proxy.h"
#include "report.h"
#include "screen.h"
#include "monitor.h"
static Sock *S; static int want;
static void onExit(int rc) { vp_assert(want == 1, "monitor ended"); vp_assert(rc == 0, "exit status"); Screen &s = env_screen(); vp_assert(s.ended == 1 && s.deleted == s.created, "terminal not restored"); vp_cover("left"); vp_done(); }
static void start(int h, int w) { env_screen().h = h; env_screen().w = w; env_on_exit = onExit; Monitor *m = new Monitor("mon.sock", false); (void)m; env_run(); vp_assert(env_socks().size() == 1 && !env_screen().started, "terminal used before the monitor is connected"); S = env_socks().at(0); vp_assert(S->connectRequested && S->host == "mon.sock", "connects elsewhere"); env_connected(S); env_run(); vp_assert(env_screen().started == 1, "no screen"); }
static int requests() { QList<QByteArray> l = S->tx.split('\n'); int n = 0; for (int i = 0; i < l.size(); i++) if (!l.at(i).isEmpty()) { vp_assert(parseJson(l.at(i) + "\n").value("method").toString() == "refresh", "request"); n++; } S->tx.clear(); return n; }
// what is on the screen: the report, or nothing
static void checkScreen(const Report *r)
{
    QStringList head = env_rows(0), c = env_rows(3); vp_assert(head.size() == 3, "header"); vp_assert(c.size() == env_screen().h - 3 && c.at(0).size() == env_screen().w && head.at(0).size() == env_screen().w, "windows do not fill the terminal"); vp_assert(head.at(0).count('-') == env_screen().w - 2 && head.at(2).count('-') == env_screen().w - 2, "border");
    QStringList l = connLines(c); for (int i = 0; i < l.size(); i++) l[i] = l.at(i).trimmed(); logs("screen", head.at(1) + "\n" + l.join("\n"));
    if (!r) { vp_assert(l.isEmpty() && head.at(1).contains("Server: - (-) | API: - | Total: 0 | Servers: 0 | Clients: 0 |"), "shown before any report"); return; }
    r->entries(l, false); vp_assert(head.at(1).contains("Server: " + r->proxy + QString(" (1.2.3) | API: 0.3 | Total: %1 | Servers: %2 | Clients: %3 | %4 / s ").arg(r->total).arg(r->servers).arg(r->clients).arg(traffic(r->through))), "header values");
}
static Report *make(int k) { int nc[3], ns = vp_choice(4, "servers"); for (int i = 0; i < ns; i++) nc[i] = i < 2 ? vp_choice(i ? 2 : 3, "clients") : 1; Report *r = new Report; r->fill(ns, nc, k ? vp_choice(NAMOUNTS, "amount") : 4, k > 1 ? vp_choice(NTIMES, "time") : ns, k > 1 ? vp_choice(5, "name") : nc[0] & 1); return r; }
static void give(const Report *r) { QByteArray d = r->json(); int cut = vp_choice(2, "reads"); if (cut) { env_feed(S, d.left(d.size() / 2)); env_feed(S, d.mid(d.size() / 2)); } else env_feed(S, d); env_advance(100); }
extern "C" void report()
{
    start(16, 150); env_advance(100); checkScreen(0); Report *r = make(vp_param("all", 0) ? 2 : 1); give(r); checkScreen(r); vp_cover("shown");
}
// reports that follow each other; keys and sizes of the terminal in between
extern "C" void follow()
{
    start(14 + 3 * vp_choice(2, "rows"), 140); int n = (int)vp_param("steps", 3); Report *r = 0;
    for (int i = 0; i < n; i++) {
        int k = vp_choice(5, "step"); if (k == 0) { r = make(0); give(r); } else if (k == 1) { static const int K[] = { 0402, 0403, 0404, 0405, 'x' }; int key = vp_choice(5, "key"); env_screen().keys.append(K[key]); env_advance(200); } else if (k == 2) { env_screen().h = 12 + vp_choice(3, "rows2") * 4; env_screen().w = 130 + vp_choice(2, "columns") * 40; env_advance(200); } else if (k == 3) env_advance(1000); else { want = 1; if (vp_bool("gone")) env_peer_close(S); else env_screen().keys.append(27); env_advance(100); vp_assert(false, "monitor not ended"); }
        checkScreen(r);
    }
    vp_cover("followed");
}
// a request within each second
extern "C" void polls()
{
    start(14, 140); int n = 1 + vp_choice(4, "seconds"), got = requests(); vp_assert(got <= 1, "more than one request at once"); Report *r = 0; for (int i = 0; i < n; i++) { env_advance(1000); int k = requests(); vp_assert(k == 1, "not one request each second"); got += k; if (vp_bool("report")) { r = new Report; int nc[2] = { i, 1 }; r->fill(1 + i % 2, nc, i, i, i); env_feed(S, r->json()); env_run(); } } env_advance(100); checkScreen(r); vp_cover("polled");
}
// terminals of any size: what fits is shown, nothing else happens
extern "C" void sizes()
{
    static const int WIDE[] = { 160, 1, 2, 30, 80, 121 }; int m = (int)vp_param("max", 8); int h = 1 + vp_choice(m, "rows"), w = WIDE[vp_choice(6, "columns")]; start(h, w); Report *r = new Report; int nc[2] = { 2, 0 }; r->fill(vp_choice(3, "servers"), nc, 4, 0, 1); give(r);
    bool re = vp_bool("resize"); if (re) { env_screen().h = 1 + vp_choice(m, "rows2"); env_screen().w = WIDE[vp_choice(3, "columns2")]; } env_screen().keys.append(vp_bool("up") ? 0403 : 0402); env_advance(300); int e = 0, fit = env_screen().h - 4; for (int i = 0; i < r->s.size(); i++) e += 1 + r->s.at(i).clients.size();
    if (h > 3 && env_screen().w == 160) { int l = connLines(env_rows(3)).size(); logi("lines", l); if (fit >= 0) vp_assert(l == (e < fit ? e : fit), "not all that fits is shown"); } vp_cover("sized");
}
// names cannot be anything but text on the screen
extern "C" void names()
{
    start(14, 140); int nc[1] = { 1 }; Report *r = new Report; r->fill(1, nc, 3, 0, 0); QByteArray b = symBytes((int)vp_param("len", 2), "char"); for (int i = 0; i < b.size(); i++) { uint8_t c = b.at(i); vp_assume(c >= 32 && c < 127); } QString n = QString("n") + QString::fromLatin1(b) + "."; int who = vp_choice(3, "who"); if (who == 2) { r->proxy = n; vp_cover("name of the proxy"); } else if (who == 1) r->s[0].name = n; else r->s[0].clients[0].name = n; give(r); checkScreen(r); vp_cover("named");
}
