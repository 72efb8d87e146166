// C36: command line of the monitor.
#include "report.h"
#include "screen.h"
#include "program.h"
QString &env_stdout();
static bool mayFail, ran, json_, text_, all_, interactive; static const char *why, *path; static Report *rep; static int code = -1;
static QVariantMap request(Sock *s) { vp_assert(s->tx.count('\n') == 1, "not one request"); QJsonParseError e; QVariantMap m = QJsonDocument::fromJson(s->tx, &e).toVariant().toMap(); vp_assert(e.error == QJsonParseError::NoError && m.value("method").toString() == "refresh", "request"); s->tx.clear(); return m.value("params").toMap(); }
static void onExit(int rc)
{
    code = rc; if (!ran) { vp_assert(mayFail, "ends although it can run"); vp_assert(rc != 0, "ends without a failure code"); vp_assert(env_socks().isEmpty() && !env_screen().started && env_stdout().isEmpty(), "runs although the command line is wrong"); vp_cover(why); vp_done(); }
    vp_assert(!interactive && rc == 0, "exit status"); QString o = env_stdout(); if (json_) { QJsonParseError e; vp_assert(QJsonDocument::fromJson(o.toUtf8(), &e) == QJsonDocument::fromJson(rep->json()) && e.error == QJsonParseError::NoError, "document printed differs from the report"); vp_cover("JSON"); } else { rep->entries(connLines(o.split("\n")), true); vp_cover("text"); } vp_assert(!env_screen().started, "terminal used"); logs("out", o); vp_done();
}
static void run()
{
    env_run(); vp_assert(!mayFail, "runs although the command line is wrong"); ran = true; vp_assert(env_socks().size() == 1, "not one connection"); Sock *s = env_socks().at(0); vp_assert(s->kind == Sock::Local && s->connectRequested && s->host == path, "connects elsewhere"); vp_assert(!env_screen().started, "terminal used before the monitor is connected"); if (interactive) { env_screen().h = 16; env_screen().w = 150; }
    env_connected(s); env_run(); rep = new Report; int nc[1] = { 1 }; rep->fill(1, nc, 3, 2, 0); if (interactive) env_advance(1000); QVariantMap p = request(s); vp_assert(p.value("printAll").toBool() == all_, all_ ? "not all connections asked for" : "all connections asked for"); env_feed(s, rep->json()); env_advance(100);
    vp_assert(interactive, "report not printed"); vp_assert(env_screen().started == 1 && !env_screen().ended && env_stdout().isEmpty(), "no screen"); QStringList l = connLines(env_rows(3)); for (int i = 0; i < l.size(); i++) l[i] = l.at(i).trimmed(); rep->entries(l, false); vp_cover("screen"); vp_done();
}
static void option(QList<QByteArray> &a, int form, const char *s, const char *l, const QByteArray &v) { switch (form) { case 0: a << QByteArray("-") + s << v; break; case 1: a << QByteArray("--") + l << v; break; case 2: a << QByteArray("--") + l + "=" + v; break; } }
static void flag(QList<QByteArray> &a, int form, const char *s, const char *l) { a << (form == 0 ? QByteArray("-") + s : QByteArray("--") + l); }
extern "C" void modes()
{
    static const char *P[] = { "my.sock", "none.sock", "sub/my.sock" }; int form = vp_choice(3, "form"), sock = vp_choice(4, "socket"); text_ = vp_bool("text"); json_ = vp_bool("json"); all_ = vp_bool("all"); interactive = !text_ && !json_; QFile f("my.sock"); f.open(QIODevice::WriteOnly); f.close(); QDir().mkpath("sub"); QFile g("sub/my.sock"); g.open(QIODevice::WriteOnly); g.close();
    QList<QByteArray> a; a << "nymea-remoteproxy-monitor"; if (text_) flag(a, form, "n", "non-interactive"); if (sock < 3) { path = P[sock]; option(a, form, "s", "socket", path); } else { path = "/tmp/nymea-remoteproxy-monitor.sock"; vp_assume(!QFile::exists(path)); } if (json_) flag(a, form, "j", "json"); if (all_) flag(a, form, "a", "all");
    mayFail = sock == 1 || sock == 3 || (all_ && interactive); why = sock == 1 ? "socket missing" : sock == 3 ? "default socket missing" : "all in interactive mode"; env_on_exit = onExit; env_on_exec = run; env_program(a); vp_assert(false, "not executed");
    vp_cover("socket missing"); vp_cover("default socket missing"); vp_cover("all in interactive mode"); vp_cover("JSON"); vp_cover("text"); vp_cover("screen");
}
