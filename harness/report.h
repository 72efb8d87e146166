// Monitor reports and what a display of them must contain.
#pragma once
#include "h.h"
struct Conn { QString name, address; QUuid uuid; quint64 ts, rx, tx; QList<Conn> clients; };
static const quint64 AMOUNTS[] = { 0, 1, 1023, 1024, 1536, 1048575, 1048576, 5000000, 2147483647ull, 2147483648ull, 4294967296ull, 5368709120ull, 1099511627776ull, 1649267441664ull };
static const quint64 TIMES[] = { 1763510400ull, 1ull, 86399ull, 86400ull, 951782400ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294968ull };
enum { NAMOUNTS = 14, NTIMES = 9 };
static const char *NAMES[] = { "the name", "", "a } b", "%1 and %2", "name with more than thirty characters in it" };
static inline QString traffic(quint64 n) { static const char *U[] = { "B", "KB", "MB", "GB", "TB" }; int u = 0; double d = n; while (u < 4 && n >= (1ull << (10 * (u + 1)))) u++; for (int i = 0; i < u; i++) d /= 1024; return QString::number(d, 'f', 2) + " " + U[u]; }
static inline QString timeText(quint64 s)
{
    quint64 d = s / 86400; int sec = s % 86400, y = 1970; static const int M[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for (;;) { int len = (y % 4 == 0 && y % 100) || y % 400 == 0 ? 366 : 365; if (d < (quint64)len) break; d -= len; y++; }
    bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; int m = 0; for (;; m++) { int len = M[m] + (m == 1 && leap); if (d < (quint64)len) break; d -= len; }
    return QString("%1.%2.%3 %4:%5:%6").arg((int)d + 1, 2, 10, QLatin1Char('0')).arg(m + 1, 2, 10, QLatin1Char('0')).arg(y).arg(sec / 3600, 2, 10, QLatin1Char('0')).arg(sec / 60 % 60, 2, 10, QLatin1Char('0')).arg(sec % 60, 2, 10, QLatin1Char('0'));
}
struct Report {
    QList<Conn> s; int total, servers, clients; quint64 through; QString proxy; QList<QString> tname; QList<int> tcount; int seq;
    Report() : total(0), servers(0), clients(0), through(0), proxy("proxy nine"), seq(0) {}
    Conn conn(int amount, int time, int name) { Conn c; c.name = QString("%1 %2").arg(QString(NAMES[(name + seq) % 5])).arg(seq); c.name = QString(NAMES[(name + seq) % 5]) + (seq % 5 ? QString::number(seq) : QString()); c.address = QString("10.0.%1.%2").arg(seq / 2).arg(seq / 2 * 7 + 1); c.uuid = QUuid((uint)(0xc0 + seq), 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); c.ts = TIMES[(time + seq) % NTIMES]; c.rx = AMOUNTS[(amount + 2 * seq) % NAMOUNTS]; c.tx = AMOUNTS[(amount + 2 * seq + 1) % NAMOUNTS]; seq++; return c; }
    void fill(int ns, const int *nc, int amount, int time, int name) { for (int i = 0; i < ns; i++) { Conn c = conn(amount, time, name); for (int k = 0; k < nc[i]; k++) c.clients.append(conn(amount, time, name)); s.append(c); } servers = ns + 3; for (int i = 0; i < ns; i++) clients += nc[i]; total = clients + servers + 2; through = AMOUNTS[(amount + 5) % 10] % 2000000000; tname << "websocket" << "tcp" << "unix"; tcount << 5 << 17 << 0; }
    static QVariantMap map(const Conn &c, bool server) { QVariantMap m; m.insert("id", "{x}"); m.insert("name", c.name); m.insert("address", c.address); m.insert(server ? "serverUuid" : "clientUuid", c.uuid.toString()); m.insert("timestamp", (qulonglong)c.ts); m.insert("rxDataCount", (qulonglong)c.rx); m.insert("txDataCount", (qulonglong)c.tx); if (server) { QVariantList l; for (int i = 0; i < c.clients.size(); i++) l.append(map(c.clients.at(i), false)); m.insert("clientConnections", l); } return m; }
    QByteArray json() const { QVariantMap r, t, tr; r.insert("serverName", proxy); r.insert("serverVersion", "1.2.3"); r.insert("apiVersion", "0.3"); t.insert("totalClientCount", total); t.insert("serverConnectionsCount", servers); t.insert("clientConnectionsCount", clients); t.insert("troughput", (qulonglong)through); for (int i = 0; i < tname.size(); i++) tr.insert(tname.at(i), tcount.at(i)); t.insert("transports", tr); QVariantList l; for (int i = 0; i < s.size(); i++) l.append(map(s.at(i), true)); t.insert("tunnelConnections", l); r.insert("tunnelProxyStatistic", t); return QJsonDocument::fromVariant(r).toJson(QJsonDocument::Compact) + "\n"; }
    // the lines in which a display shows the connections, in order
    static QString after(const QString &line, const char *tag) { int i = line.indexOf(tag); vp_assert(i >= 0, "no such value in the line"); QString r = line.mid(i + (int)strlen(tag)).trimmed(); int sp = r.indexOf(' '); sp = sp < 0 ? -1 : r.indexOf(' ', sp + 1); return sp < 0 ? r : r.left(sp); }
    void entry(const QString &line, const Conn &c, bool uuid) const { vp_assert(!uuid || line.contains(c.uuid.toString()), "line of another connection"); vp_assert(line.contains(c.address + " "), "address of another connection"); vp_assert(line.contains(timeText(c.ts)), "time of the connection"); QString t = line.trimmed(), n = c.name.trimmed(); vp_assert(t.endsWith(n) && t.left(t.size() - n.size()).trimmed().endsWith("|"), "name of the connection"); vp_assert(after(line, "RX:") == traffic(c.rx), "received data"); vp_assert(after(line, "TX:") == traffic(c.tx), "transmitted data"); }
    void entries(const QStringList &lines, bool uuid) const { int n = 0; for (int i = 0; i < s.size(); i++) { vp_assert(n < lines.size(), "server missing"); entry(lines.at(n++), s.at(i), uuid); for (int k = 0; k < s.at(i).clients.size(); k++) { vp_assert(n < lines.size(), "client missing"); entry(lines.at(n++), s.at(i).clients.at(k), uuid); } } vp_assert(n == lines.size(), "connection shown that does not exist"); }
};
static inline QStringList connLines(const QStringList &all) { QStringList r; for (int i = 0; i < all.size(); i++) if (all.at(i).contains("RX:")) r.append(all.at(i)); return r; }
