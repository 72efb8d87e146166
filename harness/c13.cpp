// C13: statistics.
#include "hist.h"
static void compare(Hist &h, bool all)
{
    QVariantMap st = Engine::instance()->buildMonitorData(all).value("tunnelProxyStatistic").toMap(); int nt = 0, ns = 0, nc = 0, listed = 0;
    for (int i = 0; i < h.c.size(); i++) if (h.there(i)) { nt++; ns += h.c.at(i).role == Server; nc += h.c.at(i).role == Client; }
    vp_assert(st.value("totalClientCount").toInt() == nt, "totalClientCount"); vp_assert(st.value("serverConnectionsCount").toInt() == ns, "serverConnectionsCount"); vp_assert(st.value("clientConnectionsCount").toInt() == nc, "clientConnectionsCount"); vp_assert(st.value("transports").toMap().value("fake").toInt() == nt && st.value("transports").toMap().value("tcp").toInt() == 0, "transport counts");
    QVariantList l = st.value("tunnelConnections").toList();
    for (int i = 0; i < h.c.size(); i++) {
        if (!h.there(i) || h.c.at(i).role != Server) continue; int want = 0; for (int j = 0; j < h.c.size(); j++) want += h.there(j) && h.c.at(j).role == Client && h.c.at(j).srv == i;
        int n = 0; QVariantMap m; for (int k = 0; k < l.size(); k++) if (QUuid(l.at(k).toMap().value("serverUuid").toString()) == uuid(h.c.at(i).u)) { n++; m = l.at(k).toMap(); }
        vp_assert(n == (all || want ? 1 : 0), "server listed wrongly"); if (!n) continue; listed++;
        vp_assert(m.value("name").toString() == QString::fromLatin1(h.c.at(i).name), "server name"); vp_assert(m.value("rxDataCount").toULongLong() == h.c.at(i).rx, "bytes received from the server"); vp_assert(m.value("txDataCount").toULongLong() == h.c.at(i).tx, "bytes sent to the server"); vp_assert(m.value("address").toString() == QString("10.0.0.%1").arg(i + 1), "server address");
        QVariantList cl = m.value("clientConnections").toList(); vp_assert(cl.size() == want, "number of clients listed");
        for (int j = 0; j < h.c.size(); j++) if (h.there(j) && h.c.at(j).role == Client && h.c.at(j).srv == i) {
            int f = 0; QVariantMap x; for (int k = 0; k < cl.size(); k++) if (QUuid(cl.at(k).toMap().value("clientUuid").toString()) == uuid(h.c.at(j).u)) { f++; x = cl.at(k).toMap(); } vp_assert(f == 1, "client not listed once");
            vp_assert(x.value("name").toString() == QString::fromLatin1(h.c.at(j).name), "client name"); vp_assert(x.value("rxDataCount").toULongLong() == h.c.at(j).rx, "bytes received from the client"); vp_assert(x.value("txDataCount").toULongLong() == h.c.at(j).tx, "bytes sent to the client"); vp_assert(x.value("address").toString() == QString("10.0.0.%1").arg(j + 1), "client address"); vp_cover("client listed");
        }
    }
    vp_assert(l.size() == listed, "something else listed"); logi("listed", listed); logi("total", nt);
}
extern "C" void histories()
{
    Hist h(STAT); h.t->deferKill = vp_bool("defer"); int k = (int)vp_param("steps", 4); for (int s = 0; s < k; s++) h.step((int)vp_param("conns", 3), 2, false); compare(h, vp_bool("all"));
}
extern "C" void established()
{
    Hist h(STAT); h.t->deferKill = vp_bool("defer"); h.open(); h.regServer_(0, 1); h.open(); h.regServer_(1, 2); for (int i = 0; i < 2; i++) { h.open(); h.regClient_(2 + i, 3 + i, 1); }
    int k = (int)vp_param("steps", 2); for (int s = 0; s < k; s++) h.step(5, 4, false); compare(h, vp_bool("all"));
}
// traffic of arbitrary size
extern "C" void counters()
{
    Hist h(STAT); h.open(); h.regServer_(0, 1); h.open(); h.regClient_(1, 2, 1); int k = (int)vp_param("chunks", 2); static const int L[] = { 0, 1, 255, 300, 1500 };
    for (int i = 0; i < k; i++) { int len = L[vp_choice(5, "length")]; QByteArray d(len, vp_bool("special") ? (char)0xC0 : (char)120); if (!d.size()) continue; switch (vp_choice(4, "way")) { case 0: h.clientData(1, d); break; case 1: h.serverData(0, 1, d); break; case 2: h.serverData(0, 77, d); break; case 3: { QByteArray w = slip(1, d); h.begin(ISO); h.expect(Item::Data, 1, -1, "", -1, d); QList<HConn> before = h.c; h.feed(0, w.left(w.size() / 2)); h.feed(0, w.mid(w.size() / 2)); h.after(before); break; } } }
    compare(h, true);
}
// throughput: payload bytes of the last completed second
extern "C" void throughput()
{
    Hist h(STAT); h.open(); h.regServer_(0, 1); h.open(); h.regClient_(1, 2, 1); env_advance(1000); h.tunnelled = 0; int k = (int)vp_param("seconds", 3); quint64 last = 0;
    for (int s = 0; s < k; s++) {
        env_advance(300); int n = vp_choice(3, "events");
        for (int i = 0; i < n; i++) switch (vp_choice(4, "what")) { case 0: h.clientData(1, QByteArray(10 + s, 'a')); break; case 1: h.serverData(0, 1, QByteArray(100 + s, (char)0xDB)); break; case 2: h.serverData(0, 9, QByteArray(7, 'b')); break; case 3: h.disconnectClient(0, 9); break; }
        env_advance(500); vp_assert(Engine::instance()->buildMonitorData(true).value("tunnelProxyStatistic").toMap().value("troughput").toULongLong() == last, "throughput changes within a second"); env_advance(200); last = h.tunnelled; h.tunnelled = 0; quint64 tp = Engine::instance()->buildMonitorData(true).value("tunnelProxyStatistic").toMap().value("troughput").toULongLong(); logi("tp", tp); vp_assert(tp == last, "throughput of the last second"); if (last > 100) vp_cover("traffic");
    }
}
