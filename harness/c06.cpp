// C06: registration rules.
#include "hist.h"
// the registrations that exist are exactly those of the model
static void registrations(Hist &h)
{
    QVariantMap st = proxy()->currentStatistics(true); int ns = 0, nc = 0; for (int i = 0; i < h.c.size(); i++) if (h.there(i)) { ns += h.c.at(i).role == Server; nc += h.c.at(i).role == Client; }
    vp_assert(st.value("serverConnectionsCount").toInt() == ns && st.value("clientConnectionsCount").toInt() == nc, "registrations that exist differ");
}
static void run(bool invalid)
{
    Hist h(REG); h.t->deferKill = vp_bool("defer"); h.foreign = registrations;
    int k = (int)vp_param("steps", 4), n = (int)vp_param("conns", 4);
    for (int s = 0; s < k; s++) h.step(n, (int)vp_param("uuids", 2), invalid);
    bool srv = false, cli = false; for (int i = 0; i < h.c.size(); i++) { srv |= h.there(i) && h.c.at(i).role == Server; cli |= h.there(i) && h.c.at(i).role == Client; }
    if (srv && cli) vp_cover(invalid ? "both roles" : "server and client registered");
    registrations(h);
    h.t->log();
}
extern "C" void valid() { run(false); }
extern "C" void invalid() { run(true); }
