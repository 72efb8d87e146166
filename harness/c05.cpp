// C05: tunnels are isolated. Histories of registrations, data and disconnects over several connections.
#include "hist.h"
extern "C" void histories()
{
    Hist h(ISO); h.t->deferKill = vp_bool("defer");
    int k = (int)vp_param("steps", 4), n = (int)vp_param("conns", 4); bool any = false;
    for (int s = 0; s < k; s++) h.step(n, (int)vp_param("uuids", 3), false);
    if (h.tunnelled) vp_cover("tunnel data forwarded");
    h.t->log();
}
// two servers with two clients each, then arbitrary data, registrations and disconnects
extern "C" void established()
{
    Hist h(ISO); h.t->deferKill = vp_bool("defer");
    h.open(); h.regServer_(0, 1); h.open(); h.regServer_(1, 2);
    for (int i = 0; i < 4; i++) { h.open(); h.regClient_(2 + i, 3 + i, 1 + (i & 1)); }
    int k = (int)vp_param("steps", 3); for (int s = 0; s < k; s++) h.step(7, 6, false);
    if (h.tunnelled > 1) vp_cover("data in several tunnels"); h.t->log();
}
