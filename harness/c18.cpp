// C18: life cycle of the tunnel socket server of the client library.
#include "cls.h"
static void step(ServerModel &m)
{
    switch (vp_choice(12, "op")) {
    case 0: if (vp_bool("invalid")) { vp_assert(!m.v->startServer(QUrl()), "started without URL"); break; } m.start(); break;
    case 1: m.stop(); break;
    case 2: if (m.ph == 1) m.transportUp(); else if (m.ph == 2) m.encrypted(); else { vp_assume(m.ph == 6); env_connected(m.s); m.lost(); } break;
    case 3: vp_assume(m.ph == 1 || m.ph == 6); env_refused(m.s); m.lost(); break;
    case 4: vp_assume(m.ph == 3 || m.ph == 4); m.answer(vp_choice(5, "answer")); break;
    case 5: vp_assume(m.ph >= 2 && m.ph <= 5); env_peer_close(m.s); m.lost(); break;
    case 6: { vp_assume(m.ph >= 3 && m.ph <= 5 && m.kind != Plain); env_peer_closing(m.s); m.lost(); m.check(); env_run(); m.check(); env_drain(m.s); break; }
    case 7: vp_assume(m.ph == 5 && m.kind < Web && m.k.size() < 3); m.client(m.k.size() + 1); break;
    case 8: vp_assume(m.ph == 5 && m.kind < Web); m.left(vp_choice(2, "address") + 1); break;
    case 9: vp_assume(m.ph == 5 && m.kind < Web); { QByteArray d; d.append((char)vp_byte("rx")); m.data(vp_choice(2, "to") + 1, d); } break;
    case 10: { static const int T[] = { 1, 4999, 5000, 12000, 31000, 95000 }; m.pass(T[vp_choice(6, "ms")]); } break;
    case 11: vp_assume(m.ph == 5 && m.kind < Web && m.pings > 0); m.frame(0, "{\"id\":" + num(m.id) + ",\"status\":\"success\"}\n"); break;
    }
    if (vp_bool("settle")) env_run(); m.check();
}
static void finish(ServerModel &m)
{
    if (m.wUp) vp_cover("running"); if (m.wDown) vp_cover("lost");
    if (m.ph == 0 && m.enabled) { int n = attempts(); m.pass(5000); vp_assert(attempts() == n + 1, "does not reconnect"); vp_cover("reconnects"); env_refused(m.s); m.lost(); m.check(); m.pass(5000); vp_assert(attempts() == n + 2, "gives up reconnecting"); m.transportUp(); if (m.kind == Tls) m.encrypted(); m.answer(0); m.answer(0); m.check(); vp_cover("running again"); m.pass(61000); }
    if (vp_bool("destroy")) { Sock *s = m.s; delete m.v; env_run(); vp_assert(!s || !s->o, "transport left behind"); } else { m.stop(); if (m.ph == 6) { env_refused(m.s); m.lost(); } m.check(); int n = attempts(); env_advance(100000); vp_assert(attempts() == n, "reconnects after stopServer"); m.check(); }
}
extern "C" void histories() { ServerModel m(Kind(vp_choice(3, "kind"))); m.walk(vp_choice(6, "start")); int n = (int)vp_param("steps", 2); for (int i = 0; i < n; i++) step(m); finish(m); if (m.connSig) vp_cover("clients"); logi("up", m.runUp); }
extern "C" void running() { ServerModel m(Kind(vp_choice(2, "kind"))); m.walk(5); m.client(1); if (vp_bool("second")) m.client(2); int n = (int)vp_param("steps", 2); for (int i = 0; i < n; i++) step(m); finish(m); if (m.discSig) vp_cover("clients"); logi("up", m.runUp); }
// the network is down from the beginning
extern "C" void unreachable()
{
    ServerModel m(Kind(vp_choice(3, "kind"))); env_refuse_now = true; vp_assert(m.v->startServer(urlOf(m.kind)), "startServer"); env_run(); int n = attempts(), k = vp_choice(4, "failures"); vp_assert(n == 1 && !m.v->running(), "attempt"); for (int i = 0; i < k; i++) { env_advance(4999); vp_assert(attempts() == n + i, "reconnects too early"); env_advance(1); vp_assert(attempts() == n + i + 1, "does not keep trying"); }
    if (vp_bool("stop")) { m.v->stopServer(); env_advance(60000); vp_assert(attempts() == n + k, "reconnects after stopServer"); vp_cover("stopped"); return; } env_refuse_now = false; env_advance(5000); m.enabled = true; m.attempt(); m.transportUp(); if (m.kind == Tls) m.encrypted(); m.answer(0); m.answer(0); m.check(); m.pass(31000); vp_cover("running in the end"); logi("k", k);
}
// data at any time postpones the next Ping
extern "C" void keepalive()
{
    ServerModel m(Kind(vp_choice(2, "kind"))); m.walk(5); m.client(1); int n = (int)vp_param("gaps", 3); static const int T[] = { 1, 15000, 29999, 30000, 30001, 59999, 60000 }; for (int i = 0; i < n; i++) { m.pass(T[vp_choice(7, "ms")]); switch (vp_choice(3, "event")) { case 0: m.data(1, "x"); break; case 1: m.rx(slip(1, "partial").left(4)); m.rx(slip(1, "partial").mid(4)); m.k.at(0)->want << "partial"; m.pingAt = env_now() + 30000; break; case 2: break; } m.check(); } vp_cover("kept alive"); logi("pings", m.pings);
}
