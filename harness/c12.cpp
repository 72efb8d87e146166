// C12: inactivity timeouts.
#include "proxy.h"
static const int TO[] = { 1, 700, 8000, 30000 };
static FakeTransport *start(int &T) { ProxyConfiguration *cf = testConfig(); T = TO[vp_choice(4, "timeout")]; cf->setInactiveTimeout(T); return startProxy(cf); }
// not registered: closed exactly at the timeout, whatever is sent
extern "C" void unregistered()
{
    int T; FakeTransport *t = start(T); t->deferKill = vp_bool("defer"); int k = (int)vp_param("sends", 2); env_advance(vp_choice(2, "late") ? 300 : 0); int c = t->open(); int at = 0;
    for (int i = 0; i < k; i++) {
        int to; switch (vp_choice(4, "when")) { case 0: to = 0; break; case 1: to = T / 2; break; case 2: to = T - 1; break; default: to = T; } vp_assume(to >= at); env_advance(to - at); at = to; vp_assert(t->kills(c) == (at >= T), "not closed exactly at the timeout"); if (at >= T) { vp_cover("closed"); return; }
        switch (vp_choice(5, "what")) { case 0: t->feed(c, req(1, "RemoteProxy.Hello")); break; case 1: t->feed(c, QByteArray(" ")); break; case 2: t->feed(c, QByteArray()); break; case 3: t->feed(c, req(3, "TunnelProxy.RegisterServer", "{\"serverName\":\"s\",\"serverUuid\":\"{00000000-0000-0000-0000-000000000000}\"}")); break; case 4: t->feed(c, req(1, "TunnelProxy.Ping", "{\"timestamp\":1}")); break; } vp_assert(t->kills(c) == 0, "closed early");
    }
    env_advance(T - 1 - at); vp_assert(t->kills(c) == 0, "closed early"); env_advance(1); vp_assert(t->kills(c) == 1, "not closed exactly at the timeout"); if (t->deferKill) t->settle(); env_advance(100000); vp_assert(t->kills(c) == 1, "closed twice"); vp_cover("closed after data"); t->log();
}
// registered server: 60 seconds after the last data received
extern "C" void server()
{
    int T; FakeTransport *t = start(T); int s = t->open(); env_advance(vp_bool("late") ? T - 1 : 0); t->feed(s, regServer(1, 1)); vp_assert(okResp(parseJson(t->last(s)), 1), "registered"); int c = vp_bool("client") ? addClient(t, 2, 1) : -1;
    int k = (int)vp_param("gaps", 3); static const int G[] = { 1, 30000, 59999, 60000 }; int idle = 0;
    for (int i = 0; i < k; i++) {
        int g = G[vp_choice(4, "gap")]; if (idle + g > 60000) g = 60000 - idle; env_advance(g - 1); vp_assert(t->kills(s) == 0 && t->alive.at(s), "server closed early"); env_advance(1); idle += g;
        if (idle == 60000) { vp_assert(t->kills(s) == 1, "idle server not closed after 60 seconds"); if (c >= 0) vp_assert(t->kills(c) == 1, "client of the closed server stays"); vp_cover("idle server closed"); t->log(); return; } vp_assert(t->kills(s) == 0 && t->alive.at(s), "server closed early");
        switch (vp_choice(c >= 0 ? 6 : 4, "event")) {
        case 0: t->feed(s, slip(0, req(5, "TunnelProxy.Ping", "{\"timestamp\":1}"))); idle = 0; break;
        case 1: t->feed(s, QByteArray("\xC0")); idle = 0; break;
        case 2: t->feed(s, QByteArray("x")); idle = 0; t->feed(s, QByteArray("\xC0")); t->out.clear(); if (!t->alive.at(s)) return; break;
        case 3: break; // nothing
        case 4: t->feed(c, "data"); vp_cover("only the client sends"); break; // does not keep the server alive
        case 5: t->feed(s, slip(1, "data")); idle = 0; break;
        }
    }
    env_advance(60000 - idle - 1); vp_assert(t->kills(s) == 0, "server closed early"); env_advance(1); vp_assert(t->kills(s) == 1, "idle server not closed after 60 seconds"); vp_cover("closed in the end");
}
// registered client: never for inactivity
extern "C" void client()
{
    int T; FakeTransport *t = start(T); int s = addServer(t, 1); int c = t->open(); env_advance(vp_bool("late") ? T - 1 : 0); t->feed(c, regClient(2, 2, 1)); vp_assert(okResp(parseJson(t->last(c)), 2), "registered"); bool sends = vp_bool("sends");
    int k = (int)vp_param("minutes", 6); for (int i = 0; i < k; i++) { env_advance(30000); t->feed(s, slip(0, req(5, "TunnelProxy.Ping", "{\"timestamp\":1}"))); env_advance(30000); if (i == 2 && sends) t->feed(c, "x"); t->feed(s, slip(0, req(5, "TunnelProxy.Ping", "{\"timestamp\":1}"))); vp_assert(t->kills(c) == 0 && t->alive.at(c), "client closed for inactivity"); vp_assert(t->kills(s) == 0, "active server closed"); } vp_cover("still connected");
}
// a failed or late registration does not lift the timeout; timeouts of two connections are independent
extern "C" void independent()
{
    int T; FakeTransport *t = start(T); int a = t->open(); int d = T / 3; env_advance(d); int b = t->open(); int which = vp_choice(3, "registers"); if (which == 1) t->feed(a, regServer(1, 1)); if (which == 2) t->feed(b, regServer(1, 1));
    env_advance(T - 1 - d); vp_assert(t->kills(a) == 0 && t->kills(b) == 0, "closed early"); env_advance(1); vp_assert(t->kills(a) == (which != 1), "first connection"); if (d) vp_assert(t->kills(b) == 0, "second connection closed early"); env_advance(d); vp_assert(t->kills(b) == (which != 2), "second connection"); env_advance(20000); vp_assert(t->kills(a) == (which != 1) && t->kills(b) == (which != 2), "closed without reason"); vp_cover("independent");
}
