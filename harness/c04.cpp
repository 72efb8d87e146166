// C04: server to client transparency.
#include "proxy.h"
#include "poke.h"
// any address in the frame, any payload; clients at 1, 2, and a client of another server at 1
extern "C" void anyframe()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), o = addServer(t, 2), c1 = addClient(t, 3, 1), c2 = addClient(t, 4, 1), c3 = addClient(t, 5, 2); t->out.clear();
    bool left = vp_bool("left"); if (left) { t->drop(c2); t->out.clear(); }
    uint16_t a = (uint16_t)vp_sym(16, "address"); vp_assume(a != 0); int n = vp_choice((int)vp_param("len", 3) + 1, "length"); QByteArray d = symBytes(n, "byte");
    t->feed(s, slip(a, d)); env_run(); vp_assert(t->sends(o) == 0 && t->sends(c3) == 0 && t->sends(s) == 0, "sent to somebody else"); for (int i = 0; i < t->out.size(); i++) vp_assert(!t->out.at(i).kill, "connection closed");
    int c = a == 1 ? c1 : a == 2 && !left ? c2 : -1; logi("to", c); QByteArray got; for (int i = 0; i < t->out.size(); i++) { vp_assert(t->out.at(i).conn == c, "sent to a client with another address"); got.append(t->out.at(i).data); }
    if (c >= 0) { vp_assert(t->sends(c) <= 1 && (n == 0 || t->sends(c) == 1), "not sent once"); vp_assert(eqBytes(got, d), "payload differs"); if (n > 2) vp_cover("payload delivered"); } else vp_cover("dropped");
    t->log();
}
// a client with any address
extern "C" void anyaddress()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1); TunnelProxyServerConnection *sc = serverConn(proxy(), uuid(1), 0); int c1 = addClient(t, 3, 1);
    if (sc) { uint16_t v = (uint16_t)vp_sym(16, "counter"); vp_assume(v < 0xFFFE); pokeCounter(sc, v, 0); }
    int c2 = addClient(t, 4, 1), a = announced(t, s, 4); t->out.clear(); QByteArray d = symBytes((int)vp_param("len", 2), "byte"); t->feed(s, slip(a, d));
    vp_assert(t->out.size() == 1 && t->out.at(0).conn == c2 && !t->out.at(0).kill, "not sent to the client once"); vp_assert(eqBytes(t->out.at(0).data, d), "payload differs");
    if ((a & 255) == 0xDB) vp_cover("address contains the escape byte"); vp_assert(t->sends(c1) == 0, "sent to another client"); logi("address", a); t->log();
}
// several frames in one read, for clients of two servers, API requests in between
extern "C" void batch()
{
    FakeTransport *t = startProxy(); int s1 = addServer(t, 1), s2 = addServer(t, 2); int c[3] = { addClient(t, 3, 1), addClient(t, 4, 1), addClient(t, 5, 2) }; t->out.clear();
    QByteArray in, want[3]; int srv = vp_choice(2, "server"), k = (int)vp_param("frames", 3);
    for (int i = 0; i < k; i++) { int a = vp_choice(5, "address"); QByteArray d = symBytes(1 + vp_choice(2, "length"), "byte"); if (a == 4) { in.append(slip(0, req(i, "RemoteProxy.Hello"))); continue; } if (a == 3) a = 0x1234 - 1; in.append(slip(a + 1, d)); if (srv == 0 && a < 2) want[a].append(d); if (srv == 1 && a == 0) want[2].append(d); }
    t->feed(srv ? s2 : s1, in); env_run(); for (int i = 0; i < 3; i++) { QByteArray got; for (int j = 0; j < t->out.size(); j++) if (t->out.at(j).conn == c[i]) { vp_assert(!t->out.at(j).kill, "connection closed"); got.append(t->out.at(j).data); } vp_assert(eqBytes(got, want[i]), "payload differs"); if (got.size() > 4) vp_cover("several frames"); }
    t->log();
}
// long payloads, many frames
extern "C" void sizes()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 3, 1), c2 = addClient(t, 4, 1); t->out.clear(); QByteArray d = longBytes((int)vp_param("few", 1)); t->feed(s, slip(1, d)); t->feed(s, slip(2, "x")); env_run(); vp_assert(t->sends(c1) == 1 && t->sends(c2) == 1 && t->out.size() == 2, "not sent to the client once"); vp_assert(eqBytes(t->last(c1), d) && t->last(c2) == "x", "payload differs"); vp_cover("long payload"); logi("n", d.size());
}
extern "C" void many()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c[2] = { addClient(t, 3, 1), addClient(t, 4, 1) }; t->out.clear(); int n = (int)vp_param("frames", 300); uint8_t b = vp_byte("byte"); for (int i = 0; i < n; i++) { QByteArray d("a"); d.append((char)(b + i)); t->feed(s, slip(i % 3 ? 1 : 2, d)); vp_assert(t->out.size() == i + 1 && t->out.at(i).conn == c[i % 3 ? 0 : 1] && !t->out.at(i).kill, "not sent to the client once"); vp_assert(eqBytes(t->out.at(i).data, d), "payload differs"); } vp_cover("many frames");
}
