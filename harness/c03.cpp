// C03: client to server transparency.
#include "proxy.h"
#include "poke.h"
// any address, any payload
extern "C" void anyaddress()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), o = addServer(t, 2); TunnelProxyServerConnection *sc = serverConn(proxy(), uuid(1), 0);
    int want = -1; if (sc) { uint16_t v = (uint16_t)vp_sym(16, "counter"); vp_assume(v < 0xFFFE); if (pokeCounter(sc, v, 0)) want = v + 1; }
    int c = addClient(t, 3, 1); int a = announced(t, s, 3); vp_assert(a > 0 && a < 0xFFFF, "reserved socket address"); t->out.clear();
    int n = vp_choice((int)vp_param("len", 3) + 1, "length"); QByteArray d = symBytes(n, "byte"); if (!n) return; t->feed(c, d);
    vp_assert(t->out.size() == 1 && !t->out.at(0).kill && t->out.at(0).conn == s, "not sent to the server once"); QList<Fr> f = frames(t->out.at(0).data);
    vp_assert(f.size() == 1, "not exactly one frame"); vp_assert(f.at(0).address == a, "frame carries another address"); vp_assert(eqBytes(f.at(0).data, d), "payload differs");
    vp_assert(eqBytes(t->out.at(0).data, slip(a, d)), "not the SLIP encoding"); vp_assert(t->sends(o) == 0, "sent to another server");
    if (((a >> 8) & 255) == 0xC0) vp_cover("address contains the delimiter"); logi("address", a); t->log();
}
// the payload looks like an API request, or is cut JSON, or several requests
extern "C" void apilike()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c = addClient(t, 3, 1), c2 = addClient(t, 4, 1); t->out.clear();
    QByteArray all; int k = (int)vp_param("chunks", 2);
    for (int i = 0; i < k; i++) {
        QByteArray d; switch (vp_choice(6, "payload")) {
        case 0: d = req(1, "RemoteProxy.Hello"); break; case 1: d = regServer(1, 9); break; case 2: d = req(2, "TunnelProxy.DisconnectClient", "{\"socketAddress\":2}"); break;
        case 3: d = slip(2, "x"); break; case 4: d = slip(0, req(1, "RemoteProxy.Hello")); break; case 5: d = QByteArray(20000, '}'); vp_cover("large chunk"); break; }
        t->feed(c, d); env_run(); vp_assert(t->out.size() == i + 1 && !t->out.at(i).kill && t->out.at(i).conn == s, "not sent to the server once"); vp_assert(t->out.at(i).data == slip(1, d), "frame differs");
    }
    vp_assert(t->alive.at(c) && t->alive.at(c2), "connection closed"); logi("n", t->out.size());
}
// interleaved data of clients of two servers
extern "C" void interleaved()
{
    FakeTransport *t = startProxy(); int s1 = addServer(t, 1), s2 = addServer(t, 2); int c[3] = { addClient(t, 3, 1), addClient(t, 4, 1), addClient(t, 5, 2) }; int srv[3] = { s1, s1, s2 }, ad[3] = { 1, 2, 1 }; t->out.clear();
    int k = (int)vp_param("chunks", 4);
    for (int i = 0; i < k; i++) {
        int w = vp_choice(3, "who"); QByteArray d = symBytes(1 + vp_choice(2, "length"), "byte"); int before = t->out.size(); t->feed(c[w], d);
        vp_assert(t->out.size() == before + 1 && t->out.last().conn == srv[w] && !t->out.last().kill, "not sent to the right server once"); vp_assert(eqBytes(t->out.last().data, slip(ad[w], d)), "frame differs");
    }
    vp_cover("all sent"); t->log();
}
// long chunks, many chunks
extern "C" void sizes()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c = addClient(t, 3, 1), c2 = addClient(t, 4, 1); t->out.clear(); QByteArray d = longBytes((int)vp_param("few", 1)); t->feed(c, d); t->feed(c2, "x"); env_run(); vp_assert(t->out.size() == 2, "not sent to the server once"); for (int i = 0; i < 2; i++) vp_assert(!t->out.at(i).kill && t->out.at(i).conn == s, "not sent to the server"); vp_assert(eqBytes(t->out.at(0).data, slip(1, d)) && t->out.at(1).data == slip(2, "x"), "frame differs"); vp_cover("long chunk"); logi("n", d.size());
}
extern "C" void many()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c = addClient(t, 3, 1), c2 = addClient(t, 4, 1); t->out.clear(); int n = (int)vp_param("chunks", 300); uint8_t b = vp_byte("byte"); for (int i = 0; i < n; i++) { QByteArray d("a"); d.append((char)(b + i)); t->feed(i % 3 ? c : c2, d); vp_assert(t->out.size() == i + 1 && t->out.at(i).conn == s && !t->out.at(i).kill, "not sent to the server once"); vp_assert(eqBytes(t->out.at(i).data, slip(i % 3 ? 1 : 2, d)), "frame differs"); } vp_cover("many chunks");
}
