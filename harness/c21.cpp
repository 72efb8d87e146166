// C21: web socket transport.
#include "trans.h"
extern "C" void histories() { Trans t(Trans::Web, vp_bool("tls")); int k = (int)vp_param("steps", 4); for (int i = 0; i < k; i++) t.step((int)vp_param("socks", 2)); t.finish(); vp_cover("histories"); }
extern "C" void bytes()
{
    Trans t(Trans::Web, false); int n = (int)vp_param("len", 4); for (int i = 0; i < 2; i++) t.open(false);
    int k = vp_choice(n, "length") + 1; QByteArray d = symBytes(k, "byte"); for (int i = 0; i < k; i++) vp_assume((uint8_t)d.at(i) < 128); if (vp_bool("umlaut")) d.append("\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80"); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("bytes");
}
extern "C" void versions()
{
    Trans t(Trans::Web, vp_bool("tls")); static const int V[] = { 0, 4, 5, 6, 7, 8, 12, 13, 14 }; int v = V[vp_choice(9, "version")]; bool first = vp_bool("first"); if (first) t.open(false); t.open(false, v); t.settle(); if (!first) t.open(false); int ok = first ? 0 : 1; t.data(ok, "x"); t.send(ok, "y"); t.settle(); if (v != 13) vp_cover("rejected"); else vp_cover("accepted");
}
// long data, many pieces, many connections
extern "C" void sizes()
{
    Trans t(Trans::Web, false); for (int i = 0; i < 2; i++) { t.open(false); } QByteArray d = longBytes((int)vp_param("few", 1), true); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("long data"); logi("n", d.size());
}
extern "C" void many()
{
    Trans t(Trans::Web, false); int n = (int)vp_param("conns", 40); for (int i = 0; i < n; i++) { t.open(false); } t.settle(); for (int i = 0; i < n; i++) { t.data(i, "in" + QByteArray::number(i)); t.send(n - 1 - i, "out" + QByteArray::number(i)); } t.settle(); int k = vp_choice(n, "who"); t.kill(k); t.peerClose((k + n / 2) % n); t.settle(); for (int i = 0; i < n; i++) { t.data(i, "again"); if (t.live(i)) t.send(i, "again"); } for (int i = 0; i < 300; i++) t.data((k + 1) % n, "x"); t.settle(); vp_cover("many connections"); t.finish();
}
