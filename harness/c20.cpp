// C20: unix socket transport.
#include "trans.h"
extern "C" void histories() { Trans t(Trans::Unix); int k = (int)vp_param("steps", 4); for (int i = 0; i < k; i++) t.step((int)vp_param("socks", 2)); t.finish(); vp_cover("histories"); }
extern "C" void bytes()
{
    Trans t(Trans::Unix); int n = (int)vp_param("len", 6); for (int i = 0; i < 2; i++) t.open(false);
    int k = vp_choice(n, "length") + 1; QByteArray d = symBytes(k, "byte"); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("bytes");
}
// the socket file
extern "C" void file()
{
    int prior = vp_choice(2, "prior"); if (prior) { QFile f("transport.sock"); f.open(QIODevice::WriteOnly); f.close(); }
    Trans t(Trans::Unix); t.open(false); t.data(0, "x"); t.settle(); t.stop(); for (int i = 0; i < 2; i++) { t.start(); t.open(false); t.data(i + 1, "y"); t.send(i + 1, "z"); t.settle(); t.stop(); } t.finish(); UnixSocketServer bad("/nonexistent/dir/sock"); vp_assert(!bad.startServer() && !bad.running(), "start on an impossible name"); vp_cover("restarted");
}
// long data, many pieces, many connections
extern "C" void sizes()
{
    Trans t(Trans::Unix); for (int i = 0; i < 2; i++) { t.open(false); } QByteArray d = longBytes((int)vp_param("few", 1)); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("long data"); logi("n", d.size());
}
extern "C" void many()
{
    Trans t(Trans::Unix); int n = (int)vp_param("conns", 40); for (int i = 0; i < n; i++) { t.open(false); } t.settle(); for (int i = 0; i < n; i++) { t.data(i, "in" + QByteArray::number(i)); t.send(n - 1 - i, "out" + QByteArray::number(i)); } t.settle(); int k = vp_choice(n, "who"); t.kill(k); t.peerClose((k + n / 2) % n); t.settle(); for (int i = 0; i < n; i++) { t.data(i, "again"); if (t.live(i)) t.send(i, "again"); } for (int i = 0; i < 300; i++) t.data((k + 1) % n, "x"); t.settle(); vp_cover("many connections"); t.finish();
}
