// C19: TCP / TLS transport.
#include "trans.h"
extern "C" void plain() { Trans t(Trans::Tcp, false); int k = (int)vp_param("steps", 4); for (int i = 0; i < k; i++) t.step((int)vp_param("socks", 2)); t.finish(); vp_cover("plain"); }
extern "C" void tls() { Trans t(Trans::Tcp, true); int k = (int)vp_param("steps", 4); for (int i = 0; i < k; i++) t.step((int)vp_param("socks", 2)); t.finish(); vp_cover("tls"); }
// any bytes in both directions
extern "C" void bytes()
{
    Trans t(Trans::Tcp, vp_bool("tls")); int n = (int)vp_param("len", 6); for (int i = 0; i < 2; i++) { t.open(false); if (t.ssl) t.encrypted(i); }
    int k = vp_choice(n, "length") + 1; QByteArray d = symBytes(k, "byte"); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("bytes");
}
// handshake timing
extern "C" void handshake()
{
    Trans t(Trans::Tcp, true); t.open(vp_bool("defer")); int d = vp_choice(3, "gap"); t.pass(d * 1000 + 1); t.open(false); static const int W[] = { 0, 1, 2500, 4997, 4998, 4999 }; int w = W[vp_choice(6, "wait")]; vp_assume(w + d * 1000 + 1 <= 4999 + 1); t.pass(w); int which = vp_choice(3, "which"); if (which < 2) t.encrypted(which);
    for (int i = 0; i < 7; i++) { t.pass(1000); if (vp_bool("early")) break; } if (t.live(1) && !t.c.at(1).ann) t.pass(7000); t.settle(); for (int i = 0; i < 2; i++) if (i == which && t.c.at(i).ann) { vp_assert(t.live(i), "connection with a handshake closed"); t.data(i, "payload"); vp_cover("encrypted connection stays"); } t.pass(60000); t.settle();
    t.finish();
}
// sockets that cannot be taken over, servers that cannot listen
extern "C" void accept()
{
    bool tls = vp_bool("tls"); Trans t(Trans::Tcp, tls); Sock *s = env_incoming_tcp(7001, true); vp_assert(s == nullptr, "refused descriptor kept"); t.quiet(); t.open(false); if (tls) t.encrypted(0); t.data(0, "x"); t.settle(); t.stop(); env_block_port(7001); vp_assert(!t.t->startServer() && !t.t->running() && !t.listening(), "start on an occupied port"); env_unblock_port(7001); t.start(); t.open(false); if (tls) t.encrypted(1); t.data(1, "y"); t.settle(); t.finish(); vp_cover("accepted");
}
// long data, many pieces, many connections
extern "C" void sizes()
{
    Trans t(Trans::Tcp, vp_bool("tls")); for (int i = 0; i < 2; i++) { t.open(false); t.encrypted(i); } QByteArray d = longBytes((int)vp_param("few", 1)); t.data(0, d); t.send(1, d); t.data(1, "other"); t.send(0, "more"); t.settle(); vp_cover("long data"); logi("n", d.size());
}
extern "C" void many()
{
    Trans t(Trans::Tcp, vp_bool("tls")); int n = (int)vp_param("conns", 40); for (int i = 0; i < n; i++) { t.open(false); t.encrypted(i); } t.settle(); for (int i = 0; i < n; i++) { t.data(i, "in" + QByteArray::number(i)); t.send(n - 1 - i, "out" + QByteArray::number(i)); } t.settle(); int k = vp_choice(n, "who"); t.kill(k); t.peerClose((k + n / 2) % n); t.settle(); for (int i = 0; i < n; i++) { t.data(i, "again"); if (t.live(i)) t.send(i, "again"); } for (int i = 0; i < 300; i++) t.data((k + 1) % n, "x"); t.settle(); vp_cover("many connections"); t.finish();
}
