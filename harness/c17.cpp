// C17: frames received and sent by the tunnel socket server of the client library.
#include "cls.h"
struct Ref { QByteArray buf; ServerModel *m; void feed(const QByteArray &d) { for (int i = 0; i < d.size(); i++) { if ((uint8_t)d.at(i) != 0xC0) { buf.append(d.at(i)); continue; } done(); } }
    void done() { QByteArray raw; bool esc = false, bad = false; for (int i = 0; i < buf.size(); i++) { uint8_t b = buf.at(i); if (esc) { if (b == 0xDC) raw.append((char)0xC0); else if (b == 0xDD) raw.append((char)0xDB); else bad = true; esc = false; } else if (b == 0xDB) esc = true; else raw.append((char)b); if (bad) break; } buf.clear(); if (bad || esc || raw.size() < 2) return; int a = ((uint8_t)raw.at(0) << 8) | (uint8_t)raw.at(1); vp_assume(a != 0); TSock *t = m->live(a); if (t && raw.size() > 2) t->want.append(raw.mid(2)); } };
// any bytes, in two reads
extern "C" void anystream()
{
    ServerModel m(Plain); m.walk(5); m.client(1); m.client(0xC0DB); int n = (int)vp_param("len", 7); QByteArray d = symBytes(n, "byte"); if (vp_bool("first")) { d[0] = 0; d[1] = 1; } int cut = vp_choice(n + 1, "cut"); Ref r; r.m = &m; r.feed(d); if (cut) m.rx(d.left(cut)); if (cut < n) m.rx(d.mid(cut)); m.check(); if (m.k.at(0)->want.size()) vp_cover("to the first"); if (m.k.at(0)->want.size() > 1) vp_cover("two frames"); if (m.k.at(1)->want.size()) vp_cover("to the second"); for (int i = 0; i < 2; i++) logb("got", m.all(m.k.at(i)->got));
}
static QByteArray item(int kind, char b, ServerModel &m, QList<int> &now)
{
    QByteArray p; p.append(b); p.append('x'); switch (kind) {
    case 0: now.append(1); return slip(1, p); case 1: now.append(2); return slip(0xC0DB, p); case 2: return slip(77, p); case 3: return QByteArray("\xC0\xC0", 2);
    case 4: return QByteArray("\x00\x01\xDBz\xC0", 5); case 5: return slip(1, QByteArray()); case 6: return QByteArray("\x01\xC0", 2); default: return slip(0, "{\"id\":55,\"status\":\"success\"}\n"); }
}
// frames of eight kinds, two cuts
extern "C" void cuts()
{
    ServerModel m(Plain); m.walk(5); m.client(1); m.client(0xC0DB); QByteArray all; int n = (int)vp_param("frames", 2); for (int i = 0; i < n; i++) { char b = (char)vp_byte("payload"); vp_assume((uint8_t)b != 0xC0 && (uint8_t)b != 0xDB); QList<int> now; all += item(vp_choice(8, "kind"), b, m, now); if (now.size()) { QByteArray p; p.append(b); p.append('x'); m.live(now.at(0) == 1 ? 1 : 0xC0DB)->want.append(p); } } all += slip(1, "end"); m.live(1)->want.append("end");
    int a = vp_choice(all.size() + 1, "cut"), b = a + vp_choice((int)vp_param("gap", 4), "gap"); if (b > all.size()) b = all.size(); if (a) m.rx(all.left(a)); if (b > a) m.rx(all.mid(a, b - a)); if (b < all.size()) m.rx(all.mid(b)); m.check(); vp_cover("delivered"); logb("got", m.all(m.k.at(0)->got));
}
// clients come and go within the stream
extern "C" void lifetime()
{
    ServerModel m(Plain); m.walk(5); QByteArray all = slip(5, "early") + slip(0, connectedNote(5)) + slip(5, "one") + slip(0, connectedNote(0xDBC0)) + slip(0xDBC0, "two") + slip(5, "three") + slip(0, disconnectedNote(5)) + slip(5, "late") + slip(0xDBC0, "four") + slip(0, connectedNote(5)) + slip(5, "five");
    int a = vp_choice(all.size() + 1, "cut"); if (a) m.rx(all.left(a)); if (a < all.size()) m.rx(all.mid(a)); vp_assert(m.k.size() == 3 && m.connSig == 3 && m.discSig == 1, "clients"); m.k.at(0)->want << "one" << "three"; m.k.at(1)->want << "two" << "four"; m.k.at(2)->want << "five"; m.check(); vp_assert(m.k.at(0)->gone && !m.k.at(1)->gone && !m.k.at(2)->gone, "another client left"); env_run(); m.check(); vp_cover("delivered"); logi("a", a);
}
extern "C" void pieces()
{
    ServerModel m(Kind(vp_choice(2, "kind"))); m.walk(5); QByteArray all = slip(0, connectedNote(5)) + slip(5, QByteArray("\xC0\xDB\xDC\xDD", 4)) + slip(0, connectedNote(6)) + slip(6, QByteArray("\0\0\0", 3)) + slip(0, disconnectedNote(5)) + slip(6, "x"); int p = vp_choice(24, "size") + 1; for (int i = 0; i < all.size(); i += p) m.rx(all.mid(i, p)); m.k.at(0)->want << QByteArray("\xC0\xDB\xDC\xDD", 4); m.k.at(1)->want << QByteArray("\0\0\0", 3) << "x"; m.check(); vp_assert(m.k.size() == 2 && m.k.at(0)->gone, "clients"); vp_cover("delivered"); logi("p", p);
}
// what follows the registration response, in any reads
extern "C" void handover()
{
    ServerModel m(Plain); m.walk(4); QByteArray p = symBytes((int)vp_param("len", 1), "byte"), r = regOk(m.id), all = r + slip(0, connectedNote(9)) + slip(9, p); int o = r.size() - 4, n = all.size(), a, b; if (vp_bool("early")) { a = vp_choice(o, "cut1") + 1; b = o + 2; } else { a = vp_choice(n - o + 1, "cut") + o; b = a + vp_choice((int)vp_param("gap", 4), "gap"); } if (b > n) b = n;
    m.rx(all.left(a)); if (b > a) m.rx(all.mid(a, b - a)); if (b < n) m.rx(all.mid(b)); m.ph = 5; m.wUp++; vp_assert(m.k.size() == 1, "client not announced"); m.k.at(0)->want << p; m.check(); vp_cover("delivered"); logb("got", m.all(m.k.at(0)->got));
}
// data written to a socket
static const int ADDR[] = { 1, 0x00C0, 0xC0DB, 0xDBC0, 0xDBDC, 0xFFFF };
extern "C" void writes()
{
    ServerModel m(Kind(vp_choice(2, "kind"))); m.walk(5); m.client(ADDR[vp_choice(6, "address")]); m.client(2); int n = vp_choice((int)vp_param("len", 4) + 1, "len"); QByteArray d = symBytes(n, "byte"); m.send(m.k.at(0), d); m.send(m.k.at(1), "other"); m.check(); vp_cover("written"); logb("tx", m.s->tx);
}
extern "C" void disconnects()
{
    ServerModel m(Plain); m.walk(5); int a = ADDR[vp_choice(6, "address")]; m.client(a); m.client(2); m.checkPings = false; m.k.at(vp_choice(2, "which"))->o->disconnectSocket(); QByteArray r = sent(m.s).mid(m.tunnel); m.tunnel += r.size(); QList<Fr> l = frames(r); vp_assert(l.size() == 1 && l.at(0).address == 0, "no DisconnectClient request"); QVariantMap q = json(l.at(0).data); vp_assert(q.value("method").toString() == "TunnelProxy.DisconnectClient", "method"); int w = q.value("params").toMap().value("socketAddress").toInt(); vp_assert(w == a || w == 2, "address"); m.frame(0, "{\"id\":" + num(q.value("id").toInt()) + ",\"params\":{\"tunnelProxyError\":\"TunnelProxyErrorNoError\"},\"status\":\"success\"}\n"); m.check(); vp_assert(m.liveCount() == 2, "reported disconnected before the proxy says so"); m.left(w); m.check(); env_run(); vp_assert(m.liveCount() == 1 && !m.live(w), "the other one left"); vp_cover("disconnected"); logi("w", w);
}
// over a web socket: see known_findings.txt
extern "C" void webwrites()
{
    ServerModel m(Web); m.walk(4); recv(m.s, connectedNote(1)); m.checkPings = false; m.answer(0); vp_assert(m.k.size() == 1, "client not announced"); TunnelProxySocket *x = m.k.at(0)->o; QByteArray d; uint8_t b = vp_byte("byte"); vp_assume(b < 128); d.append((char)b); int n = m.tunnel; x->writeData(d); QByteArray r = sent(m.s).mid(n), w = slip(1, d); vp_cover("written");
    if (m.s->bins.isEmpty() && eqBytes(r, QString::fromUtf8(w.constData(), w.size()).toUtf8())) vp_assert_known_(eqBytes(r, w), "frames are sent as text messages: the frame end 0xC0 is replaced", "websocket-frames"); vp_assert(eqBytes(r, w) || (m.s->bins.size() && eqBytes(m.s->bins.last(), w)), "data written to a socket is not sent as its frame");
}
// long and many frames
extern "C" void sizes()
{
    ServerModel m(Plain); m.walk(5); m.client(1); m.client(2); QByteArray p = longBytes((int)vp_param("few", 1)), all = slip(1, p) + slip(2, "x") + slip(1, "end"); int r = readSize(all.size(), (int)vp_param("few", 1)); for (int i = 0; i < all.size(); i += r) m.rx(all.mid(i, r)); m.k.at(0)->want << p << "end"; m.k.at(1)->want << "x"; m.check(); m.send(m.k.at(0), p); m.send(m.k.at(1), "other"); m.check(); vp_cover("long frame"); logi("n", p.size());
}
extern "C" void many()
{
    ServerModel m(Plain); m.walk(5); int n = (int)vp_param("frames", 300), nc = (int)vp_param("clients", 40); for (int i = 0; i < nc; i++) m.client(1 + i * 211); uint8_t b = vp_byte("byte"); QByteArray all; for (int i = 0; i < n; i++) { QByteArray p("a"); p.append((char)(b + i)); TSock *t = m.k.at(i % nc); all += slip(t->address, p); t->want << p; } int r = readSize(all.size()); for (int i = 0; i < all.size(); i += r) m.rx(all.mid(i, r)); m.check(); for (int i = 0; i < nc; i++) m.send(m.k.at(i), "answer"); for (int i = 0; i < nc; i += 2) m.left(m.k.at(i)->address); m.check(); env_run(); m.check(); vp_cover("many frames");
}
