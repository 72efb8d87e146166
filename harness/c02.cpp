// C02: SLIP reassembly of the stream of a registered server.
#include "proxy.h"
struct RefStream { QList<Fr> frames; bool unspecified; };
static RefStream ref(const QByteArray &s)
{
    RefStream r; r.unspecified = false; QByteArray cur; bool esc = false, bad = false, any = false;
    for (int i = 0; i < s.size(); i++) {
        uint8_t b = s.at(i);
        if (b == 0xC0) {
            if (any && !bad && !esc) { if (cur.size() < 2) r.unspecified = true; else { Fr f; f.address = ((uint8_t)cur.at(0) << 8) | (uint8_t)cur.at(1); f.data = cur.mid(2); if (f.address == 0) r.unspecified = true; r.frames.append(f); } }
            cur = QByteArray(); esc = bad = any = false; continue;
        }
        any = true;
        if (esc) { esc = false; if (b == 0xDC) cur.append((char)0xC0); else if (b == 0xDD) cur.append((char)0xDB); else bad = true; }
        else if (b == 0xDB) esc = true; else cur.append((char)b);
    }
    return r;
}
// any byte stream, cut anywhere: the payloads delivered are those of the complete valid frames
extern "C" void anystream()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 2, 1), c2 = addClient(t, 3, 1);
    int a1 = 1, a2 = 2; t->out.clear();
    int n = (int)vp_param("len", 6); QByteArray in = symBytes(n, "byte"); int cut = vp_choice(n + 1, "cut");
    RefStream r = ref(in); vp_assume(!r.unspecified);
    t->feed(s, in.left(cut)); if (cut < n) t->feed(s, in.mid(cut)); env_run();
    QByteArray g1, g2, w1, w2; int n1 = 0, n2 = 0, m1 = 0, m2 = 0;
    for (int i = 0; i < r.frames.size(); i++) { const Fr &f = r.frames.at(i); if (f.address == a1) { w1.append(f.data); m1++; } else if (f.address == a2) { w2.append(f.data); m2++; } }
    for (int i = 0; i < t->out.size(); i++) { const Out &o = t->out.at(i); vp_assert(!o.kill, "connection closed"); vp_assert(o.conn == c1 || o.conn == c2, "data sent to the server"); if (o.conn == c1) { g1.append(o.data); n1++; } else { g2.append(o.data); n2++; } }
    vp_assert(eqBytes(g1, w1) && eqBytes(g2, w2), "payload delivered differs from the frames of the stream");
    vp_assert(n1 <= m1 && n2 <= m2, "more deliveries than frames");
    if (w1.size() > 2) vp_cover("long payload to the first client"); if (w1.size() && w2.size()) vp_cover("payload to both clients");
    t->log();
}
// a stream of three structured frames (escapes, malformed, empty, unknown address, API request), cut at any two places
extern "C" void cuts()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 2, 1), c2 = addClient(t, 3, 1); t->out.clear();
    QByteArray in, w1, w2; int api = 0;
    for (int k = 0; k < 3; k++) switch (vp_choice(6, "frame")) {
        case 0: { QByteArray p = symBytes(2, "p"); in.append(slip(1, p)); w1.append(p); break; }
        case 1: { QByteArray p = symBytes(1, "q"); in.append(slip(2, p)); w2.append(p); break; }
        case 2: { QByteArray b("\x00\x01" "a", 3); b.append((char)0xDB); uint8_t x = vp_byte("x"); vp_assume(x != 0xDC && x != 0xDD && x != 0xC0); b.append((char)x); b.append("zz", 2); b.append((char)0xC0); in.append(b); vp_cover("malformed frame"); break; }
        case 3: in.append((char)0xC0); break;
        case 4: { QByteArray p = symBytes(1, "u"); in.append(slip(0x0102, p)); break; }
        case 5: in.append(slip(0, req(40 + k, "TunnelProxy.Ping", "{\"timestamp\":7}"))); api++; vp_cover("API request"); break;
    }
    int cut1 = vp_choice((int)vp_param("maxcut", 16), "cut1"), cut2 = cut1 + vp_choice((int)vp_param("maxcut", 16), "cut2"); vp_assume(cut2 <= in.size());
    t->feed(s, in.left(cut1)); t->feed(s, in.mid(cut1, cut2 - cut1)); t->feed(s, in.mid(cut2)); env_run();
    QByteArray g1, g2; int answers = 0;
    for (int i = 0; i < t->out.size(); i++) { const Out &o = t->out.at(i); vp_assert(!o.kill, "connection closed"); if (o.conn == c1) g1.append(o.data); else if (o.conn == c2) g2.append(o.data); else { answers++; QVariantMap m = parseApiFrame(o.data); vp_assert(m.value("status").toString() == "success", "API request in a frame failed"); } }
    vp_assert(eqBytes(g1, w1) && eqBytes(g2, w2), "payload delivered differs from the frames of the stream"); vp_assert(answers == api, "number of API requests executed");
    t->log();
}
// long frames and many frames in reads of many sizes
extern "C" void sizes()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 2, 1), c2 = addClient(t, 3, 1); t->out.clear(); QByteArray p = longBytes((int)vp_param("few", 1)), in, w2; in = slip(1, p) + slip(2, "x") + slip(1, "end"); int r = readSize(in.size(), (int)vp_param("few", 1));
    for (int i = 0; i < in.size(); i += r) t->feed(s, in.mid(i, r)); env_run(); QByteArray g1, g2; for (int i = 0; i < t->out.size(); i++) { const Out &o = t->out.at(i); vp_assert(!o.kill && o.conn != s, "connection closed or data sent to the server"); if (o.conn == c1) g1.append(o.data); else g2.append(o.data); } vp_assert(eqBytes(g1, p + "end") && g2 == "x", "payload delivered differs from the frames of the stream"); vp_cover("long frame"); logi("n", p.size());
}
extern "C" void many()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c1 = addClient(t, 2, 1); t->out.clear(); int n = (int)vp_param("frames", 300); uint8_t b = vp_byte("byte"); QByteArray in, w; for (int i = 0; i < n; i++) { QByteArray p("a"); p.append((char)(b + i)); in += slip(1, p); w += p; } int r = readSize(in.size()); for (int i = 0; i < in.size(); i += r) t->feed(s, in.mid(i, r)); env_run(); QByteArray g; for (int i = 0; i < t->out.size(); i++) { vp_assert(!t->out.at(i).kill && t->out.at(i).conn == c1, "connection closed"); g += t->out.at(i).data; } vp_assert(eqBytes(g, w), "payload delivered differs from the frames of the stream"); vp_cover("many frames");
}
