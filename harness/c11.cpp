// C11: unterminated API input is bounded by 10240 bytes.
#include "proxy.h"
enum { LIMIT = 10240 };
// any length of the first read, then a second and a third one around the limit
extern "C" void lengths()
{
    FakeTransport *t = startProxy(); int c = t->open(), o = t->open(); int hi = (int)vp_param("max", 10300), lo = (int)vp_param("min", 0); int n1 = lo + vp_choice(hi - lo + 1, "length"); static const int more[] = { 0, 1, 2, 300, 20000 };
    QByteArray d(n1, 'a'); if (n1) d[0] = '{'; t->feed(c, d); bool over = n1 > LIMIT; vp_assert(t->kills(c) == over, over ? "more than 10240 bytes accepted" : "connection closed within the limit"); vp_assert(t->sends(c) == 0, "answered"); if (over) { vp_cover("over the limit at once"); return; }
    for (int r = 0; r < 2; r++) { int m = more[vp_choice(5, "more")]; if (vp_bool("upto")) { m = LIMIT - n1 + (m > 1 ? 1 : m); } if (m <= 0) continue; t->feed(c, QByteArray(m, 'b')); n1 += m; over = n1 > LIMIT; vp_assert(t->kills(c) == over, over ? "more than 10240 bytes accepted" : "connection closed within the limit"); vp_assert(t->sends(c) == 0, "answered"); if (over) { vp_cover("over the limit later"); break; } if (n1 == LIMIT) vp_cover("exactly the limit"); }
    vp_assert(t->kills(o) == 0, "another connection closed"); logi("kills", t->kills(c));
}
// requests in front of the incomplete message
extern "C" void requests()
{
    FakeTransport *t = startProxy(); int c = t->open(); int k = vp_choice(3, "requests"), n = LIMIT - 3 + vp_choice(7, "rest"); QByteArray d; for (int i = 0; i < k; i++) d.append(req(i, "RemoteProxy.Hello")); QByteArray rest(n, 'a'); rest[0] = '{'; d.append(rest);
    int cut = vp_choice(3, "cut"); if (cut == 0) t->feed(c, d); else { int at = cut == 1 ? d.size() - 1 : d.size() - n + 1; t->feed(c, d.left(at)); t->feed(c, d.mid(at)); }
    bool over = n > LIMIT; vp_assert(t->kills(c) == over, over ? "more than 10240 bytes accepted" : "connection closed within the limit"); vp_assert(t->sends(c) == ((cut == 0 ? n : cut == 1 ? n - 1 : 1) > LIMIT ? 0 : k), "requests of that read"); if (over && k) vp_cover("requests not executed"); if (!over && k) vp_cover("requests executed");
    logi("kills", t->kills(c)); logi("sends", t->sends(c));
}
// a long request that is complete, in one or two reads
extern "C" void complete()
{
    FakeTransport *t = startProxy(); int c = t->open(), n = LIMIT - 2 + vp_choice(5, "length"); QByteArray head("{\"id\":1,\"method\":\"RemoteProxy.Hello\""), d(head); d.append(QByteArray(n - head.size() - 1, ' ')).append("}"); int cut = vp_choice(2, "cut") ? n - 1 : 0; if (cut) t->feed(c, d.left(cut)); bool over = cut > LIMIT; vp_assert(t->kills(c) == over, "closed for its buffer size"); if (over) { vp_cover("over"); return; }
    t->feed(c, d.mid(cut).append("\n")); vp_assert(t->kills(c) == 0 && t->sends(c) == 1 && okResp(parseJson(t->last(c)), 1), "long request not answered"); vp_cover("long request answered"); logi("n", n);
    // the buffer starts from zero again
    QByteArray r(LIMIT, 'x'); t->feed(c, r); vp_assert(t->kills(c) == 0, "connection closed within the limit"); t->feed(c, QByteArray("y")); vp_assert(t->kills(c) == 1, "more than 10240 bytes accepted");
}
