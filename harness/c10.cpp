// C10: framing of JSON requests.
#include "proxy.h"
static QByteArray item(int kind, int id, bool &ok)
{
    ok = true; switch (kind) {
    case 0: return req(id, "RemoteProxy.Hello"); case 1: return req(id, "TunnelProxy.Ping", "{\"timestamp\":5}");
    case 2: return QByteArray("{\"method\" : \"TunnelProxy.Ping\", \"params\" : { \"timestamp\":1 } , \"id\" :").append(QByteArray::number(id)).append(" }\n");
    default: return req(id, "TunnelProxy.RegisterServer", "{\"serverName\":\"a}b {c\",\"serverUuid\":\"{00000000-0000-0000-0000-000000000000}\"}"); }
}
static void verify(FakeTransport *t, int c, int n)
{
    vp_assert(t->kills(c) == 0, "connection closed"); int k = 0;
    for (int i = 0; i < t->out.size(); i++) { QVariantMap m = parseJson(t->out.at(i).data); vp_assert(k < n, "more responses than requests"); vp_assert(m.value("id").toInt() == 10 + k, "requests executed out of order, twice or not at all"); vp_assert(m.value("status").toString() == "success", "request failed"); k++; }
    vp_assert(k == n, "request not executed"); t->log();
}
static bool innerBrace(const QByteArray &s, int cut) { return cut > 0 && cut < s.size() && s.at(cut - 1) == '}' && s.at(cut) != '\n'; }
extern "C" void cuts()
{
    FakeTransport *t = startProxy(); int c = t->open(), n = 1 + vp_choice((int)vp_param("requests", 2), "requests"); QByteArray s; for (int i = 0; i < n; i++) { bool ok; s.append(item(vp_choice(4, "kind"), 10 + i, ok)); }
    int cut = vp_choice(s.size() + 1, "cut"); vp_assume(!innerBrace(s, cut)); int gap = (int)vp_param("gap", 3), cut2 = cut + (gap ? vp_choice(gap + 1, "cut2") : 0); vp_assume(cut2 <= s.size() && !innerBrace(s, cut2));
    t->feed(c, s.left(cut)); if (cut2 > cut) t->feed(c, s.mid(cut, cut2 - cut)); t->feed(c, s.mid(cut2)); env_run(); if (n > 1) vp_cover("several requests"); verify(t, c, n);
}
extern "C" void twocuts()
{
    FakeTransport *t = startProxy(); int c = t->open(); QByteArray s; bool ok; s.append(item(1, 10, ok)); s.append(item(vp_choice(4, "kind"), 11, ok)); s.append(item(0, 12, ok));
    int step = (int)vp_param("step", 3), m = s.size() / step + 1; int cut = vp_choice(m, "cut") * step + vp_choice(2, "odd"), cut2 = vp_choice(m, "cut2") * step; vp_assume(cut <= cut2 && cut2 <= s.size() && !innerBrace(s, cut) && !innerBrace(s, cut2));
    t->feed(c, s.left(cut)); t->feed(c, s.mid(cut, cut2 - cut)); t->feed(c, s.mid(cut2)); env_run(); vp_cover("all answered"); verify(t, c, 3);
}
// in pieces of fixed size
extern "C" void pieces()
{
    FakeTransport *t = startProxy(); int c = t->open(), n = 3; QByteArray s; for (int i = 0; i < n; i++) { bool ok; s.append(item(vp_choice(4, "kind"), 10 + i, ok)); }
    int size = 1 + vp_choice(24, "size"), from = 0; for (int at = size; from < s.size(); at += size) { while (innerBrace(s, at)) at++; if (at > s.size()) at = s.size(); t->feed(c, s.mid(from, at - from)); from = at; } env_run(); vp_cover("all answered"); verify(t, c, n);
}
// two connections whose requests arrive interleaved do not mix
extern "C" void interleaved()
{
    FakeTransport *t = startProxy(); int c = t->open(), d = t->open(); bool ok; QByteArray s = item(vp_choice(4, "kind"), 10, ok), u = item(vp_choice(4, "kind"), 10, ok);
    int a = vp_choice(s.size(), "cut"), b = vp_choice((u.size() + 6) / 7, "cut2") * 7; vp_assume(!innerBrace(s, a) && !innerBrace(u, b)); t->feed(c, s.left(a)); t->feed(d, u.left(b)); t->feed(c, s.mid(a)); t->feed(d, u.mid(b)); env_run();
    vp_assert(t->sends(c) == 1 && t->sends(d) == 1 && t->kills(c) == 0 && t->kills(d) == 0, "not one response each"); vp_assert(okResp(parseJson(t->last(c)), 10) && okResp(parseJson(t->last(d)), 10), "response"); vp_cover("both answered"); t->log();
}
// cuts directly behind an inner closing brace: see known_findings.txt
extern "C" void innercuts()
{
    FakeTransport *t = startProxy(); int c = t->open(); bool ok; int kind = vp_choice(4, "kind"); QByteArray s = item(kind, 10, ok); s.append(item(0, 11, ok)); int cut = vp_choice(s.size(), "cut"); vp_assume(innerBrace(s, cut)); t->feed(c, s.left(cut)); t->feed(c, s.mid(cut)); env_run(); vp_cover("cut behind an inner brace");
    if (t->kills(c) == 1 && t->sends(c) == 1 && parseJson(t->out.at(0).data).value("status").toString() == "error" && parseJson(t->out.at(0).data).value("id").toInt() == -1) vp_assert_known_(false, "request cut directly behind an inner closing brace is answered with an error and the connection closed", "inner-brace"); verify(t, c, 2);
}
