// C09: each JSON-RPC request gets exactly one matching response.
#include "proxy.h"
struct Case { const char *method, *params; bool ok; };
static const Case CASES[] = {
    { "\"RemoteProxy.Hello\"", nullptr, true }, { "\"RemoteProxy.Hello\"", "{}", true }, { "\"TunnelProxy.Ping\"", "{\"timestamp\":12}", true }, { "\"RemoteProxy.Introspect\"", nullptr, true },
    { "\"RemoteProxy.Nope\"", nullptr, false }, { "\"TunnelProxy.ClientConnected\"", nullptr, false }, { "\"RemoteProxy.name\"", nullptr, false }, { "\"TunnelProxy.deleteLater\"", nullptr, false }, { "\"Foo.Hello\"", nullptr, false }, { "\".Hello\"", nullptr, false },
    { "\"RemoteProxy.\"", nullptr, false }, { "\"RemoteProxy\"", nullptr, false }, { "\"\"", nullptr, false }, { "\"A.B.C\"", nullptr, false }, { "\"RemoteProxy.Hello.\"", nullptr, false }, { nullptr, nullptr, false }, { "12", nullptr, false }, { "{}", nullptr, false }, { "null", nullptr, false },
    { "\"TunnelProxy.Ping\"", nullptr, false }, { "\"TunnelProxy.Ping\"", "{\"timestamp\":[1]}", false }, { "\"TunnelProxy.Ping\"", "{\"timestamp\":1,\"x\":2}", false }, { "\"RemoteProxy.Hello\"", "{\"x\":1}", false }, { "\"TunnelProxy.RegisterServer\"", "{\"serverName\":\"a\"}", false }, { "\"TunnelProxy.DisconnectClient\"", "{\"socketAddress\":{}}", false }, { "\"TunnelProxy.RegisterClient\"", "{}", false } };
enum { NCASES = sizeof CASES / sizeof CASES[0] };
static QByteArray build(const char *id, const Case &c) { QByteArray r("{"); bool f = true; if (id) { r.append("\"id\":").append(id); f = false; } if (c.method) { if (!f) r.append(","); r.append("\"method\":").append(c.method); f = false; } if (c.params) { if (!f) r.append(","); r.append("\"params\":").append(c.params); } r.append("}\n"); return r; }
// one answer, error answers followed by the close; returns the answer
static QVariantMap answer(FakeTransport *t, int c, bool framed, bool ok, int id)
{
    vp_assert(t->sends(c) == 1, "not exactly one response"); int s = -1, k = -1; for (int i = 0; i < t->out.size(); i++) { vp_assert(t->out.at(i).conn == c, "somebody else is affected"); if (t->out.at(i).kill) { if (k < 0) k = i; } else s = i; }
    QVariantMap m = framed ? parseApiFrame(t->out.at(s).data) : parseJson(t->out.at(s).data);
    vp_assert(m.contains("id") && m.value("id").toInt() == id, "response carries another id"); vp_assert(!m.contains("notification"), "notification instead of a response");
    if (ok) { vp_assert(m.value("status").toString() == "success" && m.contains("params"), "valid request answered with an error"); vp_assert(k < 0, "connection closed after a valid request"); }
    else { vp_assert(m.value("status").toString() == "error" && m.contains("error"), "invalid request not answered with status error"); vp_assert(k >= 0, "connection stays open after an error response"); vp_assert(s < k, "connection closed before the response"); }
    return m;
}
static int conn(FakeTransport *t, bool server) { int c = server ? addServer(t, 1) : t->open(); t->out.clear(); return c; }
static void put(FakeTransport *t, int c, bool server, const QByteArray &r) { t->feed(c, server ? slip(0, r) : r); env_run(); }
extern "C" void requests()
{
    FakeTransport *t = startProxy(); bool server = vp_bool("server"); t->deferKill = vp_bool("defer"); int c = conn(t, server); t->open();
    static const char *const ids[] = { "0", "-5", "2147483647", "-2147483648", "77", nullptr, "{}", "[]", "\"x\"", "null" };
    int n = (int)vp_param("requests", 2);
    for (int i = 0; i < n; i++) {
        t->out.clear(); int ii = vp_choice(i ? 1 : 10, "id"); const Case &k = CASES[vp_choice(NCASES, "case")]; bool ok = k.ok && ii < 5;
        put(t, c, server, build(ids[ii], k)); static const int idv[] = { 0, -5, 2147483647, -2147483647 - 1, 77 }; answer(t, c, server, ok, ii < 5 ? idv[ii] : -1); t->log();
        if (!ok) { vp_cover("error"); break; } if (i) vp_cover("several requests");
    }
}
// any id of up to `digits` digits
extern "C" void ids()
{
    FakeTransport *t = startProxy(); int c = conn(t, false), n = 1 + vp_choice((int)vp_param("digits", 3), "digits"); QByteArray s; int v = 0; bool neg = vp_bool("negative"); if (neg) s.append('-');
    for (int i = 0; i < n; i++) { uint8_t d = vp_byte("digit"); vp_assume(d >= '0' && d <= '9' && (i || n == 1 || d != '0')); s.append((char)d); v = v * 10 + (d - '0'); }
    const Case &k = CASES[vp_choice(2, "valid") ? 0 : 4]; put(t, c, false, build(s.constData(), k)); answer(t, c, false, k.ok, neg ? -v : v); if (v > 50) vp_cover("large id"); t->log();
}
// packets that are no valid request: any bytes inside braces
extern "C" void garbage()
{
    FakeTransport *t = startProxy(); bool server = vp_bool("server"); t->deferKill = vp_bool("defer"); int c = conn(t, server); int n = vp_choice((int)vp_param("len", 4) + 1, "length"); QByteArray d = symBytes(n, "byte");
    if (!server) for (int i = 0; i < n; i++) vp_assume(d.at(i) != '\n');
    QByteArray p; bool open = server && vp_bool("bare"); if (!open) p.append("{"); p.append(d); if (!open) p.append("}"); p.append("\n"); put(t, c, server, p); answer(t, c, server, false, -1); if (n > 3) vp_cover("garbage"); t->log();
}
// RegisterServer is answered unframed, everything later is framed
extern "C" void switchover()
{
    FakeTransport *t = startProxy(); int c = t->open(); int n = vp_choice(3, "before"); for (int i = 0; i < n; i++) t->feed(c, req(i, "TunnelProxy.Ping", "{\"timestamp\":1}"));
    for (int i = 0; i < t->out.size(); i++) parseJson(t->out.at(i).data); t->out.clear(); t->feed(c, regServer(50, 1)); vp_assert(t->out.size() == 1, "one response"); QVariantMap m = parseJson(t->out.at(0).data); vp_assert(okResp(m, 50) && m.value("params").toMap().value("slipEnabled").toBool(), "framing announced");
    int k = (int)vp_param("later", 3); t->out.clear();
    for (int i = 0; i < k; i++) { int at = t->out.size(); switch (vp_choice(4, "message")) {
        case 0: put(t, c, true, req(60 + i, "RemoteProxy.Hello")); m = parseApiFrame(t->last(c)); vp_assert(okResp(m, 60 + i), "response"); break;
        case 1: { int x = addClient(t, 10 + i, 1); m = parseApiFrame(t->last(c)); vp_assert(m.value("notification").toString() == "TunnelProxy.ClientConnected", "notification"); vp_cover("notification"); (void)x; break; }
        case 2: put(t, c, true, req(60 + i, "TunnelProxy.DisconnectClient", "{\"socketAddress\":1}")); for (int j = at; j < t->out.size(); j++) if (!t->out.at(j).kill && t->out.at(j).conn == c) parseApiFrame(t->out.at(j).data); break;
        case 3: put(t, c, true, req(60 + i, "TunnelProxy.Nope")); m = parseApiFrame(t->last(c)); vp_assert(m.value("status").toString() == "error" && m.value("id").toInt() == 60 + i, "error response"); vp_assert(t->kills(c) == 1, "closed"); t->log(); return; }
    }
    t->log();
}
// a failed RegisterServer leaves the connection unframed
extern "C" void failedswitch()
{
    FakeTransport *t = startProxy(); addServer(t, 1); int c = t->open(); t->deferKill = true; t->out.clear(); bool null = vp_bool("null");
    t->feed(c, null ? req(5, "TunnelProxy.RegisterServer", "{\"serverName\":\"a\",\"serverUuid\":\"{00000000-0000-0000-0000-000000000000}\"}") : regServer(5, 1)); QVariantMap m = parseJson(t->last(c)); vp_assert(okResp(m, 5) && !m.value("params").toMap().value("slipEnabled").toBool() && error(m) == (null ? "TunnelProxyErrorInvalidUuid" : "TunnelProxyErrorAlreadyRegistered"), "failed registration");
    if (null) { t->out.clear(); t->feed(c, req(6, "RemoteProxy.Hello")); vp_assert(okResp(parseJson(t->last(c)), 6), "still unframed"); vp_cover("still unframed"); } t->log();
}
