// C26: validation of API parameters.
#include "proxy.h"
#include "jsonrpc/jsontypes.h"
enum Kind { Null, Bool, Int, Neg, Double, Str, Uid, List, Map, Kinds };
static QByteArray text(int k) { switch (k) { case Null: return "null"; case Bool: return "true"; case Int: return "7"; case Neg: return "-7"; case Double: return "1.5"; case Str: return "\"x\""; case Uid: return QByteArray("\"").append(uu(9)).append("\""); case List: return "[1]"; default: return "{\"k\":1}"; } }
static bool conv(int type, int k) // type: 0 Uuid, 1 String, 2 Bool, 3 Int, 4 UInt, 5 Variant, 6 Object
{
    switch (type) { case 0: return k == Str || k == Uid; case 1: return k != List && k != Map; case 2: case 3: case 4: return k != Null && k != List && k != Map; default: return true; }
}
static QVariant tmpl(int type)
{
    static const JsonTypes::BasicType b[] = { JsonTypes::Uuid, JsonTypes::String, JsonTypes::Bool, JsonTypes::Int, JsonTypes::UInt, JsonTypes::Variant, JsonTypes::Object };
    return JsonTypes::basicTypeToString(b[type]);
}
static QVariantMap values(const QByteArray &json) { return QJsonDocument::fromJson(json).toVariant().toMap(); }
static bool accepted(const QVariantMap &t, const QVariantMap &v) { QPair<bool, QString> r = JsonTypes::validateMap(t, v); if (!r.first) vp_assert(!r.second.isEmpty(), "rejected without a message"); return r.first; }
static QByteArray member(const char *k, const QByteArray &v) { return QByteArray("\"").append(k).append("\":").append(v); }
// one parameter of every type with a value of every kind
extern "C" void types()
{
    int type = vp_choice(7, "type"), kind = vp_choice(Kinds + 1, "kind"); bool opt = vp_bool("optional");
    QVariantMap t; t.insert(opt ? "o:p" : "p", tmpl(type));
    bool want = kind == Kinds ? opt : conv(type, kind);
    bool got = accepted(t, values(kind == Kinds ? QByteArray("{}") : QByteArray("{").append(member("p", text(kind))).append("}")));
    vp_assert(got == want, want ? "valid parameter rejected" : "invalid parameter accepted"); if (want) { vp_cover("accepted"); } else vp_cover("rejected");
}
// presence: every key mandatory, optional or undocumented; absent, present and valid, or present and invalid
extern "C" void keys()
{
    static const char *const K[] = { "alpha", "b", "o:c", "zz" }; int n = (int)vp_param("keys", 3);
    QVariantMap t; QByteArray d("{"); bool want = true;
    for (int i = 0; i < n; i++) {
        int doc = vp_choice(3, "documented"), val = vp_choice(3, "value"); if (doc == 2) vp_assume(val != 2); QByteArray name = i == 2 ? QByteArray("c") : QByteArray(K[i]);
        if (doc < 2) t.insert(QString(doc == 1 ? "o:" : "").append(QString::fromLatin1(name)), tmpl(i & 1 ? 4 : 0));
        if (val) { if (d.size() > 1) d.append(','); d.append(member(name.constData(), val == 1 ? text(i & 1 ? Int : Uid) : text(i & 1 ? List : Int))); }
        want &= doc == 0 ? val == 1 : doc == 1 ? val != 2 : val == 0;
    }
    bool got = accepted(t, values(d.append('}'))); vp_assert(got == want, want ? "valid parameters rejected" : "invalid parameters accepted"); if (want) { vp_cover("accepted"); } else vp_cover("rejected");
}
// the name of the parameter given is any string of up to two characters
extern "C" void names()
{
    QVariantMap t; t.insert("ab", tmpl(1)); t.insert("o:c", tmpl(1)); int n = vp_choice(3, "length") + 1; QByteArray k; for (int i = 0; i < n; i++) { uint8_t b = vp_byte("char"); vp_assume((b >= 'a' && b <= 'z') || b == ':' || b == 'A'); k.append((char)b); }
    QVariantMap v; v.insert("ab", "x"); v.insert(QString::fromLatin1(k), "y");
    bool want = (n == 2 && k.at(0) == 'a' && k.at(1) == 'b') || (n == 1 && k.at(0) == 'c');
    bool got = accepted(t, v); vp_assert(got == want, want ? "documented parameter rejected" : "undocumented parameter accepted"); if (want) { vp_cover("accepted"); } else vp_cover("rejected");
}
// nested objects and lists
extern "C" void nested()
{
    JsonTypes::allTypes(); QVariantMap in; in.insert("x", tmpl(4)); in.insert("o:y", tmpl(0));
    int shape = vp_choice(4, "shape"); int ka = vp_choice(Kinds + 1, "kind"), kb = vp_choice(Kinds + 1, "kind2");
    QByteArray obj("{"); if (ka < Kinds) obj.append(member("x", text(ka))); if (kb < Kinds) { if (obj.size() > 1) obj.append(','); obj.append(member("y", text(kb))); } obj.append('}');
    bool okObj = ka < Kinds && conv(4, ka) && (kb == Kinds || conv(0, kb)), want; QVariantMap t; QByteArray d;
    if (shape == 0) { t.insert("m", in); d = QByteArray("{").append(member("m", obj)).append("}"); want = okObj; }
    else if (shape == 1) { t.insert("l", QVariantList() << QVariant(in)); bool good = vp_bool("first"); d = QByteArray("{\"l\":[").append(good ? "{\"x\":1}," : "").append(obj).append("]}"); want = okObj; }
    else if (shape == 2) { vp_assume(ka < Kinds && kb < Kinds); t.insert("l", QVariantList() << tmpl(1)); d = QByteArray("{\"l\":[").append(text(ka)).append(",").append(text(kb)).append("]}"); want = conv(1, ka) && conv(1, kb); }
    else { vp_assume(kb == Kinds && ka < Kinds); t.insert("e", JsonTypes::tunnelProxyErrorRef()); bool good = vp_bool("member"); d = QByteArray("{\"e\":").append(good ? QByteArray("\"TunnelProxyErrorServerNotFound\"") : text(ka)).append("}"); want = good; }
    bool got = accepted(t, values(d)); vp_assert(got == want, want ? "valid parameters rejected" : "invalid parameters accepted"); if (want) { vp_cover("accepted"); } else vp_cover("rejected");
}
// over the wire: every method with values of every kind, from every role
struct M { const char *name; const char *p[3]; int type[3]; };
static const M MS[] = { { "TunnelProxy.RegisterServer", { "serverName", "serverUuid", nullptr }, { 1, 0, 0 } }, { "TunnelProxy.RegisterClient", { "clientName", "clientUuid", "serverUuid" }, { 1, 0, 0 } },
    { "TunnelProxy.DisconnectClient", { "socketAddress", nullptr, nullptr }, { 4, 0, 0 } }, { "TunnelProxy.Ping", { "timestamp", nullptr, nullptr }, { 4, 0, 0 } }, { "RemoteProxy.Hello", { nullptr, nullptr, nullptr }, { 0, 0, 0 } }, { "RemoteProxy.Introspect", { nullptr, nullptr, nullptr }, { 0, 0, 0 } } };
static QVariantMap state() { QVariantMap m = proxy()->currentStatistics(true); m.remove("totalClientCount"); m.remove("transports"); QVariantList l = m.value("tunnelConnections").toList(), r; for (int i = 0; i < l.size(); i++) { QVariantMap s = l.at(i).toMap(); s.remove("rxDataCount"); s.remove("txDataCount"); r.append(s); } m.insert("tunnelConnections", r); return m; }
extern "C" void wire()
{
    FakeTransport *t = startProxy(); int s = addServer(t, 1), c = addClient(t, 2, 1); announced(t, s, 2); bool asServer = vp_bool("server"), defer = vp_bool("defer"); t->deferKill = defer;
    int i = asServer ? addServer(t, 3) : t->open(); t->out.clear();
    const M &m = MS[vp_choice(6, "method")]; QByteArray p("{"); bool want = true; int odd = (int)vp_param("odd", 1), used = 0;
    for (int k = 0; k < 3; k++) {
        if (!m.p[k]) break; int kind = m.type[k] == 0 ? Uid : m.type[k] == 1 ? Str : Int; if (used < odd && vp_bool("odd")) { used++; kind = vp_choice(Kinds + 1, "kind"); }
        if (kind == Kinds) { want = false; continue; } if (p.size() > 1) p.append(','); p.append(member(m.p[k], m.type[k] == 0 && k == 2 && kind == Uid ? QByteArray("\"").append(uu(1)).append("\"") : text(kind))); want &= conv(m.type[k], kind);
    }
    if (vp_bool("extra")) { if (p.size() > 1) p.append(','); p.append(member("extra", text(vp_choice(Kinds, "extrakind")))); want = false; }
    QVariantMap before = state(); QByteArray r = req(77, m.name, p.append('}')); t->feed(i, asServer ? slip(0, r) : r);
    vp_assert(t->sends(i) == 1, "not exactly one response"); QVariantMap a = asServer ? parseApiFrame(t->last(i)) : parseJson(t->last(i)); vp_assert(a.value("id").toInt() == 77, "response has another id");
    if (want) { vp_assert(a.value("status").toString() == "success", "call with valid parameters rejected"); vp_cover("accepted"); return; }
    vp_assert(a.value("status").toString() == "error" && !a.value("error").toString().isEmpty(), "call with invalid parameters executed"); vp_assert(t->kills(i) == 1 && t->kills(s) == 0 && t->kills(c) == 0 && t->sends(s) == 0 && t->sends(c) == 0, "rejected call has an effect");
    if (defer || !asServer) vp_assert(state() == before, "rejected call changes the registrations"); vp_cover("rejected");
}
