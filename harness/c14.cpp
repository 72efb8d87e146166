// C14: Hello and Ping.
#include "proxy.h"
#include "jsonrpc/tunnelproxyhandler.h"
#include "../version.h"
extern "C" void ping()
{
    FakeTransport *t = startProxy(); struct Caller : public TransportClient { Caller(TransportInterface *i, const QUuid &u) : TransportClient(i, u, QHostAddress(), nullptr) {} QList<QByteArray> processData(const QByteArray &) override { return QList<QByteArray>(); } }; int c = t->open(); Caller *tc = new Caller(t, t->id(c));
    quint32 v = (quint32)vp_sym(32, "timestamp"); QVariantMap p; p.insert("timestamp", vp_bool("wide") ? QVariant((qlonglong)v) : QVariant((uint)v)); TunnelProxyHandler h; JsonReply *r = h.Ping(p, tc);
    vp_assert(r->data().contains("timestamp") && r->data().value("timestamp").toULongLong() == v, "timestamp changed"); vp_assert(r->data().size() == 1, "something else answered"); logi("v", r->data().value("timestamp").toULongLong()); if (v > 0x80000000u) vp_cover("large timestamp");
}
static QByteArray digits(int n, quint64 &v) { QByteArray s; v = 0; for (int i = 0; i < n; i++) { uint8_t d = vp_byte("digit"); vp_assume(d >= '0' && d <= '9' && (i || n == 1 || d != '0')); s.append((char)d); v = v * 10 + (d - '0'); } return s; }
extern "C" void wire()
{
    static const char *const V[] = { "0", "1", "255", "65536", "2147483647", "2147483648", "3000000000", "4294967295" };
    FakeTransport *t = startProxy(); bool server = vp_bool("server"); int c = server ? addServer(t, 1) : t->open(); t->out.clear(); QByteArray n; int k = vp_choice(9, "value"); if (k < 8) n = QByteArray(V[k]); else { quint64 v; n = digits(1 + vp_choice((int)vp_param("digits", 2), "digits"), v); }
    QByteArray r = req(3, "TunnelProxy.Ping", QByteArray("{\"timestamp\":").append(n).append("}")); t->feed(c, server ? slip(0, r) : r); env_run(); vp_assert(t->out.size() == 1 && !t->out.at(0).kill, "one answer"); QByteArray d = server ? frames(t->out.at(0).data).at(0).data : t->out.at(0).data;
    QVariantMap m = parseJson(d); vp_assert(okResp(m, 3), "Ping failed"); QByteArray want("\"timestamp\":"); want.append(n); int at = d.indexOf(want); vp_assert(at >= 0 && (d.at(at + want.size()) == '}' || d.at(at + want.size()) == ','), "timestamp changed"); if (k == 7) vp_cover("largest timestamp");
    // the role is unchanged
    if (!server) { t->out.clear(); t->feed(c, regServer(5, 1)); vp_assert(okResp(parseJson(t->last(c)), 5) && error(parseJson(t->last(c))) == "TunnelProxyErrorNoError", "role changed"); } else { vp_assert(proxy()->currentStatistics(true).value("serverConnectionsCount").toInt() == 1, "role changed"); int x = addClient(t, 2, 1); (void)x; }
    t->log();
}
extern "C" void hello()
{
    static const char *const N[] = { "proxy", "", "a \"b\" \\ {}", "n\xc3\xa4me", "nymea-remoteproxy" };
    ProxyConfiguration *cf = testConfig(); QString name = QString::fromUtf8(N[vp_choice(5, "name")]); cf->setServerName(name); FakeTransport *t = startProxy(cf); bool server = vp_bool("server"); int c = server ? addServer(t, 1) : t->open(); int k = (int)vp_param("calls", 2);
    for (int i = 0; i < k; i++) { t->out.clear(); QByteArray r = req(i, "RemoteProxy.Hello"); t->feed(c, server ? slip(0, r) : r); env_run(); vp_assert(t->out.size() == 1 && !t->out.at(0).kill, "one answer"); QVariantMap m = server ? parseApiFrame(t->out.at(0).data) : parseJson(t->out.at(0).data); vp_assert(okResp(m, i), "Hello failed"); QVariantMap p = m.value("params").toMap();
        vp_assert(p.value("name").toString() == name, "server name"); vp_assert(p.value("server").toString() == SERVER_NAME_STRING, "server"); vp_assert(p.value("version").toString() == SERVER_VERSION_STRING, "version"); vp_assert(p.value("apiVersion").toString() == API_VERSION_STRING, "API version"); t->log(); }
    if (!server) { t->out.clear(); t->feed(c, regServer(5, 1)); vp_assert(okResp(parseJson(t->last(c)), 5) && error(parseJson(t->last(c))) == "TunnelProxyErrorNoError", "role changed"); vp_cover("registered afterwards"); } else addClient(t, 2, 1);
}
