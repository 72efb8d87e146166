// C35: command line of the tunnel client.
#include "cl.h"
#include "program.h"
static bool mayFail, mayRun, ran, server_, insecure, chatty; static const char *why; static QString name_; static QUuid uuid_, peer_; static QUrl url_; static int traffic_, verbose_;
static const char *U1 = "{0000000a-0001-0002-0304-05060708090a}", *U2 = "0000000b-0001-0002-0304-05060708090b";
static void onExit(int rc) { vp_assert(mayFail, "ends although it can run"); vp_assert(rc != 0, "ends without a failure code"); vp_assert(!ran && attempts() == 0, "connects although the command line is wrong"); vp_cover(why); vp_done(); }
static bool enabled(const char *category) { QLoggingCategory::CategoryFilter f = QLoggingCategory::installFilter(nullptr); QLoggingCategory::installFilter(f); vp_assert(f != nullptr, "no filter for the messages"); QLoggingCategory c(category); f(&c); return c.isDebugEnabled(); }
static void run()
{
    env_run(); vp_assert(mayRun, "runs although the command line is wrong"); ran = true; vp_assert(attempts() == 1, "not one connection"); Sock *s = env_socks().at(0); bool tls = url_.scheme() == "ssl";
    vp_assert(s->connectRequested && s->kind == Sock::Tcp, "another transport"); vp_assert(s->host == url_.host() && s->port == url_.port() && s->clientEnc == tls, "connects elsewhere");
    env_connected(s); if (tls) { if (vp_bool("certificate")) { QList<QSslError> l; l.append(QSslError(QSslError::SelfSignedCertificate)); env_ssl_errors(s, l); bool ok = s->ignoreErrors || s->ignored.contains(l.at(0)); vp_assert(ok == insecure, insecure ? "certificate errors not ignored although asked to" : "certificate errors ignored although not asked to"); if (!ok) return; } vp_assert(sent(s).isEmpty(), "sent before the handshake"); env_encrypted(s); }
    QVariantMap h = json(sent(s)); int n = sent(s).size(); vp_assert(h.value("method").toString() == "RemoteProxy.Hello", "no Hello"); recv(s, helloOk(h.value("id").toInt())); env_run(); QVariantMap r = json(sent(s).mid(n)), p = r.value("params").toMap(); n = sent(s).size();
    vp_assert(r.value("method").toString() == (server_ ? "TunnelProxy.RegisterServer" : "TunnelProxy.RegisterClient"), "registers in another role"); QString nm = p.value(server_ ? "serverName" : "clientName").toString(); QUuid u(p.value(server_ ? "serverUuid" : "clientUuid").toString());
    vp_assert(name_.isEmpty() ? !nm.isEmpty() : nm == name_, "registers with another name"); vp_assert(uuid_.isNull() ? !u.isNull() : u == uuid_, "registers with another UUID"); if (!server_) vp_assert(QUuid(p.value("serverUuid").toString()) == peer_, "asks for another server"); logs("name", nm);
    recv(s, regOk(r.value("id").toInt())); env_run(); vp_assert(sent(s).size() == n, "data at once");
    if (server_) { recv(s, slip(0, connectedNote(1))); env_run(); recv(s, slip(1, "hello")); env_run(); QList<Fr> f = frames(sent(s).mid(n)); vp_assert(chatty ? f.size() == 1 && f.at(0).address == 1 && f.at(0).data == "hello" : f.isEmpty(), chatty ? "data not sent back" : "data sent back although not asked to"); }
    else { env_advance(1500); QByteArray d = sent(s).mid(n); vp_assert(chatty ? d.size() == 100 : d.isEmpty(), chatty ? "no random data" : "random data although not asked to"); }
    vp_assert(enabled("TunnelProxySocketServer") == (verbose_ > 0) && enabled("TunnelProxyRemoteConnection") == (verbose_ > 0), "messages about the connection"); vp_assert(enabled("RemoteProxyClientJsonRpcTraffic") == (verbose_ > 1) && enabled("TunnelProxySocketServerTraffic") == (verbose_ > 1) && enabled("RemoteProxyClientTcpSocket") == (verbose_ > 1), "messages about the traffic"); vp_assert(enabled("default"), "messages of the application itself");
}
static void program(const QList<QByteArray> &a) { env_on_exit = onExit; env_on_exec = run; env_exec_code = 3; int rc = env_program(a); vp_assert(ran, "application not executed"); vp_assert(rc == 3, "exit code of the application lost"); }
static void option(QList<QByteArray> &a, int form, const char *s, const char *l, const QByteArray &v) { switch (form) { case 0: if (s) a << QByteArray("-") + s << v; else a << QByteArray("--") + l << v; break; case 1: a << QByteArray("--") + l << v; break; case 2: a << QByteArray("--") + l + "=" + v; break; } }
static void flag(QList<QByteArray> &a, int form, const char *s, const char *l) { a << (form == 0 && s ? QByteArray("-") + s : QByteArray("--") + l); }
// role, name and UUIDs
extern "C" void role()
{
    int form = vp_choice(3, "form"); QList<QByteArray> a; a << "nymea-remoteproxy-tunnelclient"; bool s = vp_bool("server"), c = vp_bool("client"); int name = vp_choice(3, "name"), uuid = vp_choice(3, "uuid"), peer = vp_choice(3, "peer"); url_ = QUrl("ssl://dev-remoteproxy.nymea.io:2213"); uuid_ = uuid == 1 ? QUuid(U1) : QUuid(); peer_ = peer == 1 ? QUuid(U2) : QUuid(); static const char *N[] = { "", "x", "my name %1" }; name_ = N[name];
    if (s) flag(a, form, "s", "server"); if (name) option(a, form, "n", "name", N[name]); if (c) flag(a, form, "c", "client"); if (uuid) option(a, form, 0, "uuid", uuid == 1 ? U1 : "nonsense"); if (peer) option(a, form, 0, "server-uuid", peer == 1 ? U2 : "nonsense");
    server_ = !c; mayFail = (s && c) || (c && peer != 1); mayRun = !mayFail; why = s && c ? "server and client" : "server UUID missing"; program(a); if (s && c) vp_cover("server and client"); if (c && peer != 1) vp_cover("server UUID missing"); vp_cover(server_ ? "server" : "client"); if (server_) vp_cover("server"); else vp_cover("client");
}
// url, certificates, data and messages
extern "C" void options()
{
    static const char *U[] = { 0, "tcp://10.0.0.1:2213", "ssl://proxy.example.com:443", "tcp://proxy.example.com:80", "" }; int form = vp_choice(3, "form"), url = vp_choice(5, "url"); QList<QByteArray> a; a << "nymea-remoteproxy-tunnelclient"; server_ = vp_bool("server"); insecure = vp_bool("insecure"); chatty = vp_bool("random"); verbose_ = vp_choice(3, "verbose"); url_ = QUrl(QString(url ? U[url] : "ssl://dev-remoteproxy.nymea.io:2213")); uuid_ = peer_ = QUuid(U1);
    if (!server_) { flag(a, form, "c", "client"); option(a, form, 0, "server-uuid", U1); } option(a, form, 0, "uuid", U1); if (url) option(a, form, "u", "url", U[url]); if (insecure) flag(a, form, "i", "ignore-ssl"); if (chatty) flag(a, form, "r", "random"); if (verbose_) flag(a, form, 0, verbose_ == 1 ? "verbose" : "very-verbose");
    mayFail = url == 4; mayRun = !mayFail; why = "url invalid"; program(a); vp_cover("runs"); if (url == 4) vp_cover("url invalid");
}
