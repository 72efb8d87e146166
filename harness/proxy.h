// A running proxy core (Engine, TunnelProxyServer, JSON-RPC) with a transport controlled by the harness.
#pragma once
#include "h.h"
#include "engine.h"
#include "proxyconfiguration.h"
#include "tunnelproxy/tunnelproxyserver.h"
#include "server/transportinterface.h"
using namespace remoteproxy;

struct Out { bool kill; int conn; QByteArray data; };
struct FakeTransport : public TransportInterface {
    QList<Out> out; QList<bool> alive, killed; bool deferKill; int base; qint64 quiet; // deferKill: the disconnect follows later
    FakeTransport(const char *name = "fake", int base = 0x1000) : deferKill(false), base(base) { m_serverName = name; }
    QUuid id(int i) const { return QUuid((uint)(base + i), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); }
    int index(const QUuid &u) const { for (int i = 0; i < alive.size(); i++) if (id(i) == u) return i; return -1; }
    void sendData(const QUuid &c, const QByteArray &d) override { int i = index(c); vp_assert(i >= 0, "data sent to a connection that never existed"); if (!alive.at(i)) return; Out o; o.kill = false; o.conn = i; o.data = d; out.append(o); }
    void killClientConnection(const QUuid &c, const QString &) override
    {
        int i = index(c); vp_assert(i >= 0, "connection killed that never existed"); if (!alive.at(i) || killed.at(i)) return;
        Out o; o.kill = true; o.conn = i; out.append(o); killed[i] = true; if (!deferKill) drop(i);
    }
    uint connectionsCount() const override { uint n = 0; for (int i = 0; i < alive.size(); i++) n += alive.at(i); return n; }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override { return true; }
    int open() { int i = alive.size(); alive.append(true); killed.append(false); emit clientConnected(id(i), QHostAddress(QString("10.0.0.%1").arg(i + 1))); return i; }
    void feed(int i, const QByteArray &d) { if (alive.at(i)) emit dataAvailable(id(i), d); }
    void drop(int i) { if (!alive.at(i)) return; alive[i] = false; emit clientDisconnected(id(i)); }
    void settle() { for (int i = 0; i < alive.size(); i++) if (killed.at(i)) drop(i); } // deferred disconnects
    int kills(int i) const { int n = 0; for (int k = 0; k < out.size(); k++) n += out.at(k).kill && out.at(k).conn == i; return n; }
    int sends(int i) const { int n = 0; for (int k = 0; k < out.size(); k++) n += !out.at(k).kill && out.at(k).conn == i; return n; }
    QByteArray last(int i) const { for (int k = out.size() - 1; k >= 0; k--) if (!out.at(k).kill && out.at(k).conn == i) return out.at(k).data; return QByteArray(); }
    void log() // kills in the order of the connections, since the clients of a server are killed in the order of a QHash
    {
        for (int i = 0; i < alive.size(); i++) for (int k = 0; k < out.size(); k++) if (out.at(k).kill && out.at(k).conn == i) logi("kill", i);
        for (int k = 0; k < out.size(); k++) if (!out.at(k).kill) { logi("send", out.at(k).conn); logb("data", out.at(k).data); }
    }
};
static inline ProxyConfiguration *testConfig()
{
    ProxyConfiguration *c = new ProxyConfiguration(); c->setServerName("testproxy"); c->setSslEnabled(false);
    c->setMonitorSocketFileName("monitor.sock"); c->setUnixSocketFileName("unix.sock");
    c->setWebSocketServerTunnelProxyHost(QHostAddress::LocalHost); c->setWebSocketServerTunnelProxyPort(2212);
    c->setTcpServerTunnelProxyHost(QHostAddress::LocalHost); c->setTcpServerTunnelProxyPort(2213);
    return c;
}
static inline FakeTransport *startProxy(ProxyConfiguration *c = nullptr, FakeTransport *t = nullptr)
{
    Engine::instance()->start(c ? c : testConfig()); env_run();
    if (!t) t = new FakeTransport(); Engine::instance()->tunnelProxyServer()->registerTransportInterface(t); return t;
}
static inline TunnelProxyServer *proxy() { return Engine::instance()->tunnelProxyServer(); }
// ---- independent reference of the wire format
static inline QByteArray slip(int address, const QByteArray &payload)
{
    QByteArray raw, r; raw.append((char)(address >> 8)); raw.append((char)address); raw.append(payload);
    for (int i = 0; i < raw.size(); i++) { uint8_t b = raw.at(i); if (b == 0xC0) { r.append((char)0xDB); r.append((char)0xDC); } else if (b == 0xDB) { r.append((char)0xDB); r.append((char)0xDD); } else r.append((char)b); }
    r.append((char)0xC0); return r;
}
struct Fr { int address; QByteArray data; };
// frames of a stream; asserts that it is made of complete valid frames
static inline QList<Fr> frames(const QByteArray &wire)
{
    QList<Fr> l; QByteArray cur; bool esc = false, open = false;
    for (int i = 0; i < wire.size(); i++) {
        uint8_t b = wire.at(i);
        if (b == 0xC0) { vp_assert(!esc, "frame ends within an escape sequence"); if (cur.size()) { vp_assert(cur.size() >= 2, "frame without address"); Fr f; f.address = ((uint8_t)cur.at(0) << 8) | (uint8_t)cur.at(1); f.data = cur.mid(2); l.append(f); } cur = QByteArray(); open = false; continue; }
        open = true;
        if (esc) { vp_assert(b == 0xDC || b == 0xDD, "invalid escape sequence sent"); cur.append((char)(b == 0xDC ? 0xC0 : 0xDB)); esc = false; }
        else if (b == 0xDB) esc = true; else cur.append((char)b);
    }
    vp_assert(!open, "unterminated frame sent"); return l;
}
static inline QByteArray req(int id, const char *method, const QByteArray &params = QByteArray()) { QByteArray r("{\"id\":"); r.append(QByteArray::number(id)); r.append(",\"method\":\""); r.append(method); r.append("\""); if (params.size()) { r.append(",\"params\":"); r.append(params); } r.append("}\n"); return r; }
static inline QByteArray uu(int n) { return QByteArray("{000000").append(n < 16 ? "0" : "").append(QByteArray::number(n, 16)).append("-1111-2222-3333-444444444444}"); }
static inline QUuid uuid(int n) { return QUuid(QString::fromLatin1(uu(n))); }
static inline QByteArray regServer(int id, int u, const char *name = "srv") { return req(id, "TunnelProxy.RegisterServer", QByteArray("{\"serverName\":\"").append(name).append("\",\"serverUuid\":\"").append(uu(u)).append("\"}")); }
static inline QByteArray regClient(int id, int u, int srv, const char *name = "cli") { return req(id, "TunnelProxy.RegisterClient", QByteArray("{\"clientName\":\"").append(name).append("\",\"clientUuid\":\"").append(uu(u)).append("\",\"serverUuid\":\"").append(uu(srv)).append("\"}")); }
static inline QVariantMap parseJson(const QByteArray &d)
{
    QJsonParseError e; QJsonDocument doc = QJsonDocument::fromJson(d, &e); vp_assert(e.error == QJsonParseError::NoError, "message sent is not valid JSON"); vp_assert(d.endsWith("\n"), "message sent is not newline terminated"); return doc.toVariant().toMap();
}
// API message sent to a connection in SLIP mode
static inline QVariantMap parseApiFrame(const QByteArray &wire) { QList<Fr> l = frames(wire); vp_assert(l.size() == 1, "not exactly one frame"); vp_assert(l.at(0).address == 0, "API frame with a socket address"); return parseJson(l.at(0).data); }
static inline QString error(const QVariantMap &resp) { return resp.value("params").toMap().value("tunnelProxyError").toString(); }
static inline bool okResp(const QVariantMap &m, int id) { return m.value("id").toInt() == id && m.value("status").toString() == "success"; }
// registered server / client with uuid number u; must succeed
static inline int addServer(FakeTransport *t, int u, const char *name = "srv") { int i = t->open(); t->feed(i, regServer(u, u, name)); vp_assert(t->sends(i) == 1 && t->kills(i) == 0, "no answer to RegisterServer"); QVariantMap m = parseJson(t->last(i)); vp_assert(okResp(m, u) && error(m) == "TunnelProxyErrorNoError", "server registration failed"); return i; }
static inline int addClient(FakeTransport *t, int u, int srv, const char *name = "cli") { int i = t->open(); t->feed(i, regClient(u, u, srv, name)); vp_assert(t->sends(i) == 1 && t->kills(i) == 0, "no answer to RegisterClient"); QVariantMap m = parseJson(t->last(i)); vp_assert(okResp(m, u) && error(m) == "TunnelProxyErrorNoError", "client registration failed"); return i; }
// socket address the last ClientConnected notification to the server announced
static inline int announced(FakeTransport *t, int server, int clientU)
{
    QVariantMap m = parseApiFrame(t->last(server)); vp_assert(m.value("notification").toString() == "TunnelProxy.ClientConnected", "no ClientConnected notification"); QVariantMap p = m.value("params").toMap();
    vp_assert(QUuid(p.value("clientUuid").toString()) == uuid(clientU), "ClientConnected names another client"); return p.value("socketAddress").toInt();
}
