// Helpers of the demonstrations: a proxy core in this process with an in-memory transport, real Qt.
#pragma once
#include <QtCore>
#include <QtNetwork>
#include <QtWebSockets>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <unistd.h>
#include "engine.h"
#include "proxyconfiguration.h"
#include "tunnelproxy/tunnelproxyserver.h"
#include "server/transportinterface.h"
#include "slipdataprocessor.h"
using namespace remoteproxy;
static int failures = 0;
#define CHECK(c) do { if (!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); failures++; } } while (0)
static QString scratch() { return QString::fromLocal8Bit(getenv("DEMO_DIR")); }
static void spin(int ms = 50) { QEventLoop l; QTimer::singleShot(ms, &l, &QEventLoop::quit); l.exec(); }
static bool waitFor(std::function<bool()> f, int ms = 10000) { QElapsedTimer t; t.start(); while (!f()) { if (t.elapsed() > ms) return false; spin(10); } return true; }
struct Fake : public TransportInterface {
    QMap<QUuid, QByteArray> sent; QMap<QUuid, int> sends; QSet<QUuid> alive, killed; bool deferKill = false;
    Fake() { m_serverName = "fake"; }
    void sendData(const QUuid &c, const QByteArray &d) override { sent[c] += d; sends[c]++; }
    void killClientConnection(const QUuid &c, const QString &) override { killed.insert(c); if (!deferKill) drop(c); }
    uint connectionsCount() const override { return alive.size(); }
    bool running() const override { return true; }
    bool startServer() override { return true; }
    bool stopServer() override { return true; }
    QUuid open() { QUuid u = QUuid::createUuid(); alive.insert(u); emit clientConnected(u, QHostAddress("10.0.0.1")); return u; }
    void feed(const QUuid &c, const QByteArray &d) { if (alive.contains(c)) emit dataAvailable(c, d); }
    void drop(const QUuid &c) { if (alive.remove(c)) emit clientDisconnected(c); }
    QByteArray take(const QUuid &c) { QByteArray r = sent.value(c); sent.remove(c); sends.remove(c); return r; }
};
static quint16 freePort() { QTcpServer s; s.listen(QHostAddress::LocalHost, 0); return s.serverPort(); }
static ProxyConfiguration *config()
{
    ProxyConfiguration *c = new ProxyConfiguration(); c->setServerName("demo"); c->setSslEnabled(false);
    c->setMonitorSocketFileName(scratch() + "/monitor.sock"); c->setUnixSocketFileName(scratch() + "/unix.sock");
    c->setWebSocketServerTunnelProxyHost(QHostAddress::LocalHost); c->setWebSocketServerTunnelProxyPort(freePort());
    c->setTcpServerTunnelProxyHost(QHostAddress::LocalHost); c->setTcpServerTunnelProxyPort(freePort());
    return c;
}
static TunnelProxyServer *proxy() { return Engine::instance()->tunnelProxyServer(); }
static Fake *startProxy(ProxyConfiguration *c = nullptr) { Engine::instance()->start(c ? c : config()); spin(); Fake *f = new Fake(); proxy()->registerTransportInterface(f); return f; }
static QByteArray uu(int n) { return QUuid(0x1000 + n, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10).toString().toUtf8(); }
static QByteArray req(int id, const QByteArray &method, const QByteArray &params = "{}") { return "{\"id\":" + QByteArray::number(id) + ",\"method\":\"" + method + "\",\"params\":" + params + "}\n"; }
static QByteArray regServer(int id, int u) { return req(id, "TunnelProxy.RegisterServer", "{\"serverName\":\"srv\",\"serverUuid\":\"" + uu(u) + "\"}"); }
static QByteArray regClient(int id, int u, int s) { return req(id, "TunnelProxy.RegisterClient", "{\"clientName\":\"cli\",\"clientUuid\":\"" + uu(u) + "\",\"serverUuid\":\"" + uu(s) + "\"}"); }
static QByteArray slip(int address, const QByteArray &payload)
{
    QByteArray raw, r; raw.append(char(address >> 8)).append(char(address)).append(payload);
    for (char c : raw) { uchar b = c; if (b == 0xC0) r.append("\xDB\xDC"); else if (b == 0xDB) r.append("\xDB\xDD"); else r.append(c); }
    return r.append('\xC0');
}
static QList<QPair<int, QByteArray>> frames(const QByteArray &wire)
{
    QList<QPair<int, QByteArray>> l; QByteArray cur; bool esc = false;
    for (char c : wire) {
        uchar b = c;
        if (b == 0xC0) { if (cur.size() >= 2) l.append(qMakePair((uchar(cur[0]) << 8) | uchar(cur[1]), cur.mid(2))); cur.clear(); esc = false; }
        else if (esc) { cur.append(b == 0xDC ? '\xC0' : '\xDB'); esc = false; } else if (b == 0xDB) esc = true; else cur.append(c);
    }
    return l;
}
static QVariantMap json(const QByteArray &d) { return QJsonDocument::fromJson(d).toVariant().toMap(); }
static QVariantMap lastApi(const QByteArray &wire) { auto f = frames(wire); for (int i = f.size() - 1; i >= 0; i--) if (f[i].first == 0) return json(f[i].second); return QVariantMap(); }
static QString err(const QVariantMap &m) { return m.value("params").toMap().value("tunnelProxyError").toString(); }
static QUuid addServer(Fake *f, int u) { QUuid c = f->open(); f->feed(c, regServer(1, u)); CHECK(err(json(f->take(c))) == "TunnelProxyErrorNoError"); return c; }
static QUuid addClient(Fake *f, int u, int s) { QUuid c = f->open(); f->feed(c, regClient(1, u, s)); CHECK(err(json(f->take(c))) == "TunnelProxyErrorNoError"); return c; }
static void demo();
int main(int argc, char **argv) { QCoreApplication a(argc, argv); setvbuf(stdout, nullptr, _IONBF, 0); demo(); printf(failures ? "demo failed\n" : "demo passed\n"); _exit(failures ? 1 : 0); }
