// Client library against a proxy played by the harness.
#pragma once
#include "h.h"
#include "proxyconnection.h"
#include "tunnelproxy/tunnelproxyremoteconnection.h"
#include "tunnelproxy/tunnelproxysocketserver.h"
#include "tunnelproxy/tunnelproxysocket.h"
using namespace remoteproxyclient;
enum Kind { Plain, Tls, Web, WebTls };
static inline QUrl urlOf(Kind k, int port = 2213) { QUrl u; u.setScheme(k == Plain ? "tcp" : k == Tls ? "ssl" : k == Web ? "ws" : "wss"); u.setHost("127.0.0.1"); u.setPort(port); return u; }
// socket of the newest connection of a client object; nullptr if it has none
static inline Sock *sockOf(const QObject *o) { Sock *r = nullptr; for (int i = 0; i < env_socks().size(); i++) { QObject *x = env_socks().at(i)->o; if (x && x->parent() && x->parent()->parent() == o) r = env_socks().at(i); } return r; }
static inline int attempts() { return env_socks().size(); } // one socket for each attempt, as long as env_purge is not called
static inline void recv(Sock *s, const QByteArray &d) { if (s->kind == Sock::Web) env_text(s, QString::fromUtf8(d.constData(), d.size())); else env_feed(s, d); }
static inline QByteArray sent(Sock *s) { if (s->kind != Sock::Web) return s->tx; QByteArray r; for (int i = 0; i < s->msgs.size(); i++) r += s->msgs.at(i).toUtf8(); return r; }
static inline QVariantMap json(const QByteArray &d) { QJsonParseError e; QJsonDocument j = QJsonDocument::fromJson(d, &e); vp_assert(e.error == QJsonParseError::NoError, "request is not JSON"); return j.toVariant().toMap(); }
static inline QByteArray num(int n) { return QByteArray::number(n); }
static inline QByteArray helloOk(int id) { return "{\"id\":" + num(id) + ",\"params\":{\"apiVersion\":\"0.3\",\"name\":\"proxy\",\"server\":\"nymea-remoteproxy\",\"version\":\"1.2.3\"},\"status\":\"success\"}\n"; }
static inline QByteArray regOk(int id) { return "{\"id\":" + num(id) + ",\"params\":{\"tunnelProxyError\":\"TunnelProxyErrorNoError\"},\"status\":\"success\"}\n"; }
static inline QByteArray regFail(int id) { return "{\"id\":" + num(id) + ",\"params\":{\"tunnelProxyError\":\"TunnelProxyErrorServerNotFound\"},\"status\":\"success\"}\n"; }
static inline QByteArray errAnswer(int id) { return "{\"error\":\"Such method does not exist.\",\"id\":" + num(id) + ",\"status\":\"error\"}\n"; }
static inline QByteArray slip(int address, const QByteArray &payload)
{
    QByteArray raw, r; raw.append((char)(address >> 8)); raw.append((char)address); raw.append(payload);
    for (int i = 0; i < raw.size(); i++) { uint8_t b = raw.at(i); if (b == 0xC0) { r.append((char)0xDB); r.append((char)0xDC); } else if (b == 0xDB) { r.append((char)0xDB); r.append((char)0xDD); } else r.append((char)b); }
    r.append((char)0xC0); return r;
}
struct Fr { int address; QByteArray data; };
static inline QList<Fr> frames(const QByteArray &wire)
{
    QList<Fr> l; QByteArray cur; bool esc = false;
    for (int i = 0; i < wire.size(); i++) {
        uint8_t b = wire.at(i);
        if (b == 0xC0) { vp_assert(!esc, "frame ends within an escape"); if (cur.isEmpty()) continue; vp_assert(cur.size() >= 2, "frame without address"); Fr f; f.address = ((uint8_t)cur.at(0) << 8) | (uint8_t)cur.at(1); f.data = cur.mid(2); l.append(f); cur.clear(); }
        else if (esc) { vp_assert(b == 0xDC || b == 0xDD, "bad escape"); cur.append((char)(b == 0xDC ? 0xC0 : 0xDB)); esc = false; }
        else if (b == 0xDB) esc = true; else cur.append((char)b);
    }
    vp_assert(cur.isEmpty() && !esc, "incomplete frame"); return l;
}
static inline QByteArray connectedNote(int address, const char *name = "client") { return QByteArray("{\"id\":7,\"notification\":\"TunnelProxy.ClientConnected\",\"params\":{\"clientName\":\"") + name + "\",\"clientPeerAddress\":\"10.0.0.9\",\"clientUuid\":\"{0000000a-0001-0002-0304-05060708090a}\",\"socketAddress\":" + num(address) + "}}\n"; }
static inline QByteArray disconnectedNote(int address) { return "{\"id\":8,\"notification\":\"TunnelProxy.ClientDisconnected\",\"params\":{\"socketAddress\":" + num(address) + "}}\n"; }
