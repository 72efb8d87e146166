// Histories of one transport server against a model of its sockets.
#pragma once
#include "h.h"
#include "server/transportinterface.h"
#include "server/tcpsocketserver.h"
#include "server/unixsocketserver.h"
#include "server/websocketserver.h"
using namespace remoteproxy;
struct TSock { Sock *s; bool ann, gone, closing, listed; QUuid id; qint64 since; QByteArray want; QList<QByteArray> wantMsgs; };
struct Ev { int k; QUuid id; QByteArray d; QHostAddress a; }; // 0 connected 1 disconnected 2 data
struct Trans {
    enum Kind { Tcp, Unix, Web } kind; bool ssl; TransportInterface *t; QList<Ev> ev; int pos; QList<TSock> c; bool up; QSslConfiguration conf;
    Trans(Kind kind, bool ssl = false) : kind(kind), ssl(ssl), t(nullptr), pos(0), up(false)
    {
        conf.setProtocol(QSsl::TlsV1_2OrLater);
        if (kind == Tcp) t = new TcpSocketServer(ssl, conf); else if (kind == Unix) t = new UnixSocketServer("transport.sock"); else t = new WebSocketServer(ssl, conf);
        QUrl u; u.setScheme("tcp"); u.setHost("127.0.0.1"); u.setPort(7001); t->setServerUrl(u);
        QObject::connect(t, &TransportInterface::clientConnected, t, [this](const QUuid &i, const QHostAddress &a) { Ev e; e.k = 0; e.id = i; e.a = a; ev.append(e); });
        QObject::connect(t, &TransportInterface::clientDisconnected, t, [this](const QUuid &i) { Ev e; e.k = 1; e.id = i; ev.append(e); });
        QObject::connect(t, &TransportInterface::dataAvailable, t, [this](const QUuid &i, const QByteArray &d) { Ev e; e.k = 2; e.id = i; e.d = d; ev.append(e); });
        start();
    }
    bool listening() const { return kind == Unix ? env_listening_local("transport.sock") != nullptr : env_listening(kind == Tcp ? Sock::Tcp : Sock::Web, 7001) != nullptr; }
    void start() { bool ok = t->startServer(); vp_assert(ok && t->running() && listening(), "not listening after the start"); up = true; quiet(); }
    void stop() { bool ok = t->stopServer(); vp_assert(ok && !t->running() && !listening(), "still listening after the stop"); up = false; for (int i = 0; i < c.size(); i++) if (!c.at(i).gone) over(i, true); gather(); env_run(); gather(); counts(); }
    // ---- what is expected
    int connected, disconnected; QList<int> goneNow; // since the last check
    void over(int i, bool now = false) { if (c.at(i).gone) return; if (!now && c.at(i).s->deferClose && c.at(i).s->state != 0) { c[i].closing = true; return; } c[i].gone = true; if (c.at(i).ann) goneNow.append(i); }
    void gather()
    {
        for (; pos < ev.size(); pos++) {
            const Ev &e = ev.at(pos);
            if (e.k == 1) { int f = -1; for (int k = 0; k < goneNow.size(); k++) if (c.at(goneNow.at(k)).id == e.id) f = k; vp_assert(f >= 0, "disconnection reported twice, for an unknown id or for a live connection"); goneNow.removeAt(f); continue; }
            vp_assert(e.k == 2, "announced without reason"); vp_assert(false, "data forwarded that was not received as data, or twice");
        }
        vp_assert(goneNow.isEmpty(), "disconnection not reported");
    }
    void quiet() { vp_assert(pos == ev.size(), "reported without reason"); }
    void counts() { int n = 0; for (int i = 0; i < c.size(); i++) n += c.at(i).ann && !c.at(i).gone; vp_assert((int)t->connectionsCount() == n, "connection count"); for (int i = 0; i < c.size(); i++) { if (c.at(i).gone) { vp_assert(c.at(i).s->state == 0 || c.at(i).s->o == nullptr, "socket of a connection that is gone left open"); vp_assert(c.at(i).s->o == nullptr, "socket of a connection that is gone not released"); } written(i); } }
    void written(int i)
    {
        Sock *s = c.at(i).s; if (kind == Web) { vp_assert(s->bins.isEmpty() && s->msgs.size() == c.at(i).wantMsgs.size(), "messages written"); for (int k = 0; k < s->msgs.size(); k++) vp_assert(eqBytes(s->msgs.at(k).toUtf8(), c.at(i).wantMsgs.at(k)), "message written differs"); }
        else vp_assert(eqBytes(s->tx, c.at(i).want), "bytes written to the socket differ from the data sent to its id");
    }
    bool live(int i) const { return !c.at(i).gone && !c.at(i).closing; }
    void announced(int i) { vp_assert(ev.size() == pos + 1 && ev.at(pos).k == 0, "not announced exactly once"); c[i].id = ev.at(pos).id; c[i].ann = true; vp_assert(!c.at(i).id.isNull(), "null id"); for (int k = 0; k < c.size(); k++) vp_assert(k == i || !c.at(k).ann || c.at(k).id != c.at(i).id, "id used twice"); if (kind != Unix) vp_assert(ev.at(pos).a == c.at(i).s->peer, "announced with another address"); pos++; }
    // ---- events
    int open(bool defer, int version = 13)
    {
        Sock *s = kind == Tcp ? env_incoming_tcp(7001) : kind == Unix ? env_incoming_local("transport.sock") : env_incoming_web(7001, version); vp_assert(s != nullptr, "connection not accepted");
        s->deferClose = defer; TSock x; x.s = s; x.ann = x.gone = x.closing = x.listed = false; x.since = env_now(); c.append(x); int i = c.size() - 1;
        if (kind == Web && version != 13) { quiet(); vp_assert(s->closedByCode, "client with another protocol version not rejected"); c[i].gone = true; env_run(); quiet(); return i; }
        if (kind == Tcp && ssl) { quiet(); vp_assert(s->serverEnc, "no TLS handshake started"); vp_assert(s->sslSet && s->ssl == conf, "other TLS configuration"); return i; }
        vp_assert(kind != Tcp || !s->serverEnc, "TLS handshake without TLS"); announced(i); return i;
    }
    void encrypted(int i) { if (!live(i) || c.at(i).ann) return; env_encrypted(c.at(i).s); announced(i); }
    void data(int i, const QByteArray &d)
    {
        if (!live(i) || !c.at(i).ann) return; if (kind == Web) env_text(c.at(i).s, QString::fromUtf8(d.constData(), d.size())); else env_feed(c.at(i).s, d);
        vp_assert(ev.size() == pos + 1 && ev.at(pos).k == 2, "data not forwarded exactly once"); vp_assert(ev.at(pos).id == c.at(i).id, "data forwarded under another id"); vp_assert(eqBytes(ev.at(pos).d, d), "data forwarded differs"); pos++;
    }
    void send(int i, const QByteArray &d) { bool w = live(i) && c.at(i).ann; t->sendData(c.at(i).ann ? c.at(i).id : QUuid(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), d); if (w) { c[i].want += d; c[i].wantMsgs.append(d); } quiet(); for (int k = 0; k < c.size(); k++) written(k); }
    void kill(int i) { t->killClientConnection(c.at(i).ann ? c.at(i).id : QUuid(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11), "reason"); if (c.at(i).ann && live(i)) { vp_assert(c.at(i).s->closedByCode, "killed connection not closed"); over(i); } gather(); for (int k = 0; k < c.size(); k++) if (live(k)) vp_assert(!c.at(k).s->closedByCode && c.at(k).s->state == QAbstractSocket::ConnectedState, "another connection closed"); }
    void drain(int i) { if (!c.at(i).closing || c.at(i).gone) return; env_drain(c.at(i).s); over(i, true); gather(); }
    void peerClose(int i) { if (c.at(i).gone) return; c.at(i).s->deferClose = false; env_peer_close(c.at(i).s); over(i, true); gather(); }
    void binary(int i) { if (!live(i)) return; env_binary(c.at(i).s, "bin"); vp_assert(c.at(i).s->closedByCode, "binary message does not close the connection"); over(i); gather(); }
    void fail(int i) { if (!live(i)) return; env_error(c.at(i).s); if (kind == Unix) { quiet(); return; } if (c.at(i).s->closedByCode) over(i); gather(); }
    void pass(int ms) { env_advance(ms); for (int i = 0; i < c.size(); i++) if (kind == Tcp && ssl && live(i) && !c.at(i).ann && env_now() - c.at(i).since >= 5000) { vp_assert(c.at(i).s->closedByCode, "socket without handshake not closed after 5 seconds"); over(i); } for (int i = 0; i < c.size(); i++) if (live(i)) vp_assert(!c.at(i).s->closedByCode, "connection closed without reason"); gather(); }
    void unknown() { t->killClientConnection(QUuid::createUuid(), "x"); t->sendData(QUuid::createUuid(), "x"); t->sendData(QUuid(), "x"); t->killClientConnection(QUuid(), "x"); quiet(); for (int k = 0; k < c.size(); k++) { if (live(k)) vp_assert(!c.at(k).s->closedByCode, "another connection closed"); written(k); } }
    void settle() { env_run(); gather(); counts(); }
    void step(int max)
    {
        int i = up ? vp_choice(c.size() + (c.size() < max ? 1 : 0), "sock") : vp_choice(c.size() ? c.size() : 1, "sock"); if (!up && !c.size()) { start(); return; }
        if (i == c.size()) { bool d = vp_bool("defer"); open(d, kind == Web && vp_bool("oldversion") ? 8 : 13); settle(); return; }
        switch (vp_choice(9, "op")) {
        case 0: vp_assume(up && kind == Tcp && ssl); encrypted(i); break;
        case 1: { vp_assume(live(i) && c.at(i).ann); QByteArray d; uint8_t b = vp_byte("rx"); if (kind == Web) vp_assume(b < 128); d.append((char)b); d.append('\0'); data(i, d); break; }
        case 2: { QByteArray d; uint8_t b = vp_byte("tx"); if (kind == Web) vp_assume(b < 128); d.append((char)b); d.append('x'); send(i, d); break; }
        case 3: kill(i); break;
        case 4: if (c.at(i).closing) drain(i); else peerClose(i); break;
        case 5: fail(i); break;
        case 6: if (kind == Web) binary(i); else if (kind == Tcp) { if (live(i) && ssl && !c.at(i).ann) { env_ssl_errors(c.at(i).s); gather(); } pass(2500); } else unknown(); break;
        case 7: vp_assume(i == 0); if (up) stop(); else start(); break;
        case 8: vp_assume(i == 0); unknown(); break;
        }
        settle();
    }
    void finish() { if (vp_bool("destroy")) { up = false; for (int i = 0; i < c.size(); i++) if (!c.at(i).gone) over(i, true); delete t; env_run(); } else { if (up) stop(); } for (int i = 0; i < c.size(); i++) vp_assert(c.at(i).s->o == nullptr || c.at(i).s->state == 0, "socket left open"); vp_assert(!listening(), "still listening"); logi("events", ev.size()); }
};
