// Histories of the proxy core against an independent model of registrations. Each property asserts only its own aspect.
#pragma once
#include "proxy.h"
enum Aspect { REG = 1, DISC = 2, ISO = 4, STAT = 8 };
enum Role { None, Server, Client };
struct HConn { bool pending; Role role; int u, addr, srv; int dc; QByteArray name; quint64 rx, tx; };
struct Item { enum T { Resp, Kill, Note, Data } t; int conn; int id; QString what; int addr; QByteArray data; bool used, optional; };
struct Hist {
    FakeTransport *t; QList<HConn> c; int mask, nextId, pos, eventTag; bool sane; quint64 tunnelled;
    QList<Item> exp; Aspect now; void (*foreign)(Hist &); // called before a history is given up because another property is broken
    Hist(int mask) : mask(mask), nextId(100), pos(0), eventTag(0), sane(true), tunnelled(0), now(REG), foreign(nullptr) { t = startProxy(); }
    bool live(int i) const { return i < c.size() && t->alive.at(i) && !c.at(i).pending; }
    bool there(int i) const { return i < c.size() && t->alive.at(i); }
    void check(bool ok, int aspect, const char *msg) { if (mask & aspect) { vp_assert(ok, msg); } else if (!ok) { if (foreign) foreign(*this); vp_done(); } }
    void expect(Item::T k, int conn, int id, const char *what, int addr = -1, const QByteArray &d = QByteArray()) { Item e; e.t = k; e.conn = conn; e.id = id; e.what = QString::fromLatin1(what); e.addr = addr; e.data = d; e.used = e.optional = false; exp.append(e); }
    void got(Item::T k, int conn, int id, const QString &what, int addr, const QByteArray &d)
    {
        for (int i = 0; i < exp.size(); i++) {
            Item &e = exp[i]; if (e.used || e.t != k || e.conn != conn) continue;
            if (k == Item::Resp) { if (e.id != id) continue; QStringList alt = e.what.split('|'); check(alt.contains(what), now, "response reports another result"); e.what = what; e.used = true; return; }
            if (k == Item::Note) { if (e.what != what || (e.addr >= 0 && e.addr != addr)) continue; e.addr = addr; e.used = true; return; }
            if (k == Item::Data) { check(e.addr == addr && eqBytes(e.data, d), ISO, "tunnel data differs from what was sent, or carries another address"); e.used = true; return; }
            e.used = true; return;
        }
        switch (k) {
        case Item::Resp: check(false, now, "unexpected or duplicate response"); break;
        case Item::Kill: check(false, now, "connection closed that is not concerned"); break;
        case Item::Note: check(false, DISC, "unexpected or duplicate notification"); break;
        case Item::Data: check(false, ISO, "tunnel data sent to a connection it is not meant for"); break;
        }
    }
    void json(int conn, const QByteArray &d)
    {
        QVariantMap m = parseJson(d);
        if (m.contains("notification")) { got(Item::Note, conn, -1, m.value("notification").toString(), m.value("params").toMap().value("socketAddress").toInt(), QByteArray()); return; }
        got(Item::Resp, conn, m.value("id").toInt(), m.value("status").toString() == "success" ? error(m) : QString("error"), -1, QByteArray());
    }
    // compare what the proxy did since the last call with what was expected; roles: before the event
    void settleUp(const QList<HConn> &before)
    {
        for (; pos < t->out.size(); pos++) {
            const Out &o = t->out.at(pos);
            if (o.kill) { got(Item::Kill, o.conn, -1, QString(), -1, QByteArray()); if (t->deferKill && c.size() > o.conn) c[o.conn].pending = true; continue; }
            c[o.conn].tx += o.data.size();
            const HConn &h = before.at(o.conn);
            if (h.role == Server) { QList<Fr> l = frames(o.data); for (int i = 0; i < l.size(); i++) if (l.at(i).address == 0) json(o.conn, l.at(i).data); else got(Item::Data, o.conn, -1, QString(), l.at(i).address, l.at(i).data); }
            else if (h.role == Client) got(Item::Data, o.conn, -1, QString(), -1, o.data);
            else json(o.conn, o.data);
        }
        for (int i = 0; i < exp.size(); i++) if (!exp.at(i).used && !exp.at(i).optional) switch (exp.at(i).t) {
            case Item::Resp: check(false, now, "no response"); break;
            case Item::Kill: check(false, now, "connection that has to be closed stays open"); break;
            case Item::Note: check(false, now == REG ? REG : DISC, "missing notification"); break;
            case Item::Data: check(false, ISO, "tunnel data lost"); break;
        }
    }
    void begin(Aspect a) { exp.clear(); now = a; }
    bool used(int u) const { for (int i = 0; i < c.size(); i++) if (there(i) && c.at(i).role != None && c.at(i).u == u) return true; return false; }
    int serverOf(int u) const { for (int i = 0; i < c.size(); i++) if (there(i) && c.at(i).role == Server && c.at(i).u == u) return i; return -1; }
    int clientAt(int srv, int addr) const { for (int i = 0; i < c.size(); i++) if (there(i) && c.at(i).role == Client && c.at(i).srv == srv && c.at(i).addr == addr) return i; return -1; }
    int open() { HConn h; h.pending = false; h.role = None; h.u = h.addr = h.srv = -1; h.dc = 0; h.rx = h.tx = 0; c.append(h); begin(REG); int i = t->open(); settleUp(c); return i; }
    // effects of connection i being gone (after its disconnect reached the proxy)
    void gone(int i)
    {
        HConn &h = c[i];
        if (h.role == Server) { for (int j = 0; j < c.size(); j++) if (there(j) && c.at(j).role == Client && c.at(j).srv == i) { if (!c.at(j).pending) expect(Item::Kill, j, -1, ""); c[j].srv = -1; } }
        else if (h.role == Client && h.srv >= 0 && there(h.srv)) { expect(Item::Note, h.srv, -1, "TunnelProxy.ClientDisconnected", h.addr); h.srv = -1; }
    }
    void after(const QList<HConn> &before) { settleUp(before); }
    static QByteArray wrap(const HConn &h, const QByteArray &r) { return h.role == Server ? slip(0, r) : r; }
    void feed(int i, const QByteArray &d) { c[i].rx += d.size(); t->feed(i, d); }
    void regServer_(int i, int u)
    {
        begin(REG); QList<HConn> before = c; HConn &h = c[i]; int id = nextId++; bool bad = u <= 0, taken = h.role != None || used(u);
        if (h.role == Client) { clientData(i, regServer(id, u)); return; }
        expect(Item::Resp, i, id, bad && taken ? "TunnelProxyErrorInvalidUuid|TunnelProxyErrorAlreadyRegistered" : bad ? "TunnelProxyErrorInvalidUuid" : taken ? "TunnelProxyErrorAlreadyRegistered" : "TunnelProxyErrorNoError");
        if (!bad && taken) expect(Item::Kill, i, -1, "");
        if (!bad && !taken) { h.role = Server; h.u = u; h.name = "srv"; h.name.append((char)('a' + i)); }
        bool kill = !bad && taken; if (kill && !t->deferKill) { gone(i); }
        feed(i, wrap(before.at(i), req(id, "TunnelProxy.RegisterServer", QByteArray("{\"serverName\":\"srv").append((char)('a' + i)).append("\",\"serverUuid\":\"").append(bad && u < 0 ? QByteArray("nonsense") : u == 0 ? QByteArray("{00000000-0000-0000-0000-000000000000}") : uu(u)).append("\"}"))));
        after(before);
    }
    void regClient_(int i, int u, int s)
    {
        begin(REG); QList<HConn> before = c; HConn &h = c[i]; int id = nextId++; bool bad = u <= 0 || s <= 0, taken = h.role != None || used(u); int srv = s > 0 ? serverOf(s) : -1;
        QByteArray r = req(id, "TunnelProxy.RegisterClient", QByteArray("{\"clientName\":\"cli").append((char)('a' + i)).append("\",\"clientUuid\":\"").append(u < 0 ? QByteArray("nonsense") : u == 0 ? QByteArray("{00000000-0000-0000-0000-000000000000}") : uu(u)).append("\",\"serverUuid\":\"").append(s < 0 ? QByteArray("nonsense") : s == 0 ? QByteArray("{00000000-0000-0000-0000-000000000000}") : uu(s)).append("\"}"));
        if (h.role == Client) { clientData(i, r); return; }
        QByteArray e; if (bad) e.append("|TunnelProxyErrorInvalidUuid"); if (taken) e.append("|TunnelProxyErrorAlreadyRegistered"); if (srv < 0) e.append("|TunnelProxyErrorServerNotFound"); if (e.isEmpty()) e = QByteArray("|TunnelProxyErrorNoError");
        bool ok = !bad && !taken && srv >= 0;
        expect(Item::Resp, i, id, e.mid(1).constData()); if (!ok && !bad) expect(Item::Kill, i, -1, "");
        if (!ok && !bad && !t->deferKill) gone(i);
        if (ok) { expect(Item::Note, srv, -1, "TunnelProxy.ClientConnected"); h.role = Client; h.u = u; h.srv = srv; h.name = "cli"; h.name.append((char)('a' + i)); }
        feed(i, wrap(before.at(i), r)); after(before);
        if (ok) for (int k = 0; k < exp.size(); k++) if (exp.at(k).t == Item::Note && exp.at(k).conn == srv) c[i].addr = exp.at(k).addr;
    }
    void clientData(int i, const QByteArray &d)
    {
        begin(ISO); QList<HConn> before = c; if (c.at(i).srv >= 0 && there(c.at(i).srv)) { expect(Item::Data, c.at(i).srv, -1, "", c.at(i).addr, d); exp.last().optional = c.at(i).pending; tunnelled += d.size(); }
        feed(i, d); after(before);
    }
    void serverData(int i, int addr, const QByteArray &d)
    {
        begin(ISO); QList<HConn> before = c; int j = clientAt(i, addr); if (j >= 0) { expect(Item::Data, j, -1, "", -1, d); exp.last().optional = c.at(i).pending; tunnelled += d.size(); }
        feed(i, slip(addr, d)); after(before);
    }
    void disconnectClient(int i, int addr)
    {
        QByteArray r = req(nextId, "TunnelProxy.DisconnectClient", QByteArray("{\"socketAddress\":").append(QByteArray::number(addr)).append("}"));
        if (c.at(i).role == Client) { nextId++; clientData(i, r); return; }
        begin(DISC); QList<HConn> before = c; int id = nextId++;
        if (c.at(i).role == None) { expect(Item::Resp, i, id, "TunnelProxyErrorAlreadyRegistered"); expect(Item::Kill, i, -1, ""); }
        else { int j = clientAt(i, addr); expect(Item::Resp, i, id, j >= 0 ? "TunnelProxyErrorNoError" : "TunnelProxyErrorUnknownSocketAddress"); if (j >= 0) { if (!c.at(j).pending) expect(Item::Kill, j, -1, ""); if (!t->deferKill) gone(j); } }
        feed(i, wrap(before.at(i), r)); after(before);
    }
    void drop(int i) { begin(DISC); QList<HConn> before = c; gone(i); t->drop(i); after(before); }
    bool anyPending() const { for (int i = 0; i < c.size(); i++) if (there(i) && c.at(i).pending) return true; return false; }
    // one history step chosen by the solver; uuids 1..nu plus null/malformed, tag: a byte of tunnel data
    void step(int maxConn, int nu, bool invalid)
    {
        int i = 0; bool fresh = false;
        { int n = c.size() + (c.size() < maxConn ? 1 : 0); i = vp_choice(n, "conn"); if (i == c.size()) { open(); fresh = true; } }
        vp_assume(there(i)); 
        if (c.at(i).pending) { // a connection being closed may still transmit
            if (c.at(i).role == None || !(mask & (ISO | STAT)) || vp_bool("drop")) { drop(i); return; }
            QByteArray d; d.append((char)vp_byte("tag")); if (c.at(i).role == Client) clientData(i, d); else serverData(i, 1 + vp_choice(3, "address"), d);
            env_run(); return;
        }
        if (fresh && vp_bool("idle")) return;
        int lo = invalid ? -1 : 1;
        switch (vp_choice(5, "op")) {
        case 0: vp_assume(c.at(i).role != Client); regServer_(i, lo + vp_choice(nu + 1 - lo, "uuid")); break;
        case 1: vp_assume(c.at(i).role != Client); { int k = vp_choice(nu * nu + (invalid ? 4 : 0), "uuids"); int u = 1 + k % nu, s = 1 + k / nu; if (k >= nu * nu) { static const int iu[] = { -1, 0, 1, 1 }, is[] = { 1, 1, -1, 0 }; u = iu[k - nu * nu]; s = is[k - nu * nu]; } regClient_(i, u, s); } break;
        case 2: { vp_assume(!fresh); QByteArray d; d.append((char)vp_byte("tag")); if (c.at(i).role == Client) clientData(i, d); else { vp_assume(c.at(i).role == Server); serverData(i, 1 + vp_choice(3, "address"), d); } break; }
        case 3: vp_assume(!fresh && c.at(i).role != Client); disconnectClient(i, c.at(i).role == Server ? 1 + vp_choice(3, "address") : 1); break;
        case 4: vp_assume(!fresh); drop(i); break;
        }
        env_run();
    }
};
