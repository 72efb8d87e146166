// C28: asynchronous API replies.
#include "c28_moc.h"
enum St { Waiting, Done, Gone };
struct Rq { int conn, id, n; qint64 due; St st; bool there; };
struct A {
    FakeTransport *t; AsyncHandler *h; int T; QList<Rq> rq; QList<int> conns; QList<bool> server, ended; int pos;
    A() : pos(0)
    {
        static const int TO[] = { 1000, 2500 }; ProxyConfiguration *cf = testConfig(); T = TO[vp_choice(2, "timeout")]; cf->setJsonRpcTimeout(T); cf->setInactiveTimeout(1000000); t = startProxy(cf); t->deferKill = vp_bool("defer");
        JsonRpcServer *j = nullptr; const QObjectList &l = proxy()->children(); for (int i = 0; i < l.size(); i++) if (JsonRpcServer *x = qobject_cast<JsonRpcServer *>(l.at(i))) j = x; vp_assert(j != nullptr, "no JSON-RPC server"); h = new AsyncHandler(proxy()); j->registerHandler(h);
    }
    int conn(bool srv) { int c = srv ? addServer(t, 1 + conns.size()) : t->open(); conns.append(c); server.append(srv); ended.append(false); t->out.clear(); pos = 0; return conns.size() - 1; }
    // exactly the response to request k (or nothing, k < 0), then a close if the connection has to be closed
    void expect(int k, bool ok, bool close)
    {
        int sends = 0, kills = 0; for (; pos < t->out.size(); pos++) {
            const Out &o = t->out.at(pos); vp_assert(k >= 0 && o.conn == conns.at(rq.at(k).conn), "another connection affected");
            if (o.kill) { vp_assert(sends == 1, "closed before the response"); kills++; continue; }
            sends++; QVariantMap m = server.at(rq.at(k).conn) ? parseApiFrame(o.data) : parseJson(o.data); vp_assert(m.value("id").toInt() == rq.at(k).id, "response has another id");
            if (ok) { vp_assert(m.value("status").toString() == "success" && m.value("params").toMap().value("n").toInt() == rq.at(k).n + 1000, "response does not carry the reply's data"); } else vp_assert(m.value("status").toString() == "error", "timeout not reported as error");
        }
        if (k < 0) return; vp_assert(sends == 1, "not exactly one response"); if (close) { if (!ended.at(rq.at(k).conn)) vp_assert(kills == 1, "connection not closed after the response"); } else vp_assert(kills == (ended.at(rq.at(k).conn) ? kills : 0), "connection closed without reason");
    }
    void gone(int c) { for (int i = 0; i < rq.size(); i++) if (rq.at(i).conn == c && rq.at(i).st == Waiting) rq[i].st = Gone; }
    void ends(int c) { ended[c] = true; if (!t->deferKill) gone(c); }
    void request(int c) { if (!t->alive.at(conns.at(c)) || ended.at(c)) return; Rq r; r.conn = c; r.id = 40 + 3 * rq.size(); r.n = rq.size(); r.due = env_now() + T; r.st = Waiting; r.there = true; QByteArray d = req(r.id, "Async.Slow", QByteArray("{\"n\":").append(QByteArray::number(r.n)).append("}")); rq.append(r); t->feed(conns.at(c), server.at(c) ? slip(0, d) : d); vp_assert(h->replies.size() == rq.size() && h->numbers.last() == r.n, "request not executed exactly once"); expect(-1, false, false); }
    void finish(int k, bool success)
    {
        Rq &r = rq[k]; if (!r.there) return; JsonReply *p = h->replies.at(k); QVariantMap d; d.insert("n", r.n + 1000); p->setData(d); p->setSuccess(success); emit p->finished(); r.there = false;
        if (r.st == Waiting) { r.st = Done; int c = r.conn; expect(k, true, !success); if (!success) ends(c); vp_cover("finished in time"); } else { expect(-1, false, false); vp_cover("finished without a client"); }
        if (vp_bool("twice")) { emit p->finished(); expect(-1, false, false); } env_run(); expect(-1, false, false);
    }
    void drop(int c) { if (!t->alive.at(conns.at(c))) return; t->drop(conns.at(c)); ended[c] = true; gone(c); env_run(); expect(-1, false, false); }
    void advance(qint64 ms)
    {
        qint64 to = env_now() + ms;
        while (1) { int k = -1; for (int i = 0; i < rq.size(); i++) if (rq.at(i).there && rq.at(i).due <= to && (k < 0 || rq.at(i).due < rq.at(k).due)) k = i; if (k < 0) break;
            qint64 due = rq.at(k).due; if (due - 1 > env_now()) env_advance(due - 1 - env_now()); expect(-1, false, false);
            // all replies due now, in any order
            QList<int> now; for (int i = 0; i < rq.size(); i++) if (rq.at(i).there && rq.at(i).due == due) now.append(i);
            if (now.size() > 1) vp_assume(false); // the order of timers due at the same instant is not specified
            env_advance(due - env_now()); rq[k].there = false; if (rq.at(k).st == Waiting) { rq[k].st = Done; int c = rq.at(k).conn; expect(k, false, true); ends(c); vp_cover("timed out"); } else expect(-1, false, false); }
        if (to > env_now()) env_advance(to - env_now()); expect(-1, false, false);
    }
};
extern "C" void histories()
{
    A a; a.conn(false); a.conn(vp_bool("server")); int k = (int)vp_param("steps", 5);
    for (int s = 0; s < k; s++) {
        switch (vp_choice(5, "op")) {
        case 0: vp_assume(a.rq.size() < 3); a.request(vp_choice(2, "conn")); env_advance(1); break;
        case 1: { vp_assume(a.rq.size()); int q = vp_choice(a.rq.size(), "reply"); vp_assume(a.rq.at(q).there); bool ok = vp_bool("success"); a.finish(q, ok); break; }
        case 2: { int c = vp_choice(2, "conn"); vp_assume(a.t->alive.at(a.conns.at(c))); a.drop(c); break; }
        case 3: { static const int P[] = { 1, 2, 3 }; int p = vp_choice(3, "time"); a.advance(p == 0 ? a.T - 1 : p == 1 ? a.T / 2 : 3 * a.T); break; }
        case 4: vp_assume(a.t->deferKill); { bool any = false; for (int c = 0; c < 2; c++) if (a.ended.at(c) && a.t->alive.at(a.conns.at(c))) { a.drop(c); any = true; } vp_assume(any); } break;
        }
    }
    a.advance(4 * a.T); for (int i = 0; i < a.rq.size(); i++) vp_assert(a.rq.at(i).st != Waiting, "request never answered"); a.t->log();
}
// two requests in one read, mixed with synchronous ones
extern "C" void mixed()
{
    A a; a.conn(vp_bool("server")); int order = vp_choice(4, "order"); QByteArray s = req(9, "RemoteProxy.Hello"), x = req(40, "Async.Slow", "{\"n\":0}"), y = req(43, "Async.Slow", "{\"n\":1}"); bool srv = a.server.at(0);
    QByteArray d; const QByteArray *o[4][3] = { { &s, &x, &y }, { &x, &s, &y }, { &x, &y, &s }, { &x, &y, &x } }; for (int i = 0; i < 3; i++) { if (order == 3 && i == 2) break; d.append(srv ? slip(0, *o[order][i]) : *o[order][i]); }
    a.t->feed(a.conns.at(0), d); vp_assert(a.h->replies.size() == 2, "requests not executed exactly once"); vp_assert(a.t->sends(a.conns.at(0)) == (order < 3), "synchronous request not answered at once"); a.t->out.clear(); a.pos = 0;
    for (int i = 0; i < 2; i++) { Rq r; r.conn = 0; r.id = 40 + 3 * i; r.n = i; r.due = env_now() + a.T; r.st = Waiting; r.there = true; a.rq.append(r); }
    int first = vp_choice(2, "first"); bool ok = vp_bool("success"); a.finish(first, ok); a.finish(1 - first, true); vp_cover("both answered");
}
