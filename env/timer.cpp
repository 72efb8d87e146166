// Virtual time: QTimer and the clock. Time only passes in env_advance(), timers fire in due order (ties in
// start order), posted events are delivered after each one.
#include "env.h"
static qint64 nowMs = 1700000000000LL;
static quint64 seqNo;
struct Tm { QTimer *t; qint64 due; quint64 seq; bool hasRecv; QPointer<QObject> recv; QtPrivate::QSlotObjectBase *slot; QByteArray member; };
static QList<Tm *> *tms;
static QList<Tm *> &timers() { if (!tms) tms = new QList<Tm *>; return *tms; }
extern "C" qint64 env_now() { return nowMs; }
static int nextId = 1;

QTimer::QTimer(QObject *p) : QObject(p), id(-1), inter(0), del(0), single(0), nulltimer(0), type(Qt::CoarseTimer) {}
QTimer::~QTimer() { if (id >= 0) stop(); }
static void armTimer(QTimer *t, int inter) { Tm *m = new Tm; m->t = t; m->due = nowMs + inter; m->seq = ++seqNo; m->hasRecv = false; m->slot = nullptr; timers().append(m); }
void QTimer::start() { if (id >= 0) stop(); id = nextId++; armTimer(this, inter); }
void QTimer::start(int ms) { inter = ms; start(); }
void QTimer::stop() { if (id < 0) return; id = -1; for (int i = 0; i < timers().size(); i++) if (timers().at(i)->t == this) { delete timers().takeAt(i); return; } }
void QTimer::setInterval(int ms) { inter = ms; if (id >= 0) { for (int i = 0; i < timers().size(); i++) if (timers().at(i)->t == this) timers().at(i)->due = nowMs + ms; } }
int QTimer::remainingTime() const { if (id < 0) return -1; for (int i = 0; i < timers().size(); i++) if (timers().at(i)->t == this) return int(qMax<qint64>(0, timers().at(i)->due - nowMs)); return -1; }
void QTimer::timerEvent(QTimerEvent *e) { if (e->timerId() == id) { if (single) stop(); emit timeout(QPrivateSignal()); } }
void QTimer::singleShotImpl(int ms, Qt::TimerType, const QObject *r, QtPrivate::QSlotObjectBase *slot) { Tm *m = new Tm; m->t = nullptr; m->due = nowMs + ms; m->seq = ++seqNo; m->hasRecv = r != nullptr; m->recv = const_cast<QObject *>(r); m->slot = slot; timers().append(m); }
void QTimer::singleShot(int ms, const QObject *r, const char *member) { Tm *m = new Tm; m->t = nullptr; m->due = nowMs + ms; m->seq = ++seqNo; m->hasRecv = true; m->recv = const_cast<QObject *>(r); m->slot = nullptr; m->member = QByteArray(member + 1); m->member.truncate(m->member.indexOf('(')); timers().append(m); }
void QTimer::singleShot(int ms, Qt::TimerType, const QObject *r, const char *member) { singleShot(ms, r, member); }

static Tm *nextDue(qint64 limit)
{
    Tm *best = nullptr; QList<Tm *> &l = timers();
    for (int i = 0; i < l.size(); i++) { Tm *m = l.at(i); if (m->due <= limit && (!best || m->due < best->due || (m->due == best->due && m->seq < best->seq))) best = m; }
    return best;
}
static void fire(Tm *m)
{
    if (m->t) { m->due += m->t->interval() > 0 ? m->t->interval() : 1; m->seq = ++seqNo; QTimerEvent e(m->t->timerId()); m->t->timerEvent(&e); return; }
    timers().removeOne(m);
    if (m->hasRecv && m->recv.isNull()) { if (m->slot) m->slot->destroyIfLastRef(); delete m; return; }
    if (m->slot) { void *a[] = { nullptr }; m->slot->call(m->recv.data(), a); m->slot->destroyIfLastRef(); }
    else QMetaObject::invokeMethod(m->recv.data(), m->member.constData(), Qt::DirectConnection);
    delete m;
}
static void posted();
bool (*env_notified)() = nullptr;
void env_run()
{
    for (;;) { posted(); Tm *m = nextDue(nowMs); if (m) { fire(m); continue; } if (!env_notified || !env_notified()) return; }
}
void env_advance(qint64 ms)
{
    qint64 end = nowMs + ms; env_run();
    for (;;) { Tm *m = nextDue(end); if (!m) break; if (m->due > nowMs) nowMs = m->due; fire(m); posted(); }
    nowMs = end;
}
QDateTime QDateTime::currentDateTime() { return QDateTime::fromMSecsSinceEpoch(env_now()); }
QDateTime QDateTime::currentDateTimeUtc() { return QDateTime::fromMSecsSinceEpoch(env_now(), Qt::UTC); }
qint64 QDateTime::currentMSecsSinceEpoch() noexcept { return env_now(); }
qint64 QDateTime::currentSecsSinceEpoch() noexcept { return env_now() / 1000; }
void QElapsedTimer::start() noexcept { t1 = env_now(); t2 = 0; }
qint64 QElapsedTimer::restart() noexcept { qint64 r = env_now() - t1; t1 = env_now(); return r; }
qint64 QElapsedTimer::elapsed() const noexcept { return env_now() - t1; }
qint64 QElapsedTimer::nsecsElapsed() const noexcept { return 1000000 * (env_now() - t1); }
bool QElapsedTimer::hasExpired(qint64 ms) const noexcept { return quint64(elapsed()) > quint64(ms); }
bool QElapsedTimer::isValid() const noexcept { return t1 != qint64(Q_INT64_C(0x8000000000000000)); }
void QElapsedTimer::invalidate() noexcept { t1 = t2 = qint64(Q_INT64_C(0x8000000000000000)); }
qint64 QElapsedTimer::msecsSinceReference() const noexcept { return t1; }
qint64 QElapsedTimer::msecsTo(const QElapsedTimer &o) const noexcept { return o.t1 - t1; }
qint64 QElapsedTimer::secsTo(const QElapsedTimer &o) const noexcept { return (o.t1 - t1) / 1000; }
static void posted() { QCoreApplication::sendPostedEvents(nullptr, 0); }
void (*env_on_exit)(int) = nullptr;
void env_exit(int rc) { if (env_on_exit) env_on_exit(rc); quint64 v = rc; vp_log("exit", &v, 8); vp_done(); }
#ifdef VP_ENGINE
extern "C" void exit(int rc) { env_exit(rc); }
#else
// Natively, deleteLater() outside a running event loop would never be honoured: queue it in event order.
static int delType() { static int t = QEvent::registerEventType(); return t; }
struct DelEv : QEvent { QPointer<QObject> o; DelEv(QObject *x) : QEvent(QEvent::Type(delType())), o(x) {} };
struct Deleter : QObject { bool event(QEvent *e) override { if (e->type() == delType()) { delete static_cast<DelEv *>(e)->o.data(); return true; } return QObject::event(e); } };
static QSet<QObject *> *delQueued;
void QObject::deleteLater()
{
    static Deleter *d = new Deleter; if (property("_vp_deleteLater").toBool()) return; setProperty("_vp_deleteLater", true);
    QCoreApplication::postEvent(d, new DelEv(this));
}
static quint32 uuidCounter;
QUuid QUuid::createUuid() { return QUuid(0xc0ffee00u + ++uuidCounter, 0x1234, 0x4678, 0x9a, 0xbc, 0xde, 0xf0, 0x12, 0x34, 0x56, 0x78); }
#endif
