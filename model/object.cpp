// QtCore model: meta objects, QObject, signals and slots, events, QCoreApplication.
#include "object.h"
#include <string.h>
#include <stdlib.h>
#include <new>
QT_BEGIN_NAMESPACE
// ---------------------------------------------------------------- meta object tables (moc output revision 8)
static QByteArray mstr(const QMetaObject *m, uint i) { QByteArrayDataPtr p = { const_cast<QByteArrayData *>(&m->d.stringdata[i]) }; return QByteArray(p); }
static const char *mcs(const QMetaObject *m, uint i) { const QByteArrayData &d = m->d.stringdata[i]; return reinterpret_cast<const char *>(&d) + d.offset; }
static int nMethods(const QMetaObject *m) { return m->d.data[4]; }
static int nSignals(const QMetaObject *m) { return m->d.data[13]; }
static uint hMethod(const QMetaObject *m, int i) { return m->d.data[5] + 5 * i; }
static int mtype(const QMetaObject *m, uint i) { uint t = m->d.data[i]; if (!(t & 0x80000000u)) return t; return QMetaType::type(mcs(m, t & 0x7fffffff)); }
static const char *mtypeName(const QMetaObject *m, uint i) { uint t = m->d.data[i]; if (!(t & 0x80000000u)) return t == 43 ? "void" : QMetaType::typeName(t); return mcs(m, t & 0x7fffffff); }
static QByteArray msig(const QMetaObject *m, uint h)
{
    QByteArray r(mcs(m, m->d.data[h])); r += '('; int n = m->d.data[h + 1]; uint p = m->d.data[h + 2];
    for (int i = 0; i < n; i++) { if (i) r += ','; r += mtypeName(m, p + 1 + i); } r += ')'; return r;
}
const char *QMetaObject::className() const { return mcs(this, d.data[1]); }
bool QMetaObject::inherits(const QMetaObject *m) const noexcept { for (const QMetaObject *x = this; x; x = x->d.superdata) if (x == m) return true; return false; }
QObject *QMetaObject::cast(QObject *o) const { return o && o->metaObject()->inherits(this) ? o : nullptr; }
const QObject *QMetaObject::cast(const QObject *o) const { return o && o->metaObject()->inherits(this) ? o : nullptr; }
int QMetaObject::methodOffset() const { int n = 0; for (const QMetaObject *m = d.superdata; m; m = m->d.superdata) n += nMethods(m); return n; }
int QMetaObject::methodCount() const { return methodOffset() + nMethods(this); }
int QMetaObject::enumeratorOffset() const { int n = 0; for (const QMetaObject *m = d.superdata; m; m = m->d.superdata) n += m->d.data[8]; return n; }
int QMetaObject::enumeratorCount() const { return enumeratorOffset() + d.data[8]; }
int QMetaObject::propertyCount() const { int n = 0; for (const QMetaObject *m = this; m; m = m->d.superdata) n += m->d.data[6]; return n; }
QMetaMethod QMetaObject::method(int i) const
{
    QMetaMethod r; const QMetaObject *m = this; int o = methodOffset(); while (m && i < o) { m = m->d.superdata; if (m) o -= nMethods(m); }
    if (m && i >= o && i - o < nMethods(m)) { r.mobj = m; r.handle = hMethod(m, i - o); } return r;
}
static int findMethod(const QMetaObject *&m, const char *sig, int kind) // kind -1 any, 1 signal, 2 slot
{
    for (; m; m = m->d.superdata) for (int i = 0; i < nMethods(m); i++) { uint h = hMethod(m, i); int k = m->d.data[h + 4] >> 2 & 3; if (kind == 1 && k != 1) continue; if (kind == 2 && k != 2) continue; if (msig(m, h) == sig) return i; }
    return -1;
}
int QMetaObject::indexOfMethod(const char *s) const { const QMetaObject *m = this; QByteArray n = normalizedSignature(s); int i = findMethod(m, n.constData(), -1); return i < 0 ? i : i + m->methodOffset(); }
int QMetaObject::indexOfSignal(const char *s) const { const QMetaObject *m = this; QByteArray n = normalizedSignature(s); int i = findMethod(m, n.constData(), 1); return i < 0 ? i : i + m->methodOffset(); }
int QMetaObject::indexOfSlot(const char *s) const { const QMetaObject *m = this; QByteArray n = normalizedSignature(s); int i = findMethod(m, n.constData(), 2); return i < 0 ? i : i + m->methodOffset(); }
int QMetaObject::static_metacall(Call c, int i, void **a) const { if (d.static_metacall) { d.static_metacall(nullptr, c, i, a); return -1; } return 0; }
int QMetaObject::metacall(QObject *o, Call c, int i, void **a) { return o->qt_metacall(c, i, a); }
QByteArray QMetaObject::normalizedType(const char *t)
{
    QByteArray s(t); s = s.trimmed(); if (s.startsWith("const ") && !s.endsWith('*')) s = s.mid(6).trimmed(); if (s.endsWith('&')) s = s.left(s.size() - 1).trimmed();
    if (s.endsWith(" const")) s = s.left(s.size() - 6); QByteArray r; for (int i = 0; i < s.size(); i++) { char c = s.at(i); if (c == ' ') { char p = r.size() ? r.at(r.size() - 1) : 0; char n = i + 1 < s.size() ? s.at(i + 1) : 0; bool wp = (p >= 'a' && p <= 'z') || (p >= 'A' && p <= 'Z') || (p >= '0' && p <= '9') || p == '_', wn = (n >= 'a' && n <= 'z') || (n >= 'A' && n <= 'Z') || (n >= '0' && n <= '9') || n == '_'; if (!wp || !wn) continue; } r += c; }
    if (r == "unsigned int" || r == "unsigned") return "uint"; if (r == "unsigned long long") return "qulonglong"; if (r == "long long") return "qlonglong"; return r;
}
QByteArray QMetaObject::normalizedSignature(const char *s)
{
    QByteArray in(s), r; int p = in.indexOf('('); if (p < 0) return in.trimmed(); r = in.left(p).trimmed() + '('; int depth = 0, from = p + 1; bool first = true;
    for (int i = p + 1; i < in.size(); i++) { char c = in.at(i); if (c == '<' || c == '(') depth++; else if (c == '>') depth--; if ((c == ',' && !depth) || (c == ')' && !depth)) { QByteArray t = in.mid(from, i - from).trimmed(); if (!t.isEmpty() && t != "void") { if (!first) r += ','; r += normalizedType(t.constData()); first = false; } from = i + 1; if (c == ')') break; } else if (c == ')') depth--; }
    return r + ')';
}
QByteArray QMetaMethod::name() const { return mobj ? mstr(mobj, mobj->d.data[handle]) : QByteArray(); }
QByteArray QMetaMethod::methodSignature() const { return mobj ? msig(mobj, handle) : QByteArray(); }
const char *QMetaMethod::typeName() const { return mobj ? mtypeName(mobj, mobj->d.data[handle + 2]) : nullptr; }
int QMetaMethod::returnType() const { return mobj ? mtype(mobj, mobj->d.data[handle + 2]) : 0; }
int QMetaMethod::parameterCount() const { return mobj ? mobj->d.data[handle + 1] : 0; }
int QMetaMethod::parameterType(int i) const { return mobj && i >= 0 && i < parameterCount() ? mtype(mobj, mobj->d.data[handle + 2] + 1 + i) : 0; }
QList<QByteArray> QMetaMethod::parameterTypes() const { QList<QByteArray> l; for (int i = 0; i < parameterCount(); i++) l << QByteArray(mtypeName(mobj, mobj->d.data[handle + 2] + 1 + i)); return l; }
QList<QByteArray> QMetaMethod::parameterNames() const { QList<QByteArray> l; int n = parameterCount(); for (int i = 0; i < n; i++) l << mstr(mobj, mobj->d.data[mobj->d.data[handle + 2] + 1 + n + i]); return l; }
QMetaMethod::Access QMetaMethod::access() const { return mobj ? Access(mobj->d.data[handle + 4] & 3) : Private; }
QMetaMethod::MethodType QMetaMethod::methodType() const { return mobj ? MethodType(mobj->d.data[handle + 4] >> 2 & 3) : Method; }
int QMetaMethod::attributes() const { return mobj ? mobj->d.data[handle + 4] >> 4 : 0; }
int QMetaMethod::methodIndex() const { return mobj ? (handle - mobj->d.data[5]) / 5 + mobj->methodOffset() : -1; }
const char *QMetaMethod::tag() const { return mobj ? mcs(mobj, mobj->d.data[handle + 3]) : nullptr; }
QMetaEnum QMetaObject::enumerator(int i) const
{
    QMetaEnum r; const QMetaObject *m = this; int o = enumeratorOffset(); while (m && i < o) { m = m->d.superdata; if (m) o -= m->d.data[8]; }
    if (m && i >= o && i - o < (int)m->d.data[8]) { r.mobj = m; r.handle = m->d.data[9] + 5 * (i - o); } return r;
}
int QMetaObject::indexOfEnumerator(const char *n) const
{
    for (const QMetaObject *m = this; m; m = m->d.superdata) for (int k = 0; k < 2; k++) for (int i = m->d.data[8] - 1; i >= 0; i--) if (!strcmp(n, mcs(m, m->d.data[m->d.data[9] + 5 * i + k]))) return i + m->enumeratorOffset();
    return -1;
}
const char *QMetaEnum::name() const { return mobj ? mcs(mobj, mobj->d.data[handle]) : nullptr; }
const char *QMetaEnum::enumName() const { return mobj ? mcs(mobj, mobj->d.data[handle + 1]) : nullptr; }
const char *QMetaEnum::scope() const { return mobj ? mcs(mobj, mobj->d.data[1]) : nullptr; }
bool QMetaEnum::isFlag() const { return mobj && mobj->d.data[handle + 2] & 1; }
bool QMetaEnum::isScoped() const { return mobj && mobj->d.data[handle + 2] & 2; }
int QMetaEnum::keyCount() const { return mobj ? mobj->d.data[handle + 3] : 0; }
const char *QMetaEnum::key(int i) const { return mobj && i >= 0 && i < keyCount() ? mcs(mobj, mobj->d.data[mobj->d.data[handle + 4] + 2 * i]) : nullptr; }
int QMetaEnum::value(int i) const { return mobj && i >= 0 && i < keyCount() ? (int)mobj->d.data[mobj->d.data[handle + 4] + 2 * i + 1] : -1; }
const char *QMetaEnum::valueToKey(int v) const { for (int i = 0; i < keyCount(); i++) if (value(i) == v) return key(i); return nullptr; }
int QMetaEnum::keyToValue(const char *k, bool *ok) const
{
    if (ok) *ok = false; if (!k) return -1; const char *c = k; for (const char *p = k; *p; p++) if (p[0] == ':' && p[1] == ':') c = p + 2;
    for (int i = 0; i < keyCount(); i++) if (!strcmp(key(i), c)) { if (ok) *ok = true; return value(i); } return -1;
}

// ---------------------------------------------------------------- connections
static void derefC(Conn *c) { if (--c->refs == 0) { if (c->slot) c->slot->destroyIfLastRef(); delete c; } }
static void killC(Conn *c) { if (!c->sender) return; D(c->sender)->out.removeOne(c); D(c->recv)->in.removeOne(c); c->sender = nullptr; c->recv = nullptr; derefC(c); }
static Conn *addC(QObject *s, const QMetaObject *sm, int si, QObject *r, QtPrivate::QSlotObjectBase *slot, const QMetaObject *rm, int ri, int type)
{
    while (sm->d.data[hMethod(sm, si) + 4] & 0x20) si--; // original of a cloned (default argument) signal
    Conn *c = new Conn; c->sender = s; c->smo = sm; c->sidx = si; c->recv = r; c->slot = slot; c->rmo = rm; c->ridx = ri; c->type = type; c->refs = 2; D(s)->out.append(c); D(r)->in.append(c); return c;
}
QMetaObject::Connection::Connection() : d_ptr(nullptr) {}
QMetaObject::Connection::Connection(const Connection &o) : d_ptr(o.d_ptr) { if (d_ptr) static_cast<Conn *>(d_ptr)->refs++; }
QMetaObject::Connection &QMetaObject::Connection::operator=(const Connection &o) { if (o.d_ptr) static_cast<Conn *>(o.d_ptr)->refs++; if (d_ptr) derefC(static_cast<Conn *>(d_ptr)); d_ptr = o.d_ptr; return *this; }
QMetaObject::Connection::~Connection() { if (d_ptr) derefC(static_cast<Conn *>(d_ptr)); }
bool QMetaObject::Connection::isConnected_helper() const { return d_ptr && static_cast<Conn *>(d_ptr)->sender; }
static QMetaObject::Connection handle(Conn *c) { QMetaObject::Connection r; r.d_ptr = c; return r; }
static int findSignal(const QMetaObject *&m, void **sig) { for (; m; m = m->d.superdata) { int i = -1; void *a[] = { &i, sig }; m->static_metacall(QMetaObject::IndexOfMethod, 0, a); if (i >= 0 && i < nSignals(m)) return i; } return -1; }
QMetaObject::Connection QObject::connectImpl(const QObject *s, void **signal, const QObject *r, void **slot, QtPrivate::QSlotObjectBase *so, Qt::ConnectionType type, const int *, const QMetaObject *smo)
{
    if (!s || !signal || !r || !so || !smo) { if (so) so->destroyIfLastRef(); return QMetaObject::Connection(); }
    int i = findSignal(smo, signal); if (i < 0) { so->destroyIfLastRef(); return QMetaObject::Connection(); }
    if (type & Qt::UniqueConnection && slot) { ObjD *d = D(s); for (int k = 0; k < d->out.size(); k++) { Conn *c = d->out.at(k); if (c->recv == r && c->smo == smo && c->sidx == i && c->slot && c->slot->compare(slot)) { so->destroyIfLastRef(); return QMetaObject::Connection(); } } }
    return handle(addC(const_cast<QObject *>(s), smo, i, const_cast<QObject *>(r), so, nullptr, 0, type & 0x7f));
}
static QByteArray stripCode(const char *s) { return QMetaObject::normalizedSignature(s + 1); }
QMetaObject::Connection QObject::connect(const QObject *s, const char *signal, const QObject *r, const char *member, Qt::ConnectionType type)
{
    if (!s || !r || !signal || !member) return QMetaObject::Connection();
    const QMetaObject *sm = s->metaObject(), *rm = r->metaObject(); int i = findMethod(sm, stripCode(signal).constData(), 1); int j = findMethod(rm, stripCode(member).constData(), *member == '2' ? 1 : *member == '1' ? 2 : -1);
    if (i < 0 || j < 0) return QMetaObject::Connection();
    uint hs = hMethod(sm, i), hr = hMethod(rm, j); int n = rm->d.data[hr + 1]; if (n > (int)sm->d.data[hs + 1]) return QMetaObject::Connection();
    for (int k = 0; k < n; k++) if (strcmp(mtypeName(sm, sm->d.data[hs + 2] + 1 + k), mtypeName(rm, rm->d.data[hr + 2] + 1 + k))) return QMetaObject::Connection();
    if (type & Qt::UniqueConnection) { ObjD *d = D(s); for (int k = 0; k < d->out.size(); k++) { Conn *c = d->out.at(k); if (c->recv == r && c->smo == sm && c->sidx == i && c->rmo == rm && c->ridx == j) return QMetaObject::Connection(); } }
    return handle(addC(const_cast<QObject *>(s), sm, i, const_cast<QObject *>(r), nullptr, rm, j, type & 0x7f));
}
bool QObject::disconnectImpl(const QObject *s, void **signal, const QObject *r, void **slot, const QMetaObject *smo)
{
    if (!s || (!r && slot)) return false; int i = -1; if (signal) { i = findSignal(smo, signal); if (i < 0) return false; }
    bool any = false; QList<Conn *> l = D(s)->out;
    for (int k = 0; k < l.size(); k++) { Conn *c = l.at(k); if (signal && (c->smo != smo || c->sidx != i)) continue; if (r && c->recv != r) continue; if (slot) { if (c->slot) { if (!c->slot->compare(slot)) continue; } else continue; } killC(c); any = true; } return any;
}
bool QObject::disconnect(const QObject *s, const char *signal, const QObject *r, const char *member)
{
    if (!s || (!r && member)) return false; const QMetaObject *sm = s->metaObject(), *rm = nullptr; int i = -1, j = -1;
    if (signal) { i = findMethod(sm, stripCode(signal).constData(), 1); if (i < 0) return false; while (sm->d.data[hMethod(sm, i) + 4] & 0x20) i--; } if (member) { rm = r->metaObject(); j = findMethod(rm, stripCode(member).constData(), -1); if (j < 0) return false; }
    bool any = false; QList<Conn *> l = D(s)->out;
    for (int k = 0; k < l.size(); k++) { Conn *c = l.at(k); if (signal && (c->smo != sm || c->sidx != i)) continue; if (r && c->recv != r) continue; if (member && (c->slot || c->rmo != rm || c->ridx != j)) continue; killC(c); any = true; } return any;
}
bool QObject::disconnect(const QMetaObject::Connection &h) { Conn *c = static_cast<Conn *>(h.d_ptr); if (!c || !c->sender) return false; killC(c); return true; }

// ---------------------------------------------------------------- event queue
struct Ev { QObject *recv; QEvent *ev; Conn *c; bool del; QtPrivate::QSlotObjectBase *slot; const QMetaObject *mo; int idx; int n; int types[11]; void *argv[11]; QObject *sender; Ev *next; };
static Ev *evHead, *evTail;
static void freeEv(Ev *e) { for (int i = 0; i < e->n; i++) if (e->types[i] && e->argv[i]) QMetaType::destroy(e->types[i], e->argv[i]); if (e->slot) e->slot->destroyIfLastRef(); if (e->c) derefC(e->c); if (e->ev) delete e->ev; delete e; }
static Ev *newEv(QObject *r) { Ev *e = new Ev; memset(e, 0, sizeof *e); e->recv = r; if (evTail) evTail->next = e; else evHead = e; evTail = e; D(r)->postedEvents++; return e; }
static void copyArgs(Ev *e, const QMetaObject *m, uint h, void **a)
{
    int n = m->d.data[h + 1]; e->n = n + 1; for (int i = 0; i < n; i++) { int t = mtype(m, m->d.data[h + 2] + 1 + i); if (!t) MODEL_TODO("queued argument of an unregistered type"); e->types[i + 1] = t; e->argv[i + 1] = QMetaType::create(t, a[i + 1]); }
}
static void dropEvents(QObject *o) { Ev **p = &evHead; evTail = nullptr; while (*p) { Ev *e = *p; if (e->recv == o) { *p = e->next; freeEv(e); } else { evTail = e; p = &e->next; } } }
static void callWith(QObject *r, QObject *sender, int sig, Conn *c, QtPrivate::QSlotObjectBase *slot, const QMetaObject *mo, int idx, void **a)
{
    ObjD::Cur cur = { sender, sig, D(r)->curSender, false }; D(r)->curSender = &cur;
    if (slot) { slot->ref(); slot->call(r, a); slot->destroyIfLastRef(); } else mo->d.static_metacall(r, QMetaObject::InvokeMetaMethod, idx, a);
    if (!cur.dead) D(r)->curSender = cur.prev;
}
void QMetaObject::activate(QObject *s, const QMetaObject *m, int idx, void **a)
{
    if (D(s)->blockSig) return; QList<Conn *> &l = D(s)->out; int n = 0, N = l.size(); if (!N) return;
    Conn **snap = (Conn **)alloca(N * sizeof(Conn *)); for (int i = 0; i < N; i++) { Conn *c = l.at(i); if (c->smo == m && c->sidx == idx) { c->refs++; snap[n++] = c; } }
    if (!n) return; void *empty[] = { nullptr }; if (!a) a = empty;
    for (int i = 0; i < n; i++) {
        Conn *c = snap[i]; if (!c->sender) continue;
        if (c->type == Qt::QueuedConnection) { Ev *e = newEv(c->recv); e->c = c; c->refs++; e->sender = s; copyArgs(e, m, hMethod(m, idx), a); continue; }
        callWith(c->recv, s, idx, c, c->slot, c->rmo, c->ridx, a);
    }
    for (int i = 0; i < n; i++) derefC(snap[i]);
}
void QMetaObject::activate(QObject *s, int i, void **a) { const QMetaObject *m = s->metaObject(); MODEL_TODO("activate by absolute index"); }
static void deliver(Ev *e)
{
    QObject *r = e->recv; D(r)->postedEvents--;
    if (e->del) { freeEv(e); delete r; return; }
    if (e->ev) { QCoreApplication::sendEvent(r, e->ev); freeEv(e); return; }
    if (e->c) { if (e->c->sender) callWith(r, e->sender, e->c->sidx, e->c, e->c->slot, e->c->rmo, e->c->ridx, e->argv); }
    else callWith(r, e->sender, -1, nullptr, e->slot, e->mo, e->idx, e->argv);
    freeEv(e);
}
// ---------------------------------------------------------------- QObject
QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { return nullptr; }
QObject::QObject(QObject *p) : d_ptr(new ObjD) { d_ptr->q_ptr = this; if (p) setParent(p); }
QObject::QObject(QObjectPrivate &dd, QObject *p) : d_ptr(reinterpret_cast<QObjectData *>(&dd)) { d_ptr->q_ptr = this; if (p) setParent(p); }
QObject::~QObject()
{
    ObjD *d = D(this); d->wasDeleted = true; d->blockSig = 0;
    if (d->ref) { d->ref->strongref.storeRelaxed(0); if (!d->ref->weakref.deref()) ::operator delete(d->ref); d->ref = nullptr; }
    if (!d->out.isEmpty()) { emit destroyed(this); }
    while (!d->out.isEmpty()) killC(d->out.first());
    while (!d->in.isEmpty()) killC(d->in.first());
    for (ObjD::Cur *c = d->curSender; c; c = c->prev) c->dead = true;
    if (!d->children.isEmpty()) { d->isDeletingChildren = true; for (int i = 0; i < d->children.size(); i++) { QObject *c = d->children.at(i); d->children[i] = nullptr; delete c; } d->children.clear(); d->isDeletingChildren = false; }
    if (d->parent) setParent(nullptr);
    if (evHead) dropEvents(this);
}
void QObject::setParent(QObject *p)
{
    ObjD *d = D(this); if (p == d->parent) return;
    if (d->parent) { ObjD *o = D(d->parent); if (o->isDeletingChildren && d->wasDeleted) { int i = o->children.indexOf(this); if (i >= 0) o->children[i] = nullptr; } else { int i = o->children.indexOf(this); if (i >= 0) { if (o->isDeletingChildren) o->children[i] = nullptr; else o->children.removeAt(i); } } }
    d->parent = p; if (p) D(p)->children.append(this);
}
QString QObject::objectName() const { return D(this)->name; }
void QObject::setObjectName(const QString &n) { D(this)->name = n; }
bool QObject::blockSignals(bool b) noexcept { bool p = D(this)->blockSig; D(this)->blockSig = b; return p; }
QObject *QObject::sender() const { ObjD::Cur *c = D(this)->curSender; if (!c || !c->sender) return nullptr; ObjD *d = D(this); for (int i = 0; i < d->in.size(); i++) if (d->in.at(i)->sender == c->sender) return c->sender; return nullptr; }
bool QObject::event(QEvent *e) { switch (e->type()) { case QEvent::Timer: timerEvent((QTimerEvent *)e); return true; case QEvent::ChildAdded: case QEvent::ChildRemoved: case QEvent::ChildPolished: childEvent((QChildEvent *)e); return true; case QEvent::DeferredDelete: delete this; return true; default: if (e->type() >= QEvent::User) { customEvent(e); return true; } } return false; }
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {}
void QObject::childEvent(QChildEvent *) {}
void QObject::customEvent(QEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {}
void QObject::disconnectNotify(const QMetaMethod &) {}
bool QObject::setProperty(const char *n, const QVariant &v) { D(this)->props.insert(QString::fromLatin1(n), v); return false; }
QVariant QObject::property(const char *n) const { return D(this)->props.value(QString::fromLatin1(n)); }
void QObject::deleteLater() { ObjD *d = D(this); if (d->deleteLaterCalled) return; d->deleteLaterCalled = 1; newEv(this)->del = true; }
void *qt_dummy_metacast;
static void findKids(const QObject *p, const QString &n, const QMetaObject &m, QList<void *> *l, Qt::FindChildOptions o) { const QObjectList &k = p->children(); for (int i = 0; i < k.size(); i++) { QObject *c = k.at(i); if (c && m.cast(c) && (n.isNull() || c->objectName() == n)) l->append(c); if (c && o & Qt::FindChildrenRecursively) findKids(c, n, m, l, o); } }
void qt_qFindChildren_helper(const QObject *p, const QString &n, const QMetaObject &m, QList<void *> *l, Qt::FindChildOptions o) { if (p && l) findKids(p, n, m, l, o); }
QObject *qt_qFindChild_helper(const QObject *p, const QString &n, const QMetaObject &m, Qt::FindChildOptions o) { QList<void *> l; if (p) findKids(p, n, m, &l, o); return l.isEmpty() ? nullptr : (QObject *)l.first(); }
QtSharedPointer::ExternalRefCountData *QtSharedPointer::ExternalRefCountData::getAndRef(const QObject *o)
{
    ObjD *d = D(o); if (!d->ref) { if (d->wasDeleted) MODEL_TODO("QPointer to an object being destroyed"); ExternalRefCountData *x = new (::operator new(sizeof(ExternalRefCountData))) ExternalRefCountData(Qt::Uninitialized); x->strongref.storeRelaxed(-1); x->weakref.storeRelaxed(2); d->ref = x; return x; }
    d->ref->weakref.ref(); return d->ref;
}
void QtSharedPointer::ExternalRefCountData::setQObjectShared(const QObject *, bool) {}
void QtSharedPointer::ExternalRefCountData::checkQObjectShared(const QObject *) {}

// ---------------------------------------------------------------- invokeMethod
bool QMetaMethod::invoke(QObject *o, Qt::ConnectionType ct, QGenericReturnArgument ret, QGenericArgument v0, QGenericArgument v1, QGenericArgument v2, QGenericArgument v3, QGenericArgument v4, QGenericArgument v5, QGenericArgument v6, QGenericArgument v7, QGenericArgument v8, QGenericArgument v9) const
{
    if (!o || !mobj) return false;
    if (ret.data()) { if (qstrcmp(ret.name(), typeName())) { QByteArray n = QMetaObject::normalizedType(ret.name()); if (n != typeName()) { int t = returnType(); if (!t || t != QMetaType::type(n)) return false; } } }
    void *a[] = { ret.data(), v0.data(), v1.data(), v2.data(), v3.data(), v4.data(), v5.data(), v6.data(), v7.data(), v8.data(), v9.data() };
    const char *names[] = { v0.name(), v1.name(), v2.name(), v3.name(), v4.name(), v5.name(), v6.name(), v7.name(), v8.name(), v9.name() };
    int n = 0; while (n < 10 && names[n] && *names[n]) n++; if (n < parameterCount()) return false;
    int idx = (handle - mobj->d.data[5]) / 5;
    if (ct == Qt::QueuedConnection) { if (ret.data()) return false; Ev *e = newEv(o); e->mo = mobj; e->idx = idx; copyArgs(e, mobj, handle, a); return true; }
    callWith(o, nullptr, -1, nullptr, nullptr, mobj, idx, a); return true;
}
bool QMetaObject::invokeMethod(QObject *o, const char *member, Qt::ConnectionType ct, QGenericReturnArgument ret, QGenericArgument v0, QGenericArgument v1, QGenericArgument v2, QGenericArgument v3, QGenericArgument v4, QGenericArgument v5, QGenericArgument v6, QGenericArgument v7, QGenericArgument v8, QGenericArgument v9)
{
    if (!o) return false; QByteArray s(member); s += '(';
    const char *names[] = { v0.name(), v1.name(), v2.name(), v3.name(), v4.name(), v5.name(), v6.name(), v7.name(), v8.name(), v9.name() };
    for (int i = 0; i < 10 && names[i] && *names[i]; i++) { if (i) s += ','; s += names[i]; } s += ')';
    const QMetaObject *m = o->metaObject(); s = normalizedSignature(s.constData()); int i = findMethod(m, s.constData(), -1); if (i < 0) return false;
    QMetaMethod mm; mm.mobj = m; mm.handle = hMethod(m, i); return mm.invoke(o, ct, ret, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9);
}
bool QMetaObject::invokeMethodImpl(QObject *o, QtPrivate::QSlotObjectBase *slot, Qt::ConnectionType ct, void *ret)
{
    if (!o) { slot->destroyIfLastRef(); return false; }
    if (ct == Qt::QueuedConnection) { Ev *e = newEv(o); e->slot = slot; e->n = 1; return true; }
    void *a[] = { ret }; slot->call(o, a); slot->destroyIfLastRef(); return true;
}
// ---------------------------------------------------------------- QEvent, QCoreApplication
QEvent::QEvent(Type t) : d(nullptr), t(t), posted(false), spont(false), m_accept(true) {}
QEvent::QEvent(const QEvent &o) : d(nullptr), t(o.t), posted(o.posted), spont(o.spont), m_accept(o.m_accept) {}
QEvent::~QEvent() {}
int QEvent::registerEventType(int) noexcept { static int n = 65535; return n--; }
QTimerEvent::QTimerEvent(int i) : QEvent(Timer), id(i) {} QTimerEvent::~QTimerEvent() {}
QCoreApplication *QCoreApplication::self = nullptr;
static QString *appName;
QString QCoreApplication::applicationName() { return appName ? *appName : QString(); }
void QCoreApplication::setApplicationName(const QString &n) { if (!appName) appName = new QString; *appName = n; }
bool QCoreApplication::sendEvent(QObject *r, QEvent *e) { return r->event(e); }
void QCoreApplication::postEvent(QObject *r, QEvent *e, int) { if (!r) { delete e; return; } newEv(r)->ev = e; }
void QCoreApplication::sendPostedEvents(QObject *r, int) { if (r) MODEL_TODO("sendPostedEvents for one receiver"); while (evHead) { Ev *e = evHead; evHead = e->next; if (!evHead) evTail = nullptr; deliver(e); } }
void QCoreApplication::processEvents(QEventLoop::ProcessEventsFlags) { sendPostedEvents(nullptr, 0); }
void QCoreApplication::removePostedEvents(QObject *r, int) { dropEvents(r); }
QThread *QThread::currentThread() { return nullptr; }
QThread *QObject::thread() const { return nullptr; }
QT_END_NAMESPACE
