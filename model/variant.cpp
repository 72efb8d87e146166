// QtCore model: QMetaType, QVariant, QUuid, QUrl, QDateTime (UTC only).
#include "m.h"
#include <string.h>
#include <stdlib.h>
#include <new>
#include "canconvert.inc"
QT_BEGIN_NAMESPACE
bool m_parseDouble(const QByteArray &a, double &d);
// ---------------------------------------------------------------- meta types
struct TI { QByteArray name; QMetaType::Destructor del; QMetaType::Constructor cons; int size; int flags; const QMetaObject *mo; int alias; };
static QList<TI *> *types;
static TI *user(int id) { return types && id >= 1024 && id - 1024 < types->size() ? types->at(id - 1024) : nullptr; }
#define BUILTIN(F) F(1, bool, "bool") F(2, int, "int") F(3, uint, "uint") F(4, qlonglong, "qlonglong") F(5, qulonglong, "qulonglong") F(6, double, "double") F(7, QChar, "QChar") \
    F(8, QVariantMap, "QVariantMap") F(9, QVariantList, "QVariantList") F(10, QString, "QString") F(11, QStringList, "QStringList") F(12, QByteArray, "QByteArray") F(16, QDateTime, "QDateTime") F(17, QUrl, "QUrl") F(28, QVariantHash, "QVariantHash") F(30, QUuid, "QUuid") \
    F(31, void *, "void*") F(32, long, "long") F(33, short, "short") F(34, char, "char") F(35, ulong, "ulong") F(36, ushort, "ushort") F(37, uchar, "uchar") F(38, float, "float") F(39, QObject *, "QObject*") F(40, signed char, "signed char") F(41, QVariant, "QVariant") F(51, std::nullptr_t, "std::nullptr_t")
// size <= 8 and trivially copyable: kept in data
static bool smallType(int t) { switch (t) { case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 31: case 32: case 33: case 34: case 35: case 36: case 37: case 38: case 39: case 40: case 51: return true; } return false; }
static int bsize(int t) { switch (t) {
#define F(id, T, n) case id: return sizeof(T);
    BUILTIN(F)
#undef F
} return 0; }
static const char *bname(int t) { switch (t) {
#define F(id, T, n) case id: return n;
    BUILTIN(F)
#undef F
    case 43: return "void"; case 14: return "QDate"; case 15: return "QTime"; case 18: return "QLocale"; case 45: return "QJsonValue"; case 46: return "QJsonObject"; case 47: return "QJsonArray"; case 48: return "QJsonDocument"; } return nullptr; }
template <class T> static void *cons(void *w, const void *c) { return c ? new (w) T(*static_cast<const T *>(c)) : new (w) T(); }
template <class T> static void dest(void *w) { static_cast<T *>(w)->~T(); }
int QMetaType::registerNormalizedType(const QT_PREPEND_NAMESPACE(QByteArray) &n, Destructor d, Constructor c, int size, TypeFlags f, const QMetaObject *mo)
{
    if (!types) types = new QList<TI *>;
    for (int i = 0; i < types->size(); i++) if (types->at(i)->name == n) return 1024 + i;
    TI *t = new TI; t->name = n; t->del = d; t->cons = c; t->size = size; t->flags = f; t->mo = mo; t->alias = -1; types->append(t); return 1023 + types->size();
}
int QMetaType::registerNormalizedTypedef(const QT_PREPEND_NAMESPACE(QByteArray) &n, int id)
{
    int t = type(n); if (t) return t; registerNormalizedType(n, (Destructor)nullptr, (Constructor)nullptr, 0, TypeFlags(), nullptr); types->last()->alias = id; return id;
}
int QMetaType::type(const QT_PREPEND_NAMESPACE(QByteArray) &n) { return type(n.constData()); }
int QMetaType::type(const char *n)
{
    if (!n || !*n) return 0;
    for (int t = 1; t < 52; t++) { const char *b = bname(t); if (b && !strcmp(b, n)) return t; }
    if (!strcmp(n, "QMap<QString,QVariant>")) return 8; if (!strcmp(n, "QList<QVariant>")) return 9; if (!strcmp(n, "QList<QString>")) return 11; if (!strcmp(n, "quint16")) return 36; if (!strcmp(n, "quint32")) return 3; if (!strcmp(n, "quint8")) return 37; if (!strcmp(n, "qint64")) return 4; if (!strcmp(n, "quint64")) return 5;
    if (types) for (int i = 0; i < types->size(); i++) if (types->at(i)->name == n) return types->at(i)->alias >= 0 ? types->at(i)->alias : 1024 + i;
    return 0;
}
const char *QMetaType::typeName(int t) { if (TI *u = user(t)) return u->name.constData(); return bname(t); }
int QMetaType::sizeOf(int t) { if (TI *u = user(t)) return u->size; return bsize(t); }
QMetaType::TypeFlags QMetaType::typeFlags(int t) { if (TI *u = user(t)) return TypeFlags(u->flags); return TypeFlags(); }
const QMetaObject *QMetaType::metaObjectForType(int t) { if (TI *u = user(t)) return u->mo; return nullptr; }
bool QMetaType::isRegistered(int t) { return user(t) || bname(t); }
static void *mtConstruct(int t, void *w, const void *c)
{
    switch (t) {
#define F(id, T, n) case id: return cons<T>(w, c);
    BUILTIN(F)
#undef F
    }
    TI *u = user(t); if (!u) MODEL_TODO("QMetaType::construct of an unknown type"); return u->cons(w, c);
}
static void mtDestruct(int t, void *w)
{
    switch (t) {
#define F(id, T, n) case id: return dest<T>(w);
    BUILTIN(F)
#undef F
    }
    TI *u = user(t); if (u && u->del) u->del(w);
}
void *QMetaType::construct(int t, void *w, const void *c) { return mtConstruct(t, w, c); }
void QMetaType::destruct(int t, void *w) { mtDestruct(t, w); }
void *QMetaType::create(int t, const void *c) { void *w = malloc(qMax(1, sizeOf(t))); return construct(t, w, c); }
void QMetaType::destroy(int t, void *p) { destruct(t, p); free(p); }
bool QMetaType::hasRegisteredConverterFunction(int, int) { return false; }
bool QMetaType::registerConverterFunction(const QtPrivate::AbstractConverterFunction *, int, int) { return true; }
void QMetaType::unregisterConverterFunction(int, int) {}
bool QMetaType::registerComparatorFunction(const QtPrivate::AbstractComparatorFunction *, int) { return true; }
bool QMetaType::hasRegisteredComparators(int) { return false; }

// ---------------------------------------------------------------- QVariant
static void *vptr(const QVariant::Private &d) { return d.is_shared ? d.data.shared->ptr : (void *)&d.data; }
void QVariant::create(int t, const void *c)
{
    d.type = t; d.is_null = !c && t != QMetaType::QVariant; d.is_shared = false; d.data.ull = 0;
    if (!t) { d.is_null = true; return; }
    if (t == 51) { d.is_null = true; return; }
    TI *u = user(t);
    if (smallType(t) || (u && u->size <= 8 && (u->flags & (QMetaType::IsEnumeration | QMetaType::PointerToQObject)))) { if (c) memcpy(&d.data, c, u ? u->size : bsize(t)); return; }
    if (!u && !bsize(t)) MODEL_TODO("QVariant of an unsupported type");
    PrivateShared *s = new PrivateShared(QMetaType::create(t, c)); d.data.shared = s; d.is_shared = true;
}
QVariant::~QVariant() { if (d.is_shared && !d.data.shared->ref.deref()) { QMetaType::destroy(d.type, d.data.shared->ptr); delete d.data.shared; } }
QVariant::QVariant(const QVariant &o) : d(o.d) { if (d.is_shared) d.data.shared->ref.ref(); }
QVariant &QVariant::operator=(const QVariant &o) { if (this != &o) { QVariant t(o); qSwap(d, t.d); } return *this; }
QVariant::QVariant(Type t) { create(t, nullptr); }
QVariant::QVariant(int t, const void *c) { create(t, c); d.is_null = false; if (!t || t == 51) d.is_null = true; }
QVariant::QVariant(int t, const void *c, uint fl) { if (fl && t >= 1024) { d.type = t; d.is_shared = false; d.is_null = false; d.data.ptr = *static_cast<void *const *>(c); return; } create(t, c); d.is_null = false; if (!t || t == 51) d.is_null = true; }
QVariant::QVariant(int v) { create(2, &v); }
QVariant::QVariant(uint v) { create(3, &v); }
QVariant::QVariant(qlonglong v) { create(4, &v); }
QVariant::QVariant(qulonglong v) { create(5, &v); }
QVariant::QVariant(bool v) { create(1, &v); }
QVariant::QVariant(double v) { create(6, &v); }
QVariant::QVariant(float v) { create(38, &v); }
QVariant::QVariant(const char *v) { QString s = QString::fromUtf8(v); create(10, &s); }
QVariant::QVariant(const QByteArray &v) { create(12, &v); }
QVariant::QVariant(const QString &v) { create(10, &v); }
QVariant::QVariant(QLatin1String v) { QString s(v); create(10, &s); }
QVariant::QVariant(const QStringList &v) { create(11, &v); }
QVariant::QVariant(QChar v) { create(7, &v); }
QVariant::QVariant(const QDateTime &v) { create(16, &v); }
QVariant::QVariant(const QVariantList &v) { create(9, &v); }
QVariant::QVariant(const QVariantMap &v) { create(8, &v); }
QVariant::QVariant(const QVariantHash &v) { create(28, &v); }
QVariant::QVariant(const QUuid &v) { create(30, &v); }
QVariant::QVariant(const QUrl &v) { create(17, &v); }
QVariant::Type QVariant::type() const { return d.type >= 1024 ? UserType : Type(d.type); }
int QVariant::userType() const { return d.type; }
const char *QVariant::typeName() const { return QMetaType::typeName(d.type); }
const char *QVariant::typeToName(int t) { return t == 0x3fffffff || t < 0 ? "QVariant" : QMetaType::typeName(t); }
QVariant::Type QVariant::nameToType(const char *n) { int t = QMetaType::type(n); return t >= 1024 ? UserType : Type(t); }
const void *QVariant::constData() const { return vptr(d); }
void QVariant::detach() { if (d.is_shared && d.data.shared->ref.loadRelaxed() > 1) { QVariant t; t.create(d.type, d.data.shared->ptr); t.d.is_null = d.is_null; qSwap(d, t.d); } }
void *QVariant::data() { detach(); return vptr(d); }
void QVariant::clear() { *this = QVariant(); }
bool QVariant::isNull() const { if (d.is_null) return true; if (d.type == 10) return static_cast<const QString *>(constData())->isNull(); if (d.type == 12) return static_cast<const QByteArray *>(constData())->isNull(); if (d.type == 30) return static_cast<const QUuid *>(constData())->isNull(); return false; }
static bool isIntT(int t) { return t == 2 || t == 4 || t == 32 || t == 33 || t == 40 || t == 34; }
static bool isUIntT(int t) { return t == 3 || t == 5 || t == 35 || t == 36 || t == 37; }
static qlonglong sval(int t, const void *p) { switch (t) { case 2: return *(int *)p; case 4: return *(qlonglong *)p; case 32: return *(long *)p; case 33: return *(short *)p; case 34: return *(char *)p; default: return *(signed char *)p; } }
static qulonglong uval(int t, const void *p) { switch (t) { case 3: return *(uint *)p; case 5: return *(qulonglong *)p; case 35: return *(ulong *)p; case 36: return *(ushort *)p; default: return *(uchar *)p; } }
static qint64 round64(double x) { return x >= 0 ? (qint64)(x + 0.5) : (qint64)(x - (double)(qint64)(x - 1) + 0.5) + (qint64)(x - 1); }
static bool enumT(int t) { TI *u = user(t); return u && (u->flags & QMetaType::IsEnumeration); }
static bool toS(const QVariant &v, qlonglong &r)
{
    int t = v.userType(); const void *p = v.constData(); bool ok = true;
    if (isIntT(t)) r = sval(t, p); else if (isUIntT(t)) r = (qlonglong)uval(t, p); else if (t == 1) r = *(bool *)p; else if (t == 6) r = round64(*(double *)p); else if (t == 38) r = round64(*(float *)p); else if (t == 7) r = static_cast<const QChar *>(p)->unicode();
    else if (t == 10) { r = static_cast<const QString *>(p)->toLongLong(&ok); if (!ok) r = 0; } else if (t == 12) { r = static_cast<const QByteArray *>(p)->toLongLong(&ok); if (!ok) r = 0; }
    else if (enumT(t)) r = QMetaType::sizeOf(t) == 4 ? *(int *)p : *(qlonglong *)p; else if (t == 51) { r = 0; ok = false; } else { r = 0; return false; }
    return ok;
}
static bool toU(const QVariant &v, qulonglong &r)
{
    int t = v.userType(); const void *p = v.constData(); bool ok = true;
    if (t == 10) { r = static_cast<const QString *>(p)->toULongLong(&ok); if (!ok) r = 0; return ok; }
    if (t == 12) { r = static_cast<const QByteArray *>(p)->toULongLong(&ok); if (!ok) r = 0; return ok; }
    if (isUIntT(t)) { r = uval(t, p); return true; }
    qlonglong s; ok = toS(v, s); r = (qulonglong)s; return ok;
}
static bool conv(const QVariant &v, int t, void *out)
{
    int s = v.userType(); const void *p = v.constData();
    switch (t) {
    case 1: {
        bool &b = *(bool *)out;
        if (s == 10) { QString x = static_cast<const QString *>(p)->toLower(); b = !(x == QLatin1String("0") || x == QLatin1String("false") || x.isEmpty()); return true; }
        if (s == 12) { QByteArray x = static_cast<const QByteArray *>(p)->toLower(); b = !(x == "0" || x == "false" || x.isEmpty()); return true; }
        if (s == 1) { b = *(bool *)p; return true; } if (s == 6) { b = *(double *)p != 0; return true; } if (s == 38) { b = *(float *)p != 0; return true; }
        if (isIntT(s)) { b = sval(s, p) != 0; return true; } if (isUIntT(s)) { b = uval(s, p) != 0; return true; } if (s == 7) { b = !static_cast<const QChar *>(p)->isNull(); return true; } b = false; return false; }
    case 2: { qlonglong x; bool ok = toS(v, x); *(int *)out = (int)x; return ok; }
    case 4: case 32: { qlonglong x; bool ok = toS(v, x); *(qlonglong *)out = x; return ok; }
    case 33: { qlonglong x; bool ok = toS(v, x); *(short *)out = (short)x; return ok; }
    case 34: case 40: { qlonglong x; bool ok = toS(v, x); *(char *)out = (char)x; return ok; }
    case 3: { qulonglong x; bool ok = toU(v, x); *(uint *)out = (uint)x; return ok; }
    case 5: case 35: { qulonglong x; bool ok = toU(v, x); *(qulonglong *)out = x; return ok; }
    case 36: { qulonglong x; bool ok = toU(v, x); *(ushort *)out = (ushort)x; return ok; }
    case 37: { qulonglong x; bool ok = toU(v, x); *(uchar *)out = (uchar)x; return ok; }
    case 6: { double &x = *(double *)out; bool ok = true; if (s == 10) x = static_cast<const QString *>(p)->toDouble(&ok); else if (s == 12) x = static_cast<const QByteArray *>(p)->toDouble(&ok); else if (s == 1) x = *(bool *)p; else if (s == 6) x = *(double *)p; else if (s == 38) x = *(float *)p; else if (isIntT(s)) x = (double)sval(s, p); else if (isUIntT(s)) x = (double)uval(s, p); else { x = 0; return false; } return ok; }
    case 38: { double x; bool ok = conv(v, 6, &x); *(float *)out = (float)x; return ok; }
    case 10: {
        QString &x = *(QString *)out;
        if (s == 10) x = *static_cast<const QString *>(p); else if (s == 1) x = QLatin1String(*(bool *)p ? "true" : "false"); else if (isIntT(s) && s != 34) x = QString::number(sval(s, p)); else if (isUIntT(s)) x = QString::number(uval(s, p));
        else if (s == 6) x = QString::number(*(double *)p, 'g', QLocale::FloatingPointShortest); else if (s == 38) x = QString::number(*(float *)p, 'g', QLocale::FloatingPointShortest); else if (s == 12) x = QString::fromUtf8(*static_cast<const QByteArray *>(p)); else if (s == 7) x = QString(*static_cast<const QChar *>(p)); else if (s == 30) x = static_cast<const QUuid *>(p)->toString(); else if (s == 17) x = static_cast<const QUrl *>(p)->toString(QUrl::FullyEncoded);
        else if (s == 11) { const QStringList &l = *static_cast<const QStringList *>(p); if (l.size() != 1) return false; x = l.first(); } else if (s == 16) x = static_cast<const QDateTime *>(p)->toString(Qt::ISODateWithMs);
        else if (s == 51) { x = QString(); return true; } else return false; return true; }
    case 12: { QByteArray &x = *(QByteArray *)out; if (s == 12) x = *static_cast<const QByteArray *>(p); else if (s == 30) x = static_cast<const QUuid *>(p)->toByteArray(); else { QString t2; if (!conv(v, 10, &t2)) return false; x = t2.toUtf8(); } return true; }
    case 9: { QVariantList &x = *(QVariantList *)out; if (s == 9) x = *static_cast<const QVariantList *>(p); else if (s == 11) { foreach (const QString &e, *static_cast<const QStringList *>(p)) x.append(QVariant(e)); } else return false; return true; }
    case 11: { QStringList &x = *(QStringList *)out; if (s == 11) x = *static_cast<const QStringList *>(p); else if (s == 10) x = QStringList(*static_cast<const QString *>(p)); else if (s == 9) { const QVariantList &l = *static_cast<const QVariantList *>(p); for (int i = 0; i < l.size(); i++) x.append(l.at(i).toString()); } else return false; return true; }
    case 8: { QVariantMap &x = *(QVariantMap *)out; if (s == 8) x = *static_cast<const QVariantMap *>(p); else if (s == 28) { const QVariantHash &h = *static_cast<const QVariantHash *>(p); for (QVariantHash::const_iterator i = h.begin(); i != h.end(); ++i) x.insert(i.key(), i.value()); } else return false; return true; }
    case 28: { QVariantHash &x = *(QVariantHash *)out; if (s == 28) x = *static_cast<const QVariantHash *>(p); else if (s == 8) { const QVariantMap &h = *static_cast<const QVariantMap *>(p); for (QVariantMap::const_iterator i = h.begin(); i != h.end(); ++i) x.insert(i.key(), i.value()); } else return false; return true; }
    case 30: { QUuid &x = *(QUuid *)out; if (s == 30) x = *static_cast<const QUuid *>(p); else if (s == 10) x = QUuid(*static_cast<const QString *>(p)); else if (s == 12) x = QUuid(*static_cast<const QByteArray *>(p)); else return false; return true; }
    case 17: { QUrl &x = *(QUrl *)out; if (s == 17) x = *static_cast<const QUrl *>(p); else if (s == 10) x = QUrl(*static_cast<const QString *>(p)); else return false; return true; }
    case 7: { QChar &x = *(QChar *)out; qlonglong n; if (s == 7) x = *static_cast<const QChar *>(p); else if (s != 10 && toS(v, n)) x = QChar((ushort)n); else return false; return true; }
    case 16: { if (s == 16) { *(QDateTime *)out = *static_cast<const QDateTime *>(p); return true; } return false; }
    }
    if (s == t && s >= 1024) { TI *u = user(t); if (u && u->size <= 8 && (u->flags & (QMetaType::IsEnumeration | QMetaType::PointerToQObject))) { memcpy(out, p, u->size); return true; } MODEL_TODO("QVariant::convert of a user type"); }
    if (enumT(t)) { qlonglong x; bool ok = toS(v, x); *(int *)out = (int)x; return ok; }
    return false;
}
bool QVariant::canConvert(int t) const
{
    if (t == (int)d.type) return true;
    if (d.type >= 64 || t >= 64 || t < 0) { if (enumT(t)) return d.type >= 1 && d.type <= 5; if (enumT(d.type)) return t >= 1 && t <= 10; return false; }
    if (t == 11 && d.type == 9) return true;
    if (t == 10 && d.type == 11) { return static_cast<const QStringList *>(constData())->size() == 1; }
    return canConvTable[d.type] >> t & 1;
}
bool QVariant::convert(int t)
{
    if (d.type == (uint)t) return true;
    QVariant old(*this); clear();
    if (!old.canConvert(t)) { create(t, nullptr); return false; }
    create(t, nullptr);
    if (old.isNull() && old.d.type != 51) return false;
    bool ok = conv(old, t, vptr(d)); d.is_null = !ok; if (ok && old.d.type == 51) d.is_null = true; return ok;
}
bool QVariant::convert(const int t, void *p) const { return conv(*this, t, p); }
#define TO(T, id, name) T QVariant::name() const { if (d.type == id) return *static_cast<const T *>(constData()); T r = T(); conv(*this, id, &r); return r; }
TO(bool, 1, toBool) TO(QString, 10, toString) TO(QByteArray, 12, toByteArray) TO(QVariantList, 9, toList) TO(QVariantMap, 8, toMap) TO(QVariantHash, 28, toHash) TO(QStringList, 11, toStringList) TO(QUuid, 30, toUuid) TO(QUrl, 17, toUrl) TO(QChar, 7, toChar) TO(QDateTime, 16, toDateTime)
#define TON(T, id, name) T QVariant::name(bool *ok) const { T r = T(); bool g = conv(*this, id, &r); if (ok) *ok = g; return r; }
TON(int, 2, toInt) TON(uint, 3, toUInt) TON(qlonglong, 4, toLongLong) TON(qulonglong, 5, toULongLong) TON(double, 6, toDouble) TON(float, 38, toFloat)
qreal QVariant::toReal(bool *ok) const { return toDouble(ok); }
static bool numT(int t) { return (t >= 1 && t <= 6) || (t >= 32 && t <= 38) || t == 40; }
bool QVariant::cmp(const QVariant &o) const
{
    if (d.type != o.d.type) {
        if (numT(d.type) && numT(o.d.type)) { if (d.type == 6 || o.d.type == 6 || d.type == 38 || o.d.type == 38) return toDouble() == o.toDouble(); return toLongLong() == o.toLongLong(); }
        if (o.canConvert(d.type)) { QVariant t(o); if (!t.convert(d.type)) return false; return cmp(t); }
        if (canConvert(o.d.type)) { QVariant t(*this); if (!t.convert(o.d.type)) return false; return t.cmp(o); } return false;
    }
    const void *p = constData(), *q = o.constData();
    switch (d.type) {
    case 0: case 51: return true;
#define F(id, T, n) case id: return *static_cast<const T *>(p) == *static_cast<const T *>(q);
    F(1, bool, ) F(2, int, ) F(3, uint, ) F(4, qlonglong, ) F(5, qulonglong, ) F(6, double, ) F(7, QChar, ) F(8, QVariantMap, ) F(9, QVariantList, ) F(10, QString, ) F(11, QStringList, ) F(12, QByteArray, ) F(16, QDateTime, ) F(17, QUrl, ) F(30, QUuid, ) F(32, long, ) F(33, short, ) F(34, char, ) F(35, ulong, ) F(36, ushort, ) F(37, uchar, ) F(38, float, ) F(40, signed char, )
#undef F
    }
    if (smallType(d.type) || user(d.type)) return !memcmp(p, q, QMetaType::sizeOf(d.type)); MODEL_TODO("QVariant::cmp");
}
int QVariant::compare(const QVariant &) const { MODEL_TODO("QVariant::compare"); }

// ---------------------------------------------------------------- QUuid
static bool hex(const char *&s, uint n, quint64 &r) { r = 0; for (uint i = 0; i < n; i++) { uchar c = *s; uint v; if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = c - 'A' + 10; else return false; r = r << 4 | v; s++; } return true; }
static QUuid parseU(const char *s)
{
    if (*s == '{') s++; quint64 a, b, c, e[8]; QUuid u;
    if (!hex(s, 8, a) || *s++ != '-' || !hex(s, 4, b) || *s++ != '-' || !hex(s, 4, c) || *s++ != '-' || !hex(s, 2, e[0]) || !hex(s, 2, e[1]) || *s++ != '-') return u;
    for (int i = 2; i < 8; i++) if (!hex(s, 2, e[i])) return u;
    u.data1 = a; u.data2 = b; u.data3 = c; for (int i = 0; i < 8; i++) u.data4[i] = e[i]; return u;
}
QUuid QUuid::fromString(QStringView t) noexcept { char b[40]; int n = qMin<int>(38, t.size()); for (int i = 0; i < n; i++) b[i] = t[i].toLatin1(); b[n] = 0; return parseU(b); }
QUuid QUuid::fromString(QLatin1String t) noexcept { char b[40]; int n = qMin<int>(38, t.size()); for (int i = 0; i < n; i++) b[i] = t.data()[i]; b[n] = 0; return parseU(b); }
QUuid::QUuid(const QString &t) : QUuid(fromString(QStringView(t))) {}
QUuid::QUuid(const char *t) : QUuid(t ? parseU(t) : QUuid()) {}
QUuid::QUuid(const QByteArray &t) : QUuid(parseU(t.constData())) {}
static char *puth(char *d, quint64 v, int n) { for (int i = n - 1; i >= 0; i--) { uint x = v >> (4 * i) & 15; *d++ = x < 10 ? '0' + x : 'a' + x - 10; } return d; }
QByteArray QUuid::toByteArray(StringFormat m) const
{
    char b[40], *d = b; bool br = m == WithBraces; if (br) *d++ = '{'; d = puth(d, data1, 8); if (m != Id128) *d++ = '-'; d = puth(d, data2, 4); if (m != Id128) *d++ = '-'; d = puth(d, data3, 4); if (m != Id128) *d++ = '-';
    for (int i = 0; i < 2; i++) d = puth(d, data4[i], 2); if (m != Id128) *d++ = '-'; for (int i = 2; i < 8; i++) d = puth(d, data4[i], 2); if (br) *d++ = '}'; return QByteArray(b, d - b);
}
QByteArray QUuid::toByteArray() const { return toByteArray(WithBraces); }
QString QUuid::toString(StringFormat m) const { return QString::fromLatin1(toByteArray(m)); }
QByteArray QUuid::toRfc4122() const { QByteArray r; for (int i = 3; i >= 0; i--) r.append(char(data1 >> 8 * i)); r.append(char(data2 >> 8)); r.append(char(data2)); r.append(char(data3 >> 8)); r.append(char(data3)); for (int i = 0; i < 8; i++) r.append(char(data4[i])); return r; }
QUuid QUuid::fromRfc4122(const QByteArray &b) { QUuid u; if (b.isEmpty() || b.size() != 16) return u; uchar x[16]; for (int i = 0; i < 16; i++) x[i] = b.at(i); u.data1 = uint(x[0]) << 24 | x[1] << 16 | x[2] << 8 | x[3]; u.data2 = x[4] << 8 | x[5]; u.data3 = x[6] << 8 | x[7]; for (int i = 0; i < 8; i++) u.data4[i] = x[8 + i]; return u; }
QString QUuid::toString() const { return toString(WithBraces); }
bool QUuid::isNull() const noexcept { return !data1 && !data2 && !data3 && !data4[0] && !data4[1] && !data4[2] && !data4[3] && !data4[4] && !data4[5] && !data4[6] && !data4[7]; }
bool QUuid::operator<(const QUuid &o) const noexcept { if (data1 != o.data1) return data1 < o.data1; if (data2 != o.data2) return data2 < o.data2; if (data3 != o.data3) return data3 < o.data3; for (int i = 0; i < 8; i++) if (data4[i] != o.data4[i]) return data4[i] < o.data4[i]; return false; }
bool QUuid::operator>(const QUuid &o) const noexcept { return o < *this; }
static uint uuidCounter = 0;
QUuid QUuid::createUuid() { return QUuid(0xc0ffee00u + ++uuidCounter, 0x1234, 0x4678, 0x9a, 0xbc, 0xde, 0xf0, 0x12, 0x34, 0x56, 0x78); }
uint qHash(const QUuid &, uint) noexcept { return 0; }

// ---------------------------------------------------------------- QUrl
class QUrlPrivate { public: int ref; QString scheme, user, host, path, query, fragment; int port; bool valid; QUrlPrivate() : ref(1), port(-1), valid(true) {} };
static void urlDrop(QUrlPrivate *d) { if (d && !--d->ref) delete d; }
QUrl::QUrl() : d(nullptr) {}
QUrl::QUrl(const QUrl &o) : d(o.d) { if (d) d->ref++; }
QUrl::QUrl(const QString &s, ParsingMode m) : d(nullptr) { setUrl(s, m); }
QUrl &QUrl::operator=(const QUrl &o) { if (o.d) o.d->ref++; urlDrop(d); d = o.d; return *this; }
QUrl &QUrl::operator=(const QString &s) { setUrl(s); return *this; }
QUrl::~QUrl() { urlDrop(d); }
void QUrl::clear() { urlDrop(d); d = nullptr; }
void QUrl::detach() { if (!d) d = new QUrlPrivate; else if (d->ref > 1) { QUrlPrivate *n = new QUrlPrivate(*d); n->ref = 1; d->ref--; d = n; } }
void QUrl::setUrl(const QString &s, ParsingMode)
{
    clear(); if (s.isEmpty()) return; detach(); QString r = s; int i = r.indexOf(QLatin1Char('#')); if (i >= 0) { d->fragment = r.mid(i + 1); r = r.left(i); } i = r.indexOf(QLatin1Char('?')); if (i >= 0) { d->query = r.mid(i + 1); r = r.left(i); }
    i = r.indexOf(QLatin1Char(':')); if (i > 0 && r.left(i).indexOf(QLatin1Char('/')) < 0) { d->scheme = r.left(i).toLower(); r = r.mid(i + 1); }
    if (r.startsWith(QLatin1String("//"))) { r = r.mid(2); i = r.indexOf(QLatin1Char('/')); QString a = i >= 0 ? r.left(i) : r; d->path = i >= 0 ? r.mid(i) : QString(); i = a.lastIndexOf(QLatin1Char('@')); if (i >= 0) { d->user = a.left(i); a = a.mid(i + 1); } i = a.lastIndexOf(QLatin1Char(':')); if (i >= 0 && !a.endsWith(QLatin1Char(']'))) { QString p = a.mid(i + 1); a = a.left(i); if (!p.isEmpty()) { bool ok; int v = p.toInt(&ok); if (!ok || v < 0 || v > 65535) d->valid = false; else d->port = v; } } d->host = a.toLower(); if (d->host.contains(QLatin1Char(' '))) d->valid = false; }
    else d->path = r;
}
bool QUrl::isValid() const { return d && d->valid && !isEmpty(); }
bool QUrl::isEmpty() const { return !d || (d->scheme.isEmpty() && d->host.isEmpty() && d->path.isEmpty() && d->query.isEmpty() && d->fragment.isEmpty() && d->port == -1 && d->user.isEmpty()); }
QString QUrl::errorString() const { return QString(); }
QString QUrl::scheme() const { return d ? d->scheme : QString(); }
QString QUrl::host(ComponentFormattingOptions) const { return d ? d->host : QString(); }
int QUrl::port(int def) const { return d && d->port >= 0 ? d->port : def; }
QString QUrl::path(ComponentFormattingOptions) const { return d ? d->path : QString(); }
QString QUrl::query(ComponentFormattingOptions) const { return d ? d->query : QString(); }
QString QUrl::fragment(ComponentFormattingOptions) const { return d ? d->fragment : QString(); }
QString QUrl::userInfo(ComponentFormattingOptions) const { return d ? d->user : QString(); }
QString QUrl::userName(ComponentFormattingOptions) const { return d ? d->user.section(QLatin1Char(':'), 0, 0) : QString(); }
void QUrl::setScheme(const QString &s) { detach(); d->scheme = s.toLower(); }
void QUrl::setHost(const QString &s, ParsingMode) { detach(); d->host = s.toLower(); }
void QUrl::setPort(int p) { detach(); if (p < -1 || p > 65535) { d->valid = false; p = -1; } d->port = p; }
void QUrl::setPath(const QString &s, ParsingMode) { detach(); d->path = s; }
void QUrl::setQuery(const QString &s, ParsingMode) { detach(); d->query = s; }
void QUrl::setFragment(const QString &s, ParsingMode) { detach(); d->fragment = s; }
QString QUrl::authority(ComponentFormattingOptions) const { if (!d) return QString(); QString r; if (!d->user.isEmpty()) r += d->user + QLatin1Char('@'); r += d->host; if (d->port >= 0) r += QLatin1Char(':') + QString::number(d->port); return r; }
QString QUrl::toString(FormattingOptions) const { if (!d) return QString(); QString r; if (!d->scheme.isEmpty()) r += d->scheme + QLatin1Char(':'); if (!d->host.isEmpty() || d->port >= 0) r += QLatin1String("//") + authority(); r += d->path; if (!d->query.isEmpty()) r += QLatin1Char('?') + d->query; if (!d->fragment.isEmpty()) r += QLatin1Char('#') + d->fragment; return r; }
QString QUrl::url(FormattingOptions o) const { return toString(o); }
QString QUrl::toDisplayString(FormattingOptions o) const { return toString(o); }
QByteArray QUrl::toEncoded(FormattingOptions) const { return toString().toUtf8(); }
bool QUrl::operator==(const QUrl &o) const { return toString() == o.toString(); }
bool QUrl::operator!=(const QUrl &o) const { return !(*this == o); }
bool QUrl::operator<(const QUrl &o) const { return toString() < o.toString(); }

// ---------------------------------------------------------------- QDateTime: milliseconds since the epoch, UTC
extern "C" qint64 env_now();
#define MS(x) ((x).d.data.msecs)
QDateTime::Data::Data() { data.status = 0; data.msecs = 0; }
QDateTime::Data::Data(Data &&o) { data = o.data; o.data.status = 0; o.data.msecs = 0; }
QDateTime::Data::Data(const Data &o) { data = o.data; }
QDateTime::Data &QDateTime::Data::operator=(const Data &o) { data = o.data; return *this; }
QDateTime::Data::~Data() {}
QDateTime::QDateTime() noexcept {}
QDateTime::QDateTime(const QDateTime &o) noexcept : d(o.d) {}
QDateTime::QDateTime(QDateTime &&o) noexcept : d(o.d) {}
QDateTime::~QDateTime() {}
QDateTime &QDateTime::operator=(const QDateTime &o) noexcept { d = o.d; return *this; }
QDateTime QDateTime::fromMSecsSinceEpoch(qint64 m) { QDateTime r; r.d.data.status = 1; r.d.data.msecs = m; return r; }
QDateTime QDateTime::fromMSecsSinceEpoch(qint64 m, Qt::TimeSpec, int) { return fromMSecsSinceEpoch(m); }
QDateTime QDateTime::fromSecsSinceEpoch(qint64 s, Qt::TimeSpec, int) { return fromMSecsSinceEpoch(s * 1000); }
qint64 QDateTime::toMSecsSinceEpoch() const { return MS(*this); }
qint64 QDateTime::toSecsSinceEpoch() const { return MS(*this) / 1000; }
void QDateTime::setMSecsSinceEpoch(qint64 m) { *this = fromMSecsSinceEpoch(m); }
bool QDateTime::isValid() const { return d.data.status; }
bool QDateTime::isNull() const { return !d.data.status; }
bool QDateTime::operator==(const QDateTime &o) const { return MS(*this) == MS(o) && d.data.status == o.d.data.status; }
bool QDateTime::operator<(const QDateTime &o) const { return MS(*this) < MS(o); }
qint64 QDateTime::msecsTo(const QDateTime &o) const { return !isValid() || !o.isValid() ? 0 : MS(o) - MS(*this); }
qint64 QDateTime::secsTo(const QDateTime &o) const { return !isValid() || !o.isValid() ? 0 : (MS(o) - MS(*this)) / 1000; }
QDateTime QDateTime::addMSecs(qint64 m) const { return isValid() ? fromMSecsSinceEpoch(MS(*this) + m) : QDateTime(); }
QDateTime QDateTime::addSecs(qint64 s) const { return addMSecs(s * 1000); }
QDateTime QDateTime::addDays(qint64 n) const { return addMSecs(n * 86400000); }
QDateTime QDateTime::toTimeSpec(Qt::TimeSpec) const { return *this; }
Qt::TimeSpec QDateTime::timeSpec() const { return Qt::UTC; }
QDate QDateTime::date() const { QDate r; r.jd = 2440588 + MS(*this) / 86400000; return r; }
QTime QDateTime::time() const { QTime r; r.mds = (int)(MS(*this) % 86400000); return r; }
static void civil(qint64 jd, int &y, int &m, int &dd) { qint64 z = jd - 2440588 + 719468, era = z / 146097; uint doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; uint doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; dd = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++; }
int QDate::day() const { int y, m, x; civil(jd, y, m, x); return x; }
int QDate::month() const { int y, m, x; civil(jd, y, m, x); return m; }
int QDate::year() const { int y, m, x; civil(jd, y, m, x); return y; }
int QTime::hour() const { return mds / 3600000; } int QTime::minute() const { return mds / 60000 % 60; } int QTime::second() const { return mds / 1000 % 60; } int QTime::msec() const { return mds % 1000; }
QString QDateTime::toString(const QString &f) const
{
    QString r; QDate da = date(); QTime t = time();
    for (int i = 0; i < f.size();) { ushort c = f.at(i).unicode(); int n = 1; while (i + n < f.size() && f.at(i + n).unicode() == c) n++; int v, w = n > 1 ? 2 : 1; switch (c) { case 'y': v = n >= 4 ? da.year() : da.year() % 100; w = n >= 4 ? 4 : 2; break; case 'M': v = da.month(); break; case 'd': v = da.day(); break; case 'h': case 'H': v = t.hour(); break; case 'm': v = t.minute(); break; case 's': v = t.second(); break; case 'z': v = t.msec(); w = n > 1 ? 3 : 1; break; default: r += QString(n, QChar(c)); i += n; continue; } r += QString::number(v).rightJustified(w, QLatin1Char('0')); i += n; }
    return r;
}
QString QDateTime::toString(QStringView f) const { return toString(QString(f.data(), f.size())); }
QString QDateTime::toString(Qt::DateFormat) const { return toString(QStringLiteral("yyyy-MM-ddThh:mm:ss")); }
QT_END_NAMESPACE
