// QtCore model: C string functions, array data, QByteArray, QList, QHash, QMap.
#include "m.h"
#include <string.h>
#include <stdlib.h>

// ---------------------------------------------------------------- libc
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
static const char *vp_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
}
QT_BEGIN_NAMESPACE
void qBadAlloc() { abort(); }
void qt_assert(const char *, const char *, int) noexcept { abort(); }
void qt_assert_x(const char *, const char *, const char *, int) noexcept { abort(); }
void qt_check_pointer(const char *, int) noexcept { abort(); }
void *qMallocAligned(size_t n, size_t) { return malloc(n); }
void qFreeAligned(void *p) { free(p); }
int qstrcmp(const char *a, const char *b) { return (a && b) ? strcmp(a, b) : (a ? 1 : (b ? -1 : 0)); }
int qstrcmp(const QByteArray &a, const char *b) { return qstrcmp(a, QByteArray(b)); }
int qstrcmp(const QByteArray &a, const QByteArray &b)
{
    int l1 = a.size(), l2 = b.size(), n = qMin(l1, l2); int r = n ? memcmp(a.constData(), b.constData(), n) : 0;
    return r ? r : l1 - l2;
}
static inline uchar lowc(uchar c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int qstricmp(const char *a, const char *b) { if (!a || !b) return a ? 1 : (b ? -1 : 0); for (;; a++, b++) { int d = (int)lowc(*a) - (int)lowc(*b); if (d || !*a) return d; } }
int qstrnicmp(const char *a, const char *b, uint n) { if (!a || !b) return a ? 1 : (b ? -1 : 0); for (; n; a++, b++, n--) { int d = (int)lowc(*a) - (int)lowc(*b); if (d || !*a) return d; } return 0; }
int qstrnicmp(const char *a, qsizetype la, const char *b, qsizetype lb)
{
    if (!a) return lb > 0 ? -1 : 0; if (!b) return 1; if (lb == -1) lb = strlen(b);
    qsizetype n = qMin(la, lb); for (qsizetype i = 0; i < n; i++) { int d = (int)lowc(a[i]) - (int)lowc(b[i]); if (d) return d; } return la == lb ? 0 : la > lb ? 1 : -1;
}
char *qstrdup(const char *s) { if (!s) return nullptr; size_t n = strlen(s) + 1; char *d = new char[n]; memcpy(d, s, n); return d; }

// ---------------------------------------------------------------- QArrayData
const QArrayData QArrayData::shared_null[2] = { { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData) }, { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, 0 } };
static const QArrayData qt_array_empty[2] = { { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, sizeof(QArrayData) }, { { Q_BASIC_ATOMIC_INITIALIZER(0) }, 0, 0, 0, 0 } };
QArrayData *QArrayData::allocate(size_t objectSize, size_t alignment, size_t capacity, AllocationOptions options) noexcept
{
    if (!(options & RawData) && !capacity) return const_cast<QArrayData *>(&qt_array_empty[0]);
    size_t header = sizeof(QArrayData); if (options & RawData) header = sizeof(QArrayData);
    size_t a = alignment; if (header % a) header += a - header % a;
    if (capacity > 0x7fffff00u) return nullptr;
    if (options & Grow) capacity = capacity + capacity / 2 + 16 / (objectSize ? objectSize : 1);
    QArrayData *d = static_cast<QArrayData *>(malloc(header + objectSize * capacity));
    d->ref.atomic.storeRelaxed(1); d->size = 0; d->alloc = capacity; d->capacityReserved = bool(options & CapacityReserved); d->offset = (options & RawData) ? sizeof(QArrayData) : header;
    return d;
}
QArrayData *QArrayData::reallocateUnaligned(QArrayData *data, size_t objectSize, size_t capacity, AllocationOptions options) noexcept
{
    if (options & Grow) capacity = capacity + capacity / 2 + 16 / (objectSize ? objectSize : 1);
    QArrayData *d = static_cast<QArrayData *>(realloc(data, sizeof(QArrayData) + objectSize * capacity));
    d->alloc = capacity; d->capacityReserved = bool(options & CapacityReserved); return d;
}
void QArrayData::deallocate(QArrayData *d, size_t, size_t) noexcept { if (d == &qt_array_empty[0]) return; ::free(d); }

// ---------------------------------------------------------------- QByteArray
static QTypedArrayData<char> *newBA(int n) { QTypedArrayData<char> *d = QTypedArrayData<char>::allocate(uint(n) + 1u); d->size = n; d->data()[n] = 0; return d; }
QByteArray::QByteArray(const char *p, int n)
{
    if (!p) { d = Data::sharedNull(); return; }
    if (n < 0) n = (int)strlen(p);
    if (!n) d = Data::allocate(0); else { d = newBA(n); memcpy(d->data(), p, n); }
}
QByteArray::QByteArray(int n, char c) { if (n <= 0) d = Data::allocate(0); else { d = newBA(n); memset(d->data(), c, n); } }
QByteArray::QByteArray(int n, Qt::Initialization) { if (n <= 0) d = Data::allocate(0); else d = newBA(n); }
QByteArray &QByteArray::operator=(const QByteArray &o) noexcept { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QByteArray &QByteArray::operator=(const char *s) { return *this = QByteArray(s); }
void QByteArray::reallocData(uint alloc, Data::AllocationOptions options)
{
    if (d->ref.isShared() || d->offset != (qptrdiff)sizeof(QByteArrayData) || !d->isMutable()) {
        Data *x = Data::allocate(alloc, options); x->size = qMin(int(alloc) - 1, d->size); if (x->size > 0) memcpy(x->data(), d->data(), x->size); x->data()[x->size] = 0;
        if (!d->ref.deref()) Data::deallocate(d); d = x;
    } else { Data *x = Data::reallocateUnaligned(d, alloc, options); d = x; }
}
void QByteArray::resize(int n)
{
    if (n < 0) n = 0;
    if (!d->isMutable() && !d->ref.isStatic() && !d->ref.isShared() && n < d->size) { d->size = n; return; }
    if (n == 0 && !d->capacityReserved) { Data *x = Data::allocate(0); if (!d->ref.deref()) Data::deallocate(d); d = x; }
    else if (d->size == 0 && d->ref.isStatic()) { d = newBA(n); }
    else { if (d->ref.isShared() || uint(n) + 1u > d->alloc || (!d->capacityReserved && n < d->size && n < int(d->alloc) / 2)) reallocData(uint(n) + 1u, d->detachFlags() | Data::Grow); if (d->alloc) { d->size = n; d->data()[n] = 0; } }
}
void QByteArray::expand(int i) { resize(qMax(i + 1, d->size)); }
bool QByteArray::isNull() const { return d == QArrayData::sharedNull(); }
void QByteArray::clear() { if (!d->ref.deref()) Data::deallocate(d); d = Data::sharedNull(); }
QByteArray QByteArray::nulTerminated() const { return QByteArray(constData(), size()); }
QByteArray &QByteArray::fill(char c, int n) { resize(n < 0 ? d->size : n); if (d->size) memset(data(), c, d->size); return *this; }
QByteArray &QByteArray::append(const char *s, int n)
{
    if (n < 0) n = s ? (int)strlen(s) : 0;
    if (s && n) {
        QByteArray keep; if (s >= constData() && s <= constData() + d->size) { keep = *this; }
        if (d->ref.isShared() || uint(d->size + n) + 1u > d->alloc) reallocData(uint(d->size + n) + 1u, d->detachFlags() | Data::Grow);
        memcpy(d->data() + d->size, s, n); d->size += n; d->data()[d->size] = 0;
    }
    return *this;
}
QByteArray &QByteArray::append(const char *s) { return append(s, s ? (int)strlen(s) : 0); }
QByteArray &QByteArray::append(const QByteArray &a) { if (d->size == 0 && d->ref.isStatic()) { *this = a; return *this; } if (a.d != Data::sharedNull()) { QByteArray k(a); return append(k.constData(), k.size()); } return *this; }
QByteArray &QByteArray::append(char c)
{
    if (d->ref.isShared() || uint(d->size) + 2u > d->alloc) reallocData(uint(d->size) + 2u, d->detachFlags() | Data::Grow);
    d->data()[d->size++] = c; d->data()[d->size] = 0; return *this;
}
QByteArray &QByteArray::insert(int i, const char *s, int n)
{
    if (i < 0 || !s || n <= 0) return *this;
    QByteArray t(s, n); QByteArray r; r.reserve(qMax(i, d->size) + n); r.append(left(i)); while (r.size() < i) r.append(' '); r.append(t); if (i < d->size) r.append(constData() + i, d->size - i); return *this = r;
}
QByteArray &QByteArray::insert(int i, const QByteArray &a) { QByteArray k(a); return insert(i, k.constData(), k.size()); }
QByteArray &QByteArray::insert(int i, const char *s) { return insert(i, s, s ? (int)strlen(s) : 0); }
QByteArray &QByteArray::insert(int i, char c) { return insert(i, &c, 1); }
QByteArray &QByteArray::insert(int i, int count, char c) { return insert(i, QByteArray(count, c)); }
QByteArray &QByteArray::prepend(const QByteArray &a) { if (d->size == 0 && d->ref.isStatic()) { *this = a; return *this; } return insert(0, a); }
QByteArray &QByteArray::prepend(const char *s) { return insert(0, s); }
QByteArray &QByteArray::prepend(const char *s, int n) { return insert(0, s, n); }
QByteArray &QByteArray::prepend(char c) { return insert(0, c); }
QByteArray &QByteArray::remove(int pos, int len)
{
    if (len <= 0 || uint(pos) >= uint(d->size)) return *this;
    detach(); if (len >= d->size - pos) resize(pos); else { memmove(d->data() + pos, d->data() + pos + len, d->size - pos - len); resize(d->size - len); }
    return *this;
}
QByteArray &QByteArray::replace(int pos, int len, const char *s, int n) { QByteArray a(s, n); remove(pos, len); return insert(pos, a); }
QByteArray &QByteArray::replace(int pos, int len, const QByteArray &a) { QByteArray k(a); remove(pos, len); return insert(pos, k); }
QByteArray &QByteArray::replace(int pos, int len, const char *s) { return replace(pos, len, QByteArray(s)); }
QByteArray &QByteArray::replace(const char *before, int bs, const char *after, int as)
{
    QByteArray b(before, bs), a(after, as), r; int from = 0;
    if (!bs) { MODEL_TODO("replace of an empty string"); }
    for (;;) { int i = indexOf(b, from); if (i < 0) break; r.append(mid(from, i - from)); r.append(a); from = i + bs; }
    if (!from) return *this; r.append(mid(from)); return *this = r;
}
QByteArray &QByteArray::replace(const QByteArray &b, const QByteArray &a) { return replace(b.constData(), b.size(), a.constData(), a.size()); }
QByteArray &QByteArray::replace(char b, const QByteArray &a) { return replace(&b, 1, a.constData(), a.size()); }
QByteArray &QByteArray::replace(const char *b, const QByteArray &a) { return replace(b, qstrlen(b), a.constData(), a.size()); }
QByteArray &QByteArray::replace(char b, char a) { if (d->size) { char *p = data(); for (int i = 0; i < d->size; i++) if (p[i] == b) p[i] = a; } return *this; }
QList<QByteArray> QByteArray::split(char sep) const { QList<QByteArray> l; int s = 0; for (int i = 0; i < d->size; i++) if (d->data()[i] == sep) { l.append(mid(s, i - s)); s = i + 1; } l.append(mid(s)); return l; }
QByteArray QByteArray::repeated(int n) const { QByteArray r; for (int i = 0; i < n; i++) r.append(*this); return r; }
int QByteArray::indexOf(char c, int from) const { if (from < 0) from = qMax(from + d->size, 0); const char *p = d->data(); for (int i = from; i < d->size; i++) if (p[i] == c) return i; return -1; }
static int findBytes(const char *p, int n, const char *q, int m, int from) { if (from < 0) from = qMax(from + n, 0); for (int i = from; i + m <= n; i++) { if (!m) return i; if (p[i] == q[0] && !memcmp(p + i, q, m)) return i; } return -1; }
int QByteArray::indexOf(const char *c, int from) const { return findBytes(constData(), size(), c, qstrlen(c), from); }
int QByteArray::indexOf(const QByteArray &a, int from) const { return findBytes(constData(), size(), a.constData(), a.size(), from); }
int QByteArray::lastIndexOf(char c, int from) const { if (from < 0) from += d->size; else if (from > d->size) from = d->size - 1; for (int i = from; i >= 0; i--) if (i < d->size && d->data()[i] == c) return i; return -1; }
int QByteArray::lastIndexOf(const QByteArray &a, int from) const { int dl = size() - a.size(); if (from < 0) from += size(); if (from < 0) from = dl; if (from > dl) from = dl; for (int i = from; i >= 0; i--) if (!a.size() || !memcmp(constData() + i, a.constData(), a.size())) return i; return -1; }
int QByteArray::lastIndexOf(const char *c, int from) const { return lastIndexOf(QByteArray(c), from); }
int QByteArray::count(char c) const { int r = 0; for (int i = 0; i < d->size; i++) if (d->data()[i] == c) r++; return r; }
int QByteArray::count(const QByteArray &a) const { int r = 0, i = -1; while ((i = indexOf(a, i + 1)) != -1) r++; return r; }
int QByteArray::count(const char *a) const { return count(QByteArray(a)); }
QByteArray QByteArray::left(int n) const { if (n >= d->size) return *this; if (n < 0) n = 0; return QByteArray(d->data(), n); }
QByteArray QByteArray::right(int n) const { if (n >= d->size) return *this; if (n < 0) n = 0; return QByteArray(d->data() + d->size - n, n); }
QByteArray QByteArray::mid(int pos, int n) const
{
    if (pos > d->size) return QByteArray();
    if (pos < 0) { if (n < 0 || n + pos >= d->size) return *this; if (n + pos <= 0) return QByteArray(); n += pos; pos = 0; } else if (uint(n) > uint(d->size - pos)) n = d->size - pos;
    if (pos == 0 && n == d->size) return *this;
    if (pos == d->size && n == 0) { QByteArrayDataPtr e = { Data::allocate(0) }; return QByteArray(e); }
    return QByteArray(d->data() + pos, n);
}
bool QByteArray::startsWith(const QByteArray &a) const { if (d == a.d || a.d->size == 0) return true; if (d->size < a.d->size) return false; return memcmp(d->data(), a.d->data(), a.d->size) == 0; }
bool QByteArray::startsWith(const char *s) const { return startsWith(QByteArray(s)); }
bool QByteArray::startsWith(char c) const { return d->size && d->data()[0] == c; }
bool QByteArray::endsWith(const QByteArray &a) const { if (d == a.d || a.d->size == 0) return true; if (d->size < a.d->size) return false; return memcmp(d->data() + d->size - a.d->size, a.d->data(), a.d->size) == 0; }
bool QByteArray::endsWith(const char *s) const { return endsWith(QByteArray(s)); }
bool QByteArray::endsWith(char c) const { return d->size && d->data()[d->size - 1] == c; }
void QByteArray::truncate(int pos) { if (pos < d->size) resize(pos); }
void QByteArray::chop(int n) { if (n > 0) resize(d->size - n); }
static inline bool spc(uchar c) { return c == ' ' || (c >= 9 && c <= 13); }
QByteArray QByteArray::trimmed_helper(const QByteArray &a) { int b = 0, e = a.size(); while (b < e && spc(a.at(b))) b++; while (e > b && spc(a.at(e - 1))) e--; if (b == 0 && e == a.size()) return a; return QByteArray(a.constData() + b, e - b); }
QByteArray QByteArray::trimmed_helper(QByteArray &a) { return trimmed_helper((const QByteArray &)a); }
QByteArray QByteArray::simplified_helper(const QByteArray &a) { QByteArray r; bool sp = false; for (int i = 0; i < a.size(); i++) { if (spc(a.at(i))) sp = true; else { if (sp && r.size()) r.append(' '); sp = false; r.append(a.at(i)); } } return r; }
QByteArray QByteArray::simplified_helper(QByteArray &a) { return simplified_helper((const QByteArray &)a); }
QByteArray QByteArray::toLower_helper(const QByteArray &a) { QByteArray r(a.constData(), a.size()); char *p = r.data(); for (int i = 0; i < r.size(); i++) p[i] = lowc(p[i]); return r; }
QByteArray QByteArray::toLower_helper(QByteArray &a) { return toLower_helper((const QByteArray &)a); }
QByteArray QByteArray::toUpper_helper(const QByteArray &a) { QByteArray r(a.constData(), a.size()); char *p = r.data(); for (int i = 0; i < r.size(); i++) if (p[i] >= 'a' && p[i] <= 'z') p[i] -= 32; return r; }
QByteArray QByteArray::toUpper_helper(QByteArray &a) { return toUpper_helper((const QByteArray &)a); }
QByteArray QByteArray::leftJustified(int w, char f, bool t) const { QByteArray r(*this); while (r.size() < w) r.append(f); if (t && r.size() > w) r.resize(w); return r; }
QByteArray QByteArray::rightJustified(int w, char f, bool t) const { QByteArray r; for (int i = size(); i < w; i++) r.append(f); r.append(*this); if (t && r.size() > w) r.resize(w); return r; }
// number parsing as in qstrtoll: optional sign, whole string must be consumed, surrounding blanks allowed
bool m_parseInt(const char *p, int n, int base, bool allowNeg, quint64 &mag, bool &neg)
{
    int i = 0, e = n; neg = false; mag = 0; while (i < e && spc(p[i])) i++; while (e > i && spc(p[e - 1])) e--;
    if (i < e && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; i++; } if (neg && !allowNeg) return false;
    if ((base == 0 || base == 16) && i + 1 < e && p[i] == '0' && (p[i + 1] == 'x' || p[i + 1] == 'X')) { base = 16; i += 2; } else if (base == 0) base = (i + 1 < e && p[i] == '0') ? 8 : 10;
    if (i >= e) return false;
    for (; i < e; i++) { uchar c = p[i]; uint v; if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10; else return false; if (v >= (uint)base) return false; if (mag > (~0ull - v) / base) return false; mag = mag * base + v; }
    return true;
}
static qlonglong parseS(const char *p, int n, int base, bool *ok, qint64 lo, qint64 hi)
{
    quint64 m; bool neg; bool good = m_parseInt(p, n, base, true, m, neg); qint64 v = 0;
    if (good) { if (neg) { good = m <= (quint64)1 << 63; v = (qint64)(0 - m); } else { good = m <= 0x7fffffffffffffffull; v = (qint64)m; } }
    if (good && (v < lo || v > hi)) good = false; if (ok) *ok = good; return good ? v : 0;
}
static qulonglong parseU(const char *p, int n, int base, bool *ok, quint64 hi) { quint64 m; bool neg; bool good = m_parseInt(p, n, base, false, m, neg) && m <= hi; if (ok) *ok = good; return good ? m : 0; }
short QByteArray::toShort(bool *ok, int b) const { return parseS(constData(), size(), b, ok, -32768, 32767); }
ushort QByteArray::toUShort(bool *ok, int b) const { return parseU(constData(), size(), b, ok, 65535); }
int QByteArray::toInt(bool *ok, int b) const { return parseS(constData(), size(), b, ok, INT_MIN, INT_MAX); }
uint QByteArray::toUInt(bool *ok, int b) const { return parseU(constData(), size(), b, ok, UINT_MAX); }
long QByteArray::toLong(bool *ok, int b) const { return parseS(constData(), size(), b, ok, LLONG_MIN, LLONG_MAX); }
ulong QByteArray::toULong(bool *ok, int b) const { return parseU(constData(), size(), b, ok, ULLONG_MAX); }
qlonglong QByteArray::toLongLong(bool *ok, int b) const { return parseS(constData(), size(), b, ok, LLONG_MIN, LLONG_MAX); }
qulonglong QByteArray::toULongLong(bool *ok, int b) const { return parseU(constData(), size(), b, ok, ULLONG_MAX); }
bool m_parseDouble(const QByteArray &a0, double &d)
{
    QByteArray a = a0.trimmed(); bool dig = false, exp = false, edig = true; d = 0; int i = 0; if (i < a.size() && (a.at(i) == '-' || a.at(i) == '+')) i++;
    bool dot = false;
    for (; i < a.size(); i++) { char c = a.at(i); if (c >= '0' && c <= '9') { if (exp) edig = true; else dig = true; } else if (c == '.' && !dot && !exp) dot = true; else if ((c == 'e' || c == 'E') && dig && !exp) { exp = true; edig = false; if (i + 1 < a.size() && (a.at(i + 1) == '-' || a.at(i + 1) == '+')) i++; } else return false; }
    if (!dig || !edig) return false; d = vp_atod(a.constData()); return true;
}
double QByteArray::toDouble(bool *ok) const { double d; bool g = m_parseDouble(*this, d); if (ok) *ok = g; return g ? d : 0; }
float QByteArray::toFloat(bool *ok) const { return (float)toDouble(ok); }
QByteArray m_fmt(quint64 m, bool neg, int base) { char b[72]; int i = 71; if (!m) b[--i] = '0'; while (m) { uint r = m % (uint)base; m /= (uint)base; b[--i] = r < 10 ? '0' + r : 'a' + r - 10; } if (neg) b[--i] = '-'; return QByteArray(b + i, 71 - i); }
QByteArray QByteArray::number(int v, int b) { return number((qlonglong)v, b); }
QByteArray QByteArray::number(uint v, int b) { return m_fmt(v, false, b); }
QByteArray QByteArray::number(qlonglong v, int b) { if (v < 0 && b == 10) return m_fmt(0 - (quint64)v, true, b); return m_fmt((quint64)v, false, b); }
QByteArray QByteArray::number(qulonglong v, int b) { return m_fmt(v, false, b); }
QByteArray QByteArray::number(double v, char f, int p) { char b[512]; int n = vp_dtoa(v, b, p == QLocale::FloatingPointShortest ? 'R' : f, p); return QByteArray(b, n); }
QByteArray &QByteArray::setNum(qlonglong v, int b) { return *this = number(v, b); }
QByteArray &QByteArray::setNum(qulonglong v, int b) { return *this = number(v, b); }
QByteArray &QByteArray::setNum(double v, char f, int p) { return *this = number(v, f, p); }
QByteArray QByteArray::fromRawData(const char *p, int n) { Data *x; if (!p) x = Data::sharedNull(); else if (!n) x = Data::allocate(0); else x = Data::fromRawData(p, n); QByteArrayDataPtr dp = { x }; return QByteArray(dp); }
QByteArray &QByteArray::setRawData(const char *a, uint n) { return *this = fromRawData(a, n); }
QByteArray QByteArray::toHex() const { return toHex('\0'); }
QByteArray QByteArray::toHex(char sep) const { QByteArray r; for (int i = 0; i < size(); i++) { uchar c = at(i); if (i && sep) r.append(sep); uint h = c >> 4, l = c & 15; r.append(char(h < 10 ? '0' + h : 'a' + h - 10)); r.append(char(l < 10 ? '0' + l : 'a' + l - 10)); } return r; }
QByteArray QByteArray::fromHex(const QByteArray &h) { QByteArray r; int acc = 0, odd = 0; for (int i = h.size() - 1; i >= 0; i--) { char c = h.at(i); int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (v < 0) continue; if (odd) { r.prepend(char(acc | v << 4)); odd = 0; } else { acc = v; odd = 1; } } if (odd) r.prepend(char(acc)); return r; }
bool operator==(const QByteArray &, const QByteArray &) noexcept;
QByteArray::operator QNoImplicitBoolCast() const { abort(); }
uint qHash(const QByteArray &, uint) noexcept { return 0; }

// ---------------------------------------------------------------- QListData
const QListData::Data QListData::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, { nullptr } };
static QListData::Data *listAlloc(int alloc) { QListData::Data *t = static_cast<QListData::Data *>(malloc(QListData::DataHeaderSize + sizeof(void *) * (alloc ? alloc : 1))); t->ref.atomic.storeRelaxed(1); t->alloc = alloc; t->begin = t->end = 0; return t; }
QListData::Data *QListData::detach(int alloc) { Data *x = d; Data *t = listAlloc(alloc); t->begin = 0; t->end = alloc ? x->end - x->begin : 0; d = t; return x; }
QListData::Data *QListData::detach_grow(int *idx, int num)
{
    Data *x = d; int l = x->end - x->begin; int nl = l + num; Data *t = listAlloc(nl + 4);
    if (*idx < 0) *idx = 0; else if (*idx > l) *idx = l;
    t->begin = 0; t->end = nl; d = t; return x;
}
void QListData::realloc(int alloc) { Data *x = static_cast<Data *>(::realloc(d, DataHeaderSize + alloc * sizeof(void *))); d = x; d->alloc = alloc; if (!alloc) d->begin = d->end = 0; }
void QListData::realloc_grow(int growth) { realloc(d->alloc + growth + 4); }
void QListData::dispose(Data *d) { free(d); }
void **QListData::append(int n) { int e = d->end; if (e + n > d->alloc) { int b = d->begin; if (b - n >= 2 * d->alloc / 3) { e -= b; memcpy(d->array, d->array + b, e * sizeof(void *)); d->begin = 0; } else realloc_grow(n); } d->end = e + n; return d->array + e; }
void **QListData::append() { return append(1); }
void **QListData::append(const QListData &l) { return append(l.d->end - l.d->begin); }
void **QListData::prepend() { return insert(0); }
void **QListData::insert(int i) { if (i < 0) i = 0; int n = size(); if (i > n) i = n; if (d->end == d->alloc) realloc_grow(1); void **p = d->array + d->begin + i; memmove(p + 1, p, (n - i) * sizeof(void *)); d->end++; return p; }
void QListData::remove(int i) { i += d->begin; memmove(d->array + i, d->array + i + 1, (d->end - i - 1) * sizeof(void *)); d->end--; }
void QListData::remove(int i, int n) { i += d->begin; memmove(d->array + i, d->array + i + n, (d->end - i - n) * sizeof(void *)); d->end -= n; }
void QListData::move(int from, int to) { void *t = d->array[d->begin + from]; remove(from); *insert(to) = t; }
void **QListData::erase(void **xi) { int i = xi - (d->array + d->begin); remove(i); return d->array + d->begin + i; }

// ---------------------------------------------------------------- QHashData: one bucket, insertion at its head
const QHashData QHashData::shared_null = { nullptr, nullptr, Q_REFCOUNT_INITIALIZE_STATIC, 0, 0, 0, 0, 0, 0, true, false, 0 };
void *QHashData::allocateNode(int) { return malloc(nodeSize); }
void QHashData::freeNode(void *n) { free(n); }
QHashData *QHashData::detach_helper(void (*dup)(Node *, void *), void (*)(Node *), int ns, int)
{
    QHashData *d = new QHashData; d->fakeNext = nullptr; d->buckets = new Node *[1]; d->ref.initializeOwned(); d->size = size; d->nodeSize = ns; d->userNumBits = 0; d->numBits = 0; d->numBuckets = 1; d->seed = 0; d->sharable = true; d->strictAlignment = false; d->reserved = 0;
    Node **last = &d->buckets[0];
    if (numBuckets) for (Node *o = buckets[0]; o != (Node *)this; o = o->next) { Node *n = (Node *)d->allocateNode(0); dup(o, n); n->h = o->h; *last = n; last = &n->next; }
    *last = (Node *)d; return d;
}
void QHashData::free_helper(void (*del)(Node *)) { if (del && numBuckets) { Node *n = buckets[0]; while (n != (Node *)this) { Node *x = n->next; del(n); freeNode(n); n = x; } } if (numBuckets) delete[] buckets; delete this; }
void QHashData::rehash(int) {}
QHashData::Node *QHashData::nextNode(Node *n) { return n->next; }
QHashData::Node *QHashData::previousNode(Node *n) { Node *d = n; while (d->next) d = d->next; Node *p = ((QHashData *)d)->buckets[0]; while (p->next != n) p = p->next; return p; }
uint qHash(const QString &, uint) noexcept { return 0; }
uint qHash(const QStringRef &, uint) noexcept { return 0; }
uint qHash(QLatin1String, uint) noexcept { return 0; }
uint qHash(double, uint) noexcept { return 0; }
uint qHashBits(const void *, size_t, uint) noexcept { return 0; }

// ---------------------------------------------------------------- QMapDataBase: unbalanced binary search tree
const QMapDataBase QMapDataBase::shared_null = { Q_REFCOUNT_INITIALIZE_STATIC, 0, { 0, nullptr, nullptr }, nullptr };
const QMapNodeBase *QMapNodeBase::nextNode() const { const QMapNodeBase *n = this; if (n->right) { n = n->right; while (n->left) n = n->left; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->right) { n = y; y = n->parent(); } n = y; } return n; }
const QMapNodeBase *QMapNodeBase::previousNode() const { const QMapNodeBase *n = this; if (n->left) { n = n->left; while (n->right) n = n->right; } else { const QMapNodeBase *y = n->parent(); while (y && n == y->left) { n = y; y = n->parent(); } n = y; } return n; }
void QMapDataBase::recalcMostLeftNode() { mostLeftNode = &header; while (mostLeftNode->left) mostLeftNode = mostLeftNode->left; }
QMapNodeBase *QMapDataBase::createNode(int alloc, int, QMapNodeBase *parent, bool left)
{
    QMapNodeBase *n = (QMapNodeBase *)malloc(alloc); memset((void *)n, 0, alloc); ++size;
    if (parent) { if (left) { parent->left = n; if (parent == mostLeftNode) mostLeftNode = n; } else parent->right = n; n->setParent(parent); }
    return n;
}
void QMapDataBase::rebalance(QMapNodeBase *) {}
void QMapDataBase::freeNodeAndRebalance(QMapNodeBase *z)
{
    auto repl = [&](QMapNodeBase *o, QMapNodeBase *n) { QMapNodeBase *p = o->parent(); if (p->left == o) p->left = n; else p->right = n; if (n) n->setParent(p); };
    bool ml = z == mostLeftNode;
    if (!z->left) repl(z, z->right); else if (!z->right) repl(z, z->left);
    else { QMapNodeBase *y = z->right; while (y->left) y = y->left; if (y->parent() != z) { repl(y, y->right); y->right = z->right; y->right->setParent(y); } repl(z, y); y->left = z->left; y->left->setParent(y); }
    if (ml) recalcMostLeftNode();
    free(z); --size;
}
void QMapDataBase::freeTree(QMapNodeBase *root, int a) { if (root->left) freeTree(root->left, a); if (root->right) freeTree(root->right, a); free(root); }
QMapDataBase *QMapDataBase::createData() { QMapDataBase *d = new QMapDataBase; d->ref.initializeOwned(); d->size = 0; d->header.p = 0; d->header.left = nullptr; d->header.right = nullptr; d->mostLeftNode = &d->header; return d; }
void QMapDataBase::freeData(QMapDataBase *d) { delete d; }
QT_END_NAMESPACE
