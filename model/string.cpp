// QtCore model: QString and friends.
#include "m.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
QT_BEGIN_NAMESPACE
bool m_parseInt(const char *p, int n, int base, bool allowNeg, quint64 &mag, bool &neg);
bool m_parseDouble(const QByteArray &a, double &d);
QByteArray m_fmt(quint64 m, bool neg, int base);

static QStringData *newS(int n) { QStringData *d = QStringData::allocate(uint(n) + 1u); d->size = n; d->data()[n] = 0; return d; }
const QString::Null QString::null = {};
QString::QString(const QChar *u, int n)
{
    if (!u) { d = Data::sharedNull(); return; }
    if (n < 0) { n = 0; while (u[n].unicode()) n++; }
    if (!n) d = Data::allocate(0); else { d = newS(n); memcpy(d->data(), u, n * 2); }
}
QString::QString(int n, QChar c) { if (n <= 0) d = Data::allocate(0); else { d = newS(n); for (int i = 0; i < n; i++) d->data()[i] = c.unicode(); } }
QString::QString(int n, Qt::Initialization) { if (n <= 0) d = Data::allocate(0); else d = newS(n); }
QString::QString(QChar c) { d = newS(1); d->data()[0] = c.unicode(); }
QString &QString::operator=(const QString &o) noexcept { o.d->ref.ref(); if (!d->ref.deref()) Data::deallocate(d); d = o.d; return *this; }
QString &QString::operator=(QLatin1String s) { return *this = QString(s); }
QString &QString::operator=(QChar c) { return *this = QString(c); }
void QString::reallocData(uint alloc, bool grow)
{
    QArrayData::AllocationOptions o = d->detachFlags() | (grow ? QArrayData::Grow : QArrayData::Default);
    if (d->ref.isShared() || !d->isMutable() || d->offset != (qptrdiff)sizeof(QArrayData)) { Data *x = Data::allocate(alloc, o); x->size = qMin(int(alloc) - 1, d->size); if (x->size > 0) memcpy(x->data(), d->data(), x->size * 2); x->data()[x->size] = 0; if (!d->ref.deref()) Data::deallocate(d); d = x; }
    else d = Data::reallocateUnaligned(d, alloc, o);
}
void QString::resize(int n)
{
    if (n < 0) n = 0;
    if (n == 0 && !d->capacityReserved) { Data *x = Data::allocate(0); if (!d->ref.deref()) Data::deallocate(d); d = x; return; }
    if (d->ref.isShared() || uint(n) + 1u > d->alloc) reallocData(uint(n) + 1u, true);
    if (d->alloc) { d->size = n; d->data()[n] = 0; }
}
void QString::resize(int n, QChar f) { int o = size(); resize(n); for (int i = o; i < n; i++) d->data()[i] = f.unicode(); }
void QString::expand(int i) { resize(qMax(i + 1, d->size), QLatin1Char(' ')); }
QString &QString::fill(QChar c, int n) { resize(n < 0 ? d->size : n); for (int i = 0; i < d->size; i++) d->data()[i] = c.unicode(); return *this; }
void QString::truncate(int p) { if (p < d->size) resize(p); }
void QString::chop(int n) { if (n > 0) resize(d->size - n); }
QString &QString::append(const QChar *u, int n)
{
    if (!u || n <= 0) return *this;
    QString keep; if (u >= constData() && u <= constData() + d->size) keep = *this;
    if (d->ref.isShared() || uint(d->size + n) + 1u > d->alloc) reallocData(uint(d->size + n) + 1u, true);
    memcpy(d->data() + d->size, u, n * 2); d->size += n; d->data()[d->size] = 0; return *this;
}
QString &QString::append(const QString &s) { if (s.d == Data::sharedNull()) return *this; if (d == Data::sharedNull()) { *this = s; return *this; } QString k(s); return append(k.constData(), k.size()); }
QString &QString::append(const QStringRef &s) { return append(s.toString()); }
QString &QString::append(QLatin1String s) { return append(QString(s)); }
QString &QString::append(QChar c) { return append(&c, 1); }
QString &QString::insert(int i, const QChar *u, int n)
{
    if (i < 0 || n <= 0) return *this;
    QString t(u, n), r = left(i); while (r.size() < i) r.append(QLatin1Char(' ')); r.append(t); if (i < size()) r.append(constData() + i, size() - i); return *this = r;
}
QString &QString::insert(int i, QChar c) { return insert(i, &c, 1); }
QString &QString::insert(int i, QLatin1String s) { return insert(i, QString(s)); }
QString &QString::remove(int p, int n) { if (p < 0) p += size(); if (uint(p) >= uint(size()) || n <= 0) return *this; QString r = left(p); if (n < size() - p) r.append(constData() + p + n, size() - p - n); return *this = r; }
static ushort low(ushort c) { return (c >= 'A' && c <= 'Z') || (c >= 0xc0 && c <= 0xde && c != 0xd7) ? c + 32 : c; }
static int cmpU(const ushort *a, qsizetype la, const ushort *b, qsizetype lb, Qt::CaseSensitivity cs) { qsizetype n = qMin(la, lb); for (qsizetype i = 0; i < n; i++) { int d = cs == Qt::CaseSensitive ? (int)a[i] - (int)b[i] : (int)low(a[i]) - (int)low(b[i]); if (d) return d; } return la == lb ? 0 : la < lb ? -1 : 1; }
static bool eqU(const ushort *a, qsizetype la, const ushort *b, qsizetype lb, Qt::CaseSensitivity cs) { if (la != lb) return false; if (cs == Qt::CaseSensitive) return !la || !memcmp(a, b, la * 2); return !cmpU(a, la, b, lb, cs); }
static qsizetype findU(const ushort *a, qsizetype la, qsizetype from, const ushort *b, qsizetype lb, Qt::CaseSensitivity cs) { if (from < 0) from = qMax<qsizetype>(from + la, 0); for (qsizetype i = from; i + lb <= la; i++) if (eqU(a + i, lb, b, lb, cs)) return i; return -1; }
static qsizetype rfindU(const ushort *a, qsizetype la, qsizetype from, const ushort *b, qsizetype lb, Qt::CaseSensitivity cs) { if (from < 0) from += la; qsizetype dl = la - lb; if (from > dl) from = dl; for (qsizetype i = from; i >= 0; i--) if (eqU(a + i, lb, b, lb, cs)) return i; return -1; }
#define U(s) ((const ushort *)(s).constData()), (s).size()
#define V(s) (const ushort *)(s).utf16(), (s).size()
bool operator==(const QString &a, const QString &b) noexcept { return eqU(U(a), U(b), Qt::CaseSensitive); }
bool operator<(const QString &a, const QString &b) noexcept { return cmpU(U(a), U(b), Qt::CaseSensitive) < 0; }
bool QString::operator==(QLatin1String s) const noexcept { return *this == QString(s); }
bool QString::operator<(QLatin1String s) const noexcept { return *this < QString(s); }
bool QString::operator>(QLatin1String s) const noexcept { return QString(s) < *this; }
int QString::compare(const QString &o, Qt::CaseSensitivity cs) const noexcept { return cmpU(U(*this), U(o), cs); }
int QString::compare(QLatin1String o, Qt::CaseSensitivity cs) const noexcept { return compare(QString(o), cs); }
int QString::compare_helper(const QChar *a, int la, const QChar *b, int lb, Qt::CaseSensitivity cs) noexcept { return cmpU((const ushort *)a, la, (const ushort *)b, lb, cs); }
int QString::compare_helper(const QChar *a, int la, const char *b, int lb, Qt::CaseSensitivity cs)
{
    if (!b) return la; if (lb < 0) lb = strlen(b); QString s = QString::fromUtf8(b, lb); return cmpU((const ushort *)a, la, U(s), cs);
}
int QString::compare_helper(const QChar *a, int la, QLatin1String b, Qt::CaseSensitivity cs) noexcept { QString s(b); return cmpU((const ushort *)a, la, U(s), cs); }
int QString::localeAwareCompare(const QString &o) const { return compare(o); }
int QtPrivate::compareStrings(QStringView a, QStringView b, Qt::CaseSensitivity cs) noexcept { return cmpU(V(a), V(b), cs); }
int QtPrivate::compareStrings(QStringView a, QLatin1String b, Qt::CaseSensitivity cs) noexcept { QString s(b); return cmpU(V(a), U(s), cs); }
int QtPrivate::compareStrings(QLatin1String a, QStringView b, Qt::CaseSensitivity cs) noexcept { return -compareStrings(b, a, cs); }
int QtPrivate::compareStrings(QLatin1String a, QLatin1String b, Qt::CaseSensitivity cs) noexcept { return QString(a).compare(QString(b), cs); }
bool QtPrivate::startsWith(QStringView h, QStringView n, Qt::CaseSensitivity cs) noexcept { return h.size() >= n.size() && eqU((const ushort *)h.utf16(), n.size(), V(n), cs); }
bool QtPrivate::startsWith(QStringView h, QLatin1String n, Qt::CaseSensitivity cs) noexcept { return QString(h.data(), h.size()).startsWith(QString(n), cs); }
bool QtPrivate::endsWith(QStringView h, QStringView n, Qt::CaseSensitivity cs) noexcept { return h.size() >= n.size() && eqU((const ushort *)h.utf16() + h.size() - n.size(), n.size(), V(n), cs); }
bool QtPrivate::endsWith(QStringView h, QLatin1String n, Qt::CaseSensitivity cs) noexcept { return QString(h.data(), h.size()).endsWith(QString(n), cs); }
qsizetype QtPrivate::findString(QStringView h, qsizetype f, QStringView n, Qt::CaseSensitivity cs) noexcept { return findU(V(h), f, V(n), cs); }
qsizetype QtPrivate::findString(QStringView h, qsizetype f, QLatin1String n, Qt::CaseSensitivity cs) noexcept { QString s(n); return findU(V(h), f, U(s), cs); }
qsizetype QtPrivate::lastIndexOf(QStringView h, qsizetype f, QStringView n, Qt::CaseSensitivity cs) noexcept { return rfindU(V(h), f, V(n), cs); }
qsizetype QtPrivate::qustrlen(const ushort *s) noexcept { qsizetype n = 0; while (s[n]) n++; return n; }
QStringView QtPrivate::trimmed(QStringView s) noexcept { qsizetype b = 0, e = s.size(); while (b < e && s[b].isSpace()) b++; while (e > b && s[e - 1].isSpace()) e--; return QStringView(s.data() + b, e - b); }
int QString::indexOf(QChar c, int f, Qt::CaseSensitivity cs) const { ushort u = c.unicode(); return findU(U(*this), f, &u, 1, cs); }
int QString::indexOf(const QString &s, int f, Qt::CaseSensitivity cs) const { return findU(U(*this), f, U(s), cs); }
int QString::indexOf(QLatin1String s, int f, Qt::CaseSensitivity cs) const { return indexOf(QString(s), f, cs); }
int QString::lastIndexOf(QChar c, int f, Qt::CaseSensitivity cs) const { ushort u = c.unicode(); return rfindU(U(*this), f, &u, 1, cs); }
int QString::lastIndexOf(const QString &s, int f, Qt::CaseSensitivity cs) const { return rfindU(U(*this), f, U(s), cs); }
int QString::lastIndexOf(QLatin1String s, int f, Qt::CaseSensitivity cs) const { return lastIndexOf(QString(s), f, cs); }
int QString::count(QChar c, Qt::CaseSensitivity cs) const { int n = 0, i = -1; while ((i = indexOf(c, i + 1, cs)) != -1) n++; return n; }
int QString::count(const QString &s, Qt::CaseSensitivity cs) const { int n = 0, i = -1; while ((i = indexOf(s, i + 1, cs)) != -1) n++; return n; }
bool QString::startsWith(const QString &s, Qt::CaseSensitivity cs) const { return size() >= s.size() && eqU((const ushort *)constData(), s.size(), U(s), cs); }
bool QString::startsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return startsWith(QString(s), cs); }
bool QString::startsWith(QChar c, Qt::CaseSensitivity cs) const { return startsWith(QString(c), cs); }
bool QString::startsWith(const QStringRef &s, Qt::CaseSensitivity cs) const { return startsWith(s.toString(), cs); }
bool QString::endsWith(const QString &s, Qt::CaseSensitivity cs) const { return size() >= s.size() && eqU((const ushort *)constData() + size() - s.size(), s.size(), U(s), cs); }
bool QString::endsWith(QLatin1String s, Qt::CaseSensitivity cs) const { return endsWith(QString(s), cs); }
bool QString::endsWith(QChar c, Qt::CaseSensitivity cs) const { return endsWith(QString(c), cs); }
bool QString::endsWith(const QStringRef &s, Qt::CaseSensitivity cs) const { return endsWith(s.toString(), cs); }
QString QString::left(int n) const { if (uint(n) >= uint(size())) return *this; return QString(constData(), n); }
QString QString::right(int n) const { if (uint(n) >= uint(size())) return *this; return QString(constData() + size() - n, n); }
QString QString::mid(int p, int n) const
{
    if (p > size()) return QString();
    if (p < 0) { if (n < 0 || n + p >= size()) return *this; if (n + p <= 0) return QString(); n += p; p = 0; } else if (uint(n) > uint(size() - p)) n = size() - p;
    if (p == 0 && n == size()) return *this; return QString(constData() + p, n);
}
QStringRef QString::leftRef(int n) const { return QStringRef(this, 0, uint(n) >= uint(size()) ? size() : n); }
QStringRef QString::midRef(int p, int n) const { if (p > size()) return QStringRef(); if (p < 0) p = 0; if (uint(n) > uint(size() - p)) n = size() - p; return QStringRef(this, p, n); }
QStringRef QString::rightRef(int n) const { return uint(n) >= uint(size()) ? QStringRef(this, 0, size()) : QStringRef(this, size() - n, n); }
QString QStringRef::toString() const { if (!m_string) return QString(); if (m_size && m_position == 0 && m_size == m_string->size()) return *m_string; return QString(m_string->constData() + m_position, m_size); }
bool operator==(const QStringRef &a, const QStringRef &b) noexcept { return a.toString() == b.toString(); }
bool operator==(const QString &a, const QStringRef &b) noexcept { return a == b.toString(); }
bool operator==(QLatin1String a, const QStringRef &b) noexcept { return b.toString() == a; }
bool operator<(const QStringRef &a, const QStringRef &b) noexcept { return a.toString() < b.toString(); }
QString QString::toLower_helper(const QString &s) { QString r(s.constData(), s.size()); for (int i = 0; i < r.size(); i++) r.d->data()[i] = low(r.d->data()[i]); return r; }
QString QString::toLower_helper(QString &s) { return toLower_helper((const QString &)s); }
QString QString::toUpper_helper(const QString &s) { QString r(s.constData(), s.size()); for (int i = 0; i < r.size(); i++) { ushort c = r.d->data()[i]; if ((c >= 'a' && c <= 'z') || (c >= 0xe0 && c <= 0xfe && c != 0xf7)) r.d->data()[i] = c - 32; } return r; }
QString QString::toUpper_helper(QString &s) { return toUpper_helper((const QString &)s); }
QString QString::toCaseFolded_helper(const QString &s) { return toLower_helper(s); }
QString QString::toCaseFolded_helper(QString &s) { return toLower_helper(s); }
QString QString::trimmed_helper(const QString &s) { int b = 0, e = s.size(); while (b < e && s.at(b).isSpace()) b++; while (e > b && s.at(e - 1).isSpace()) e--; if (!b && e == s.size()) return s; return QString(s.constData() + b, e - b); }
QString QString::trimmed_helper(QString &s) { return trimmed_helper((const QString &)s); }
QString QString::simplified_helper(const QString &s) { QString r; bool sp = false; for (int i = 0; i < s.size(); i++) { if (s.at(i).isSpace()) sp = true; else { if (sp && r.size()) r.append(QLatin1Char(' ')); sp = false; r.append(s.at(i)); } } return r; }
QString QString::simplified_helper(QString &s) { return simplified_helper((const QString &)s); }
QString QString::leftJustified(int w, QChar f, bool t) const { QString r(*this); while (r.size() < w) r.append(f); if (t && r.size() > w) r.resize(w); return r; }
QString QString::rightJustified(int w, QChar f, bool t) const { QString r; for (int i = size(); i < w; i++) r.append(f); r.append(*this); if (t && r.size() > w) r.resize(w); return r; }
QString QString::repeated(int n) const { QString r; while (n-- > 0) r.append(*this); return r; }
bool QString::isUpper() const { return *this == toUpper_helper(*this); }
bool QString::isLower() const { return *this == toLower_helper(*this); }
QString &QString::replace(int p, int n, const QChar *u, int m) { QString t(u, m); remove(p, n); return insert(p, t.constData(), t.size()); }
QString &QString::replace(int p, int n, const QString &a) { return replace(p, n, a.constData(), a.size()); }
QString &QString::replace(int p, int n, QChar c) { return replace(p, n, &c, 1); }
QString &QString::replace(const QString &b, const QString &a, Qt::CaseSensitivity cs)
{
    if (b.isEmpty()) MODEL_TODO("replace of an empty string");
    QString r; int from = 0; bool any = false;
    for (;;) { int i = indexOf(b, from, cs); if (i < 0) break; any = true; r.append(constData() + from, i - from); r.append(a); from = i + b.size(); }
    if (!any) return *this; r.append(constData() + from, size() - from); return *this = r;
}
QString &QString::replace(QChar b, QChar a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QChar b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(QLatin1String b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::replace(QLatin1String b, const QString &a, Qt::CaseSensitivity cs) { return replace(QString(b), a, cs); }
QString &QString::replace(const QString &b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(b, QString(a), cs); }
QString &QString::replace(QChar b, QLatin1String a, Qt::CaseSensitivity cs) { return replace(QString(b), QString(a), cs); }
QString &QString::remove(const QString &s, Qt::CaseSensitivity cs) { if (s.size()) { int i = 0; while ((i = indexOf(s, i, cs)) != -1) remove(i, s.size()); } return *this; }
QString &QString::remove(QChar c, Qt::CaseSensitivity cs) { return remove(QString(c), cs); }
QString &QString::remove(QLatin1String s, Qt::CaseSensitivity cs) { return remove(QString(s), cs); }
static QStringList splitS(const QString &s, const QString &sep, bool keep, Qt::CaseSensitivity cs)
{
    QStringList l; int st = 0, ex = 0, e;
    while ((e = s.indexOf(sep, st + ex, cs)) != -1) { if (st != e || keep) l.append(s.mid(st, e - st)); st = e + sep.size(); ex = sep.size() == 0 ? 1 : 0; }
    if (st != s.size() || keep) l.append(s.mid(st)); return l;
}
QStringList QString::split(const QString &sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { return splitS(*this, sep, b == Qt::KeepEmptyParts, cs); }
QStringList QString::split(QChar sep, Qt::SplitBehavior b, Qt::CaseSensitivity cs) const { return splitS(*this, QString(sep), b == Qt::KeepEmptyParts, cs); }
QStringList QString::split(const QString &sep, SplitBehavior b, Qt::CaseSensitivity cs) const { return splitS(*this, sep, b == KeepEmptyParts, cs); }
QStringList QString::split(QChar sep, SplitBehavior b, Qt::CaseSensitivity cs) const { return splitS(*this, QString(sep), b == KeepEmptyParts, cs); }
QString QString::section(const QString &sep, int start, int end, SectionFlags fl) const
{
    if (fl != SectionDefault) MODEL_TODO("QString::section flags");
    QStringList l = splitS(*this, sep, true, Qt::CaseSensitive); int n = l.size(); if (start < 0) start += n; if (end < 0) end += n; QString r; bool first = true;
    for (int i = qMax(start, 0); i <= end && i < n; i++) { if (!first) r += sep; r += l.at(i); first = false; } return r;
}
const ushort *QString::utf16() const { return (const ushort *)constData(); }
QString QString::fromUtf16(const ushort *u, int n) { return QString((const QChar *)u, n); }
QString QString::fromRawData(const QChar *u, int n) { return QString(u, n); }
QString &QString::setUnicode(const QChar *u, int n) { return *this = QString(u, n); }
QString &QString::setRawData(const QChar *u, int n) { return *this = QString(u, n); }
bool QString::isSimpleText() const { return true; }
// ---- UTF-8, Latin-1
static void utf8(const char *p, int n, QString &r)
{
    const uchar *s = (const uchar *)p; int i = 0;
    if (n >= 3 && s[0] == 0xef && s[1] == 0xbb && s[2] == 0xbf) i = 3;
    r.reserve(n);
    auto put = [&](uint u) { if (u >= 0x10000) { r.append(QChar(QChar::highSurrogate(u))); r.append(QChar(QChar::lowSurrogate(u))); } else r.append(QChar(ushort(u))); };
    while (i < n) {
        uchar b = s[i++];
        if (b < 0x80) { put(b); continue; }
        int need; uint u, mn;
        if (b <= 0xc1) { put(0xfffd); continue; }
        else if (b < 0xe0) { need = 1; u = b & 0x1f; mn = 0x80; } else if (b < 0xf0) { need = 2; u = b & 0xf; mn = 0x800; } else if (b < 0xf5) { need = 3; u = b & 7; mn = 0x10000; } else { put(0xfffd); continue; }
        if (i + need > n) { put(0xfffd); continue; }
        bool ok = true; for (int k = 0; k < need; k++) { if ((s[i + k] & 0xc0) != 0x80) { ok = false; break; } u = (u << 6) | (s[i + k] & 0x3f); }
        if (!ok || u < mn || u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) { put(0xfffd); continue; }
        i += need; put(u);
    }
}
QString QString::fromUtf8_helper(const char *p, int n) { if (!p) return QString(); QString r; if (n > 0) utf8(p, n, r); if (r.isEmpty()) { QStringDataPtr e = { Data::allocate(0) }; return QString(e); } return r; }
QString QString::fromLocal8Bit_helper(const char *p, int n) { return fromUtf8_helper(p, n); }
QStringData *QString::fromAscii_helper(const char *p, int n) { if (!p) return Data::sharedNull(); if (n < 0) n = strlen(p); QString r = fromUtf8_helper(p, n); r.d->ref.ref(); return r.d; }
QStringData *QString::fromLatin1_helper(const char *p, int n) { if (!p) return Data::sharedNull(); if (n < 0) n = strlen(p); if (!n) return Data::allocate(0); Data *d = newS(n); for (int i = 0; i < n; i++) d->data()[i] = (uchar)p[i]; return d; }
QByteArray QString::toUtf8_helper(const QString &s)
{
    if (s.isNull()) return QByteArray(); if (s.isEmpty()) return QByteArray("", 0);
    QByteArray r; r.reserve(s.size() * 3); const ushort *p = (const ushort *)s.constData(); int n = s.size();
    for (int i = 0; i < n; i++) {
        uint u = p[i];
        if (u < 0x80) { r.append((char)u); continue; }
        if (u < 0x800) { r.append((char)(0xc0 | u >> 6)); r.append((char)(0x80 | (u & 0x3f))); continue; }
        if (u >= 0xd800 && u <= 0xdfff) { if (u < 0xdc00 && i + 1 < n && p[i + 1] >= 0xdc00 && p[i + 1] <= 0xdfff) { u = QChar::surrogateToUcs4(u, p[++i]); r.append((char)(0xf0 | u >> 18)); r.append((char)(0x80 | (u >> 12 & 0x3f))); r.append((char)(0x80 | (u >> 6 & 0x3f))); r.append((char)(0x80 | (u & 0x3f))); } else r.append('?'); continue; }
        r.append((char)(0xe0 | u >> 12)); r.append((char)(0x80 | (u >> 6 & 0x3f))); r.append((char)(0x80 | (u & 0x3f)));
    }
    return r;
}
QByteArray QString::toLocal8Bit_helper(const QChar *u, int n) { return toUtf8_helper(QString(u, n)); }
QByteArray QString::toLatin1_helper(const QString &s) { if (s.isNull()) return QByteArray(); QByteArray r(s.size(), Qt::Uninitialized); char *q = r.data(); for (int i = 0; i < s.size(); i++) { ushort u = s.at(i).unicode(); q[i] = u > 255 ? '?' : (char)u; } return r; }
QByteArray QString::toLatin1_helper_inplace(QString &s) { return toLatin1_helper(s); }
// ---- numbers
static QByteArray lat(const QString &s) { return s.toUtf8(); }
#define NUM(T, name) T QString::name(bool *ok, int base) const { QByteArray a = lat(*this); return a.name(ok, base); }
NUM(short, toShort) NUM(ushort, toUShort) NUM(int, toInt) NUM(uint, toUInt) NUM(long, toLong) NUM(ulong, toULong) NUM(qlonglong, toLongLong) NUM(qulonglong, toULongLong)
double QString::toDouble(bool *ok) const { return lat(*this).toDouble(ok); }
float QString::toFloat(bool *ok) const { return (float)toDouble(ok); }
static QString fl(const QByteArray &a) { return QString::fromLatin1(a); }
QString QString::number(int v, int b) { return fl(QByteArray::number(v, b)); }
QString QString::number(uint v, int b) { return fl(QByteArray::number(v, b)); }
QString QString::number(long v, int b) { return fl(QByteArray::number((qlonglong)v, b)); }
QString QString::number(ulong v, int b) { return fl(QByteArray::number((qulonglong)v, b)); }
QString QString::number(qlonglong v, int b) { return fl(QByteArray::number(v, b)); }
QString QString::number(qulonglong v, int b) { return fl(QByteArray::number(v, b)); }
QString QString::number(double v, char f, int p) { return fl(QByteArray::number(v, f, p)); }
QString &QString::setNum(qlonglong v, int b) { return *this = number(v, b); }
QString &QString::setNum(qulonglong v, int b) { return *this = number(v, b); }
QString &QString::setNum(double v, char f, int p) { return *this = number(v, f, p); }
// ---- arg(): replaces all occurrences of the lowest numbered place marker
static QString pad(const QString &s, int w, QChar f) { if (w > 0) return s.rightJustified(w, f); if (w < 0) return s.leftJustified(-w, f); return s; }
static int marker(const QString &p, int i, int &len) { int j = i + 1; if (j < p.size() && p.at(j) == QLatin1Char('L')) j++; if (j >= p.size() || p.at(j) < QLatin1Char('0') || p.at(j) > QLatin1Char('9')) return -1; int v = p.at(j).unicode() - '0'; j++; if (j < p.size() && p.at(j) >= QLatin1Char('0') && p.at(j) <= QLatin1Char('9')) { v = v * 10 + p.at(j).unicode() - '0'; j++; } len = j - i; return v; }
static QString doArg(const QString &p, const QString &a)
{
    int lowest = -1, len; for (int i = 0; i < p.size(); i++) if (p.at(i) == QLatin1Char('%')) { int v = marker(p, i, len); if (v >= 0 && (lowest < 0 || v < lowest)) lowest = v; }
    if (lowest < 0) return p; QString r;
    for (int i = 0; i < p.size();) { if (p.at(i) == QLatin1Char('%')) { int v = marker(p, i, len); if (v == lowest) { r += a; i += len; continue; } } r += p.at(i++); } return r;
}
QString QString::arg(const QString &a, int w, QChar f) const { return doArg(*this, pad(a, w, f)); }
QString QString::arg(QStringView a, int w, QChar f) const { return doArg(*this, pad(QString(a.data(), a.size()), w, f)); }
QString QString::arg(QLatin1String a, int w, QChar f) const { return doArg(*this, pad(QString(a), w, f)); }
static QString numArg(QString n, int w, QChar f) { if (f == QLatin1Char('0') && w > n.size()) { bool neg = n.startsWith(QLatin1Char('-')); if (neg) n = n.mid(1); while (n.size() + neg < w) n.prepend(QLatin1Char('0')); if (neg) n.prepend(QLatin1Char('-')); return n; } return pad(n, w, f); }
QString QString::arg(qlonglong a, int w, int b, QChar f) const { return doArg(*this, numArg(number(a, b), w, f)); }
QString QString::arg(qulonglong a, int w, int b, QChar f) const { return doArg(*this, numArg(number(a, b), w, f)); }
QString QString::arg(double a, int w, char fm, int p, QChar f) const { return doArg(*this, numArg(number(a, fm, p < 0 ? 6 : p), w, f)); }
QString QString::arg(char a, int w, QChar f) const { return doArg(*this, pad(QString(QChar::fromLatin1(a)), w, f)); }
QString QString::arg(QChar a, int w, QChar f) const { return doArg(*this, pad(QString(a), w, f)); }
static QString multi(const QString &p, const QString *const *a, int n)
{
    // marker numbers in ascending order take the arguments in order
    QList<int> nums; int len; for (int i = 0; i < p.size(); i++) if (p.at(i) == QLatin1Char('%')) { int v = marker(p, i, len); if (v >= 0 && !nums.contains(v)) { int k = 0; while (k < nums.size() && nums.at(k) < v) k++; nums.insert(k, v); } }
    QString r; for (int i = 0; i < p.size();) { if (p.at(i) == QLatin1Char('%')) { int v = marker(p, i, len); int k = v >= 0 ? nums.indexOf(v) : -1; if (k >= 0 && k < n) { r += *a[k]; i += len; continue; } } r += p.at(i++); } return r;
}
QString QtPrivate::argToQString(QStringView p, size_t n, const ArgBase **args)
{
    QString s[10]; const QString *q[10]; for (size_t i = 0; i < n && i < 10; i++) { switch (args[i]->tag) { case ArgBase::L1: { QLatin1String l = static_cast<const QLatin1StringArg *>(args[i])->string; s[i] = QString(l); break; } case ArgBase::U16: { QStringView v = static_cast<const QStringViewArg *>(args[i])->string; s[i] = QString(v.data(), v.size()); break; } default: MODEL_TODO("argToQString"); } q[i] = &s[i]; }
    return multi(QString(p.data(), p.size()), q, n);
}
QString QtPrivate::argToQString(QLatin1String p, size_t n, const ArgBase **args) { QString s(p); return argToQString(QStringView(s), n, args); }
// ---- QStringList helpers
bool QtPrivate::QStringList_contains(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { for (int i = 0; i < l->size(); i++) if (!l->at(i).compare(s, cs)) return true; return false; }
QString QtPrivate::QStringList_join(const QStringList *l, const QChar *s, int n) { QString r; for (int i = 0; i < l->size(); i++) { if (i) r.append(s, n); r.append(l->at(i)); } if (l->size() && r.isNull()) r = QString::fromLatin1(""); return r; }
bool QtPrivate::QStringList_contains(const QStringList *l, QStringView s, Qt::CaseSensitivity cs) { return QStringList_contains(l, s.toString(), cs); }
bool QtPrivate::QStringList_contains(const QStringList *l, QLatin1String s, Qt::CaseSensitivity cs) { return QStringList_contains(l, QString(s), cs); }
QByteArray QtPrivate::QByteArrayList_join(const QByteArrayList *l, const char *s, int n) { QByteArray r; for (int i = 0; i < l->size(); i++) { if (i) r.append(s, n); r.append(l->at(i)); } return r; }
QtPrivate::QContainerImplHelper::CutResult QtPrivate::QContainerImplHelper::mid(int n, int *pos, int *len)
{
    int &p = *pos, &c = *len; if (p > n) { p = 0; c = 0; return Null; }
    if (p < 0) { if (c < 0 || c + p >= n) { p = 0; c = n; return Full; } if (c + p <= 0) { p = c = 0; return Null; } c += p; p = 0; } else if (uint(c) > uint(n - p)) c = n - p;
    if (p == 0 && c == n) return Full; return c > 0 ? Subset : Empty;
}
QByteArray QByteArray::toBase64() const { return toBase64(Base64Encoding); }
QByteArray QByteArray::toBase64(Base64Options o) const
{
    const char *t = o & Base64UrlEncoding ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; QByteArray r;
    for (int i = 0; i < size(); i += 3) { uint x = 0; int n = qMin(3, size() - i); for (int k = 0; k < 3; k++) x = x << 8 | (k < n ? uchar(at(i + k)) : 0); for (int k = 0; k < 4; k++) { if (k <= n) r.append(t[x >> (18 - 6 * k) & 63]); else if (!(o & OmitTrailingEquals)) r.append('='); } }
    return r;
}
QString QtPrivate::QStringList_join(const QStringList &l, QLatin1String s) { QString t(s); return QStringList_join(&l, t.constData(), t.size()); }
void QtPrivate::QStringList_sort(QStringList *l, Qt::CaseSensitivity cs) { for (int i = 1; i < l->size(); i++) for (int j = i; j > 0 && l->at(j).compare(l->at(j - 1), cs) < 0; j--) l->swapItemsAt(j, j - 1); }
QStringList QtPrivate::QStringList_filter(const QStringList *l, const QString &s, Qt::CaseSensitivity cs) { QStringList r; for (int i = 0; i < l->size(); i++) if (l->at(i).contains(s, cs)) r << l->at(i); return r; }
int QtPrivate::QStringList_removeDuplicates(QStringList *l) { int n = l->size(); for (int i = 0; i < l->size(); i++) for (int j = l->size() - 1; j > i; j--) if (l->at(j) == l->at(i)) l->removeAt(j); return n - l->size(); }
void QtPrivate::QStringList_replaceInStrings(QStringList *l, const QString &b, const QString &a, Qt::CaseSensitivity cs) { for (int i = 0; i < l->size(); i++) (*l)[i].replace(b, a, cs); }
// ---- QChar (Latin-1 range)
QChar::Category QChar::category(uint) noexcept { return QChar::Letter_Lowercase; }
bool QChar::isLetter_helper(uint u) noexcept { return u >= 0xc0 && u != 0xd7 && u != 0xf7; }
bool QChar::isNumber_helper(uint) noexcept { return false; }
bool QChar::isLetterOrNumber_helper(uint u) noexcept { return isLetter_helper(u); }
bool QChar::isSpace_helper(uint u) noexcept { return u == 0x3000 || u == 0x2028 || u == 0x2029 || (u >= 0x2000 && u <= 0x200a); }
bool QChar::isPrint(uint u) noexcept { return u >= 32 && u != 127; }
bool QChar::isPunct(uint u) noexcept { return (u >= 33 && u <= 47) || (u >= 58 && u <= 64) || (u >= 91 && u <= 96 && u != 94 && u != 96) || u == 123 || u == 125; }
uint QChar::toLower(uint u) noexcept { return u < 256 ? low(u) : u; }
uint QChar::toUpper(uint u) noexcept { return u >= 'a' && u <= 'z' ? u - 32 : u; }
int QChar::digitValue(uint u) noexcept { return u >= '0' && u <= '9' ? (int)u - '0' : -1; }
// ---- QRegularExpression: literals, '.', classes, \d \w \s, '^', '$', '*', '+', '?' (no groups, no alternation)
struct QRegularExpressionPrivate : QSharedData { QString p; int opts; };
QRegularExpression::QRegularExpression() : d(new QRegularExpressionPrivate) { d->opts = 0; }
QRegularExpression::QRegularExpression(const QString &p, PatternOptions o) : d(new QRegularExpressionPrivate) { d->p = p; d->opts = o; }
QRegularExpression::QRegularExpression(const QRegularExpression &o) : d(o.d) {}
QRegularExpression &QRegularExpression::operator=(const QRegularExpression &o) { d = o.d; return *this; }
QRegularExpression::~QRegularExpression() {}
QString QRegularExpression::pattern() const { return d->p; }
bool QRegularExpression::isValid() const { return true; }
struct Re {
    const QString &p; const QString &s; bool ci;
    ushort P(int i) { return p.at(i).unicode(); }
    int atomEnd(int i) { if (P(i) == '\\') return i + 2; if (P(i) == '[') { int j = i + 1; if (j < p.size() && P(j) == '^') j++; if (j < p.size() && P(j) == ']') j++; while (j < p.size() && P(j) != ']') j++; return j + 1; } if (P(i) == '(' || P(i) == ')' || P(i) == '|' || P(i) == '{') MODEL_TODO("regular expression syntax"); return i + 1; }
    bool esc(ushort e, ushort c) { switch (e) { case 'd': return c >= '0' && c <= '9'; case 'w': return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; case 's': return c == ' ' || (c >= 9 && c <= 13); case 'n': return c == '\n'; case 't': return c == '\t'; case 'D': case 'W': case 'S': return !esc(e + 32, c); default: return c == e; } }
    bool one(int i, int e, ushort c)
    {
        if (ci && c >= 'A' && c <= 'Z') c += 32;
        if (P(i) == '\\') return esc(P(i + 1), c);
        if (P(i) == '.') return c != '\n';
        if (P(i) == '[') { int j = i + 1; bool neg = false, m = false; if (P(j) == '^') { neg = true; j++; } for (; j < e - 1; j++) { if (P(j) == '\\') { m |= esc(P(++j), c); continue; } if (j + 2 < e - 1 && P(j + 1) == '-') { m |= c >= P(j) && c <= P(j + 2); j += 2; } else m |= c == P(j); } return m != neg; }
        ushort q = P(i); if (ci && q >= 'A' && q <= 'Z') q += 32; return q == c;
    }
    int match(int i, int k)
    {
        if (i >= p.size()) return k;
        if (P(i) == '^') return k == 0 ? match(i + 1, k) : -1;
        if (P(i) == '$' && i + 1 == p.size()) return k == s.size() || (k + 1 == s.size() && s.at(k).unicode() == '\n') ? k : -1;
        int e = atomEnd(i); ushort q = e < p.size() ? P(e) : 0;
        if (q == '*' || q == '+' || q == '?') {
            int mn = q == '+' ? 1 : 0, mx = q == '?' ? 1 : s.size(), n = 0; while (n < mx && k + n < s.size() && one(i, e, s.at(k + n).unicode())) n++;
            for (; n >= mn; n--) { int r = match(e + 1, k + n); if (r >= 0) return r; } return -1;
        }
        return k < s.size() && one(i, e, s.at(k).unicode()) ? match(e, k + 1) : -1;
    }
};
static int reFind(const QString &s, const QRegularExpression &r, int from, int &len) { Re x{ r.d->p, s, (r.d->opts & QRegularExpression::CaseInsensitiveOption) != 0 }; for (int i = from; i <= s.size(); i++) { int e = x.match(0, i); if (e >= 0) { len = e - i; return i; } } return -1; }
bool QString::contains(const QRegularExpression &r) const { int l; return reFind(*this, r, 0, l) >= 0; }
int QString::indexOf(const QRegularExpression &r, int f) const { int l; return reFind(*this, r, f < 0 ? qMax(f + size(), 0) : f, l); }
QString &QString::replace(const QRegularExpression &r, const QString &a)
{
    if (a.contains(QLatin1Char('\\'))) MODEL_TODO("back references"); QString o; int from = 0, l, i; 
    while (from <= size() && (i = reFind(*this, r, from, l)) >= 0) { o.append(constData() + from, i - from); o.append(a); from = i + l; if (!l) { if (i < size()) o.append(at(i)); from = i + 1; } }
    if (from < size()) o.append(constData() + from, size() - from); return *this = o;
}
QStringList QString::split(const QRegularExpression &r, Qt::SplitBehavior b) const { QStringList o; int st = 0, from = 0, l, i; while ((i = reFind(*this, r, from, l)) >= 0 && l) { if (i > st || b == Qt::KeepEmptyParts) o << mid(st, i - st); st = from = i + l; } if (st < size() || b == Qt::KeepEmptyParts) o << mid(st); return o; }
struct QRegularExpressionMatchPrivate : QSharedData { bool m; int pos, len; QString s; };
QRegularExpressionMatch::QRegularExpressionMatch() : d(new QRegularExpressionMatchPrivate) { d->m = false; }
QRegularExpressionMatch::QRegularExpressionMatch(const QRegularExpressionMatch &o) : d(o.d) {}
QRegularExpressionMatch::~QRegularExpressionMatch() {}
bool QRegularExpressionMatch::hasMatch() const { return d->m; }
int QRegularExpressionMatch::capturedStart(int) const { return d->m ? d->pos : -1; }
QString QRegularExpressionMatch::captured(int n) const { if (n) MODEL_TODO("captured groups"); return d->m ? d->s.mid(d->pos, d->len) : QString(); }
QRegularExpressionMatch QRegularExpression::match(const QString &s, int off, MatchType, MatchOptions) const { QRegularExpressionMatch r; r.d->s = s; r.d->pos = reFind(s, *this, off, r.d->len); r.d->m = r.d->pos >= 0; return r; }
QT_END_NAMESPACE
