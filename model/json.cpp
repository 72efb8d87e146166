// QtCore model: QJsonDocument (after the Qt 5.15 parser and writer), stored as a normalised QVariant.
#include "m.h"
#include <QJsonObject>
#include <QJsonArray>
#include <QJsonValue>
#include <string.h>
QT_BEGIN_NAMESPACE
class QJsonDocumentPrivate { public: QVariant v; };
QString QJsonParseError::errorString() const
{
    static const char *const m[] = { "no error occurred", "unterminated object", "missing name separator", "unterminated array", "missing value separator", "illegal value", "invalid termination by number", "illegal number", "invalid escape sequence", "invalid UTF8 string", "unterminated string", "object is missing after a comma", "too deeply nested document", "too large document", "garbage at the end of the document" };
    return QString::fromLatin1(m[error]);
}
namespace {
bool toInt64(double d, qint64 &n) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return false; n = (qint64)d; return (double)n == d; }
struct Parser {
    const char *head, *json, *end; QJsonParseError::ParseError err; int depth;
    bool space() { while (json < end) { char c = *json; if (c != ' ' && c != '\t' && c != '\n' && c != '\r') break; json++; } return json < end; }
    char token() { if (!space()) return 0; char c = *json++; switch (c) { case '[': case ']': case '{': case '}': case ':': case ',': case '"': return c; } return 0; }
    bool fail(QJsonParseError::ParseError e) { err = e; return false; }
    bool object(QVariant &out)
    {
        if (++depth > 1024) return fail(QJsonParseError::DeepNesting);
        QVariantMap m; char t = token();
        while (t == '"') {
            QString k; if (!string(k)) return false;
            if (token() != ':') return fail(QJsonParseError::MissingNameSeparator);
            if (!space()) return fail(QJsonParseError::UnterminatedObject);
            QVariant v; if (!value(v)) return false;
            m.insert(k, v);
            t = token(); if (t != ',') break;
            t = token(); if (t == '}') return fail(QJsonParseError::MissingObject);
        }
        if (t != '}') return fail(QJsonParseError::UnterminatedObject);
        depth--; out = QVariant(m); return true;
    }
    bool array(QVariant &out)
    {
        if (++depth > 1024) return fail(QJsonParseError::DeepNesting);
        QVariantList l;
        if (!space()) return fail(QJsonParseError::UnterminatedArray);
        if (*json == ']') token();
        else for (;;) {
            if (!space()) return fail(QJsonParseError::UnterminatedArray);
            QVariant v; if (!value(v)) return false;
            l.append(v);
            char t = token(); if (t == ']') break;
            if (t != ',') return fail(space() ? QJsonParseError::MissingValueSeparator : QJsonParseError::UnterminatedArray);
        }
        depth--; out = QVariant(l); return true;
    }
    bool word(const char *w, int need) { if (end - json < need) return fail(QJsonParseError::IllegalValue); for (; *w; w++) if (*json++ != *w) return fail(QJsonParseError::IllegalValue); return true; }
    bool value(QVariant &out)
    {
        switch (*json++) {
        case 'n': out = QVariant::fromValue(nullptr); return word("ull", 4);
        case 't': out = QVariant(true); return word("rue", 4);
        case 'f': out = QVariant(false); return word("alse", 5);
        case '"': { QString s; if (!string(s)) return false; out = QVariant(s); return true; }
        case '[': return array(out);
        case '{': return object(out);
        case ',': return fail(QJsonParseError::IllegalValue);
        case '}': case ']': return fail(QJsonParseError::MissingObject);
        default: json--; return number(out);
        }
    }
    bool digit() { return json < end && *json >= '0' && *json <= '9'; }
    bool number(QVariant &out)
    {
        const char *s = json; bool isInt = true;
        if (json < end && *json == '-') json++;
        if (json < end && *json == '0') json++; else while (digit()) json++;
        if (json < end && *json == '.') { json++; while (digit()) { isInt = isInt && *json == '0'; json++; } }
        if (json < end && (*json == 'e' || *json == 'E')) { isInt = false; json++; if (json < end && (*json == '-' || *json == '+')) json++; while (digit()) json++; }
        if (json >= end) return fail(QJsonParseError::TerminationByNumber);
        QByteArray n(s, json - s); bool ok;
        if (isInt) { qlonglong v = n.toLongLong(&ok); if (ok) { out = QVariant(v); return true; } }
        double d = n.toDouble(&ok); if (!ok) return fail(QJsonParseError::IllegalNumber);
        qint64 v; if (toInt64(d, v)) out = QVariant((qlonglong)v); else out = QVariant(d);
        return true;
    }
    bool utf8(uint &ch)
    {
        uchar c = *json; if (c < 0x80) { ch = c; json++; return true; }
        int n; uint min; if (c >= 0xc2 && c <= 0xdf) { n = 1; ch = c & 31; min = 0x80; } else if (c >= 0xe0 && c <= 0xef) { n = 2; ch = c & 15; min = 0x800; } else if (c >= 0xf0 && c <= 0xf4) { n = 3; ch = c & 7; min = 0x10000; } else return false;
        if (end - json <= n) return false;
        for (int i = 1; i <= n; i++) { uchar d = json[i]; if ((d & 0xc0) != 0x80) return false; ch = ch << 6 | (d & 63); }
        if (ch < min || ch > 0x10ffff || (ch >= 0xd800 && ch < 0xe000)) return false;
        json += n + 1; return true;
    }
    static bool hexd(char c, uint &ch) { ch <<= 4; if (c >= '0' && c <= '9') ch |= c - '0'; else if (c >= 'a' && c <= 'f') ch |= c - 'a' + 10; else if (c >= 'A' && c <= 'F') ch |= c - 'A' + 10; else return false; return true; }
    bool escape(uint &ch)
    {
        json++; if (json >= end) return false;
        char c = *json++;
        switch (c) {
        case 'b': ch = 8; break; case 'f': ch = 12; break; case 'n': ch = 10; break; case 'r': ch = 13; break; case 't': ch = 9; break;
        case 'u': { ch = 0; if (json > end - 4) return false; for (int i = 0; i < 4; i++) { if (!hexd(*json, ch)) return false; json++; } return true; }
        default: ch = (uchar)c;
        }
        return true;
    }
    bool string(QString &out)
    {
        const char *s = json; bool plain = true;
        while (json < end) { if (*json == '"') break; if (*json == '\\') { plain = false; break; } uint ch; if (!utf8(ch)) return fail(QJsonParseError::IllegalUTF8String); }
        json++; if (json > end) return fail(QJsonParseError::UnterminatedString);
        if (plain) { out = QString::fromUtf8(s, json - s - 1); if (out.isNull()) out = QString(QLatin1String("")); return true; }
        json = s; out = QString(QLatin1String(""));
        while (json < end) {
            uint ch; if (*json == '"') break;
            if (*json == '\\') { if (!escape(ch)) return fail(QJsonParseError::IllegalEscapeSequence); } else if (!utf8(ch)) return fail(QJsonParseError::IllegalUTF8String);
            if (ch >= 0x10000) { out.append(QChar(ushort(0xd7c0 + (ch >> 10)))); out.append(QChar(ushort(0xdc00 + (ch & 0x3ff)))); } else out.append(QChar(ushort(ch)));
        }
        json++; if (json > end) return fail(QJsonParseError::UnterminatedString);
        return true;
    }
};
QVariant norm(const QVariant &v)
{
    switch (v.userType()) {
    case 51: return v; case 1: return v; case 33: case 36: case 2: case 3: case 4: return QVariant(v.toLongLong());
    case 5: if (v.toULongLong() <= 0x7fffffffffffffffull) return QVariant(v.toLongLong()); // fallthrough
    case 6: case 38: { double d = v.toDouble(); qint64 n; if (d != d || d - d != 0) return QVariant::fromValue(nullptr); if (toInt64(d, n)) return QVariant((qlonglong)n); return QVariant(d); }
    case 10: { QString s = v.toString(); return QVariant(s.isNull() ? QString(QLatin1String("")) : s); }
    case 11: case 9: { QVariantList r, l = v.toList(); for (int i = 0; i < l.size(); i++) r.append(norm(l.at(i))); return QVariant(r); }
    case 8: { QVariantMap r, m = v.toMap(); for (QVariantMap::const_iterator i = m.constBegin(); i != m.constEnd(); ++i) r.insert(i.key(), norm(i.value())); return QVariant(r); }
    case 28: { QVariantMap r; QVariantHash m = v.toHash(); for (QVariantHash::const_iterator i = m.constBegin(); i != m.constEnd(); ++i) r.insert(i.key(), norm(i.value())); return QVariant(r); }
    case 30: return QVariant(v.toUuid().toString(QUuid::WithoutBraces));
    case 17: return QVariant(QString::fromUtf8(v.toUrl().toEncoded()));
    default: break;
    }
    QString s = v.toString(); if (s.isEmpty()) return QVariant::fromValue(nullptr); return QVariant(s);
}
void writeString(QByteArray &o, const QString &s)
{
    o.append('"'); const ushort *u = s.utf16(); int n = s.size(); int from = 0;
    for (int i = 0; i < n; i++) {
        ushort c = u[i]; char e = 0;
        if (c >= 0x80) {
            if (c < 0x800) { o.append(char(0xc0 | c >> 6)); o.append(char(0x80 | (c & 63))); continue; }
            if (c >= 0xd800 && c < 0xdc00 && i + 1 < n && u[i + 1] >= 0xdc00 && u[i + 1] < 0xe000) { uint x = 0x10000 + ((c - 0xd800u) << 10) + (u[i + 1] - 0xdc00u); i++; o.append(char(0xf0 | x >> 18)); o.append(char(0x80 | (x >> 12 & 63))); o.append(char(0x80 | (x >> 6 & 63))); o.append(char(0x80 | (x & 63))); continue; }
            if (c >= 0xd800 && c < 0xe000) { static const char H[] = "0123456789abcdef"; o.append("\\u"); o.append(H[c >> 12]); o.append(H[c >> 8 & 15]); o.append(H[c >> 4 & 15]); o.append(H[c & 15]); continue; }
            o.append(char(0xe0 | c >> 12)); o.append(char(0x80 | (c >> 6 & 63))); o.append(char(0x80 | (c & 63))); continue;
        }
        switch (c) { case '"': e = '"'; break; case '\\': e = '\\'; break; case 8: e = 'b'; break; case 12: e = 'f'; break; case 10: e = 'n'; break; case 13: e = 'r'; break; case 9: e = 't'; break; }
        if (e) { o.append('\\'); o.append(e); } else if (c < 0x20) { o.append("\\u00"); o.append(c >= 16 ? '1' : '0'); uint l = c & 15; o.append(char(l < 10 ? '0' + l : 'a' + l - 10)); } else o.append(char(c));
    }
    o.append('"');
}
void indent(QByteArray &o, int n) { for (int i = 0; i < 4 * n; i++) o.append(' '); }
void write(QByteArray &o, const QVariant &v, int lvl, bool compact);
void writeBody(QByteArray &o, const QVariant &v, int lvl, bool compact)
{
    if (v.userType() == 8) {
        QVariantMap m = v.toMap(); bool first = true;
        for (QVariantMap::const_iterator i = m.constBegin(); i != m.constEnd(); ++i) { if (!first) o.append(compact ? "," : ",\n"); first = false; if (!compact) indent(o, lvl); writeString(o, i.key()); o.append(compact ? ":" : ": "); write(o, i.value(), lvl, compact); }
        if (!first && !compact) o.append('\n');
    } else {
        QVariantList l = v.toList();
        for (int i = 0; i < l.size(); i++) { if (i) o.append(compact ? "," : ",\n"); if (!compact) indent(o, lvl); write(o, l.at(i), lvl, compact); }
        if (l.size() && !compact) o.append('\n');
    }
}
void container(QByteArray &o, const QVariant &v, int lvl, bool compact)
{
    bool obj = v.userType() == 8; o.append(obj ? (compact ? "{" : "{\n") : (compact ? "[" : "[\n"));
    writeBody(o, v, lvl + 1, compact); if (!compact) indent(o, lvl); o.append(obj ? '}' : ']');
}
void write(QByteArray &o, const QVariant &v, int lvl, bool compact)
{
    switch (v.userType()) {
    case 1: o.append(v.toBool() ? "true" : "false"); break; case 4: o.append(QByteArray::number(v.toLongLong())); break; case 6: o.append(QByteArray::number(v.toDouble(), 'g', QLocale::FloatingPointShortest)); break;
    case 10: writeString(o, v.toString()); break; case 8: case 9: container(o, v, lvl, compact); break; default: o.append("null");
    }
}
}
QJsonDocument::QJsonDocument() {}
QJsonDocument::~QJsonDocument() {}
QJsonDocument::QJsonDocument(const QJsonDocument &o) { if (o.d) { d.reset(new QJsonDocumentPrivate); d->v = o.d->v; } }
QJsonDocument::QJsonDocument(QJsonDocument &&o) noexcept : d(std::move(o.d)) {}
QJsonDocument &QJsonDocument::operator=(const QJsonDocument &o) { if (this == &o) return *this; if (o.d) { d.reset(new QJsonDocumentPrivate); d->v = o.d->v; } else d.reset(); return *this; }
void QJsonDocument::swap(QJsonDocument &o) noexcept { std::swap(d, o.d); }
QJsonDocument QJsonDocument::fromVariant(const QVariant &v)
{
    QJsonDocument r; int t = v.userType(); if (t == 8 || t == 28 || t == 9 || t == 11) { r.d.reset(new QJsonDocumentPrivate); r.d->v = norm(v); } return r;
}
QVariant QJsonDocument::toVariant() const { return d ? d->v : QVariant(); }
QJsonDocument QJsonDocument::fromJson(const QByteArray &a, QJsonParseError *e)
{
    Parser p; p.head = p.json = a.constData(); p.end = p.head + a.size(); p.err = QJsonParseError::NoError; p.depth = 0;
    if (p.end - p.json > 3 && (uchar)p.json[0] == 0xef && (uchar)p.json[1] == 0xbb && (uchar)p.json[2] == 0xbf) p.json += 3;
    QVariant v; char t = p.token(); bool ok;
    if (t == '[') ok = p.array(v); else if (t == '{') ok = p.object(v); else ok = p.fail(QJsonParseError::IllegalValue);
    if (ok) { p.space(); if (p.json < p.end) ok = p.fail(QJsonParseError::GarbageAtEnd); }
    if (e) { e->error = p.err; e->offset = ok ? 0 : p.json - p.head; }
    QJsonDocument r; if (ok) { r.d.reset(new QJsonDocumentPrivate); r.d->v = v; } return r;
}
QByteArray QJsonDocument::toJson() const { return toJson(Indented); }
QByteArray QJsonDocument::toJson(JsonFormat f) const { QByteArray o; if (!d) return o; container(o, d->v, 0, f == Compact); if (f != Compact) o.append('\n'); return o; }
bool QJsonDocument::isEmpty() const { if (!d) return true; return d->v.userType() == 8 ? d->v.toMap().isEmpty() : d->v.toList().isEmpty(); }
bool QJsonDocument::isArray() const { return d && d->v.userType() == 9; }
bool QJsonDocument::isObject() const { return d && d->v.userType() == 8; }
bool QJsonDocument::isNull() const { return !d; }
bool QJsonDocument::operator==(const QJsonDocument &o) const { return toVariant() == o.toVariant(); }

// ---------------------------------------------------------------- QJsonValue, QJsonObject, QJsonArray over normalised QVariants
class QCborContainerPrivate : public QSharedData { public: QVariant v; };
#define JV(x) ((x).d ? (x).d->v : QVariant())
QJsonValue::QJsonValue(Type ty) : t(ty == Undefined ? QCborValue::Undefined : QCborValue::Null) { if (ty == Undefined) return; d = new QCborContainerPrivate; switch (ty) { case Bool: d->v = false; break; case Double: d->v = qlonglong(0); break; case String: d->v = QString(QLatin1String("")); break; case Array: d->v = QVariantList(); break; case Object: d->v = QVariantMap(); break; default: d->v = QVariant::fromValue(nullptr); } }
QJsonValue::QJsonValue(bool b) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = b; }
QJsonValue::QJsonValue(double n) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = norm(n); }
QJsonValue::QJsonValue(int n) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = qlonglong(n); }
QJsonValue::QJsonValue(qint64 n) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = n; }
QJsonValue::QJsonValue(const QString &s) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = norm(s); }
QJsonValue::QJsonValue(QLatin1String s) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = norm(QString(s)); }
QJsonValue::QJsonValue(const QJsonArray &a) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = a.toVariantList(); }
QJsonValue::QJsonValue(const QJsonObject &o) : t(QCborValue::Null) { d = new QCborContainerPrivate; d->v = o.toVariantMap(); }
QJsonValue::~QJsonValue() {}
QJsonValue::QJsonValue(const QJsonValue &o) : n(o.n), d(o.d), t(o.t) {}
QJsonValue::QJsonValue(QJsonValue &&o) noexcept : n(o.n), d(o.d), t(o.t) {}
QJsonValue &QJsonValue::operator=(const QJsonValue &o) { n = o.n; d = o.d; t = o.t; return *this; }
void QJsonValue::swap(QJsonValue &o) noexcept { qSwap(n, o.n); d.swap(o.d); qSwap(t, o.t); }
QJsonValue QJsonValue::fromVariant(const QVariant &v) { QJsonValue r; r.d->v = norm(v); return r; }
QVariant QJsonValue::toVariant() const { return JV(*this); }
QJsonValue::Type QJsonValue::type() const { if (!d) return Undefined; switch (d->v.userType()) { case 1: return Bool; case 4: case 6: return Double; case 10: return String; case 9: return Array; case 8: return Object; default: return Null; } }
bool QJsonValue::toBool(bool def) const { return type() == Bool ? d->v.toBool() : def; }
int QJsonValue::toInt(int def) const { if (type() != Double) return def; if (d->v.userType() == 4) { qlonglong x = d->v.toLongLong(); return qlonglong(int(x)) == x ? int(x) : def; } return def; }
double QJsonValue::toDouble(double def) const { return type() == Double ? d->v.toDouble() : def; }
QString QJsonValue::toString() const { return type() == String ? d->v.toString() : QString(); }
QString QJsonValue::toString(const QString &def) const { return type() == String ? d->v.toString() : def; }
QJsonArray QJsonValue::toArray() const { return toArray(QJsonArray()); }
QJsonArray QJsonValue::toArray(const QJsonArray &def) const { return type() == Array ? QJsonArray::fromVariantList(d->v.toList()) : def; }
QJsonObject QJsonValue::toObject() const { return toObject(QJsonObject()); }
QJsonObject QJsonValue::toObject(const QJsonObject &def) const { return type() == Object ? QJsonObject::fromVariantMap(d->v.toMap()) : def; }
const QJsonValue QJsonValue::operator[](const QString &k) const { return type() == Object ? toObject().value(k) : QJsonValue(Undefined); }
const QJsonValue QJsonValue::operator[](QLatin1String k) const { return (*this)[QString(k)]; }
const QJsonValue QJsonValue::operator[](int i) const { return type() == Array ? toArray().at(i) : QJsonValue(Undefined); }
bool QJsonValue::operator==(const QJsonValue &o) const { return type() == o.type() && JV(*this) == JV(o); }
bool QJsonValue::operator!=(const QJsonValue &o) const { return !(*this == o); }
#define OM(x) ((x).o ? (x).o->v.toMap() : QVariantMap())
#define OSET(x, m) do { QVariantMap m_ = (m); (x).o = new QCborContainerPrivate; (x).o->v = m_; } while (0)
QJsonObject::QJsonObject() {}
QJsonObject::QJsonObject(std::initializer_list<QPair<QString, QJsonValue> > l) { QVariantMap m; for (const QPair<QString, QJsonValue> &p : l) if (!p.second.isUndefined()) m.insert(p.first, p.second.toVariant()); OSET(*this, m); }
QJsonObject::~QJsonObject() {}
QJsonObject::QJsonObject(const QJsonObject &x) : o(x.o) {}
QJsonObject::QJsonObject(QJsonObject &&x) noexcept : o(x.o) {}
QJsonObject &QJsonObject::operator=(const QJsonObject &x) { o = x.o; return *this; }
QJsonObject QJsonObject::fromVariantMap(const QVariantMap &m) { QJsonObject r; OSET(r, norm(m).toMap()); return r; }
QJsonObject QJsonObject::fromVariantHash(const QVariantHash &m) { QJsonObject r; OSET(r, norm(m).toMap()); return r; }
QVariantMap QJsonObject::toVariantMap() const { return OM(*this); }
QVariantHash QJsonObject::toVariantHash() const { QVariantHash r; QVariantMap m = OM(*this); for (QVariantMap::const_iterator i = m.constBegin(); i != m.constEnd(); ++i) r.insert(i.key(), i.value()); return r; }
QStringList QJsonObject::keys() const { return OM(*this).keys(); }
int QJsonObject::size() const { return OM(*this).size(); }
bool QJsonObject::isEmpty() const { return !size(); }
QJsonValue QJsonObject::value(const QString &k) const { QVariantMap m = OM(*this); return m.contains(k) ? QJsonValue::fromVariant(m.value(k)) : QJsonValue(QJsonValue::Undefined); }
QJsonValue QJsonObject::value(QLatin1String k) const { return value(QString(k)); }
QJsonValue QJsonObject::value(QStringView k) const { return value(k.toString()); }
QJsonValue QJsonObject::operator[](const QString &k) const { return value(k); }
QJsonValueRef QJsonObject::operator[](const QString &k) { QVariantMap m = OM(*this); if (!m.contains(k)) { m.insert(k, QVariant::fromValue(nullptr)); OSET(*this, m); } return QJsonValueRef(this, m.keys().indexOf(k)); }
QJsonValueRef QJsonObject::operator[](QLatin1String k) { return (*this)[QString(k)]; }
QJsonValueRef QJsonObject::operator[](QStringView k) { return (*this)[k.toString()]; }
void QJsonObject::remove(const QString &k) { QVariantMap m = OM(*this); m.remove(k); OSET(*this, m); }
void QJsonObject::remove(QLatin1String k) { remove(QString(k)); }
QJsonValue QJsonObject::take(const QString &k) { QJsonValue v = value(k); remove(k); return v; }
QJsonValue QJsonObject::take(QLatin1String k) { return take(QString(k)); }
bool QJsonObject::contains(const QString &k) const { return OM(*this).contains(k); }
bool QJsonObject::contains(QLatin1String k) const { return contains(QString(k)); }
bool QJsonObject::contains(QStringView k) const { return contains(k.toString()); }
bool QJsonObject::operator==(const QJsonObject &x) const { return OM(*this) == OM(x); }
bool QJsonObject::operator!=(const QJsonObject &x) const { return !(*this == x); }
QJsonObject::iterator QJsonObject::insert(const QString &k, const QJsonValue &v) { QVariantMap m = OM(*this); if (v.isUndefined()) m.remove(k); else m.insert(k, v.toVariant()); OSET(*this, m); int i = m.keys().indexOf(k); return iterator(this, i < 0 ? m.size() : i); }
QJsonObject::iterator QJsonObject::insert(QLatin1String k, const QJsonValue &v) { return insert(QString(k), v); }
QJsonObject::iterator QJsonObject::insert(QStringView k, const QJsonValue &v) { return insert(k.toString(), v); }
QJsonObject::const_iterator QJsonObject::constFind(const QString &k) const { int i = keys().indexOf(k); return const_iterator(this, i < 0 ? size() : i); }
QJsonObject::const_iterator QJsonObject::constFind(QLatin1String k) const { return constFind(QString(k)); }
QJsonObject::iterator QJsonObject::find(const QString &k) { int i = keys().indexOf(k); return iterator(this, i < 0 ? size() : i); }
QJsonObject::iterator QJsonObject::find(QLatin1String k) { return find(QString(k)); }
QJsonObject::iterator QJsonObject::erase(iterator it) { if (it.i >= 0 && it.i < size()) remove(keyAt(it.i)); return it; }
bool QJsonObject::detach2(uint) { return true; }
QString QJsonObject::keyAt(int i) const { return keys().at(i); }
QJsonValue QJsonObject::valueAt(int i) const { return value(keyAt(i)); }
void QJsonObject::setValueAt(int i, const QJsonValue &v) { insert(keyAt(i), v); }
#define AL(x) ((x).a ? (x).a->v.toList() : QVariantList())
#define ASET(x, l) do { QVariantList l_ = (l); (x).a = new QCborContainerPrivate; (x).a->v = l_; } while (0)
QJsonArray::QJsonArray() {}
QJsonArray::QJsonArray(std::initializer_list<QJsonValue> i) { QVariantList l; for (const QJsonValue &v : i) l.append(v.toVariant()); ASET(*this, l); }
QJsonArray::~QJsonArray() {}
QJsonArray::QJsonArray(const QJsonArray &x) : a(x.a) {}
QJsonArray::QJsonArray(QJsonArray &&x) noexcept : a(x.a) {}
QJsonArray &QJsonArray::operator=(const QJsonArray &x) { a = x.a; return *this; }
QJsonArray QJsonArray::fromStringList(const QStringList &s) { QVariantList l; for (int i = 0; i < s.size(); i++) l.append(norm(s.at(i))); QJsonArray r; ASET(r, l); return r; }
QJsonArray QJsonArray::fromVariantList(const QVariantList &l) { QJsonArray r; ASET(r, norm(l).toList()); return r; }
QVariantList QJsonArray::toVariantList() const { return AL(*this); }
int QJsonArray::size() const { return AL(*this).size(); }
bool QJsonArray::isEmpty() const { return !size(); }
QJsonValue QJsonArray::at(int i) const { QVariantList l = AL(*this); return i >= 0 && i < l.size() ? QJsonValue::fromVariant(l.at(i)) : QJsonValue(QJsonValue::Undefined); }
QJsonValue QJsonArray::first() const { return at(0); }
QJsonValue QJsonArray::last() const { return at(size() - 1); }
void QJsonArray::append(const QJsonValue &v) { QVariantList l = AL(*this); l.append(norm(v.toVariant())); ASET(*this, l); }
void QJsonArray::prepend(const QJsonValue &v) { insert(0, v); }
void QJsonArray::insert(int i, const QJsonValue &v) { QVariantList l = AL(*this); l.insert(i, norm(v.toVariant())); ASET(*this, l); }
void QJsonArray::replace(int i, const QJsonValue &v) { QVariantList l = AL(*this); l.replace(i, norm(v.toVariant())); ASET(*this, l); }
void QJsonArray::removeAt(int i) { QVariantList l = AL(*this); if (i < 0 || i >= l.size()) return; l.removeAt(i); ASET(*this, l); }
QJsonValue QJsonArray::takeAt(int i) { QJsonValue v = at(i); removeAt(i); return v; }
bool QJsonArray::contains(const QJsonValue &v) const { for (int i = 0; i < size(); i++) if (at(i) == v) return true; return false; }
QJsonValueRef QJsonArray::operator[](int i) { return QJsonValueRef(this, i); }
QJsonValue QJsonArray::operator[](int i) const { return at(i); }
bool QJsonArray::operator==(const QJsonArray &x) const { return AL(*this) == AL(x); }
bool QJsonArray::operator!=(const QJsonArray &x) const { return !(*this == x); }
bool QJsonArray::detach2(uint) { return true; }
QJsonValueRef &QJsonValueRef::operator=(const QJsonValue &v) { if (is_object) o->setValueAt(index, v); else a->replace(index, v); return *this; }
QJsonValueRef &QJsonValueRef::operator=(const QJsonValueRef &r) { return *this = r.toValue(); }
QJsonValue QJsonValueRef::toValue() const { return is_object ? o->valueAt(index) : a->at(index); }
QVariant QJsonValueRef::toVariant() const { return toValue().toVariant(); }
QJsonArray QJsonValueRef::toArray() const { return toValue().toArray(); }
QJsonObject QJsonValueRef::toObject() const { return toValue().toObject(); }
QJsonDocument::QJsonDocument(const QJsonObject &o) { setObject(o); }
QJsonDocument::QJsonDocument(const QJsonArray &a) { setArray(a); }
void QJsonDocument::setObject(const QJsonObject &o) { d.reset(new QJsonDocumentPrivate); d->v = o.toVariantMap(); }
void QJsonDocument::setArray(const QJsonArray &a) { d.reset(new QJsonDocumentPrivate); d->v = a.toVariantList(); }
QJsonObject QJsonDocument::object() const { return isObject() ? QJsonObject::fromVariantMap(d->v.toMap()) : QJsonObject(); }
QJsonArray QJsonDocument::array() const { return isArray() ? QJsonArray::fromVariantList(d->v.toList()) : QJsonArray(); }
const QJsonValue QJsonDocument::operator[](const QString &k) const { return isObject() ? object().value(k) : QJsonValue(QJsonValue::Undefined); }
const QJsonValue QJsonDocument::operator[](QLatin1String k) const { return (*this)[QString(k)]; }
const QJsonValue QJsonDocument::operator[](int i) const { return array().at(i); }
QT_END_NAMESPACE
