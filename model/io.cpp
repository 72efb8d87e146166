// QtCore model: QIODevice, QFile over a virtual file system, QBuffer, QDataStream, QTextStream, QDebug,
// logging categories, QSettings (INI reading).
#include "object.h"
#include <string.h>
#include <stdio.h>
QT_BEGIN_NAMESPACE
bool m_parseDouble(const QByteArray &a, double &d);
#define I(o) static_cast<IoD *>(D(o))
// ---------------------------------------------------------------- QIODevice
QIODevice::QIODevice() : QObject(*reinterpret_cast<QObjectPrivate *>(static_cast<QObjectData *>(new IoD)), nullptr) {}
QIODevice::QIODevice(QObject *p) : QObject(*reinterpret_cast<QObjectPrivate *>(static_cast<QObjectData *>(new IoD)), p) {}
QIODevice::~QIODevice() {}
QIODevice::OpenMode QIODevice::openMode() const { return OpenMode(I(this)->mode); }
void QIODevice::setOpenMode(OpenMode m) { I(this)->mode = m; if (!m) I(this)->unget.clear(); }
void QIODevice::setTextModeEnabled(bool b) { I(this)->text = b; }
bool QIODevice::isTextModeEnabled() const { return I(this)->text; }
bool QIODevice::isOpen() const { return I(this)->mode != NotOpen; }
bool QIODevice::isReadable() const { return I(this)->mode & ReadOnly; }
bool QIODevice::isWritable() const { return I(this)->mode & WriteOnly; }
bool QIODevice::isSequential() const { return false; }
bool QIODevice::open(OpenMode m) { IoD *d = I(this); d->mode = m; d->p = m & Append ? size() : 0; d->unget.clear(); d->err.clear(); return true; }
void QIODevice::close() { IoD *d = I(this); if (!d->mode) return; emit aboutToClose(); d->mode = NotOpen; d->err.clear(); d->p = 0; d->unget.clear(); }
qint64 QIODevice::pos() const { return I(this)->p; }
qint64 QIODevice::size() const { return isSequential() ? bytesAvailable() : 0; }
bool QIODevice::seek(qint64 p) { IoD *d = I(this); if (isSequential() || !d->mode || p < 0) return false; d->p = p; d->unget.clear(); return true; }
bool QIODevice::atEnd() const { return !isOpen() || bytesAvailable() == 0; }
bool QIODevice::reset() { return seek(0); }
qint64 QIODevice::bytesAvailable() const { IoD *d = I(this); if (!isSequential()) return qMax(size() - pos(), qint64(0)); return d->unget.size(); }
qint64 QIODevice::bytesToWrite() const { return 0; }
qint64 QIODevice::read(char *b, qint64 n)
{
    IoD *d = I(this); if (!(d->mode & ReadOnly) || n < 0) return -1; qint64 r = 0;
    if (d->unget.size()) { r = qMin<qint64>(n, d->unget.size()); memcpy(b, d->unget.constData(), r); d->unget.remove(0, r); if (!isSequential()) d->p += r; }
    while (r < n) { qint64 k = readData(b + r, n - r); if (k < 0) return r ? r : -1; if (k == 0) break; r += k; if (!isSequential()) d->p += k; } return r;
}
QByteArray QIODevice::read(qint64 n) { if (n < 0) return QByteArray(); QByteArray r; char b[256]; while (n > 0) { qint64 k = read(b, qMin<qint64>(n, sizeof b)); if (k <= 0) break; r.append(b, k); n -= k; } return r; }
QByteArray QIODevice::readAll() { QByteArray r; char b[256]; for (;;) { qint64 k = read(b, sizeof b); if (k <= 0) break; r.append(b, k); } return r; }
qint64 QIODevice::readLine(char *b, qint64 n) { if (n < 2) return -1; qint64 i = 0; n--; while (i < n) { char c; if (read(&c, 1) != 1) break; b[i++] = c; if (c == '\n') break; } b[i] = 0; return i ? i : -1; }
QByteArray QIODevice::readLine(qint64 n) { QByteArray r; char c; while ((n <= 0 || r.size() < n) && read(&c, 1) == 1) { r.append(c); if (c == '\n') break; } return r; }
qint64 QIODevice::readLineData(char *b, qint64 n) { qint64 i = 0; while (i < n) { char c; if (read(&c, 1) != 1) break; b[i++] = c; if (c == '\n') break; } return i; }
bool QIODevice::canReadLine() const { return I(this)->unget.contains('\n'); }
qint64 QIODevice::write(const char *b, qint64 n) { IoD *d = I(this); if (!(d->mode & WriteOnly) || n < 0) return -1; qint64 k = writeData(b, n); if (k > 0 && !isSequential()) d->p += k; return k; }
qint64 QIODevice::write(const char *b) { return write(b, strlen(b)); }
qint64 QIODevice::peek(char *b, qint64 n) { qint64 k = read(b, n); if (k > 0) { I(this)->unget.prepend(b, k); if (!isSequential()) I(this)->p -= k; } return k; }
QByteArray QIODevice::peek(qint64 n) { QByteArray r = read(n); I(this)->unget.prepend(r); if (!isSequential()) I(this)->p -= r.size(); return r; }
qint64 QIODevice::skip(qint64 n) { return read(n).size(); }
bool QIODevice::waitForReadyRead(int) { return false; }
bool QIODevice::waitForBytesWritten(int) { return false; }
void QIODevice::ungetChar(char c) { I(this)->unget.prepend(c); }
bool QIODevice::putChar(char c) { return write(&c, 1) == 1; }
bool QIODevice::getChar(char *c) { char t; return read(c ? c : &t, 1) == 1; }
QString QIODevice::errorString() const { return I(this)->err.isEmpty() ? QStringLiteral("Unknown error") : I(this)->err; }
void QIODevice::setErrorString(const QString &s) { I(this)->err = s; }
int QIODevice::readChannelCount() const { return isOpen(); } int QIODevice::writeChannelCount() const { return isOpen(); }

// ---------------------------------------------------------------- virtual file system, QFile, QFileInfo
static QMap<QString, QByteArray> *vfs;
static QMap<QString, QByteArray> &fs() { if (!vfs) vfs = new QMap<QString, QByteArray>; return *vfs; }
static QString absPath(const QString &n) { QString s = n; if (s.startsWith(QLatin1String("./"))) s = s.mid(2); return s.startsWith(QLatin1Char('/')) ? s : QLatin1String("/vpscratch/") + s; }
static QStringList *vdirs; // directories below the scratch directory
static bool isDirPath(const QString &a) { return a == QLatin1String("/vpscratch") || a == QLatin1String("/") || (vdirs && vdirs->contains(a)); }
static QString dirOf(const QString &a) { int i = a.lastIndexOf(QLatin1Char('/')); return i <= 0 ? QStringLiteral("/") : a.left(i); }
struct FileD : public IoD { QString file; int error; FileD() : error(0) {} };
#define F(o) static_cast<FileD *>(D(o))
QFileDevice::QFileDevice() : QIODevice(*reinterpret_cast<QIODevicePrivate *>(static_cast<QObjectData *>(new FileD)), nullptr) {}
QFileDevice::QFileDevice(QObject *p) : QIODevice(*reinterpret_cast<QIODevicePrivate *>(static_cast<QObjectData *>(new FileD)), p) {}
QIODevice::QIODevice(QIODevicePrivate &dd, QObject *p) : QObject(*reinterpret_cast<QObjectPrivate *>(&dd), p) {}
QFileDevice::~QFileDevice() {}
QFileDevice::FileError QFileDevice::error() const { return FileError(F(this)->error); }
void QFileDevice::unsetError() { F(this)->error = 0; }
void QFileDevice::close() { if (isOpen()) QIODevice::close(); }
bool QFileDevice::isSequential() const { return false; }
QString QFileDevice::fileName() const { return QString(); }
qint64 QFileDevice::pos() const { return QIODevice::pos(); }
bool QFileDevice::seek(qint64 p) { return QIODevice::seek(p); }
bool QFileDevice::atEnd() const { return QIODevice::atEnd(); }
bool QFileDevice::flush() { return true; }
qint64 QFileDevice::size() const { return fs().value(absPath(F(this)->file)).size(); }
bool QFileDevice::resize(qint64 n) { QByteArray &a = fs()[absPath(F(this)->file)]; a.resize(n); return true; }
QFileDevice::Permissions QFileDevice::permissions() const { return Permissions(0x6644); }
bool QFileDevice::setPermissions(Permissions) { return true; }
qint64 QFileDevice::readData(char *b, qint64 n) { QByteArray a = fs().value(absPath(F(this)->file)); qint64 k = qMin<qint64>(n, a.size() - F(this)->p); if (k <= 0) return 0; memcpy(b, a.constData() + F(this)->p, k); return k; }
qint64 QFileDevice::readLineData(char *b, qint64 n) { return QIODevice::readLineData(b, n); }
qint64 QFileDevice::writeData(const char *b, qint64 n) { FileD *d = F(this); QByteArray &a = fs()[absPath(d->file)]; if (d->mode & Append) d->p = a.size(); if (a.size() < d->p + n) a.resize(d->p + n); if (n) memcpy(a.data() + d->p, b, n); return n; }
QFile::QFile() {}
QFile::QFile(const QString &n) { F(this)->file = n; }
QFile::QFile(QObject *p) : QFileDevice(p) {}
QFile::QFile(const QString &n, QObject *p) : QFileDevice(p) { F(this)->file = n; }
QFile::~QFile() {}
QString QFile::fileName() const { return F(this)->file; }
void QFile::setFileName(const QString &n) { if (isOpen()) close(); F(this)->file = n; }
bool QFile::open(OpenMode m)
{
    FileD *d = F(this); if (isOpen()) return false; if (m & (Append | NewOnly)) m |= WriteOnly; if (!(m & ReadWrite)) return false; d->err.clear(); d->error = 0;
    QString k = absPath(d->file); bool ex = fs().contains(k);
    if (d->file.isEmpty()) { d->error = OpenError; d->err = QStringLiteral("No file name specified"); return false; }
    if (isDirPath(k) || (!ex && k.startsWith(QLatin1String("/vpscratch/")) && !isDirPath(dirOf(k)))) { d->error = OpenError; d->err = QStringLiteral("No such file or directory"); return false; }
    if (m & NewOnly && ex) { d->error = OpenError; d->err = QStringLiteral("File exists"); return false; }
    if (!ex && (!(m & WriteOnly) || m & ExistingOnly)) { d->error = OpenError; d->err = QStringLiteral("No such file or directory"); return false; }
    if (m & WriteOnly && (!ex || ((m & Truncate || !(m & (ReadOnly | Append | NewOnly)))))) fs().insert(k, QByteArray());
    return QIODevice::open(m);
}
qint64 QFile::size() const { return QFileDevice::size(); }
bool QFile::resize(qint64 n) { return QFileDevice::resize(n); }
QFileDevice::Permissions QFile::permissions() const { return QFileDevice::permissions(); }
bool QFile::setPermissions(Permissions p) { return true; }
bool QFile::exists(const QString &n) { return fs().contains(absPath(n)); }
bool QFile::exists() const { return exists(F(this)->file); }
bool QFile::remove(const QString &n) { return fs().remove(absPath(n)) > 0; }
bool QFile::remove() { close(); return remove(F(this)->file); }
bool QFile::rename(const QString &a, const QString &b) { if (!exists(a) || exists(b)) return false; QByteArray x = fs().take(absPath(a)); fs().insert(absPath(b), x); return true; }
bool QFile::rename(const QString &n) { close(); if (!rename(F(this)->file, n)) return false; F(this)->file = n; return true; }
class QFileInfoPrivate : public QSharedData { public: QString n; };
QFileInfo::QFileInfo() : d_ptr(new QFileInfoPrivate) {}
QFileInfo::QFileInfo(const QString &n) : d_ptr(new QFileInfoPrivate) { d_ptr->n = n; }
QFileInfo::QFileInfo(const QFile &f) : d_ptr(new QFileInfoPrivate) { d_ptr->n = f.fileName(); }
QFileInfo::QFileInfo(const QFileInfo &o) : d_ptr(o.d_ptr) {}
QFileInfo::~QFileInfo() {}
QFileInfo &QFileInfo::operator=(const QFileInfo &o) { d_ptr = o.d_ptr; return *this; }
bool QFileInfo::exists() const { return QFile::exists(d_ptr->n); }
bool QFileInfo::exists(const QString &n) { return QFile::exists(n); }
bool QFileInfo::isFile() const { return exists(); }
bool QFileInfo::isDir() const { return isDirPath(absPath(d_ptr->n)); }
bool QFileInfo::isReadable() const { return exists(); }
bool QFileInfo::isWritable() const { return exists(); }
qint64 QFileInfo::size() const { return fs().value(absPath(d_ptr->n)).size(); }
QString QFileInfo::filePath() const { return d_ptr->n; }
QString QFileInfo::fileName() const { return d_ptr->n.mid(d_ptr->n.lastIndexOf(QLatin1Char('/')) + 1); }
QString QFileInfo::absolutePath() const { return dirOf(absPath(d_ptr->n)); }
QString QFileInfo::path() const { int i = d_ptr->n.lastIndexOf(QLatin1Char('/')); return i < 0 ? QStringLiteral(".") : i == 0 ? QStringLiteral("/") : d_ptr->n.left(i); }
QString QFileInfo::absoluteFilePath() const { return absPath(d_ptr->n); }

class QDirPrivate : public QSharedData { public: QString n; };
static QDirPrivate *dirp(const QString &n) { QDirPrivate *p = new QDirPrivate; p->n = n.isEmpty() ? QStringLiteral(".") : n; return p; }
static QString dirAbs(const QString &n) { QString s = n; if (s == QLatin1String(".")) return QStringLiteral("/vpscratch"); s = absPath(s); while (s.size() > 1 && s.endsWith(QLatin1Char('/'))) s.chop(1); return s; }
QDir::QDir(const QString &n) : d_ptr(dirp(n)) {}
QDir::QDir(const QDir &o) : d_ptr(o.d_ptr) {}
QDir::~QDir() {}
QDir &QDir::operator=(const QDir &o) { d_ptr = o.d_ptr; return *this; }
bool QDir::exists() const { return isDirPath(dirAbs(d_ptr->n)); }
bool QDir::exists(const QString &n) const { QString a = n.startsWith(QLatin1Char('/')) ? n : dirAbs(d_ptr->n) + QLatin1Char('/') + n; return isDirPath(a) || fs().contains(a); }
QString QDir::path() const { return d_ptr->n; }
QString QDir::absolutePath() const { return dirAbs(d_ptr->n); }
QString QDir::currentPath() { return QStringLiteral("/vpscratch"); }
bool QDir::mkpath(const QString &n) const
{
    QString a = n.startsWith(QLatin1Char('/')) ? n : dirAbs(d_ptr->n) + QLatin1Char('/') + n; if (!a.startsWith(QLatin1String("/vpscratch"))) return false; QStringList l = a.mid(1).split(QLatin1Char('/')); QString c;
    for (int i = 0; i < l.size(); i++) { if (l.at(i).isEmpty()) continue; c += QLatin1Char('/') + l.at(i); if (isDirPath(c)) continue; if (fs().contains(c)) return false; if (!vdirs) vdirs = new QStringList; vdirs->append(c); } return true;
}
bool QDir::mkdir(const QString &n) const { QString a = n.startsWith(QLatin1Char('/')) ? n : dirAbs(d_ptr->n) + QLatin1Char('/') + n; if (isDirPath(a) || fs().contains(a) || !isDirPath(dirOf(a))) return false; return mkpath(n); }
// ---------------------------------------------------------------- QBuffer
struct BufD : public IoD { QByteArray own, *a; BufD() : a(&own) {} };
#define B(o) static_cast<BufD *>(D(o))
QBuffer::QBuffer(QObject *p) : QIODevice(*reinterpret_cast<QIODevicePrivate *>(static_cast<QObjectData *>(new BufD)), p) {}
QBuffer::QBuffer(QByteArray *a, QObject *p) : QIODevice(*reinterpret_cast<QIODevicePrivate *>(static_cast<QObjectData *>(new BufD)), p) { if (a) B(this)->a = a; }
QBuffer::~QBuffer() {}
QByteArray &QBuffer::buffer() { return *B(this)->a; }
const QByteArray &QBuffer::buffer() const { return *B(this)->a; }
void QBuffer::setBuffer(QByteArray *a) { B(this)->a = a ? a : &B(this)->own; }
void QBuffer::setData(const QByteArray &x) { *B(this)->a = x; }
const QByteArray &QBuffer::data() const { return *B(this)->a; }
bool QBuffer::open(OpenMode m) { if (m & (Append | Truncate)) m |= WriteOnly; if (!(m & ReadWrite)) return false; if (m & Truncate) B(this)->a->resize(0); return QIODevice::open(m); }
void QBuffer::close() { QIODevice::close(); }
qint64 QBuffer::size() const { return B(this)->a->size(); }
qint64 QBuffer::pos() const { return QIODevice::pos(); }
bool QBuffer::seek(qint64 p) { if (p > B(this)->a->size()) { if (!isWritable()) return false; B(this)->a->append(QByteArray(p - B(this)->a->size(), 0)); } return QIODevice::seek(p); }
bool QBuffer::atEnd() const { return QIODevice::atEnd(); }
bool QBuffer::canReadLine() const { return isOpen() && (B(this)->a->indexOf('\n', int(pos())) != -1 || QIODevice::canReadLine()); }
qint64 QBuffer::readData(char *b, qint64 n) { BufD *d = B(this); n = qMin<qint64>(n, d->a->size() - d->p); if (n <= 0) return 0; memcpy(b, d->a->constData() + d->p, n); return n; }
qint64 QBuffer::writeData(const char *b, qint64 n) { BufD *d = B(this); if (d->mode & Append) d->p = d->a->size(); if (d->p + n > d->a->size()) d->a->resize(d->p + n); if (n) memcpy(d->a->data() + d->p, b, n); return n; }
void QBuffer::connectNotify(const QMetaMethod &) {}
void QBuffer::disconnectNotify(const QMetaMethod &) {}

// ---------------------------------------------------------------- QDataStream
class QDataStreamPrivate { public: int x; };
QDataStream::QDataStream() : dev(nullptr), owndev(false), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) {}
QDataStream::QDataStream(QIODevice *d) : dev(d), owndev(false), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) {}
QDataStream::QDataStream(QByteArray *a, QIODevice::OpenMode m) : dev(nullptr), owndev(true), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) { QBuffer *b = new QBuffer(a); b->blockSignals(true); b->open(m); dev = b; }
QDataStream::QDataStream(const QByteArray &a) : dev(nullptr), owndev(true), noswap(false), byteorder(BigEndian), ver(Qt_DefaultCompiledVersion), q_status(Ok) { QBuffer *b = new QBuffer; b->blockSignals(true); b->setData(a); b->open(QIODevice::ReadOnly); dev = b; }
QDataStream::~QDataStream() { if (owndev) delete dev; }
void QDataStream::setDevice(QIODevice *d) { if (owndev) { delete dev; owndev = false; } dev = d; }
bool QDataStream::atEnd() const { return dev ? dev->atEnd() : true; }
QDataStream::Status QDataStream::status() const { return q_status; }
void QDataStream::resetStatus() { q_status = Ok; }
void QDataStream::setStatus(Status s) { if (q_status == Ok) q_status = s; }
void QDataStream::setByteOrder(ByteOrder b) { byteorder = b; noswap = b == LittleEndian; }
int QDataStream::readBlock(char *b, int n) { if (q_status != Ok && dev && false) return -1; int r = dev->read(b, n); if (r != n) setStatus(ReadPastEnd); return r; }
int QDataStream::readRawData(char *b, int n) { if (!dev) return -1; return readBlock(b, n); }
int QDataStream::writeRawData(const char *b, int n) { if (!dev || q_status != Ok) return -1; int r = dev->write(b, n); if (r != n) q_status = WriteFailed; return r; }
int QDataStream::skipRawData(int n) { if (!dev) return -1; int r = dev->skip(n); if (r != n) setStatus(ReadPastEnd); return r; }
static void put(QDataStream *s, quint64 v, int n) { if (!s->dev || s->q_status != QDataStream::Ok) return; char b[8]; for (int i = 0; i < n; i++) b[s->noswap ? i : n - 1 - i] = char(v >> (8 * i)); if (s->dev->write(b, n) != n) s->q_status = QDataStream::WriteFailed; }
static quint64 get(QDataStream *s, int n) { if (!s->dev) return 0; uchar b[8]; if (s->readBlock((char *)b, n) != n) return 0; quint64 v = 0; for (int i = 0; i < n; i++) v |= quint64(b[s->noswap ? i : n - 1 - i]) << (8 * i); return v; }
QDataStream &QDataStream::operator<<(qint8 i) { put(this, (quint8)i, 1); return *this; }
QDataStream &QDataStream::operator<<(qint16 i) { put(this, (quint16)i, 2); return *this; }
QDataStream &QDataStream::operator<<(qint32 i) { put(this, (quint32)i, 4); return *this; }
QDataStream &QDataStream::operator<<(qint64 i) { put(this, (quint64)i, 8); return *this; }
QDataStream &QDataStream::operator<<(bool i) { put(this, i, 1); return *this; }
QDataStream &QDataStream::operator>>(qint8 &i) { i = (qint8)get(this, 1); return *this; }
QDataStream &QDataStream::operator>>(qint16 &i) { i = (qint16)get(this, 2); return *this; }
QDataStream &QDataStream::operator>>(qint32 &i) { i = (qint32)get(this, 4); return *this; }
QDataStream &QDataStream::operator>>(qint64 &i) { i = (qint64)get(this, 8); return *this; }
QDataStream &QDataStream::operator>>(bool &i) { i = get(this, 1); return *this; }
QDataStream &QDataStream::writeBytes(const char *b, uint n) { *this << (quint32)n; if (n) writeRawData(b, n); return *this; }
QDataStream &operator<<(QDataStream &s, const QByteArray &a) { if (a.isNull()) { s << (quint32)0xffffffff; return s; } return s.writeBytes(a.constData(), a.size()); }

// ---------------------------------------------------------------- QTextStream: output only
class QTextStreamPrivate { public: QIODevice *dev; QString *str; bool own; };
static QTextStreamPrivate *tsp(QIODevice *d, QString *s) { QTextStreamPrivate *p = new QTextStreamPrivate; p->dev = d; p->str = s; p->own = false; return p; }
QTextStream::QTextStream() : d_ptr(tsp(nullptr, nullptr)) {}
QTextStream::QTextStream(QIODevice *d) : d_ptr(tsp(d, nullptr)) {}
QTextStream::QTextStream(QString *s, QIODevice::OpenMode) : d_ptr(tsp(nullptr, s)) {}
QString &env_stdout() { static QString s; return s; } // everything written to the standard output
QTextStream::QTextStream(FILE *, QIODevice::OpenMode) : d_ptr(tsp(nullptr, &env_stdout())) {}
QTextStream::~QTextStream() {}
static void out(QTextStream *t, const QString &s) { QTextStreamPrivate *d = t->d_ptr.data(); if (d->str) d->str->append(s); else if (d->dev) d->dev->write(s.toLocal8Bit()); }
QTextStream &QTextStream::operator<<(const QString &s) { out(this, s); return *this; }
QTextStream &QTextStream::operator<<(QStringView s) { out(this, s.toString()); return *this; }
QTextStream &QTextStream::operator<<(QLatin1String s) { out(this, QString(s)); return *this; }
QTextStream &QTextStream::operator<<(const QByteArray &s) { out(this, QString::fromUtf8(s)); return *this; }
QTextStream &QTextStream::operator<<(const char *s) { out(this, QString::fromLatin1(s)); return *this; }
QTextStream &QTextStream::operator<<(char c) { out(this, QString(QLatin1Char(c))); return *this; }
QTextStream &QTextStream::operator<<(QChar c) { out(this, QString(c)); return *this; }
QTextStream &QTextStream::operator<<(signed short i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(unsigned short i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(signed int i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(unsigned int i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(signed long i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number((qlonglong)i)); return *this; }
QTextStream &QTextStream::operator<<(unsigned long i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number((qulonglong)i)); return *this; }
QTextStream &QTextStream::operator<<(qlonglong i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(qulonglong i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(double i) { if (d_ptr->dev || d_ptr->str) out(this, QString::number(i)); return *this; }
QTextStream &QTextStream::operator<<(float i) { return *this << (double)i; }
QTextStream &QTextStream::operator<<(const void *) { out(this, QStringLiteral("0xptr")); return *this; }
void QTextStream::flush() {}
QTextStream &endl(QTextStream &s) { return s << '\n'; }
QTextStream &Qt::endl(QTextStream &s) { return s << '\n'; }
QTextStream &Qt::flush(QTextStream &s) { return s; }

// ---------------------------------------------------------------- QDebug: a sink; arguments are still evaluated
QDebug::~QDebug() { if (stream && !--stream->ref) delete stream; }
void QDebug::putUcs4(uint) {}
void QDebug::putString(const QChar *b, size_t n) { if (n) { volatile ushort c = b[n - 1].unicode(); (void)c; } }
void QDebug::putByteArray(const char *b, size_t n, Latin1Content) { if (n) { volatile char c = b[n - 1]; (void)c; } }
QDebug &QDebug::resetFormat() { return *this; }
class QDebugStateSaverPrivate { public: int x; };
QDebugStateSaver::QDebugStateSaver(QDebug &) : d(new QDebugStateSaverPrivate) {}
QDebugStateSaver::~QDebugStateSaver() {}
static QDebug dbg() { return QDebug(QtDebugMsg); }
QDebug QMessageLogger::debug() const { return dbg(); } QDebug QMessageLogger::info() const { return dbg(); } QDebug QMessageLogger::warning() const { return dbg(); } QDebug QMessageLogger::critical() const { return dbg(); }
QDebug QMessageLogger::debug(const QLoggingCategory &) const { return dbg(); } QDebug QMessageLogger::info(const QLoggingCategory &) const { return dbg(); } QDebug QMessageLogger::warning(const QLoggingCategory &) const { return dbg(); } QDebug QMessageLogger::critical(const QLoggingCategory &) const { return dbg(); }
void QMessageLogger::debug(const char *, ...) const {} void QMessageLogger::info(const char *, ...) const {} void QMessageLogger::warning(const char *, ...) const {} void QMessageLogger::critical(const char *, ...) const {}
void QMessageLogger::debug(const QLoggingCategory &, const char *, ...) const {} void QMessageLogger::warning(const QLoggingCategory &, const char *, ...) const {} void QMessageLogger::info(const QLoggingCategory &, const char *, ...) const {} void QMessageLogger::critical(const QLoggingCategory &, const char *, ...) const {}
QDebug operator<<(QDebug d, const QVariant &) { return d; }
QDebug operator<<(QDebug d, const QUuid &) { return d; }
QDebug operator<<(QDebug d, const QUrl &) { return d; }
QDebug operator<<(QDebug d, const QDateTime &) { return d; }
QDebug operator<<(QDebug d, const QObject *o) { if (o) (void)o->objectName(); return d; }
QDebug operator<<(QDebug d, const QJsonDocument &) { return d; }
// nothing of these is evaluated
class QJsonObject; QDebug operator<<(QDebug d, const QJsonObject &) { return d; }
class QJsonArray; QDebug operator<<(QDebug d, const QJsonArray &) { return d; }
class QJsonValue; QDebug operator<<(QDebug d, const QJsonValue &) { return d; }
class QDate; QDebug operator<<(QDebug d, const QDate &) { return d; }
class QTime; QDebug operator<<(QDebug d, const QTime &) { return d; }
class QRegularExpression; QDebug operator<<(QDebug d, const QRegularExpression &) { return d; }
class QDir; QDebug operator<<(QDebug d, const QDir &) { return d; }
class QFileInfo; QDebug operator<<(QDebug d, const QFileInfo &) { return d; }
class QSslKey; QDebug operator<<(QDebug d, const QSslKey &) { return d; }
class QSslConfiguration; QDebug operator<<(QDebug d, const QSslConfiguration &) { return d; }
class QSslCipher; QDebug operator<<(QDebug d, const QSslCipher &) { return d; }
class QNetworkInterface; QDebug operator<<(QDebug d, const QNetworkInterface &) { return d; }
class QMimeType; QDebug operator<<(QDebug d, const QMimeType &) { return d; }
class QLocale; QDebug operator<<(QDebug d, const QLocale &) { return d; }
QDebug qt_QMetaEnum_debugOperator(QDebug &d, int, const QMetaObject *, const char *) { return d; }
QDebug qt_QMetaEnum_flagDebugOperator(QDebug &d, quint64, const QMetaObject *, const char *) { return d; }
void QLoggingCategory::init(const char *n, QtMsgType) { d = nullptr; name = n; bool v = vp_param("log", 0); bools.enabledDebug.storeRelaxed(v); bools.enabledInfo.storeRelaxed(v); bools.enabledWarning.storeRelaxed(v); bools.enabledCritical.storeRelaxed(v); }
QLoggingCategory::QLoggingCategory(const char *n) { init(n, QtDebugMsg); }
QLoggingCategory::QLoggingCategory(const char *n, QtMsgType t) { init(n, t); }
QLoggingCategory::~QLoggingCategory() {}
bool QLoggingCategory::isEnabled(QtMsgType) const { return isDebugEnabled(); }
void QLoggingCategory::setEnabled(QtMsgType t, bool v) { switch (t) { case QtDebugMsg: bools.enabledDebug.storeRelaxed(v); break; case QtInfoMsg: bools.enabledInfo.storeRelaxed(v); break; case QtWarningMsg: bools.enabledWarning.storeRelaxed(v); break; case QtCriticalMsg: bools.enabledCritical.storeRelaxed(v); break; default: break; } }
void QLoggingCategory::setFilterRules(const QString &) {}
static QLoggingCategory::CategoryFilter catFilter;
QLoggingCategory::CategoryFilter QLoggingCategory::installFilter(CategoryFilter f) { CategoryFilter o = catFilter; catFilter = f; return o; }
QLoggingCategory *QLoggingCategory::defaultCategory() { static QLoggingCategory c("default"); return &c; }

// ---------------------------------------------------------------- QSettings: reading an INI file
struct SetD : public ObjD { QMap<QString, QVariant> v; QStringList groups; QString file; int status; SetD() : status(0) {} };
#define S(o) static_cast<SetD *>(D(o))
static QVariant iniValue(const QByteArray &raw, bool &bad)
{
    QStringList list; QString cur; bool isList = false, inQ = false, wasQ = false; int end = 0;
    for (int i = 0; i < raw.size(); i++) {
        char c = raw.at(i);
        if (c == '\\') { if (++i >= raw.size()) break; char e = raw.at(i); switch (e) { case 'n': cur += QLatin1Char('\n'); break; case 't': cur += QLatin1Char('\t'); break; case 'r': cur += QLatin1Char('\r'); break; case '"': case '\\': cur += QLatin1Char(e); break; default: MODEL_TODO("QSettings escape"); } end = cur.size(); continue; }
        if (c == '"') { inQ = !inQ; if (inQ) wasQ = true; end = cur.size(); continue; }
        if (c == ',' && !inQ) { if (!wasQ) cur.truncate(end); isList = true; list << cur; cur = QString(QLatin1String("")); end = 0; wasQ = false; while (i + 1 < raw.size() && (raw.at(i + 1) == ' ' || raw.at(i + 1) == '\t')) i++; continue; }
        if (!inQ && (c == ' ' || c == '\t')) { cur += QLatin1Char(c); continue; }
        cur += QString(QLatin1Char(c)); end = cur.size();
    }
    cur.truncate(end); if (inQ) bad = true;
    if (isList) { list << cur; return QVariant(list); }
    if (cur.isNull()) cur = QString(QLatin1String(""));
    if (cur.startsWith(QLatin1Char('@'))) { if (cur.startsWith(QLatin1String("@@"))) cur = cur.mid(1); else MODEL_TODO("QSettings @ value"); }
    return QVariant(cur);
}
QSettings::QSettings(const QString &n, Format, QObject *p) : QObject(*reinterpret_cast<QObjectPrivate *>(static_cast<QObjectData *>(new SetD)), p)
{
    SetD *d = S(this); d->file = n; QByteArray a = fs().value(absPath(n)); QString sec; bool bad = false; int i = 0;
    while (i < a.size()) {
        int e = a.indexOf('\n', i); if (e < 0) e = a.size(); QByteArray l = a.mid(i, e - i).trimmed(); i = e + 1;
        if (l.isEmpty() || l.at(0) == ';') continue;
        if (l.at(0) == '[') { int c = l.indexOf(']'); if (c < 0) { bad = true; c = l.size(); } QByteArray s = l.mid(1, c - 1).trimmed(); if (qstricmp(s.constData(), "general") == 0) sec.clear(); else { sec = QString::fromLatin1(s); sec += QLatin1Char('/'); } if (sec.contains(QLatin1Char('%'))) MODEL_TODO("QSettings escaped section"); continue; }
        int q = l.indexOf('='); if (q < 0) { bad = true; continue; } QByteArray k = l.left(q).trimmed(); if (k.contains('%') || k.contains('\\')) MODEL_TODO("QSettings escaped key");
        // a ';' outside quotes ends the line
        QByteArray v = l.mid(q + 1); bool inQ = false; for (int j = 0; j < v.size(); j++) { char c = v.at(j); if (c == '"') inQ = !inQ; else if (c == '\\') j++; else if (c == ';' && !inQ) { v = v.left(j); break; } }
        d->v.insert(sec + QString::fromLatin1(k), iniValue(v.trimmed(), bad));
    }
    if (bad) d->status = FormatError;
}
QSettings::~QSettings() {}
bool QSettings::event(QEvent *e) { return QObject::event(e); }
QSettings::Status QSettings::status() const { return Status(S(this)->status); }
static QString key(const QSettings *s, const QString &k) { QString r; foreach (const QString &g, S(s)->groups) r += g + QLatin1Char('/'); return r + k; }
void QSettings::beginGroup(const QString &g) { S(this)->groups << g; }
void QSettings::endGroup() { if (!S(this)->groups.isEmpty()) S(this)->groups.removeLast(); }
QString QSettings::group() const { return S(this)->groups.join(QLatin1Char('/')); }
QVariant QSettings::value(const QString &k, const QVariant &def) const { QString f = key(this, k); return S(this)->v.contains(f) ? S(this)->v.value(f) : def; }
bool QSettings::contains(const QString &k) const { return S(this)->v.contains(key(this, k)); }
void QSettings::setValue(const QString &, const QVariant &) { MODEL_TODO("QSettings::setValue"); }
QString QSettings::fileName() const { return S(this)->file; }
QStringList QSettings::childKeys() const { QString p = key(this, QString()); QStringList r; foreach (const QString &k, S(this)->v.keys()) if (k.startsWith(p) && !k.mid(p.size()).contains(QLatin1Char('/'))) r << k.mid(p.size()); return r; }
QStringList QSettings::allKeys() const { QString p = key(this, QString()); QStringList r; foreach (const QString &k, S(this)->v.keys()) if (k.startsWith(p)) r << k.mid(p.size()); return r; }
QT_END_NAMESPACE
