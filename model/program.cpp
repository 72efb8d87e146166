// QtCore model for whole programs: QCoreApplication, command line parser, directories, message handler.
#include "object.h"
#include <QtCore/QCommandLineParser>
#include <QtCore/QCommandLineOption>
#include <QtCore/QDir>
#include <QtCore/QFileInfo>
#include <poll.h>
#include <errno.h>
#include <sys/socket.h>
void env_exit(int rc);
QT_BEGIN_NAMESPACE
static QStringList *args; static QString *org, *ver;
QCoreApplication::QCoreApplication(int &argc, char **argv, int) { self = this; args = new QStringList; for (int i = 0; i < argc; i++) args->append(QString::fromLocal8Bit(argv[i])); }
QCoreApplication::~QCoreApplication() { self = nullptr; }
bool QCoreApplication::notify(QObject *r, QEvent *e) { return r->event(e); }
bool QCoreApplication::event(QEvent *e) { return QObject::event(e); }
bool QCoreApplication::compressEvent(QEvent *, QObject *, QPostEventList *) { return false; }
QStringList QCoreApplication::arguments() { return args ? *args : QStringList(); }
void QCoreApplication::setOrganizationName(const QString &s) { if (!org) org = new QString; *org = s; }
QString QCoreApplication::organizationName() { return org ? *org : QString(); }
void QCoreApplication::setApplicationVersion(const QString &s) { if (!ver) ver = new QString; *ver = s; }
QString QCoreApplication::applicationVersion() { return ver ? *ver : QString(); }
static QtMessageHandler handler;
QtMessageHandler qInstallMessageHandler(QtMessageHandler h) { QtMessageHandler o = handler; handler = h; return o; }
// ---------------------------------------------------------------- QCommandLineOption, QCommandLineParser
class QCommandLineOptionPrivate : public QSharedData { public: QStringList names; QString valueName, desc; QStringList def; };
static QCommandLineOptionPrivate *optp(const QStringList &n, const QString &de = QString(), const QString &v = QString(), const QString &d = QString()) { QCommandLineOptionPrivate *p = new QCommandLineOptionPrivate; p->names = n; p->desc = de; p->valueName = v; if (!d.isNull()) p->def = QStringList(d); return p; }
QCommandLineOption::QCommandLineOption(const QString &n) : d(optp(QStringList(n))) {}
QCommandLineOption::QCommandLineOption(const QStringList &n) : d(optp(n)) {}
QCommandLineOption::QCommandLineOption(const QString &n, const QString &de, const QString &v, const QString &x) : d(optp(QStringList(n), de, v, x)) {}
QCommandLineOption::QCommandLineOption(const QStringList &n, const QString &de, const QString &v, const QString &x) : d(optp(n, de, v, x)) {}
QCommandLineOption::QCommandLineOption(const QCommandLineOption &o) : d(o.d) {}
QCommandLineOption::~QCommandLineOption() {}
QCommandLineOption &QCommandLineOption::operator=(const QCommandLineOption &o) { d = o.d; return *this; }
QStringList QCommandLineOption::names() const { return d->names; }
QString QCommandLineOption::valueName() const { return d->valueName; }
void QCommandLineOption::setValueName(const QString &s) { d->valueName = s; }
QString QCommandLineOption::description() const { return d->desc; }
void QCommandLineOption::setDescription(const QString &s) { d->desc = s; }
void QCommandLineOption::setDefaultValue(const QString &s) { d->def = s.isEmpty() ? QStringList() : QStringList(s); }
void QCommandLineOption::setDefaultValues(const QStringList &l) { d->def = l; }
QStringList QCommandLineOption::defaultValues() const { return d->def; }
class QCommandLineParserPrivate { public: QList<QCommandLineOption> opts; QList<bool> set; QList<QStringList> vals; QStringList pos, unknown; QString desc; int help = -1, version = -1, dash = 0; bool missing = false; int find(const QString &n) const { for (int i = 0; i < opts.size(); i++) if (opts.at(i).names().contains(n)) return i; return -1; } };
QCommandLineParser::QCommandLineParser() : d(new QCommandLineParserPrivate) {}
QCommandLineParser::~QCommandLineParser() { delete d; }
void QCommandLineParser::setApplicationDescription(const QString &s) { d->desc = s; }
QString QCommandLineParser::applicationDescription() const { return d->desc; }
bool QCommandLineParser::addOption(const QCommandLineOption &o) { QStringList n = o.names(); if (n.isEmpty()) return false; for (int i = 0; i < n.size(); i++) if (d->find(n.at(i)) >= 0) return false; d->opts.append(o); d->set.append(false); d->vals.append(QStringList()); return true; }
bool QCommandLineParser::addOptions(const QList<QCommandLineOption> &l) { bool r = true; for (int i = 0; i < l.size(); i++) r &= addOption(l.at(i)); return r; }
QCommandLineOption QCommandLineParser::addHelpOption() { QStringList n; n << QStringLiteral("h") << QStringLiteral("help"); QCommandLineOption o(n); d->help = d->opts.size(); addOption(o); addOption(QCommandLineOption(QStringLiteral("help-all"))); return o; }
QCommandLineOption QCommandLineParser::addVersionOption() { QStringList n; n << QStringLiteral("v") << QStringLiteral("version"); QCommandLineOption o(n); d->version = d->opts.size(); addOption(o); return o; }
bool QCommandLineParser::parse(const QStringList &a)
{
    bool err = false; d->unknown.clear(); d->pos.clear(); for (int i = 0; i < d->opts.size(); i++) { d->set[i] = false; d->vals[i].clear(); } bool rest = false;
    for (int i = 1; i < a.size(); i++) {
        QString s = a.at(i); if (rest || !s.startsWith(QLatin1Char('-')) || s.size() == 1) { d->pos.append(s); continue; } if (s == QLatin1String("--")) { rest = true; continue; }
        bool lng = s.startsWith(QLatin1String("--")); QStringList names; QString val; bool has = false;
        if (lng) { s = s.mid(2); int e = s.indexOf(QLatin1Char('=')); if (e >= 0) { val = s.mid(e + 1); s = s.left(e); has = true; } names.append(s); }
        else { s = s.mid(1); for (int k = 0; k < s.size(); k++) { names.append(s.mid(k, 1)); int o = d->find(s.mid(k, 1)); if (o >= 0 && !d->opts.at(o).valueName().isEmpty()) { if (k + 1 < s.size()) { val = s.mid(k + 1); if (val.startsWith(QLatin1Char('='))) val = val.mid(1); has = true; } break; } if (k + 1 < s.size() && s.at(k + 1) == QLatin1Char('=')) { val = s.mid(k + 2); has = true; break; } } }
        for (int k = 0; k < names.size(); k++) {
            int o = d->find(names.at(k)); if (o < 0) { d->unknown.append(names.at(k)); err = true; continue; } d->set[o] = true; bool wants = !d->opts.at(o).valueName().isEmpty(), last = k + 1 == names.size();
            if (wants && last) { if (!has) { if (i + 1 >= a.size()) { err = true; d->missing = true; continue; } val = a.at(++i); } d->vals[o].append(val); } else if (has && last) err = true;
        }
    }
    return !err;
}
void QCommandLineParser::process(const QStringList &a) { if (!parse(a)) env_exit(1); if (d->version >= 0 && d->set.at(d->version)) env_exit(0); if (d->help >= 0 && (d->set.at(d->help) || d->set.at(d->help + 1))) env_exit(0); }
void QCommandLineParser::process(const QCoreApplication &) { process(QCoreApplication::arguments()); }
bool QCommandLineParser::isSet(const QString &n) const { int i = d->find(n); return i >= 0 && d->set.at(i); }
bool QCommandLineParser::isSet(const QCommandLineOption &o) const { return !o.names().isEmpty() && isSet(o.names().first()); }
QStringList QCommandLineParser::values(const QString &n) const { int i = d->find(n); if (i < 0) return QStringList(); return d->vals.at(i).isEmpty() ? d->opts.at(i).defaultValues() : d->vals.at(i); }
QStringList QCommandLineParser::values(const QCommandLineOption &o) const { return values(o.names().first()); }
QString QCommandLineParser::value(const QString &n) const { QStringList l = values(n); return l.isEmpty() ? QString() : l.last(); }
QString QCommandLineParser::value(const QCommandLineOption &o) const { return value(o.names().first()); }
QStringList QCommandLineParser::positionalArguments() const { return d->pos; }
QStringList QCommandLineParser::optionNames() const { QStringList r; for (int i = 0; i < d->opts.size(); i++) if (d->set.at(i)) r.append(d->opts.at(i).names().first()); return r; }
QStringList QCommandLineParser::unknownOptionNames() const { return d->unknown; }
QT_END_NAMESPACE
// ---------------------------------------------------------------- pipes and pairs of sockets within the process
struct Pipe { QByteArray q; int other; bool open; };
static QList<Pipe *> *pipes;
static Pipe *pip(int fd) { return pipes && fd >= 100 && fd < 100 + pipes->size() && pipes->at(fd - 100)->open ? pipes->at(fd - 100) : nullptr; }
static int pipNew(int fds[2], bool both) { if (!pipes) pipes = new QList<Pipe *>; for (int i = 0; i < 2; i++) { Pipe *p = new Pipe; p->open = true; fds[i] = 100 + pipes->size(); p->other = i ? fds[0] : fds[0] + 1; pipes->append(p); } if (!both) pip(fds[0])->other = -1; return 0; }
extern "C" {
int *__errno_location() noexcept { static int e; return &e; }
int socketpair(int, int, int, int fds[2]) noexcept { return pipNew(fds, true); }
int pipe(int fds[2]) noexcept { return pipNew(fds, false); }
int pipe2(int fds[2], int) noexcept { return pipNew(fds, false); }
int fcntl(int, int, ...) { return 0; }
ssize_t write(int fd, const void *d, size_t n) { Pipe *p = pip(fd), *o = p ? pip(p->other) : nullptr; if (!o) { vp_fail("write to a foreign descriptor"); return -1; } o->q.append((const char *)d, int(n)); return n; }
ssize_t send(int fd, const void *d, size_t n, int) { return write(fd, d, n); }
ssize_t read(int fd, void *d, size_t n) { Pipe *p = pip(fd); if (!p) { vp_fail("read of a foreign descriptor"); return -1; } if (p->q.isEmpty()) { vp_fail("blocking read"); return -1; } if (n > (size_t)p->q.size()) n = p->q.size(); memcpy(d, p->q.constData(), n); p->q.remove(0, int(n)); return n; }
ssize_t recv(int fd, void *d, size_t n, int) { return read(fd, d, n); }
int close(int fd) { Pipe *p = pip(fd); if (!p) return -1; p->open = false; return 0; }
int poll(struct pollfd *l, nfds_t n, int) { int r = 0; for (nfds_t i = 0; i < n; i++) { Pipe *p = pip(l[i].fd); l[i].revents = 0; if (!p) continue; if ((l[i].events & POLLIN) && !p->q.isEmpty()) l[i].revents |= POLLIN; if ((l[i].events & POLLOUT) && pip(p->other)) l[i].revents |= POLLOUT; if (l[i].revents) r++; } return r; }
}
