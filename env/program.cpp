// The environment of a whole program: standard output, signals and the event loop of the application.
#include "program.h"
#define BUILDING_QSOCKETNOTIFIER
#include <QtCore/QSocketNotifier>
#include <poll.h>
void (*env_on_exec)(); bool env_quit; int env_exec_code;
QByteArray &env_printed() { static QByteArray *a = new QByteArray; return *a; }
QList<Sig> &env_signals() { static QList<Sig> *l = new QList<Sig>; return *l; }
int env_exec() __asm__("_ZN16QCoreApplication4execEv");
int env_exec() { vp_assert(QCoreApplication::instance(), "no application"); if (env_on_exec) env_on_exec(); return env_exec_code; }
void env_doquit() __asm__("_ZN16QCoreApplication4quitEv");
void env_doquit() { env_quit = true; }
typedef void (*H)(int);
extern "C" {
bool env_own_app = true;
struct VpArg { const char *s; long v; };
void vp_fprintf0(const char *f, int n, const VpArg *s)
{
    QByteArray r; int k = 0; for (; *f; f++) {
        if (*f != '%') { r.append(*f); continue; } f++; if (*f == '%') { r.append('%'); continue; } if (*f == 'l') f++; vp_assert(k < n, "printf: more conversions than arguments");
        if (*f == 's') { vp_assert(s[k].s != nullptr, "printf: not a string"); r.append(s[k++].s); } else if (*f == 'd' || *f == 'i' || *f == 'u') { vp_assert(!s[k].s, "printf: a string as number"); r.append(QByteArray::number(qlonglong(s[k++].v))); } else if (*f == 'c') r.append(char(s[k++].v)); else vp_assert(false, "printf: unknown conversion");
    } env_printed().append(r);
}
H vp_signal(int no, H h)
{
    for (int i = 0; i < env_signals().size(); i++) if (env_signals()[i].no == no) { H o = env_signals()[i].handler; env_signals()[i].handler = h; return o; }
    Sig s = { no, h }; env_signals().append(s); return nullptr;
}
}
bool env_signal(int no) { for (int i = 0; i < env_signals().size(); i++) if (env_signals()[i].no == no && (quintptr)env_signals()[i].handler > 1) { env_signals()[i].handler(no); return true; } return false; }
int env_program(const QList<QByteArray> &args)
{
    static QList<QByteArray> *keep = new QList<QByteArray>; *keep = args; char **v = (char **)malloc(sizeof(char *) * (args.size() + 1)); for (int i = 0; i < args.size(); i++) v[i] = (char *)keep->at(i).constData(); v[args.size()] = nullptr; return program_main(args.size(), v);
}
QtMessageHandler env_message_handler() { QtMessageHandler h = qInstallMessageHandler(nullptr); qInstallMessageHandler(h); return h; }
QString QSslSocket::sslLibraryVersionString() { return QStringLiteral("OpenSSL 3.0"); }
long QSslSocket::sslLibraryVersionNumber() { return 0x30000000; }
QString QSslSocket::sslLibraryBuildVersionString() { return QStringLiteral("OpenSSL 3.0"); }
// QSocketNotifier: told when the event loop finds its descriptor readable (writing is always possible)
struct Notif { QSocketNotifier *o; int fd; QSocketNotifier::Type type; bool enabled; };
static QList<Notif *> &notifs() { static QList<Notif *> *l = new QList<Notif *>; return *l; }
static Notif *notif(const QSocketNotifier *o) { for (int i = 0; i < notifs().size(); i++) if (notifs().at(i)->o == o) return notifs().at(i); vp_fail("QSocketNotifier"); return nullptr; }
static bool notified() { for (int i = 0; i < notifs().size(); i++) { Notif *n = notifs().at(i); if (!n->enabled || n->type == QSocketNotifier::Exception) continue; struct pollfd p = { n->fd, short(n->type == QSocketNotifier::Read ? POLLIN : POLLOUT), 0 }; if (poll(&p, 1, 0) <= 0) continue; QEvent e(QEvent::SockAct); static_cast<QObject *>(n->o)->event(&e); return true; } return false; }
QSocketNotifier::QSocketNotifier(qintptr fd, Type t, QObject *p) : QObject(p) { Notif *n = new Notif; n->o = this; n->fd = int(fd); n->type = t; n->enabled = true; notifs().append(n); env_notified = notified; }
QSocketNotifier::~QSocketNotifier() { Notif *n = notif(this); notifs().removeOne(n); delete n; }
qintptr QSocketNotifier::socket() const { return notif(this)->fd; }
QSocketNotifier::Type QSocketNotifier::type() const { return notif(this)->type; }
bool QSocketNotifier::isEnabled() const { return notif(this)->enabled; }
void QSocketNotifier::setEnabled(bool e) { notif(this)->enabled = e; }
bool QSocketNotifier::event(QEvent *e) { if (e->type() == QEvent::SockAct || e->type() == QEvent::SockClose) { emit activated(QSocketDescriptor(notif(this)->fd), notif(this)->type, QPrivateSignal()); return true; } return QObject::event(e); }
