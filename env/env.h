// Environment of the code under test, under the control of a harness: virtual time, event loop, and
// in-memory stand-ins for the sockets of QtNetwork and QtWebSockets. The same sources are compiled to
// bitcode (for the symbolic engine, on top of /verif/model) and natively (replay, on top of libQt5Core).
#pragma once
#include <QtCore/QtCore>
#include <QtNetwork/QHostAddress>
#include <QtNetwork/QTcpServer>
#include <QtNetwork/QSslSocket>
#include <QtNetwork/QSslConfiguration>
#include <QtNetwork/QSslCertificate>
#include <QtNetwork/QSslKey>
#include <QtNetwork/QSslError>
#include <QtNetwork/QLocalServer>
#include <QtNetwork/QLocalSocket>
#include <QtWebSockets/QWebSocket>
#include <QtWebSockets/QWebSocketServer>
#include "vp.h"

// ---- time and events
extern "C" qint64 env_now();
void env_run();                       // deliver posted events and due timers until idle
void env_advance(qint64 ms);          // let virtual time pass, firing timers in due order

// ---- sockets
struct Sock {
    enum Kind { Tcp, Local, Web } kind;
    QObject *o;                       // the socket object, nullptr once deleted
    int fd;                           // descriptor handed to the server (or -1)
    int state;                        // QAbstractSocket::SocketState
    bool sslWanted, tlsStarted, encrypted, refuseFd, serverEnc, clientEnc;
    QByteArray rx, tx;                // stream data: not yet read / written by the code under test
    QStringList msgs;                 // web socket text messages sent by the code under test
    QList<QByteArray> bins;
    int closeCode; QString closeReason;
    bool closedByCode;                // the code under test closed/aborted it
    bool closeOnConnect;              // closed while connecting: happens once connected, as in QAbstractSocket
    bool deferClose, closePending;    // unsent data at close(): disconnected arrives later
    int version;
    QString host, url, err; int port; QHostAddress peer; int errCode;
    QSslConfiguration ssl; bool sslSet; bool ignoreErrors; QList<QSslError> ignored;
    bool connectRequested;
    Sock(Kind k, QObject *o);
};
extern bool (*env_notified)();           // socket notifiers of a program
extern void (*env_point)();             // called whenever the code under test writes to a socket
QList<Sock *> &env_socks();
void env_purge();                     // forget sockets and servers whose objects are gone
Sock *env_sock(const QObject *o);     // of a live socket object
struct Srv {
    Sock::Kind kind; QObject *o; bool listening; int port; QString name; QHostAddress addr; QList<QObject *> pending; bool secure; QSslConfiguration ssl;
    int maxPending, options; QString err, title; Srv(Sock::Kind k, QObject *o);
};
QList<Srv *> &env_srvs();
Srv *env_listening(Sock::Kind k, int port);          // the listening server on that port
Srv *env_listening_local(const QString &name);
void env_block_port(int port);                       // occupied by somebody else
void env_unblock_port(int port);

// a peer connects; nullptr if nobody listens (or the descriptor is refused)
Sock *env_incoming_tcp(int port, bool refuseFd = false);
Sock *env_incoming_local(const QString &name);
Sock *env_incoming_web(int port, int version = 13);
void env_feed(Sock *s, const QByteArray &d);         // bytes arrive (readyRead)
void env_feed(Sock *s, const QByteArray &a, const QByteArray &b, bool together); // two chunks, read at once or not
void env_text(Sock *s, const QString &m);
void env_binary(Sock *s, const QByteArray &m);
void env_connected(Sock *s);                         // outgoing connection established
void env_encrypted(Sock *s);                         // TLS handshake finished
void env_ssl_errors(Sock *s, const QList<QSslError> &l);
void env_ssl_errors(Sock *s);                        // TLS handshake reports a certificate error
void env_refused(Sock *s);                           // outgoing connection fails
void env_peer_close(Sock *s);                        // the other side closes
void env_peer_closing(Sock *s);                      // the other side closes while data is still to be sent: closed by env_drain
void env_error(Sock *s, int e = QAbstractSocket::NetworkError); // error signal only
void env_drain(Sock *s);                             // pending data gets sent: finish a deferred close
extern bool env_refuse_now;                          // outgoing connections fail immediately (network unreachable)
extern bool env_defer;                               // close() with a deferred disconnect

// the code under test calls exit(): an observable event, handled by the harness (default: the path ends)
extern void (*env_on_exit)(int rc);
void env_exit(int rc);
