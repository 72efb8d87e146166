// Private part of the QObject model.
#pragma once
#include "m.h"
QT_BEGIN_NAMESPACE
struct Conn {
    QObject *sender; const QMetaObject *smo; int sidx;   // signal: declaring meta object and local index
    QObject *recv; QtPrivate::QSlotObjectBase *slot;     // slot object, or
    const QMetaObject *rmo; int ridx;                    // ... meta method
    int type, refs;
};
struct ObjD : public QObjectData {
    ObjD() { q_ptr = nullptr; parent = nullptr; isWidget = blockSig = wasDeleted = isDeletingChildren = 0; sendChildEvents = receiveChildEvents = 1; isWindow = deleteLaterCalled = unused = 0; postedEvents = 0; metaObject = nullptr; ref = nullptr; curSender = nullptr; }
    QString name; QList<Conn *> out, in; QtSharedPointer::ExternalRefCountData *ref;
    struct Cur { QObject *sender; int sig; Cur *prev; bool dead; } *curSender;
    QVector<QPointer<QObject>> filters; QVariantMap props;
};
struct IoD : public ObjD { int mode; QString err; QByteArray unget; qint64 p; bool text; IoD() : mode(0), p(0), text(false) {} };
static inline ObjD *D(const QObject *o) { return static_cast<ObjD *>(const_cast<QObject *>(o)->d_ptr.data()); }
QT_END_NAMESPACE
