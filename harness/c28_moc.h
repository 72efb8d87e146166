// Handler with a method which is answered later.
#pragma once
#include "proxy.h"
#include "server/jsonrpcserver.h"
#include "jsonrpc/jsonhandler.h"
#include "jsonrpc/jsonreply.h"
#include "jsonrpc/jsontypes.h"
namespace remoteproxy {
class AsyncHandler : public JsonHandler
{
    Q_OBJECT
public:
    QList<JsonReply *> replies; QList<int> numbers;
    AsyncHandler(QObject *parent) : JsonHandler(parent)
    {
        QVariantMap p, r; setDescription("Slow", "answered later"); p.insert("n", JsonTypes::basicTypeToString(JsonTypes::Int)); setParams("Slow", p); r.insert("n", JsonTypes::basicTypeToString(JsonTypes::Int)); setReturns("Slow", r);
    }
    QString name() const override { return "Async"; }
    Q_INVOKABLE JsonReply *Slow(const QVariantMap &params, TransportClient *) { JsonReply *r = createAsyncReply("Slow"); replies.append(r); numbers.append(params.value("n").toInt()); return r; }
};
}
