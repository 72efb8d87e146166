From b4506c0ed9136c767fc818dfbe17e04fb583c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 01/28] fix: hand the decoded SLIP frames of a tunnel server on
 and drop malformed ones

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
index 81e9e35..6bb8ede 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyclient.cpp
@@ -83,9 +83,10 @@ QList<QByteArray> TunnelProxyClient::processData(const QByteArray &data)
                     qCWarning(dcTunnelProxyServerTraffic()) << "Received inconsistant SLIP encoded message. Ignoring data...";
                 } else {
                     qCDebug(dcTunnelProxyServerTraffic()) << "Frame received";
-                    packets.append(m_dataBuffer);
-                    m_dataBuffer.clear();
+                    packets.append(frame);
                 }
+
+                m_dataBuffer.clear();
             } else {
                 m_dataBuffer.append(data.at(i));
             }
-- 
2.43.0


From b14525fcfb5495908b3e942f30bd1dfcdf52d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 02/28] fix: reject SLIP frames which end within an escape
 sequence

---
 common/slipdataprocessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/slipdataprocessor.cpp b/common/slipdataprocessor.cpp
index a2ab18a..352a17f 100644
--- a/common/slipdataprocessor.cpp
+++ b/common/slipdataprocessor.cpp
@@ -62,6 +62,11 @@ QByteArray SlipDataProcessor::deserializeData(const QByteArray &data)
         }
     }
 
+    if (escaped) {
+        qWarning() << "Error while deserializing data. The data ends within an escape sequence.";
+        return QByteArray();
+    }
+
     return deserializedData;
 }
 
-- 
2.43.0


From 8a7259b6156d0c6307c79eff72a4a82cfe87e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 03/28] fix: search all socket addresses for a free one

---
 .../tunnelproxy/tunnelproxyserverconnection.cpp                 | 2 +-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h  | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
index 0eb8690..6add55f 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.cpp
@@ -86,7 +86,7 @@ quint16 TunnelProxyServerConnection::getFreeAddress()
 {
     m_currentAddressCounter += 1;
     quint16 address = m_currentAddressCounter;
-    for (int i = 0; i < m_connectionLimit; i++) {
+    for (int i = 0; i <= 0xFFFF; i++) {
         if (m_clientConnectionsAddresses.contains(address) || address == 0x0000 || address == 0xFFFF) {
             address++;
         } else {
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
index 17f62cc..17e9c54 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserverconnection.h
@@ -59,7 +59,6 @@ private:
     TransportClient *m_transportClient = nullptr;
     QUuid m_serverUuid;
     QString m_serverName;
-    quint16 m_connectionLimit = 100;
 
     quint16 m_currentAddressCounter = 0;
 
-- 
2.43.0


From be00de2f840a315ea4e2ed766069be2894145f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 04/28] fix: use a new id for each request and never take a
 notification for a response

---
 libnymea-remoteproxyclient/proxyjsonrpcclient.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
index 84ec7f8..7903a91 100644
--- a/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
+++ b/libnymea-remoteproxyclient/proxyjsonrpcclient.cpp
@@ -49,6 +49,7 @@ JsonReply *JsonRpcClient::callHello()
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
     m_replies.insert(m_commandId, reply);
+    m_commandId++;
     return reply;
 }
 
@@ -62,6 +63,7 @@ JsonReply *JsonRpcClient::callRegisterServer(const QUuid &serverUuid, const QStr
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
     m_replies.insert(m_commandId, reply);
+    m_commandId++;
     return reply;
 }
 
@@ -76,6 +78,7 @@ JsonReply *JsonRpcClient::callRegisterClient(const QUuid &clientUuid, const QStr
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap());
     m_replies.insert(m_commandId, reply);
+    m_commandId++;
     return reply;
 }
 
@@ -88,6 +91,7 @@ JsonReply *JsonRpcClient::callDisconnectClient(quint16 socketAddress)
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
     m_replies.insert(m_commandId, reply);
+    m_commandId++;
     return reply;
 }
 
@@ -100,6 +104,7 @@ JsonReply *JsonRpcClient::callPing(uint timestamp)
     qCDebug(dcRemoteProxyClientJsonRpc()) << "Calling" << QString("%1.%2").arg(reply->nameSpace()).arg(reply->method());
     sendRequest(reply->requestMap(), true);
     m_replies.insert(m_commandId, reply);
+    m_commandId++;
     return reply;
 }
 
@@ -133,7 +138,10 @@ void JsonRpcClient::processDataPacket(const QByteArray &data)
 
     // check if this is a reply to a request
     int commandId = dataMap.value("id").toInt();
-    JsonReply *reply = m_replies.take(commandId);
+    JsonReply *reply = nullptr;
+    if (!dataMap.contains("notification"))
+        reply = m_replies.take(commandId);
+
     if (reply) {
         qCDebug(dcRemoteProxyClientJsonRpcTraffic()) << QString("Got response for %1.%2: %3").arg(reply->nameSpace(), reply->method(), QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)));
 
-- 
2.43.0


From da8d2031fb1b368147dd85d0dddb96a0b5905d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 05/28] fix: do not truncate the socket address of
 DisconnectClient

---
 libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp    | 2 +-
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 8 ++++++--
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
index beea4c9..202dc9c 100644
--- a/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
+++ b/libnymea-remoteproxy/jsonrpc/tunnelproxyhandler.cpp
@@ -121,7 +121,7 @@ JsonReply *TunnelProxyHandler::RegisterServer(const QVariantMap &params, Transpo
 JsonReply *TunnelProxyHandler::DisconnectClient(const QVariantMap &params, TransportClient *transportClient)
 {
     qCDebug(dcJsonRpc()) << name() << "disconnect client requested" << params << transportClient;
-    quint16 socketAddress = static_cast<quint16>(params.value("socketAddress").toUInt());
+    uint socketAddress = params.value("socketAddress").toUInt();
     TunnelProxyServer::TunnelProxyError error = Engine::instance()->tunnelProxyServer()->disconnectClient(transportClient->clientId(), socketAddress);
 
     QVariantMap response;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index 22737aa..a107bc0 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -198,7 +198,7 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerClient(const QUui
     return TunnelProxyServer::TunnelProxyErrorNoError;
 }
 
-TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QUuid &clientId, quint16 socketAddress)
+TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QUuid &clientId, quint32 socketAddress)
 {
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -219,7 +219,11 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::disconnectClient(const QU
         return TunnelProxyServer::TunnelProxyErrorInternalServerError;
     }
 
-    TunnelProxyClientConnection *clientConnection = serverConnection->getClientConnection(socketAddress);
+    // Note: the socket address is a 16 bit value, larger ones do not address any client
+    TunnelProxyClientConnection *clientConnection = nullptr;
+    if (socketAddress <= 0xFFFF)
+        clientConnection = serverConnection->getClientConnection(static_cast<quint16>(socketAddress));
+
     if (!clientConnection) {
         qCWarning(dcTunnelProxyServer()) << "Could not find client connection for socket address" << socketAddress << "on" << serverConnection;
         return TunnelProxyServer::TunnelProxyErrorUnknownSocketAddress;
diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
index 15ec820..707ef03 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.h
@@ -65,7 +65,7 @@ public:
 
     TunnelProxyServer::TunnelProxyError registerServer(const QUuid &clientId, const QUuid &serverUuid, const QString &serverName);
     TunnelProxyServer::TunnelProxyError registerClient(const QUuid &clientId, const QUuid &clientUuid, const QString &clientName, const QUuid &serverUuid);
-    TunnelProxyServer::TunnelProxyError disconnectClient(const QUuid &clientId, quint16 socketAddress);
+    TunnelProxyServer::TunnelProxyError disconnectClient(const QUuid &clientId, quint32 socketAddress);
 
     QVariantMap currentStatistics(bool printAll = false);
 
-- 
2.43.0


From 29734b49e0adcc4d5be51ba286b844c666987e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 06/28] fix: clean up all pending replies of a disconnected
 client

---
 libnymea-remoteproxy/server/jsonrpcserver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnymea-remoteproxy/server/jsonrpcserver.cpp b/libnymea-remoteproxy/server/jsonrpcserver.cpp
index fa46c44..244788a 100644
--- a/libnymea-remoteproxy/server/jsonrpcserver.cpp
+++ b/libnymea-remoteproxy/server/jsonrpcserver.cpp
@@ -379,9 +379,10 @@ void JsonRpcServer::unregisterClient(TransportClient *transportClient)
 
     if (m_asyncReplies.values().contains(transportClient)) {
         qCWarning(dcJsonRpc()) << "Client was still waiting for a reply. Clean up reply";
-        JsonReply *reply = m_asyncReplies.key(transportClient);
-        m_asyncReplies.remove(reply);
-        // Note: the reply will be deleted in the finished slot
+        foreach (JsonReply *reply, m_asyncReplies.keys(transportClient)) {
+            m_asyncReplies.remove(reply);
+        }
+        // Note: the replies will be deleted in the finished slot
     }
 }
 
-- 
2.43.0


From 16d5d39f8984c1369bfa73bd7405ad76a5eb6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 07/28] fix: process all monitor messages independent of how
 they have been split into reads

---
 monitor/monitorclient.cpp | 25 +++++++++++--------------
 monitor/monitorclient.h   |  2 +-
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index c1ec45b..9e6e6db 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -50,10 +50,10 @@ void MonitorClient::setPrintAll(bool printAll)
     m_printAll = printAll;
 }
 
-void MonitorClient::processBufferData()
+void MonitorClient::processBufferData(const QByteArray &data)
 {
     QJsonParseError error;
-    QJsonDocument jsonDoc = QJsonDocument::fromJson(m_dataBuffer, &error);
+    QJsonDocument jsonDoc = QJsonDocument::fromJson(data, &error);
     if(error.error != QJsonParseError::NoError) {
         qWarning() << "Failed to parse JSON data:" << error.errorString();
         return;
@@ -85,18 +85,15 @@ void MonitorClient::onDisconnected()
 void MonitorClient::onReadyRead()
 {
     // Note: the server sends the data compact with "\n" at the end
-    QByteArray data = m_socket->readAll();
-
-    int index = data.indexOf("}\n");
-    if (index < 0) {
-        // Append the entire data and continue
-        m_dataBuffer.append(data);
-        return;
-    } else {
-        m_dataBuffer.append(data.left(index + 1));
-        processBufferData();
-        m_dataBuffer.clear();
-        m_dataBuffer.append(data.right(data.length() - index - 2));
+    m_dataBuffer.append(m_socket->readAll());
+
+    // Process each complete message, independent of how the data has been split up
+    int index = m_dataBuffer.indexOf("}\n");
+    while (index >= 0) {
+        QByteArray message = m_dataBuffer.left(index + 1);
+        m_dataBuffer.remove(0, index + 2);
+        processBufferData(message);
+        index = m_dataBuffer.indexOf("}\n");
     }
 }
 
diff --git a/monitor/monitorclient.h b/monitor/monitorclient.h
index 113b3df..b1b5d5c 100644
--- a/monitor/monitorclient.h
+++ b/monitor/monitorclient.h
@@ -48,7 +48,7 @@ private:
     bool m_printAll = false;
     QByteArray m_dataBuffer;
 
-    void processBufferData();
+    void processBufferData(const QByteArray &data);
 
 signals:
     void connected();
-- 
2.43.0


From 13a4b7075dfdaf154da1a819f61a6913600bbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 08/28] fix: delete the sockets of disconnected unix socket
 clients

---
 libnymea-remoteproxy/server/unixsocketserver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index 7eb959a..abb46e7 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -140,6 +140,7 @@ void UnixSocketServer::onClientConnected()
         if (m_clientList.take(clientId)) {
             emit clientDisconnected(clientId);
         }
+        client->deleteLater();
     });
     connect(client, &QLocalSocket::readyRead, this, [this, client, clientId](){
         QByteArray data = client->readAll();
-- 
2.43.0


From 9f35b6b5cf76cb886a141d52e0a0fe201b402cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 09/28] fix: handle frames following the registration response
 and closing the connection while processing data in the tunnel socket server

---
 .../tunnelproxy/tunnelproxysocketserver.cpp   | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 8cda6e7..a0f23d7 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -192,14 +192,21 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     // We recived data, let's reset the keep alive timer
     m_keepAliveTimer.start();
 
-    if (m_state != StateRunning) {
-        m_jsonClient->processData(data);
+    // Until the registration succeeded we receive newline terminated JSON messages. The message which
+    // completes the registration can already be followed by SLIP frames.
+    int position = 0;
+    while (m_state != StateRunning) {
+        int index = data.indexOf('\n', position);
+        int end = index < 0 ? data.length() : index + 1;
+        m_jsonClient->processData(data.mid(position, end - position));
         m_dataBuffer.clear();
-        return;
+        position = end;
+        if (position >= data.length() || !m_jsonClient)
+            return;
     }
 
     // Parse SLIP frame
-    for (int i = 0; i < data.length(); i++) {
+    for (int i = position; i < data.length(); i++) {
         quint8 byte = static_cast<quint8>(data.at(i));
         if (byte == SlipDataProcessor::ProtocolByteEnd) {
             // If there is no data...continue since it might be a starting END byte
@@ -226,6 +233,10 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
             }
 
             m_dataBuffer.clear();
+
+            // The connection might have been closed because of this frame
+            if (m_state != StateRunning)
+                return;
         } else {
             m_dataBuffer.append(data.at(i));
         }
@@ -345,6 +356,10 @@ void TunnelProxySocketServer::requestSocketDisconnect(quint16 socketAddress)
 {
     TunnelProxySocket *socket = m_tunnelProxySockets.value(socketAddress);
     qCDebug(dcTunnelProxySocketServer()) << "Request to disconnect socket" << socket;
+    if (!m_jsonClient) {
+        qCWarning(dcTunnelProxySocketServer()) << "Could not disconnect socket. Not connected to the remote proxy server.";
+        return;
+    }
 
     JsonReply *reply = m_jsonClient->callDisconnectClient(socketAddress);
     connect(reply, &JsonReply::finished, this, [=](){
-- 
2.43.0


From 7b1e19b90411d38b5bf59f68ebf99bac3698ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 10/28] fix: deliver tunnel data received together with the
 registration response

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 43274af..5d9e7e3 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -176,12 +176,19 @@ void TunnelProxyRemoteConnection::onConnectionChanged(bool connected)
 
 void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &data)
 {
-    if (m_state != StateRemoteConnected) {
-        m_jsonClient->processData(data);
-        return;
+    // Until the registration succeeded we receive newline terminated JSON messages. The message which
+    // completes the registration can already be followed by tunnel data.
+    int position = 0;
+    while (m_state != StateRemoteConnected) {
+        int index = data.indexOf('\n', position);
+        int end = index < 0 ? data.length() : index + 1;
+        m_jsonClient->processData(data.mid(position, end - position));
+        position = end;
+        if (position >= data.length() || !m_jsonClient)
+            return;
     }
 
-    emit dataReady(data);
+    emit dataReady(data.mid(position));
 }
 
 void TunnelProxyRemoteConnection::onConnectionSocketError(QAbstractSocket::SocketError error)
-- 
2.43.0


From 8a344a25f8f2a4c6443a800691cd81afa07aadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 11/28] fix: websocket messages containing null bytes are not
 truncated

---
 libnymea-remoteproxy/server/websocketserver.cpp    | 3 ++-
 libnymea-remoteproxyclient/websocketconnection.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/server/websocketserver.cpp b/libnymea-remoteproxy/server/websocketserver.cpp
index c7eefa5..f847f24 100644
--- a/libnymea-remoteproxy/server/websocketserver.cpp
+++ b/libnymea-remoteproxy/server/websocketserver.cpp
@@ -64,7 +64,8 @@ void WebSocketServer::sendData(const QUuid &clientId, const QByteArray &data)
     client = m_clientList.value(clientId);
     if (client) {
         qCDebug(dcWebSocketServerTraffic()) << "--> Sending data to client:" << data;
-        client->sendTextMessage(data);
+        // Note: the length has to be passed explicitly, otherwise the text ends at the first null byte
+        client->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
     } else {
         qCWarning(dcWebSocketServer()) << "Client" << clientId << "unknown to this transport";
     }
diff --git a/libnymea-remoteproxyclient/websocketconnection.cpp b/libnymea-remoteproxyclient/websocketconnection.cpp
index 91a4165..84fe530 100644
--- a/libnymea-remoteproxyclient/websocketconnection.cpp
+++ b/libnymea-remoteproxyclient/websocketconnection.cpp
@@ -51,7 +51,8 @@ WebSocketConnection::~WebSocketConnection()
 
 void WebSocketConnection::sendData(const QByteArray &data)
 {
-    m_webSocket->sendTextMessage(QString::fromUtf8(data));
+    // Note: the length has to be passed explicitly, otherwise the text ends at the first null byte
+    m_webSocket->sendTextMessage(QString::fromUtf8(data.constData(), data.size()));
 }
 
 void WebSocketConnection::ignoreSslErrors()
-- 
2.43.0


From fb541926647cf9e22afc8ddf7411576a697a9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 12/28] fix: report disconnects of clients with pending data
 when a transport stops

---
 libnymea-remoteproxy/server/tcpsocketserver.cpp  | 6 ++++++
 libnymea-remoteproxy/server/unixsocketserver.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/libnymea-remoteproxy/server/tcpsocketserver.cpp b/libnymea-remoteproxy/server/tcpsocketserver.cpp
index b130586..b2ab82b 100644
--- a/libnymea-remoteproxy/server/tcpsocketserver.cpp
+++ b/libnymea-remoteproxy/server/tcpsocketserver.cpp
@@ -121,6 +121,12 @@ bool TcpSocketServer::stopServer()
         killClientConnection(clientId, "Stop server");
     }
 
+    // Abort connections which are still waiting for pending data to be written,
+    // otherwise they would vanish together with the server without being reported
+    foreach (QSslSocket *client, m_clientList.values()) {
+        client->abort();
+    }
+
     m_server->close();
     m_server->deleteLater();
     m_server = nullptr;
diff --git a/libnymea-remoteproxy/server/unixsocketserver.cpp b/libnymea-remoteproxy/server/unixsocketserver.cpp
index abb46e7..d65ff8f 100644
--- a/libnymea-remoteproxy/server/unixsocketserver.cpp
+++ b/libnymea-remoteproxy/server/unixsocketserver.cpp
@@ -118,6 +118,10 @@ bool UnixSocketServer::stopServer()
     qCDebug(dcUnixSocketServer()) << "Stopping server" << m_socketFileName;
     foreach (QLocalSocket *clientConnection, m_clientList) {
         clientConnection->close();
+
+        // Do not wait for pending data to be written, the socket gets deleted together with
+        // the server and the disconnect would not be reported any more
+        clientConnection->abort();
     }
 
     m_server->close();
-- 
2.43.0


From 8d5b88561fc3a10140e11b3b0af9015acfd6f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 13/28] fix: engine stopped right after the start does not
 report running

---
 libnymea-remoteproxy/engine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnymea-remoteproxy/engine.cpp b/libnymea-remoteproxy/engine.cpp
index 8777293..b94f5ec 100644
--- a/libnymea-remoteproxy/engine.cpp
+++ b/libnymea-remoteproxy/engine.cpp
@@ -250,6 +250,10 @@ void Engine::setRunning(bool running)
     if (m_running == running)
         return;
 
+    // The engine might have been stopped before the queued call from start() has been delivered
+    if (running && !m_tunnelProxyServer)
+        return;
+
     if (m_tunnelProxyServer)
         m_tunnelProxyServer->setRunning(running);
 
-- 
2.43.0


From 704da208518854e76ee090fb69ecee56ff3abd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:09 +0000
Subject: [PATCH 14/28] fix: monitor client drops incomplete data of a previous
 connection

---
 monitor/monitorclient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 9e6e6db..8558fa5 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -73,6 +73,9 @@ void MonitorClient::processBufferData(const QByteArray &data)
 void MonitorClient::onConnected()
 {
     qDebug() << "Monitor connected to" << m_serverName;
+
+    // Drop incomplete data of a previous connection
+    m_dataBuffer.clear();
     emit connected();
 }
 
-- 
2.43.0


From b015c441bfc4bd04598df4419603e162c1c738df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 15/28] fix: do not accept the template name of an optional
 parameter as parameter

---
 libnymea-remoteproxy/jsonrpc/jsontypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxy/jsonrpc/jsontypes.cpp b/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
index fb23236..24e7856 100644
--- a/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
+++ b/libnymea-remoteproxy/jsonrpc/jsontypes.cpp
@@ -94,7 +94,7 @@ QPair<bool, QString> JsonTypes::validateMap(const QVariantMap &templateMap, cons
     foreach (const QString &key, map.keys()) {
         QString optKey = "o:" + key;
 
-        if (!templateMap.contains(key) && !templateMap.contains(optKey)) {
+        if ((key.startsWith("o:") || !templateMap.contains(key)) && !templateMap.contains(optKey)) {
             qCWarning(dcJsonRpc()) << "Forbidden param" << key << "in params";
             QJsonDocument jsonDoc = QJsonDocument::fromVariant(map);
             return report(false, QString("Forbidden key \"%1\" in %2").arg(key).arg(QString(jsonDoc.toJson())));
-- 
2.43.0


From 787f7df386330697e1a61512275c6b906b8f2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:17 +0000
Subject: [PATCH 16/28] fix: a replaced or lost connection of the client
 library must not affect a new one

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp                | 3 +++
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 5d9e7e3..d370681 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -302,12 +302,15 @@ void TunnelProxyRemoteConnection::setError(QAbstractSocket::SocketError error)
 
 void TunnelProxyRemoteConnection::cleanUp()
 {
+    // Note: the old objects get deleted later, make sure they can not affect a new connection any more
     if (m_jsonClient) {
+        m_jsonClient->disconnect(this);
         m_jsonClient->deleteLater();
         m_jsonClient = nullptr;
     }
 
     if (m_connection) {
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index a0f23d7..5fd3c24 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -466,12 +466,15 @@ void TunnelProxySocketServer::cleanUp()
         onTunnelProxyClientDisconnected(socketAddress);
     }
 
+    // Note: the old objects get deleted later, make sure they can not affect a new connection any more
     if (m_jsonClient) {
+        m_jsonClient->disconnect(this);
         m_jsonClient->deleteLater();
         m_jsonClient = nullptr;
     }
 
     if (m_connection) {
+        m_connection->disconnect(this);
         m_connection->deleteLater();
         m_connection = nullptr;
     }
-- 
2.43.0


From abaee084996a810941305e2182a75fee4ad33fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:17 +0000
Subject: [PATCH 17/28] fix: try to reconnect if the first connection attempt
 fails immediately

---
 .../tunnelproxy/tunnelproxysocketserver.cpp                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 5fd3c24..0bc3d6d 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -148,8 +148,9 @@ bool TunnelProxySocketServer::startServer(const QUrl &serverUrl)
     connect(m_jsonClient, &JsonRpcClient::tunnelProxyClientDisonnected, this, &TunnelProxySocketServer::onTunnelProxyClientDisconnected);
 
     qCDebug(dcTunnelProxySocketServer()) << "Connecting to" << m_serverUrl.toString();
-    m_connection->connectServer(m_serverUrl);
+    // Note: the connection can fail immediately, make sure we will try again
     m_enabled = true;
+    m_connection->connectServer(m_serverUrl);
 
     return true;
 }
-- 
2.43.0


From 6fdbdebd074e12040f1dcb28d3ca37e767d14bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:17 +0000
Subject: [PATCH 18/28] fix: process the messages before the registration of
 the client library independent of how they have been split into reads

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp  | 16 +++++++++++++---
 .../tunnelproxy/tunnelproxyremoteconnection.h    |  1 +
 .../tunnelproxy/tunnelproxysocketserver.cpp      | 15 ++++++++++++---
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index d370681..61171e7 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -181,9 +181,17 @@ void TunnelProxyRemoteConnection::onConnectionDataAvailable(const QByteArray &da
     int position = 0;
     while (m_state != StateRemoteConnected) {
         int index = data.indexOf('\n', position);
-        int end = index < 0 ? data.length() : index + 1;
-        m_jsonClient->processData(data.mid(position, end - position));
-        position = end;
+        if (index < 0) {
+            m_dataBuffer.append(data.mid(position));
+            return;
+        }
+
+        m_dataBuffer.append(data.mid(position, index + 1 - position));
+        position = index + 1;
+
+        QByteArray message = m_dataBuffer;
+        m_dataBuffer.clear();
+        m_jsonClient->processData(message);
         if (position >= data.length() || !m_jsonClient)
             return;
     }
@@ -315,6 +323,8 @@ void TunnelProxyRemoteConnection::cleanUp()
         m_connection = nullptr;
     }
 
+    m_dataBuffer.clear();
+
     m_remoteProxyServer.clear();
     m_remoteProxyServerName.clear();
     m_remoteProxyServerVersion.clear();
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
index 6a86534..131b17f 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.h
@@ -130,6 +130,7 @@ private:
 
     ProxyConnection *m_connection = nullptr;
     JsonRpcClient *m_jsonClient = nullptr;
+    QByteArray m_dataBuffer;
 
     void setState(State state);
     void setRemoteConnected(bool remoteConnected);
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 0bc3d6d..39becd4 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -198,10 +198,17 @@ void TunnelProxySocketServer::onConnectionDataAvailable(const QByteArray &data)
     int position = 0;
     while (m_state != StateRunning) {
         int index = data.indexOf('\n', position);
-        int end = index < 0 ? data.length() : index + 1;
-        m_jsonClient->processData(data.mid(position, end - position));
+        if (index < 0) {
+            m_dataBuffer.append(data.mid(position));
+            return;
+        }
+
+        m_dataBuffer.append(data.mid(position, index + 1 - position));
+        position = index + 1;
+
+        QByteArray message = m_dataBuffer;
         m_dataBuffer.clear();
-        position = end;
+        m_jsonClient->processData(message);
         if (position >= data.length() || !m_jsonClient)
             return;
     }
@@ -480,6 +487,8 @@ void TunnelProxySocketServer::cleanUp()
         m_connection = nullptr;
     }
 
+    m_dataBuffer.clear();
+
     m_remoteProxyServer.clear();
     m_remoteProxyServerName.clear();
     m_remoteProxyServerVersion.clear();
-- 
2.43.0


From 39f96944c9ae811461ef18cb6b1a95c4f3940db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 19/28] fix: show the data counters of the client connections
 in the non-interactive monitor

---
 monitor/noninteractivemonitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index f149bc7..cf41d42 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
-- 
2.43.0


From c565cb2d43419fdfb290f087ba50822395864950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 20/28] fix: print the JSON report of the monitor without
 encoding it twice and exit successfully

---
 monitor/monitorclient.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/monitor/monitorclient.cpp b/monitor/monitorclient.cpp
index 8558fa5..b5cbb75 100644
--- a/monitor/monitorclient.cpp
+++ b/monitor/monitorclient.cpp
@@ -60,10 +60,9 @@ void MonitorClient::processBufferData(const QByteArray &data)
     }
 
     if (m_jsonMode) {
-        qStdOut() << qUtf8Printable(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
-        QTextStream out(stdout);
-        out.flush();
-        exit(EXIT_FAILURE);
+        qStdOut() << QString::fromUtf8(jsonDoc.toJson(QJsonDocument::Indented)) << "\n";
+        qStdOut().flush();
+        exit(EXIT_SUCCESS);
     }
 
     QVariantMap dataMap = jsonDoc.toVariant().toMap();
-- 
2.43.0


From d019f2288d2cbaad8f843f64d2eefa169942a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 21/28] fix: monitor shows data counters beyond 2 GiB

---
 monitor/noninteractivemonitor.cpp | 10 +++++-----
 monitor/terminalwindow.cpp        | 16 ++++++++--------
 monitor/utils.h                   |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/monitor/noninteractivemonitor.cpp b/monitor/noninteractivemonitor.cpp
index cf41d42..545e58b 100644
--- a/monitor/noninteractivemonitor.cpp
+++ b/monitor/noninteractivemonitor.cpp
@@ -53,7 +53,7 @@ void NonInteractiveMonitor::onConnected()
         qStdOut() << "Total client count:" << tunnelProxyMap.value("totalClientCount", 0).toInt() << "\n";
         qStdOut() << "Server connections:" << tunnelProxyMap.value("serverConnectionsCount", 0).toInt() << "\n";
         qStdOut() << "Client connections:" << tunnelProxyMap.value("clientConnectionsCount", 0).toInt() << "\n";
-        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toInt()) + " / s" << "\n";
+        qStdOut() << "Data troughput:" << Utils::humanReadableTraffic(tunnelProxyMap.value("troughput", 0).toULongLong()) + " / s" << "\n";
         qStdOut() << "---------------------------------------------------------------------" << "\n";
         QVariantMap transportsMap = tunnelProxyMap.value("transports").toMap();
         foreach(const QString &transportInterface, transportsMap.keys()) {
@@ -78,8 +78,8 @@ void NonInteractiveMonitor::onConnected()
                     .arg(serverConnectionTime)
                     .arg(serverMap.value("serverUuid").toString())
                     .arg(serverMap.value("address").toString(), - 15)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toInt()), - 9)
-                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toInt()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("rxDataCount").toULongLong()), - 9)
+                    .arg(Utils::humanReadableTraffic(serverMap.value("txDataCount").toULongLong()), - 9)
                     .arg(serverMap.value("name").toString());
 
             qStdOut() << serverLinePrint << "\n";
@@ -97,8 +97,8 @@ void NonInteractiveMonitor::onConnected()
                         .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toLongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                         .arg(clientMap.value("clientUuid").toString())
                         .arg(clientMap.value("address").toString(), - 15)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 9)
-                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toULongLong()), - 9)
+                        .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toULongLong()), - 9)
                         .arg(clientMap.value("name").toString(), -30);
 
                 qStdOut() << clientLinePrint << "\n";
diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index 182c988..a554ae9 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -166,7 +166,7 @@ void TerminalWindow::paintHeader()
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
                 .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toInt()) + " / s", - 13)
+                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toULongLong()) + " / s", - 13)
                 .arg(windowName);
         break;
     }
@@ -194,8 +194,8 @@ void TerminalWindow::paintContentClients()
         uint timeStamp = clientMap.value("timestamp").toUInt();
         QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
-        int rxDataCountBytes = clientMap.value("rxDataCount").toInt();
-        int txDataCountBytes = clientMap.value("txDataCount").toInt();
+        quint64 rxDataCountBytes = clientMap.value("rxDataCount").toULongLong();
+        quint64 txDataCountBytes = clientMap.value("txDataCount").toULongLong();
 
         QString clientPrint = QString("%1 | %2 | %3 | RX: %4 | TX: %5 | %6 | %7 | %8")
                 .arg(clientConnectionTime)
@@ -228,7 +228,7 @@ void TerminalWindow::paintContentTunnels()
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
                 .arg(Utils::getDurationString(timeStamp))
-                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toInt() + clientOne.value("txDataCount").toInt()), - 10)
+                .arg(Utils::humanReadableTraffic(clientOne.value("rxDataCount").toULongLong() + clientOne.value("txDataCount").toULongLong()), - 10)
                 .arg(clientOne.value("userName").toString())
                 .arg(clientOne.value("name").toString())
                 .arg(clientOne.value("address").toString())
@@ -250,8 +250,8 @@ void TerminalWindow::paintContentTunnelProxy()
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
         QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
-        int rxDataCountBytes = serverMap.value("rxDataCount").toInt();
-        int txDataCountBytes = serverMap.value("txDataCount").toInt();
+        quint64 rxDataCountBytes = serverMap.value("rxDataCount").toULongLong();
+        quint64 txDataCountBytes = serverMap.value("txDataCount").toULongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                 .arg(serverConnectionTime)
                 .arg(serverMap.value("address").toString(), - 16)
@@ -286,8 +286,8 @@ void TerminalWindow::paintContentTunnelProxy()
             QString clientLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
                     .arg(QDateTime::fromMSecsSinceEpoch(clientMap.value("timestamp").toULongLong() * 1000).toString("dd.MM.yyyy hh:mm:ss"))
                     .arg(clientMap.value("address").toString(), - 16)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toInt()), - 10)
-                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toInt()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("rxDataCount").toULongLong()), - 10)
+                    .arg(Utils::humanReadableTraffic(clientMap.value("txDataCount").toULongLong()), - 10)
                     .arg(clientMap.value("name").toString(), -30);
 
             mvwprintw(m_contentWindow, i, 6, "%s", clientLinePrint.trimmed().toLatin1().constData());
diff --git a/monitor/utils.h b/monitor/utils.h
index 5a121c4..0cda6cc 100644
--- a/monitor/utils.h
+++ b/monitor/utils.h
@@ -49,7 +49,7 @@ public:
         return QString::asprintf("%02d:%02d:%02d", hours, minutes, seconds);
     }
 
-    inline static QString humanReadableTraffic(int bytes) {
+    inline static QString humanReadableTraffic(quint64 bytes) {
         double dataCount = bytes;
         QStringList list;
         list << "KB" << "MB" << "GB" << "TB";
-- 
2.43.0


From 9e828087040f1cb27238e6784fbfc329db800324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 22/28] fix: the connection time of the servers in the monitor
 does not overflow

---
 monitor/terminalwindow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index a554ae9..a2bcf76 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -192,7 +192,7 @@ void TerminalWindow::paintContentClients()
         QVariantMap clientMap = clientVariant.toMap();
 
         uint timeStamp = clientMap.value("timestamp").toUInt();
-        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString clientConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         quint64 rxDataCountBytes = clientMap.value("rxDataCount").toULongLong();
         quint64 txDataCountBytes = clientMap.value("txDataCount").toULongLong();
@@ -223,7 +223,7 @@ void TerminalWindow::paintContentTunnels()
 
         // Tunnel time
         uint timeStamp = tunnelMap.value("timestamp").toUInt();
-        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString tunnelConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
 
         QString tunnelPrint = QString("%1 | %2 | %3 | %4 | %5 (%6) <---> %7 (%8)")
                 .arg(tunnelConnectionTime)
@@ -249,7 +249,7 @@ void TerminalWindow::paintContentTunnelProxy()
     foreach (const QVariant &serverVariant, tunnelProxyMap.value("tunnelConnections").toList()) {
         QVariantMap serverMap = serverVariant.toMap();
         uint timeStamp = serverMap.value("timestamp").toUInt();
-        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(timeStamp * 1000).toString("dd.MM.yyyy hh:mm:ss");
+        QString serverConnectionTime = QDateTime::fromMSecsSinceEpoch(static_cast<qint64>(timeStamp) * 1000).toString("dd.MM.yyyy hh:mm:ss");
         quint64 rxDataCountBytes = serverMap.value("rxDataCount").toULongLong();
         quint64 txDataCountBytes = serverMap.value("txDataCount").toULongLong();
         QString serverLinePrint = QString("%1 | %2 | RX: %3 | TX: %4 | %5")
-- 
2.43.0


From 8eaeac29069b2e8d475d445e88610f4c1fd5a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:54 +0000
Subject: [PATCH 23/28] fix: the tunnel client sends random data only if
 requested

---
 tunnelclient/clientconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tunnelclient/clientconnection.cpp b/tunnelclient/clientconnection.cpp
index 8d0bb16..71f0a47 100644
--- a/tunnelclient/clientconnection.cpp
+++ b/tunnelclient/clientconnection.cpp
@@ -55,7 +55,7 @@ ClientConnection::ClientConnection(const QUrl &serverUrl, const QString &name, c
 
     connect(m_remoteConnection, &TunnelProxyRemoteConnection::remoteConnectedChanged, this, [this](bool remoteConnected){
         qDebug() << "Remote connection" << (remoteConnected ? "established successfully" : "disconnected");
-        if (remoteConnected) {
+        if (remoteConnected && m_sendRandomData) {
             m_timer.start(1000);
         }
     });
-- 
2.43.0


From 6c831b790f8c85bcc7d0358042279dab9bbbb142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:31 +0000
Subject: [PATCH 24/28] fix: ignoring the SSL errors of the client library
 without a connection does not crash

---
 .../tunnelproxy/tunnelproxyremoteconnection.cpp             | 6 ++++--
 .../tunnelproxy/tunnelproxysocketserver.cpp                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
index 61171e7..78ac61c 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxyremoteconnection.cpp
@@ -74,12 +74,14 @@ QAbstractSocket::SocketError TunnelProxyRemoteConnection::error() const
 
 void TunnelProxyRemoteConnection::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxyRemoteConnection::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxyRemoteConnection::serverUrl() const
diff --git a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
index 39becd4..566155a 100644
--- a/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
+++ b/libnymea-remoteproxyclient/tunnelproxy/tunnelproxysocketserver.cpp
@@ -81,12 +81,14 @@ TunnelProxySocketServer::State TunnelProxySocketServer::state() const
 
 void TunnelProxySocketServer::ignoreSslErrors()
 {
-    m_connection->ignoreSslErrors();
+    if (m_connection)
+        m_connection->ignoreSslErrors();
 }
 
 void TunnelProxySocketServer::ignoreSslErrors(const QList<QSslError> &errors)
 {
-    m_connection->ignoreSslErrors(errors);
+    if (m_connection)
+        m_connection->ignoreSslErrors(errors);
 }
 
 QUrl TunnelProxySocketServer::serverUrl() const
-- 
2.43.0


From da43cdb803861e3281477f872e2ba84a1329a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:01 +0000
Subject: [PATCH 25/28] fix: connect to host names using unencrypted TCP
 connections

---
 libnymea-remoteproxyclient/tcpsocketconnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnymea-remoteproxyclient/tcpsocketconnection.cpp b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
index 4107a5e..4e34edf 100644
--- a/libnymea-remoteproxyclient/tcpsocketconnection.cpp
+++ b/libnymea-remoteproxyclient/tcpsocketconnection.cpp
@@ -123,7 +123,7 @@ void TcpSocketConnection::connectServer(const QUrl &serverUrl)
 
     if (m_serverUrl.scheme() == "tcp") {
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting to" << m_serverUrl.toString();
-        m_tcpSocket->connectToHost(QHostAddress(m_serverUrl.host()), static_cast<quint16>(m_serverUrl.port()));
+        m_tcpSocket->connectToHost(m_serverUrl.host(), static_cast<quint16>(m_serverUrl.port()));
     } else {
         m_ssl = true;
         qCDebug(dcRemoteProxyClientTcpSocket()) << "Connecting encrypted to" << m_serverUrl.host() + ":" + QString::number(m_serverUrl.port());
-- 
2.43.0


From 156f0ec91004d27a611e6521d2cff0906dcbbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:06 +0000
Subject: [PATCH 26/28] fix: registering a server of a killed connection does
 not dereference a missing client

---
 libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
index a107bc0..5ff3143 100644
--- a/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
+++ b/libnymea-remoteproxy/tunnelproxy/tunnelproxyserver.cpp
@@ -83,8 +83,6 @@ void TunnelProxyServer::registerTransportInterface(TransportInterface *interface
 
 TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer(const QUuid &clientId, const QUuid &serverUuid, const QString &serverName)
 {
-    qCDebug(dcTunnelProxyServer()) << "Register new server" << m_proxyClients.value(clientId) << serverName << serverUuid.toString();
-
     // Make sure we have a proxy client for this id
     TunnelProxyClient *tunnelProxyClient = m_proxyClients.value(clientId);
     if (!tunnelProxyClient) {
@@ -92,6 +90,8 @@ TunnelProxyServer::TunnelProxyError TunnelProxyServer::registerServer(const QUui
         return TunnelProxyServer::TunnelProxyErrorInternalServerError;
     }
 
+    qCDebug(dcTunnelProxyServer()) << "Register new server" << tunnelProxyClient << serverName << serverUuid.toString();
+
     // Make sure this client has not been registered as client or re-registration has been called...
     if (tunnelProxyClient->type() != TunnelProxyClient::TypeNone) {
         qCWarning(dcTunnelProxyServer()) << "Client tried to register as server but has already been registerd as" << tunnelProxyClient->type();
-- 
2.43.0


From 7659fec4c0b52c0cfd50c86b0faa750a0a5857dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 27/28] fix: handle unix signals in the event loop instead of
 destroying the engine inside the signal handler

---
 server/remoteproxyserverapplication.cpp | 32 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/server/remoteproxyserverapplication.cpp b/server/remoteproxyserverapplication.cpp
index 2370cb5..bb052eb 100644
--- a/server/remoteproxyserverapplication.cpp
+++ b/server/remoteproxyserverapplication.cpp
@@ -30,16 +30,40 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <sys/socket.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <cxxabi.h>
 
 using namespace remoteproxy;
 
-static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
+static int s_signalSockets[2] = { -1, -1 };
+
+static void catchUnixSignals(QObject *parent, const std::vector<int>& quitSignals, const std::vector<int>& ignoreSignals = std::vector<int>())
 {
+    // The signal may arrive at any time, also while the engine is at work: only async-signal-safe
+    // functions may be called here, the event loop does the rest.
     auto handler = [](int sig) ->void {
-        switch (sig) {
+        int savedErrno = errno;
+        char signalNumber = static_cast<char>(sig);
+        ssize_t written = ::write(s_signalSockets[0], &signalNumber, 1);
+        Q_UNUSED(written)
+        errno = savedErrno;
+    };
+
+    if (::socketpair(AF_UNIX, SOCK_STREAM, 0, s_signalSockets) != 0) {
+        qCCritical(dcApplication()) << "Could not create the sockets for handling unix signals.";
+        exit(EXIT_FAILURE);
+    }
+
+    QSocketNotifier *notifier = new QSocketNotifier(s_signalSockets[1], QSocketNotifier::Read, parent);
+    QObject::connect(notifier, &QSocketNotifier::activated, parent, []() {
+        char signalNumber = 0;
+        if (::read(s_signalSockets[1], &signalNumber, 1) != 1)
+            return;
+
+        switch (signalNumber) {
         case SIGQUIT:
             qCDebug(dcApplication()) << "Cought SIGQUIT quit signal...";
             break;
@@ -62,7 +86,7 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 
         Engine::instance()->destroy();
         RemoteProxyServerApplication::quit();
-    };
+    });
 
     // all these signals will be ignored.
     for (int sig : ignoreSignals)
@@ -75,5 +99,5 @@ static void catchUnixSignals(const std::vector<int>& quitSignals, const std::vec
 RemoteProxyServerApplication::RemoteProxyServerApplication(int &argc, char **argv) :
     QCoreApplication(argc, argv)
 {
-    catchUnixSignals({SIGQUIT, SIGINT, SIGTERM, SIGHUP});
+    catchUnixSignals(this, {SIGQUIT, SIGINT, SIGTERM, SIGHUP});
 }
-- 
2.43.0


From 2bab4f2342fd1c380bcd9f7dbbe27d1aa89583c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:23 +0000
Subject: [PATCH 28/28] fix: print the server name in the monitor header as it
 is

---
 monitor/terminalwindow.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/monitor/terminalwindow.cpp b/monitor/terminalwindow.cpp
index a2bcf76..c1120bf 100644
--- a/monitor/terminalwindow.cpp
+++ b/monitor/terminalwindow.cpp
@@ -159,15 +159,16 @@ void TerminalWindow::paintHeader()
     switch (m_view) {
     case ViewTunnelProxy:
         windowName = "-- TunnelProxy --";
+        // Note: all arguments at once, the texts of the server might contain place markers
         headerString = QString(" Server: %1 (%2) | API: %3 | Total: %4 | Servers: %5 | Clients: %6 | %7 | %8")
-                .arg(m_dataMap.value("serverName", "-").toString())
-                .arg(m_dataMap.value("serverVersion", "-").toString())
-                .arg(m_dataMap.value("apiVersion", "-").toString())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt())
-                .arg(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt())
-                .arg(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toULongLong()) + " / s", - 13)
-                .arg(windowName);
+                .arg(m_dataMap.value("serverName", "-").toString(),
+                     m_dataMap.value("serverVersion", "-").toString(),
+                     m_dataMap.value("apiVersion", "-").toString(),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("totalClientCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("serverConnectionsCount", 0).toInt()),
+                     QString::number(m_dataMap.value("tunnelProxyStatistic").toMap().value("clientConnectionsCount", 0).toInt()),
+                     QString(Utils::humanReadableTraffic(m_dataMap.value("tunnelProxyStatistic").toMap().value("troughput", 0).toULongLong()) + " / s").leftJustified(13),
+                     windowName);
         break;
     }
 
-- 
2.43.0

