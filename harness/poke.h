// Puts the address allocator of a server connection into an arbitrary state. The field is only a short cut for the
// registrations that lead to that value; if it does not exist under that name, false is returned.
#pragma once
#include "tunnelproxy/tunnelproxyserverconnection.h"
#include "tunnelproxy/tunnelproxyclientconnection.h"
template <class T> static auto pokeCounter(T *s, quint16 v, int) -> decltype(s->m_currentAddressCounter = v, true) { s->m_currentAddressCounter = v; return true; }
template <class T> static bool pokeCounter(T *, quint16, long) { return false; }
template <class T> static auto serverConn(T *p, const QUuid &u, int) -> decltype(p->m_tunnelProxyServerConnections.value(u)) { return p->m_tunnelProxyServerConnections.value(u); }
template <class T> static remoteproxy::TunnelProxyServerConnection *serverConn(T *, const QUuid &, long) { return nullptr; }
