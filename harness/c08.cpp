// C08: socket addresses are valid and unique.
#include "proxy.h"
#include "poke.h"
static TunnelProxyClientConnection *mk(int n) { return new TunnelProxyClientConnection(nullptr, uuid(n), "c", nullptr); }
static void moveTo(TunnelProxyServerConnection *s, const char *name)
{
    uint16_t v = (uint16_t)vp_sym(16, name); if (pokeCounter(s, v, 0)) return;
    vp_assume(v < 3); int n = (int)vp_pick(v); for (int i = 0; i < n; i++) { TunnelProxyClientConnection *c = mk(9999); s->registerClientConnection(c); s->unregisterClientConnection(c); delete c; }
}
// k registrations and removals, the allocator in an arbitrary state before each registration
extern "C" void arbitrary()
{
    TunnelProxyServerConnection *s = new TunnelProxyServerConnection(nullptr, uuid(1), "s", nullptr);
    int k = (int)vp_param("clients", 3); QList<TunnelProxyClientConnection *> live;
    for (int i = 0; i < k; i++) {
        moveTo(s, "counter"); TunnelProxyClientConnection *c = mk(10 + i); s->registerClientConnection(c); quint16 a = c->socketAddress();
        vp_assert(a != 0 && a != 0xFFFF, "reserved socket address assigned"); for (int j = 0; j < live.size(); j++) vp_assert(live.at(j)->socketAddress() != a, "socket address assigned twice");
        vp_assert(s->getClientConnection(a) == c, "the address does not lead to the client"); vp_assert(c->serverConnection() == s, "client is not bound to the server");
        live.append(c); for (int j = 0; j < live.size(); j++) vp_assert(s->getClientConnection(live.at(j)->socketAddress()) == live.at(j), "address of another client changed");
        if (a == 1) vp_cover("lowest address"); if (a == 0xFFFE) vp_cover("highest address"); logi("address", a);
        if (live.size() > 1 && vp_bool("leave")) { TunnelProxyClientConnection *x = live.takeAt(vp_choice(live.size(), "who")); quint16 old = x->socketAddress(); s->unregisterClientConnection(x); vp_assert(!s->getClientConnection(old), "address of a client that left still leads somewhere"); vp_assert(s->clientConnections().size() == live.size(), "number of clients"); }
    }
}
// many clients with consecutive addresses, anywhere around the allocator
extern "C" void crowded()
{
    TunnelProxyServerConnection *s = new TunnelProxyServerConnection(nullptr, uuid(1), "s", nullptr);
    int n = (int)vp_param("clients", 130); static const quint16 starts[] = { 0, 0xFFFE - 40, 0xC0 };
    pokeCounter(s, starts[vp_choice(3, "start")], 0); QList<quint16> used; quint16 lowest = 0xFFFF;
    for (int i = 0; i < n; i++) { TunnelProxyClientConnection *c = mk(100 + i); s->registerClientConnection(c); quint16 a = c->socketAddress(); vp_assert(a != 0 && a != 0xFFFF && !used.contains(a), "invalid or duplicate socket address"); used.append(a); if (a < lowest) lowest = a; }
    uint16_t v = (uint16_t)vp_sym(16, "counter"); pokeCounter(s, v, 0);
    TunnelProxyClientConnection *c = mk(99); s->registerClientConnection(c); quint16 a = c->socketAddress(); vp_assert(a != 0 && a != 0xFFFF, "reserved socket address assigned");
    bool dup = false; for (int i = 0; i < n; i++) dup |= used.at(i) == a; vp_assert(!dup, "socket address assigned twice"); vp_assert(s->getClientConnection(a) == c, "the address does not lead to the client"); if (v == used.at(0) - 1) vp_cover("search past all clients");
    logi("address", a);
}
// more registrations than there are addresses
extern "C" void wrap()
{
    TunnelProxyServerConnection *s = new TunnelProxyServerConnection(nullptr, uuid(1), "s", nullptr);
    TunnelProxyClientConnection *first = mk(1), *second = mk(2); s->registerClientConnection(first); int at = vp_choice(2, "second") ? 0 : 65000;
    for (int i = 0; i < 65600; i++) {
        if (i == at) s->registerClientConnection(second);
        TunnelProxyClientConnection *c = mk(3); s->registerClientConnection(c); quint16 a = c->socketAddress();
        vp_assert(a != 0 && a != 0xFFFF && a != first->socketAddress() && (i < at || a != second->socketAddress()), "invalid or duplicate socket address"); s->unregisterClientConnection(c); delete c;
    }
    vp_cover("wrapped around");
}
