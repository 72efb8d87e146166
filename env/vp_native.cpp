// Native side of vp.h: replays the choices of one path of the symbolic execution against the natively
// compiled code under test. usage: replay HARNESS CHOICES-FILE TRACE-OUT [K=V ...]
#include "env.h"
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, uint64_t>> choices; static size_t pos; static std::map<std::string, uint64_t> params; static std::string trace; static const char *out;
static void finish(int rc, const char *what)
{
    FILE *f = fopen(out, "w"); if (f) { fwrite(trace.data(), 1, trace.size(), f); fclose(f); }
    printf("%s\n", what); fflush(stdout); _exit(rc);
}
extern "C" {
uint64_t vp_sym(int bits, const char *name)
{
    if (pos >= choices.size()) { pos++; return 0; }
    if (choices[pos].first != name) { char b[256]; snprintf(b, sizeof b, "DIVERGED at choice %zu: expected %s, asked for %s", pos, choices[pos].first.c_str(), name); finish(44, b); }
    uint64_t v = choices[pos++].second; return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vp_assume(bool b) { if (!b) finish(43, "ASSUME-FAILED"); }
void vp_assert_(bool b, const char *m) { if (!b) { std::string s = std::string("ASSERT-FAILED ") + m; finish(42, s.c_str()); } }
void vp_assert_known_(bool b, const char *m, const char *id) { if (!b) { std::string s = std::string("ASSERT-FAILED ") + m; finish(42, s.c_str()); } }
void vp_cover(const char *) {}
uint64_t vp_pick(uint64_t v) { return v; }
uint64_t vp_param(const char *n, uint64_t d) { return params.count(n) ? params[n] : d; }
void vp_log(const char *t, const void *p, uint64_t n) { trace += t; trace += '='; for (uint64_t i = 0; i < n; i++) { char b[3]; snprintf(b, 3, "%02x", ((const unsigned char *)p)[i]); trace += b; } trace += ';'; }
bool vp_is_symbolic(uint64_t) { return false; }
int vp_engine() { return 0; }
void vp_done() { finish(0, "DONE"); }
void vp_print(const char *s, uint64_t v) { printf("%s %llu (%llx)\n", s, (unsigned long long)v, (unsigned long long)v); }
void vp_print_bytes(const char *s, const void *p, uint64_t n) { printf("%s %.*s\n", s, (int)n, (const char *)p); }
void vp_where() {}
bool vp_alive(const void *) { return true; }
size_t __sanitizer_get_current_allocated_bytes();
uint64_t vp_live_heap() { return __sanitizer_get_current_allocated_bytes(); }
void vp_fail(const char *m) { std::string s = std::string("MODEL ") + m; finish(45, s.c_str()); }
void __wrap_exit(int rc) { env_exit(rc); }
}
// standard output of the code under test: an in-memory stream
QString &env_stdout() { static QString s; return s; }
extern "C" void stdoutStream(void *self, FILE *, QIODevice::OpenMode) __asm__("_ZN11QTextStreamC1EP8_IO_FILE6QFlagsIN9QIODevice12OpenModeFlagEE");
void stdoutStream(void *self, FILE *, QIODevice::OpenMode) { new (self) QTextStream(&env_stdout(), QIODevice::WriteOnly); }
int main(int argc, char **argv)
{
    out = argv[3]; FILE *f = fopen(argv[2], "r"); char name[256]; unsigned long long v;
    while (f && fscanf(f, "%255s %llu", name, &v) == 2) choices.push_back({ name, v });
    if (f) fclose(f);
    for (int i = 4; i < argc; i++) { char *e = strchr(argv[i], '='); if (e) params[std::string(argv[i], e - argv[i])] = strtoull(e + 1, 0, 10); }
    qSetGlobalQHashSeed(0); int ac = 1; if (!dlsym(RTLD_DEFAULT, "env_own_app")) new QCoreApplication(ac, argv);
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 50; }
    h(); finish(0, "DONE");
}
