// Native side of the harness interface: replays one recorded counterexample against the real code.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <iostream>
#include <cmath>
static std::atomic<uint64_t> live{0};
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static void onMalloc(const volatile void *, size_t) { live++; }
static void onFree(const volatile void *p) { if (p) live--; }
static int hooks = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
static std::map<std::string, uint64_t> vars, choices;
static std::map<std::string, int> cnt;
static int thorough = 0;
struct UFE { std::string n; std::vector<uint64_t> a; uint64_t r; };
static std::vector<UFE> ufs;
static double D(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t U(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static std::string tok(std::string s) { for (auto &c : s) if (c == ' ') c = '_'; return s; } // as in the replay file
static std::string nm(const char *n) { return tok(n) + "#" + std::to_string(cnt[n]++); }
static uint64_t var(const char *n) { auto it = vars.find(nm(n)); return it == vars.end() ? 0 : it->second; }
[[noreturn]] static void failed(const char *l, const char *extra) { printf("SX-FAIL %s %s\n", l, extra); fflush(stdout); _exit(1); }
extern "C" {
double sx_f64(const char *n) { return D(var(n)); }
uint64_t sx_u64(const char *n) { return var(n); }
uint32_t sx_u32(const char *n) { return (uint32_t)var(n); }
int sx_bool_(const char *n) { return var(n) & 1; }
uint64_t sx_choose(const char *n, uint64_t lo, uint64_t) { auto it = choices.find(nm(n)); return it == choices.end() ? lo : it->second; }
uint64_t sx_pick(uint64_t v) { return v; }
void sx_assume_(int c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); _exit(77); } }
void sx_assert_(int c, const char *l) { if (!c) failed(l, ""); }
static bool differ(double a, double b) {
    if (std::isnan(a) && std::isnan(b)) return false;
    if (std::isnan(a) || std::isnan(b)) return true;
    if (a == b) return false;
    if (std::isinf(a) || std::isinf(b)) return true;
    return std::fabs(a - b) > 1e-6 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
void sx_assert_num(double a, double b, const char *l) { char t[128]; if (differ(a, b)) { snprintf(t, 128, "got %.17g want %.17g", a, b); failed(l, t); } }
void sx_assert_same(double a, double b, const char *l) { char t[128]; if (!(a == b || (std::isnan(a) && std::isnan(b)))) { snprintf(t, 128, "got %.17g want %.17g", a, b); failed(l, t); } }
void sx_fail_(const char *l) { failed(l, ""); }
void sx_cover(const char *) {}
void sx_flush() {}
static uint64_t ufval(const char *n, const double *a, uint64_t k, uint64_t idx) {
    std::string s = tok(n) + "/" + std::to_string(k);
    for (auto &u : ufs) {
        if (u.n != s || u.a.size() != k + 1 || u.a[k] != idx) continue;
        bool ok = true;
        for (uint64_t i = 0; i < k; i++) if (u.a[i] != U(a[i]) && !(std::isnan(a[i]) && std::isnan(D(u.a[i])))) ok = false;
        if (ok) return u.r;
    }
    return 0;
}
int sx_pred_(const char *n, const double *a, uint64_t k, uint64_t idx) { return ufval(n, a, k, idx) & 1; }
double sx_fun_(const char *n, const double *a, uint64_t k, uint64_t idx) { return D(ufval(n, a, k, idx)); }
void sx_freeze(const void *, uint64_t) {}
void sx_print(const char *l, double v) { printf("%s = %.17g\n", l, v); }
static std::stringbuf &outBuf = *new std::stringbuf, &errBuf = *new std::stringbuf; // in use until the process ends
static std::ostringstream own;
static std::string text(const void *s) { return s == (const void *)&std::cout ? outBuf.str() : s == (const void *)&std::cerr ? errBuf.str() : own.str(); }
void *sx_stream() { own.str(""); return (std::ostream *)&own; }
uint64_t sx_numbers(const char *p, uint64_t len, double *out, uint64_t max) {
    std::string s(p, len);
    uint64_t k = 0;
    auto word = [&](size_t i) { return isalnum((unsigned char)s[i]) || s[i] == '_'; };
    for (size_t i = 0; i < s.size();) {
        if (i == 0 || !(word(i - 1) || s[i - 1] == '.')) {
            const char *b = s.c_str() + i;
            size_t sign = *b == '-' || *b == '+';
            if (isdigit((unsigned char)b[sign]) || strncmp(b + sign, "nan", 3) == 0 || strncmp(b + sign, "inf", 3) == 0) {
                char *e; double d = strtod(b, &e); size_t n = e - b;
                if (i + n < s.size() && word(i + n)) n = 0;
                if (n) { if (k < max) out[k] = d; k++; i += n; continue; }
            }
        }
        i++;
    }
    return k;
}
uint64_t sx_printed(const void *s, double *out, uint64_t max) { std::string t = text(s); return sx_numbers(t.data(), t.size(), out, max); }
uint64_t sx_printed_at(const void *s, const char *x, uint64_t from) { size_t p = text(s).find(x, from); return p == std::string::npos ? ~0ull : (uint64_t)p; }
uint64_t sx_written(const void *s) { return text(s).size(); }
void sx_printed_clear(const void *s) { if (s == (const void *)&std::cout) outBuf.str(""); else if (s == (const void *)&std::cerr) errBuf.str(""); else own.str(""); }
double sx_shown(double v, int fixed) { char t[400]; snprintf(t, sizeof t, fixed ? "%f" : "%g", v); return strtod(t, nullptr); }
uint64_t sx_live_heap() { return live.load(); }
void sx_race_on(uint64_t) {}
uint64_t sx_race_pause(uint64_t) { return 0; }
static std::vector<double> &freshData = *new std::vector<double>;
static int freshPipe = -1;
int sx_fresh_begin() {
    int p[2];
    if (pipe(p)) _exit(78);
    pid_t pid = fork();
    if (pid < 0) _exit(78);
    if (!pid) { close(p[0]); freshPipe = p[1]; return 1; }
    close(p[1]);
    std::string s;
    char t[4096];
    for (ssize_t n; (n = read(p[0], t, sizeof t)) > 0;) s.append(t, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) { raise(WIFSIGNALED(st) ? WTERMSIG(st) : SIGABRT); _exit(78); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    freshData.resize(s.size() / sizeof(double));
    memcpy(freshData.data(), s.data(), freshData.size() * sizeof(double));
    return 0;
}
int sx_fresh_end(const double *d, uint64_t n) {
    const char *b = (const char *)d;
    for (size_t k = 0; k < n * sizeof(double);) { ssize_t w = write(freshPipe, b + k, n * sizeof(double) - k); if (w <= 0) _exit(78); k += w; }
    _exit(0);
}
uint64_t sx_fresh_get(double *out, uint64_t max) {
    for (uint64_t i = 0; i < max && i < freshData.size(); i++) out[i] = freshData[i];
    return freshData.size();
}
int sx_task_spawn() { return 0; }
int sx_task_enter(int) { return 0; }
void sx_task_leave(int) {}
void sx_task_join(int) {}
int sx_symbolic() { return 0; }
int sx_thorough() { return thorough; }
}
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"; }
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
int main(int argc, char **argv) {
    if (argc < 2) return 78;
    std::ifstream in(argv[1]);
    std::string l, entry;
    while (std::getline(in, l)) {
        std::istringstream is(l);
        std::string k; is >> k;
        if (k == "entry") is >> entry;
        else if (k == "tier") is >> thorough;
        else if (k == "c") { std::string n; uint64_t v; is >> n >> v; choices[n] = v; }
        else if (k == "v") { std::string n, h; is >> n >> h; vars[n] = strtoull(h.c_str(), nullptr, 16); }
        else if (k == "u") { UFE u; size_t n; is >> u.n >> n; std::string h; for (size_t i = 0; i < n; i++) { is >> h; u.a.push_back(strtoull(h.c_str(), nullptr, 16)); } is >> h; u.r = strtoull(h.c_str(), nullptr, 16); ufs.push_back(u); }
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("sxe_" + entry).c_str());
    if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 78; }
    auto *out = std::cout.rdbuf(&outBuf), *err = std::cerr.rdbuf(&errBuf);
    fn();
    std::cout.rdbuf(out);
    std::cerr.rdbuf(err);
    printf("SX-OK\n");
    fflush(stdout);
    return 0;
}
