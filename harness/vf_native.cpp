// Native side of the contract language: evaluates the contracts of a harness on concrete inputs.
// usage: prog ENTRY seed nsamples [inputs-file]
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <unistd.h>
#include "vf.h"

namespace {
std::map<std::string, void(*)()> &reg() { static std::map<std::string, void(*)()> r; return r; }
jmp_buf env_;
std::mt19937_64 rng;
std::map<std::string, double> given;
std::map<std::string, int> cnt;
std::string trace;
bool have_given = false;
struct Exp { bool on = false; std::string name; bool c = false; } expect_;
int nfail = 0, nrej = 0; long nob = 0;
std::map<std::string, long> obcount, failcount;
bool running = false;
const char *cur_entry = "";
unsigned long cur_sample = 0, cur_seed = 0;
std::string uname_(const char *n) { int k = cnt[n]++; return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k); }
void tr(const std::string &n, double v) { char b[64]; snprintf(b, sizeof b, " %.17g\n", v); trace += n; trace += b; }
double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
int style = 0;
double drawv(double lo, double hi) {
    if (style == 1) { // lattice values: ties, zeros and signs
        double x = std::round(U(lo, hi)*2)/2;
        if (x < lo) x = lo;
        if (x > hi) x = hi;
        return x;
    }
    if (style == 2 && U(0,1) < 0.4) { double c[5] = {0, 1, -1, lo, hi}; double x = c[(int)U(0, 4.999)]; if (x >= lo && x <= hi) return x; }
    return U(lo, hi);
}
void fail(const std::string &what, double a, double b) {
    nfail++;
    if (failcount[what]++ == 0) {
        printf("FAIL %s entry=%s seed=%lu sample=%lu code=%.17g spec=%.17g\n", what.c_str(), cur_entry, cur_seed, cur_sample, a, b);
        std::string t = trace; size_t p = 0;
        while ((p = t.find('\n', p)) != std::string::npos) { t.replace(p, 1, ";"); }
        printf("INPUT %s %s\n", what.c_str(), t.c_str());
        fflush(stdout);
    }
}
}
extern "C" {
void vf_reg(const char *n, void (*f)()) { reg()[n] = f; }
static bool lookup(const std::string &n, double &v) {
    if (!have_given) return false;
    auto it = given.find(n); if (it == given.end()) return false;
    v = it->second; return true;
}
double vf_real(const char *n) { auto u = uname_(n); double v; if (!lookup(u, v)) v = drawv(-2, 2); tr(u, v); return v; }
double vf_range(const char *n, double lo, double hi) { auto u = uname_(n); double v; if (!lookup(u, v)) v = drawv(lo, hi); tr(u, v); if (!(v >= lo && v <= hi)) { nrej++; longjmp(env_, 2); } return v; }
double vf_pos(const char *n) { auto u = uname_(n); double v; if (!lookup(u, v)) { v = style == 0 ? U(0.05, 3) : style == 1 ? 0.5*std::ceil(U(0.01, 6)) : std::pow(10., U(-3, 3)); } tr(u, v); if (!(v > 0)) { nrej++; longjmp(env_, 2); } return v; }
void vf_unit(const char *n, double *p) {
    auto u = uname_(n); double v[3];
    bool g = lookup(u + ".x", v[0]) & lookup(u + ".y", v[1]) & lookup(u + ".z", v[2]);
    if (!g) {
        if (style != 0 && U(0,1) < 0.5) { v[0] = v[1] = v[2] = 0; v[(int)U(0, 2.999)] = U(0,1) < 0.5 ? -1 : 1; if (U(0,1) < 0.3) { v[0] += 1; v[1] -= 0.5; } }
        else for (int i = 0; i < 3; i++) v[i] = U(-1, 1);
    }
    double s = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]); if (!(s > 1e-3)) { v[0] = 1; v[1] = v[2] = 0; s = 1; }
    for (int i = 0; i < 3; i++) p[i] = v[i]/s;
    tr(u + ".x", p[0]); tr(u + ".y", p[1]); tr(u + ".z", p[2]);
}
void vf_unit2(const char *n, double *p) {
    auto u = uname_(n); double v[2]; bool g = lookup(u + ".x", v[0]) & lookup(u + ".y", v[1]);
    if (!g) { double t = style == 0 ? U(0, 6.283185307179586) : std::floor(U(0, 8))*0.78539816339744831; v[0] = std::cos(t); v[1] = std::sin(t); }
    double s = std::hypot(v[0], v[1]); p[0] = v[0]/s; p[1] = v[1]/s; tr(u + ".x", p[0]); tr(u + ".y", p[1]);
}
int vf_int(const char *n, int lo, int hi) { auto u = uname_(n); double v; int k; if (lookup(u, v)) k = (int)v; else k = std::uniform_int_distribution<int>(lo, hi)(rng); tr(u, k); return k; }
long vf_nat(const char *n) { auto u = uname_(n); double v; long k; if (lookup(u, v)) k = (long)v; else k = std::uniform_int_distribution<long>(1, 40)(rng); tr(u, k); if (k < 1) { nrej++; longjmp(env_, 2); } return k; }
bool vf_bool(const char *n) { return vf_int(n, 0, 1) != 0; }
bool vf_symbool(const char *n) { return vf_int(n, 0, 1) != 0; }
void vf_assume(bool c) { if (!c) { nrej++; longjmp(env_, 2); } }
void vf_prefer(bool c) { if (!c) { nrej++; longjmp(env_, 2); } }
void vf_eq(const char *n, double a, double b, double scale) {
    nob++; obcount[n]++;
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    double m = std::fmax(std::fabs(a), std::fabs(b));
    if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 3e-9*m + 1e-11*scale) return;
    fail(n, a, b);
}
void vf_ensures(const char *n, bool c) { nob++; obcount[n]++; if (!c) fail(n, 0, 1); }
void vf_exit_begin(const char *n, bool c) { expect_.on = true; expect_.name = n; expect_.c = c; }
void vf_exit_end(void) { nob++; obcount[expect_.name]++; if (expect_.c) fail(expect_.name, 0, 1); expect_.on = false; }
double vf_uf(const char *n, int k, const double *a) {
    double h = 0.37; size_t L = strlen(n); int s = 0; for (size_t i = 0; i < L; i++) s += (unsigned char)n[i];
    for (int i = 0; i < k; i++) h += std::sin((i + 1.3)*a[i] + (double)L + s*0.1);
    return h;
}
void vf_cover(const char *n) { obcount[std::string("cover:") + n]++; }
int vf_locked_native = 0;
int vf_cut(const char *, void (*)(int)) { return 0; }
int vf_point(const char *, void (*)(int)) { return 0; }
void vf_watch_begin(void) {}
int vf_watch_end(void) { return 0; }
long vf_watch_lock(void) { return 0; }
int vf_locked(void) { return vf_locked_native; }
void vf_same(const char *n, const void *a, const void *b, size_t len) { nob++; obcount[n]++; if (memcmp(a, b, len)) fail(n, 0, 1); }
void __real_exit(int);
void __wrap_exit(int s) {
    if (!running) __real_exit(s);
    nob++;
    std::string nm = expect_.on ? expect_.name : "no-exit"; obcount[nm]++;
    if (!(expect_.on && expect_.c)) fail(nm, 1, 0);
    longjmp(env_, 3);
}
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77"; }
extern "C" void __asan_on_error() { running = false; printf("FAIL memory-safety entry=%s seed=%lu sample=%lu code=1 spec=0\nINPUT memory-safety %s\n", cur_entry, cur_seed, cur_sample, "see-seed"); fflush(stdout); }
#endif
#endif
static void onsig(int s) {
    running = false;
    printf("FAIL crash-signal-%d entry=%s seed=%lu sample=%lu code=1 spec=0\nINPUT crash-signal-%d see-seed\n", s, cur_entry, cur_seed, cur_sample, s); fflush(stdout); _exit(78);
}
int main(int argc, char **argv) {
    if (argc < 4) { for (auto &p : reg()) printf("%s\n", p.first.c_str()); return 2; }
    std::string entry = argv[1]; cur_seed = strtoul(argv[2], 0, 10); unsigned long n = strtoul(argv[3], 0, 10);
    if (argc > 4) {
        have_given = true; FILE *f = fopen(argv[4], "r"); char nm[256]; double v;
        while (f && fscanf(f, "%255s %lf", nm, &v) == 2) given[nm] = v;
        if (f) fclose(f);
    }
    auto it = reg().find(entry); if (it == reg().end()) { printf("NOENTRY\n"); return 3; }
    cur_entry = it->first.c_str();
    signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig);
    unsigned long first = 0;
    if (getenv("VF_SAMPLE")) { first = strtoul(getenv("VF_SAMPLE"), 0, 10); n = first + 1; }
    unsigned long acc = 0;
    // stdout of the code under test is noise: keep ours, silence std::cout in the harness process via a dup
    for (volatile unsigned long i = first; i < n; i++) {
        rng.seed(cur_seed*1000003ul + i); cur_sample = i; cnt.clear(); trace.clear(); expect_ = Exp(); vf_locked_native = 0;
        style = i % 4 == 3 ? 2 : i % 4 == 2 ? 1 : 0;
        running = true;
        int r = setjmp(env_);
        if (r == 0) {
            try { it->second(); }
            catch (...) { nob++; std::string nm = expect_.on ? expect_.name : "no-uncaught-exception"; if (!(expect_.on && expect_.c)) fail(nm, 1, 0); }
        }
        running = false;
        if (r != 2) acc++;
    }
    printf("DONE entry=%s samples=%lu accepted=%lu rejected=%d obligations=%ld failures=%d\n", cur_entry, n - first, acc, nrej, nob, nfail);
    for (auto &p : obcount) printf("COUNT %s %ld\n", p.first.c_str(), p.second);
    return nfail ? 1 : 0;
}
