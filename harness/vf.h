// Contract language used by the harnesses.  The same text is compiled twice: to LLVM IR
// (obligations generated for all inputs) and natively (replay of counterexamples).
#ifndef VF_H
#define VF_H
#include <cstddef>
extern "C" {
double vf_real(const char *name);                               // any real
double vf_range(const char *name, double lo, double hi);        // any real in [lo,hi]
double vf_pos(const char *name);                                // any positive real
void vf_unit(const char *name, double *out3);                   // any unit vector of R^3
void vf_unit2(const char *name, double *out2);                  // any unit vector of R^2
int vf_int(const char *name, int lo, int hi);                   // any integer in [lo,hi] (enumerated)
long vf_nat(const char *name);                                  // any integer >= 1 (symbolic, unbounded)
bool vf_bool(const char *name);
void vf_assume(bool c);                                         // requires
void vf_prefer(bool c);                                         // replay only: skip ill-conditioned samples
void vf_eq(const char *name, double code, double spec, double scale);   // ensures code == spec
void vf_ensures(const char *name, bool c);                      // ensures c
void vf_exit_begin(const char *name, bool c);                   // until _end: the program terminates iff c
void vf_exit_end(void);
double vf_uf(const char *name, int n, const double *args);      // uninterpreted function
void vf_cover(const char *name);                                // must be reached
int vf_locked(void);                                            // number of mutexes held
int vf_cut(const char *name, void (*inv)(int));                  // loop invariant (verifier only)
int vf_point(const char *name, void (*inv)(int));                // invariant at a point passed repeatedly (verifier only)
void vf_watch_begin(void);                                      // lock discipline of shared writes (verifier only)
int vf_watch_end(void);                                         // number of unprotected shared writes
long vf_watch_lock(void);                                       // the mutex held at the last write
void vf_same(const char *name, const void *a, const void *b, size_t n); // frame
int vf_contract(const char *pattern, void *stub);               // replace calls by the contract stub
void vf_reg(const char *name, void (*f)());
}
#ifdef VF_NATIVE
#define VC(name) extern "C" void vc_##name(); namespace { struct R_##name { R_##name() { vf_reg(#name, vc_##name); } } r_##name; } extern "C" void vc_##name()
#else
#define VC(name) extern "C" __attribute__((used, noinline)) void vc_##name()
#endif
// CONTRACT("pattern of the mangled name", stub): from here on callers see the contract, not the body
#ifdef VF_NATIVE
#define CONTRACT(pat, stub) ((void)0)
#else
#define CONTRACT(pat, stub) vf_contract(pat, (void*)&stub)
#endif
#define EQ(name, a, b) vf_eq(name, a, b, 1.0)
#define EQS(name, a, b, s) vf_eq(name, a, b, s)
#define REQUIRES(c) vf_assume(c)
#define ENSURES(name, c) vf_ensures(name, c)
#ifdef EIGEN_CORE_H
#endif
#endif
