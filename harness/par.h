// Included before every source of a unit that is checked under the parallel execution policy (ENABLE_SEQ=0).
// The algorithms that take std::execution::par (or par_unseq) become loops in which every iteration is marked.
// The verifier records what each iteration reads and writes; iterations run in the order VF_ORDER chooses
// (the standard promises none).  A reduction may associate and commute: both orders have to give the same value.
// Natively the iterations run in several threads.
#ifndef VF_PAR_H
#define VF_PAR_H
#define _GLIBCXX_USE_TBB_PAR_BACKEND 0
#include <algorithm>
#include <numeric>
#include <iterator>
#include <vector>
#include <functional>
#include <execution>
#include <type_traits>
#include "vf.h"
extern "C" {
void vf_par_begin(void);
void vf_par_iter(int k, const void *f);         // iteration k starts (-1: none)
void vf_par_end(void);
extern int vf_order;                            // 0 forward, 1 backward, 2 threads (native replay)
}
#ifdef VF_NATIVE
#include <thread>
#include <atomic>
template <class B> inline void vf_threads(long n, B body)
    {
    const int T = n < 2 ? 1 : n < 8 ? int(n) : 8;
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
        th.emplace_back([&, t]() { ready++; while (ready < T) std::this_thread::yield(); for (long k = t; k < n; k += T) body(k); });
    for (std::thread &t : th) t.join();
    }
#endif
// body(k) is iteration k of n; one call each, so that its locals are its own in the generated code too
template <class B> __attribute__((noinline)) void vf_one(B &body, long k) { body(k); }
template <class B> inline void vf_parallel(long n, B &body, const void *f)
    {
#ifdef VF_NATIVE
    if (vf_order == 2) { vf_threads(n, [&](long k) { body(k); }); return; }
    for (long k = 0; k < n; k++) body(vf_order ? n - 1 - k : k);
#else
    vf_par_begin();
    for (long k = 0; k < n; k++) { const long i = vf_order ? n - 1 - k : k; vf_par_iter(int(i), f); vf_one(body, i); vf_par_iter(-1, &body); }
    vf_par_end();
#endif
    }
template <class T, class Op> inline T vf_fold(T init, const std::vector<T> &v, Op op)
    {
#ifdef VF_NATIVE
    if (vf_order == 0) { T r = init; for (const T &x : v) r = op(r, x); return r; }
#else
    T r = init; for (const T &x : v) r = op(r, x);
#endif
    // another legal order: blocks combined from the right
    std::vector<T> a(v);
    if (a.empty()) return init;
    while (a.size() > 1)
        {
        T y = a.back(); a.pop_back(); T x = a.back(); a.pop_back();
        a.insert(a.begin(), op(y, x));
        }
    const T q = op(a[0], init);
#ifndef VF_NATIVE
    vf_eq("a parallel reduction does not depend on the order", double(q), double(r), 1.0);
    return r;
#else
    return q;
#endif
    }
namespace std {
#define VF_POLICY(P) \
template <class It, class F> void for_each(const P &, It a, It b, F f) \
    { auto body = [&](long k) { It i = a; std::advance(i, k); f(*i); }; vf_parallel(std::distance(a, b), body, &f); } \
template <class It, class N, class F> It for_each_n(const P &, It a, N n, F f) \
    { auto body = [&](long k) { It i = a; std::advance(i, k); f(*i); }; vf_parallel(long(n), body, &f); std::advance(a, n); return a; } \
template <class It, class O, class F> O transform(const P &, It a, It b, O o, F f) \
    { auto body = [&](long k) { It i = a; O j = o; std::advance(i, k); std::advance(j, k); *j = f(*i); }; vf_parallel(std::distance(a, b), body, &f); std::advance(o, std::distance(a, b)); return o; } \
template <class It, class It2, class O, class F> O transform(const P &, It a, It b, It2 c, O o, F f) \
    { auto body = [&](long k) { It i = a; It2 m = c; O j = o; std::advance(i, k); std::advance(m, k); std::advance(j, k); *j = f(*i, *m); }; vf_parallel(std::distance(a, b), body, &f); std::advance(o, std::distance(a, b)); return o; } \
template <class It, class T, class R, class F> T transform_reduce(const P &, It a, It b, T init, R red, F f) \
    { vector<T> v(std::distance(a, b)); T *w = v.data(); auto body = [&, w](long k) { It i = a; std::advance(i, k); w[k] = f(*i); }; vf_parallel(std::distance(a, b), body, &f); return vf_fold(init, v, red); } \
template <class It, class It2, class T, class R, class F> T transform_reduce(const P &, It a, It b, It2 c, T init, R red, F f) \
    { vector<T> v(std::distance(a, b)); T *w = v.data(); auto body = [&, w](long k) { It i = a; It2 j = c; std::advance(i, k); std::advance(j, k); w[k] = f(*i, *j); }; vf_parallel(std::distance(a, b), body, &f); return vf_fold(init, v, red); } \
template <class It, class It2, class T> T transform_reduce(const P &p, It a, It b, It2 c, T init) { return transform_reduce(p, a, b, c, init, std::plus<>(), std::multiplies<>()); } \
template <class It, class T, class R> T reduce(const P &, It a, It b, T init, R red) { return vf_fold(init, vector<T>(a, b), red); } \
template <class It, class T> T reduce(const P &, It a, It b, T init) { return vf_fold(init, vector<T>(a, b), std::plus<>()); } \
template <class It> typename iterator_traits<It>::value_type reduce(const P &, It a, It b) { using T = typename iterator_traits<It>::value_type; return vf_fold(T(), vector<T>(a, b), std::plus<>()); } \
template <class It, class F> bool any_of(const P &, It a, It b, F f) \
    { vector<int> v(std::distance(a, b)); int *w = v.data(); auto body = [&, w](long k) { It i = a; std::advance(i, k); w[k] = f(*i) ? 1 : 0; }; vf_parallel(std::distance(a, b), body, &f); bool r = false; for (int x : v) r = r || x; return r; } \
template <class It, class F> bool none_of(const P &p, It a, It b, F f) { return !any_of(p, a, b, f); } \
template <class It, class F> bool all_of(const P &p, It a, It b, F f) { return !any_of(p, a, b, [&f](const auto &x) { return !f(x); }); } \
template <class It> void sort(const P &, It a, It b) { std::sort(a, b); } \
template <class It, class C> void sort(const P &, It a, It b, C c) { std::sort(a, b, c); } \
template <class It> It unique(const P &, It a, It b) { return std::unique(a, b); } \
template <class It, class T> void fill(const P &, It a, It b, const T &v) { auto body = [&](long k) { It i = a; std::advance(i, k); *i = v; }; vf_parallel(std::distance(a, b), body, &v); } \
template <class It, class O> O copy(const P &, It a, It b, O o) \
    { auto body = [&](long k) { It i = a; O j = o; std::advance(i, k); std::advance(j, k); *j = *i; }; vf_parallel(std::distance(a, b), body, &a); std::advance(o, std::distance(a, b)); return o; }
VF_POLICY(execution::parallel_policy)
VF_POLICY(execution::parallel_unsequenced_policy)
#undef VF_POLICY
}
#endif
