// stand-in for the JavaScript engine (not in /repo): the stack discipline of its API, with the user's function left arbitrary
#ifndef DK_H
#define DK_H
#include <duktape.h>
#include <string>
#include <vector>
#include <eigen3/Eigen/Dense>
#include "vf.h"
namespace dk {
enum Kind { FUNC, NUM, REGIONS, VECTOR, OTHER };
struct Val { Kind k; double x; double v[3]; long set; long count; };
struct Heap { std::vector<Val> st; };
static int length = 3;              // number of parameters of the user's function
static bool scalar = false;         // it returns a number
static int misbehave = 0;           // 1: throws, 2: returns something without the three components
static bool misuse = false;         // a call against the rules of the API
static int calls = 0;
inline Heap &H(duk_context *c) { return *reinterpret_cast<Heap *>(c); }
inline long ident(const std::string &n) { long h = 0; for (char c : n) h = 31*h + c; return h; }
inline Val num(double x) { Val v = Val(); v.k = NUM; v.x = x; return v; }
inline Val other(Kind k) { Val v = Val(); v.k = k; return v; }
inline int at(duk_context *c, int i) { const int n = int(H(c).st.size()); const int j = i < 0 ? n + i : i; if (j < 0 || j >= n) misuse = true; return j; }
// the user's function; a list of regions counts as a set
inline double f(int comp, int n, const double *a) { static const char *N[4] = {"js_x", "js_y", "js_z", "js_s"}; return vf_uf(N[comp], n, a); }
}
extern "C" {
duk_context *duk_create_heap(duk_alloc_function, duk_realloc_function, duk_free_function, void *, duk_fatal_function) { return reinterpret_cast<duk_context *>(new dk::Heap()); }
void duk_destroy_heap(duk_context *c) { delete &dk::H(c); }
duk_idx_t duk_push_c_function(duk_context *c, duk_c_function, duk_idx_t) { dk::H(c).st.push_back(dk::other(dk::FUNC)); return 0; }
duk_bool_t duk_put_global_string(duk_context *c, const char *) { dk::H(c).st.pop_back(); return 1; }
duk_int_t duk_eval_raw(duk_context *c, const char *, duk_size_t, duk_uint_t) { dk::H(c).st.push_back(dk::other(dk::OTHER)); return 0; }
duk_int_t duk_compile_raw(duk_context *c, const char *, duk_size_t, duk_uint_t) { dk::H(c).st.push_back(dk::other(dk::FUNC)); return dk::misbehave == 3 ? 1 : 0; }
void duk_pop(duk_context *c) { if (dk::H(c).st.empty()) dk::misuse = true; else dk::H(c).st.pop_back(); }
void duk_pop_n(duk_context *c, duk_idx_t n) { for (int i = 0; i < n; i++) duk_pop(c); }
void duk_pop_2(duk_context *c) { duk_pop_n(c, 2); }
duk_idx_t duk_get_top(duk_context *c) { return duk_idx_t(dk::H(c).st.size()); }
void duk_set_top(duk_context *c, duk_idx_t n) { dk::H(c).st.resize(n); }
const char *duk_safe_to_lstring(duk_context *, duk_idx_t, duk_size_t *) { return "error"; }
const char *duk_to_string(duk_context *, duk_idx_t) { return ""; }
void duk_dup(duk_context *c, duk_idx_t i) { const dk::Val v = dk::H(c).st[dk::at(c, i)]; dk::H(c).st.push_back(v); }
void duk_dup_top(duk_context *c) { duk_dup(c, -1); }
void duk_push_number(duk_context *c, duk_double_t x) { dk::H(c).st.push_back(dk::num(x)); }
void duk_push_int(duk_context *c, duk_int_t x) { dk::H(c).st.push_back(dk::num(x)); }
duk_idx_t duk_push_array(duk_context *c) { dk::H(c).st.push_back(dk::other(dk::REGIONS)); return duk_idx_t(dk::H(c).st.size() - 1); }
const char *duk_push_string(duk_context *c, const char *s) { dk::Val v = dk::other(dk::OTHER); v.set = dk::ident(s); dk::H(c).st.push_back(v); return s; }
duk_bool_t duk_put_prop_index(duk_context *c, duk_idx_t i, duk_uarridx_t k)
    {
    dk::Val &a = dk::H(c).st[dk::at(c, i)]; const dk::Val v = dk::H(c).st.back();
    if (a.k != dk::REGIONS || long(k) != a.count) dk::misuse = true;
    a.set += v.set; a.count++;
    dk::H(c).st.pop_back();
    return 1;
    }
duk_int_t duk_pcall(duk_context *c, duk_idx_t n)
    {
    auto &st = dk::H(c).st;
    const int b = int(st.size()) - n - 1;
    dk::calls++;
    double a[8]; int m = 0;
    if (b < 0 || st[b].k != dk::FUNC) { dk::misuse = true; return 1; }
    for (int i = b + 1; i < int(st.size()); i++) { if (st[i].k == dk::NUM) a[m++] = st[i].x; else if (st[i].k == dk::REGIONS) { a[m++] = double(st[i].set); a[m++] = double(st[i].count); } else dk::misuse = true; }
    st.resize(b);
    if (dk::misbehave == 1) { st.push_back(dk::other(dk::OTHER)); return 1; }
    if (dk::scalar) { st.push_back(dk::num(dk::f(3, m, a))); return 0; }
    dk::Val v = dk::other(dk::VECTOR);
    for (int k = 0; k < 3; k++) v.v[k] = dk::f(k, m, a);
    st.push_back(v);
    return 0;
    }
duk_bool_t duk_get_prop(duk_context *c, duk_idx_t i)
    {
    auto &st = dk::H(c).st;
    const dk::Val o = st[dk::at(c, i)];
    const int k = int(st.back().x);
    st.pop_back();
    if (o.k != dk::VECTOR || k < 0 || k > 2 || (dk::misbehave == 2 && k == 2)) { st.push_back(dk::other(dk::OTHER)); return 0; }
    st.push_back(dk::num(o.v[k]));
    return 1;
    }
duk_bool_t duk_get_prop_index(duk_context *c, duk_idx_t i, duk_uarridx_t k)
    { const int j = dk::at(c, i); duk_push_int(c, duk_int_t(k)); return duk_get_prop(c, j); }
duk_double_t duk_get_number(duk_context *c, duk_idx_t i) { const dk::Val v = dk::H(c).st[dk::at(c, i)]; return v.k == dk::NUM ? v.x : NAN; }
duk_size_t duk_get_length(duk_context *c, duk_idx_t i) { const dk::Val v = dk::H(c).st[dk::at(c, i)]; if (v.k != dk::FUNC) dk::misuse = true; return dk::length; }
}
#endif
