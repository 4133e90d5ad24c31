// C13: contracts of the iterative solvers.  Loop invariant (any number of iterations):
//   r = mask(b - A x),  0 <= nit <= maxiter,  status in {UNDEFINED, ITER_OVERFLOW}
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#include <limits>
#include <iostream>
#include "vf.h"
#include "algebra/cg.h"
#include "algebra/bicg.h"
using namespace algebra;
namespace {
const int N = 3;
struct Ghost
    {
    iteration<double> *it;
    double A[N][N], b[N], x0[N], xd[N];
    bool masked[N];
    std::vector<double> *x, *r;
    int maxiter; bool bound;
    } g;
double resid(const std::vector<double> &x, int i)      // masked residual of row i
    {
    if (g.masked[i]) return 0;
    double r = g.b[i];
    for (int j = 0; j < N; j++) r -= g.A[i][j]*(x[j] + g.xd[j]);
    return r;
    }
}
extern "C" void vfinv_loop(int mode)
    {
    iteration<double> &it = *g.it;
    if (mode == 0)
        {
        for (int i = 0; i < N; i++) EQ("invariant: r is the residual of the current x", (*g.r)[i], resid(*g.x, i));
        for (int i = 0; i < N; i++) if (g.masked[i]) EQ("invariant: masked unknowns keep their start value", (*g.x)[i], g.x0[i]);
        ENSURES("invariant: iteration count is not negative", it.nit >= 0);
        if (g.bound) ENSURES("invariant: the maximum number of iterations is never exceeded", it.nit <= g.maxiter);
        ENSURES("invariant: the count reaches the maximum only as overflow", it.nit < g.maxiter || it.status == ITER_OVERFLOW);
        ENSURES("invariant: status inside the loop", it.status == UNDEFINED || it.status == ITER_OVERFLOW);
        }
    else
        {
        for (int i = 0; i < N; i++) if (g.masked[i]) (*g.x)[i] = g.x0[i];
        for (int i = 0; i < N; i++) (*g.r)[i] = resid(*g.x, i);
        if (vf_bool("overflow")) it.status = ITER_OVERFLOW;
        else { it.status = UNDEFINED; REQUIRES(it.nit < g.maxiter); }
        REQUIRES(it.nit >= 0);
        if (g.bound) REQUIRES(it.nit <= g.maxiter);
        }
    }
// contract of norm (proved in C11): the square root of the sum of squares
extern "C" double vfstub_norm(std::vector<double> &X)
    {
    g.r = &X;
    vf_cut("iterations", vfinv_loop);
    double s = 0;
    for (double c : X) s += c*c;
    return sqrt(s);
    }
// the invariant holds whatever the scalar products are: they are only known to be numbers
extern "C" double vfstub_dot(const std::vector<double> &, const std::vector<double> &) { return vf_real("dot"); }
namespace {
enum Which { CG, CGDIR, BICG, BICGDIR, BICGMASK };
void run(const Which w)
    {
    const bool dir = w == CGDIR || w == BICGDIR || w == BICGMASK;
    const bool noise = vf_bool("noise");
    const int nmask = dir ? vf_int("mask", 0, 2) : 0;       // masks: none, one, two entries
    MatrixShape s(N);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (!(i == 0 && j == 2)) s[i].insert(j);
    SparseMatrix A(s);
    std::vector<double> x(N), rhs(N), xd(N);
    std::vector<int> ld;
    for (int i = 0; i < N; i++) g.masked[i] = false;
    if (nmask >= 1) { ld.push_back(1); g.masked[1] = true; }
    if (nmask >= 2) { ld.push_back(0); g.masked[0] = true; }
    for (int i = 0; i < N; i++)
        {
        for (int j = 0; j < N; j++)
            {
            g.A[i][j] = 0;
            if (s[i].count(j)) { g.A[i][j] = vf_real("A"); A.set(i, j, g.A[i][j]); }
            }
        REQUIRES(g.A[i][i] != 0); vf_prefer(std::fabs(g.A[i][i]) > 0.05);
        rhs[i] = g.b[i] = vf_real("b");
        x[i] = g.x0[i] = vf_real("x");
        g.xd[i] = (w == CGDIR || w == BICGDIR) ? vf_real("xd") : 0.0; xd[i] = g.xd[i];
        if (!g.masked[i] && (w == CGDIR || w == BICGDIR)) { xd[i] = g.xd[i] = 0; }
        }
    const double tol = vf_pos("tol");
    REQUIRES(tol < 1);
#ifdef VF_NATIVE
    g.maxiter = vf_int("maxiter", 1, 12);
#else
    g.maxiter = (int)vf_nat("maxiter");
#endif
    g.bound = w == CG || w == CGDIR;
    iteration<double> it("solver", tol*1e-3, noise, g.maxiter);
    g.it = &it; g.x = &x;
    CONTRACT("^_ZN7algebra4normI", vfstub_norm);
    CONTRACT("^_ZN7algebra3dotI", vfstub_dot);
    // the relative tolerance refers to the right-hand side of the masked system
    double bn = 0;
    for (int i = 0; i < N; i++) if (!g.masked[i])
        { double c = rhs[i]; for (int j = 0; j < N; j++) c -= g.A[i][j]*xd[j]; bn += c*c; }
    double ret = 0;
    if (w == CG) cg(it, A, x, rhs);
    if (w == CGDIR) cg_dir(it, A, x, rhs, xd, ld);
    if (w == BICG) bicg(it, A, x, rhs);
    if (w == BICGDIR) bicg_dir(it, A, x, rhs, xd, ld);
    if (w == BICGMASK) ret = bicg_dir(it, A, x, rhs, ld);
    double rn = 0;
    for (int i = 0; i < N; i++) { double c = 0; if (!g.masked[i]) { c = rhs[i]; for (int j = 0; j < N; j++) c -= g.A[i][j]*x[j]; } rn += c*c; }
    vf_prefer(bn > 1e-6);
#ifdef VF_NATIVE
    if (it.status == CONVERGED)     // the recurrences accumulate rounding errors
        ENSURES("success means the true residual is within the tolerance", sqrt(rn) <= 1.01*it.resmax*sqrt(bn) + 1e-8*sqrt(bn));
    vf_prefer(it.status == CONVERGED || it.get_iteration() < 4);
#else
    if (it.status == CONVERGED) ENSURES("success means the true residual is within the tolerance", sqrt(rn) <= it.resmax*sqrt(bn));
#endif
    ENSURES("every exit reports success, overflow or cannot-converge", it.status == CONVERGED || it.status == ITER_OVERFLOW || it.status == CANNOT_CONVERGE);
    if (g.bound) ENSURES("the maximum number of iterations is never exceeded", it.get_iteration() <= g.maxiter);
    for (int i = 0; i < N; i++)
        {
        EQ("right-hand side untouched", rhs[i], g.b[i]);
        if (g.masked[i]) EQ("prescribed entries are the start value plus the prescribed value", x[i], g.x0[i] + g.xd[i]);
        for (int j = 0; j < N; j++) EQ("matrix untouched", A(i, j), g.A[i][j]);
        }
    EQ("the norm reported is that of the masked right-hand side", it.get_rhsnorm(), sqrt(bn));
    }
}
VC(cg) { run(CG); }
VC(cg_dir) { run(CGDIR); }
VC(bicg) { run(BICG); }
VC(bicg_dir) { run(BICGDIR); }
VC(bicg_mask) { run(BICGMASK); }
// ---- the monitor
namespace {
iteration<double> *arbitrary_monitor(const int maxiter, double &tol)
    {
    tol = vf_pos("tol");
    iteration<double> *it = new iteration<double>("m", tol, vf_bool("noise"), maxiter);
    return it;
    }
}
VC(monitor_converged)
    {
    double tol;
    iteration<double> &it = *arbitrary_monitor(7, tol);
    ENSURES("a new monitor has status UNDEFINED and no iteration", it.status == UNDEFINED && it.get_iteration() == 0);
    const double rn = vf_real("rhs"), nr = vf_real("nr");
    REQUIRES(rn >= 0);
    it.set_rhsnorm(rn);
    EQ("right-hand side norm", it.get_rhsnorm(), rn);
    const algoStatus st = (algoStatus)vf_int("st", -1, 2);
    it.status = st;
    const bool f = vf_bool("finished") ? it.finished(nr) : it.converged(nr);
    ENSURES("converged means |res| <= tol*rhs", f == (std::fabs(nr) <= rn*tol));
    ENSURES("status is CONVERGED exactly then, else unchanged", it.status == (f ? CONVERGED : st));
    EQ("residual recorded", it.get_res(), std::fabs(nr));
    EQ("tolerance", it.resmax, tol);
    ENSURES("asking does not count as an iteration", it.get_iteration() == 0);
    delete &it;
    }
VC(monitor_nan)
    {
    double tol;
    iteration<double> &it = *arbitrary_monitor(7, tol);
    it.set_rhsnorm(vf_pos("rhs"));
    it.status = (algoStatus)vf_int("st", -1, 2);
    const double nan_ = std::numeric_limits<double>::quiet_NaN();
    const bool f = vf_bool("finished") ? it.finished(nan_) : it.converged(nan_);
    ENSURES("a NaN residual is never a success", !f && it.status == CANNOT_CONVERGE);
    delete &it;
    }
VC(monitor_count)
    {
    double tol;
    const int mx = vf_int("maxiter", 1, 4);
    iteration<double> &it = *arbitrary_monitor(mx, tol);
    const int k = vf_int("k", 1, 5), form = vf_bool("prefix");
    for (int i = 0; i < k; i++)
        {
        if (form) ++it; else it++;
        ENSURES("iterations are counted", it.get_iteration() == i + 1);
        ENSURES("overflow exactly when the maximum is reached", (it.status == ITER_OVERFLOW) == (i + 1 >= mx));
        }
    it.converged(vf_real("nr"));
    it.set_rhsnorm(3.0);
    it.reset();
    ENSURES("reset forgets the previous run", it.status == UNDEFINED && it.get_iteration() == 0);
    EQ("reset residual", it.get_res(), std::numeric_limits<double>::max());
    EQ("reset norm", it.get_rhsnorm(), 1.0);
    const double nr = vf_real("nr2");
    ENSURES("a fresh run after reset", it.converged(nr) == (std::fabs(nr) <= tol));
    delete &it;
    }
