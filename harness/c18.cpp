// C18: contract of the time integrator, for every outcome of every solve.  Invariant at the choice of a step (any
// number of accepted and rejected steps): the time is the sum of the accepted steps, the step limit is at most the
// maximum and at most what the last failure allows, and the state is the one of the last accepted step.
#include "vf_ofstream.h"
#include <cfloat>
#include <cmath>
#include <ctime>
#include <cstdio>
#include <signal.h>
#include <chrono>
#include "fem_all.h"
#include "linear_algebra.h"
#include "spinAccumulationSolver.h"
#include "time_integration.h"
#define puts(...) ((void)0)
#define putchar(...) ((void)0)
#define printf(...) ((void)0)
#define fflush(...) ((void)0)
#include "time_integration.cpp"
#undef printf
#undef puts
#undef putchar
#undef fflush
volatile sig_atomic_t received_signal = 0;
namespace {
const int NMAX = 3;
struct Ghost
    {
    Fem *fem; Settings *set; timing *tp; int *nt;
    TimeStepper *st; volatile double stride;
    double dt0, t0, ts;                 // first step, initial time, output interval
    double t, acc, lim, low;                 // time and state of the last accepted step; limit of the next step
    double dt, vmax, mark;              // the attempted step
    long n, saves, count, calls, rough;
    long started, pending, needrec, prepared, based, ended;
    } g;
#ifdef VF_NATIVE
const double EPS = 1e-9;
#else
const double EPS = 0;
#endif
double tgt(int k) { return g.t0 + k*g.ts; }
#define MAXDT (g.tp->DTMAX*(1 + 1e-6))      // the first step, the geometric mean of minimum and maximum, is smaller
double big() { return g.dt0 + 2*g.tp->DTMAX; }
double &mark(Fem &f, int step) { return f.msh.node[0].d[step].u[0]; }
}
extern "C" void vfinv_step(int mode)
    {
    Fem &f = *g.fem; timing &tp = *g.tp;
    if (mode == 0)
        {
        EQ("invariant: the next target is the next output time", g.stride, tgt(g.saves) - tp.get_t());
        ENSURES("invariant: the next output time is not reached yet", tp.get_t() < tgt(g.saves));
        EQ("invariant: time is the sum of the accepted steps", tp.get_t(), g.t);
        EQ("invariant: the current state is the last accepted one", mark(f, CURRENT), g.acc);
        ENSURES("invariant: the step count is the number of accepted steps", *g.nt == g.count);
        ENSURES("invariant: the step limit respects the maximum", g.st->soft_max <= MAXDT);
        ENSURES("invariant: the step limit follows the last failure", g.st->soft_max <= g.lim);
        ENSURES("invariant: the step limit is lowered by failures and the speed only", g.st->soft_max >= g.low);
        ENSURES("invariant: the way to the target is no sliver", (g.stride >= 2*tp.DTMIN) | (g.stride >= g.ts));
        ENSURES("invariant: an acceptable step is accepted", !g.pending);
        ENSURES("invariant: recentering follows each accepted step", !g.needrec);
        ENSURES("invariant: the stepper knows the minimum", g.st->hard_min == tp.DTMIN);
        ENSURES("invariant: the stepper knows the maximum", (g.st->hard_max >= tp.DTMAX) & (g.st->hard_max <= tp.DTMAX*(1 + 1e-6)));
        }
    else
        {
        tp.t = g.t; g.stride = tgt(g.saves) - tp.get_t();
        REQUIRES(tp.get_t() < tgt(g.saves));
        mark(f, CURRENT) = g.acc;
        *g.nt = g.count;
        REQUIRES(g.st->soft_max <= g.lim);
        REQUIRES(g.st->soft_max <= MAXDT);
        REQUIRES(g.st->soft_max >= g.low); REQUIRES((g.stride >= 2*tp.DTMIN) | (g.stride >= g.ts));
        }
    }
// contract of TimeStepper::operator() (entry stepper)
extern "C" double vfstub_choose(TimeStepper *p, double stride0)
    {
    g.st = p; g.stride = stride0;
    const bool quick = g.n == 2 && g.saves == 1;        // the first interval is explored by entry integrate1
    if (!quick) switch (g.saves) { case 0: vf_point("output 0", vfinv_step); break; case 1: vf_point("output 1", vfinv_step); break; case 2: vf_point("output 2", vfinv_step); break; default: vf_point("output n", vfinv_step); }
    const double stride = g.stride;
    double step;
    if (quick || vf_bool("reach the target")) { step = stride; REQUIRES(stride <= p->soft_max); }
    else { step = vf_real("step"); REQUIRES(step <= stride - 2*p->hard_min); REQUIRES(step <= p->soft_max); REQUIRES(step >= p->soft_max - 2*p->hard_min); }
    const double soft = vf_real("soft");
    REQUIRES(soft >= p->soft_max); REQUIRES((soft <= p->soft_max) | (soft <= p->hard_max));
    p->soft_max = soft;
    return step;
    }
// contract of TimeStepper::set_soft_limit
extern "C" void vfstub_limit(TimeStepper *p, const double m)
    {
    const double soft = vf_real("soft");
    REQUIRES(soft <= p->soft_max); REQUIRES(soft <= m); REQUIRES((soft == p->soft_max) | (soft == m));
    p->soft_max = soft;
    }
extern "C" void vfstub_set_dt(timing *p, const double dt) { p->dt = dt; p->prefactor = vf_real("prefactor"); }      // C07
extern "C" void vfstub_demag(scal_fmm::fmm *, Mesh::mesh &) {}
extern "C" double vfstub_angle(const Mesh::mesh *) { return vf_real("angle"); }
extern "C" void vfstub_add(LogStats *, const double x) { ENSURES("statistics are taken of positive samples", x > 0); }
extern "C" void vfstub_stats(const Stats *) {}
extern "C" void vfstub_progress(const double) {}
extern "C" void vfstub_init18(Mesh::mesh *) {}
// ---- the collaborators of the integrator: contracts that observe what is asked
void LinAlgebra::base_projection() const { if (g.started) g.based = true; }
void LinAlgebra::buildInitGuess(std::vector<double> &) const {}
void LinAlgebra::prepareElements(const Eigen::Vector3d &H, const timing &t) const
    {
    const double a[1] = {g.tp->get_t()};
    ENSURES("elements are prepared with the field type in force", g.set->getFieldType() == RtoR3 && &t == g.tp);
    EQ("applied field x at the current time", H[0]*MU0, vf_uf("js_x", 1, a));
    EQ("applied field y at the current time", H[1]*MU0, vf_uf("js_y", 1, a));
    EQ("applied field z at the current time", H[2]*MU0, vf_uf("js_z", 1, a));
    ENSURES("the projection basis is renewed before the elements", g.based);
    g.prepared = true;
    }
void LinAlgebra::prepareElements(const double A, const timing &t) const
    {
    const double a[1] = {g.tp->get_t()};
    ENSURES("elements are prepared with the field type in force", g.set->getFieldType() == R4toR3 && &t == g.tp);
    EQ("amplitude of the applied field at the current time", A*MU0, vf_uf("js_scalar", 1, a));
    ENSURES("the projection basis is renewed before the elements", g.based);
    g.prepared = true;
    }
bool LinAlgebra::solve(const timing &t)
    {
    timing &tp = *g.tp;
    g.dt = tp.get_dt(); g.calls++;
    ENSURES("solve uses the timing of the integrator", &t == g.tp);
    ENSURES("elements are prepared for each solve", g.prepared);
    ENSURES("no solve after the end", !g.ended);
    ENSURES("the result of the previous solve has been dealt with", !g.pending);
    ENSURES("a step is never smaller than the minimum", g.dt >= tp.DTMIN);
    ENSURES("a step never exceeds the maximum", g.dt <= MAXDT);
    ENSURES("a step never passes the next output time", tp.get_t() + g.dt <= tgt(g.saves) + EPS*(g.ts + std::fabs(g.t0)));
    ENSURES("after a failure the step is at most what the failure allows", g.dt <= g.lim*(1 + EPS));
    EQ("time is the sum of the accepted steps", tp.get_t(), g.t);
    EQ("a step starts from the last accepted state", mark(*g.fem, CURRENT), g.acc);
    g.prepared = false; g.based = false;
#ifdef VF_NATIVE
    const int o = g.calls > 60 ? 2 : vf_int("outcome", 0, g.rough), how = o < 2 ? o : 2;
#else
    const int how = g.n == 2 && g.saves == 1 ? 2 : vf_int("outcome", 0, 2);
#endif
    // a solver that fails leaves any value in v_max and does not touch the nodes
    if (how == 0) { g.lim = g.dt/2; g.low = g.lim < g.low ? g.lim : g.low; v_max = vf_real("vmax"); return true; }
    g.vmax = v_max = how == 1 ? vf_pos("vmax")
#ifdef VF_NATIVE
        *g.set->DUMAX/g.dt*5
#endif
        : vf_range("small vmax", 0.25, 0.5)*g.set->DUMAX/g.dt;
    const double fast = 0.95*g.set->DUMAX/g.vmax;
    g.low = fast < g.low ? fast : g.low;
    g.mark = vf_real("state");
    mark(*g.fem, NEXT) = g.mark;
    if (g.dt*g.vmax <= g.set->DUMAX) { g.pending = true; g.lim = big(); }
    else { g.lim = g.dt; }
    return false;
    }
void Fem::energy(const double, Settings &s)
    {
    ENSURES("energies use the settings of the run", &s == g.set);
    if (!g.started) { g.started = true; g.acc = mark(*this, NEXT); return; }
    ENSURES("a step is accepted only if the solve succeeded and the magnetization change is within its limit", g.pending);
    EQ("the accepted state is the one solved for", mark(*this, NEXT), g.mark);
    g.pending = false; g.acc = g.mark; g.count++; g.needrec = g.set->recenter;
    // the accepted time: the step, or exactly the target if the step was the whole stride
    g.t = g.tp->get_t() + g.dt;
    }
bool Fem::recenter(double thres, enum Nodes::index dir)
    {
    ENSURES("recentering only when asked for", g.set->recenter);
    ENSURES("recentering once per accepted step", g.needrec);
    EQ("recentering threshold", thres, g.set->threshold);
    ENSURES("recentering axis", dir == g.set->recentering_direction);
    g.needrec = false;
    return false;
    }
void Fem::saver(Settings &s, const timing &t, std::vf_ofstream &fout, const int nt, std::vector<Eigen::Vector3d> &) const
    {
    ENSURES("output file is open", fout.open_);
    ENSURES("output uses the settings and timing of the run", &s == g.set && &t == g.tp);
    ENSURES("outputs are numbered from zero", nt == g.saves);
    ENSURES("an output is written exactly at its time", t.get_t() == tgt(g.saves));
    EQ("an output shows the last accepted state", mark(*g.fem, CURRENT), g.acc);
    ENSURES("the result of the previous solve has been dealt with", !g.pending && !g.needrec);
    g.saves++;
    g.t = t.get_t();
#ifndef VF_NATIVE
    if (g.n == 2 && g.saves == 2)       // whatever the first interval left, within the invariant
        {
        g.st->soft_max = vf_real("soft after the first interval");
        REQUIRES(g.st->soft_max <= g.lim);
        REQUIRES(g.st->soft_max <= MAXDT); REQUIRES(g.st->soft_max >= g.low);
        mark(*g.fem, CURRENT) = g.acc = vf_real("state after the first interval"); mark(*g.fem, NEXT) = vf_real("next after the first interval");
        }
#endif
    }
bool spinAcc::compute(void) { return true; }
std::string Settings::evolMetadata() const { return ""; }
std::string Settings::solMetadata(const double) const { return ""; }
void Mesh::mesh::savesol(const int, const std::string &, std::string const &, bool, std::vector<Eigen::Vector3d> &) const {}
VC(stepper)
    {
    const double lo = vf_pos("min"), hi = lo + vf_pos("max"), soft = vf_pos("soft"), stride = vf_pos("stride");
    TimeStepper s(soft, lo, hi);
    ENSURES("stepper starts with the given limits", s.soft_max == soft && s.hard_min == lo && s.hard_max >= hi && s.hard_max <= hi*(1 + 1e-6));
    if (vf_bool("limit"))
        {
        const double m = vf_real("m");
        s.set_soft_limit(m);
        ENSURES("limit only lowers", s.soft_max <= soft && s.soft_max <= m && (s.soft_max == soft || s.soft_max == m));
        }
    else
        {
        const double H = s.hard_max, step = s(stride);
        ENSURES("step does not pass the target", step <= stride);
        ENSURES("step respects the limit", step <= soft);
        ENSURES("step reaches the target or leaves room for another one", step == stride || step <= stride - 2*lo);
        ENSURES("step is as large as possible", step >= (stride < soft ? stride : soft - 2*lo));
        ENSURES("limit grows, up to the maximum", s.soft_max >= soft && (s.soft_max <= soft || s.soft_max <= H));
        ENSURES("constants of the stepper", s.hard_min == lo && s.hard_max == H);
        }
    }
namespace {
void integrate(const int n)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init18);
    Settings s; bed::settings(s, 0, false, false);
    const int cf = vf_int("config", 0, 3);      // field type, recentering axis, final time
    const int odd[4] = {0, -1, 1, 0};
    s.field_type = cf & 1 ? R4toR3 : RtoR3;
    s.verbose = 0;
#ifdef VF_NATIVE
    const double u = 1e-12, ms = vf_bool("large minimum") ? 0.05 : 1e-4;
#else
    const double u = 1, ms = 1;
#endif
    s.recenter = cf != 0;
    s.recentering_direction = cf ? (Nodes::index)(cf - 1) : Nodes::IDX_Z;
    s.threshold = vf_real("threshold");
    s.DUMAX = vf_pos("DUMAX");
    const double t0 = vf_real("t0")*u, ts = vf_pos("time_step")*u, dtmin = vf_pos("dtmin")*u*ms, dtmax = dtmin + vf_pos("dtmax")*u;
    s.time_step = ts; s.initial_time = t0;
    timing tp(t0 + n*ts + 0.25*odd[cf]*ts, dtmin, dtmax);
    s.tf = tp.tf;
    const double dt0 = tp.get_dt();
    Fem f(s, tp);
    mark(f, NEXT) = vf_real("state0"); mark(f, CURRENT) = vf_real("state00");
    LinAlgebra *la = (LinAlgebra*)::operator new(sizeof(LinAlgebra));
    spinAcc *sp = (spinAcc*)::operator new(sizeof(spinAcc));
    new (&sp->s) std::vector<Eigen::Vector3d>();
#ifdef VF_NATIVE
    scal_fmm::fmm &fm = *new scal_fmm::fmm(f.msh, s.paramTetra, s.paramTriangle, 1);
#else
    scal_fmm::fmm &fm = *(scal_fmm::fmm*)::operator new(sizeof(scal_fmm::fmm));
#endif
    int nt = 77;
    g = Ghost();
    g.fem = &f; g.set = &s; g.tp = &tp; g.nt = &nt; g.dt0 = dt0; g.t0 = t0; g.ts = ts; g.t = t0; g.n = n; g.lim = big(); g.low = dt0;
#ifdef VF_NATIVE
    g.rough = vf_int("roughness", 0, 1) ? 3 : 20;
#endif
    CONTRACT("^_ZN11TimeStepperclEd$", vfstub_choose);
    CONTRACT("^_ZN11TimeStepper14set_soft_limitEd$", vfstub_limit);
    CONTRACT("^_ZN6timing6set_dtEd$", vfstub_set_dt);
    CONTRACT("^_ZN8scal_fmm3fmm10calc_demagE", vfstub_demag);
    CONTRACT("^_ZNK4Mesh4mesh9max_angleE", vfstub_angle);
    CONTRACT("^_ZN8LogStats3addEd$", vfstub_add);
    CONTRACT("^_ZL11print_statsRK5Stats$", vfstub_stats);
    CONTRACT("^_ZL13show_progressd$", vfstub_progress);
    const int status = f.time_integration(s, *la, *sp, fm, tp, nt);
    g.ended = true;
    ENSURES("status is success or failure", status == 0 || status == 1);
    ENSURES("the run aborts exactly when the step to take is below the minimum", (status == 1) == (g.saves <= n && tp.get_dt() < dtmin));
    if (status == 0)
        {
        ENSURES("all outputs are written", g.saves == n + 1);
        ENSURES("a successful run ends at the last output time", tp.get_t() == tgt(n));
        }
    else
        {
        ENSURES("a run aborts only if failures or fast dynamics force the step below the minimum", (g.low*(1 - EPS) < 3*dtmin) | (ts < 2*dtmin));
        ENSURES("nothing is written after an abort", g.saves <= n);
        EQ("an aborted run keeps the last accepted time", tp.get_t(), g.t);
        }
    EQ("final state is the last accepted one", mark(f, CURRENT), g.acc);
    ENSURES("nothing is left pending", !g.pending && !g.needrec);
    ENSURES("number of steps", nt == g.count);
    }
}
VC(integrate0) { integrate(0); }
VC(integrate1) { integrate(1); }
VC(integrate2) { integrate(2); }
VC(integrate_many) { integrate(vf_int("n", 3, 12)); }
