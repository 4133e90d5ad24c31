// C07: contract of calc_alpha_eff and of the timing class
#include "fe.h"
#include "time_integration.h"

static const double r_ = 0.1;
static VecT at(double h, int k, double dt, double al)
    {
    VecT x; for (int j = 0; j < Tetra::NPI; j++) x[j] = 0; x[k] = h;
    return Tetra::calc_alpha_eff(dt, al, x);
    }
VC(alpha_eff_value)
    {
    const double dt = 1e-5*vf_pos("dt"), al = vf_pos("alpha"), h = vf_real("h")*vf_pos("hscale");
    const int k = vf_int("k", 0, Tetra::NPI-1);
    VecT x; for (int j = 0; j < Tetra::NPI; j++) x[j] = 0; x[k] = h;
    VecT a = Tetra::calc_alpha_eff(dt, al, x);
    const double g = GAMMA0*dt;
    for (int j = 0; j < Tetra::NPI; j++)
        {
        EQ("frame: the field is not modified", x[j], j == k ? h : 0.0);
        if (j != k) EQ("equals alpha at zero field", a[j], al);
        }
    // second-order formulas, saturating at the bounds
    const double M = 2.0*al*r_/g;
    if (h > M) EQ("saturates at alpha(1+r)", a[k], al*(1+r_));
    else if (h > 0) EQ("second-order formula, positive field", a[k], al + 0.5*g*h);
    else if (h >= -M) EQ("second-order formula, negative field", a[k], al/(1 - 0.5*g*h/al));
    else EQ("saturates at alpha/(1+r)", a[k], al/(1+r_));
    vf_cover("aeff");
    }
VC(alpha_eff_bounds)
    {
    const double dt = 1e-5*vf_pos("dt"), al = vf_pos("alpha"), h = vf_real("h")*vf_pos("hscale");
    const int k = vf_int("k", 0, Tetra::NPI-1);
    VecT a = at(h, k, dt, al);
    ENSURES("positive", a[k] > 0);
    ENSURES("at most alpha(1+r)", a[k] <= al*(1+r_)*(1+1e-12));
    ENSURES("at least alpha/(1+r)", a[k]*(1+r_) >= al*(1-1e-12));
    }
VC(alpha_eff_monotone)
    {
    const double dt = 1e-5*vf_pos("dt"), al = vf_pos("alpha"), h = vf_real("h"), d = vf_pos("d");
    const double a1 = at(h, 0, dt, al)[0], a2 = at(h + d, 0, dt, al)[0];
    ENSURES("nondecreasing in the field", a1 <= a2*(1+1e-12));
    }
VC(timing_step)
    {
    const double tf = vf_pos("tf"), lo = vf_pos("dtmin"), hi = lo + vf_pos("span");
    timing T(tf, lo, hi);
    EQ("starts at time zero", T.get_t(), 0.0);
    EQ("initial step is the geometric mean of its limits", T.get_dt(), sqrt(lo*hi));
    const double t0 = T.get_dt()/(100.0*hi);
    EQ("prefactor corresponds to the initial step", T.prefactor, 1.0 + t0*std::fabs(std::log(t0)));
    EQ("limits kept: min", T.DTMIN, lo); EQ("limits kept: max", T.DTMAX, hi); EQ("final time kept", T.tf, tf);
    const double dt = vf_pos("dt");
    T.set_dt(dt);
    const double t1 = dt/(100.0*hi);
    EQ("step set", T.get_dt(), dt);
    EQ("prefactor corresponds to the step in force", T.prefactor, 1.0 + t1*std::fabs(std::log(t1)));
    EQ("setting the step does not move time", T.get_t(), 0.0);
    const double s = vf_real("t");
    T.set_t(s);
    EQ("time set", T.get_t(), s);
    T.inc_t();
    EQ("time advances by the step", T.get_t(), s + dt);
    EQ("advancing keeps the step", T.get_dt(), dt);
    EQ("advancing keeps the prefactor", T.prefactor, 1.0 + t1*std::fabs(std::log(t1)));
    ENSURES("too small exactly below the minimum", T.is_dt_TooSmall() == (dt < lo));
    vf_cover("timing");
    }
