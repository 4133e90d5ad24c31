// C06: contract of Tet::integrales (with lumping, buildMatP, add_drift_BE, projection)
#include "fe.h"
#include "time_integration.h"

// contract of calc_alpha_eff as seen by its caller: any value may come back; what it was given is recorded
static bool g_called = false;
static double g_dt, g_alpha, g_h[Tetra::NPI], g_a[Tetra::NPI];
VecT vfstub_alpha(const double dt, const double alpha, Eigen::Ref<VecT> uHeff)
    {
    g_called = true; g_dt = dt; g_alpha = alpha;
    VecT r;
    for (int j = 0; j < Tetra::NPI; j++) { g_h[j] = uHeff[j]; r[j] = g_a[j]; }
    return r;
    }
typedef Eigen::Vector3d V3;
static V3 cr(const V3 &a, const V3 &b) { return V3(a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]); }
static double dt3(const V3 &a, const V3 &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }

static void llg(int dir, bool uni, bool cub, bool matrix, bool rhs)
    {
    std::vector<Node> n; refNodes(n, 6);
    anyFields(n);
    Tetra::Tet t(n, 0, {5, 2, 6, 3});
    anyGeom(t);
    Tetra::prm p; anyParam(p);
    p.Ms *= 1e6; p.K = 0; p.K3 = 0;
    if (uni) { p.K = vf_real("K"); REQUIRES(p.K < 0 || p.K > 0); }
    if (cub) { p.K3 = vf_real("K3"); REQUIRES(p.K3 < 0 || p.K3 > 0); }
    timing T(1.0, 1e-14, 1e-3);
    const double dt = 1e-5*vf_pos("dt");
    T.set_dt(dt);
    T.prefactor = vf_real("prefactor");
    MatT Hx, Hs;
    for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) { Hx(k,j) = vf_real("Hext"); Hs(k,j) = vf_real("Hst"); }
    t.extraField = [&Hs](Eigen::Ref<MatT> H) { H += Hs; };
    const double Vd = vf_real("Vdrift");
    for (int r = 0; r < 8; r++) { t.Lp[r] = vf_real("oldL"); for (int c = 0; c < 8; c++) t.Kp(r,c) = vf_real("oldK"); }
    for (int j = 0; j < Tetra::NPI; j++) g_a[j] = vf_real("aeff");
    CONTRACT("^_ZN5Tetra14calc_alpha_eff", vfstub_alpha);
    g_called = false;
    const std::vector<Node> old = n;
    double oda[4][3], ow[Tetra::NPI];
    for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) oda[i][k] = t.da(i,k);
    for (int j = 0; j < Tetra::NPI; j++) ow[j] = t.weight[j];

    t.integrales(p, T, [&Hx]() { return Hx; }, (Nodes::index) dir, Vd);

    // ---- specification
    const double theta = 0.5, s_dt = theta*dt*GAMMA0, Abis = 2.0*p.A/(MU0*p.Ms);
    const Node *q[4]; for (int i = 0; i < 4; i++) q[i] = &old[t.ind[i]];
    V3 dU[3], dV[3], Hd(0,0,0), Hv(0,0,0);
    for (int k = 0; k < 3; k++) { dU[k].setZero(); dV[k].setZero(); }
    double sq = 0;
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 3; k++)
            {
            dU[k] += oda[i][k]*q[i]->d[CURRENT].u; dV[k] += oda[i][k]*q[i]->d[CURRENT].v;
            Hd[k] -= oda[i][k]*q[i]->d[CURRENT].phi; Hv[k] -= oda[i][k]*q[i]->d[CURRENT].phiv;
            }
    for (int k = 0; k < 3; k++) sq += dt3(dU[k], dU[k]);
    V3 U[Tetra::NPI], V[Tetra::NPI], Ha[Tetra::NPI]; double h[Tetra::NPI], ae[Tetra::NPI];
    MatT MU, MV, Hc; Hc.setZero();
    for (int j = 0; j < Tetra::NPI; j++)
        {
        U[j].setZero(); V[j].setZero(); Ha[j].setZero();
        for (int i = 0; i < 4; i++) { U[j] += TA[i][j]*q[i]->d[CURRENT].u; V[j] += TA[i][j]*q[i]->d[CURRENT].v; }
        MU.col(j) = U[j]; MV.col(j) = V[j];
        h[j] = -Abis*sq + dt3(U[j], Hd + Hx.col(j) + Hs.col(j));
        if (uni)
            {
            const double Kb = 2.0*p.K/(MU0*p.Ms);
            Ha[j] += Kb*(dt3(p.uk, U[j]) + theta*dt*dt3(p.uk, V[j]))*p.uk;
            h[j] += Kb*dt3(p.uk, U[j])*dt3(p.uk, U[j]);
            }
        }
    if (cub)   // through the contract of calc_aniso_cub (C08)
        {
        VecT c = t.calc_aniso_cub(p.ex, p.ey, p.ez, 2.0*p.K3/(MU0*p.Ms), theta*dt, MU, MV, Hc);
        for (int j = 0; j < Tetra::NPI; j++) { h[j] += c[j]; Ha[j] += Hc.col(j); }
        }
    if (g_called)
        {
        EQ("effective damping is asked for the current time step", g_dt, dt);
        EQ("effective damping is asked for the region's damping", g_alpha, p.alpha_LLG);
        for (int j = 0; j < Tetra::NPI; j++) { EQ("effective damping is asked for u.Heff", g_h[j], h[j]); ae[j] = g_a[j]; }
        }
    else
        {
        VecT hh; for (int j = 0; j < Tetra::NPI; j++) hh[j] = h[j];
        VecT r = Tetra::calc_alpha_eff(dt, p.alpha_LLG, hh);
        for (int j = 0; j < Tetra::NPI; j++) ae[j] = r[j];
        }
    double W = 0; for (int j = 0; j < Tetra::NPI; j++) W += ow[j];
    for (int r = 0; r < 8; r++)
        {
        const int i = r % 4; const V3 &R = r < 4 ? q[i]->eq : q[i]->ep;
        double mi = 0, ai = 0;
        for (int j = 0; j < Tetra::NPI; j++) { mi += ow[j]*TA[i][j]*ae[j]; ai += ow[j]*TA[i][j]; }
        if (matrix)
            for (int c = 0; c < 8; c++)
                {
                const int l = c % 4; const V3 &C = c < 4 ? q[l]->ep : q[l]->eq;
                double S = 0; for (int k = 0; k < 3; k++) S += oda[i][k]*oda[l][k];
                double e = T.prefactor*s_dt*Abis*W*S*dt3(R, C);
                if (i == l) e += mi*dt3(R, C) + ai*dt3(R, cr(q[i]->d[CURRENT].u, C));
                EQS("elementary matrix", t.Kp(r,c), e, 100.0);
                }
        if (rhs)
            {
            V3 B(0,0,0);
            for (int j = 0; j < Tetra::NPI; j++)
                {
                for (int k = 0; k < 3; k++) B -= (ow[j]*Abis*oda[i][k])*dU[k];
                B += (ow[j]*TA[i][j])*V3(Hd + Hx.col(j) + Ha[j] + theta*dt*Hv + Hs.col(j));
                B -= (ow[j]*TA[i][j]*dt3(Hs.col(j), U[j])*s_dt)*V[j];
                if (dir >= 0)
                    B += (Vd*ow[j]*TA[i][j])*V3(p.alpha_LLG*dU[dir] + cr(U[j], dU[dir])
                        + s_dt*(p.alpha_LLG*dV[dir] + cr(U[j], dV[dir]) + cr(V[j], dU[dir])));
                }
            EQS("elementary right-hand side", t.Lp[r], dt3(R, B), 100.0);
            }
        }
    vf_same("frame: nodes untouched", n.data(), old.data(), 6*sizeof(Node));
    for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) EQ("frame: gradients untouched", t.da(i,k), oda[i][k]);
    for (int j = 0; j < Tetra::NPI; j++) EQ("frame: weights untouched", t.weight[j], ow[j]);
    vf_cover("llg");
    }
VC(llg_plain) { llg(-1, false, false, true, true); }
VC(llg_uniaxial) { llg(-1, true, false, true, true); }
VC(llg_cubic) { llg(-1, false, true, true, true); }
VC(llg_both) { llg(-1, true, true, false, true); }
VC(llg_drift_x) { llg(0, false, false, false, true); }
VC(llg_drift_y) { llg(1, false, false, false, true); }
VC(llg_drift_z) { llg(2, false, false, false, true); }
