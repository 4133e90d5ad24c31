// C20: the spin diffusion problem
#include "sa.h"
namespace {
using sab::NOD;
const int M = 3*NOD;
struct Ghost { spinAcc *sp; Mesh::mesh *m; Settings *s; int calls, status, potcalls, potstatus; double A[M][M], b[M], sol[M], pot[NOD]; } g;
double D0of(const Tetra::prm &p) { return 2*p.sigma/(QE*QE*p.N0); }
bool mag(int t) { return sab::reg[t] != 2; }
void nodes(Mesh::mesh &m)       // both stored states of the magnetization are arbitrary
    { for (auto &n : m.node) { anyVec("u0", n.d[0].u); anyVec("u1", n.d[1].u); } }
void data(Settings &s)
    {
    s.paramTriangle[1].jn = vf_real("jn");
    for (int k = 0; k < 3; k++) { s.paramTriangle[1].uP[k] = vf_real("uP"); s.paramTriangle[2].s[k] = vf_real("s"); }
    }
// values of component k prescribed at node i: from the current surface (c) and from the surface of given s (d)
struct Pre { bool c, d; double vc, vd; };
Pre prescribed(int i, int k)
    {
    Pre r = {false, false, 0, 0};
    for (int f = 0; f < 4; f++) for (int a = 0; a < 3; a++) if (g.m->tri[f].ind[a] == i) { if (sab::freg[f] == 1) r.c = true; if (sab::freg[f] == 2) r.d = true; }
    if (r.c) r.vc = -g.s->paramTriangle[1].jn*(MUB/QE)*g.s->paramTriangle[1].uP[k];
    if (r.d) r.vd = g.s->paramTriangle[2].s[k];
    return r;
    }
bool same(double x, double y)
    {
#ifdef VF_NATIVE
    return std::fabs(x - y) <= 1e-9*(std::fabs(x) + std::fabs(y));
#else
    return x == y;
#endif
    }
void boundary(const std::vector<double> &xd, const std::vector<int> &ld)
    {
    ENSURES("sizes", xd.size() == size_t(M));
    for (int i = 0; i < NOD; i++)
        for (int k = 0; k < 3; k++)
            {
            const Pre p = prescribed(i, k);
            int c = 0;
            for (int l : ld) if (l == 3*i + k) c++;
            ENSURES("exactly the components at the nodes of the two surfaces are prescribed", (c > 0) == (p.c || p.d));
            const double x = xd[3*i+k];
            if (p.c && p.d) ENSURES("the prescribed value is one of those of the surfaces", same(x, p.vc) | same(x, p.vd));
            else EQ("the prescribed value is that of the surface, zero elsewhere", x, p.c ? p.vc : p.d ? p.vd : 0.0);
            }
    for (size_t n = 0; n < ld.size(); n++) ENSURES("prescribed indices are inside the problem", ld[n] >= 0 && ld[n] < M);
    }
void matrix(const Tetra::Tet &t, bool magnetic, const Tetra::prm &p, double (*E)[12])
    {
    const double D0 = D0of(p);
    double w = 0, aw[4];
    for (int j = 0; j < Tetra::NPI; j++) w += t.weight[j];
    for (int a = 0; a < 4; a++) { aw[a] = 0; for (int j = 0; j < Tetra::NPI; j++) aw[a] += TA[a][j]*t.weight[j]; }
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) E[i][j] = 0;
    for (int k = 0; k < 3; k++)
        for (int a = 0; a < 4; a++)
            {
            for (int c = 0; c < 4; c++) { double d = 0; for (int x = 0; x < 3; x++) d += t.da(a,x)*t.da(c,x); E[4*k+a][4*k+c] += D0*w*d; }
            E[4*k+a][4*k+a] += D0/(p.lsf*p.lsf)*aw[a];
            }
    if (magnetic)
        for (int a = 0; a < 4; a++)
            {
            const Eigen::Vector3d u = g.m->node[t.ind[a]].d[Nodes::CURRENT].u;
            const double c = D0/(p.lsd*p.lsd)*aw[a];
            // s -> c s x u
            E[a][4+a] += c*u[2]; E[a][8+a] -= c*u[1];
            E[4+a][8+a] += c*u[0]; E[4+a][a] -= c*u[2];
            E[8+a][a] += c*u[1]; E[8+a][4+a] -= c*u[0];
            }
    }
void source(const Tetra::Tet &t, bool magnetic, const Tetra::prm &p, const std::vector<double> &V, double *B)
    {
    for (int i = 0; i < 12; i++) B[i] = 0;
    if (!magnetic) return;
    double gV[3] = {0,0,0}, w = 0;
    for (int a = 0; a < 4; a++) for (int x = 0; x < 3; x++) gV[x] += V[t.ind[a]]*t.da(a,x);
    for (int j = 0; j < Tetra::NPI; j++) w += t.weight[j];
    for (int a = 0; a < 4; a++)
        {
        double d = 0; for (int x = 0; x < 3; x++) d += gV[x]*t.da(a,x);
        for (int k = 0; k < 3; k++) B[4*k+a] = MUB*p.P*p.sigma/QE*w*d*g.m->node[t.ind[a]].d[Nodes::NEXT].u[k];
        }
    }
void expected(const std::vector<double> &V)
    {
    for (int i = 0; i < M; i++) { g.b[i] = 0; for (int j = 0; j < M; j++) g.A[i][j] = 0; }
    for (int t = 0; t < 3; t++)
        {
        double E[12][12], B[12]; const Tetra::Tet &T = g.m->tet[t];
        matrix(T, mag(t), g.s->paramTetra[sab::reg[t]], E); source(T, mag(t), g.s->paramTetra[sab::reg[t]], V, B);
        for (int a = 0; a < 4; a++) for (int k = 0; k < 3; k++)
            {
            g.b[3*T.ind[a]+k] += B[4*k+a];
            for (int c = 0; c < 4; c++) for (int l = 0; l < 3; l++) g.A[3*T.ind[a]+k][3*T.ind[c]+l] += E[4*k+a][4*l+c];
            }
        }
    }
// the rows of the prescribed components are masked by the solver: their right-hand side does not matter
void system(const SparseMatrix &K, const std::vector<double> &L)
    {
    for (int i = 0; i < M; i++)
        {
        const Pre p = prescribed(i/3, i%3);
        if (!p.c && !p.d) EQ("right-hand side: the polarised current", L[i], g.b[i]);
        for (int j = 0; j < M; j++) EQ("matrix: diffusion, relaxation and precession over all the volume regions", K(i, j), g.A[i][j]);
        }
    }
}
// contract of bicg_dir (C13)
extern "C" void vfstub_bicg(iteration<double> &iter, SparseMatrix &A, std::vector<double> &x, const std::vector<double> &rhs, const std::vector<double> &xd, const std::vector<int> &ld)
    {
    g.calls++;
    system(A, rhs);
    boundary(xd, ld);
    ENSURES("sizes of the system", x.size() == size_t(M) && rhs.size() == size_t(M));
    for (int i = 0; i < M; i++) { EQ("the start vector is zero", x[i], 0.0); x[i] = g.sol[i] = vf_real("sol"); }
    ENSURES("the monitor is reset", iter.nit == 0 && iter.status == UNDEFINED);
    iter.status = g.status == 0 ? CONVERGED : g.status == 1 ? ITER_OVERFLOW : CANNOT_CONVERGE;
    }
// the text of the report does not matter
extern "C" std::string vfstub_infos(const iteration<double> *) { return std::string(); }
// contract of cg_dir: the potential of C19
extern "C" void vfstub_cg(iteration<double> &iter, SparseMatrix &, std::vector<double> &x, const std::vector<double> &, const std::vector<double> &, const std::vector<int> &)
    {
    g.potcalls++;
    for (int i = 0; i < NOD; i++) x[i] = g.pot[i];
    iter.status = g.potstatus == 0 ? CONVERGED : ITER_OVERFLOW;
    if (g.potstatus == 0) expected(x);
    }
VC(matrix)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill;
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m); nodes(m);
    spinAcc sp(s, m, 1e-8, 100);
    g.m = &m; g.s = &s;
    const int t = vf_int("tet", 0, 2);
    const Tetra::Tet &T = m.tet[t]; const Tetra::prm &p = s.paramTetra[sab::reg[t]];
    Eigen::Matrix<double,12,12> A, A0; double E[12][12];
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) A0(i,j) = A(i,j) = vf_real("A");
    sp.integrales(T, A);
    matrix(T, mag(t), p, E);
    for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++)
        {
#ifdef VF_NATIVE
        A0(i,j) = 0;    // the start value is drowned in, or drowns, the contribution
        if (i == 0 && j == 0) { A.setZero(); sp.integrales(T, A); }
#endif
        EQ("element matrix is stiffness, lumped relaxation and precession", A(i,j) - A0(i,j), E[i][j]);
        }
    for (int a = 0; a < 4; a++)
        {
        // the precession exchanges the components and does not damp: s . (s x u) = 0
        double q = 0, x[3], d = 0;
        for (int k = 0; k < 3; k++) x[k] = vf_real("x");
        for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { if (k != l) q += x[k]*(A(4*k+a,4*l+a) - A0(4*k+a,4*l+a))*x[l]; d += std::fabs(x[k]*E[4*k+a][4*l+a]*x[l]); }
        EQS("precession does no work on the spin accumulation", q, 0.0, d);
        }
    EQ("diffusion constant", sp.getDiffusionCst(T), D0of(p));
    }
VC(source)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill;
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m); nodes(m);
    spinAcc sp(s, m, 1e-8, 100);
    g.m = &m; g.s = &s;
    sp.V.resize(NOD); for (double &v : sp.V) v = vf_real("V");
    const int t = vf_int("tet", 0, 2);
    std::vector<double> B(12), B0(12); double E[12];
    for (int i = 0; i < 12; i++) B[i] = B0[i] = vf_real("B");
#ifdef VF_NATIVE
    for (int i = 0; i < 12; i++) B[i] = B0[i] = 0;
#endif
    sp.integrales(m.tet[t], B);
    source(m.tet[t], mag(t), s.paramTetra[sab::reg[t]], sp.V, E);
    for (int i = 0; i < 12; i++) EQ("source is the polarised-current drift term, in magnetic regions only", B[i] - B0[i], E[i]);
    auto gv = Tetra::calc_gradV(m.tet[t], sp.V);
    for (int j = 0; j < Tetra::NPI; j++) for (int x = 0; x < 3; x++)
        { double d = 0, sc = 0; for (int a = 0; a < 4; a++) { d += sp.V[m.tet[t].ind[a]]*m.tet[t].da(a,x); sc += std::fabs(sp.V[m.tet[t].ind[a]]*m.tet[t].da(a,x)); } EQS("gradient of the potential", gv(x,j), d, sc); }
    }
VC(boundary_values)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill; data(s);
    const int bad = vf_int("bad", 0, 3);        // surfaces that give both or neither prescribe nothing
    if (bad == 1) { s.paramTriangle[3].jn = 1; for (int k = 0; k < 3; k++) { s.paramTriangle[3].s[k] = 1; s.paramTriangle[3].uP[k] = 1; } }
    if (bad == 2) s.paramTriangle[3].s = Eigen::Vector3d(1, NAN, 1);
    if (bad == 3) s.paramTriangle[3].V = 1;
    Mesh::mesh m(s, true); sab::tables(m);
    spinAcc sp(s, m, 1e-8, 100);
    g.m = &m; g.s = &s;
    sp.valDirichlet.resize(M); for (double &x : sp.valDirichlet) x = vf_real("old");
    sp.boundaryConditions();
    boundary(sp.valDirichlet, sp.idxDirichlet);
    }
namespace { void diffuse(bool viaCompute)
    {
    CONTRACT("^_ZN7algebra8bicg_dirIdEEv", vfstub_bicg);
    CONTRACT("^_ZNK7algebra9iterationIdE5infos", vfstub_infos);
    Settings s; sab::settings(s); ms_fill = sab::fill; data(s);
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m); nodes(m);
    g.status = vf_int("status", 0, 2);
    spinAcc sp(s, m, 1e-8, g.status == 0 ? 300 : 1);
    sp.V.resize(NOD); for (double &v : sp.V) v = vf_real("V");
    sp.s.resize(NOD); for (auto &v : sp.s) anyVec("olds", v);
    sp.valDirichlet.resize(M); sp.boundaryConditions();
    // leftovers of earlier computations
    for (int i = 0; i < M; i++) sp.L_rhs[i] = vf_real("leftover");
    for (const Tetra::Tet &t : m.tet) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) for (int a = 0; a < 4; a++) sp.K.set(3*t.ind[a]+k, 3*t.ind[(a+1)%4]+l, vf_real("leftover"));
    sp.iter.nit = 299; sp.iter.status = vf_bool("overflowed") ? ITER_OVERFLOW : CONVERGED;
    g.sp = &sp; g.m = &m; g.s = &s; g.calls = 0;
#ifdef VF_NATIVE
    if (g.status == 2) sp.V[0] = sp.V[2] = NAN;
    spinAcc fresh(s, m, 1e-8, g.status == 0 ? 300 : 1);
    fresh.V = sp.V; fresh.s.resize(NOD); fresh.valDirichlet.resize(M); fresh.boundaryConditions();
    const bool fok = viaCompute ? fresh.compute() : fresh.solve();
#endif
    expected(sp.V);
    const bool ok = viaCompute ? sp.compute() : sp.solve();
#ifdef VF_NATIVE
    if (g.status != 2) system(sp.K, sp.L_rhs);
    ENSURES("the outcome does not depend on earlier computations", fok == ok);
    for (int i = 0; i < M; i++) ENSURES("the result does not depend on earlier computations", fresh.s[i/3][i%3] == sp.s[i/3][i%3] || (sp.s[i/3][i%3] != sp.s[i/3][i%3] && fresh.s[i/3][i%3] != fresh.s[i/3][i%3]));
    boundary(sp.valDirichlet, sp.idxDirichlet);
    ENSURES("success is convergence", ok == (sp.iter.status == CONVERGED));
    for (int i = 0; i < M; i++)
        {
        const Pre p = prescribed(i/3, i%3);
        if (!ok) { if (viaCompute) EQ("a failed computation leaves a zero spin accumulation", sp.s[i/3][i%3], 0.0); }
        else if (p.c && p.d) ENSURES("prescribed values hold", same(sp.s[i/3][i%3], p.vc) | same(sp.s[i/3][i%3], p.vd));
        else if (p.c || p.d) EQ("prescribed values hold", sp.s[i/3][i%3], p.c ? p.vc : p.vd);
        }
#else
    ENSURES("the linear solver runs once", g.calls == 1);
    ENSURES("success is convergence", ok == (g.status == 0));
    for (int i = 0; i < M; i++)
        if (ok) EQ("the solution is kept", sp.s[i/3][i%3], g.sol[i]);
        else if (viaCompute) EQ("a failed computation leaves a zero spin accumulation", sp.s[i/3][i%3], 0.0);
#endif
    } }
VC(solve) { diffuse(false); }
VC(compute) { diffuse(true); }
VC(extra_field)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill;
    Mesh::mesh m(s, true); sab::tables(m);
    spinAcc sp(s, m, 1e-8, 100);
    sp.s.resize(NOD); for (auto &v : sp.s) anyVec("olds", v);
    sp.prepareExtraField();
    for (auto &v : sp.s) anyVec("s", v);          // the field follows the latest spin accumulation
    for (int t = 0; t < 3; t++)
        {
        Eigen::Matrix<double,3,Tetra::NPI> H, H0;
        const Tetra::prm &p = s.paramTetra[sab::reg[t]];
        const double c = mag(t) ? D0of(p)/(p.lsd*p.lsd*GAMMA0*p.Ms) : 0.0;
        for (int x = 0; x < 3; x++) for (int j = 0; j < Tetra::NPI; j++)
            {
            H0(x,j) = H(x,j) = vf_real("H");
#ifdef VF_NATIVE
            if (c != 0) H0(x,j) = H(x,j) = H(x,j)*c;      // comparable magnitudes
#endif
            }
        m.tet[t].extraField(H);
        for (int x = 0; x < 3; x++) for (int j = 0; j < Tetra::NPI; j++)
            {
            double d = 0, sc = std::fabs(H0(x,j));
            for (int a = 0; a < 4; a++) { d += TA[a][j]*sp.s[m.tet[t].ind[a]][x]; sc += std::fabs(c*TA[a][j]*sp.s[m.tet[t].ind[a]][x]); }
            EQS("field of the spin accumulation, in magnetic regions only", H(x,j) - H0(x,j), c*d, sc);
            }
        }
    }
VC(construct)
    {
    CONTRACT("^_ZN7algebra8bicg_dirIdEEv", vfstub_bicg);
    CONTRACT("^_ZN7algebra6cg_dirIdE", vfstub_cg);
    Settings s; sab::settings(s); ms_fill = sab::fill; data(s);
    CONTRACT("^_ZNK7algebra9iterationIdE5infos", vfstub_infos);
    s.paramTriangle[2].V = vf_real("Vd");
    s.spin_acc = true;
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m); nodes(m);
    g.m = &m; g.s = &s; g.calls = g.potcalls = 0;
    g.status = vf_int("status", 0, 1); g.potstatus = vf_int("potstatus", 0, 1);
    for (double &v : g.pot) v = vf_real("pot");
#ifdef VF_NATIVE
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, 1000);
    e.V.resize(NOD);
    g.potstatus = e.solve() ? 0 : 1;
    s.spin_acc = false;
    spinAcc other(s, m, 1e-8, 100);
    other.V = e.V; other.s.resize(NOD); other.valDirichlet.resize(M); other.boundaryConditions();
    g.status = other.solve() ? 0 : 1;
    s.spin_acc = true;
    g.calls = g.potcalls = 1;
    for (int i = 0; i < NOD; i++) { g.pot[i] = e.V[i]; for (int k = 0; k < 3; k++) g.sol[3*i+k] = other.s[i][k]; }
#endif
    vf_exit_begin("the program ends exactly if one of the two problems is not solved", (g.status != 0) | (g.potstatus != 0));
    spinAcc sp(s, m, 1e-8, 100);
    vf_exit_end();
    ENSURES("the program goes on only after convergence", (g.status == 0) & (g.potstatus == 0));
    ENSURES("each problem is solved once", g.calls == 1 && g.potcalls == 1);
    for (int i = 0; i < M; i++) EQ("the solution is kept", sp.s[i/3][i%3], g.sol[i]);
    for (int i = 0; i < NOD; i++) EQ("the potential is that of the conduction problem", sp.V[i], g.pot[i]);
    for (int t = 0; t < 3; t++)
        {
        const Tetra::prm &p = s.paramTetra[sab::reg[t]];
        Eigen::Matrix<double,3,Tetra::NPI> H; H.setZero();
        m.tet[t].extraField(H);
        for (int x = 0; x < 3; x++)
            {
            double d = 0, sc = 0;
            for (int a = 0; a < 4; a++) { d += TA[a][0]*sp.s[m.tet[t].ind[a]][x]; sc += std::fabs(TA[a][0]*sp.s[m.tet[t].ind[a]][x]); }
            const double c = mag(t) ? D0of(p)/(p.lsd*p.lsd*GAMMA0*p.Ms) : 0.0;
            EQS("the field of the spin accumulation is connected", H(x,0), c*d, c*sc);
            }
        }
    }
VC(validation)
    {
    Settings s; sab::settings(s, false); ms_fill = sab::fill;
    int nj = 0, ns = 0; bool vol = true;
    const int reg = vf_int("volume", -1, 3);        // -1: the surfaces vary
    for (int r = 0; r < 4; r++)
        {
        const int k = reg < 0 ? vf_int("kind", 0, 3) : r == 2 ? 1 : r == 3 ? 2 : 0;
        if (k & 1) { s.paramTriangle[r].jn = vf_real("jn"); if (r) nj++; }
        if (k & 2) { for (int x = 0; x < 3; x++) s.paramTriangle[r].s[x] = vf_real("s"); if (r) ns++; }
        }
    const int what = reg < 0 ? 0 : vf_int("what", 0, 5);
    Tetra::prm &p = s.paramTetra[reg < 0 ? 0 : reg];
    if (what == 1) p.N0 = 0;
    if (what == 2) p.N0 = NAN;
    if (what == 3) p.P = 1;
    if (what == 4) p.P = -0.25;
    if (what == 5) p.P = NAN;
    if (reg > 0 && what != 0) vol = false;
    Mesh::mesh m(s, true); sab::tables(m);
    spinAcc sp(s, m, 1e-8, 100);
    vf_exit_begin("refused exactly unless one current surface, one surface of given s and all volume parameters are there", !(nj == 1 && ns == 1 && vol));
    sp.checkBoundaryConditions();
    vf_exit_end();
    ENSURES("accepted only with complete boundary data", nj == 1 && ns == 1 && vol);
    }
