// C19: the conduction problem
#include "sa.h"
namespace {
using sab::NOD;
struct Ghost { electrostatSolver *e; Mesh::mesh *m; Settings *s; int calls, status; double A[NOD][NOD], b[NOD], sol[NOD]; } g;
bool prescribed(int i, double &v)
    {
    bool r = false;
    for (int f = 0; f < 4; f++) if (sab::freg[f] == 2) for (int k = 0; k < 3; k++) if (g.m->tri[f].ind[k] == i) { r = true; v = g.s->paramTriangle[2].V; }
    return r;
    }
void expected()
    {
    for (int i = 0; i < NOD; i++) { g.b[i] = 0; for (int j = 0; j < NOD; j++) g.A[i][j] = 0; }
    for (const Tetra::Tet &t : g.m->tet)
        {
        double w = 0; for (int j = 0; j < Tetra::NPI; j++) w += t.weight[j];
        for (int a = 0; a < 4; a++) for (int c = 0; c < 4; c++)
            { double d = 0; for (int k = 0; k < 3; k++) d += t.da(a,k)*t.da(c,k); g.A[t.ind[a]][t.ind[c]] += g.s->paramTetra[t.idxPrm].sigma*w*d; }
        }
    for (int f = 0; f < 4; f++)
        if (sab::freg[f] == 1)
            for (int a = 0; a < 3; a++) for (int j = 0; j < Triangle::NPI; j++) g.b[g.m->tri[f].ind[a]] -= g.s->paramTriangle[1].jn*FA[a][j]*g.m->tri[f].weight[j];
    }
void system(const SparseMatrix &K, const std::vector<double> &L)
    {
    for (int i = 0; i < NOD; i++)
        {
        EQ("right-hand side: the injected current", L[i], g.b[i]);
        for (int j = 0; j < NOD; j++) EQ("matrix: conduction over all the volume regions", K(i, j), g.A[i][j]);
        }
    }
}
// contract of cg_dir (C13): any vector and status; a success satisfies the prescribed values if the start is zero there
extern "C" void vfstub_cg(iteration<double> &iter, SparseMatrix &A, std::vector<double> &x, const std::vector<double> &rhs, const std::vector<double> &xd, const std::vector<int> &ld)
    {
    g.calls++;
    system(A, rhs);
    ENSURES("sizes", x.size() == NOD && rhs.size() == NOD && xd.size() == NOD);
    for (int i = 0; i < NOD; i++)
        {
        double v = 0; const bool p = prescribed(i, v);
        int c = 0;
        for (int k : ld) if (k == i) c++;
        ENSURES("exactly the nodes of the voltage surfaces are prescribed", (c > 0) == p);
        EQ("prescribed potential", xd[i], v);
        if (p) EQ("the start vector is zero where the potential is prescribed", x[i], 0.0);
        }
    for (int i = 0; i < NOD; i++) { double v = 0; x[i] = g.sol[i] = prescribed(i, v) ? v : vf_real("V"); }
    ENSURES("the monitor is reset", iter.nit == 0 && iter.status == UNDEFINED);
    iter.status = g.status == 0 ? CONVERGED : g.status == 1 ? ITER_OVERFLOW : CANNOT_CONVERGE;
    }
VC(conduction_matrix)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill;
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m);
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, 100);
    const int t = vf_int("tet", 0, 2);
    const Tetra::Tet &T = m.tet[t];
    Eigen::Matrix<double,4,4> A, A0;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A0(i,j) = A(i,j) = vf_real("A");
    e.integrales(T, A);
    double w = 0, dasum[3] = {0,0,0};
    for (int j = 0; j < Tetra::NPI; j++) w += T.weight[j];
    for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) dasum[k] += T.da(i,k);
    for (int i = 0; i < 4; i++)
        {
        double row = 0, defect = 0;
        for (int j = 0; j < 4; j++)
            {
            double d = 0; for (int k = 0; k < 3; k++) d += T.da(i,k)*T.da(j,k);
            EQ("conduction matrix is sigma times the integral of the products of gradients", A(i,j) - A0(i,j), s.paramTetra[sab::reg[t]].sigma*w*d);
            EQ("conduction matrix is symmetric", A(i,j) - A0(i,j), A(j,i) - A0(j,i));
            row += A(i,j) - A0(i,j);
            }
        for (int k = 0; k < 3; k++) defect += T.da(i,k)*dasum[k];
        EQ("a uniform potential drives no current", row, s.paramTetra[sab::reg[t]].sigma*w*defect);    // the gradients sum to zero (C03)
        }
    EQ("conductivity of the region", e.getSigma(T), s.paramTetra[sab::reg[t]].sigma);
    }
VC(current_vector)
    {
    Settings s; sab::settings(s); ms_fill = sab::fill;
    const int kind = vf_int("kind", 0, 3);
    s.paramTriangle[1].jn = kind == 0 ? NAN : kind == 1 ? INFINITY : kind == 2 ? -INFINITY : vf_real("jn");
    const double jn = kind == 3 ? s.paramTriangle[1].jn : 0.0;
    Mesh::mesh m(s, true); sab::tables(m);
    for (auto &f : m.tri) for (int j = 0; j < Triangle::NPI; j++) f.weight[j] = vf_real("wf");
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, 100);
    for (int f = 0; f < 4; f++)
        {
        std::vector<double> B(3), B0(3);
        for (int i = 0; i < 3; i++) B[i] = B0[i] = vf_real("B");
        e.integrales(m.tri[f], B);
        double tot = 0, w = 0;
        for (int i = 0; i < 3; i++)
            {
            double x = 0;
            if (sab::freg[f] == 1) for (int j = 0; j < Triangle::NPI; j++) x -= jn*FA[i][j]*m.tri[f].weight[j];
            EQ("injected current against the shape functions, zero where none is given", B[i] - B0[i], x);
            tot += B[i] - B0[i];
            }
        for (int j = 0; j < Triangle::NPI; j++) w += m.tri[f].weight[j];
        EQ("total injected current", tot, sab::freg[f] == 1 ? -jn*w : 0.0);
        EQ("current density of the surface", e.getCurrentDensity(m.tri[f]), sab::freg[f] == 1 ? jn : 0.0);
        }
    }
namespace { void conduct(bool viaCompute)
    {
    CONTRACT("^_ZN7algebra6cg_dirIdE", vfstub_cg);
    Settings s; sab::settings(s); ms_fill = sab::fill;
    s.paramTriangle[1].jn = vf_real("jn"); s.paramTriangle[2].V = vf_real("Vd");
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m);
    g.status = vf_int("status", 0, 2);
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, g.status == 0 ? 200 : g.status);
    e.V.resize(NOD);
    g.e = &e; g.m = &m; g.s = &s; g.calls = 0;
    expected();
    bool ok = false;
#ifdef VF_NATIVE
    ok = e.solve();
    system(e.K, e.L_rhs);
    ENSURES("success is convergence", ok == (e.iter.status == CONVERGED));
    if (ok)
        for (int i = 0; i < NOD; i++)
            {
            double v = 0, r = g.b[i];
            for (int j = 0; j < NOD; j++) r -= g.A[i][j]*e.V[j];
            if (prescribed(i, v)) EQ("the potential of a voltage surface is the given one", e.V[i], v);
            else { double n = 0; for (double x : g.b) n += x*x; for (int k = 0; k < NOD; k++) for (int j = 0; j < NOD; j++) n += g.A[k][j]*g.A[k][j]*(1 + e.V[j]*e.V[j]); ENSURES("currents balance at the other nodes", std::fabs(r) <= 1e-6*(1 + sqrt(n))); }
            }
#else
    if (viaCompute)
        {
        vf_exit_begin("a conduction problem that does not converge ends the program", g.status != 0);
        e.compute(false, "");
        vf_exit_end();
        ok = true;
        ENSURES("the program goes on only after convergence", g.status == 0);
        }
    else ok = e.solve();
    ENSURES("the linear solver runs once", g.calls == 1);
    ENSURES("success is convergence", ok == (g.status == 0));
    for (int i = 0; i < NOD; i++) { double v = 0; if (prescribed(i, v)) EQ("the potential of a voltage surface is the given one", e.V[i], v); EQ("the solution is kept", e.V[i], g.sol[i]); }
#endif
    } }
VC(solve) { conduct(false); }
VC(compute) { conduct(true); }
VC(boundary_conditions)
    {
    Settings s; sab::settings(s, false); ms_fill = sab::fill;
    int nj = 0, nv = 0;
    for (int r = 0; r < 4; r++)
        {
        const int k = vf_int("kind", 0, 3);
        if (k & 1) { s.paramTriangle[r].jn = vf_real("jn"); nj++; }
        if (k & 2) { s.paramTriangle[r].V = vf_real("V"); nv++; }
        }
    if (vf_bool("infinite")) { if (std::isfinite(s.paramTriangle[3].jn)) nj--; s.paramTriangle[3].jn = INFINITY; }
    Mesh::mesh m(s, true); sab::tables(m);
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, 100);
    vf_exit_begin("refused exactly unless there is one current surface and one voltage surface", !(nj == 1 && nv == 1));
    e.checkBoundaryConditions();
    vf_exit_end();
    ENSURES("accepted only with one current surface and one voltage surface", nj == 1 && nv == 1);
    }
