// C14: LinAlgebra::solve and the functions around it
#include "ms.h"
#include "linear_algebra.h"
using namespace algebra;
#ifdef VF_NATIVE
#define RND (1 - 1e-9)
#else
#define RND 1.0
#endif
namespace {
const int NOD = 6, D = 2;
int g_conf = 0;
// three tetrahedra around node sets of a 6 node mesh; the third one touches node 5 alone
const int TI[3][4] = {{1,2,3,4}, {2,3,4,5}, {1,2,4,6}};
bool magT(int t) { return g_conf == 0 ? t != 2 : g_conf == 1 ? t == 1 : true; }
void fill(Mesh::mesh &m)
    {
    refNodes(m.node, NOD);
    for (int t = 0; t < 3; t++) m.tet.push_back(Tetra::Tet(m.node, magT(t) ? 1 : 2, {TI[t][0], TI[t][1], TI[t][2], TI[t][3]}));
    m.tri.push_back(Triangle::Tri(m.node, 1, {2,3,4}));
    m.tri.push_back(Triangle::Tri(m.node, 2, {2,3,5}));
    m.tri.push_back(Triangle::Tri(m.node, 2, {1,2,6}));
    }
void settings(Settings &s)
    {
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("mag", 8e5)); s.paramTetra.push_back(ms_tetPrm("non", 0));
    s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("a")); s.paramTriangle.push_back(ms_triPrm("b"));
    }
// the derived tables, as C16 specifies them
void tables(Mesh::mesh &m, Settings &)
    {
    m.magNode.resize(NOD);
    for (int i = 0; i < NOD; i++) m.magNode[i] = false;
    bool e[NOD][NOD] = {};
    for (int t = 0; t < 3; t++)
        {
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e[m.tet[t].ind[i]][m.tet[t].ind[j]] = true;
        if (magT(t)) { m.magTet.push_back(t); for (int i = 0; i < 4; i++) m.magNode[m.tet[t].ind[i]] = true; }
        }
    for (int i = 0; i < NOD; i++) for (int j = i + 1; j < NOD; j++) if (e[i][j]) m.edges.push_back({i, j});
    m.magTri.push_back(0);
    }
struct Ghost { LinAlgebra *la; Mesh::mesh *msh; int calls; bool update; int evol[NOD]; double A[NOD*D][NOD*D], b[NOD*D]; int status; } g;
void expected(Mesh::mesh &m)
    {
    for (int i = 0; i < NOD*D; i++) { g.b[i] = 0; for (int j = 0; j < NOD*D; j++) g.A[i][j] = 0; }
    for (int t = 0; t < 3; t++)
        if (magT(t))
            for (int a = 0; a < 4; a++) for (int d = 0; d < D; d++)
                {
                g.b[D*m.tet[t].ind[a]+d] += m.tet[t].Lp[d*4+a];
                for (int c = 0; c < 4; c++) for (int e = 0; e < D; e++) g.A[D*m.tet[t].ind[a]+d][D*m.tet[t].ind[c]+e] += m.tet[t].Kp(d*4+a, e*4+c);
                }
    for (int a = 0; a < 3; a++) for (int d = 0; d < D; d++) g.b[D*m.tri[0].ind[a]+d] += m.tri[0].Lp[d*3+a];
    for (int i = 0; i < NOD; i++)
        if (!m.magNode[i])
            for (int d = 0; d < D; d++)
                {
                g.b[D*i+d] = 0;
                for (int j = 0; j < NOD*D; j++) g.A[D*i+d][j] = j == D*i+d;
                }
    }
void check_system(const SparseMatrix &A, const std::vector<double> &b)
    {
    double sc = 1;
    for (int i = 0; i < NOD*D; i++) sc = std::fabs(g.b[i]) > sc ? std::fabs(g.b[i]) : sc;
    for (int i = 0; i < NOD*D; i++)
        {
        EQ("right-hand side is the sum of the current elements, zero off the magnetic nodes", b[i], g.b[i]);
        for (int j = 0; j < NOD*D; j++) EQ("matrix is the sum of the current elements, identity off the magnetic nodes", A(i, j), g.A[i][j]);
        }
    }
}
extern "C" void vfstub_base(const LinAlgebra *) {}
// contract of Node::make_evol (C02): the arguments are what matters here
extern "C" void vfstub_evol(Node *n, const double vp, const double vq, const double dt)
    { g.evol[n - &g.msh->node[0]]++; n->d[NEXT].v[0] = vp; n->d[NEXT].v[1] = vq; n->d[NEXT].v[2] = dt; }
namespace { double vm2_of(const LinAlgebra &la) { const double vs = la.get_v_max()/GAMMA0; return vs*vs; } }
// contract of bicg_dir (C13): any vector, any status; success means a residual within the tolerance
extern "C" double vfstub_bicg(iteration<double> &iter, SparseMatrix &A, std::vector<double> &x, const std::vector<double> &rhs, const std::vector<int> &ld)
    {
    g.calls++;
    check_system(A, rhs);
    for (int i = 0; i < NOD; i++)
        {
        const Node &n = g.msh->node[i];
        const bool m = g.msh->magNode[i];
        EQ("start vector: previous velocity in the basis", x[2*i]*GAMMA0, m ? n.d[NEXT].v.dot(n.ep) : 0.0);
        EQ("start vector: previous velocity in the basis", x[2*i+1]*GAMMA0, m ? n.d[NEXT].v.dot(n.eq) : 0.0);
        for (int d = 0; d < 2; d++)
            {
            int c = 0;
            for (int k : ld) if (k == 2*i + d) c++;
            ENSURES("exactly the unknowns of non-magnetic nodes are prescribed", (c > 0) == !m);
            }
        }
    ENSURES("the monitor is reset", iter.nit == 0 && iter.status == UNDEFINED);
    for (double &v : x) v = vf_real("sol");
    const int st = g.update ? 0 : vf_int("status", 1, 3);
    iter.status = st == 0 || st == 3 ? CONVERGED : st == 1 ? ITER_OVERFLOW : CANNOT_CONVERGE;
    iter.res = vf_range("res", 0, 10);
    if (st == 0) { REQUIRES(iter.res <= iter.resmax); }
    if (st == 3) { REQUIRES(iter.res > iter.resmax); }
    return 0;
    }
namespace { void solve(const bool update)
    {
    g.update = update;
    g_conf = vf_int("conf", 0, update ? 1 : 2);
    Settings s; settings(s);
    s.verbose = 0;
#ifdef VF_NATIVE
    const int how = update ? 0 : vf_int("how", 0, 4);      // replay: make the real solver fail
    if (how == 2) s.MAXITER = 1;
#endif
    ms_fill = fill;
    Mesh::mesh msh(s, true);
    tables(msh, s);
    LinAlgebra la(s, msh);
    g.la = &la; g.msh = &msh; g.calls = 0;
    for (int i = 0; i < NOD; i++) g.evol[i] = 0;
    anyFields(msh.node);
    for (int t = 0; t < 3; t++)
        { for (int i = 0; i < 8; i++) { msh.tet[t].Lp[i] = vf_real("Lp"); for (int j = 0; j < 8; j++) msh.tet[t].Kp(i,j) = vf_real("Kp") + (i == j ? 6 : 0); } }
    for (size_t t = 0; t < msh.tri.size(); t++) for (int i = 0; i < 6; i++) msh.tri[t].Lp[i] = vf_real("Ls");
    // whatever an earlier solve left behind
    for (int i = 0; i < NOD*D; i++)
        {
        la.L_rhs[i] = vf_real("oldL"); la.Xw[i] = vf_real("oldX");
        for (int j = 0; j < NOD*D; j++) { const bool m = msh.magNode[i/2] && msh.magNode[j/2]; if (i/2 == j/2 || (m && !(i/2 == 0 && j/2 == 4) && !(i/2 == 4 && j/2 == 0) && i/2 != 5 && j/2 != 5)) la.K.set(i, j, vf_real("oldK")); }
        }
    la.iter.nit = 7; la.iter.status = update ? CANNOT_CONVERGE : CONVERGED; la.v_max = vf_real("oldv");
    timing t(1e-9, 1e-14, 1e-11);
    const double dt = vf_pos("dt");
    t.set_dt(dt);
#ifdef VF_NATIVE
    for (int t = 0; t < 3; t++)
        {
        if (how == 1) msh.tet[t].Kp(0,0) = NAN;
        if (how == 3) msh.tet[t].Kp.setZero();
        if (how == 4) msh.tet[t].Lp[3] = NAN;
        }
#endif
    const std::vector<Node> before(msh.node);
    expected(msh);
    const bool failed = la.solve(t);
#ifdef VF_NATIVE
    if (how != 1 && how != 4) check_system(la.K, la.L_rhs);
    const bool ok = la.iter.status == CONVERGED && la.iter.get_res() <= la.iter.resmax;
#else
    ENSURES("the linear solver runs once", g.calls == 1);
    const bool ok = la.iter.status == CONVERGED && la.iter.res <= la.iter.resmax;
#endif
    ENSURES("failure is reported exactly when the solver did not reach the tolerance", failed == !ok);
    const double vm2 = vm2_of(la); bool some = vm2 == 0;
    for (int i = 0; i < NOD; i++)
        {
        const Node &n = msh.node[i], &o = before[i];
        for (int k = 0; k < 3; k++)
            {
            EQ("frame: position", n.p[k], o.p[k]); EQ("frame: basis", n.ep[k], o.ep[k]); EQ("frame: basis", n.eq[k], o.eq[k]);
            EQ("frame: current magnetization", n.d[CURRENT].u[k], o.d[CURRENT].u[k]); EQ("frame: current velocity", n.d[CURRENT].v[k], o.d[CURRENT].v[k]);
            }
        for (int c = 0; c < 2; c++) { EQ("frame: potential", n.d[c].phi, o.d[c].phi); EQ("frame: velocity potential", n.d[c].phiv, o.d[c].phiv); }
        if (failed || !msh.magNode[i])
            for (int k = 0; k < 3; k++)
                {
                EQ("a failed solve or a non-magnetic node: magnetization untouched", n.d[NEXT].u[k], o.d[NEXT].u[k]);
                EQ("a failed solve or a non-magnetic node: velocity untouched", n.d[NEXT].v[k], o.d[NEXT].v[k]);
                }
        else
            {
            const double vp = la.Xw[2*i]*GAMMA0, vq = la.Xw[2*i+1]*GAMMA0;
            const double s2 = la.Xw[2*i]*la.Xw[2*i] + la.Xw[2*i+1]*la.Xw[2*i+1];
            ENSURES("reported speed is at least every nodal speed", vm2 >= s2*RND);
            some = some | (vm2 >= s2*RND && vm2*RND <= s2);
#ifdef VF_NATIVE
            Eigen::Vector3d v = vp*o.ep + vq*o.eq, w = o.d[CURRENT].u + dt*v;
            w.normalize();
            for (int k = 0; k < 3; k++)
                {
                EQS("velocity from the node's own two components", n.d[NEXT].v[k], v[k], v.norm());
                EQ("magnetization from the velocity and the current step", n.d[NEXT].u[k], w[k]);
                }
#else
            ENSURES("each magnetic node is updated once", g.evol[i] == 1);
            EQ("velocity from the node's own two components", n.d[NEXT].v[0], vp);
            EQ("velocity from the node's own two components", n.d[NEXT].v[1], vq);
            EQ("magnetization from the velocity and the current step", n.d[NEXT].v[2], dt);
#endif
            }
        }
    if (!failed)
        {
        ENSURES("reported speed is the speed of some node", some);
        ENSURES("reported speed is not negative", la.get_v_max() >= 0);
        }
    } }
VC(solve_fails)
    {
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    CONTRACT("7algebra8bicg_dirIdEET_", vfstub_bicg);
    CONTRACT("5Nodes4Node9make_evolE", vfstub_evol);
    solve(false);
    }
VC(solve_succeeds)
    {
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    CONTRACT("7algebra8bicg_dirIdEET_", vfstub_bicg);
    CONTRACT("5Nodes4Node9make_evolE", vfstub_evol);
    solve(true);
    }
// ---------------------------------------------------------------- prepareElements
namespace {
struct Calls { int n; const Tetra::prm *p; const timing *t; MatT H; int dir; double v; } tc[3];
struct FCalls { int n; const Triangle::prm *p; } fc[3];
Mesh::mesh *g_m;
void prepare(const bool space)
    {
    g_conf = vf_int("conf", 0, 2);
    Settings s; settings(s);
    for (int k = 1; k < 3; k++) { s.paramTriangle[k].Ks = vf_bool("ks") ? vf_pos("Ks") : 0.0; }
    ms_fill = fill;
    Mesh::mesh msh(s, true);
    g_m = &msh;
    tables(msh, s);
    msh.extSpaceField.resize(3);
    for (int t = 0; t < 3; t++) for (int c = 0; c < Tetra::NPI; c++) for (int k = 0; k < 3; k++) msh.extSpaceField[t](k,c) = vf_real("f");
    s.recenter = vf_bool("recenter");
    LinAlgebra la(s, msh);
    anyFields(msh.node);
    la.set_DW_vz(vf_real("vz"));
    for (int t = 0; t < 3; t++) { tc[t].n = 0; fc[t].n = 0; }
    timing t(1e-9, 1e-14, 1e-11);
    t.set_dt(1e-12);
    Eigen::Vector3d H; anyVec("H", H);
    const double A = vf_real("amp");
    std::vector<Tetra::Tet> ref(msh.tet); std::vector<Triangle::Tri> fref(msh.tri);
    if (space) la.prepareElements(A, t); else la.prepareElements(H, t);
    const Nodes::index dir = s.recenter ? s.recentering_direction : Nodes::IDX_UNDEF;
    for (int k = 0; k < 3; k++)
        {
        MatT W;
        for (int c = 0; c < Tetra::NPI; c++) for (int d = 0; d < 3; d++) W(d,c) = space ? A*msh.extSpaceField[k](d,c) : H[d];
        const bool tm = msh.magNode[msh.tri[k].ind[0]] && msh.magNode[msh.tri[k].ind[1]] && msh.magNode[msh.tri[k].ind[2]];
        const bool want = tm && s.paramTriangle[msh.tri[k].idxPrm].Ks != 0;
#ifdef VF_NATIVE
        std::function<MatT(void)> f = [&W]() { return W; };
        if (magT(k)) ref[k].integrales(s.paramTetra[ref[k].idxPrm], t, f, dir, la.DW_vz);
        double sc = 1e-300;
        for (int i = 0; i < 8; i++) { sc = std::max(sc, std::fabs(ref[k].Lp[i])); for (int j = 0; j < 8; j++) sc = std::max(sc, std::fabs(ref[k].Kp(i,j))); }
        for (int i = 0; magT(k) && i < 8; i++)
            { EQS("element system of each magnetic tetrahedron", msh.tet[k].Lp[i], ref[k].Lp[i], sc); for (int j = 0; j < 8; j++) EQS("element system of each magnetic tetrahedron", msh.tet[k].Kp(i,j), ref[k].Kp(i,j), sc); }
        if (want) fref[k].integrales(s.paramTriangle[fref[k].idxPrm]);
        for (int i = 0; i < 6; i++) EQS("element vector of each triangle with surface anisotropy", msh.tri[k].Lp[i], fref[k].Lp[i], std::fabs(fref[k].Lp[i]));
#else
        ENSURES("exactly the magnetic tetrahedra are integrated", tc[k].n == (magT(k) ? 1 : 0));
        ENSURES("exactly the magnetic triangles with surface anisotropy are integrated", fc[k].n == (want ? 1 : 0));
        if (fc[k].n) ENSURES("with the parameters of their region", fc[k].p == &s.paramTriangle[msh.tri[k].idxPrm]);
        if (tc[k].n)
            {
            ENSURES("with the parameters of their region", tc[k].p == &s.paramTetra[msh.tet[k].idxPrm]);
            ENSURES("with the time step in force", tc[k].t == &t);
            ENSURES("with the recentering direction", tc[k].dir == int(dir));
            EQ("with the wall velocity", tc[k].v, la.DW_vz);
            for (int c = 0; c < Tetra::NPI; c++) for (int d = 0; d < 3; d++) EQ("with the applied field of that tetrahedron", tc[k].H(d,c), W(d,c));
            }
#endif
        }
    }
}
extern "C" void vfstub_tet(Tetra::Tet *te, const Tetra::prm &p, const timing &t, std::function<MatT(void)> *f, const Nodes::index d, const double v)
    { Calls &c = tc[te - &g_m->tet[0]]; c.n++; c.p = &p; c.t = &t; c.H = (*f)(); c.dir = d; c.v = v; }
extern "C" void vfstub_tri(Triangle::Tri *fa, const Triangle::prm &p) { FCalls &c = fc[fa - &g_m->tri[0]]; c.n++; c.p = &p; }
VC(prepare_uniform)
    {
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    CONTRACT("Tetra3Tet10integralesE", vfstub_tet); CONTRACT("Triangle3Tri10integralesE", vfstub_tri);
    prepare(false);
    }
VC(prepare_space)
    {
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    CONTRACT("Tetra3Tet10integralesE", vfstub_tet); CONTRACT("Triangle3Tri10integralesE", vfstub_tri);
    prepare(true);
    }
// every node gets a basis, by the same angle (contract of setBasis: C01)
extern "C" void vfstub_setBasis(Node *n, const double r) { n->ep[0] = r; n->eq[0] += 1; }
VC(basis_all_nodes)
    {
    CONTRACT("5Nodes4Node8setBasisE", vfstub_setBasis);
    Settings s; settings(s);
    g_conf = 2; ms_fill = fill;
    Mesh::mesh msh(s, true);
    for (int i = 0; i < NOD; i++)
        {
        unitVec("u", msh.node[i].d[CURRENT].u);
        anyVec("un", msh.node[i].d[NEXT].u); anyVec("vn", msh.node[i].d[NEXT].v); msh.node[i].d[NEXT].phi = vf_real("phi"); msh.node[i].d[NEXT].phiv = vf_real("phiv");
        }
    std::vector<Node> ref(msh.node);
    const double r = vf_real("r");
    msh.setBasis(r);
    for (int i = 0; i < NOD; i++)
        {
#ifdef VF_NATIVE
        ref[i].setBasis(r);
        for (int k = 0; k < 3; k++) { EQ("basis of every node", msh.node[i].ep[k], ref[i].ep[k]); EQ("basis of every node", msh.node[i].eq[k], ref[i].eq[k]); }
#else
        EQ("basis of every node", msh.node[i].ep[0], r); EQ("basis of every node", msh.node[i].eq[0], 1.0);
#endif
        }
    msh.evolution();
    for (int i = 0; i < NOD; i++)
        for (int k = 0; k < 3; k++)
            {
            EQ("evolution of every node", msh.node[i].d[CURRENT].u[k], ref[i].d[NEXT].u[k]); EQ("evolution of every node", msh.node[i].d[CURRENT].v[k], ref[i].d[NEXT].v[k]);
            EQ("evolution of every node", msh.node[i].d[CURRENT].phi, ref[i].d[NEXT].phi); EQ("evolution of every node", msh.node[i].d[CURRENT].phiv, ref[i].d[NEXT].phiv);
            }
    }
