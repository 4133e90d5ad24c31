// C25: the parallel loops (ENABLE_SEQ=0).  Every source is compiled with par.h: an iteration owns what it modifies
// (the footprint obligations of par.h), and the iterations in another order give the same result.
#define MS_REAL_PARSER
#include "fem_all.h"
#include "sa.h"
#include "big.h"
#include "linear_algebra.h"
extern "C" { int vf_order = 0; }
#ifdef VF_NATIVE
#include <chrono>
#include <atomic>
static std::atomic<int> js_users(0);
static std::atomic<bool> js_shared(false);
struct Js { Js() { if (js_users++) js_shared = true; if (vf_order == 2) std::this_thread::yield(); } ~Js() { js_users--; } };
#else
static volatile int js_state = 0;               // the interpreter has one stack: an evaluation modifies it
struct Js { Js() { js_state = js_state + 1; } ~Js() { js_state = js_state - 1; } };
#endif
static int js_length = 3;
#ifdef VF_NATIVE
#define JS(name, n, a) vf_uf(name, n, a)
#else
static double js_f(const char *name, int n, const double *a) { double s = name[3] - 'w'; for (int i = 0; i < n; i++) s += (i + 2)*a[i]; return s; }
#define JS(name, n, a) (js_concrete ? js_f(name, n, a) : vf_uf(name, n, a))
#endif
static bool js_concrete = false;
ExpressionParser::ExpressionParser() : ctx(nullptr) {}
ExpressionParser::~ExpressionParser() {}
extern "C" duk_size_t duk_get_length(duk_context *, duk_idx_t) { return js_length; }
double ExpressionParser::get_scalar(double t) const { Js j; return vf_uf("js_scalar", 1, &t); }
Eigen::Vector3d ExpressionParser::get_vector(double t) const { Js j; return Eigen::Vector3d(JS("js_x", 1, &t), JS("js_y", 1, &t), JS("js_z", 1, &t)); }
Eigen::Vector3d ExpressionParser::get_vector(const Eigen::Ref<const Eigen::Vector3d> p) const
    { Js j; const double a[3] = {p[0], p[1], p[2]}; return Eigen::Vector3d(JS("js_x", 3, a), JS("js_y", 3, a), JS("js_z", 3, a)); }
Eigen::Vector3d ExpressionParser::get_vector(const Eigen::Ref<const Eigen::Vector3d> p, const std::vector<std::string> &r) const
    { Js j; double w = 0; for (auto &n : r) w += n[0]; const double a[4] = {p[0], p[1], p[2], w}; return Eigen::Vector3d(JS("js_x", 4, a), JS("js_y", 4, a), JS("js_z", 4, a)); }

namespace {
#define SAME(a, b) vf_eq("the result is that of any other order of the iterations", a, b, scale)
double scale = 1;
struct Order { Order(int o) { vf_order = o; } ~Order() { vf_order = 0; } };
void same(const Eigen::Vector3d &a, const Eigen::Vector3d &b) { for (int k = 0; k < 3; k++) SAME(a[k], b[k]); }
void same(const std::vector<double> &a, const std::vector<double> &b)
    { ENSURES("as many values in any order", a.size() == b.size()); for (size_t i = 0; i < a.size() && i < b.size(); i++) SAME(a[i], b[i]); }
void same(const std::vector<int> &a, const std::vector<int> &b)
    {
    ENSURES("the tables are those of any other order", a.size() == b.size());
    for (size_t i = 0; i < a.size() && i < b.size(); i++) ENSURES("the tables are those of any other order", a[i] == b[i]);
    }
void sameNodes(const std::vector<Node> &a, const std::vector<Node> &b, const std::vector<bool> *mag = nullptr)
    {
    for (size_t i = 0; i < a.size(); i++)
        {
        same(a[i].p, b[i].p); same(a[i].ep, b[i].ep); same(a[i].eq, b[i].eq);
        for (int c = 0; c < 2; c++)
            {
            if (!mag || (*mag)[i]) { same(a[i].d[c].u, b[i].d[c].u); same(a[i].d[c].v, b[i].d[c].v); }
            SAME(a[i].d[c].phi, b[i].d[c].phi); SAME(a[i].d[c].phiv, b[i].d[c].phiv);
            }
        }
    }
void sameTables(const Mesh::mesh &a, const Mesh::mesh &b)
    {
    ENSURES("the tables are those of any other order", a.edges == b.edges && a.magNode == b.magNode && a.extSpaceField.size() == b.extSpaceField.size());
    same(a.magTet, b.magTet); same(a.magTri, b.magTri);
    ENSURES("the tables are those of any other order", a.volumeRegions.size() == b.volumeRegions.size() && a.node_index == b.node_index);
    for (size_t r = 0; r < a.volumeRegions.size(); r++) same(a.volumeRegions[r], b.volumeRegions[r]);
    same(a.c, b.c); same(a.l, b.l); SAME(a.vol, b.vol); SAME(a.totalMagVol, b.totalMagVol);
    ENSURES("the tables are those of any other order", a.tri.size() == b.tri.size() && a.tet.size() == b.tet.size());
    for (size_t i = 0; i < a.tri.size() && i < b.tri.size(); i++)
        { SAME(a.tri[i].dMs, b.tri[i].dMs); same(a.tri[i].n, b.tri[i].n); for (int k = 0; k < 3; k++) ENSURES("the tables are those of any other order", a.tri[i].ind[k] == b.tri[i].ind[k]); }
    for (size_t i = 0; i < a.tet.size() && i < b.tet.size(); i++)
        { for (int j = 0; j < Tetra::NPI; j++) SAME(a.tet[i].weight[j], b.tet[i].weight[j]); for (int k = 0; k < 4; k++) ENSURES("the tables are those of any other order", a.tet[i].ind[k] == b.tet[i].ind[k]); }
    if (!a.extSpaceField.empty() && !b.extSpaceField.empty()) for (int i : a.magTet)              // not set elsewhere
        for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) SAME(a.extSpaceField[i](k,j), b.extSpaceField[i](k,j));
    }
}
extern "C" void vfstub_init(Mesh::mesh *) {}
// ---------------------------------------------------------------- set-up of the mesh and the initial state
VC(setup)
    {
    js_length = vf_bool("by_region") ? 4 : 3; js_concrete = true;
    const bool space = vf_bool("space"), tri = vf_bool("tri"); const int rc = vf_int("regions", 0, 5);
    Settings s; bed::settings(s, rc, tri, false); s.field_type = space ? R4toR3 : RtoR3;
    Settings q; bed::settings(q, rc, tri, false); q.field_type = s.field_type;
    Mesh::mesh a(s); a.init_distrib();
    Order o(1);
    Mesh::mesh b(q); b.init_distrib();
    sameTables(a, b); sameNodes(a.node, b.node, &a.magNode);
    for (size_t r = 0; r < s.paramTetra.size(); r++) SAME(s.paramTetra[r].volume, q.paramTetra[r].volume);
    }
// ---------------------------------------------------------------- loops over the nodes
extern "C" void vfstub_basis(Node *n, const double r) { n->ep = r*n->d[CURRENT].u; n->eq = n->ep + n->d[CURRENT].v; }
VC(nodes)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    CONTRACT("5Nodes4Node8setBasisE", vfstub_basis);
    Settings s; bed::settings(s, vf_int("regions", 0, 5), false, false);
    Mesh::mesh m(s);
    anyFields(m.node);
#ifdef VF_NATIVE
    for (Node &n : m.node) n.d[CURRENT].u.normalize();
#endif
    const double r = vf_real("r");
    const std::vector<Node> old(m.node);
    m.setBasis(r); m.evolution();
    const std::vector<Node> ref(m.node);
    m.node = old;
    Order o(1);
    m.setBasis(r); m.evolution();
    sameNodes(m.node, ref);
    }
// ---------------------------------------------------------------- observables
VC(averages)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    Settings s; bed::settings(s, vf_int("regions", 0, 5), false, false);
    Mesh::mesh m(s);
    anyFields(m.node);
    const int k = vf_int("region", -1, 3), a = vf_int("comp", 0, 2);
    const Nodes::index d = a == 0 ? IDX_X : a == 1 ? IDX_Y : IDX_Z;
    bool some = false;
    for (int t = 0; t < 3; t++) if (bed::reg[t] != 2 && (k < 0 || bed::reg[t] == k)) some = true;
    REQUIRES(some);
    const double u = m.avg(Nodes::get_u_comp, d, k), v = m.avg(Nodes::get_v_comp, d, k), th = m.thiele(k);
    Order o(1);
    SAME(m.avg(Nodes::get_u_comp, d, k), u); SAME(m.avg(Nodes::get_v_comp, d, k), v);
    const double th1 = m.thiele(k);
#ifdef VF_NATIVE
    if (th == th && th1 == th1) SAME(th1, th);
#else
    SAME(th1, th);
#endif
    }
VC(angle)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    Settings s; bed::settings(s, vf_int("regions", 0, 5), false, false);
    Mesh::mesh m(s);
    // unit vectors in a plane at multiples of 45 degrees and one free component: every order of the products
    const int step = vf_int("step", 0, 2);
    for (int i = 0; i < bed::NM; i++) { const int c = (3*i*i + i*step) % 8; const double h = 0.70710678118654752; const double C[8] = {1,h,0,-h,-1,-h,0,h}; m.node[i].d[NEXT].u = Eigen::Vector3d(C[c], C[(c+6)%8], 0); }
    const double x = m.max_angle();
    Order o(1);
    SAME(m.max_angle(), x);
    }
VC(energy)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    const bool tri = vf_bool("tri"), space = vf_bool("space");
    Settings s; bed::settings(s, vf_int("regions", 0, 5), tri, false);
    s.field_type = space ? R4toR3 : RtoR3;
    for (int r = 1; r < 4; r++) { s.paramTetra[r].A = 1e-11; s.paramTetra[r].K = 1e3; s.paramTetra[r].K3 = -2e3; }
    s.paramTriangle[0].Ks = 1e-3; s.paramTriangle[1].Ks = -2e-3;
    timing tp(1e-9, 1e-14, 1e-11);
    Fem f(s, tp);
    anyFields(f.msh.node);
    const std::vector<Node> old(f.msh.node);
    f.energy(0.25, s);
    const std::vector<double> E(f.E.begin(), f.E.end()); const double Et = f.Etot;
    Order o(1);
    f.energy(0.25, s);
    const std::vector<double> F(f.E.begin(), f.E.end());
    scale = 1e4;
    same(F, E); SAME(f.Etot, Et);
    scale = 1;
    sameNodes(f.msh.node, old);
    }
// ---------------------------------------------------------------- element systems
extern "C" void vfstub_base(const LinAlgebra *) {}
namespace {
struct Sys { std::vector<double> v; };
void elements(const Mesh::mesh &m, std::vector<double> &v)
    {
    v.clear();
    for (const auto &t : m.tet) { for (int i = 0; i < 8; i++) { v.push_back(t.Lp[i]); for (int j = 0; j < 8; j++) v.push_back(t.Kp(i,j)); } }
    for (const auto &f : m.tri) for (int i = 0; i < 6; i++) v.push_back(f.Lp[i]);
    }
void clear(Mesh::mesh &m)
    {
    for (auto &t : m.tet) { t.Lp.setZero(); t.Kp.setZero(); }
    for (auto &f : m.tri) f.Lp.setZero();
    }
// concrete states: small and large amplitudes reach the branches of the integrand
void amplitude(std::vector<Node> &v, double x, unsigned g)
    {
    for (Node &n : v)
        {
        double *p[6] = {n.ep.data(), n.eq.data(), n.d[0].u.data(), n.d[0].v.data(), n.d[1].u.data(), n.d[1].v.data()};
        for (int k = 0; k < 6; k++) for (int i = 0; i < 3; i++) { g = (g*1103515245u + 12345u) & 0x7fffffffu; p[k][i] = double(g >> 20)/1024 - 1; }
        for (int c = 0; c < 2; c++) { n.d[c].v *= x; g = (g*1103515245u + 12345u) & 0x7fffffffu; n.d[c].phi = x*(double(g >> 20)/1024 - 1); n.d[c].phiv = 2*n.d[c].phi; }
        }
    }
void prepare(const bool space)
    {
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    const int rc = vf_int("regions", 0, 5);
    Settings s; bed::settings(s, rc, true, false);
    s.field_type = space ? R4toR3 : RtoR3;
    for (int r = 1; r < 4; r++) { s.paramTetra[r].K = r == 1 ? 1e3 : 0; s.paramTetra[r].K3 = r == 1 ? 0 : 2e3; }
    for (auto &p : s.paramTriangle) p.Ks = 1e-3;
    s.recenter = vf_bool("recenter");
    Mesh::mesh m(s);
    LinAlgebra la(s, m);
    const double X[3] = {1e3, 1e9, 2e10};
    amplitude(m.node, X[vf_int("amplitude", 0, 2)], 17);
    for (size_t i = 0; i < m.extSpaceField.size(); i++) for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) m.extSpaceField[i](k,j) = 1e5*(k - 1.25*i + 0.5*j);
    for (auto &f : m.tri) if (f.dMs == 0) f.dMs = 1e5;          // precondition of Tri::integrales
    la.set_DW_vz(3.0);
    timing t(1e-9, 1e-14, 1e-11); t.set_dt(1e-12);
    const Eigen::Vector3d H(1e5, -2e5, 3e5);
    clear(m); if (space) la.prepareElements(0.5, t); else la.prepareElements(H, t);
    std::vector<double> A, B; elements(m, A);
    Order o(1);
    clear(m); if (space) la.prepareElements(0.5, t); else la.prepareElements(H, t);
    elements(m, B);
    same(A, B);
    }
}
VC(elements_uniform) { prepare(false); }
VC(elements_space) { prepare(true); }
// ---------------------------------------------------------------- assembly and solution of the magnetic problem
namespace {
std::vector<double> g_A, g_b;
void keep(const SparseMatrix &A, const std::vector<double> &b, int n)
    { g_A.clear(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g_A.push_back(A(i, j)); g_b = b; }
}
extern "C" double vfstub_bicg(iteration<double> &iter, SparseMatrix &A, std::vector<double> &x, const std::vector<double> &rhs, const std::vector<int> &)
    {
    keep(A, rhs, x.size());
    for (size_t i = 0; i < x.size(); i++) { const double k[1] = {double(i)}; x[i] = vf_uf("sol", 1, k); }
    iter.status = CONVERGED; iter.res = 0;
    return 0;
    }
extern "C" void vfstub_evol(Node *n, const double vp, const double vq, const double dt)
    { n->d[NEXT].v = Eigen::Vector3d(vp, vq, dt); n->d[NEXT].u = n->d[CURRENT].u + vp*n->ep; }
VC(assembly)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    CONTRACT("LinAlgebra15base_projectionEv", vfstub_base);
    CONTRACT("7algebra8bicg_dirIdEET_", vfstub_bicg);
    CONTRACT("5Nodes4Node9make_evolE", vfstub_evol);
    const int rc = vf_int("regions", 0, 5);
    Settings s; bed::settings(s, rc, true, false);
    Mesh::mesh m(s);
    LinAlgebra la(s, m);
#ifdef VF_NATIVE
    amplitude(m.node, 1.0, 31);
    for (Node &n : m.node) { n.d[CURRENT].u.normalize(); n.setBasis(0.5); }
#else
    for (size_t i = 0; i < m.node.size(); i++) { anyVec("u", m.node[i].d[CURRENT].u); anyVec("ep", m.node[i].ep); }
#endif
    for (auto &t : m.tet)
        { for (int i = 0; i < 8; i++) { t.Lp[i] = vf_real("Lp"); for (int j = 0; j < 8; j++) t.Kp(i,j) = vf_real("Kp") + (i == j ? 20 : 0); } }
    for (auto &f : m.tri) for (int i = 0; i < 6; i++) f.Lp[i] = vf_real("Ls");
    timing t(1e-9, 1e-14, 1e-11); t.set_dt(1e-12);
    const std::vector<Node> old(m.node);
    la.solve(t);
#ifdef VF_NATIVE
    keep(la.K, la.L_rhs, 2*bed::NM);
#endif
    const std::vector<double> A(g_A), b(g_b); const std::vector<Node> ref(m.node);
    m.node = old;
    Order o(1);
    la.solve(t);
#ifdef VF_NATIVE
    keep(la.K, la.L_rhs, 2*bed::NM);
    scale = 1e3;
#endif
    same(g_A, A); same(g_b, b);
#ifdef VF_NATIVE
    scale = 1e5;                                        // up to the tolerance of the solver
#endif
    sameNodes(m.node, ref);
    scale = 1;
    }
// ---------------------------------------------------------------- the matrix and the vectors
VC(product)
    {
    const int n = 5, shape = vf_int("shape", 0, 1);
    MatrixShape sh(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j || (i*3 + j) % 4 == shape) sh[i].insert(j);
    SparseMatrix A(sh);
    for (int i = 0; i < n; i++) for (int j : sh[i]) A.set(i, j, vf_real("a"));
    std::vector<double> x(n), y(n), d(n), e(n), yy(n);
    for (int i = 0; i < n; i++) { x[i] = vf_real("x"); y[i] = yy[i] = vf_real("y"); }
    A.build_diag_precond(d); 
    std::vector<double> r(n), q(n);
    A.mult(x, r); scaled_add(x, 0.5, y); const double p = dot(x, y);
    Order o(1);
    A.build_diag_precond(e);
    A.mult(x, q); scaled_add(x, 0.5, yy); const double pp = dot(x, yy);
    same(q, r); same(e, d); same(yy, y); SAME(pp, p);
    }
// ---------------------------------------------------------------- conduction and spin diffusion
extern "C" double vfstub_cg(iteration<double> &iter, SparseMatrix &A, std::vector<double> &x, const std::vector<double> &rhs, const std::vector<double> &, const std::vector<int> &)
    {
    keep(A, rhs, x.size());
    for (size_t i = 0; i < x.size(); i++) { const double k[1] = {double(i)}; x[i] = vf_uf("sol", 1, k); }
    iter.status = CONVERGED; iter.res = 0;
    return 0;
    }
extern "C" void vfstub_infos(const iteration<double> *) {}
VC(conduction)
    {
    CONTRACT("^_ZN7algebra6cg_dirIdE", vfstub_cg);
    Settings s; sab::settings(s); ms_fill = sab::fill;
    s.paramTriangle[1].jn = vf_real("jn"); s.paramTriangle[2].V = vf_real("Vd");
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m);
    electrostatSolver e(m, s.paramTetra, s.paramTriangle, 1e-8, false, 200); e.V.resize(sab::NOD);
    e.solve();
#ifdef VF_NATIVE
    keep(e.K, e.L_rhs, sab::NOD);
#endif
    const std::vector<double> A(g_A), b(g_b);
    Order o(1);
    electrostatSolver f(m, s.paramTetra, s.paramTriangle, 1e-8, false, 200); f.V.resize(sab::NOD);
    f.solve();
#ifdef VF_NATIVE
    keep(f.K, f.L_rhs, sab::NOD);
#endif
    scale = 1e3; same(g_A, A); same(g_b, b); scale = 1;
#ifndef VF_NATIVE
    same(e.V, f.V);
#endif
    }
VC(diffusion)
    {
    CONTRACT("^_ZN7algebra8bicg_dirIdEEv", vfstub_cg);
    CONTRACT("^_ZNK7algebra9iterationIdE5infos", vfstub_infos);
    Settings s; sab::settings(s); ms_fill = sab::fill;
    s.paramTriangle[1].jn = vf_real("jn"); anyVec("uP", s.paramTriangle[1].uP); anyVec("s", s.paramTriangle[2].s);
    Mesh::mesh m(s, true); sab::tables(m); sab::geometry(m);
    anyFields(m.node);
    spinAcc sp(s, m, 1e-8, 300);
    sp.V.resize(sab::NOD); for (double &v : sp.V) v = vf_real("V");
    sp.s.resize(sab::NOD);
    sp.valDirichlet.resize(3*sab::NOD); sp.boundaryConditions();
    const std::vector<double> d(sp.valDirichlet); const std::vector<int> id(sp.idxDirichlet);
    sp.solve();
#ifdef VF_NATIVE
    keep(sp.K, sp.L_rhs, 3*sab::NOD);
#endif
    const std::vector<double> A(g_A), b(g_b); const std::vector<Eigen::Vector3d> r(sp.s);
    Order o(1);
    sp.idxDirichlet.clear(); sp.boundaryConditions();
    same(sp.valDirichlet, d); same(sp.idxDirichlet, id);
    sp.solve();
#ifdef VF_NATIVE
    keep(sp.K, sp.L_rhs, 3*sab::NOD);
#endif
    scale = 1e3; same(g_A, A); same(g_b, b); scale = 1;
#ifndef VF_NATIVE
    for (int i = 0; i < sab::NOD; i++) same(sp.s[i], r[i]);
#endif
    }
// ---------------------------------------------------------------- demagnetizing field
extern "C" void vfstub_corr(const Triangle::Tri *t, const std::function<const Eigen::Vector3d(const Nodes::Node&)> &, VecF &q, std::vector<double> &corr)
    { for (int i = 0; i < 3; i++) corr[t->ind[i]] += q[0]*(i + 1) + t->surf; }
namespace {
std::vector<double> g_q;
void execute(void *p)
    {
    scal_fmm::OctreeClass &tree = *(scal_fmm::OctreeClass*)p;
    for (int l = 0; l < 2; l++)
        {
        scal_fmm::ContainerClass &s = *tree.leaf[l].getSrc(), &t = *tree.leaf[l].getTargets();
        for (int i = 0; i < s.getNbParticles(); i++) { g_q.push_back(s.pos[i].x); g_q.push_back(s.val[i]); }
        for (int i = 0; i < t.getNbParticles(); i++) { const double k[1] = {double(t.idx[i])}; t.pot[i] = vf_uf("pot", 1, k); }
        }
    }
}
VC(demag)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    CONTRACT("8Triangle3Tri17correctionCharges", vfstub_corr);
    Settings s; bed::settings(s, vf_int("regions", 0, 5), true, vf_bool("sup"));
    Mesh::mesh m(s);
    scal_fmm::fmm f(m, s.paramTetra, s.paramTriangle, 3);
    anyFields(m.node);
    const std::vector<Node> old(m.node);
    vf_fmm_execute = execute; g_q.clear();
    f.calc_demag(m);
    const std::vector<Node> ref(m.node); const std::vector<double> q(g_q), c(f.corr);
    m.node = old; g_q.clear();
    Order o(1);
    scal_fmm::fmm h(m, s.paramTetra, s.paramTriangle, 3);
    h.calc_demag(m);
    same(g_q, q); sameNodes(m.node, ref); same(h.corr, c);
    vf_fmm_execute = nullptr;
    }
// ---------------------------------------------------------------- replay: threads on a mesh of some hundred elements
VC(threads)
    {
#ifdef VF_NATIVE
    Big b; b.addTris(0.8, 1);
    js_length = vf_bool("by_region") ? 4 : 3;
    const bool space = vf_bool("space");
    auto prep = [&](Settings &s) -> Settings&
        {
        s.field_type = space ? R4toR3 : RtoR3;
        s.paramTetra.push_back(ms_tetPrm("__default__", 0));
        for (int r = 1; r < 4; r++) { s.paramTetra.push_back(ms_tetPrm(r == 1 ? "a" : r == 2 ? "b" : "c", r == 2 ? 0 : 8e5)); s.paramTetra[r].K = 1e3; }
        s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("s")); s.paramTriangle[1].Ks = 1e-3;
        return s;
        };
    g_big = &b; ms_fill = big_fill;
    js_shared = false;
    Settings s, q; prep(s); prep(q);
    Mesh::mesh m(s); m.init_distrib();
    for (int rep = 0; rep < 3; rep++)
        {
        { Order o(2); Mesh::mesh n(q); n.init_distrib(); sameTables(m, n); sameNodes(m.node, n.node, &m.magNode); }
        for (auto &p : q.paramTetra) p.volume = 0;
        }
    amplitude(m.node, 1.0, 5 + vf_int("state", 0, 100));
    for (Node &n : m.node) { n.d[CURRENT].u.normalize(); n.d[NEXT].u.normalize(); n.setBasis(0.3); }
    LinAlgebra la(s, m);
    const std::vector<Node> old(m.node);
    timing t(1e-9, 1e-14, 1e-11); t.set_dt(1e-13);
    auto run = [&](std::vector<double> &v)
        {
        m.node = old; v.clear();
        m.setBasis(0.25);
        clear(m);
        if (space) la.prepareElements(0.5, t); else la.prepareElements(Eigen::Vector3d(1e5, 0, 3e5), t);
        elements(m, v);
        };
    std::vector<double> A, B;
    run(A);
    for (int rep = 0; rep < 4; rep++) { Order o(2); run(B); scale = 0; same(A, B); scale = 1; }
    // assembly with well conditioned element systems
    std::mt19937 g(vf_int("systems", 0, 1000)); std::uniform_real_distribution<double> u(-1, 1);
    for (auto &e : m.tet) for (int i = 0; i < 8; i++) { e.Lp[i] = u(g); for (int j = 0; j < 8; j++) e.Kp(i,j) = u(g) + (i == j ? 20 : 0); }
    for (auto &f : m.tri) for (int i = 0; i < 6; i++) f.Lp[i] = u(g);
    m.node = old; la.solve(t);
    const int N = 2*int(m.node.size());
    keep(la.K, la.L_rhs, N);
    const std::vector<double> K(g_A), L(g_b);
    for (int rep = 0; rep < 6; rep++)
        {
        m.node = old;
        { Order o(2); la.solve(t); }
        keep(la.K, la.L_rhs, N);
        scale = 1e3; same(g_A, K); same(g_b, L); scale = 1;
        std::vector<double> x(N, 0.5), y(N), z(N);
        for (int i = 0; i < N; i++) x[i] = u(g);
        la.K.mult(x, y);
        { Order o(2); la.K.mult(x, z); }
        same(y, z);
        }
    m.node = old;
    const double a = m.avg(Nodes::get_u_comp, IDX_X), th = m.thiele(-1), an = m.max_angle(), a1 = m.avg(Nodes::get_u_comp, IDX_Y, 1);
    m.evolution(); const std::vector<Node> ev(m.node);
    for (int rep = 0; rep < 6; rep++)
        {
        m.node = old;
        Order o(2);
        SAME(m.avg(Nodes::get_u_comp, IDX_X), a); SAME(m.avg(Nodes::get_u_comp, IDX_Y, 1), a1); SAME(m.max_angle(), an); SAME(m.thiele(-1), th);
        m.evolution(); sameNodes(m.node, ev, &m.magNode);
        }
    ENSURES("one evaluation of a user expression at a time", !js_shared);
#endif
    }
