// C12: matrix pattern and scatter of the elementary matrices and vectors
#include "ms.h"
#include "solver.h"
namespace {
template <int D> struct Sys : public solver<D>
    {
    Sys(Mesh::mesh &m, const Settings &s, const std::function<bool(Mesh::Edge)> &f) : solver<D>(m, s.paramTetra, s.paramTriangle, "t", 1e-6, false, 10, f) {}
    Sys(Mesh::mesh &m, const Settings &s) : solver<D>(m, s.paramTetra, s.paramTriangle, "t", 1e-6, false, 10) {}
    void checkBoundaryConditions(void) const override {}
    };
int g_nod = 0;
void fill(Mesh::mesh &m) { refNodes(m.node, g_nod); }
struct EdgeSet { int n, mask, keep; };
template <int D> void pattern(const int nod, const int mask, const int keep, const bool filtered)
    {
    Settings s;
    g_nod = nod; ms_fill = fill;
    Mesh::mesh msh(s, true);
    std::vector<std::pair<int,int>> all;
    for (int i = 0; i < nod; i++) for (int j = i + 1; j < nod; j++) all.push_back({i, j});
    bool want[6][6];
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) want[i][j] = i == j;
    for (size_t k = 0; k < all.size(); k++)
        if (mask >> k & 1)
            {
            msh.edges.push_back(all[k]);
            if (!filtered || (keep >> k & 1)) want[all[k].first][all[k].second] = want[all[k].second][all[k].first] = true;
            }
    const std::function<bool(Mesh::Edge)> f = [&all, keep](Mesh::Edge e)
        {
        for (size_t k = 0; k < all.size(); k++) if (all[k] == e) return (keep >> k & 1) == 1;
        return false;
        };
    // the shape is observed on the matrix itself: a coefficient is settable exactly where a block exists
    const Sys<D> *p = filtered ? new Sys<D>(msh, s, f) : new Sys<D>(msh, s);
    algebra::MatrixShape sh = p->build_shape(filtered ? f : std::function<bool(Mesh::Edge)>([](Mesh::Edge){ return true; }));
    ENSURES("one row per unknown", int(sh.size()) == D*nod && int(p->L_rhs.size()) == D*nod);
    for (int i = 0; i < D*nod; i++)
        for (int j = 0; j < D*nod; j++)
            ENSURES("pattern: exactly the node blocks and both directions of the retained edges", (sh[i].count(j) > 0) == want[i/D][j/D]);
    for (double v : p->L_rhs) EQ("right-hand side starts at zero", v, 0.0);
    delete p;
    }
const int IND4[6][4] = {{0,1,2,3}, {4,2,0,1}, {3,1,4,0}, {2,4,3,1}, {1,0,3,4}, {4,3,2,0}};
const int IND3[6][3] = {{0,1,2}, {4,2,0}, {3,1,4}, {2,4,3}, {1,0,3}, {4,3,2}};
template <int D, int N> void scatter()
    {
    const int nod = 5, c = vf_int("which", 0, 5);
    Settings s;
    g_nod = nod; ms_fill = fill;
    Mesh::mesh msh(s, true);
    for (int i = 0; i < nod; i++) for (int j = i + 1; j < nod; j++) msh.edges.push_back({i, j});
    Sys<D> S(msh, s);
    std::vector<double> M0(D*nod*D*nod), L0(D*nod), Le(D*N);
    for (int i = 0; i < D*nod; i++)
        {
        for (int j = 0; j < D*nod; j++) { M0[i*D*nod+j] = vf_real("k"); S.K.set(i, j, M0[i*D*nod+j]); }
        L0[i] = vf_real("l"); S.L_rhs[i] = L0[i];
        }
    Eigen::Matrix<double,D*N,D*N> Ke;
    for (int i = 0; i < D*N; i++) { Le[i] = vf_real("Le"); for (int j = 0; j < D*N; j++) Ke(i,j) = vf_real("Ke"); }
    const Eigen::Matrix<double,D*N,D*N> Ke0(Ke); const std::vector<double> Le0(Le);
    std::array<int,N> ind;
    for (int k = 0; k < N; k++) ind[k] = N == 4 ? IND4[c][k] : IND3[c][k];
    const std::array<int,N> ind0(ind);
    for (int a = 0; a < N; a++)
        for (int d = 0; d < D; d++)
            {
            L0[D*ind[a]+d] += Le[d*N+a];
            for (int b = 0; b < N; b++) for (int e = 0; e < D; e++) M0[(D*ind[a]+d)*D*nod + D*ind[b]+e] += Ke(d*N+a, e*N+b);
            }
    S.template buildMat<N>(ind, Ke);
    for (int i = 0; i < D*nod; i++)
        {
        for (int j = 0; j < D*nod; j++) EQ("matrix: each elementary coefficient lands once on its place", S.K(i, j), M0[i*D*nod+j]);
        }
    S.template buildVect<N>(ind, Le);
    for (int i = 0; i < D*nod; i++) EQ("vector: each elementary entry lands once on its place", S.L_rhs[i], L0[i]);
    for (int i = 0; i < D*nod; i++) for (int j = 0; j < D*nod; j++) EQ("vector assembly leaves the matrix unchanged", S.K(i, j), M0[i*D*nod+j]);
    for (int k = 0; k < N; k++) ENSURES("element indices are not modified", ind[k] == ind0[k]);
    for (int i = 0; i < D*N; i++) { EQ("elementary vector is not modified", Le[i], Le0[i]); for (int j = 0; j < D*N; j++) EQ("elementary matrix is not modified", Ke(i,j), Ke0(i,j)); }
    }
// any node numbers at all: the sum of what is added, weighted by an arbitrary function W of the position,
// is the sum of the elementary coefficients weighted by W at their places
double g_sum = 0;
double W(double i, double j) { const double a[2] = {i, j}; return vf_uf("W", 2, a); }
}
extern "C" void vfstub_add(algebra::SparseMatrix *, int i, int j, double v) { g_sum += v * W(i, j); }
namespace {
template <int D, int N> void scatter_any()
    {
    CONTRACT("SparseMatrix3addEiid", vfstub_add);
    Settings s;
    g_nod = 2; ms_fill = fill;
    Mesh::mesh msh(s, true);
    Sys<D> S(msh, s);
#ifndef VF_NATIVE
    Eigen::Matrix<double,D*N,D*N> Ke;
    for (int i = 0; i < D*N; i++) for (int j = 0; j < D*N; j++) Ke(i,j) = vf_real("Ke");
    std::array<int,N> ind;
    for (int k = 0; k < N; k++) ind[k] = int(vf_nat("node"));
    double want = 0; g_sum = 0;
    for (int a = 0; a < N; a++)
        for (int d = 0; d < D; d++)
            for (int b = 0; b < N; b++) for (int e = 0; e < D; e++) want += Ke(d*N+a, e*N+b) * W(double(D)*ind[a]+d, double(D)*ind[b]+e);
    S.template buildMat<N>(ind, Ke);
    EQ("every coefficient is added once at its place, for any node numbers", g_sum, want);
#endif
    }
}
VC(pattern_1) { pattern<1>(4, vf_int("edges", 0, 63), vf_int("k", 0, 1) ? 21 : 46, true); }
VC(pattern_1_all) { pattern<1>(4, vf_int("edges", 0, 63), 0, false); }
VC(pattern_2) { pattern<2>(3, vf_int("edges", 0, 7), vf_int("keep", 0, 7), vf_bool("filtered")); }
VC(pattern_3) { pattern<3>(3, vf_int("edges", 0, 7), vf_int("keep", 0, 7), vf_bool("filtered")); }
VC(scatter_1_4) { scatter<1,4>(); }
VC(scatter_2_4) { scatter<2,4>(); }
VC(scatter_3_4) { scatter<3,4>(); }
VC(scatter_1_3) { scatter<1,3>(); }
VC(scatter_2_3) { scatter<2,3>(); }
VC(scatter_3_3) { scatter<3,3>(); }
VC(any_1_4) { scatter_any<1,4>(); }
VC(any_2_4) { scatter_any<2,4>(); }
VC(any_3_4) { scatter_any<3,4>(); }
#include "big.h"
#ifdef VF_NATIVE
template <int D> static void big_system(Big &b)
    {
    const double M[4] = {0, 1e5, 0, 3e5};
    Settings s; big_params(s, M, 2);
    ms_fill = big_fill;
    Mesh::mesh m(s);
    const bool filtered = vf_bool("filtered");
    const std::function<bool(Mesh::Edge)> f = [&](Mesh::Edge e) { return (e.first*7 + e.second) % 3 != 0; };
    Sys<D> *S = filtered ? new Sys<D>(m, s, f) : new Sys<D>(m, s);
    const int N = m.node.size();
    std::map<std::pair<int,int>, double> K; std::vector<double> L(D*N, 0.0);
    algebra::MatrixShape sh = S->build_shape(filtered ? f : std::function<bool(Mesh::Edge)>([](Mesh::Edge){ return true; }));
    std::set<std::pair<int,int>> blocks;
    for (int i = 0; i < N; i++) blocks.insert({i, i});
    for (auto &t : b.tet) for (int i : t.i) for (int j : t.i) { const int p = m.node_index[i], q = m.node_index[j]; if (p != q && (!filtered || f({std::min(p,q), std::max(p,q)}))) blocks.insert({p, q}); }
    size_t nz = 0;
    for (int i = 0; i < D*N; i++) for (int j : sh[i]) { nz++; ENSURES("pattern: exactly the node blocks and both directions of the retained edges", blocks.count({i/D, j/D}) == 1); }
    ENSURES("pattern: exactly the node blocks and both directions of the retained edges", int(sh.size()) == D*N && nz == blocks.size()*D*D);
    if (!filtered)
        {
        for (Tetra::Tet &t : m.tet)
            {
            Eigen::Matrix<double,D*4,D*4> Ke; std::vector<double> Le(D*4);
            for (int i = 0; i < D*4; i++) { Le[i] = b.rnd(-1,1); for (int j = 0; j < D*4; j++) Ke(i,j) = b.rnd(-1,1); }
            S->template buildMat<4>(t.ind, Ke); S->template buildVect<4>(t.ind, Le);
            for (int a = 0; a < 4; a++) for (int d = 0; d < D; d++)
                {
                L[D*t.ind[a]+d] += Le[d*4+a];
                for (int c = 0; c < 4; c++) for (int e = 0; e < D; e++) K[{D*t.ind[a]+d, D*t.ind[c]+e}] += Ke(d*4+a, e*4+c);
                }
            }
        const algebra::SparseMatrix &A = S->K;
        for (int i = 0; i < D*N; i++) { EQ("vector scatter", S->L_rhs[i], L[i]); for (int j : sh[i]) EQ("matrix scatter", A(i, j), (K[{i, j}])); }
        }
    delete S;
    }
#endif
VC(large)               // replay only: some hundred tetrahedra
    {
#ifdef VF_NATIVE
    Big b; g_big = &b;
    switch (vf_int("dim", 1, 3)) { case 1: big_system<1>(b); break; case 2: big_system<2>(b); break; default: big_system<3>(b); }
#endif
    }
