// replay only: meshes of some hundred elements (a box cut into tetrahedra, nodes and indices shuffled).  Sizes
// beyond the bounded domains of the proofs; supplementary, never counted as proof.
#ifndef BIG_H
#define BIG_H
#include "ms.h"
#ifdef VF_NATIVE
#include <random>
#include <algorithm>
#include <map>
#include <set>
struct Big
    {
    std::vector<Eigen::Vector3d> p;                                     // node i of the file
    struct E { std::array<int,4> i; int r; };
    struct F { std::array<int,3> i; int r; };
    std::vector<E> tet; std::vector<F> tri;
    std::mt19937 g;
    static std::array<int,3> sorted(int a, int b, int c) { std::array<int,3> s{a, b, c}; std::sort(s.begin(), s.end()); return s; }
    std::map<std::array<int,3>, std::vector<std::pair<int,int>>> faces;  // face -> (tetrahedron, opposite node)
    int nreg;
    explicit Big(int regions = 3) : nreg(regions)
        {
        g.seed(vf_int("seed", 0, 1000000));
        const int n[3] = {vf_int("nx", 2, 5), vf_int("ny", 2, 4), vf_int("nz", 2, 6)};
        const double jit = 0.15;
        auto id = [&](int x, int y, int z) { return (z*(n[1]+1) + y)*(n[0]+1) + x; };
        const int N = (n[0]+1)*(n[1]+1)*(n[2]+1);
        std::vector<int> perm(N);
        for (int i = 0; i < N; i++) perm[i] = i;
        std::shuffle(perm.begin(), perm.end(), g);
        std::uniform_real_distribution<double> u(-jit, jit);
        p.resize(N);
        const Eigen::Vector3d off(vf_range("ox", -20, 20), vf_range("oy", -20, 20), vf_range("oz", -20, 20));
        for (int z = 0; z <= n[2]; z++) for (int y = 0; y <= n[1]; y++) for (int x = 0; x <= n[0]; x++)
            p[perm[id(x,y,z)]] = Eigen::Vector3d(x + u(g), y + u(g), z + u(g)) + off;
        static const int K[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
        for (int z = 0; z < n[2]; z++) for (int y = 0; y < n[1]; y++) for (int x = 0; x < n[0]; x++) for (int k = 0; k < 6; k++)
            {
            int c[3] = {x, y, z}; E e; e.i[0] = perm[id(c[0],c[1],c[2])];
            for (int s = 0; s < 3; s++) { c[K[k][s]]++; e.i[s+1] = perm[id(c[0],c[1],c[2])]; }
            std::shuffle(e.i.begin(), e.i.end(), g);
            e.r = 1 + (z*regions)/n[2];
            tet.push_back(e);
            }
        std::shuffle(tet.begin(), tet.end(), g);
        for (size_t t = 0; t < tet.size(); t++) for (int k = 0; k < 4; k++)
            faces[sorted(tet[t].i[(k+1)%4], tet[t].i[(k+2)%4], tet[t].i[(k+3)%4])].push_back({int(t), tet[t].i[k]});
        }
    bool boundary(const std::vector<std::pair<int,int>> &f) const { return f.size() == 1 || tet[f[0].first].r != tet[f[1].first].r; }
    void addTris(double fraction, int regions)
        {
        std::uniform_real_distribution<double> u(0, 1);
        for (auto &f : faces) if (boundary(f.second) && u(g) < fraction)
            { F t; t.i = f.first; std::shuffle(t.i.begin(), t.i.end(), g); t.r = 1 + int(u(g)*regions); tri.push_back(t); }
        std::shuffle(tri.begin(), tri.end(), g);
        }
    double vol(size_t t) const
        {
        const auto &i = tet[t].i;
        return std::fabs((p[i[1]] - p[i[0]]).dot((p[i[2]] - p[i[0]]).cross(p[i[3]] - p[i[0]])))/6;
        }
    double rnd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
    void fill(Mesh::mesh &m) const
        {
        m.node.resize(p.size());
        for (size_t i = 0; i < p.size(); i++) { zeroNode(m.node[i]); m.node[i].p = p[i]; m.node[i].d[NEXT].phi = i; }
        for (const E &t : tet) m.tet.push_back(Tetra::Tet(m.node, t.r, {t.i[0]+1, t.i[1]+1, t.i[2]+1, t.i[3]+1}));
        for (const F &t : tri) m.tri.push_back(Triangle::Tri(m.node, t.r, {t.i[0]+1, t.i[1]+1, t.i[2]+1}));
        }
    };
static Big *g_big = nullptr;
static void big_fill(Mesh::mesh &m) { g_big->fill(m); }
static void big_params(Settings &s, const double *Ms, int nsurf)
    {
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); 
    static const char *const N[6] = {"", "A", "B", "C", "D", "E"};
    for (int k = 1; k <= 3; k++) s.paramTetra.push_back(ms_tetPrm(N[k], Ms[k]));
    s.paramTriangle.push_back(ms_triPrm("__default__"));
    for (int k = 1; k <= nsurf; k++) s.paramTriangle.push_back(ms_triPrm(k == 1 ? "S" : "T"));
    }
#endif
#endif
