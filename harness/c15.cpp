// C15: mesh validation (controlTriangles) against a count over all node triples
#include "ms.h"
namespace {
const int NOD = 6;
const double P[NOD][3] = {{0,0,0},{1,0,0.1},{0.1,1,0},{0.2,0.3,1},{0.3,0.2,-1.1},{1,1,1.3}};
struct TetIn { int ind[4], reg; };
struct TriIn { int ind[3], reg; };
std::vector<TetIn> g_tet; std::vector<TriIn> g_tri;
int g_ntri;
void fill(Mesh::mesh &m)
    {
    m.node.resize(NOD);
    for (int i = 0; i < NOD; i++) { zeroNode(m.node[i]); for (int k = 0; k < 3; k++) m.node[i].p[k] = P[i][k]; }
    for (const TetIn &t : g_tet) m.tet.push_back(Tetra::Tet(m.node, t.reg, {t.ind[0]+1, t.ind[1]+1, t.ind[2]+1, t.ind[3]+1}));
    for (const TriIn &t : g_tri) m.tri.push_back(Triangle::Tri(m.node, t.reg, {t.ind[0]+1, t.ind[1]+1, t.ind[2]+1}));
    }
bool has(const int *ind, int n, int i) { for (int k = 0; k < n; k++) if (ind[k] == i) return true; return false; }
double Ms[4];
// the independent reading of the mesh: count faces and surface elements of every triple
bool well_formed()
    {
    if (g_tet.empty()) return false;
    for (int a = 0; a < NOD; a++) for (int b = a + 1; b < NOD; b++) for (int c = b + 1; c < NOD; c++)
        {
        int nf = 0, ns = 0, reg[8];
        for (const TetIn &t : g_tet) if (has(t.ind, 4, a) && has(t.ind, 4, b) && has(t.ind, 4, c)) reg[nf++] = t.reg;
        for (const TriIn &t : g_tri) if (has(t.ind, 3, a) && has(t.ind, 3, b) && has(t.ind, 3, c)) ns++;
        if (ns > 1 || nf > 2 || (ns == 1 && nf == 0) || (ns == 1 && nf == 2 && reg[0] == reg[1])) return false;
        }
    return true;
    }
Eigen::Vector3d pos(int i) { return Eigen::Vector3d(P[i][0], P[i][1], P[i][2]); }
void post(Mesh::mesh &m, Settings &s)
    {
    ENSURES("given surface elements are kept in order", m.tri.size() >= g_tri.size());
    for (size_t k = 0; k < g_tri.size(); k++)
        {
        for (int q = 0; q < 3; q++) ENSURES("given surface elements keep their nodes", m.tri[k].ind[q] == g_tri[k].ind[q]);
        ENSURES("given surface elements keep their region", m.tri[k].idxPrm == g_tri[k].reg);
        }
    for (int a = 0; a < NOD; a++) for (int b = a + 1; b < NOD; b++) for (int c = b + 1; c < NOD; c++)
        {
        int nf = 0, ns = 0, reg[8], opp[8], found = -1;
        for (const TetIn &t : g_tet) if (has(t.ind, 4, a) && has(t.ind, 4, b) && has(t.ind, 4, c))
            { reg[nf] = t.reg; for (int k = 0; k < 4; k++) if (t.ind[k] != a && t.ind[k] != b && t.ind[k] != c) opp[nf] = t.ind[k]; nf++; }
        for (size_t k = 0; k < m.tri.size(); k++) if (has(&m.tri[k].ind[0], 3, a) && has(&m.tri[k].ind[0], 3, b) && has(&m.tri[k].ind[0], 3, c)) { ns++; found = k; }
        const bool want = nf == 1 || (nf == 2 && reg[0] != reg[1]);
        ENSURES("exactly the outer and interface faces carry a surface element, once", ns == (want ? 1 : 0));
        if (!want || ns != 1) continue;
        const Triangle::Tri &f = m.tri[found];
        if (found >= int(g_tri.size()))
            {
            ENSURES("a created element has a region of its own kind", f.idxPrm > 0 && f.idxPrm < int(s.paramTriangle.size()));
            const std::string &n = s.paramTriangle[f.idxPrm].regName;
            std::string w;
            if (nf == 1) w = std::string("surface(") + s.paramTetra[reg[0]].regName + ")";
            else { const int hi = reg[0] > reg[1] ? reg[0] : reg[1], lo = reg[0] > reg[1] ? reg[1] : reg[0]; w = std::string("interface(") + s.paramTetra[hi].regName + ", " + s.paramTetra[lo].regName + ")"; }
            ENSURES("created regions are named after the adjacent volume regions", n == w || n == w + ".1");
            ENSURES("a created region is new", f.idxPrm >= g_ntri);
            int same = 0;
            for (size_t k = 0; k < s.paramTriangle.size(); k++) if (s.paramTriangle[k].regName == n) same++;
            ENSURES("region names stay unique", same == 1);
            EQ("created regions have the default parameters", s.paramTriangle[f.idxPrm].Ks, s.paramTriangle[0].Ks);
            }
        // jump: sum of Ms, positive for the tetrahedron the normal points out of
        const Eigen::Vector3d A = pos(f.ind[0]), n = (pos(f.ind[1]) - A).cross(pos(f.ind[2]) - A);
        double want_dMs = 0;
        for (int k = 0; k < nf; k++) want_dMs += n.dot(A - pos(opp[k])) > 0 ? Ms[reg[k]] : -Ms[reg[k]];
        EQ("magnetization jump", f.dMs, want_dMs);
        }
    }
void params(Settings &s, const bool clash)
    {
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("A", 1)); s.paramTetra.push_back(ms_tetPrm("B", 1)); s.paramTetra.push_back(ms_tetPrm("C", 1));
    for (int k = 1; k < 4; k++) { Ms[k] = vf_range("Ms", 0, 1e6); s.paramTetra[k].Ms = Ms[k]; }
    s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("S")); s.paramTriangle.push_back(ms_triPrm("T"));
    s.paramTriangle[0].Ks = vf_real("Ks0");
    if (clash) s.paramTriangle.push_back(ms_triPrm("surface(A)"));
    g_ntri = s.paramTriangle.size();
    }
void run(const bool clash = false)
    {
    Settings s; params(s, clash);
    ms_fill = fill;
    Mesh::mesh m(s, true);
    const bool ok = m.controlTriangles();
    ENSURES("accepted exactly when well formed", ok == well_formed());
    if (ok) post(m, s);
    }
const int PERM4[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
 {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
const int PERM3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
// tetrahedra of the test bed: 0 and 1 share the face 0-1-2, 2 shares it too (bad), 3 shares 1-2-3 with 0
const int T[4][4] = {{0,1,2,3}, {0,1,2,4}, {0,1,2,5}, {1,2,3,5}};
void addTet(int which, int perm, int reg) { TetIn t; for (int k = 0; k < 4; k++) t.ind[k] = T[which][PERM4[perm][k]]; t.reg = reg; g_tet.push_back(t); }
void addTri(int a, int b, int c, int perm, int reg) { const int i[3] = {a, b, c}; TriIn t; for (int k = 0; k < 3; k++) t.ind[k] = i[PERM3[perm][k]]; t.reg = reg; g_tri.push_back(t); }
const int F[7][3] = {{0,1,2},{0,1,3},{0,2,3},{1,2,3},{0,1,4},{1,2,5},{0,4,5}};     // candidates for surface elements; the last is nobody's face
void begin() { g_tet.clear(); g_tri.clear(); }
}
VC(one_tet)             // any node order, any subset of surface elements in any order
    {
    begin();
    addTet(0, vf_int("perm", 0, 23), 1);
    const int sub = vf_int("sub", 0, 15), o = vf_int("order", 0, 5);
    for (int k = 0; k < 4; k++) if (sub >> k & 1) addTri(F[k][0], F[k][1], F[k][2], (o + k) % 6, 1 + k % 2);
    run();
    }
VC(two_tets)            // shared face, same or different regions, all index orders of one of them
    {
    begin();
    const int r = vf_int("r", 1, 2);
    addTet(0, vf_int("perm", 0, 23), 1); addTet(1, vf_int("perm2", 0, 1)*7, r);
    const int tri = vf_int("tri", 0, 7);
    if (tri < 7) addTri(F[tri][0], F[tri][1], F[tri][2], vf_int("order", 0, 5), 1);
    run();
    }
VC(three_tets)          // a face shared by three, chains of three regions
    {
    begin();
    const int third = vf_int("third", 2, 3), r1 = vf_int("r1", 1, 2), r2 = vf_int("r2", 1, 3), p = vf_int("perm", 0, 3)*5;
    addTet(0, p, 1); addTet(1, (p + 3) % 24, r1); addTet(third, (p + 11) % 24, r2);
    const int tri = vf_int("tri", 0, 7);
    if (tri < 7) addTri(F[tri][0], F[tri][1], F[tri][2], tri % 6, 2);
    run();
    }
VC(duplicates)          // the same surface element twice, in any orders
    {
    begin();
    addTet(0, 0, 1); addTet(1, 0, 2);
    const int tri = vf_int("tri", 0, 6), a = vf_int("a", 0, 5), b = vf_int("b", 0, 5);
    addTri(F[tri][0], F[tri][1], F[tri][2], a, 1);
    if (vf_bool("between")) addTri(0, 2, 4, 0, 2);
    addTri(F[tri][0], F[tri][1], F[tri][2], b, 1 + a % 2);
    run();
    }
VC(clash)               // a region called like a created one already exists
    {
    begin();
    addTet(0, vf_int("perm", 0, 3), vf_int("r", 1, 2)); addTet(3, 0, 1);
    if (vf_bool("t")) addTri(0, 1, 3, 1, 3);
    run(true);
    }
VC(empty)
    {
    begin();
    if (vf_bool("t")) addTri(0, 1, 2, 0, 1);
    run();
    }
#include "big.h"
VC(large)               // replay only: some hundred tetrahedra
    {
#ifdef VF_NATIVE
    Big b; g_big = &b;
    const double M[4] = {0, vf_pos("Ms"), vf_bool("mag") ? vf_pos("Ms") : 0, vf_pos("Ms")};
    b.addTris(vf_range("fraction", 0, 1.5), 2);
    const int defect = vf_int("defect", 0, 5);
    bool bad = false;
    if (defect == 1 && !b.tri.empty()) { auto t = b.tri[int(b.rnd(0, b.tri.size() - 0.001))]; std::shuffle(t.i.begin(), t.i.end(), b.g); t.r = 3 - t.r; b.tri.insert(b.tri.begin() + int(b.rnd(0, b.tri.size())), t); bad = true; }
    if (defect == 2 || defect == 3) for (auto &f : b.faces) if (!b.boundary(f.second) && b.rnd(0, 1) < 0.1) { b.tri.push_back({f.first, 1}); bad = true; break; }
    if (defect == 4)        // three tetrahedra on one face
        { auto f = b.faces.begin(); while (f->second.size() != 2) ++f;
          for (size_t k = 0; k < b.p.size(); k++) { auto &a = f->first; const double v = (b.p[a[1]] - b.p[a[0]]).dot((b.p[a[2]] - b.p[a[0]]).cross(b.p[k] - b.p[a[0]])); if (std::fabs(v) > 0.5 && int(k) != f->second[0].second && int(k) != f->second[1].second) { b.tet.push_back({{a[0], a[1], a[2], int(k)}, 2}); bad = true; break; } } }
    if (defect == 5)        // a surface element that is nobody's face
        { int a = int(b.rnd(0, 5)), c = int(b.rnd(5, 10)), d = int(b.rnd(10, 20)); if (!b.faces.count(Big::sorted(a, c, d))) { b.tri.push_back({{a, c, d}, 2}); bad = true; } }
    Settings s; big_params(s, M, 2);
    ms_fill = big_fill;
    Mesh::mesh m(s, true);
    const size_t given = m.tri.size();
    const bool ok = m.controlTriangles();
    ENSURES("accepted exactly when well formed", ok == !bad);
    if (!ok || bad) return;
    std::map<std::array<int,3>, int> seen;
    ENSURES("given surface elements are kept in order", m.tri.size() >= given);
    for (size_t k = 0; k < m.tri.size(); k++)
        {
        const Triangle::Tri &f = m.tri[k];
        const auto key = Big::sorted(f.ind[0], f.ind[1], f.ind[2]);
        seen[key]++;
        if (k < given) ENSURES("given surface elements keep their nodes", f.ind[0] == b.tri[k].i[0] && f.ind[1] == b.tri[k].i[1] && f.ind[2] == b.tri[k].i[2] && f.idxPrm == b.tri[k].r);
        auto it = b.faces.find(key);
        ENSURES("exactly the outer and interface faces carry a surface element, once", it != b.faces.end() && b.boundary(it->second) && seen[key] == 1);
        if (it == b.faces.end()) continue;
        const Eigen::Vector3d A = b.p[f.ind[0]], n = (b.p[f.ind[1]] - A).cross(b.p[f.ind[2]] - A);
        double want = 0; int hi = -1, lo = 99;
        for (auto &q : it->second) { const int r = b.tet[q.first].r; want += n.dot(A - b.p[q.second]) > 0 ? M[r] : -M[r]; hi = std::max(hi, r); lo = std::min(lo, r); }
        EQ("magnetization jump", f.dMs, want);
        if (k >= given)
            {
            const std::string w = it->second.size() == 1 ? "surface(" + s.paramTetra[hi].regName + ")" : "interface(" + s.paramTetra[hi].regName + ", " + s.paramTetra[lo].regName + ")";
            ENSURES("created regions are named after the adjacent volume regions", s.paramTriangle[f.idxPrm].regName == w);
            }
        }
    size_t nb = 0; for (auto &f : b.faces) nb += b.boundary(f.second);
    ENSURES("exactly the outer and interface faces carry a surface element, once", seen.size() == nb);
#endif
    }
