// C16: node renumbering, bounding box, volumes, edges and magnetic tables of the mesh constructor
#include "ms.h"
namespace {
double mn(double a, double b) { return a < b ? a : b; }
double mx(double a, double b) { return a > b ? a : b; }
int g_n;
void bare(Mesh::mesh &m) { m.node.resize(g_n); for (int i = 0; i < g_n; i++) zeroNode(m.node[i]); }
Nodes::index axis(int a) { return a == 0 ? IDX_X : a == 1 ? IDX_Y : IDX_Z; }
}
VC(extent)              // extreme coordinates of any set of nodes, anywhere
    {
    g_n = vf_int("n", 1, 4);
    Settings s; ms_fill = bare;
    Mesh::mesh m(s, true);
    for (int i = 0; i < g_n; i++) for (int k = 0; k < 3; k++) m.node[i].p[k] = vf_range("p", -1e3, 1e3);
    const int a = vf_int("axis", 0, 2);
    double lo = m.node[0].p[a], hi = lo;
    for (int i = 1; i < g_n; i++) { lo = mn(lo, m.node[i].p[a]); hi = mx(hi, m.node[i].p[a]); }
    EQ("minimum of the coordinates", m.minNodes(axis(a)), lo);
    EQ("maximum of the coordinates", m.maxNodes(axis(a)), hi);
    }
namespace {
const int NS = 5;
const int ST[2][4] = {{1,2,3,4},{2,3,4,5}}, SF[2][3] = {{1,3,2},{5,4,2}};
void sfill(Mesh::mesh &m)
    {
    refNodes(m.node, NS);
    for (int t = 0; t < 2; t++) m.tet.push_back(Tetra::Tet(m.node, 0, {ST[t][0], ST[t][1], ST[t][2], ST[t][3]}));
    for (int t = 0; t < 2; t++) m.tri.push_back(Triangle::Tri(m.node, 0, {SF[t][0], SF[t][1], SF[t][2]}));
    }
}
VC(sort)                // one permutation, applied everywhere; coordinates and contents symbolic
    {
    Settings s; ms_fill = sfill;
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTriangle.push_back(ms_triPrm("__default__"));
    Mesh::mesh m(s, true);
    for (int i = 0; i < NS; i++) { anyNode(m.node[i]); m.node[i].d[NEXT].phi = i; }
    const std::vector<Node> old(m.node);
    const int a = vf_int("axis", 0, 2);
    int ti[2][4], fi[2][3];
    for (int t = 0; t < 2; t++) { for (int k = 0; k < 4; k++) ti[t][k] = m.tet[t].ind[k]; for (int k = 0; k < 3; k++) fi[t][k] = m.tri[t].ind[k]; }
    m.sortNodes(axis(a));
    ENSURES("no node is lost", int(m.node.size()) == NS && int(m.node_index.size()) == NS);
    bool seen[NS] = {};
    for (int i = 0; i < NS; i++)
        {
        const int j = m.node_index[i];
        ENSURES("the index table is a permutation", j >= 0 && j < NS && !seen[j]);
        if (j < 0 || j >= NS) return;
        seen[j] = true;
        ENSURES("the index table maps a file position to that node", int(m.node[j].d[NEXT].phi) == i);
        for (int k = 0; k < 3; k++)
            {
            EQ("nodes keep their position", m.node[j].p[k], old[i].p[k]);
            EQ("nodes keep their basis", m.node[j].ep[k], old[i].ep[k]);
            EQ("nodes keep their basis", m.node[j].eq[k], old[i].eq[k]);
            for (int d = 0; d < 2; d++)
                { EQ("nodes keep their magnetization", m.node[j].d[d].u[k], old[i].d[d].u[k]); EQ("nodes keep their velocity", m.node[j].d[d].v[k], old[i].d[d].v[k]); }
            }
        for (int d = 0; d < 2; d++) { EQ("nodes keep their potential", m.node[j].d[d].phi, old[i].d[d].phi); EQ("nodes keep their potential", m.node[j].d[d].phiv, old[i].d[d].phiv); }
        if (i > 0) ENSURES("nodes are ordered along the axis", m.node[i-1].p[a] <= m.node[i].p[a]);
        }
    for (int t = 0; t < 2; t++)
        {
        for (int k = 0; k < 4; k++) ENSURES("tetrahedra keep their nodes", m.tet[t].ind[k] == m.node_index[ti[t][k]]);
        for (int k = 0; k < 3; k++) ENSURES("triangles keep their nodes", m.tri[t].ind[k] == m.node_index[fi[t][k]]);
        ENSURES("elements keep their region", m.tet[t].idxPrm == 0 && m.tri[t].idxPrm == 0);
        }
    }
namespace {
const int NM = 7;
// node 6 belongs to no element
const double MP[NM][3] = {{0,0,0},{1,0,0.25},{0.125,1,0},{0.25,0.375,1},{0.375,0.25,-1.125},{1,1.25,1.375},{0.5,0.5,0.5}};
const int MT[3][4] = {{0,1,2,3},{0,2,1,4},{1,2,3,5}};
int g_long, g_ord;
double g_p[NM][3], g_shift[3];
int g_reg[3]; bool g_tri, g_sup;
void mfill(Mesh::mesh &m)
    {
    m.node.resize(NM);
    for (int i = 0; i < NM; i++) { zeroNode(m.node[i]); for (int k = 0; k < 3; k++) m.node[i].p[k] = g_p[i][k]; m.node[i].d[NEXT].phi = i; }
    for (int t = 0; t < 3; t++) { const int o = t == 0 ? g_ord : 0; m.tet.push_back(Tetra::Tet(m.node, g_reg[t], {MT[t][o]+1, MT[t][(o+1)%4]+1, MT[t][(o+2)%4]+1, MT[t][(o+3)%4]+1})); }
    if (g_tri) m.tri.push_back(Triangle::Tri(m.node, 1, {1,2,4}));
    }
double vol6(int t)
    {
    Eigen::Vector3d e[3];
    for (int k = 0; k < 3; k++) for (int c = 0; c < 3; c++) e[k][c] = g_p[MT[t][k+1]][c] - g_p[MT[t][0]][c];
    const double d = e[0].dot(e[1].cross(e[2]));
    return d < 0 ? -d : d;
    }
void construct(const bool space)
    {
    const double stretch[3] = {1, 1.25, 6};
    g_long = vf_int("long", 0, 2); g_ord = vf_int("ord", 0, 3);
    for (int k = 0; k < 3; k++) g_shift[k] = vf_range("shift", -50, 50);
    for (int i = 0; i < NM; i++) for (int k = 0; k < 3; k++) g_p[i][k] = MP[i][k]*stretch[(k + 2 - g_long + 3) % 3] + g_shift[k];
    const int rc = vf_int("regions", 0, 5);
    const int RC[6][3] = {{1,1,1},{1,2,1},{2,1,3},{3,3,2},{2,2,1},{1,2,3}};
    for (int t = 0; t < 3; t++) g_reg[t] = RC[rc][t];
    g_tri = vf_bool("tri"); g_sup = vf_bool("sup");
    Settings s;
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("a", 8e5)); s.paramTetra.push_back(ms_tetPrm("b", 0)); s.paramTetra.push_back(ms_tetPrm("c", 5e5));
    s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("s"));
    s.paramTriangle[1].suppress_charges = g_sup;
    s.field_type = space ? R4toR3 : RtoR3;
    ms_fill = mfill;
    Mesh::mesh m(s);
    double lo[3], hi[3];
    for (int k = 0; k < 3; k++)
        {
        lo[k] = hi[k] = MP[0][k]*stretch[(k + 2 - g_long + 3) % 3];
        for (int i = 1; i < NM; i++) { lo[k] = mn(lo[k], MP[i][k]*stretch[(k + 2 - g_long + 3) % 3]); hi[k] = mx(hi[k], MP[i][k]*stretch[(k + 2 - g_long + 3) % 3]); }
        EQS("lengths of the bounding box", m.l[k], hi[k] - lo[k], 50);
        EQS("centre of the bounding box", m.c[k], 0.5*(lo[k] + hi[k]) + g_shift[k], 50);
        }
    // renumbering
    ENSURES("no node is lost", int(m.node.size()) == NM && int(m.node_index.size()) == NM);
    int file[NM];
    for (int i = 0; i < NM; i++) { file[i] = int(m.node[i].d[NEXT].phi); ENSURES("the index table maps a file position to that node", m.node_index[file[i]] == i); }
    for (int i = 0; i < NM; i++)
        {
        for (int k = 0; k < 3; k++) EQS("nodes keep their position", m.node[i].p[k], g_p[file[i]][k], 50);
        if (i > 0) ENSURES("nodes are ordered along the longest axis", m.node[i-1].p[g_long] <= m.node[i].p[g_long]);
        }
    // elements
    double vr[4] = {0,0,0,0}, vt = 0, vmag = 0;
    bool e[NM][NM] = {}, mag[NM] = {};
    size_t ne = 0, nmt = 0;
    for (int t = 0; t < 3; t++)
        {
        for (int k = 0; k < 4; k++)
            {
            bool in = false;
            for (int q = 0; q < 4; q++) in |= MT[t][q] == file[m.tet[t].ind[k]];
            ENSURES("tetrahedra keep their physical nodes", in);
            for (int q = 0; q < k; q++) ENSURES("tetrahedra keep their physical nodes", m.tet[t].ind[q] != m.tet[t].ind[k]);
            }
        for (int k = 0; k < 4; k++) for (int q = 0; q < 4; q++) if (q != k) e[m.node_index[MT[t][k]]][m.node_index[MT[t][q]]] = true;
        const double v = vol6(t)/6;
        vr[g_reg[t]] += v; vt += v;
        if (g_reg[t] != 2)
            {
            vmag += v;
            for (int k = 0; k < 4; k++) mag[m.node_index[MT[t][k]]] = true;
            int c = 0;
            for (int q : m.magTet) c += q == t;
            ENSURES("magnetic tetrahedra are listed once", c == 1);
            nmt++;
            }
        int c = 0;
        for (int q : m.volumeRegions[g_reg[t]]) c += q == t;
        ENSURES("a tetrahedron is listed in its region", c == 1);
        }
    ENSURES("no other tetrahedron is listed as magnetic", m.magTet.size() == nmt);
    ENSURES("no tetrahedron is listed in another region", m.volumeRegions[0].empty() && m.volumeRegions[1].size() + m.volumeRegions[2].size() + m.volumeRegions[3].size() == 3);
    for (int r = 0; r < 4; r++) EQ("region volumes", s.paramTetra[r].volume, vr[r]);
    EQ("total volume", m.vol, vt);
    EQ("magnetic volume", m.totalMagVol, vmag);
    for (int i = 0; i < NM; i++) for (int j = i + 1; j < NM; j++)
        {
        int c = 0;
        for (size_t q = 0; q < m.edges.size(); q++) c += m.edges[q].first == i && m.edges[q].second == j;
        ENSURES("the edges are those of the tetrahedra, once, smaller index first", c == (e[i][j] ? 1 : 0));
        ne += e[i][j];
        }
    ENSURES("there is no other edge", m.edges.size() == ne);
    ENSURES("one magnetic flag per node", int(m.magNode.size()) == NM);
    for (int i = 0; i < NM; i++) ENSURES("magnetic nodes are those of magnetic tetrahedra", m.magNode[i] == mag[i]);
    size_t nf = 0;
    for (size_t f = 0; f < m.tri.size(); f++)
        {
        const bool want = mag[m.tri[f].ind[0]] && mag[m.tri[f].ind[1]] && mag[m.tri[f].ind[2]] && !s.paramTriangle[m.tri[f].idxPrm].suppress_charges;
        int c = 0;
        for (int q : m.magTri) c += q == int(f);
        ENSURES("charge-carrying triangles are the magnetic ones without suppression", c == (want ? 1 : 0));
        nf += want;
        }
    ENSURES("no other triangle carries charges", m.magTri.size() == nf);
    if (!space) { ENSURES("no space field is stored without need", m.extSpaceField.empty()); return; }
    for (int t : m.magTet)
        {
        const MatT pg = m.tet[t].getPtGauss();
        ENSURES("the space field can be read at every magnetic tetrahedron", size_t(m.tet[t].idx) < m.extSpaceField.size());
        if (size_t(m.tet[t].idx) >= m.extSpaceField.size()) return;
        for (int g = 0; g < Tetra::NPI; g++)
            {
            const double a[3] = {pg(0,g), pg(1,g), pg(2,g)};
            EQ("the space field of an element is that at its own integration points", m.extSpaceField[m.tet[t].idx](0,g), vf_uf("js_x", 3, a));
            EQ("the space field of an element is that at its own integration points", m.extSpaceField[m.tet[t].idx](1,g), vf_uf("js_y", 3, a));
            EQ("the space field of an element is that at its own integration points", m.extSpaceField[m.tet[t].idx](2,g), vf_uf("js_z", 3, a));
            }
        }
    }
}
VC(construct) { construct(false); }
VC(construct_space) { construct(true); }
#include "big.h"
VC(large)               // replay only: some hundred tetrahedra
    {
#ifdef VF_NATIVE
    Big b; g_big = &b;
    const double M[4] = {0, 1e5, vf_bool("mag") ? 2e5 : 0, 3e5};
    b.addTris(0.4, 2);
    const bool sup = vf_bool("sup"), space = vf_bool("space");
    Settings s; big_params(s, M, 2); s.paramTriangle[1].suppress_charges = sup; s.field_type = space ? R4toR3 : RtoR3;
    ms_fill = big_fill;
    Mesh::mesh m(s);
    const size_t N = b.p.size();
    Eigen::Vector3d lo = b.p[0], hi = b.p[0];
    for (auto &q : b.p) { lo = lo.cwiseMin(q); hi = hi.cwiseMax(q); }
    for (int k = 0; k < 3; k++) { EQS("lengths of the bounding box", m.l[k], hi[k] - lo[k], 20); EQS("centre of the bounding box", m.c[k], 0.5*(hi[k] + lo[k]), 20); }
    int ax; (hi - lo).maxCoeff(&ax);
    ENSURES("no node is lost", m.node.size() == N && m.node_index.size() == N);
    std::vector<int> file(N, -1);
    for (size_t i = 0; i < N; i++)
        {
        file[m.node_index[i]] = i;
        ENSURES("the index table maps a file position to that node", m.node[m.node_index[i]].p == b.p[i] && m.node[m.node_index[i]].d[NEXT].phi == double(i));
        if (i > 0) ENSURES("nodes are ordered along the longest axis", m.node[i-1].p[ax] <= m.node[i].p[ax]);
        }
    double vr[4] = {0,0,0,0}; std::set<std::pair<int,int>> ed; std::vector<bool> mag(N, false); std::vector<int> mt; std::vector<int> vreg[4];
    for (size_t t = 0; t < b.tet.size(); t++)
        {
        std::set<int> x(b.tet[t].i.begin(), b.tet[t].i.end()), y; for (int k = 0; k < 4; k++) y.insert(file[m.tet[t].ind[k]]);
        ENSURES("tetrahedra keep their physical nodes", x == y && m.tet[t].idxPrm == b.tet[t].r && m.tet[t].idx == int(t));
        vr[b.tet[t].r] += b.vol(t); vreg[b.tet[t].r].push_back(t);
        for (int k : x) for (int q : x) if (m.node_index[k] < m.node_index[q]) ed.insert({m.node_index[k], m.node_index[q]});
        if (M[b.tet[t].r] > 0) { mt.push_back(t); for (int k : x) mag[m.node_index[k]] = true; }
        }
    std::vector<int> got(m.magTet.begin(), m.magTet.end()); std::sort(got.begin(), got.end());
    ENSURES("magnetic tetrahedra are listed once", got == mt);
    for (int r = 1; r < 4; r++) { std::vector<int> l(m.volumeRegions[r].begin(), m.volumeRegions[r].end()); std::sort(l.begin(), l.end()); ENSURES("a tetrahedron is listed in its region", l == vreg[r]); EQ("region volumes", s.paramTetra[r].volume, vr[r]); }
    EQ("total volume", m.vol, vr[1] + vr[2] + vr[3]);
    EQ("magnetic volume", m.totalMagVol, vr[1] + vr[3] + (M[2] > 0 ? vr[2] : 0));
    ENSURES("the edges are those of the tetrahedra, once, smaller index first", (m.edges.size() == ed.size() && std::set<std::pair<int,int>>(m.edges.begin(), m.edges.end()) == ed));
    for (size_t i = 0; i < N; i++) ENSURES("magnetic nodes are those of magnetic tetrahedra", m.magNode[i] == mag[i]);
    std::vector<int> f;
    for (size_t k = 0; k < m.tri.size(); k++)
        {
        if (mag[m.tri[k].ind[0]] && mag[m.tri[k].ind[1]] && mag[m.tri[k].ind[2]] && !s.paramTriangle[m.tri[k].idxPrm].suppress_charges) f.push_back(k);
        if (k < b.tri.size()) { std::set<int> x(b.tri[k].i.begin(), b.tri[k].i.end()), y; for (int q = 0; q < 3; q++) y.insert(file[m.tri[k].ind[q]]); ENSURES("triangles keep their nodes", x == y && m.tri[k].idxPrm == b.tri[k].r); }
        }
    std::vector<int> gt(m.magTri.begin(), m.magTri.end()); std::sort(gt.begin(), gt.end());
    ENSURES("charge-carrying triangles are the magnetic ones without suppression", gt == f);
    if (space) for (int t : m.magTet)
        {
        const MatT pg = m.tet[t].getPtGauss();
        for (int g = 0; g < Tetra::NPI; g++) { const double a[3] = {pg(0,g), pg(1,g), pg(2,g)}; EQ("the space field of an element is that at its own integration points", m.extSpaceField[m.tet[t].idx](2,g), vf_uf("js_z", 3, a)); }
        }
#endif
    }
