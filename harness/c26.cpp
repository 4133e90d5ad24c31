// C26: the mesh in memory is that of the mesh file.  gmsh is outside of the verified code: gm.h answers its API
// from a description of the file.
#define MS_REAL_READ
#include "gm.h"
#include "ms.h"
#include "read.cpp"
namespace {
const double P[5][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1}};
const int PERM[6][5] = {{1,2,3,4,5},{5,4,3,2,1},{3,1,5,2,4},{2,1,3,4,5},{4,5,1,2,3},{1,3,2,5,4}};
void nodesOf(const int *perm) { for (int i = 0; i < 5; i++) { gm::tags.push_back(perm[i]); for (int k = 0; k < 3; k++) gm::xyz.push_back(P[perm[i]-1][k]); } }
void names(Settings &s)
    {
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("vol", 1)); s.paramTetra.push_back(ms_tetPrm("core", 2));
    s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("top")); s.paramTriangle.push_back(ms_triPrm("side"));
    gm::groups.push_back({3, 7, "core"}); gm::groups.push_back({3, 9, "vol"}); gm::groups.push_back({3, 4, "other"});
    gm::groups.push_back({2, 9, "side"}); gm::groups.push_back({2, 3, "top"}); gm::groups.push_back({2, 7, "vol"});
    }
template <int N> bool sameSet(const std::array<int,N> &a, const std::vector<size_t> &n, size_t at)
    {
    for (int i = 0; i < N; i++) { int c = 0, d = 0; for (int j = 0; j < N; j++) { if (a[j] == int(n[at+i]) - 1) c++; if (int(n[at+j]) == int(n[at+i])) d++; } if (c != d) return false; }
    return true;
    }
}
VC(nodes)
    {
    Settings s; gm::reset(); names(s);
    s._scale = vf_pos("scale");
    const int n = vf_int("n", 1, 5), bad = vf_int("bad", 0, 3);
    const int *perm = PERM[vf_int("perm", 0, 5)];
    int m = 0;
    for (int i = 0; i < 5; i++) if (perm[i] <= n) { gm::tags.push_back(perm[i]); m++; for (int k = 0; k < 3; k++) gm::xyz.push_back(vf_real("xyz")); }
    if (bad == 1) gm::tags[0] = n + 1;
    if (bad == 2) gm::tags[m-1] = 0;
    if (bad == 3) gm::tags[m-1] = n + 7;
    vf_exit_begin("a node number outside of the mesh is refused, no other", bad != 0);
    Mesh::mesh msh(s, true);
    vf_exit_end();
    ENSURES("a node number outside of the mesh is refused", bad == 0);
    ENSURES("as many nodes as in the file", int(msh.node.size()) == n && msh.getNbNodes() == n);
    for (int i = 0; i < m; i++)
        for (int k = 0; k < 3; k++)
            EQ("node i is the node of number i+1 of the file, scaled", msh.node[gm::tags[i]-1].p[k], s._scale*gm::xyz[3*i+k]);
    ENSURES("no element where the file has none", msh.tet.empty() && msh.tri.empty());
    ENSURES("the file is read and closed", gm::opened >= 1 && gm::closed >= 1);
    }
VC(elements)
    {
    Settings s; gm::reset(); names(s); nodesOf(PERM[vf_int("perm", 0, 5)]);
    static const std::vector<size_t> T[4] = {{1,2,3,4}, {2,3,4,5, 1,2,4,5}, {4,3,2,5}, {3,2,1,4, 5,4,3,2, 1,3,4,5}};
    static const std::vector<size_t> F[4] = {{1,2,3}, {2,3,4, 1,2,4}, {5,3,2}, {3,2,4, 5,4,2}};
    // entities of dimension 3: in no group, in a group of no interest, or in a region of the settings
    const int nv = vf_int("volumes", 1, 3), ns = vf_int("surfaces", 0, 2);
    static const int GV[4][3] = {{9,7,9}, {7,0,9}, {4,9,7}, {7,7,4}}, GS[3][2] = {{3,9}, {9,0}, {7,3}};
    const int gv = vf_int("groups", 0, 3), gs = vf_int("sgroups", 0, 2), shift = vf_int("shift", 0, 1);
    for (int i = 0; i < nv; i++) { gm::Entity e = {3, 10 + i, {}, {4}, {T[(i+shift)%4]}}; if (GV[gv][i]) e.groups.push_back(GV[gv][i]); gm::entities.push_back(e); }
    for (int i = 0; i < ns; i++) { gm::Entity e = {2, 10 + i, {}, {2}, {F[(i+shift)%4]}}; if (GS[gs][i]) e.groups.push_back(GS[gs][i]); gm::entities.push_back(e); }
    Mesh::mesh m(s, true);
    size_t t = 0, f = 0; bool ok = true;
    for (const auto &e : gm::entities)
        {
        if (e.groups.empty()) continue;
        const int g = e.groups[0], reg = e.dim == 3 ? (g == 9 ? 1 : g == 7 ? 2 : 0) : (g == 3 ? 1 : g == 9 ? 2 : 0);
        if (!reg) continue;
        if (e.dim == 3) for (size_t k = 0; k < e.nodes[0].size(); k += 4, t++)
            {
            if (t >= m.tet.size()) { ok = false; continue; }
            ENSURES("the region of a tetrahedron is the one of its name", m.tet[t].idxPrm == reg);
            ENSURES("the nodes of a tetrahedron are those of the file", sameSet<4>(m.tet[t].ind, e.nodes[0], k));
            ENSURES("the tetrahedra are numbered", m.tet[t].idx == int(t));
            }
        else for (size_t k = 0; k < e.nodes[0].size(); k += 3, f++)
            {
            if (f >= m.tri.size()) { ok = false; continue; }
            ENSURES("the region of a surface element is the one of its name", m.tri[f].idxPrm == reg);
            ENSURES("the nodes of a surface element are those of the file", sameSet<3>(m.tri[f].ind, e.nodes[0], k));
            }
        }
    ENSURES("every element of the regions of the settings is there, and no other", ok && t == m.tet.size() && f == m.tri.size());
    }
VC(refusals)
    {
    Settings s; gm::reset(); names(s); nodesOf(PERM[0]);
    gm::dimension = vf_int("dimension", 2, 3);
    const int v = vf_int("volume types", 0, 3), f = vf_int("surface types", 0, 3), miss = vf_int("missing", 0, 5);
    gm::types3.clear(); gm::types2.clear();
    if (v & 1) gm::types3.push_back(4);
    if (v & 2) gm::types3.push_back(5);         // hexahedra
    if (f & 1) gm::types2.push_back(2);
    if (f & 2) gm::types2.push_back(3);         // quadrangles
    bool absent = false;
    if (miss == 1) { s.paramTetra.push_back(ms_tetPrm("absent", 1)); absent = true; }
    if (miss == 2) { s.paramTriangle.push_back(ms_triPrm("core")); absent = true; }     // a volume, not a surface
    if (miss == 3) { s.paramTetra.insert(s.paramTetra.begin() + 1, ms_tetPrm("top", 1)); absent = true; }
    if (miss == 4) { s.paramTetra.push_back(ms_tetPrm("other", 1)); }
    if (miss == 5) { gm::groups.clear(); absent = true; }
    const bool bad = gm::dimension != 3 || v != 1 || f >= 2 || absent;
    vf_exit_begin("a file that is not a tetrahedral mesh with the regions of the settings is refused, no other", bad);
    Mesh::mesh m(s, true);
    vf_exit_end();
    ENSURES("only a tetrahedral mesh with the regions of the settings is accepted", !bad);
    }
VC(mixed_entity)
    {
    Settings s; gm::reset(); names(s); nodesOf(PERM[0]);
    const bool vol = vf_bool("volume"), ingroup = vf_bool("in a region");
    gm::Entity e = {vol ? 3 : 2, 10, {}, {vol ? 4 : 2, 5}, {{1,2,3,4}, {1,2,3,4,5,1,2,3}}};
    if (!vol) e.nodes[0] = {1,2,3};
    if (ingroup) e.groups.push_back(9);
    gm::entities.push_back(e);
    vf_exit_begin("a region with other elements than the expected ones is refused", ingroup);
    Mesh::mesh m(s, true);
    vf_exit_end();
    ENSURES("a region with other elements than the expected ones is refused", !ingroup);
    ENSURES("entities outside of the regions are ignored", m.tet.empty() && m.tri.empty());
    }
