// what fem.h and fmm_demag.h need besides the mesh: the far-field solver and the nearest-neighbour search are
// outside of the verified code; the harness says what they return.
#ifndef FEM_SUPPORT_H
#define FEM_SUPPORT_H
#include "ms.h"
#include "fmm_demag.h"
void (*vf_fmm_execute)(void *tree) = nullptr;
static int g_omp = 0;
extern "C" void omp_set_num_threads(int n) { g_omp = n; }
// a small bed: 7 nodes (one in no element), 3 tetrahedra; regions 1 and 3 magnetic, 2 not; surface region 1 may suppress charges
namespace bed {
const int NM = 7;
const double MP[NM][3] = {{0,0,0},{1,0,0.25},{0.125,1,0},{0.25,0.375,1},{0.375,0.25,-1.125},{1,1.25,1.375},{0.5,0.5,0.5}};
const int MT[3][4] = {{0,1,2,3},{0,2,1,4},{1,2,3,5}};
const int RC[6][3] = {{1,1,1},{1,2,1},{2,1,3},{3,3,2},{2,2,1},{1,2,3}};
static int reg[3]; static bool withTri;
inline void fill(Mesh::mesh &m)
    {
    m.node.resize(NM);
    for (int i = 0; i < NM; i++) { zeroNode(m.node[i]); for (int k = 0; k < 3; k++) m.node[i].p[k] = MP[i][k]; }
    for (int t = 0; t < 3; t++) m.tet.push_back(Tetra::Tet(m.node, reg[t], {MT[t][0]+1, MT[t][1]+1, MT[t][2]+1, MT[t][3]+1}));
    if (withTri) m.tri.push_back(Triangle::Tri(m.node, 1, {1,2,4}));
    }
inline Settings &settings(Settings &s, int rc, bool tri, bool sup)
    {
    for (int t = 0; t < 3; t++) reg[t] = RC[rc][t];
    withTri = tri;
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("a", 8)); s.paramTetra.push_back(ms_tetPrm("b", 0)); s.paramTetra.push_back(ms_tetPrm("c", 5));
    s.paramTriangle.push_back(ms_triPrm("__default__")); s.paramTriangle.push_back(ms_triPrm("s"));
    s.paramTriangle[1].suppress_charges = sup;
    ms_fill = fill;
    return s;
    }
}
#endif
