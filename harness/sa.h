// test bed of the conduction and spin diffusion problems: 6 nodes, 3 tetrahedra, 4 surface elements in 4 surface regions
#ifndef SA_H
#define SA_H
#include "ms.h"
#include "electrostatSolver.h"
#include "spinAccumulationSolver.h"
using namespace algebra;
static const double QE = 1.602176634e-19, HPLANCK = 6.62607015e-34, MEL = 9.1093837139e-31;       // CODATA 2022
static const double MUB = QE*(HPLANCK/(2*M_PI))/(2.*MEL);
namespace sab {
const int NOD = 6;
const int TI[3][4] = {{1,2,3,4}, {2,3,4,5}, {1,2,4,6}};
const int FI[4][3] = {{2,3,4}, {2,3,5}, {1,2,6}, {3,4,5}};
static int reg[3], freg[4];
inline void fill(Mesh::mesh &m)
    {
    refNodes(m.node, NOD);
    for (int t = 0; t < 3; t++) m.tet.push_back(Tetra::Tet(m.node, reg[t], {TI[t][0], TI[t][1], TI[t][2], TI[t][3]}));
    for (int f = 0; f < 4; f++) m.tri.push_back(Triangle::Tri(m.node, freg[f], {FI[f][0], FI[f][1], FI[f][2]}));
    }
// volume regions: 1 magnetic, 2 not, 3 magnetic; surface regions: 1 current, 2 voltage, 3 nothing
inline void settings(Settings &s, bool layouts = true)
    {
    static const int R[3][3] = {{1,2,1}, {3,1,2}, {2,2,3}};
    static const int F[3][4] = {{3,1,2,1}, {1,2,3,2}, {2,0,1,3}};
    const int rc = layouts ? vf_int("regions", 0, 2) : 0, fc = layouts ? vf_int("surfaces", 0, 2) : 0;
    for (int t = 0; t < 3; t++) reg[t] = R[rc][t];
    for (int f = 0; f < 4; f++) freg[f] = F[fc][f];
    s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("a", 8e5)); s.paramTetra.push_back(ms_tetPrm("b", 0)); s.paramTetra.push_back(ms_tetPrm("c", 5e5));
    for (int r = 1; r < 4; r++) { Tetra::prm &p = s.paramTetra[r]; p.sigma = vf_pos("sigma"); p.N0 = vf_pos("N0")/(QE*QE); p.P = vf_range("P", 0, 0.9); p.lsd = vf_pos("lsd"); p.lsf = vf_pos("lsf"); }
    const char *nm[4] = {"__default__", "cur", "volt", "none"};
    for (int r = 0; r < 4; r++) s.paramTriangle.push_back(ms_triPrm(nm[r]));
    }
inline void tables(Mesh::mesh &m)
    {
    m.magNode.resize(NOD);
    for (int i = 0; i < NOD; i++) m.magNode[i] = false;
    bool e[NOD][NOD] = {};
    for (int t = 0; t < 3; t++)
        {
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e[m.tet[t].ind[i]][m.tet[t].ind[j]] = true;
        if (reg[t] != 2) { m.magTet.push_back(t); for (int i = 0; i < 4; i++) m.magNode[m.tet[t].ind[i]] = true; }
        }
    for (int i = 0; i < NOD; i++) for (int j = i + 1; j < NOD; j++) if (e[i][j]) m.edges.push_back({i, j});
    }
// geometry tables: concrete in the native replay (a solvable problem), arbitrary for the verifier (C03, C04)
inline void geometry(Mesh::mesh &m)
    {
#ifndef VF_NATIVE
    for (auto &t : m.tet) anyGeom(t);
    for (auto &f : m.tri) for (int j = 0; j < Triangle::NPI; j++) f.weight[j] = vf_real("wf");
#endif
    }
}
#endif
