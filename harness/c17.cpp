// C17: averages, Thiele length and maximum angle over a mesh
#include "ms.h"
namespace {
const int NOD = 6;
const int TI[3][4] = {{0,1,2,3}, {1,2,3,4}, {0,1,3,5}};
int g_reg[3];
void fill(Mesh::mesh &m)
    {
    refNodes(m.node, NOD);
    for (int t = 0; t < 3; t++) m.tet.push_back(Tetra::Tet(m.node, g_reg[t], {TI[t][0]+1, TI[t][1]+1, TI[t][2]+1, TI[t][3]+1}));
    }
// regions 1 and 3 are magnetic, 2 is not; the tables are those C16 specifies
struct Bed
    {
    Settings s; Mesh::mesh m; double vr[4], vmag; bool mag[NOD];
    static Settings &prep(Settings &s)
        {
        const int RC[6][3] = {{1,1,1},{1,2,1},{2,1,3},{3,1,2},{2,2,1},{3,1,1}};
        const int rc = vf_int("regions", 0, 5);
        for (int t = 0; t < 3; t++) g_reg[t] = RC[rc][t];
        s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTetra.push_back(ms_tetPrm("a", 8e5)); s.paramTetra.push_back(ms_tetPrm("b", 0)); s.paramTetra.push_back(ms_tetPrm("c", 5e5));
        s.paramTriangle.push_back(ms_triPrm("__default__"));
        ms_fill = fill;
        return s;
        }
    Bed() : m(prep(s), true)
        {
        bool e[NOD][NOD] = {};
        m.magNode.resize(NOD);
        for (int i = 0; i < NOD; i++) mag[i] = false;
        vmag = 0;
        for (int r = 0; r < 4; r++) vr[r] = 0;
        for (int t = 0; t < 3; t++)
            {
            for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) m.tet[t].da(i,k) = vf_real("da");
            double v = vf_pos("vol");
            for (int j = 0; j < Tetra::NPI; j++) m.tet[t].weight[j] = v*6*TW[j];
            vr[g_reg[t]] += v;
            for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e[m.tet[t].ind[i]][m.tet[t].ind[j]] = true;
            if (g_reg[t] != 2) { vmag += v; m.magTet.push_back(t); for (int i = 0; i < 4; i++) mag[m.tet[t].ind[i]] = true; }
            }
        for (int i = 0; i < NOD; i++) m.magNode[i] = mag[i];
        for (int i = 0; i < NOD; i++) for (int j = i + 1; j < NOD; j++) if (e[i][j]) m.edges.push_back({i, j});
        for (int r = 0; r < 4; r++) s.paramTetra[r].volume = vr[r];
        m.totalMagVol = vmag; m.vol = vr[1] + vr[2] + vr[3];
        }
    };
Nodes::index ix(int a) { return a == 0 ? IDX_X : a == 1 ? IDX_Y : IDX_Z; }
}
VC(averages)            // any nodal fields; whole magnetic volume or one region
    {
    Bed b;
    anyFields(b.m.node);
    const int reg = vf_int("region", -1, 3), a = vf_int("comp", 0, 2);
    const double v = reg < 0 ? b.vmag : b.vr[reg];
    REQUIRES(reg != 0 && reg != 2);
    bool some = false;
    for (int t = 0; t < 3; t++) some |= g_reg[t] == reg || reg < 0;
    REQUIRES(some);
    double su2 = 0, sv2 = 0;
    for (int t = 0; t < 3; t++)
        if (g_reg[t] != 2 && (reg < 0 || g_reg[t] == reg))
            for (int i = 0; i < 4; i++) for (int j = 0; j < Tetra::NPI; j++)
                {
                su2 += TA[i][j]*b.m.tet[t].weight[j]*b.m.node[b.m.tet[t].ind[i]].d[NEXT].u[a];
                sv2 += TA[i][j]*b.m.tet[t].weight[j]*b.m.node[b.m.tet[t].ind[i]].d[NEXT].v[a];
                }
    EQ("average magnetization is the volume-weighted mean", b.m.avg(Nodes::get_u_comp, ix(a), reg)*v, su2);
    EQ("average velocity is the volume-weighted mean", b.m.avg(Nodes::get_v_comp, ix(a), reg)*v, sv2);
    if (reg < 0) EQ("the default is the whole magnetic volume", b.m.avg(Nodes::get_u_comp, ix(a))*v, su2);
    }
VC(constant)            // the average of a constant field is that constant
    {
    Bed b;
    const double c[3] = {vf_real("c"), vf_real("c"), vf_real("c")};
    for (int i = 0; i < NOD; i++) for (int k = 0; k < 3; k++) b.m.node[i].d[NEXT].u[k] = b.mag[i] ? c[k] : vf_real("other");
    const int reg = vf_int("region", -1, 3), a = vf_int("comp", 0, 2);
    REQUIRES(reg != 0 && reg != 2);
    bool some = false;
    for (int t = 0; t < 3; t++) some |= g_reg[t] == reg || reg < 0;
    REQUIRES(some);
    EQ("average of a constant field", b.m.avg(Nodes::get_u_comp, ix(a), reg), c[a]);
    }
VC(thiele)
    {
    Bed b;
    anyFields(b.m.node);
    b.m.l = Eigen::Vector3d(vf_pos("lx"), vf_pos("ly"), vf_pos("lz"));
    const int reg = vf_int("region", -1, 3);
    REQUIRES(reg != 0 && reg != 2);
    bool some = false;
    for (int t = 0; t < 3; t++) some |= g_reg[t] == reg || reg < 0;
    REQUIRES(some);
    double I = 0;
    for (int t = 0; t < 3; t++)
        if (g_reg[t] != 2 && (reg < 0 || g_reg[t] == reg))
            {
            double v = 0;
            for (int j = 0; j < Tetra::NPI; j++) v += b.m.tet[t].weight[j];
            for (int k = 0; k < 3; k++)
                {
                double g = 0;
                for (int i = 0; i < 4; i++) g += b.m.node[b.m.tet[t].ind[i]].d[NEXT].u[k]*b.m.tet[t].da(i,2);
                I += g*g*v;
                }
            }
    REQUIRES(I > 1e-3);
    EQ("Thiele length is twice the mean section over the axial gradient integral", b.m.thiele(reg)*I*b.m.l.z(), 2*(reg < 0 ? b.vmag : b.vr[reg]));
    }
VC(angle)               // unit magnetizations on magnetic nodes, nan elsewhere
    {
    Bed b;
    for (int i = 0; i < NOD; i++)
        {
        if (b.mag[i]) { unitVec("u", b.m.node[i].d[NEXT].u); anyVec("uc", b.m.node[i].d[CURRENT].u); }
        else { b.m.node[i].d[NEXT].u = Eigen::Vector3d(NAN, NAN, NAN); b.m.node[i].d[CURRENT].u = b.m.node[i].d[NEXT].u; }
        }
    double mind = 1;
    for (const Mesh::Edge &e : b.m.edges)
        if (b.mag[e.first] && b.mag[e.second])
            {
            const double d = b.m.node[e.first].d[NEXT].u.dot(b.m.node[e.second].d[NEXT].u);
            mind = d < mind ? d : mind;
            }
#ifdef VF_NATIVE
    mind = mind < -1 ? -1 : mind;
    EQS("largest angle over the edges between magnetic nodes", b.m.max_angle(), std::acos(mind), 1e3);
#else
    const double c = std::cos(b.m.max_angle());
    bool one = c == 1;
    for (const Mesh::Edge &e : b.m.edges)
        if (b.mag[e.first] && b.mag[e.second])
            {
            const double d = b.m.node[e.first].d[NEXT].u.dot(b.m.node[e.second].d[NEXT].u);
            ENSURES("lemma: the dot product of unit vectors is at least -1", d >= -1);
            REQUIRES(d >= -1);
            ENSURES("no edge between magnetic nodes has a larger angle", c <= d);
            one |= c == d;
            }
    ENSURES("the angle is reached on an edge between magnetic nodes", one);
#endif
    }
#include "big.h"
VC(large)               // replay only: some hundred tetrahedra
    {
#ifdef VF_NATIVE
    Big b; g_big = &b;
    const double M[4] = {0, 1e5, vf_bool("mag") ? 2e5 : 0, 3e5};
    Settings s; big_params(s, M, 1);
    ms_fill = big_fill;
    Mesh::mesh m(s);
    const bool rough = vf_bool("rough");
    for (size_t i = 0; i < m.node.size(); i++) for (int d = 0; d < 2; d++)
        {
        Eigen::Vector3d u(b.rnd(-1,1), b.rnd(-1,1), b.rnd(-1,1)), w(0.1*m.node[i].p[2], 1, 0);
        m.node[i].d[d].u = (rough ? u : Eigen::Vector3d(w + 0.02*u)).normalized(); m.node[i].d[d].v = Eigen::Vector3d(b.rnd(-1,1), b.rnd(-1,1), b.rnd(-1,1));
        if (!m.magNode[i]) m.node[i].d[d].u = Eigen::Vector3d(NAN, NAN, NAN);
        }
    for (int reg = -1; reg < 4; reg++)
        {
        if (reg == 0 || (reg == 2 && M[2] == 0)) continue;
        double V = 0, I = 0; Eigen::Vector3d su(0,0,0), sv(0,0,0);
        for (size_t t = 0; t < b.tet.size(); t++)
            {
            if (M[b.tet[t].r] == 0 || (reg > 0 && b.tet[t].r != reg)) continue;
            const double v = b.vol(t); V += v;
            Eigen::Matrix3d E, U;
            for (int k = 0; k < 4; k++) { const Node &n = m.node[m.node_index[b.tet[t].i[k]]]; su += v/4*n.d[NEXT].u; sv += v/4*n.d[NEXT].v; if (k) { E.row(k-1) = (n.p - m.node[m.node_index[b.tet[t].i[0]]].p).transpose(); U.row(k-1) = (n.d[NEXT].u - m.node[m.node_index[b.tet[t].i[0]]].d[NEXT].u).transpose(); } }
            const Eigen::Matrix3d G = E.inverse()*U;                  // G(j,k) = d u_k / d x_j
            I += G.row(2).squaredNorm()*v;
            }
        if (V == 0) continue;
        for (int a = 0; a < 3; a++) { EQ("average magnetization is the volume-weighted mean", m.avg(Nodes::get_u_comp, ix(a), reg)*V, su[a]); EQ("average velocity is the volume-weighted mean", m.avg(Nodes::get_v_comp, ix(a), reg)*V, sv[a]); }
        EQ("Thiele length is twice the mean section over the axial gradient integral", m.thiele(reg)*I*m.l.z()/V, 2);
        }
    double c = 1;
    for (size_t t = 0; t < b.tet.size(); t++) for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++)
        {
        const double d = m.node[m.node_index[b.tet[t].i[i]]].d[NEXT].u.dot(m.node[m.node_index[b.tet[t].i[j]]].d[NEXT].u);
        if (d < c) c = d;
        }
    EQS("largest angle over the edges between magnetic nodes", m.max_angle(), std::acos(c < -1 ? -1 : c), 1e3);
#endif
    }
