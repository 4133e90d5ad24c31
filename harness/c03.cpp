// C03: contract of the Tet constructor (orientate, Jacobian, weights, da) and calc_vol
#include "fe.h"
#include <algorithm>

static double det3(const Eigen::Vector3d &a, const Eigen::Vector3d &b, const Eigen::Vector3d &c)
    { return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]); }
static double det4(const std::vector<Node> &n, int i, int j, int k, int l)
    { return det3(Eigen::Vector3d(n[j].p - n[i].p), Eigen::Vector3d(n[k].p - n[i].p), Eigen::Vector3d(n[l].p - n[i].p)); }

VC(tet_geometry)
    {
    std::vector<Node> n(6);
    for (int i = 0; i < 6; i++) { zeroNode(n[i]); }
    const int id[4] = {4, 1, 5, 2};   // zero based, deliberately not 0..3
    for (int i = 0; i < 4; i++) anyVec("p", n[id[i]].p);
    const double D = det4(n, id[0], id[1], id[2], id[3]);
    REQUIRES(D > 1e-30 || D < -1e-30);
    vf_prefer(fabs(D) > 0.05);
    const std::vector<Node> old = n;

    vf_exit_begin("a non-degenerate tetrahedron is accepted", false);
    Tetra::Tet t(n, 7, {id[0]+1, id[1]+1, id[2]+1, id[3]+1});
    vf_exit_end();

    const double V = fabs(D)/6.0;
    // same set of nodes, positively oriented
    int s[4] = {t.ind[0], t.ind[1], t.ind[2], t.ind[3]}; std::sort(s, s+4);
    ENSURES("same set of nodes", s[0] == 1 && s[1] == 2 && s[2] == 4 && s[3] == 5);
    EQ("positively oriented", det4(n, t.ind[0], t.ind[1], t.ind[2], t.ind[3]), fabs(D));
    ENSURES("region index kept", t.idxPrm == 7);
    double sum = 0;
    for (int j = 0; j < Tetra::NPI; j++)
        {
        EQ("weights are the rule times the volume", t.weight[j], 6.0*V*TW[j]);
        sum += t.weight[j];
        }
    EQ("weights sum to the volume", sum, V);
    EQ("calc_vol is the volume", t.calc_vol(), V);
    Eigen::Matrix3d J;
    EQ("Jacobian determinant is six volumes", t.Jacobian(J), 6.0*V);
    for (int l = 0; l < 3; l++)
        {
        double z = 0;
        for (int i = 0; i < 4; i++) z += t.da(i,l);
        EQ("gradients sum to zero", z, 0.0);
        for (int k = 0; k < 3; k++)
            {
            double g = 0;
            for (int i = 0; i < 4; i++) g += t.da(i,l)*n[t.ind[i]].p[k];
            EQ("gradient of a coordinate is exact", g, k == l ? 1.0 : 0.0);
            }
        }
    for (int r = 0; r < 8; r++)
        for (int c = 0; c < 8; c++) EQ("elementary matrix starts at zero", t.Kp(r,c), 0.0);
    for (int r = 0; r < 8; r++) EQ("elementary vector starts at zero", t.Lp[r], 0.0);
    vf_same("frame: nodes untouched", n.data(), old.data(), 6*sizeof(Node));
    vf_cover("tet");
    }

VC(tet_flat)
    {
    std::vector<Node> n(4);
    for (int i = 0; i < 4; i++) zeroNode(n[i]);
    // four coplanar points: the fourth is an affine combination of the others (any order)
    Eigen::Vector3d a, b, c; anyVec("a", a); anyVec("b", b); anyVec("c", c);
#ifdef VF_NATIVE
    const double s = vf_int("s", -2, 2), t = vf_int("t", -2, 2);   // exactly flat in floating point
#else
    const double s = vf_real("s"), t = vf_real("t");
#endif
    const int pos = vf_int("pos", 0, 3);
    int k = 0;
    for (int i = 0; i < 4; i++)
        {
        if (i == pos) n[i].p = a + s*(b-a) + t*(c-a);
        else { n[i].p = (k == 0) ? a : (k == 1) ? b : c; k++; }
        }
    Eigen::Vector3d d1 = n[1].p - n[0].p, d2 = n[2].p - n[0].p, d3 = n[3].p - n[0].p;
    vf_prefer(det3(d1, d2, d3) == 0 && d1.dot(d2.cross(d3)) == 0);   // exactly flat in floating point
    vf_exit_begin("a flat tetrahedron is refused", true);
    Tetra::Tet x(n, 0, {1, 2, 3, 4});
    vf_exit_end();
    }

VC(tet_bad_index)
    {
    std::vector<Node> n; refNodes(n, 4);
    const int bad = vf_int("bad", 0, 3), val = vf_int("val", 0, 2) == 0 ? 0 : (vf_bool("neg") ? -3 : 5);
    int id[4] = {1, 2, 3, 4}; id[bad] = val;
    Tetra::Tet t(n, 0, {id[0], id[1], id[2], id[3]});
    ENSURES("existNodes is false for an index outside the mesh", !t.existNodes());
    vf_cover("bad index");
    }

VC(element_wrong_size)
    {
    std::vector<Node> n; refNodes(n, 4);
    vf_exit_begin("an element given the wrong number of nodes is refused", true);
    if (vf_bool("three")) { Tetra::Tet t(n, 0, {1, 2, 3}); }
    else { Triangle::Tri t(n, 0, {1, 2, 3, 4}); }
    vf_exit_end();
    }
