// C04: contract of the Tri constructor (surface, normal, weights) and Tri::operator==
#include "fe.h"
VC(tri_geometry)
    {
    std::vector<Node> n(5);
    for (int i = 0; i < 5; i++) zeroNode(n[i]);
    const int id[3] = {3, 1, 4};
    for (int i = 0; i < 3; i++) anyVec("p", n[id[i]].p);
    const Eigen::Vector3d a = n[id[1]].p - n[id[0]].p, b = n[id[2]].p - n[id[0]].p;
    Eigen::Vector3d c; c[0] = a[1]*b[2]-a[2]*b[1]; c[1] = a[2]*b[0]-a[0]*b[2]; c[2] = a[0]*b[1]-a[1]*b[0];
    const double c2 = c[0]*c[0] + c[1]*c[1] + c[2]*c[2];
    REQUIRES(c2 > 0);
    vf_prefer(c2 > 1e-3);
    const std::vector<Node> old = n;
    Triangle::Tri t(n, 3, {id[0]+1, id[1]+1, id[2]+1});
    ENSURES("indices kept in order", t.ind[0] == id[0] && t.ind[1] == id[1] && t.ind[2] == id[2]);
    ENSURES("region index kept", t.idxPrm == 3);
    const double S = 0.5*sqrt(c2);
    EQ("surface is the exact area", t.surf, S);
    EQ("calc_surf is the exact area", t.calc_surf(), S);
    double w = 0;
    for (int j = 0; j < Triangle::NPI; j++) { EQ("weights are the rule times the area", t.weight[j], 2*S*FW[j]); w += t.weight[j]; }
    EQ("weights sum to the area", w, S);
    double nn = 0, na = 0, nb = 0, nc = 0;
    for (int k = 0; k < 3; k++)
        {
        nn += t.n[k]*t.n[k]; na += t.n[k]*a[k]; nb += t.n[k]*b[k]; nc += t.n[k]*c[k];
        EQ("normal oriented by the index order", t.n[k]*2*S, c[k]);
        EQ("calc_norm is the stored normal", t.calc_norm()[k], t.n[k]);
        }
    EQ("unit normal", nn, 1.0);
    EQ("normal orthogonal to the first edge", na, 0.0);
    EQ("normal orthogonal to the second edge", nb, 0.0);
    EQ("no magnetization jump before the mesh sets it", t.dMs, 0.0);
    for (int r = 0; r < 6; r++) { EQ("elementary vector starts at zero", t.Lp[r], 0.0); for (int q = 0; q < 6; q++) EQ("elementary matrix starts at zero", t.Kp(r,q), 0.0); }
    vf_same("frame: nodes untouched", n.data(), old.data(), 5*sizeof(Node));
    vf_cover("tri");
    }
// equality of triangles over all index triples of a 4-node pool (every coincidence pattern of two
// triples of distinct nodes occurs with 4 labels up to renaming, except disjointness in more than one node)
VC(tri_equality)
    {
    std::vector<Node> n; refNodes(n, 6);
    static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    static const int S[10][3] = {{0,1,2},{0,1,3},{0,2,3},{1,2,3},{0,3,4},{1,3,4},{2,3,4},{3,4,5},{0,4,5},{2,4,5}};
    const int s = vf_int("set", 0, 9), p = vf_int("perm", 0, 5);
    Triangle::Tri a(n, 0, {1, 2, 3});
    Triangle::Tri b(n, 1, {S[s][P[p][0]]+1, S[s][P[p][1]]+1, S[s][P[p][2]]+1});
    ENSURES("equal exactly when the node sets are equal", (a == b) == (s == 0));
    ENSURES("equality is symmetric", (b == a) == (a == b));
    }
