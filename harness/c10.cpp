// C10: contracts of charges, near-field corrections and of the potential of a triangle
#include "fe.h"
typedef Eigen::Vector3d V3;
static double dt3(const V3 &a, const V3 &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }

VC(tet_charges)
    {
    std::vector<Node> n; refNodes(n, 6); anyFields(n);
    Tetra::Tet t(n, 0, {5, 2, 6, 3}); anyGeom(t);
    const double Ms = vf_real("Ms");
    const std::vector<Node> old = n;
    const bool vel = vf_bool("velocity");
    VecT c = vel ? t.charges(Ms, Nodes::get_v<NEXT>) : t.charges(Ms, Nodes::get_u<NEXT>);
    double div = 0;
    for (int i = 0; i < 4; i++) { const V3 f = vel ? old[t.ind[i]].d[NEXT].v : old[t.ind[i]].d[NEXT].u; for (int k = 0; k < 3; k++) div += t.da(i,k)*f[k]; }
    for (int j = 0; j < Tetra::NPI; j++) EQ("volume charge is -Ms div(u) weight", c[j], -Ms*div*t.weight[j]);
    vf_same("frame: nodes untouched", n.data(), old.data(), 6*sizeof(Node));
    vf_cover("tet");
    }
VC(tri_charges)
    {
    std::vector<Node> n; refNodes(n, 6); anyFields(n);
    Triangle::Tri t(n, 0, {5, 2, 6}); anyGeom(t);
    const double dMs = vf_bool("zero") ? 0.0 : vf_real("dMs");
    VecF c = t.charges(dMs, Nodes::get_u<NEXT>);
    for (int j = 0; j < Triangle::NPI; j++)
        {
        V3 u(0,0,0); for (int i = 0; i < 3; i++) u += FA[i][j]*n[t.ind[i]].d[NEXT].u;
        EQ("surface charge is dMs u.n weight", c[j], dMs*dt3(u, t.n)*t.weight[j]);
        }
    vf_cover("tri");
    }
// total charge of a tetrahedron and its four faces, with the geometry of the real constructors
VC(neutrality)
    {
    std::vector<Node> n(4); for (int i = 0; i < 4; i++) { zeroNode(n[i]); anyVec("p", n[i].p); anyVec("u", n[i].d[NEXT].u); }
    V3 a = n[1].p-n[0].p, b = n[2].p-n[0].p, c = n[3].p-n[0].p;
    const double D = a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]);
    REQUIRES(D > 1e-30); vf_prefer(D > 0.1);
    const double Ms = vf_pos("Ms");
    Tetra::Tet t(n, 0, {1, 2, 3, 4});
    double Q = t.charges(Ms, Nodes::get_u<NEXT>).sum();
    // outward faces of a positively oriented tetrahedron; per face either orientation with the matching sign of dMs
    static const int F[4][3] = {{1,2,3},{0,3,2},{0,1,3},{0,2,1}};
    for (int f = 0; f < 4; f++)   // lemma: no face of a non-flat tetrahedron is degenerate
        { V3 x = (n[F[f][1]].p - n[F[f][0]].p).cross(n[F[f][2]].p - n[F[f][0]].p); REQUIRES(dt3(x, x) > 1e-60); }
    const int flip = vf_int("flip", -1, 3);
    for (int f = 0; f < 4; f++)
        {
        const bool r = f == flip;
        Triangle::Tri s(n, 0, {F[f][0]+1, F[f][r ? 2 : 1]+1, F[f][r ? 1 : 2]+1});
        Q += s.charges(r ? -Ms : Ms, Nodes::get_u<NEXT>).sum();
        }
    EQS("volume and surface charges of a tetrahedron cancel", Q, 0.0, 10.0);
    vf_cover("neutral");
    }
// contract of potential as seen by correctionCharges
static double g_pot[3]; static int g_called = 0;
double vfstub_potential(const Triangle::Tri *t, const std::function<V3(Nodes::Node)> &getter, const int i) { g_called++; return g_pot[i]; }
VC(corrections)
    {
    std::vector<Node> n; refNodes(n, 6); anyFields(n);
    Triangle::Tri t(n, 0, {5, 2, 6});
    t.dMs = vf_real("dMs");
    VecF q; for (int j = 0; j < Triangle::NPI; j++) q[j] = vf_real("q");
    std::vector<double> corr(6), o(6); for (int i = 0; i < 6; i++) o[i] = corr[i] = vf_real("corr");
    for (int i = 0; i < 3; i++) g_pot[i] = vf_real("pot");
    CONTRACT("^_ZNK8Triangle3Tri9potential", vfstub_potential);
    g_called = 0;
    const VecF q0 = q;
    t.correctionCharges(Nodes::get_u<NEXT>, q, corr);
    for (int i = 0; i < 3; i++)
        {
        double s = g_called ? g_pot[i] : t.potential(Nodes::get_u<NEXT>, i);
        for (int j = 0; j < Triangle::NPI; j++)
            {
            V3 g(0,0,0); for (int l = 0; l < 3; l++) g += FA[l][j]*n[t.ind[l]].p;
            g -= n[t.ind[i]].p;
            s -= q0[j]/sqrt(dt3(g, g));
            }
        EQ("correction of a vertex replaces the point charges by the exact potential", corr[t.ind[i]], o[t.ind[i]] + s);
        }
    EQ("frame: other nodes", corr[0], o[0]); EQ("frame: other nodes", corr[2], o[2]); EQ("frame: other nodes", corr[3], o[3]);
    for (int j = 0; j < Triangle::NPI; j++) EQ("frame: charges", q[j], q0[j]);
    vf_cover("corr");
    }
// potential of the linear charge dMs u.n at vertex i: against a direct quadrature (replay only, bounded)
VC(potential_value)
    {
    std::vector<Node> n(3); for (int i = 0; i < 3; i++) { zeroNode(n[i]); anyVec("p", n[i].p); anyVec("u", n[i].d[NEXT].u); }
    const V3 e1 = n[1].p - n[0].p, e2 = n[2].p - n[0].p; V3 c = e1.cross(e2);
    vf_prefer(c.norm() > 0.3);
    Triangle::Tri t(n, 0, {1, 2, 3}); t.dMs = vf_real("dMs");
    Triangle::Tri f(n, 0, {1, 3, 2}); f.dMs = -t.dMs;
    const int perm[3] = {0, 2, 1};
    for (int i = 0; i < 3; i++)
        {
        const Node &a = n[i], &b = n[(i+1)%3], &d = n[(i+2)%3];
        const double s1 = dt3(a.d[NEXT].u, t.n), s2 = dt3(b.d[NEXT].u, t.n), s3 = dt3(d.d[NEXT].u, t.n);
        double I = 0; const int M = 400;   // composite three-point Gauss rule in the Duffy angle variable
        for (int m = 0; m < M; m++)
            for (int g = 0; g < 3; g++)
                {
                static const double X[3] = {0.11270166537925831, 0.5, 0.88729833462074169}, Wt[3] = {5.0/18, 8.0/18, 5.0/18};
                const double x = (m + X[g])/M; V3 q = (1-x)*(b.p - a.p) + x*(d.p - a.p);
                I += Wt[g]/M*0.5*(s1 + (1-x)*s2 + x*s3)/q.norm();
                }
        I *= 2*t.surf*t.dMs;
        EQS("potential of a vertex is the integral of the linear charge over the distance", t.potential(Nodes::get_u<NEXT>, i), I, 100);
        EQS("potential does not depend on the orientation", f.potential(Nodes::get_u<NEXT>, perm[i]), t.potential(Nodes::get_u<NEXT>, i), 100);
        }
    }
