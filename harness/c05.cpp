// C05: contracts of the interpolation members, getPtGauss and of the quadrature data
#include "fe.h"
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }

VC(tet_interpolation)
    {
    std::vector<Node> n; refNodes(n, 4);
    anyFields(n);
    Tetra::Tet t(n, 0, {1, 2, 3, 4});
    anyGeom(t);
    MatT U, Ux, Uy, Uz;
    t.interpolation(Nodes::get_u<NEXT>, U, Ux, Uy, Uz);
    VecT ph; t.interpolation(Nodes::get_phi<CURRENT>, ph);
    MatT H; H.setConstant(7.5); t.interpolation_field(Nodes::get_phiv<NEXT>, H);
    VecT uy; t.interpolation(Nodes::get_u_comp, IDX_Y, uy);
    MatT G = t.getPtGauss();
    for (int j = 0; j < Tetra::NPI; j++)
        {
        double sp = 0, su = 0;
        for (int i = 0; i < 4; i++) { sp += TA[i][j]*n[t.ind[i]].d[CURRENT].phi; su += TA[i][j]*n[t.ind[i]].d[NEXT].u[1]; }
        EQ("scalar interpolation", ph[j], sp);
        EQ("component interpolation", uy[j], su);
        for (int k = 0; k < 3; k++)
            {
            double s = 0, sx = 0, sy = 0, sz = 0, h = 0, g = 0;
            for (int i = 0; i < 4; i++)
                {
                const Node &q = n[t.ind[i]];
                s += TA[i][j]*q.d[NEXT].u[k];
                sx += t.da(i,0)*q.d[NEXT].u[k]; sy += t.da(i,1)*q.d[NEXT].u[k]; sz += t.da(i,2)*q.d[NEXT].u[k];
                h -= q.d[NEXT].phiv*t.da(i,k);
                g += TA[i][j]*q.p[k];
                }
            EQ("vector interpolation", U(k,j), s);
            EQ("gradient along x", Ux(k,j), sx); EQ("gradient along y", Uy(k,j), sy); EQ("gradient along z", Uz(k,j), sz);
            EQ("field is minus the gradient of the potential", H(k,j), h);
            EQ("Gauss point is the interpolated position", G(k,j), g);
            }
        }
    vf_cover("tet");
    }

// exactness on affine fields with the constructor's own geometry
VC(tet_affine)
    {
    std::vector<Node> n(4);
    for (int i = 0; i < 4; i++) { zeroNode(n[i]); anyVec("p", n[i].p); }
    double G[3][3], c[3];
    for (int k = 0; k < 3; k++) { c[k] = vf_real("c"); for (int l = 0; l < 3; l++) G[k][l] = vf_real("G"); }
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 3; k++)
            {
            n[i].d[CURRENT].u[k] = c[k] + G[k][0]*n[i].p[0] + G[k][1]*n[i].p[1] + G[k][2]*n[i].p[2];
            n[i].d[NEXT].phi = n[i].d[CURRENT].u[0];
            }
    Eigen::Vector3d a = n[1].p-n[0].p, b = n[2].p-n[0].p, d = n[3].p-n[0].p;
    const double D = a[0]*(b[1]*d[2]-b[2]*d[1]) - a[1]*(b[0]*d[2]-b[2]*d[0]) + a[2]*(b[0]*d[1]-b[1]*d[0]);
    REQUIRES(D > 1e-30);
    vf_prefer(D > 0.1);
    Tetra::Tet t(n, 0, {1, 2, 3, 4});
    MatT U, Ux, Uy, Uz, H;
    t.interpolation(Nodes::get_u<CURRENT>, U, Ux, Uy, Uz);
    t.interpolation_field(Nodes::get_phi<NEXT>, H);
    MatT X = t.getPtGauss();
    for (int j = 0; j < Tetra::NPI; j++)
        for (int k = 0; k < 3; k++)
            {
            EQ("affine field exact at the Gauss points", U(k,j), c[k] + G[k][0]*X(0,j) + G[k][1]*X(1,j) + G[k][2]*X(2,j));
            EQ("gradient of an affine field exact (x)", Ux(k,j), G[k][0]);
            EQ("gradient of an affine field exact (y)", Uy(k,j), G[k][1]);
            EQ("gradient of an affine field exact (z)", Uz(k,j), G[k][2]);
            EQ("field of an affine potential exact", H(k,j), -G[0][k]);
            }
    vf_cover("affine");
    }

VC(tet_quadrature)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4});
    const double V = 1.0/6.0;
    const int deg = Tetra::NPI == 1 ? 1 : 3;
    for (int j = 0; j < Tetra::NPI; j++)
        {
        double s = 0;
        for (int i = 0; i < 4; i++) { s += Tetra::eigen_a(i,j); EQ("shape function table matches the array", Tetra::eigen_a(i,j), Tetra::a[i][j]); }
        EQ("partition of unity", s, 1.0);
        }
    for (int a = 0; a <= deg; a++) for (int b = 0; a+b <= deg; b++) for (int c = 0; a+b+c <= deg; c++) for (int d = 0; a+b+c+d <= deg; d++)
        {
        double q = 0;
        for (int j = 0; j < Tetra::NPI; j++)
            {
            double m = t.weight[j];
            for (int k = 0; k < a; k++) m *= Tetra::eigen_a(0,j);
            for (int k = 0; k < b; k++) m *= Tetra::eigen_a(1,j);
            for (int k = 0; k < c; k++) m *= Tetra::eigen_a(2,j);
            for (int k = 0; k < d; k++) m *= Tetra::eigen_a(3,j);
            q += m;
            }
        EQ("quadrature exact on barycentric monomials", q, 6*V*fact(a)*fact(b)*fact(c)*fact(d)/fact(a+b+c+d+3));
        }
    }

VC(tri_interpolation)
    {
    std::vector<Node> n; refNodes(n, 5);
    anyFields(n);
    for (int i = 0; i < 5; i++) anyVec("p", n[i].p);
    Triangle::Tri t(n, 0, {3, 1, 5});
    MatF U; t.interpolation(Nodes::get_v<CURRENT>, U);
    VecF ph; t.interpolation(Nodes::get_phi<NEXT>, ph);
    MatF G = t.getPtGauss();
    for (int j = 0; j < Triangle::NPI; j++)
        {
        double sp = 0;
        for (int i = 0; i < 3; i++) sp += FA[i][j]*n[t.ind[i]].d[NEXT].phi;
        EQ("scalar interpolation", ph[j], sp);
        for (int k = 0; k < 3; k++)
            {
            double s = 0, g = 0;
            for (int i = 0; i < 3; i++) { s += FA[i][j]*n[t.ind[i]].d[CURRENT].v[k]; g += FA[i][j]*n[t.ind[i]].p[k]; }
            EQ("vector interpolation", U(k,j), s);
            EQ("Gauss point is the interpolated position", G(k,j), g);
            }
        }
    vf_cover("tri");
    }

VC(tri_quadrature)
    {
    std::vector<Node> n; refNodes(n, 3);
    Triangle::Tri t(n, 0, {1, 2, 3});
    const double S = 0.5;
    const int deg = Triangle::NPI == 1 ? 1 : 3;
    for (int j = 0; j < Triangle::NPI; j++)
        {
        double s = 0;
        for (int i = 0; i < 3; i++) { s += Triangle::eigen_a(i,j); EQ("shape function table matches the array", Triangle::eigen_a(i,j), Triangle::a[i][j]); }
        EQ("partition of unity", s, 1.0);
        }
    for (int a = 0; a <= deg; a++) for (int b = 0; a+b <= deg; b++) for (int c = 0; a+b+c <= deg; c++)
        {
        double q = 0;
        for (int j = 0; j < Triangle::NPI; j++)
            {
            double m = t.weight[j];
            for (int k = 0; k < a; k++) m *= Triangle::eigen_a(0,j);
            for (int k = 0; k < b; k++) m *= Triangle::eigen_a(1,j);
            for (int k = 0; k < c; k++) m *= Triangle::eigen_a(2,j);
            q += m;
            }
        EQ("quadrature exact on barycentric monomials", q, 2*S*fact(a)*fact(b)*fact(c)/fact(a+b+c+2));
        }
    }
