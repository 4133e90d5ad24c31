// C09: contracts of the element energies
#include "fe.h"
typedef Eigen::Vector3d V3;
static double dt3(const V3 &a, const V3 &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static void anyMat(const char *n, MatT &m) { for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) m(k,j) = vf_real(n); }
static void anyMatF(const char *n, MatF &m) { for (int j = 0; j < Triangle::NPI; j++) for (int k = 0; k < 3; k++) m(k,j) = vf_real(n); }

VC(tet_energies)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    Tetra::prm p; anyParam(p);
    MatT u, dx, dy, dz; anyMat("u", u); anyMat("dx", dx); anyMat("dy", dy); anyMat("dz", dz);
    VecT phi; for (int j = 0; j < Tetra::NPI; j++) phi[j] = vf_real("phi");
    V3 H; anyVec("Hext", H);
    double ex = 0, un = 0, cu = 0, dm = 0, ze = 0;
    for (int j = 0; j < Tetra::NPI; j++)
        {
        const V3 m = u.col(j), a = dx.col(j), b = dy.col(j), c = dz.col(j);
        const double w = t.weight[j], a0 = dt3(p.ex, m), a1 = dt3(p.ey, m), a2 = dt3(p.ez, m);
        ex += w*p.A*(dt3(a, a) + dt3(b, b) + dt3(c, c));
        un -= w*p.K*dt3(p.uk, m)*dt3(p.uk, m);
        cu += w*p.K3*(a0*a0*a1*a1 + a1*a1*a2*a2 + a2*a2*a0*a0);
        dm -= 0.5*MU0*p.Ms*w*(a[0] + b[1] + c[2])*phi[j];
        ze -= MU0*p.Ms*w*dt3(H, m);
        }
    const MatT u0 = u;
    EQ("exchange energy", t.exchangeEnergy(p, dx, dy, dz), ex);
    EQ("uniaxial energy", t.uniaxialAnisotropyEnergy(p, u), un);
    EQ("cubic energy", t.cubicAnisotropyEnergy(p, u), cu);
    EQS("demagnetizing volume energy", t.demagEnergy(p, dx, dy, dz, phi)*1e6, dm*1e6, 10);
    EQS("Zeeman energy, uniform field", t.zeemanEnergy(p, H, u)*1e6, ze*1e6, 10);
    for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) EQ("frame: u untouched", u(k,j), u0(k,j));
    vf_cover("tet");
    }
VC(tet_zeeman_space)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    Tetra::prm p; anyParam(p);
    MatT u; anyMat("u", u);
    std::vector<MatT> F(3);
    for (int i = 0; i < 3; i++) anyMat("F", F[i]);
    t.idx = vf_int("idx", 0, 2);
    const double amp = vf_real("amp");
    double ze = 0;
    for (int j = 0; j < Tetra::NPI; j++) ze -= MU0*p.Ms*t.weight[j]*amp*dt3(F[t.idx].col(j), u.col(j));
    EQS("Zeeman energy, space dependent field", t.zeemanEnergy(p, amp, F, u)*1e6, ze*1e6, 10);
    }
// nonnegative exchange: the gradient is constant on the element and the weights sum to its volume (C03, C05)
VC(tet_exchange_sign)
    {
    std::vector<Node> n; refNodes(n, 4); anyFields(n);
    Tetra::Tet t(n, 0, {1, 2, 3, 4});
    for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) t.da(i,k) = vf_real("da");
    const double V = vf_pos("V"); for (int j = 0; j < Tetra::NPI; j++) t.weight[j] = 6*V*TW[j];
    Tetra::prm p; anyParam(p);
    MatT u, dx, dy, dz; t.interpolation(Nodes::get_u<NEXT>, u, dx, dy, dz);
    const V3 a = dx.col(0), b = dy.col(0), c = dz.col(0);
    EQ("exchange energy is A V |grad u|^2 (hence not negative)", t.exchangeEnergy(p, dx, dy, dz), p.A*V*(dt3(a, a) + dt3(b, b) + dt3(c, c)));
    }
VC(tri_energies)
    {
    std::vector<Node> n; refNodes(n, 4);
    Triangle::Tri t(n, 0, {1, 2, 3}); anyGeom(t); t.dMs = vf_real("dMs");
    Triangle::prm p; p.Ks = vf_real("Ks"); unitVec("uk", p.uk);
    MatF u; anyMatF("u", u); VecF phi; for (int j = 0; j < Triangle::NPI; j++) phi[j] = vf_real("phi");
    double an = 0, dm = 0;
    for (int j = 0; j < Triangle::NPI; j++)
        {
        const V3 m = u.col(j);
        an -= t.weight[j]*p.Ks*dt3(p.uk, m)*dt3(p.uk, m);
        dm += 0.5*MU0*t.dMs*t.weight[j]*dt3(t.n, m)*phi[j];
        }
    EQ("surface anisotropy energy", t.anisotropyEnergy(p, u), an);
    EQS("demagnetizing surface energy", t.demagEnergy(u, phi)*1e6, dm*1e6, 10);
    vf_cover("tri");
    }
