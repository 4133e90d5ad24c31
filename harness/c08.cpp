// C08: contracts tying the anisotropy fields to the energies
#include "fe.h"
typedef Eigen::Vector3d V3;
static double dt3(const V3 &a, const V3 &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static void anyMat(const char *n, MatT &m) { for (int j = 0; j < Tetra::NPI; j++) for (int k = 0; k < 3; k++) m(k,j) = vf_real(n); }
static void frame(V3 &ex, V3 &ey, V3 &ez)
    { // any right-handed orthonormal frame, by Euler angles
    double a[2], b[2], c[2]; vf_unit2("fa", a); vf_unit2("fb", b); vf_unit2("fc", c);
    ex = V3(a[0]*b[0]*c[0] - a[1]*c[1], a[1]*b[0]*c[0] + a[0]*c[1], -b[1]*c[0]);
    ey = V3(-a[0]*b[0]*c[1] - a[1]*c[0], -a[1]*b[0]*c[1] + a[0]*c[0], b[1]*c[1]);
    ez = V3(a[0]*b[1], a[1]*b[1], b[0]);
    }
// minus the derivative of the energy along W, from the real energy function (exact: the energy is quadratic)
VC(uniaxial_field)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    Tetra::prm p; anyParam(p);
    const double Kb = 2.0*p.K/(MU0*p.Ms), s = vf_real("sdt");
    MatT Uu, V, W, H, H0, Z; anyMat("U", Uu); anyMat("V", V); anyMat("W", W); anyMat("H", H); H0 = H; Z.setZero();
    const MatT U0 = Uu, V0 = V;
    VecT c = t.calc_aniso_uniax(p.uk, Kb, s, Uu, V, H);
    MatT H1; H1.setZero(); t.calc_aniso_uniax(p.uk, Kb, s, Uu, Z, H1);
    MatT H2; H2.setZero(); t.calc_aniso_uniax(p.uk, Kb, 0.0, V, Z, H2);
    MatT Up = Uu + W, Um = Uu - W;
    const double dE = t.uniaxialAnisotropyEnergy(p, Up) - t.uniaxialAnisotropyEnergy(p, Um);
    double rhs = 0;
    for (int j = 0; j < Tetra::NPI; j++) rhs += t.weight[j]*(H1(0,j)*W(0,j) + H1(1,j)*W(1,j) + H1(2,j)*W(2,j));
    EQS("uniaxial field is minus the energy derivative over mu0 Ms", MU0*p.Ms*rhs*2.0, -dE, 100);
    for (int j = 0; j < Tetra::NPI; j++)
        {
        for (int k = 0; k < 3; k++)
            {
            EQS("uniaxial second-order term is the field of the velocity", H(k,j), H0(k,j) + H1(k,j) + s*H2(k,j), 100);
            EQ("frame: U untouched", Uu(k,j), U0(k,j)); EQ("frame: V untouched", V(k,j), V0(k,j));
            }
        EQS("uniaxial stabilising value is u.H", c[j], Uu(0,j)*H1(0,j) + Uu(1,j)*H1(1,j) + Uu(2,j)*H1(2,j), 100);
        }
    vf_cover("uniaxial");
    }
// cubic energy is quartic: the five-point formula gives its exact derivative
VC(cubic_field)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    Tetra::prm p; anyParam(p);
    frame(p.ex, p.ey, p.ez);
    const double Kb = 2.0*p.K3/(MU0*p.Ms);
    MatT Uu, W, H, H0, Z; anyMat("W", W); anyMat("H", H); H0 = H; Z.setZero();
    for (int j = 0; j < Tetra::NPI; j++) { V3 u; unitVec("U", u); Uu.col(j) = u; }
    // one integration point at a time: the others carry no weight
    const int j = vf_int("j", 0, Tetra::NPI-1);
    for (int k = 0; k < Tetra::NPI; k++) if (k != j) t.weight[k] = 0;
    VecT c = t.calc_aniso_cub(p.ex, p.ey, p.ez, Kb, vf_real("sdt"), Uu, Z, H);
    MatT p1 = Uu + W, m1 = Uu - W, p2 = Uu + 2*W, m2 = Uu - 2*W;
    const double dE = (8*(t.cubicAnisotropyEnergy(p, p1) - t.cubicAnisotropyEnergy(p, m1)) - (t.cubicAnisotropyEnergy(p, p2) - t.cubicAnisotropyEnergy(p, m2)))/12.0;
    const V3 h = H.col(j) - H0.col(j), w = W.col(j), u = Uu.col(j);
    EQS("cubic field is minus the energy derivative over mu0 Ms", MU0*p.Ms*t.weight[j]*dt3(h, w), -dE, 1000);
    EQS("cubic stabilising value is u.H", c[j], dt3(u, h), 100);
    vf_cover("cubic");
    }
// cubic field as an explicit polynomial, all integration points at once (no unit-length or orthonormality needed)
VC(cubic_formula)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    V3 e[3]; for (int k = 0; k < 3; k++) anyVec("e", e[k]);
    const double Kb = vf_real("K3bis"), s = vf_real("sdt");
    MatT Uu, V, H, H0, Z; anyMat("U", Uu); anyMat("V", V); anyMat("H", H); H0 = H; Z.setZero();
    MatT H1 = H0; const MatT U0 = Uu, V0 = V;
    VecT c = t.calc_aniso_cub(e[0], e[1], e[2], Kb, s, Uu, V, H);
    VecT c1 = t.calc_aniso_cub(e[0], e[1], e[2], Kb, s, Uu, Z, H1);
    for (int j = 0; j < Tetra::NPI; j++)
        {
        const V3 u = U0.col(j), v = V0.col(j);
        V3 h(0,0,0), h2(0,0,0); double cc = 0;
        for (int k = 0; k < 3; k++)
            {
            const double al = dt3(e[k], u);
            h -= (Kb*al*(1 - al*al))*e[k];
            h2 -= (Kb*dt3(e[k], v)*(1 - 3*al*al))*e[k];
            cc -= Kb*al*al*(1 - al*al);
            }
        EQS("cubic stabilising value", c[j], cc, 100);
        EQS("cubic stabilising value does not depend on the velocity", c1[j], cc, 100);
        for (int k = 0; k < 3; k++)
            {
            const double ak = dt3(e[k], u), dev = -Kb*dt3(e[k], v)*e[0][k]*(1 - 3*ak*ak);   // deviation recorded as a known finding
            const double got = H(k,j) - H0(k,j) - h[k];
            EQS("cubic first-order field", H1(k,j), H0(k,j) + h[k], 100);
            EQS("cubic second-order term is the exact derivative or the recorded deviation", (got - s*h2[k])*(got - s*dev), 0.0, 1e5);
            EQ("frame: U untouched", Uu(k,j), U0(k,j)); EQ("frame: V untouched", V(k,j), V0(k,j));
            }
        }
    vf_cover("cubic");
    }
VC(cubic_second_order)
    {
    std::vector<Node> n; refNodes(n, 4);
    Tetra::Tet t(n, 0, {1, 2, 3, 4}); anyGeom(t);
    V3 e[3]; frame(e[0], e[1], e[2]);
    const double Kb = vf_real("K3bis"), s = vf_real("sdt");
    MatT Uu, V, H, H1, Z; H.setZero(); H1.setZero(); Z.setZero();
    for (int j = 0; j < Tetra::NPI; j++) { V3 u; unitVec("U", u); Uu.col(j) = u; }
    anyMat("V", V);
    t.calc_aniso_cub(e[0], e[1], e[2], Kb, s, Uu, V, H);
    t.calc_aniso_cub(e[0], e[1], e[2], Kb, s, Uu, Z, H1);
    V3 h2(0,0,0);
    for (int k = 0; k < 3; k++) { const double al = dt3(e[k], Uu.col(0)); h2 -= (Kb*dt3(e[k], V.col(0))*(1 - 3*al*al))*e[k]; }
    for (int k = 0; k < 3; k++)
        EQS("cubic second-order term is the derivative of the field along the velocity", H(k,0) - H1(k,0), s*h2[k], 1e4);
    }
// surface anisotropy: right-hand side of a triangle from the real surface energy
static void surface(bool flip)
    {
    std::vector<Node> n; refNodes(n, 6); anyFields(n);
    Triangle::Tri t(n, 0, {5, 2, 6});
    anyGeom(t);
    Triangle::prm p; p.Ks = vf_real("Ks"); unitVec("uk", p.uk);
    const double Ms = 1e6*vf_pos("Ms");
    t.dMs = flip ? -Ms : Ms;
    for (int r = 0; r < 6; r++) t.Lp[r] = vf_real("oldL");
    const std::vector<Node> old = n;
    t.integrales(p);
    for (int r = 0; r < 6; r++)
        {
        const int i = r % 3; const Node &q = old[t.ind[i]];
        const V3 R = r < 3 ? q.eq : q.ep;
        // derivative of the energy when node i moves along R (quadratic energy: exact central difference)
        MatF up, um;
        for (int j = 0; j < Triangle::NPI; j++)
            {
            V3 u(0,0,0); for (int l = 0; l < 3; l++) u += FA[l][j]*old[t.ind[l]].d[CURRENT].u;
            up.col(j) = u + FA[i][j]*R; um.col(j) = u - FA[i][j]*R;
            }
        const double dE = 0.5*(t.anisotropyEnergy(p, up) - t.anisotropyEnergy(p, um));
        EQS("surface contribution is minus the energy derivative over mu0 Ms", MU0*Ms*t.Lp[r], -dE, 100);
        }
    vf_same("frame: nodes untouched", n.data(), old.data(), 6*sizeof(Node));
    vf_cover("surface");
    }
VC(surface_outer) { surface(false); }
VC(surface_flipped) { surface(true); }
