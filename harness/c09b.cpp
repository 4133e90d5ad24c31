// C09: Fem::energy sums the element energies of the new state
#include "fem_all.h"
extern "C" void vfstub_init(Mesh::mesh *) {}
namespace {
void energies(const bool space)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    const int rc = vf_int("regions", 0, 5);
    const bool tri = vf_bool("tri");
    Settings s; bed::settings(s, rc, tri, tri && vf_bool("sup"));
    s.field_type = space ? R4toR3 : RtoR3;
    const bool aniso = vf_bool("aniso");
    for (int r = 1; r < 4; r++) { s.paramTetra[r].A = vf_pos("A"); s.paramTetra[r].K = aniso ? vf_pos("K") : 0; s.paramTetra[r].K3 = aniso ? -vf_pos("K3") : 0; }
    s.paramTriangle[0].Ks = aniso ? vf_pos("Ks") : 0; s.paramTriangle[1].Ks = aniso ? -vf_pos("Ks") : 0;
    timing tp(1e-9, 1e-14, 1e-11);
    Fem f(s, tp);
    Mesh::mesh &m = f.msh;
    anyFields(m.node);
    const std::vector<Node> old(m.node);
    for (double &e : f.E) e = vf_real("E");             // whatever an earlier call left
    f.Etot = vf_real("Etot"); f.Etot0 = vf_real("Etot0");
    const double e0 = f.Etot0, t = vf_real("t");
    f.energy(t, s);
    double X[4] = {0,0,0,0};
    const double a[1] = {t};
    for (size_t e = 0; e < m.tet.size(); e++)
        if (bed::reg[e] != 2)
            {
            const Tetra::Tet &te = m.tet[e]; const Tetra::prm &p = s.paramTetra[bed::reg[e]];
            MatT u, dx, dy, dz; VecT phi;
            te.interpolation(Nodes::get_u<NEXT>, u, dx, dy, dz);
            te.interpolation(Nodes::get_phi<NEXT>, phi);
            X[EXCHANGE] += te.exchangeEnergy(p, dx, dy, dz);
            X[DEMAG] += te.demagEnergy(p, dx, dy, dz, phi);
            if (aniso) X[ANISOTROPY] += te.uniaxialAnisotropyEnergy(p, u) + te.cubicAnisotropyEnergy(p, u);
            if (!space) X[ZEEMAN] += te.zeemanEnergy(p, Eigen::Vector3d(vf_uf("js_x", 1, a), vf_uf("js_y", 1, a), vf_uf("js_z", 1, a))/MU0, u);
            else
                {
                const MatT pg = te.getPtGauss(); std::vector<MatT> F(m.tet.size());
                for (int g = 0; g < Tetra::NPI; g++) { const double x[3] = {pg(0,g), pg(1,g), pg(2,g)}; F[e](0,g) = vf_uf("js_x", 3, x); F[e](1,g) = vf_uf("js_y", 3, x); F[e](2,g) = vf_uf("js_z", 3, x); }
                X[ZEEMAN] += te.zeemanEnergy(p, vf_uf("js_scalar", 1, a)/MU0, F, u);
                }
            }
    for (int e : m.magTri)
        {
        const Triangle::Tri &fa = m.tri[e]; const Triangle::prm &p = s.paramTriangle[fa.idxPrm];
        MatF u; VecF phi;
        fa.interpolation(Nodes::get_u<NEXT>, u);
        fa.interpolation(Nodes::get_phi<NEXT>, phi);
        if (aniso) X[ANISOTROPY] += fa.anisotropyEnergy(p, u);
        X[DEMAG] += fa.demagEnergy(u, phi);
        }
    EQ("exchange term", f.E[EXCHANGE], X[EXCHANGE]);
    EQ("anisotropy term", f.E[ANISOTROPY], X[ANISOTROPY]);
    EQS("demagnetizing term", f.E[DEMAG]*1e6, X[DEMAG]*1e6, 10);
    EQS("Zeeman term", f.E[ZEEMAN], X[ZEEMAN], 10);
    EQ("total is the sum of the four terms", f.Etot, X[0] + X[1] + X[2] + X[3]);
    EQ("frame: energy of the previous step", f.Etot0, e0);
    for (int i = 0; i < bed::NM; i++) for (int k = 0; k < 3; k++) EQ("frame: magnetization", m.node[i].d[NEXT].u[k], old[i].d[NEXT].u[k]);
    const double et = f.Etot;
    f.evolution();
    EQ("accepting a step remembers its energy", f.Etot0, et);
    EQ("accepting a step keeps the energy", f.Etot, et);
    for (int i = 0; i < bed::NM; i++) for (int k = 0; k < 3; k++) EQ("accepting a step makes the new state current", m.node[i].d[CURRENT].u[k], old[i].d[NEXT].u[k]);
    }
}
VC(energies) { energies(false); }
VC(energies_space) { energies(true); }
