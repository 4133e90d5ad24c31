// C10: the charges handed to the far-field solver and the potentials taken from it (scal_fmm::fmm)
#include "fem_support.h"
using namespace scal_fmm;
namespace {
struct Ghost { Mesh::mesh *m; fmm *f; int phase; bool pos; std::vector<double> corr; double pot[2][bed::NM]; int seen[2][bed::NM]; } g;
double close(double a, double b) { const double d = a - b; return d < 1e-9 && d > -1e-9; }
const std::function<const Eigen::Vector3d(const Nodes::Node&)> GET[2] = {Nodes::get_u<NEXT>, Nodes::get_v<NEXT>};
// contract of Tri::correctionCharges: adds something to the three nodes of its own triangle
}
extern "C" void vfstub_corr(const Triangle::Tri *t, const std::function<const Eigen::Vector3d(const Nodes::Node&)> &getter, VecF &q, std::vector<double> &corr)
    {
    const double a[2] = {double(t - &g.m->tri[0]), double(g.phase)};
    for (int i = 0; i < 3; i++) { const double b[3] = {a[0], a[1], double(i)}; corr[t->ind[i]] += vf_uf("corr", 3, b); }
    }
namespace {
void execute(void *p)
    {
    OctreeClass &tree = *(OctreeClass*)p;
    Mesh::mesh &m = *g.m;
    ENSURES("at most two far-field computations", g.phase < 2);
    if (g.phase >= 2) return;
    g.corr.assign(bed::NM, 0.0);
    std::vector<double> q; std::vector<Eigen::Vector3d> x; std::vector<int> used;
    for (size_t e = 0; e < m.tet.size(); e++)
        if (bed::reg[e] != 2)
            {
            const MatT pg = m.tet[e].getPtGauss(); const VecT c = m.tet[e].charges(bed::reg[e] == 1 ? 8.0 : 5.0, GET[g.phase]);
            for (int j = 0; j < Tetra::NPI; j++) { q.push_back(c[j]); x.push_back(Eigen::Vector3d(pg.col(j))); used.push_back(0); }
            }
    for (int e : m.magTri)
        {
        const MatF pg = m.tri[e].getPtGauss(); VecF c = m.tri[e].charges(m.tri[e].dMs, GET[g.phase]);
        for (int j = 0; j < Triangle::NPI; j++) { q.push_back(c[j]); x.push_back(Eigen::Vector3d(pg.col(j))); used.push_back(0); }
        m.tri[e].correctionCharges(GET[g.phase], c, g.corr);
        }
    double L = 0;
    for (int k = 0; k < 3; k++) L = m.l[k] > L ? m.l[k] : L;
    size_t n = 0;
    for (int l = 0; l < 2; l++)
        {
        ContainerClass &s = *tree.leaf[l].getSrc(), &t = *tree.leaf[l].getTargets();
        for (int i = 0; i < s.getNbParticles(); i++)
            {
            n++;
            int k = -1;
            for (size_t e = 0; e < x.size(); e++)
                if (close(s.pos[i].x, 2/L*(x[e][0] - m.c[0])) && close(s.pos[i].y, 2/L*(x[e][1] - m.c[1])) && close(s.pos[i].z, 2/L*(x[e][2] - m.c[2]))) k = e;
            ENSURES("every source lies at an integration point of a charge-carrying element", k >= 0);
            if (k < 0) return;
            used[k]++;
            EQ("the charge of a source is the one of its own integration point", s.val[i], q[k]);
            }
        for (int i = 0; i < t.getNbParticles(); i++)
            {
            const int k = t.idx[i];
            ENSURES("every target is a magnetic node", k >= 0 && k < bed::NM && m.magNode[k]);
            if (k < 0 || k >= bed::NM) return;
            g.seen[g.phase][k]++;
            ENSURES("a target lies at its node", close(t.pos[i].x, 2/L*(m.node[k].p[0] - m.c[0])) && close(t.pos[i].y, 2/L*(m.node[k].p[1] - m.c[1])) && close(t.pos[i].z, 2/L*(m.node[k].p[2] - m.c[2])));
            EQ("potentials start from zero", t.pot[i], 0.0);
            t.pot[i] = g.pot[g.phase][k] = vf_real("pot");
            }
        }
    ENSURES("as many sources as integration points", n == x.size());
    for (size_t e = 0; e < x.size(); e++) ENSURES("every integration point is a source exactly once", used[e] == 1);
    for (int i = 0; i < bed::NM; i++)
        {
        ENSURES("every magnetic node is a target exactly once", g.seen[g.phase][i] == (m.magNode[i] ? 1 : 0));
        EQ("corrections are those of the current triangles only", g.f->corr[i], g.corr[i]);
        }
    g.phase++;
    }
}
VC(demag)
    {
    CONTRACT("8Triangle3Tri17correctionCharges", vfstub_corr);
    const int rc = vf_int("regions", 0, 5);
    const bool tri = vf_bool("tri");
    Settings s; bed::settings(s, rc, tri, tri && vf_bool("sup"));
    Mesh::mesh m(s);
    fmm f(m, s.paramTetra, s.paramTriangle, 3);
    g.m = &m; g.f = &f; vf_fmm_execute = execute;
    ENSURES("the number of threads is the configured one", g_omp == 3);
    double L = 0;
    for (int k = 0; k < 3; k++) L = m.l[k] > L ? m.l[k] : L;
    const int rounds = 2;                       // the second computation starts from the leftovers of the first
    for (int r = 0; r < rounds; r++)
        {
        anyFields(m.node);
        const std::vector<Node> old(m.node);
        g.phase = 0;
        for (int p = 0; p < 2; p++) for (int i = 0; i < bed::NM; i++) g.seen[p][i] = 0;
        std::vector<double> c0;
        f.calc_demag(m);
        ENSURES("potential of the magnetization and of its velocity", g.phase == 2);
        for (int i = 0; i < bed::NM; i++)
            {
            for (int k = 0; k < 3; k++) { EQ("frame: magnetization", m.node[i].d[NEXT].u[k], old[i].d[NEXT].u[k]); EQ("frame: velocity", m.node[i].d[NEXT].v[k], old[i].d[NEXT].v[k]); }
            EQ("frame: current state", m.node[i].d[CURRENT].phi, old[i].d[CURRENT].phi);
            if (!m.magNode[i])
                { EQ("frame: non-magnetic nodes", m.node[i].d[NEXT].phi, old[i].d[NEXT].phi); EQ("frame: non-magnetic nodes", m.node[i].d[NEXT].phiv, old[i].d[NEXT].phiv); continue; }
            EQ("potential of the velocity: far field scaled plus correction, over 4 pi", m.node[i].d[NEXT].phiv, (g.pot[1][i]*2/L + g.corr[i])/(4*M_PI));
            // the corrections of the first phase
            std::vector<double> c1(bed::NM, 0.0);
            g.phase = 0;
            for (int e : m.magTri) { VecF c = m.tri[e].charges(m.tri[e].dMs, GET[0]); m.tri[e].correctionCharges(GET[0], c, c1); }
            EQ("potential of the magnetization: far field scaled plus correction, over 4 pi", m.node[i].d[NEXT].phi, (g.pot[0][i]*2/L + c1[i])/(4*M_PI));
            }
        }
    vf_fmm_execute = nullptr;
    }
