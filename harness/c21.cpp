// C21: solution files.  A file is written by the real savesol and read by the real readSol; see vf_files.h for what
// stands for the text of a number in the verifier run.
#define MS_REAL_READ
#include "vf_files.h"
#include "gm.h"
#include "fem_all.h"
#include "electrostatSolver.h"
#include "tags.cpp"
#include "read.cpp"
#include "save.cpp"
#include "electrostatSolver.cpp"
#include "vf_text.h"
namespace {
const int NP[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
                       {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
std::string header(double t, bool spin)
    {
    std::string h = "## feeLLGood version: 1\n## real-world time: 12:00\n## time: ";
    text(h, t);
    h += "\n## columns: idx\tmx\tmy\tmz\tphi";
    if (spin) h += "\tsx\tsy\tsz";
    return h + "\n";
    }
struct Bed
    {
    Settings set; Mesh::mesh m;
    static Settings &prep(Settings &s) { gm::reset(); s.paramTetra.push_back(ms_tetPrm("__default__", 0)); s.paramTriangle.push_back(ms_triPrm("__default__")); return s; }
    Bed(int n, const int *perm) : m(prep(set), true)
        {
        m.node.resize(n); m.node_index.resize(n);
        for (int i = 0; i < n; i++) { zeroNode(m.node[i]); m.node_index[i] = perm ? perm[i] : i; }
        }
    };
void state(Mesh::mesh &m, const char *u, const char *f)
    { for (auto &n : m.node) for (int k = 0; k < 2; k++) { anyVec(u, n.d[k].u); anyVec(u, n.d[k].v); n.d[k].phi = vf_real(f); n.d[k].phiv = vf_real(f); } }
}
VC(round_trip)
    {
    const int n = vf_bool("four") ? 4 : 3;
    static const int P3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    const int *perm = n == 4 ? NP[vf_int("perm", 0, 23)] : P3[vf_int("perm3", 0, 5)];
    const bool spin = vf_bool("spin");
    const int nanmask = vf_int("nonmagnetic", 0, 2);        // none, the first node of the mesh file, two nodes
    Bed a(n, perm), b(n, perm);
    state(a.m, "u", "phi"); state(b.m, "w", "psi");
    if (nanmask >= 1) a.m.node[perm[0]].d[NEXT].u = Eigen::Vector3d(NAN, NAN, NAN);
    if (nanmask == 2) a.m.node[perm[n-1]].d[NEXT].u = Eigen::Vector3d(NAN, NAN, NAN);
    std::vector<Eigen::Vector3d> s(spin ? n : 0);
    for (auto &v : s) anyVec("s", v);
    const double t = vf_real("t");
    const std::vector<Node> B = b.m.node;
    const std::string name = file("a.sol");
    a.m.savesol(PREC, name, header(t, spin), spin, s);
    const std::string c = content(name);
    for (int i = 0; i < n; i++)
        {
        const dataNode &d = a.m.node[perm[i]].d[NEXT];
        ENSURES("line i starts with i", word(c, i, 0) == std::string(1, char('0' + i)));
        for (int k = 0; k < 3; k++) { const std::string w = word(c, i, 1 + k); ENSURES("then the magnetization of node i of the mesh file", close(value(w), d.u[k])); precise(w); }
        ENSURES("then its potential", close(value(word(c, i, 4)), d.phi)); precise(word(c, i, 4));
        if (spin) for (int k = 0; k < 3; k++) ENSURES("then its spin accumulation", close(value(word(c, i, 5 + k)), s[perm[i]][k]));
        ENSURES("and nothing else", word(c, i, spin ? 8 : 5).empty());
        }
    ENSURES("as many lines as nodes", word(c, n, 0).empty() && c.back() == '\n');
    vf_exit_begin("a saved state is accepted", false);
    const double r = b.m.readSol(false, name);
    vf_exit_end();
    drop(name);
    ENSURES("the time is restored", close(r, t));
    ENSURES("the number of nodes is unchanged", b.m.node.size() == size_t(n));
    for (int i = 0; i < n; i++)
        {
        const dataNode &x = a.m.node[i].d[NEXT], &y = b.m.node[i].d[NEXT];
        for (int k = 0; k < 3; k++) ENSURES("the magnetization is back on its node", close(y.u[k], x.u[k]));
        ENSURES("the potential is back on its node", close(y.phi, x.phi));
        vf_same("nothing else changes", &b.m.node[i].d[CURRENT], &B[i].d[CURRENT], sizeof(dataNode));
        vf_same("nothing else changes", &y.v, &B[i].d[NEXT].v, sizeof(y.v));
        vf_same("nothing else changes", &b.m.node[i].p, &B[i].p, sizeof(B[i].p));
        EQ("nothing else changes", y.phiv, B[i].d[NEXT].phiv);
        }
    }
VC(refusals)
    {
    const int n = 3;
    static const int P3[3][3] = {{0,1,2},{2,0,1},{1,0,2}};
    const int *perm = P3[vf_int("perm", 0, 2)];
    const int kind = vf_int("kind", 0, 12), at = vf_int("at", 0, 2);
    Bed b(n, perm); state(b.m, "w", "psi");
    const double t = vf_real("t");
    int index[4] = {0, 1, 2, 3}, lines = n, words[4] = {5, 5, 5, 5};
    bool timeTag = true, there = true, newline = true, bad = true; int garbage = -1;
    switch (kind)
        {
        case 0: index[at] = (at + 1)%n; break;                           // repeated index
        case 1: index[at] = (at + 1)%n; index[(at + 1)%n] = at; break;   // two lines exchanged
        case 2: for (int i = 0; i < n; i++) index[i]++; break;           // numbered from one
        case 3: lines = at; break;                                       // file of a smaller mesh
        case 4: lines = n + 1; break;                                    // file of a larger mesh
        case 5: words[at] = 4; break;                                    // incomplete line
        case 6: words[at] = 1 + at; break;
        case 7: garbage = 1; break;                                      // not a number
        case 8: garbage = 4; break;
        case 9: timeTag = false; break;
        case 10: there = false; break;
        case 11: bad = false; break;                                     // well-formed
        case 12: bad = false; newline = false; break;                    // no end of line at the end
        }
    std::string h = timeTag ? header(t, false) : "## version\n## real-world date: 3\n", c = h;
    double u[4][4];
    for (int i = 0; i < lines; i++)
        {
        c += char('0' + index[i]);
        for (int k = 0; k < 4; k++) { u[i][k] = vf_real("u"); if (k + 1 < words[i]) { c += '\t'; if (garbage == k + 1 && i == at) c += "x"; else text(c, u[i][k]); } }
        if (newline || i < lines - 1) c += '\n';
        }
    const std::string name = file("r.sol");
    if (there) put(name, c);
    vf_exit_begin("a file that does not describe this mesh is refused, a well-formed one is not", bad);
    const double r = b.m.readSol(false, name);
    vf_exit_end();
    drop(name);
    ENSURES("only a well-formed file is accepted", !bad);
    if (bad) return;
    EQ("the time is that of the file", r, t);
    for (int i = 0; i < n; i++)
        {
        for (int k = 0; k < 3; k++) EQ("the magnetization is that of the line of the node", b.m.node[perm[i]].d[NEXT].u[k], u[i][k]);
        EQ("the potential is that of the line of the node", b.m.node[perm[i]].d[NEXT].phi, u[i][3]);
        }
    }
VC(unwritable)
    {
    Bed a(3, nullptr); state(a.m, "u", "phi");
    std::vector<Eigen::Vector3d> s;
#ifdef VF_NATIVE
    const std::string name = "vf_no_such_directory/x.sol";
#else
    const std::string name = "x.sol"; vff::unwritable = true;
#endif
    vf_exit_begin("a file that cannot be written is reported", true);
    a.m.savesol(PREC, name, header(0, false), false, s);
    vf_exit_end();
    ENSURES("a file that cannot be written is reported", false);
    }
extern "C" std::string vfstub_date() { return "today"; }
VC(potential_file)
    {
    CONTRACT("^_Z4date", vfstub_date);
    const int n = 4; const int *perm = NP[vf_int("perm", 0, 23)];
    Bed a(n, perm);
    electrostatSolver e(a.m, a.set.paramTetra, a.set.paramTriangle, 1e-8, false, 10);
    e.V.resize(n); for (double &v : e.V) v = vf_real("V");
    const std::string name = file("v.sol");
    e.save(name, "## columns: index\tV\n");
    const std::string c = content(name);
    drop(name);
    for (int i = 0; i < n; i++)
        {
        ENSURES("line i starts with i", word(c, i, 0) == std::string(1, char('0' + i)));
#ifdef VF_NATIVE
        ENSURES("then the potential of node i of the mesh file", std::fabs(value(word(c, i, 1)) - e.V[perm[i]]) <= 1e-4*std::fabs(e.V[perm[i]]));
#else
        EQ("then the potential of node i of the mesh file", value(word(c, i, 1)), e.V[perm[i]]);
#endif
        ENSURES("and nothing else", word(c, i, 2).empty());
        }
    ENSURES("as many lines as nodes", word(c, n, 0).empty());
    }
VC(restart)
    {
    const bool restored = vf_bool("restored"), timed = vf_bool("initial time");
    Settings s; gm::reset(); bed::settings(s, vf_int("layout", 0, 5), false, false);
    for (int i = 0; i < bed::NM; i++) { gm::tags.push_back(i + 1); for (int k = 0; k < 3; k++) gm::xyz.push_back(bed::MP[i][k]); }
    for (int r = 1; r < 4; r++) gm::groups.push_back({3, r, s.paramTetra[r].regName});
    gm::groups.push_back({2, 1, "s"});
    for (int t = 0; t < 3; t++) { gm::Entity e = {3, 10 + t, {bed::reg[t]}, {4}, {{}}}; for (int i = 0; i < 4; i++) e.nodes[0].push_back(bed::MT[t][i] + 1); gm::entities.push_back(e); }
    const double t0 = vf_real("t0"), t1 = vf_real("t1");
    s.initial_time = timed ? t1 : NAN;
    double u[bed::NM][4];
    std::string c = header(t0, false);
    for (int i = 0; i < bed::NM; i++) { c += char('0' + i); for (int k = 0; k < 4; k++) { u[i][k] = vf_real("u"); c += '\t'; text(c, u[i][k]); } c += '\n'; }
    const std::string name = file("r.sol");
    put(name, c);
    if (restored) s.restoreFileName = name; else for (int i = 0; i < bed::NM; i++) { const double *p = bed::MP[i]; REQUIRES(vf_uf("js_x", 3, p)*vf_uf("js_x", 3, p) + vf_uf("js_y", 3, p)*vf_uf("js_y", 3, p) + vf_uf("js_z", 3, p)*vf_uf("js_z", 3, p) > 0); }
    timing tp(1e-9, 1e-14, 1e-11);
    Fem f(s, tp);
    drop(name);
    EQ("the run starts at the time asked for, at that of the restored state, or at zero", tp.get_t(), timed ? t1 : restored ? t0 : 0.0);
    if (restored) for (int i = 0; i < bed::NM; i++)
        {
        const dataNode &d = f.msh.node[f.msh.node_index[i]].d[NEXT];
        for (int k = 0; k < 3; k++) EQ("the run starts from the restored magnetization", d.u[k], u[i][k]);
        EQ("the run starts from the restored potential", d.phi, u[i][3]);
        }
    }
#ifdef VF_NATIVE
#include <random>
#include <algorithm>
#endif
VC(large)               // replay only: files of some hundred nodes
    {
#ifdef VF_NATIVE
    const int n = vf_int("nodes", 9, 300); const bool spin = vf_bool("spin");
    std::mt19937 g(vf_int("seed", 0, 1000000));
    std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    std::shuffle(perm.begin(), perm.end(), g);
    Bed a(n, perm.data()), b(n, perm.data());
    std::uniform_real_distribution<double> U(-1, 1);
    for (auto &q : a.m.node) { q.d[NEXT].u = Eigen::Vector3d(U(g), U(g), U(g)); q.d[NEXT].phi = std::pow(10, 12*U(g)); if (U(g) > 0.9) q.d[NEXT].u = Eigen::Vector3d(NAN, NAN, NAN); }
    std::vector<Eigen::Vector3d> s(spin ? n : 0, Eigen::Vector3d(1, 2, 3));
    const double t = vf_real("t")*1e-9;
    const std::string name = file("a.sol");
    a.m.savesol(12, name, header(t, spin), spin, s);
    vf_exit_begin("a saved state is accepted", false);
    const double r = b.m.readSol(false, name);
    vf_exit_end();
    drop(name);
    EQS("the time is restored", r*1e9, t*1e9, 1e6);
    for (int i = 0; i < n; i++)
        {
        const dataNode &x = a.m.node[i].d[NEXT], &y = b.m.node[i].d[NEXT];
        for (int k = 0; k < 3; k++) ENSURES("the magnetization is back on its node", std::isnan(x.u[k]) ? std::isnan(y.u[k]) : std::fabs(x.u[k] - y.u[k]) < 1e-11);
        EQ("the potential is back on its node", y.phi/x.phi, 1);
        }
#endif
    }
