// C28: the table of the run and the solution files written along it (Fem::saver, real savesol underneath)
#include "vf_files.h"
#include "fem_all.h"
#include "tags.cpp"
#include "save.cpp"
#include "vf_text.h"
extern "C" void vfstub_init(Mesh::mesh *) {}
std::string Settings::solMetadata(const double t) const { std::string h = "## time: "; text(h, t); return h + "\n"; }
namespace {
const char *const COL[21] = {"iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length",
                             "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz", "nonsense"};
struct Run
    {
    Settings s; timing t; Fem f; std::vector<Eigen::Vector3d> acc;
    static Settings &prep(Settings &s) { bed::settings(s, vf_int("layout", 1, 2), false, false); s.paramTetra[3].regName = "c:1"; return s; }
    Run() : t(1e-9, 1e-14, 1e-11), f(prep(s), t)
        {
        anyFields(f.msh.node);
        for (double &e : f.E) e = vf_real("E");
        f.Etot = vf_real("Etot"); f.Etot0 = vf_real("Etot0"); f.vmax = vf_pos("vmax"); f.DW_dir = 1;
        t.set_t(vf_real("t"));
        t.dt = vf_pos("dt");
        }
    double expected(int c, int region, int nt) const
        {
        const double a[1] = {t.get_t()};
        switch (c)
            {
            case 0: return nt;
            case 1: return t.get_t();
            case 2: return t.get_dt();
            case 3: return f.vmax*t.get_dt();
            case 4: return f.msh.max_angle();
            case 5: return f.msh.avg(Nodes::get_u_comp, IDX_X, region);
            case 6: return f.msh.avg(Nodes::get_u_comp, IDX_Y, region);
            case 7: return f.msh.avg(Nodes::get_u_comp, IDX_Z, region);
            case 8: return f.msh.avg(Nodes::get_v_comp, IDX_X, region);
            case 9: return f.msh.avg(Nodes::get_v_comp, IDX_Y, region);
            case 10: return f.msh.avg(Nodes::get_v_comp, IDX_Z, region);
            case 11: return f.msh.thiele(region);
            case 12: return f.E[EXCHANGE];
            case 13: return f.E[ANISOTROPY];
            case 14: return f.E[DEMAG];
            case 15: return f.E[ZEEMAN];
            case 16: return f.Etot;
            case 17: return vf_uf("js_x", 1, a)/MU0;
            case 18: return vf_uf("js_y", 1, a)/MU0;
            default: return vf_uf("js_z", 1, a)/MU0;
            }
        }
    };
bool regional(int c) { return c >= 5 && c <= 11; }
#ifdef VF_NATIVE
void theValue(const char *n, const std::string &w, double x) { const double y = value(w); ENSURES(n, (y != y && x != x) || std::fabs(y - x) <= 6e-6*std::fabs(x) + 1e-300); }
#else
void theValue(const char *n, const std::string &w, double x) { EQ(n, value(w), x); }
#endif
void runOf(const std::string &name, std::ofstream &o) { o.open(name); }
}
VC(table)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    Run r;
    const int n = vf_int("columns", 1, 3), first = vf_int("first", 0, 20), stride = n == 3 ? 8 : 19;
    const int reg = vf_int("region", -2, 3);       // -2: no such region, -1: none given
    const int nt = (first%2)*37;
    int c[3]; bool bad = false;
    for (int i = 0; i < n; i++)
        {
        c[i] = (first + i*stride)%21;
        std::string name = COL[c[i]];
        if (regional(c[i]) && reg != -1) { name = (reg < 0 ? std::string("x:y") : r.s.paramTetra[reg].regName) + ":" + name; if (reg < 0) bad = true; }
        if (c[i] == 20) bad = true;
        r.s.evol_columns.push_back(name);
        }
    // averages over a region without any element are not specified
    bool some = reg < 0;
    for (int t = 0; t < 3; t++) if (bed::reg[t] == reg) some = true;
    REQUIRES(some & (reg != 2));
    r.s.save_period = 0;
    const std::string name = file("a.evol");
    std::ofstream o; runOf(name, o);
    o << "x\n";
    vf_exit_begin("a column that does not exist, or of a region that does not exist, ends the program, no other", bad);
    r.f.saver(r.s, r.t, o, nt, r.acc);
    vf_exit_end();
    ENSURES("every column asked for exists", !bad);
    const std::string l = content(name);
    drop(name);
    ENSURES("one line is added", l.size() > 3 && l[0] == 'x' && l[1] == '\n' && l.back() == '\n' && l.find('\n', 2) == l.size() - 1);
    for (int i = 0; i < n; i++)
        theValue("column i holds the quantity of this name, for the region of this name", word(l, 1, i), r.expected(c[i], regional(c[i]) && reg >= 0 ? reg : -1, nt));
    ENSURES("as many values as columns", word(l, 1, n).empty());
    int tabs = 0; for (char ch : l) if (ch == '\t') tabs++;
    ENSURES("values are separated by one tab", tabs == n - 1);
    }
VC(solution_files)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    Run r;
    const int period = vf_int("period", 0, 3), spin = vf_bool("spin");
    static const int NTS[6] = {0, 1, 2, 3, 4, 12};
    const int nt = NTS[vf_int("nt", 0, 5)];
    r.s.save_period = period; r.s.spin_acc = spin;
    r.s.setSimName("sim");
#ifdef VF_NATIVE
    r.s.r_path_output_dir = "."; r.s.setSimName(file("sim"));
#else
    r.s.r_path_output_dir = "dir";
#endif
    r.s.evol_columns.push_back("t");
    if (spin) { r.acc.resize(bed::NM); for (auto &v : r.acc) anyVec("s", v); }
    const std::string table = file("b.evol"), sol = r.s.r_path_output_dir + "/" + r.s.getSimName() + "_iter" + std::to_string(nt) + ".sol";
    std::ofstream o; runOf(table, o);
    const std::vector<Node> N = r.f.msh.node;
    r.f.saver(r.s, r.t, o, nt, r.acc);
    const std::string l = content(table), c = content(sol);
    drop(table); drop(sol);
    theValue("the table goes on", word(l, 0, 0), r.t.get_t());
    const bool due = period != 0 && nt%(period ? period : 1) == 0;
    ENSURES("a solution file is written at the multiples of the period, and only then", c.empty() == !due);
    for (int i = 0; i < bed::NM; i++) vf_same("saving changes nothing", &r.f.msh.node[i], &N[i], sizeof(Node));
    if (!due) return;
    ENSURES("it starts with the metadata of this time", c.compare(0, 8, "## time:") == 0);
    theValue("it starts with the metadata of this time", c.substr(9, c.find('\n') - 9), r.t.get_t());
    for (int i = 0; i < bed::NM; i++)
        {
        const int j = r.f.msh.node_index[i];
        const dataNode &d = r.f.msh.node[j].d[NEXT];
        for (int k = 0; k < 3; k++) theValue("it holds the magnetization of this time", word(c, i, 1 + k), d.u[k]);
        theValue("it holds the potential of this time", word(c, i, 4), d.phi);
        if (spin) for (int k = 0; k < 3; k++) theValue("it holds the spin accumulation of this time", word(c, i, 5 + k), r.acc[j][k]);
        ENSURES("it has a spin accumulation if there is one", word(c, i, spin ? 8 : 5).empty());
        }
    ENSURES("one line for each node", word(c, bed::NM, 0).empty());
    }
