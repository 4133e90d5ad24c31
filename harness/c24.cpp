// C24: the configuration.  settings.cpp is taken whole; yaml-cpp is replaced in the verifier run (ym.h), the
// JavaScript parsers only record the function they are given.
#define MS_REAL_SETTINGS
#include "ym.h"
#include "vf_default_settings.h"
#include "ms.h"
#include "tags.cpp"
#include <regex>
#include "chronometer.h"
#include "vf_cout.h"
#include "settings.cpp"
#include "vf_text.h"
static std::string g_default;            // the document that the constructor loads
static bool g_withDefaults = false;
#ifdef VF_NATIVE
extern "C" const char vf_yml_blob[] = VF_YML_FULL;
asm(".globl _binary_default_settings_yml_start\n.set _binary_default_settings_yml_start, vf_yml_blob\n"
    ".globl _binary_default_settings_yml_end\n.set _binary_default_settings_yml_end, vf_yml_blob + " VF_YML_LEN "\n");
#else
extern "C" long sysconf(int) noexcept { return 3; }
extern "C" int gethostname(char *n, size_t) noexcept { n[0] = 'h'; n[1] = 0; return 0; }
#endif
extern "C" std::string vfstub_default() { return g_default; }
extern "C" std::string vfstub_date() { return "today"; }
namespace {
// what the parsers were given
const ExpressionParser *g_who[16]; std::string g_what[16]; int g_np = 0;
std::string &given(const ExpressionParser *p) { for (int i = 0; i < g_np; i++) if (g_who[i] == p) return g_what[i]; g_who[g_np] = p; return g_what[g_np++]; }
}
void ExpressionParser::set_function(const std::string &f) const { given(this) = f; }
void ExpressionParser::set_expressions(const std::string &a, const std::string &x, const std::string &y, const std::string &z) const { given(this) = "(" + a + ")" + x + ";" + y + ";" + z; }
#ifdef VF_NATIVE
#include <sstream>
#endif
namespace {
#define DEFAULTS(full) do { CONTRACT("^_ZL16get_default_yaml", vfstub_default); g_default = (full) ? std::string(VF_YML_BARE) : std::string("unused: 1\n"); g_np = 0; } while (0)
bool near(double a, double b)
    {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) & std::isnan(b);
#ifdef VF_NATIVE
    return std::fabs(a - b) <= 2e-5*(std::fabs(a) + std::fabs(b)) + 1e-300;
#else
    return a == b;
#endif
    }
int ncpu() { return int(sysconf(_SC_NPROCESSORS_ONLN)); }
void anyPrior(Settings &s, const bool on = false)
    {
    s.r_path_output_dir = "old"; s.simName = "oldname"; s.pbName = "old.msh";
    s.time_step = vf_pos("ts"); s.tf = vf_pos("tf"); s.save_period = 11; s._scale = vf_pos("scale");
    s.recenter = on; s.spin_acc = on; s.V_file = on;
    s.initial_time = vf_real("it"); s.recentering_direction = IDX_X; s.threshold = vf_pos("thr"); s.scalfmmNbTh = 5; s.MAXITER = 77; s.TOL = vf_pos("tol");
    s.DUMAX = vf_pos("du"); s.dt_min = vf_pos("dmin"); s.dt_max = vf_pos("dmax");
    s.evol_columns = {"t", "iter"}; s.userMetadata.clear(); s.userMetadata.push_back({"Author", "me"}); s.userMetadata.push_back({"Place", "there"});
    }
std::string num(double x) { std::string t; text(t, x); return t; }
const int NK = 21;
}
VC(values)              // a document read over any earlier configuration
    {
    DEFAULTS(false);
    Settings s; anyPrior(s, vf_bool("on"));
    // mode: every key present, no section, empty sections, one key absent or empty, one key alone (replay: any set of keys)
#ifdef VF_NATIVE
    const int mode = vf_int("mode", 0, 2 + 5*NK);
#else
    const int mode = vf_int("mode", 0, 2 + 3*NK);
#endif
    const bool alone = mode > 2 + 2*NK, subset = mode > 2 + 3*NK;
    const int odd = alone ? mode - 3 - 2*NK : mode >= 3 ? (mode - 3)/2 : -1; const bool empty = mode >= 3 && !alone && (mode - 3)%2;
    auto present = [&](int k) { return subset ? vf_bool("present") : alone ? odd == k : mode == 0 || (mode >= 3 && odd != k); };
    const int variant = vf_int("variant", 0, 3);
    static const char *const DIR[4][2] = {{"out/", "out"}, {"a/b", "a/b"}, {"\"\"", "."}, {"/", "/"}};
    static const char *const EVERY[4][2] = {{"false", "0"}, {"7", "7"}, {"-3", "0"}, {"0", "0"}};
    static const char *const AXIS[4] = {"X", "Y", "Z", "\"Y\""};
    static const int IAXIS[4] = {0, 1, 2, 1};
    static const char *const YES[4] = {"true", "false", "yes", "true"};
    static const bool BYES[4] = {true, false, true, true};
    static const int THR[4] = {2, 0, -1, 6};
    double v[9]; for (double &x : v) x = vf_pos("value");
    std::string d = "unused: 1\n"; bool has[NK];
    auto section = [&](const char *n) { if (mode != 1) d += std::string(n) + ":\n"; };
    auto key = [&](int k, const char *n, const std::string &t)
        {
        has[k] = present(k);
        if (has[k]) d += "  " + std::string(n) + ": " + t + "\n";
        else if (mode >= 3 && empty) d += "  " + std::string(n) + ":\n";
        };
    section("outputs");
    key(0, "directory", DIR[variant][0]); key(1, "file_basename", "name"); key(2, "evol_time_step", num(v[0])); key(3, "final_time", num(v[1]));
    key(4, "mag_config_every", EVERY[variant][0]); key(5, "evol_columns", "\n    - <Mx>   # average\n    - a:E_ex\n    - t");
    key(6, "metadata", "\n    Licence: \"CC 0\"\n    Place: here\n    Author: you\n    Note: |\n      two\n      lines");
    section("mesh");
    key(7, "filename", "d.1/m.x.msh"); key(8, "length_unit", num(v[2]));
    section("recentering");
    key(9, "enable", YES[variant]);
    has[10] = present(10); if (has[10]) d += "  direction: " + std::string(AXIS[variant]) + "\n";
    key(11, "threshold", num(v[3]));
    section("spin_accumulation");
    key(12, "enable", YES[variant]); key(13, "V_file", YES[variant]);
    section("demagnetizing_field_solver");
    key(14, "nb_threads", std::to_string(THR[variant]));
    section("finite_element_solver");
    key(15, "max(iter)", "123"); key(16, "tolerance", num(v[4]));
    section("time_integration");
    key(17, "max(du)", num(v[5])); key(18, "min(dt)", num(v[6])); key(19, "max(dt)", num(v[7]));
    has[20] = present(20);
    if (has[20]) d += "initial_time: " + num(v[8]) + "\n"; else if (mode != 1) d += "initial_time:\n";
    Settings o; anyPrior(o); o.time_step = s.time_step; o.tf = s.tf; o._scale = s._scale; o.initial_time = s.initial_time; o.threshold = s.threshold; o.TOL = s.TOL; o.DUMAX = s.DUMAX; o.dt_min = s.dt_min; o.dt_max = s.dt_max; o.recenter = s.recenter; o.spin_acc = s.spin_acc; o.V_file = s.V_file;
    s.read(YAML::Load(d));
    ENSURES("outputs.directory", s.r_path_output_dir == (has[0] ? DIR[variant][1] : o.r_path_output_dir));
    ENSURES("outputs.file_basename", s.simName == (has[1] ? "name" : o.simName));
    EQ("outputs.evol_time_step", s.time_step, has[2] ? v[0] : o.time_step);
    EQ("outputs.final_time", s.tf, has[3] ? v[1] : o.tf);
    ENSURES("outputs.mag_config_every", s.save_period == (has[4] ? EVERY[variant][1][0] - '0' : o.save_period));
    if (has[5]) ENSURES("outputs.evol_columns", s.evol_columns.size() == 3 && s.evol_columns[0] == "<Mx>" && s.evol_columns[1] == "a:E_ex" && s.evol_columns[2] == "t");
    else ENSURES("outputs.evol_columns", s.evol_columns == o.evol_columns);
    static const char *const MD[4][2] = {{"Author", "you"}, {"Place", "here"}, {"Licence", "CC 0"}, {"Note", "two\nlines\n"}};
    if (has[6]) { ENSURES("outputs.metadata", s.userMetadata.size() == 4); for (size_t i = 0; i < 4 && i < s.userMetadata.size(); i++) ENSURES("outputs.metadata", s.userMetadata[i].first == MD[i][0] && s.userMetadata[i].second == MD[i][1]); }
    else ENSURES("outputs.metadata", s.userMetadata == o.userMetadata);
    ENSURES("mesh.filename", s.getPbName() == (has[7] ? "d.1/m.x.msh" : o.pbName));
    EQ("mesh.length_unit", s.getScale(), has[8] ? v[2] : o._scale);
    ENSURES("recentering.enable", s.recenter == (has[9] ? BYES[variant] : o.recenter));
    ENSURES("recentering.direction", s.recentering_direction == (has[10] ? Nodes::index(IAXIS[variant]) : o.recentering_direction));
    EQ("recentering.threshold", s.threshold, has[11] ? v[3] : o.threshold);
    ENSURES("spin_accumulation.enable", s.spin_acc == (has[12] ? BYES[variant] : o.spin_acc));
    ENSURES("spin_accumulation.V_file", s.V_file == (has[13] ? BYES[variant] : o.V_file));
    const int thr = has[14] ? THR[variant] : o.scalfmmNbTh;
    ENSURES("demagnetizing_field_solver.nb_threads", s.scalfmmNbTh == (thr > 0 ? thr : ncpu()));
    ENSURES("finite_element_solver.max(iter)", s.MAXITER == (has[15] ? 123 : o.MAXITER));
    EQ("finite_element_solver.tolerance", s.TOL, has[16] ? v[4] : o.TOL);
    EQ("time_integration.max(du)", s.DUMAX, has[17] ? v[5] : o.DUMAX);
    EQ("time_integration.min(dt)", s.dt_min, has[18] ? v[6] : o.dt_min);
    EQ("time_integration.max(dt)", s.dt_max, has[19] ? v[7] : o.dt_max);
    EQ("initial_time", s.initial_time, has[20] ? v[8] : o.initial_time);
    }
namespace {
void vec(std::string &d, const char *k, const double *v) { d += std::string("      ") + k + ": [" + num(v[0]) + ", " + num(v[1]) + ", " + num(v[2]) + "]\n"; }
void along(const char *n, const Eigen::Vector3d &r, const double *v)       // r is the unit vector along v
    {
    const double l = std::sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
    for (int k = 0; k < 3; k++) EQ(n, r[k]*l, v[k]);
    }
void nonzero(const char *n, double *v) { for (int k = 0; k < 3; k++) v[k] = vf_real(n); REQUIRES(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] > 0); }
Tetra::prm anyTet(const char *name)
    {
    Tetra::prm p = ms_tetPrm(name, 0);
    p.alpha_LLG = vf_pos("alpha"); p.A = vf_pos("A"); p.Ms = vf_real("Ms"); p.K = vf_real("K"); p.K3 = vf_real("K3"); p.P = vf_real("P"); p.N0 = vf_pos("N0"); p.sigma = vf_pos("sigma"); p.lsd = vf_pos("lsd"); p.lsf = vf_pos("lsf");
    return p;
    }
Triangle::prm anyTri(const char *name) { Triangle::prm p = ms_triPrm(name); p.suppress_charges = false; p.Ks = vf_real("Ks"); return p; }
}
VC(defaults)                // the constructor holds what the embedded document says
    {
    DEFAULTS(true);
    Settings s;
    const YAML::Node y = YAML::Load(std::string(VF_YML_BARE));
    const YAML::Node o = y["outputs"], m = y["mesh"];
    EQ("evol_time_step", s.time_step, o["evol_time_step"].as<double>());
    EQ("final_time", s.tf, o["final_time"].as<double>());
    ENSURES("directory", s.r_path_output_dir == o["directory"].as<std::string>());
    ENSURES("mag_config_every", s.save_period == o["mag_config_every"].as<int>());
    ENSURES("evol_columns", s.evol_columns.size() == o["evol_columns"].size());
    for (size_t i = 0; i < s.evol_columns.size(); i++) ENSURES("evol_columns", s.evol_columns[i] == o["evol_columns"][int(i)].as<std::string>());
    ENSURES("no name, no mesh, no metadata, no file to restore", s.getSimName().empty() && s.getPbName().empty() && s.userMetadata.empty() && s.restoreFileName.empty() && std::isnan(s.initial_time));
    EQ("length_unit", s.getScale(), m["length_unit"].as<double>());
    ENSURES("one volume region and one surface region: the defaults", s.paramTetra.size() == 1 && s.paramTriangle.size() == 1 && s.paramTetra[0].regName == "__default__" && s.paramTriangle[0].regName == "__default__");
    const YAML::Node v = m["volume_regions"]["__default__"], f = m["surface_regions"]["__default__"];
    const Tetra::prm &p = s.paramTetra[0]; const Triangle::prm &q = s.paramTriangle[0];
    EQ("Ae", p.A, v["Ae"].as<double>()); EQ("Ms", p.Ms, v["Ms"].as<double>()); EQ("K", p.K, v["K"].as<double>()); EQ("K3", p.K3, v["K3"].as<double>()); EQ("alpha", p.alpha_LLG, v["alpha_LLG"].as<double>());
    EQ("sigma", p.sigma, v["sigma"].as<double>()); EQ("dens_state", p.N0, v["dens_state"].as<double>()); EQ("P", p.P, v["P"].as<double>()); EQ("l_sd", p.lsd, v["l_sd"].as<double>()); EQ("l_sf", p.lsf, v["l_sf"].as<double>());
    for (int k = 0; k < 3; k++) { EQ("uk", p.uk[k], v["uk"][k].as<double>()); EQ("ex", p.ex[k], v["ex"][k].as<double>()); EQ("ey", p.ey[k], v["ey"][k].as<double>()); EQ("ez", p.ez[k], v["ez"][k].as<double>()); EQ("surface uk", q.uk[k], f["uk"][k].as<double>()); }
    ENSURES("suppress_charges", q.suppress_charges == f["suppress_charges"].as<bool>());
    EQ("Ks", q.Ks, f["Ks"].as<double>());
    ENSURES("no boundary condition", std::isnan(q.jn) && std::isnan(q.V) && std::isnan(q.s[0]) && std::isnan(q.s[1]) && std::isnan(q.s[2]));
    ENSURES("recentering", s.recenter == y["recentering"]["enable"].as<bool>() && s.recentering_direction == IDX_Z);
    EQ("threshold", s.threshold, y["recentering"]["threshold"].as<double>());
    ENSURES("spin_accumulation", s.spin_acc == y["spin_accumulation"]["enable"].as<bool>() && s.V_file == y["spin_accumulation"]["V_file"].as<bool>());
    ENSURES("max(iter)", s.MAXITER == y["finite_element_solver"]["max(iter)"].as<int>());
    EQ("tolerance", s.TOL, y["finite_element_solver"]["tolerance"].as<double>());
    EQ("max(du)", s.DUMAX, y["time_integration"]["max(du)"].as<double>()); EQ("min(dt)", s.dt_min, y["time_integration"]["min(dt)"].as<double>()); EQ("max(dt)", s.dt_max, y["time_integration"]["max(dt)"].as<double>());
    ENSURES("threads", s.scalfmmNbTh == ncpu());
    ENSURES("initial magnetization and field", given(&s.mag_parser) == "(x,y,z)" + s.sMx + ";" + s.sMy + ";" + s.sMz && given(&s.field_parser) == "(t)" + s.sBx + ";" + s.sBy + ";" + s.sBz && s.field_type == RtoR3);
    }
VC(volume_regions)          // a region has the values it gives, and those of __default__ otherwise
    {
    DEFAULTS(false);
    Settings s;
    const bool withDefault = vf_bool("defaults");
    s.paramTetra.clear();
    s.paramTetra.push_back(anyTet("first"));
    if (withDefault) { s.paramTetra.push_back(anyTet("__default__")); Tetra::prm &p = s.paramTetra[1]; p.uk = Eigen::Vector3d(vf_real("duk"), 0, 0); p.ex = Eigen::Vector3d(vf_real("dex"), 0, 0); p.ey = Eigen::Vector3d(0, vf_real("dey"), 0); p.ez = Eigen::Vector3d(0, 0, vf_real("dez")); }
    const int NKV = 15, odd = vf_int("odd", -1, NKV - 1); const bool js = vf_bool("Js"), null = vf_bool("null");
    REQUIRES(withDefault | (odd < 0));
    static const char *const K[NKV] = {"Ae", "Ms", "K", "K3", "alpha_LLG", "sigma", "dens_state", "P", "l_sd", "l_sf", "uk", "ex", "ey", "ez", "none"};
    double v[10], w[4][3];
    std::string d = "mesh:\n  volume_regions:\n    a:\n";
    for (int k = 0; k < 10; k++)
        {
        v[k] = vf_real(K[k]);
        if (odd == k || odd == 14) { if (null) d += std::string("      ") + K[k] + ":\n"; }
        else if (k == 1 && js) d += "      Js: " + num(v[k]) + "\n";
        else d += std::string("      ") + K[k] + ": " + num(v[k]) + "\n";
        }
    for (int k = 0; k < 4; k++) { nonzero(K[10+k], w[k]); if (odd == 10 + k || odd == 14) { if (null) d += std::string("      ") + K[10+k] + ":\n"; } else vec(d, K[10+k], w[k]); }
    d += "    b:\n      Ae: " + num(v[0]) + "\n";
    const std::vector<Tetra::prm> old = s.paramTetra;
    s.read(YAML::Load(d));
    const size_t n = old.size();
    ENSURES("one more region for each name", s.paramTetra.size() == n + 2 && s.paramTetra[n].regName == "a" && s.paramTetra[n+1].regName == "b" && s.findRegionIdx<Tetra::prm>("b") == int(n) + 1);
    for (size_t i = 0; i < n; i++) { ENSURES("other regions do not change", s.paramTetra[i].regName == old[i].regName); EQ("other regions do not change", s.paramTetra[i].A, old[i].A); EQ("other regions do not change", s.paramTetra[i].Ms, old[i].Ms); EQ("other regions do not change", s.paramTetra[i].uk[0], old[i].uk[0]); }
    const Tetra::prm &p = s.paramTetra[n], &z = old[withDefault ? 1 : 0];
    auto is = [&](int k, double x, double dflt) { if (odd == k || odd == 14) EQ(K[k], x, dflt); else if (k == 1 && js) EQ("Js", x*MU0, v[k]); else EQ(K[k], x, v[k]); };
    is(0, p.A, z.A); is(1, p.Ms, z.Ms); is(2, p.K, z.K); is(3, p.K3, z.K3); is(4, p.alpha_LLG, z.alpha_LLG); is(5, p.sigma, z.sigma); is(6, p.N0, z.N0); is(7, p.P, z.P); is(8, p.lsd, z.lsd); is(9, p.lsf, z.lsf);
    const Eigen::Vector3d *P[4] = {&p.uk, &p.ex, &p.ey, &p.ez}, *Z[4] = {&z.uk, &z.ex, &z.ey, &z.ez};
    for (int k = 0; k < 4; k++) if (odd == 10 + k || odd == 14) vf_same(K[10+k], P[k], Z[k], sizeof *P[k]); else along(K[10+k], *P[k], w[k]);
    EQ("regions of the same document are independent", s.paramTetra[n+1].A, v[0]);
    if (withDefault) { EQ("regions of the same document are independent", s.paramTetra[n+1].Ms, z.Ms); EQ("regions of the same document are independent", s.paramTetra[n+1].K, z.K); vf_same("regions of the same document are independent", &s.paramTetra[n+1].uk, &z.uk, sizeof z.uk); }
    }
VC(surface_regions)
    {
    DEFAULTS(false);
    Settings s;
    s.paramTriangle.clear(); s.paramTriangle.push_back(anyTri("__default__")); s.paramTriangle[0].uk = Eigen::Vector3d(vf_real("duk"), 0, 0);
    s.paramTriangle[0].uP = Eigen::Vector3d(0, 0, 1); s.paramTriangle[0].jn = vf_real("djn"); s.paramTriangle[0].V = NAN;
    const bool hKs = vf_bool("Ks"), hsup = vf_bool("sup"), huk = vf_bool("uk"), huP = vf_bool("uP"), hs = vf_bool("s");
    const int bc = vf_int("bc", 0, 2);
    const double Ks = vf_real("Ksv"), b = vf_real("bcv"); double uk[3], uP[3], sv[3];
    nonzero("uk", uk); nonzero("uP", uP); for (double &x : sv) x = vf_real("s");
    std::string d = "mesh:\n  surface_regions:\n    top:\n      unused:\n";
    if (hsup) d += "      suppress_charges: true\n";
    if (hKs) d += "      Ks: " + num(Ks) + "\n";
    if (huk) vec(d, "uk", uk);
    if (huP) vec(d, "uP", uP);
    if (hs) vec(d, "s", sv);
    if (bc == 1) d += "      jn: " + num(b) + "\n      V:\n";
    if (bc == 2) d += "      V: " + num(b) + "\n";
    d += "    bottom:\n";
    const Triangle::prm z = s.paramTriangle[0];
    s.read(YAML::Load(d));
    ENSURES("one more region for each name", s.paramTriangle.size() == 3 && s.paramTriangle[1].regName == "top" && s.paramTriangle[2].regName == "bottom" && s.findRegionIdx<Triangle::prm>("top") == 1);
    const Triangle::prm &p = s.paramTriangle[1], &q = s.paramTriangle[2];
    ENSURES("suppress_charges", p.suppress_charges == hsup && !q.suppress_charges);
    EQ("Ks", p.Ks, hKs ? Ks : z.Ks); EQ("Ks", q.Ks, z.Ks);
    if (huk) along("uk", p.uk, uk); else vf_same("uk", &p.uk, &z.uk, sizeof z.uk);
    if (huP) along("uP", p.uP, uP); else ENSURES("no polarization unless given", std::isnan(p.uP[0]) && std::isnan(p.uP[1]) && std::isnan(p.uP[2]));
    for (int k = 0; k < 3; k++) if (hs) EQ("s", p.s[k], sv[k]); else ENSURES("no spin accumulation unless given", std::isnan(p.s[k]));
    if (bc == 1) EQ("jn", p.jn, b); else ENSURES("no current unless given", std::isnan(p.jn));
    if (bc == 2) EQ("V", p.V, b); else ENSURES("no potential unless given", std::isnan(p.V));
    ENSURES("no boundary condition unless given", std::isnan(q.jn) && std::isnan(q.V) && std::isnan(q.uP[0]) && std::isnan(q.s[0]));
    }
VC(refusals)
    {
    DEFAULTS(false);
    Settings s; anyPrior(s);
    s.paramTetra.clear(); s.paramTetra.push_back(anyTet("__default__")); s.paramTriangle.clear(); s.paramTriangle.push_back(anyTri("__default__"));
    static const char *const D[] = {
        "outputs: 3\n", "outputs: [1, 2]\n", "outputs:\n  mag_config_every: true\n", "outputs:\n  evol_columns: t\n", "outputs:\n  metadata: [a]\n",
        "mesh: name.msh\n", "mesh:\n  length_unit: 0\n", "mesh:\n  length_unit: -1e-9\n", "mesh:\n  volume_regions: [a]\n", "mesh:\n  surface_regions: a\n",
        "mesh:\n  volume_regions:\n    a:\n      Ms: 1e5\n      Js: 1\n", "mesh:\n  volume_regions:\n    a:\n      uk: [1, 0]\n", "mesh:\n  volume_regions:\n    a:\n      ex: 1\n", "mesh:\n  volume_regions:\n    a:\n      ez: [1, 0, 0, 0]\n",
        "mesh:\n  surface_regions:\n    a:\n      jn: 1\n      V: 0\n", "mesh:\n  surface_regions:\n    a:\n      s: [1, 2]\n", "mesh:\n  surface_regions:\n    a:\n      uP: x\n",
        "initial_magnetization: [1, 0]\n", "initial_magnetization: [\"x\", \"y\", \"z\", \"0\"]\n", "initial_magnetization:\n  a: 1\n",
        "recentering:\n  direction: W\n", "recentering:\n  direction: x\n", "recentering:\n  direction: XY\n",
        "Bext: [0, 1]\n", "Bext:\n  space: \"function (x,y,z) { return [1,0,0]; }\"\n", "Bext:\n  time: f\n",
        // accepted
        "outputs:\n  mag_config_every: false\n", "mesh:\n  volume_regions:\n    a:\n      uk: [1, 0, 0]\n      Js: 1\n", "mesh:\n  surface_regions:\n    a:\n      V: 0\n      uP: [0, 2, 0]\n", "recentering:\n  direction: Y\n", "initial_magnetization: [1, 0, 0]\n", "outputs:\n", "mesh:\n  length_unit: 1e-9\n"};
    const int bad = 26, n = int(sizeof D/sizeof *D), k = vf_int("document", 0, n - 1);
    vf_exit_begin("a configuration that makes no sense is refused, no other", k < bad);
    s.read(YAML::Load(std::string(D[k])));
    vf_exit_end();
    ENSURES("a configuration that makes no sense is refused", k >= bad);
    }
VC(expressions)         // two documents, one after the other: the last one that says something counts
    {
    DEFAULTS(false);
    Settings s; s.restoreFileName.clear(); s.sM.clear(); s.sMx = s.sMy = s.sMz = ""; s.sB.clear();
    const int a = vf_int("first", 0, 3), b = vf_int("second", 0, 4);
    static const char *const M[5] = {"initial_magnetization: [\"x\", \"y*2\", \"z\"]\n", "initial_magnetization: \"function(x,y,z) { return [1,0,0]; }\"\n", "initial_magnetization: old.sol\n",
                                     "initial_magnetization: |\n  function(x,y,z,r) {\n    return [0,1,0];\n  }\n", "initial_magnetization:\n"};
    static const char *const B[5] = {"Bext: [\"t\", \"0\", \"1\"]\n", "Bext: \"function(t) { return [t,0,0]; }\"\n", "Bext:\n  space: \"function(x,y,z) { return [x,0,0]; }\"\n  time: \"function(t) { return t; }\"\n", "Bext: |\n  function(t) {\n    return [0,t,0];\n  }\n", "Bext:\n"};
    static const char *const GM[4] = {"(x,y,z)x;y*2;z", "function(x,y,z) { return [1,0,0]; }", "", "function(x,y,z,r) {\n  return [0,1,0];\n}\n"};
    static const char *const GB[4] = {"(t)t;0;1", "function(t) { return [t,0,0]; }", "", "function(t) {\n  return [0,t,0];\n}\n"};
    s.read(YAML::Load(std::string(M[a]) + B[a]));
    s.read(YAML::Load(std::string(M[b]) + B[b]));
    const int c = b == 4 ? a : b;
    ENSURES("the state is restored from a file exactly if the last word is a file name", s.restoreFileName == (c == 2 ? "old.sol" : ""));
    if (c != 2) ENSURES("the initial magnetization is the last function or expressions given", given(&s.mag_parser) == GM[c]);
    ENSURES("the kind of field is the last one given", s.getFieldType() == (c == 2 ? R4toR3 : RtoR3));
    if (c != 2) ENSURES("the field is the last function or expressions given", given(&s.field_parser) == GB[c]);
    else ENSURES("the field is the last function or expressions given", given(&s.field_space_parser) == "function(x,y,z) { return [x,0,0]; }" && given(&s.field_time_parser) == "function(t) { return t; }");
    }
VC(base_name)
    {
    DEFAULTS(false);
    Settings s; anyPrior(s); s.simName.clear();
    static const char *const F[6][2] = {{"m.msh", "m"}, {"a/b.c/m.x.msh", "m.x"}, {"/m", "m"}, {"../m.msh", "m"}, {"d.d/m", "m"}, {"m", "m"}};
    const int k = vf_int("file", 0, 5); const bool named = vf_bool("named");
    s.read(YAML::Load(std::string("mesh:\n  filename: ") + F[k][0] + (named ? "\noutputs:\n  file_basename: other\n" : "\n")));
    ENSURES("the base name of the outputs is that of the mesh file unless given", s.getSimName() == (named ? "other" : F[k][1]));
    ENSURES("the mesh file", s.getPbName() == F[k][0]);
    }
namespace {
std::string echo(Settings &s)
    {
#ifdef VF_NATIVE
    std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf());
    s.toYaml();
    std::cout.rdbuf(b);
    return o.str();
#else
    std::cout.own = std::cout.open_ = true; std::cout.buf.clear(); std::cout.prec = 6;
    s.toYaml();
    return std::cout.buf;
#endif
    }
void sameVec(const char *n, const Eigen::Vector3d &a, const Eigen::Vector3d &b) { for (int k = 0; k < 3; k++) ENSURES(n, near(a[k], b[k])); }
void unitOf(const char *n, const Eigen::Vector3d &a, const Eigen::Vector3d &b)     // b has norm 1
    {
#ifdef VF_NATIVE
    for (int k = 0; k < 3; k++) ENSURES(n, std::fabs(a[k] - b[k]) < 1e-5);
#else
    for (int k = 0; k < 3; k++) EQ(n, a[k], b[k]);
#endif
    }
}
VC(round_trip)              // what --verify prints is the configuration, to the digits printed
    {
    DEFAULTS(false);
    const int kind = vf_int("kind", 0, 8);
    Settings s; anyPrior(s);
    s.paramTetra.clear(); s.paramTriangle.clear(); s.restoreFileName.clear(); s.sM.clear(); s.sB.clear();
    s.paramTetra.push_back(anyTet("__default__")); s.paramTriangle.push_back(anyTri("__default__"));
    Settings t; anyPrior(t); t.userMetadata.clear(); t.restoreFileName.clear(); t.sM.clear(); t.sB.clear(); t.paramTetra = s.paramTetra; t.paramTriangle = s.paramTriangle; t.initial_time = NAN;
    s.paramTetra.push_back(anyTet("a")); s.paramTetra.push_back(anyTet("b"));
    s.paramTriangle.push_back(anyTri("top")); s.paramTriangle.push_back(anyTri("side"));
    for (int r = 1; r < 3; r++) REQUIRES((s.paramTetra[r].K != 0) & (s.paramTetra[r].K3 != 0) & (s.paramTriangle[r].Ks != 0));
    if (kind%2) { s.paramTetra[1].K = 0; s.paramTetra[2].K3 = 0; s.paramTriangle[1].Ks = 0; s.initial_time = NAN; }
    for (int r = 1; r < 3; r++) { double w[3]; vf_unit("uk", w); s.paramTetra[r].uk = Eigen::Vector3d(w[0], w[1], w[2]); vf_unit("ex", w); s.paramTetra[r].ex = Eigen::Vector3d(w[0], w[1], w[2]); vf_unit("tuk", w); s.paramTriangle[r].uk = Eigen::Vector3d(w[0], w[1], w[2]); }
    s.paramTriangle[1].suppress_charges = true;
    const int bc = vf_int("bc", 0, 3);
    s.spin_acc = bc >= 1; s.V_file = bc >= 2;
    if (bc == 1) s.paramTriangle[1].jn = vf_real("jn");
    if (bc == 2) s.paramTriangle[2].V = vf_real("V");
    if (bc == 3) { double w[3]; vf_unit("uP", w); s.paramTriangle[2].uP = Eigen::Vector3d(w[0], w[1], w[2]); anyVec("s", s.paramTriangle[1].s); s.paramTriangle[2].jn = vf_real("jn"); }
    s.recenter = kind >= 4; s.recentering_direction = Nodes::index(kind%3);
    s.r_path_output_dir = kind == 1 ? "." : "out/dir"; s.evol_columns = {"iter", "<Mx>", "a:<dMz/dt>", "E_tot"}; if (kind == 2) s.evol_columns = {"t"}; if (kind == 5) s.evol_columns.clear();
    s.save_period = kind == 3 ? 0 : 25;
    s.userMetadata.clear();
    if (kind >= 1) s.userMetadata.push_back({"Author", "A \"B\" C"});
    if (kind >= 2) s.userMetadata.push_back({"Note", "two\nlines\n"});
    if (kind == 3) s.userMetadata.push_back({"Empty", ""});
    s.sMx = "x"; s.sMy = kind == 4 ? "x > 0 ? \"1\".length : 0" : "y"; s.sMz = "-z"; s.sBx = "sin(t)"; s.sBy = "0"; s.sBz = kind == 5 ? "\"a\".length" : "1";
    std::string mag = "(x,y,z)" + s.sMx + ";" + s.sMy + ";" + s.sMz, field = "(t)" + s.sBx + ";" + s.sBy + ";" + s.sBz;
    s.field_type = RtoR3;
    if (kind == 6) mag = s.sM = "function(x,y,z) {\n  if (x == \"a\") { }\n\n  return [0,0,1];\n}\n";
    if (kind == 7) { mag = s.sM = "function(x,y,z) { return [\"abc\".length,0,1]; }"; field = s.sB = "function(t) {\n  return [0,0,t];\n}\n"; }
    if (kind == 8) { s.restoreFileName = "dir/old.sol"; s.field_type = R4toR3; s.sB_space = "function(x,y,z) {\n  return [x,y,z];\n}\n"; s.sB_time = "function(t) { return 2*t; }"; }
    const std::string y = echo(s);
    t.read(YAML::Load(y));
    ENSURES("output directory", t.r_path_output_dir == s.r_path_output_dir);
    ENSURES("base name", t.getSimName() == s.getSimName());
    ENSURES("mesh file", t.getPbName() == s.getPbName());
    ENSURES("output interval", near(t.time_step, s.time_step)); ENSURES("final time", near(t.tf, s.tf));
    ENSURES("columns", t.evol_columns == s.evol_columns);
    ENSURES("period of the solution files", t.save_period == s.save_period);
    ENSURES("metadata", t.userMetadata == s.userMetadata);
    ENSURES("length unit", near(t._scale, s._scale));
    ENSURES("initial time", near(t.initial_time, s.initial_time));
    ENSURES("recentering", t.recenter == s.recenter && (!s.recenter || t.recentering_direction == s.recentering_direction));
    if (s.recenter) ENSURES("recentering threshold", near(t.threshold, s.threshold));
    ENSURES("spin accumulation", t.spin_acc == s.spin_acc && (!s.spin_acc || t.V_file == s.V_file));
    ENSURES("threads", t.scalfmmNbTh == s.scalfmmNbTh); ENSURES("max(iter)", t.MAXITER == s.MAXITER); ENSURES("tolerance", near(t.TOL, s.TOL));
    ENSURES("max(du)", near(t.DUMAX, s.DUMAX)); ENSURES("min(dt)", near(t.dt_min, s.dt_min)); ENSURES("max(dt)", near(t.dt_max, s.dt_max));
    ENSURES("as many regions", t.paramTetra.size() == 3 && t.paramTriangle.size() == 3);
    for (int r = 1; r < 3; r++)
        {
        const Tetra::prm &p = s.paramTetra[r], &q = t.paramTetra[r];
        ENSURES("volume region name", p.regName == q.regName);
        ENSURES("Ae", near(q.A, p.A)); ENSURES("Ms", near(q.Ms, p.Ms)); ENSURES("K", near(q.K, p.K)); ENSURES("K3", near(q.K3, p.K3)); ENSURES("alpha_LLG", near(q.alpha_LLG, p.alpha_LLG)); ENSURES("sigma", near(q.sigma, p.sigma));
        ENSURES("dens_state", near(q.N0, p.N0)); ENSURES("P", near(q.P, p.P)); ENSURES("l_sd", near(q.lsd, p.lsd)); ENSURES("l_sf", near(q.lsf, p.lsf));
        if (!(kind%2 && r == 1)) unitOf("uk", q.uk, p.uk);
        if (!(kind%2 && r == 2)) { unitOf("ex", q.ex, p.ex); unitOf("ey", q.ey, p.ey); unitOf("ez", q.ez, p.ez); }
        const Triangle::prm &f = s.paramTriangle[r], &g = t.paramTriangle[r];
        ENSURES("surface region name", f.regName == g.regName);
        ENSURES("suppress_charges", f.suppress_charges == g.suppress_charges);
        ENSURES("Ks", near(f.Ks, g.Ks));
        if (!(kind%2 && r == 1)) unitOf("surface uk", g.uk, f.uk);
        ENSURES("jn", near(f.jn, g.jn)); ENSURES("V", near(f.V, g.V));
        if (s.spin_acc) { if (bc == 3 && r == 2) unitOf("uP", g.uP, f.uP); else sameVec("uP", g.uP, f.uP); sameVec("s", g.s, f.s); }
        }
    ENSURES("file to restore", t.restoreFileName == s.restoreFileName);
    if (kind != 8) ENSURES("initial magnetization", given(&t.mag_parser) == mag);
    ENSURES("kind of field", t.field_type == s.field_type);
    if (kind != 8) ENSURES("field", given(&t.field_parser) == field);
    else ENSURES("field", given(&t.field_space_parser) == s.sB_space && given(&t.field_time_parser) == s.sB_time);
    }
VC(metadata)                // headers of the output files
    {
    DEFAULTS(false);
    CONTRACT("^_Z4date", vfstub_date);
    Settings s; anyPrior(s); s.userMetadata.clear(); s.setFileDisplayName("conf.yml");
    const int nm = vf_int("items", 0, 3), nc = vf_int("columns", 0, 3);
    static const char *const V[3][2] = {{"me", "me"}, {"two\nlines\n", "two\n##  lines"}, {"", ""}};
    static const char *const C[3] = {"t", "<Mx>", "a:E_ex"};
    std::string items, cols;
    for (int i = 0; i < nm; i++) { s.userMetadata.push_back({std::string(1, char('A' + i)), V[i][0]}); items += std::string("## ") + char('A' + i) + ": " + V[i][1] + "\n"; }
    s.evol_columns.clear();
    for (int i = 0; i < nc; i++) { s.evol_columns.push_back(C[i]); if (i) cols += '\t'; cols += C[i]; }
    s.spin_acc = vf_bool("spin");
    const double t = vf_real("t");
    const std::string e = s.evolMetadata(), m = s.solMetadata(t);
    auto ends = [](const std::string &a, const std::string &b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; };
    ENSURES("the header of the table ends with the names of the columns, after the metadata of the user", ends(e, items + "## columns: " + cols + "\n"));
    const std::string tail = s.spin_acc ? "## columns: idx\tmx\tmy\tmz\tphi\tsx\tsy\tsz\n" : "## columns: idx\tmx\tmy\tmz\tphi\n";
    ENSURES("the header of a solution file ends with the names of the columns", ends(m, tail));
    const size_t p = m.rfind("## time: ");
    ENSURES("the header of a solution file has the time, after the metadata of the user", p != m.npos && ends(m.substr(0, p), items));
    const std::string w = m.substr(p + 9, m.find('\n', p) - p - 9);
    ENSURES("the time of a solution file", near(value(w), t) && ends(m, "## time: " + w + "\n" + tail));
    bool sharp = true;
    for (const std::string *h : {&e, &m}) for (size_t i = 0; i < h->size(); i++) if (i == 0 || (*h)[i-1] == '\n') if ((*h)[i] != '#' || (*h)[i+1] != '#') sharp = false;
    ENSURES("every line of a header starts with ##", sharp);
    ENSURES("the settings file is named", e.find("## settings file: conf.yml\n") != e.npos && m.find("## settings file: conf.yml\n") != m.npos);
    }
