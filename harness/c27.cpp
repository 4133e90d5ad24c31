// C27: the user's expressions and the initial state
#define MS_REAL_PARSER
#include "dk.h"
#include "fem_support.h"
#include "expression_parser.cpp"
namespace {
void anyArgs(double *a) { for (int k = 0; k < 3; k++) a[k] = vf_real("arg"); }
long setOf(const std::vector<std::string> &r) { long s = 0; for (auto &n : r) s += dk::ident(n); return s; }
}
// any sequence of evaluations: each result is the user's function at the arguments of that evaluation
VC(evaluation)
    {
    dk::length = 3; dk::scalar = false; dk::misbehave = 0; dk::misuse = false;
    ExpressionParser p; p.set_expressions("x,y,z", "1", "2", "3");
    for (int step = 0; step < 3; step++)
        {
        const int what = vf_int("what", 0, 3);
        double a[5]; Eigen::Vector3d v; int n = 1;
        anyArgs(a);
        dk::scalar = what == 0;
        dk::calls = 0;
        if (what == 0) { const double s = p.get_scalar(a[0]); EQ("scalar function at its argument", s, dk::f(3, 1, a)); }
        if (what == 1) v = p.get_vector(a[0]);
        if (what == 2) { v = p.get_vector(Eigen::Vector3d(a[0], a[1], a[2])); n = 3; }
        if (what == 3)
            {
            std::vector<std::string> r; const int nr = vf_int("regions", 0, 2);
            if (nr > 0) r.push_back("core");
            if (nr > 1) r.push_back("shell");
            v = p.get_vector(Eigen::Vector3d(a[0], a[1], a[2]), r);
            a[3] = double(setOf(r)); a[4] = double(nr); n = 5;
            }
        if (what != 0) for (int k = 0; k < 3; k++) EQ("vector function at its arguments, components in order", v[k], dk::f(k, n, a));
        ENSURES("the interpreter is used within its rules", !dk::misuse);
        ENSURES("the function stays ready for the next evaluation", p.parameter_count() == 3 && !dk::misuse);
        }
    }
VC(script_errors)
    {
    dk::length = 3; dk::scalar = false; dk::misuse = false; dk::misbehave = 0;
    const int mis = vf_int("misbehave", 0, 3), what = vf_int("what", 0, 3);
    double a[3]; anyArgs(a);
    ExpressionParser p;
    if (mis == 3) dk::misbehave = 3;
    vf_exit_begin("a script that fails or does not return three components ends the program, no other", mis == 1 || mis == 3 || (mis == 2 && what != 0));
    p.set_function("function");
    dk::scalar = what == 0; dk::misbehave = mis;
    if (what == 0) p.get_scalar(a[0]);
    if (what == 1) p.get_vector(a[0]);
    if (what == 2) p.get_vector(Eigen::Vector3d(a[0], a[1], a[2]));
    if (what == 3) p.get_vector(Eigen::Vector3d(a[0], a[1], a[2]), std::vector<std::string>(1, "core"));
    vf_exit_end();
    dk::misbehave = 0;
    ENSURES("the program goes on only with a value", mis == 0 || (mis == 2 && what == 0));
    }
VC(fields)
    {
    dk::length = 1; dk::scalar = false; dk::misbehave = 0; dk::misuse = false;
    Settings s;
    s.field_parser.set_function("f"); s.field_space_parser.set_function("f"); s.field_time_parser.set_function("f"); s.mag_parser.set_function("f");
    double a[3]; anyArgs(a);
    s.field_type = vf_bool("space") ? R4toR3 : RtoR3;
    if (s.getFieldType() == RtoR3)
        {
        const Eigen::Vector3d h = s.getField(a[0]);
        for (int k = 0; k < 3; k++) EQ("the applied field is the user's induction at this time over mu0", h[k]*MU0, dk::f(k, 1, a));
        }
    else
        {
        const Eigen::Vector3d h = s.getField(a[0]);
        ENSURES("a field of space and time is not a function of time", std::isnan(h[0]) && std::isnan(h[1]) && std::isnan(h[2]));
        const Eigen::Vector3d q = s.getFieldSpace(Eigen::Vector3d(a[0], a[1], a[2]));
        const double t = vf_real("t");
        dk::scalar = true;
        const double c = s.getFieldTime(t);
        for (int k = 0; k < 3; k++) EQ("the applied field is the user's induction at this position and time over mu0", q[k]*c*MU0, dk::f(k, 3, a)*dk::f(3, 1, &t));
        }
    double b[5]; anyArgs(b);
    dk::scalar = false;
    std::vector<std::string> r; if (vf_bool("two")) r = {"core", "shell"}; else r = {"core"};
    const bool withRegions = vf_bool("regions");
    b[3] = double(setOf(r)); b[4] = double(r.size());
    double f[3], n2 = 0; for (int k = 0; k < 3; k++) { f[k] = dk::f(k, withRegions ? 5 : 3, b); n2 += f[k]*f[k]; }
    REQUIRES(n2 > 0);
    const Eigen::Vector3d x(b[0], b[1], b[2]);
    const Eigen::Vector3d m = withRegions ? s.getMagnetization(x, r) : s.getMagnetization(x);
    for (int k = 0; k < 3; k++) EQ("the initial magnetization is the user's vector, normalised", m[k]*sqrt(n2), f[k]);
    }
VC(initial_state)
    {
    dk::scalar = false; dk::misbehave = 0; dk::misuse = false;
    dk::length = vf_bool("regions") ? 4 : 3;
    Settings s; bed::settings(s, vf_int("layout", 0, 5), false, false);
    s.mag_parser.set_function("f");
    Mesh::mesh m(s, true);
    // derived tables, as C16 specifies them
    m.magNode.resize(bed::NM);
    for (int i = 0; i < bed::NM; i++) m.magNode[i] = false;
    for (int t = 0; t < 3; t++) { m.volumeRegions[bed::reg[t]].push_back(t); if (s.paramTetra[bed::reg[t]].Ms > 0) for (int i = 0; i < 4; i++) m.magNode[m.tet[t].ind[i]] = true; }
    for (auto &n : m.node)
        {
        for (int k = 0; k < 3; k++) n.p[k] = vf_real("p");
        for (int k = 0; k < 2; k++) { anyVec("u", n.d[k].u); anyVec("v", n.d[k].v); n.d[k].phi = vf_real("phi"); n.d[k].phiv = vf_real("phiv"); }
        }
    double f[bed::NM][3], n2[bed::NM];
    for (int i = 0; i < bed::NM; i++)
        {
        double a[5] = {m.node[i].p[0], m.node[i].p[1], m.node[i].p[2], 0, 0};
        for (int r = 1; r < 4; r++)
            {
            bool in = false;
            for (int t = 0; t < 3; t++) if (bed::reg[t] == r) for (int k = 0; k < 4; k++) if (m.tet[t].ind[k] == i) in = true;
            if (in) { a[3] += double(dk::ident(s.paramTetra[r].regName)); a[4] += 1; }
            }
        n2[i] = 0;
        for (int k = 0; k < 3; k++) { f[i][k] = dk::f(k, dk::length == 4 ? 5 : 3, a); n2[i] += f[i][k]*f[i][k]; }
        if (m.magNode[i]) REQUIRES(n2[i] > 0);
        }
    const std::vector<Node> N = m.node;
    m.init_distrib();
    ENSURES("the interpreter is used within its rules", !dk::misuse);
    for (int i = 0; i < bed::NM; i++)
        {
        for (int st = 0; st < 2; st++)
            for (int k = 0; k < 3; k++)
                if (m.magNode[i]) EQ("magnetic node: unit vector along the user's expression at its position and regions", m.node[i].d[st].u[k]*sqrt(n2[i]), f[i][k]);
                else ENSURES("other nodes have no magnetization", std::isnan(m.node[i].d[st].u[k]));
        EQ("potentials start at zero", m.node[i].d[NEXT].phi, 0.0);
        EQ("potentials start at zero", m.node[i].d[NEXT].phiv, 0.0);
        vf_same("positions do not change", &m.node[i].p, &N[i].p, sizeof(N[i].p));
        }
    }
