// mesh-level harness support.  Settings and mesh are the real classes; only their inputs are supplied here:
// the Settings constructor (YAML) and mesh::readMesh (gmsh) are replaced by data chosen by the harness, the
// JavaScript evaluator by an arbitrary function.
#ifndef MS_H
#define MS_H
#include "fe.h"
#include <functional>
#include <string>
#include "mesh.h"
static void (*ms_fill)(Mesh::mesh &) = nullptr;         // what the mesh file contains
#ifndef MS_REAL_SETTINGS
Settings::Settings() : recentering_direction(Nodes::IDX_Z)
    {
    withTsv = true; verbose = 0; time_step = 1e-10; save_period = 0; recenter = false; threshold = 0.1; scalfmmNbTh = 1; V_file = false; spin_acc = false;
    DUMAX = 0.1; TOL = 1e-6; MAXITER = 500; tf = 1e-9; dt_min = 1e-14; dt_max = 1e-11; precision = 7; _scale = 1; field_type = RtoR3;
    }
#endif
#ifndef MS_REAL_PARSER
ExpressionParser::ExpressionParser() : ctx(nullptr) {}
ExpressionParser::~ExpressionParser() {}
double ExpressionParser::get_scalar(double t) const { return vf_uf("js_scalar", 1, &t); }
Eigen::Vector3d ExpressionParser::get_vector(double t) const
    { return Eigen::Vector3d(vf_uf("js_x", 1, &t), vf_uf("js_y", 1, &t), vf_uf("js_z", 1, &t)); }
Eigen::Vector3d ExpressionParser::get_vector(const Eigen::Ref<const Eigen::Vector3d> p) const
    { const double a[3] = {p[0], p[1], p[2]}; return Eigen::Vector3d(vf_uf("js_x", 3, a), vf_uf("js_y", 3, a), vf_uf("js_z", 3, a)); }
Eigen::Vector3d ExpressionParser::get_vector(const Eigen::Ref<const Eigen::Vector3d> p, const std::vector<std::string> &r) const
    { const double a[4] = {p[0], p[1], p[2], double(r.size())}; return Eigen::Vector3d(vf_uf("js_x", 4, a), vf_uf("js_y", 4, a), vf_uf("js_z", 4, a)); }
extern "C" duk_size_t duk_get_length(duk_context *, duk_idx_t) { return 3; }
#endif
#ifndef MS_REAL_READ
void Mesh::mesh::readMesh() { if (ms_fill) ms_fill(*this); for (size_t i = 0; i < tet.size(); i++) tet[i].idx = i; }
#endif
inline Tetra::prm ms_tetPrm(const char *name, double Ms)
    {
    Tetra::prm p; p.regName = name; p.alpha_LLG = 0.5; p.A = 1e-11; p.Ms = Ms; p.K = 0; p.K3 = 0; p.P = 0; p.N0 = 0; p.sigma = 1; p.lsd = 1; p.lsf = 1; p.volume = 0;
    p.uk = Eigen::Vector3d(0,0,1); p.ex = Eigen::Vector3d(1,0,0); p.ey = Eigen::Vector3d(0,1,0); p.ez = Eigen::Vector3d(0,0,1);
    return p;
    }
inline Triangle::prm ms_triPrm(const char *name)
    {
    Triangle::prm p; p.regName = name; p.suppress_charges = false; p.Ks = 0; p.uk = Eigen::Vector3d(0,0,1); p.V = NAN; p.jn = NAN; p.s = Eigen::Vector3d(NAN,NAN,NAN); p.uP = Eigen::Vector3d(NAN,NAN,NAN);
    return p;
    }
#endif
