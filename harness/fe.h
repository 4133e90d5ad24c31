// shared pieces of the element harnesses: arbitrary nodes, tetrahedra, triangles, parameters
#ifndef FE_H
#define FE_H
#include "vf.h"
#include <vector>
#include <cmath>
#include "tetra.h"
#include "triangle.h"
using namespace Nodes;
typedef Eigen::Matrix<double,3,Tetra::NPI> MatT;
typedef Eigen::Matrix<double,Tetra::NPI,1> VecT;
typedef Eigen::Matrix<double,3,Triangle::NPI> MatF;
typedef Eigen::Matrix<double,Triangle::NPI,1> VecF;

// physical constants, stated independently of the code (CODATA 2022)
static const double MU0 = 1.25663706127e-6;
static const double GAMMA0 = 1.76085962784e11 * 1.25663706127e-6;

// reference quadrature data, stated independently of the code
#if ONE_GAUSS_POINT
static const double TA[4][1] = {{0.25},{0.25},{0.25},{0.25}};
static const double TW[1] = {1.0/6.0};
static const double FA[3][1] = {{1.0/3.0},{1.0/3.0},{1.0/3.0}};
static const double FW[1] = {0.5};
#else
static const double TA[4][5] = {{0.25,0.5,1.0/6.0,1.0/6.0,1.0/6.0},{0.25,1.0/6.0,1.0/6.0,1.0/6.0,0.5},{0.25,1.0/6.0,1.0/6.0,0.5,1.0/6.0},{0.25,1.0/6.0,0.5,1.0/6.0,1.0/6.0}};
static const double TW[5] = {-2.0/15.0, 3.0/40.0, 3.0/40.0, 3.0/40.0, 3.0/40.0};
static const double FA[3][4] = {{1.0/3.0,0.6,0.2,0.2},{1.0/3.0,0.2,0.6,0.2},{1.0/3.0,0.2,0.2,0.6}};
static const double FW[4] = {-27.0/96.0, 25.0/96.0, 25.0/96.0, 25.0/96.0};
#endif

inline void anyVec(const char *n, Eigen::Vector3d &v) { for (int i = 0; i < 3; i++) v[i] = vf_real(n); }
inline void unitVec(const char *n, Eigen::Vector3d &v) { vf_unit(n, v.data()); }

// a node with arbitrary contents; magnetisations need not be unit where the contract does not ask for it
inline void anyNode(Node &n)
    {
    anyVec("p", n.p); anyVec("ep", n.ep); anyVec("eq", n.eq);
    for (int k = 0; k < 2; k++)
        { anyVec("u", n.d[k].u); anyVec("v", n.d[k].v); n.d[k].phi = vf_real("phi"); n.d[k].phiv = vf_real("phiv"); }
    }
inline void zeroNode(Node &n)
    {
    n.p.setZero(); n.ep.setZero(); n.eq.setZero();
    for (int k = 0; k < 2; k++) { n.d[k].u.setZero(); n.d[k].v.setZero(); n.d[k].phi = 0; n.d[k].phiv = 0; }
    }
// n nodes at fixed valid positions (reference tetrahedron first)
inline void refNodes(std::vector<Node> &v, int n)
    {
    v.resize(n);
    static const double P[8][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,1,1},{-1,0.5,0.25},{0.5,-1,0.25},{0.25,0.5,-1}};
    for (int i = 0; i < n; i++) { zeroNode(v[i]); for (int k = 0; k < 3; k++) v[i].p[k] = P[i][k]; }
    }
inline void anyFields(std::vector<Node> &v)
    {
    for (size_t i = 0; i < v.size(); i++)
        {
        Node &n = v[i];
        anyVec("ep", n.ep); anyVec("eq", n.eq);
        for (int k = 0; k < 2; k++)
            { anyVec("u", n.d[k].u); anyVec("v", n.d[k].v); n.d[k].phi = vf_real("phi"); n.d[k].phiv = vf_real("phiv"); }
        }
    }
// arbitrary geometry tables (the contract of the constructor is C03)
inline void anyGeom(Tetra::Tet &t)
    {
    for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) t.da(i,k) = vf_real("da");
    for (int j = 0; j < Tetra::NPI; j++) t.weight[j] = vf_real("wt");
    }
inline void anyGeom(Triangle::Tri &t)
    {
    unitVec("n", t.n);
    t.surf = vf_pos("surf");
    for (int j = 0; j < Triangle::NPI; j++) t.weight[j] = vf_real("wt");
    }
inline void anyParam(Tetra::prm &p)
    {
    p.alpha_LLG = vf_pos("alpha"); p.A = vf_pos("A"); p.Ms = vf_pos("Ms"); p.K = vf_real("K"); p.K3 = vf_real("K3");
    unitVec("uk", p.uk); anyVec("ex", p.ex); anyVec("ey", p.ey); anyVec("ez", p.ez);
    p.P = vf_real("P"); p.N0 = vf_real("N0"); p.sigma = vf_real("sigma"); p.lsd = vf_real("lsd"); p.lsf = vf_real("lsf"); p.volume = 0;
    }
#endif
