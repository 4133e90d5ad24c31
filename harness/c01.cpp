// C01: contract of Nodes::Node::setBasis
#include "vf.h"
#include "node.h"
#include <cstring>
using namespace Nodes;

static void anyData(dataNode &d, const char *u, bool unit)
    {
    if (unit) vf_unit(u, d.u.data());
    else for (int i = 0; i < 3; i++) d.u[i] = vf_real("w");
    for (int i = 0; i < 3; i++) d.v[i] = vf_real("v");
    d.phi = vf_real("phi");
    d.phiv = vf_real("phiv");
    }

VC(setBasis)
    {
    Node n;
    for (int i = 0; i < 3; i++) { n.p[i] = vf_real("p"); n.ep[i] = vf_real("ep0"); n.eq[i] = vf_real("eq0"); }
    anyData(n.d[CURRENT], "u", true);
    anyData(n.d[NEXT], "un", false);
    const Node old = n;
    const double r = vf_range("angle", 0.0, 6.2831853071795864769);

    n.setBasis(r);

    const Eigen::Vector3d &u = old.d[CURRENT].u;
    double pp = 0, qq = 0, pq = 0, pu = 0, qu = 0;
    for (int i = 0; i < 3; i++)
        {
        pp += n.ep[i]*n.ep[i]; qq += n.eq[i]*n.eq[i]; pq += n.ep[i]*n.eq[i];
        pu += n.ep[i]*u[i]; qu += n.eq[i]*u[i];
        }
    EQ("ep is a unit vector", pp, 1.0);
    EQ("eq is a unit vector", qq, 1.0);
    EQ("ep orthogonal to eq", pq, 0.0);
    EQ("ep orthogonal to u", pu, 0.0);
    EQ("eq orthogonal to u", qu, 0.0);
    EQ("eq = u x ep (x)", n.eq[0], u[1]*n.ep[2] - u[2]*n.ep[1]);
    EQ("eq = u x ep (y)", n.eq[1], u[2]*n.ep[0] - u[0]*n.ep[2]);
    EQ("eq = u x ep (z)", n.eq[2], u[0]*n.ep[1] - u[1]*n.ep[0]);
    vf_same("frame: position unchanged", &n.p, &old.p, sizeof n.p);
    vf_same("frame: node data unchanged", &n.d, &old.d, sizeof n.d);
    vf_cover("setBasis");
    }
