// C02: contracts of Nodes::Node::make_evol, evolution, proj_ep, proj_eq and the node accessors
#include "vf.h"
#include "node.h"
using namespace Nodes;
static void anyData(dataNode &d)
    {
    for (int i = 0; i < 3; i++) { d.u[i] = vf_real("u"); d.v[i] = vf_real("v"); }
    d.phi = vf_real("phi"); d.phiv = vf_real("phiv");
    }
static void node(Node &n)
    {
    for (int i = 0; i < 3; i++) { n.p[i] = vf_real("p"); }
    anyData(n.d[CURRENT]); anyData(n.d[NEXT]);
    vf_unit("u0", n.d[CURRENT].u.data());
    // (ep,eq) as ensured by C01: ep = cos b1 + sin b2 is captured by orthonormality
    for (int i = 0; i < 3; i++) n.ep[i] = vf_real("ep");
    }
static double dot(const Eigen::Vector3d &a, const Eigen::Vector3d &b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }

// an orthonormal frame (u, ep, eq): all of them are rotations of the canonical one; parametrised by
// a unit quaternion, which covers every frame
static void frame(Node &n)
    {
    double q[4], c1[2], c2[2], c3[2];
    vf_unit2("qa", c1); vf_unit2("qb", c2); vf_unit2("qc", c3);
    q[0] = c1[0]*c2[0]; q[1] = c1[0]*c2[1]; q[2] = c1[1]*c3[0]; q[3] = c1[1]*c3[1];
    double w = q[0], x = q[1], y = q[2], z = q[3];
    n.d[CURRENT].u = Eigen::Vector3d(w*w+x*x-y*y-z*z, 2*(x*y+w*z), 2*(x*z-w*y));
    n.ep = Eigen::Vector3d(2*(x*y-w*z), w*w-x*x+y*y-z*z, 2*(y*z+w*x));
    n.eq = Eigen::Vector3d(2*(x*z+w*y), 2*(y*z-w*x), w*w-x*x-y*y+z*z);
    }

VC(make_evol)
    {
    Node n; node(n);
    for (int i = 0; i < 3; i++) n.eq[i] = vf_real("eq");
    const Node old = n;
    const double vp = vf_real("vp"), vq = vf_real("vq"), dt = vf_pos("dt");
    Eigen::Vector3d w;
    for (int i = 0; i < 3; i++) w[i] = old.d[CURRENT].u[i] + dt*(vp*old.ep[i] + vq*old.eq[i]);
    const double w2 = dot(w, w);
    REQUIRES(w2 > 0);
    vf_prefer(w2 > 1e-3);
    n.make_evol(vp, vq, dt);
    for (int i = 0; i < 3; i++)
        {
        EQ("velocity is vp ep + vq eq", n.d[NEXT].v[i], vp*old.ep[i] + vq*old.eq[i]);
        EQ("new magnetization is normalised u + dt v", n.d[NEXT].u[i], w[i]/sqrt(w2));
        }
    EQ("new magnetization has unit length", dot(n.d[NEXT].u, n.d[NEXT].u), 1.0);
    vf_same("frame: position and basis", &n.p, &old.p, sizeof(Eigen::Vector3d));
    vf_same("frame: ep", &n.ep, &old.ep, sizeof(Eigen::Vector3d));
    vf_same("frame: eq", &n.eq, &old.eq, sizeof(Eigen::Vector3d));
    vf_same("frame: current state", &n.d[CURRENT], &old.d[CURRENT], sizeof(dataNode));
    EQ("frame: phi", n.d[NEXT].phi, old.d[NEXT].phi);
    EQ("frame: phiv", n.d[NEXT].phiv, old.d[NEXT].phiv);
    vf_cover("make_evol");
    }

// with an orthonormal basis: length never vanishes, velocity tangent, projections return the components
VC(make_evol_tangent)
    {
    Node n; node(n);
    frame(n);
    const Node old = n;
    const double vp = vf_real("vp"), vq = vf_real("vq"), dt = vf_real("dt");
    n.make_evol(vp, vq, dt);
    EQ("velocity orthogonal to the old magnetization", dot(n.d[NEXT].v, old.d[CURRENT].u), 0.0);
    EQ("speed", dot(n.d[NEXT].v, n.d[NEXT].v), vp*vp + vq*vq);
    EQ("projection on ep", n.proj_ep(), vp);
    EQ("projection on eq", n.proj_eq(), vq);
    EQ("unit length without any side condition", dot(n.d[NEXT].u, n.d[NEXT].u), 1.0);
    vf_cover("tangent");
    }

VC(evolution)
    {
    Node n; node(n);
    for (int i = 0; i < 3; i++) n.eq[i] = vf_real("eq");
    const Node old = n;
    n.evolution();
    for (int i = 0; i < 3; i++)
        {
        EQ("current u = next u", n.d[CURRENT].u[i], old.d[NEXT].u[i]);
        EQ("current v = next v", n.d[CURRENT].v[i], old.d[NEXT].v[i]);
        }
    EQ("current phi = next phi", n.d[CURRENT].phi, old.d[NEXT].phi);
    EQ("current phiv = next phiv", n.d[CURRENT].phiv, old.d[NEXT].phiv);
    vf_same("frame: next state", &n.d[NEXT], &old.d[NEXT], sizeof(dataNode));
    vf_same("frame: p", &n.p, &old.p, sizeof n.p);
    vf_same("frame: ep", &n.ep, &old.ep, sizeof n.ep);
    vf_same("frame: eq", &n.eq, &old.eq, sizeof n.eq);
    }

VC(accessors)
    {
    Node n; node(n);
    for (int i = 0; i < 3; i++) n.eq[i] = vf_real("eq");
    const Node old = n;
    for (int k = 0; k < 2; k++)
        {
        step s = k ? NEXT : CURRENT;
        for (int i = 0; i < 3; i++)
            {
            EQ("get_u", n.get_u(s)[i], old.d[k].u[i]); EQ("get_v", n.get_v(s)[i], old.d[k].v[i]);
            EQ("get_u<K>", (k ? get_u<NEXT>(n) : get_u<CURRENT>(n))[i], old.d[k].u[i]);
            EQ("get_v<K>", (k ? get_v<NEXT>(n) : get_v<CURRENT>(n))[i], old.d[k].v[i]);
            }
        EQ("get_phi<K>", k ? get_phi<NEXT>(n) : get_phi<CURRENT>(n), old.d[k].phi);
        EQ("get_phiv<K>", k ? get_phiv<NEXT>(n) : get_phiv<CURRENT>(n), old.d[k].phiv);
        }
    for (int i = 0; i < 3; i++)
        {
        EQ("get_u_comp", get_u_comp(n, (Nodes::index)i), old.d[NEXT].u[i]);
        EQ("get_v_comp", get_v_comp(n, (Nodes::index)i), old.d[NEXT].v[i]);
        }
    vf_same("accessors change nothing", &n, &old, sizeof(Node));
    const double a = vf_real("a"), b = vf_real("b");
    set_phi(n, a); set_phiv(n, b);
    EQ("set_phi", n.d[NEXT].phi, a); EQ("set_phiv", n.d[NEXT].phiv, b);
    vf_same("setters frame: current", &n.d[CURRENT], &old.d[CURRENT], sizeof(dataNode));
    vf_same("setters frame: u,v", &n.d[NEXT], &old.d[NEXT], 6*sizeof(double));
    }
