// C23: recentering
#include "fem_all.h"
namespace {
int ax, nnL, nnH, perm_;                // ghost: axis, nearest nodes of both ends, map of shifted nodes
Mesh::mesh *gm; double gD; bool gShift; int nq[bed::NM + 2];
bool close(double a, double b) { const double d = a - b; return d < 1e-9 && d > -1e-9; }
int image(int i) { return (i*3 + perm_) % bed::NM; }
Nodes::index ix(int a) { return a == 0 ? IDX_X : a == 1 ? IDX_Y : IDX_Z; }
// nearest neighbour, as a function of the point: nodes of the bed have distinct transverse coordinates
int nearest(const double *q)
    {
    const int b = (ax + 1) % 3, c = (ax + 2) % 3;
    const Eigen::Vector3d mid = gm->c;
    if (close(q[b], mid[b]) && close(q[c], mid[c]))
        {
        const bool hi = q[ax] > mid[ax];
        EQ("end points are those of the sample along the configured axis", q[ax], hi ? mid[ax] + 0.5*gm->l[ax] : mid[ax] - 0.5*gm->l[ax]);
        nq[bed::NM + hi]++;
        return hi ? nnH : nnL;
        }
    for (int i = 0; i < bed::NM; i++)
        if (close(q[b], gm->node[i].p[b]) && close(q[c], gm->node[i].p[c]))
            {
            ENSURES("nodes are only searched when shifting", gShift);
            EQ("the shifted position is along the configured axis by the configured rule", q[ax], gm->node[i].p[ax] + gD);
            nq[i]++;
            return image(i);
            }
    ENSURES("only shifted nodes and end points are searched", false);
    return 0;
    }
}
extern "C" void vfstub_init(Mesh::mesh *) {}
extern "C" double vfstub_avg(const Mesh::mesh *, const std::function<double(Nodes::Node, Nodes::index)> &, Nodes::index d, int region)
    { const double a[2] = {double(int(d)), double(region)}; return vf_uf("avg", 2, a); }
namespace {
void config(Settings &s)
    {
    bed::settings(s, 0, false, false);
    s.recenter = true; s.recentering_direction = ix(ax); s.verbose = 0;
    g_nearest = nearest;
    }
}
VC(recenter)
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    CONTRACT("^_ZNK4Mesh4mesh3avgE", vfstub_avg);
    ax = vf_int("axis", 0, 2);
    const int c = vf_int("near", 0, 2);
    nnL = c == 0 ? 4 : c == 1 ? 0 : 6; nnH = c == 0 ? 1 : c == 1 ? 5 : 2; perm_ = c + 1;
    Settings s; config(s);
    timing tp(1e-9, 1e-14, 1e-11);
    // the constructor searches the end points only
    gShift = false;
    struct Hook { static void set(Mesh::mesh &m) { gm = &m; bed::fill(m); } };
    ms_fill = Hook::set;
    Fem f(s, tp);
    gm = &f.msh;
    anyFields(f.msh.node);
    for (int i = 0; i < bed::NM; i++) unitVec("m", f.msh.node[i].d[NEXT].u);
    const std::vector<Node> old(f.msh.node);
    const double thr = vf_range("thr", -1, 1), m = f.msh.avg(Nodes::get_u_comp, ix(ax));
    const double uL = old[nnL].d[NEXT].u[ax], uR = old[nnH].d[NEXT].u[ax], L = f.msh.l[ax], mid = f.msh.c[ax];
    const double am = m < 0 ? -m : m, at = thr < 0 ? -thr : thr;
    const bool act = !(am < at);
    REQUIRES(uL*uR != 0);
    gD = m*0.5*L*uL;
    gShift = act && uL*uR < 0;
    for (int &k : nq) k = 0;
    vf_exit_begin("a sample without domain wall along the axis is refused", act && uL*uR > 0);
    const bool did = f.recenter(thr, s.recentering_direction);
    vf_exit_end();
    ENSURES("shifts exactly when the average reaches the threshold", did == act);
    for (int i = 0; i < bed::NM; i++)
        {
        const Node &n = f.msh.node[i], &o = old[i];
        int src = -1;
        if (act) src = o.p[ax] + gD - mid > 0.5*L ? nnH : o.p[ax] + gD - mid < -0.5*L ? nnL : image(i);
        for (int k = 0; k < 3; k++)
            {
            EQ("each node receives the magnetization of the node nearest to its shifted, clamped position", n.d[CURRENT].u[k], act ? old[src].d[NEXT].u[k] : o.d[CURRENT].u[k]);
            EQ("velocities are reset", n.d[NEXT].v[k], act ? 0.0 : o.d[NEXT].v[k]);
            EQ("frame: position", n.p[k], o.p[k]);
            }
        EQ("frame: potential", n.d[NEXT].phi, o.d[NEXT].phi);
        }
    }
VC(direction)           // orientation of the wall along the configured axis
    {
    CONTRACT("^_ZN4Mesh4mesh12init_distribEv$", vfstub_init);
    ax = vf_int("axis", 0, 2);
    const int c = vf_int("near", 0, 2);
    nnL = c == 0 ? 4 : c == 1 ? 0 : 6; nnH = c == 0 ? 1 : c == 1 ? 5 : 2; perm_ = c;
    Settings s; config(s);
    timing tp(1e-9, 1e-14, 1e-11);
    gShift = false;
    struct Hook { static void set(Mesh::mesh &m) { gm = &m; bed::fill(m); } };
    ms_fill = Hook::set;
    for (int &k : nq) k = 0;
    Fem f(s, tp);
    ENSURES("both ends along the configured axis are examined at start", nq[bed::NM] > 0 && nq[bed::NM + 1] > 0);
    ENSURES("the search structure contains every node", g_ann_n == bed::NM);
    for (int i = 0; i < bed::NM; i++) for (int k = 0; k < 3; k++) EQ("the search structure contains the positions of the nodes", g_ann_pts[i][k], f.msh.node[i].p[k]);
    anyFields(f.msh.node);
    const double uL = f.msh.node[nnL].d[NEXT].u[ax], uR = f.msh.node[nnH].d[NEXT].u[ax];
    f.direction(ix(ax));
    EQ("direction of the wall", f.DW_dir, uL*uR > 0 ? 0.0 : uL > 0 ? 1.0 : -1.0);
    }
