// Fem with a nearest-neighbour search supplied by the harness (libann is outside of the verified code)
#ifndef FEM_ALL_H
#define FEM_ALL_H
#include "fem_support.h"
#include "fem.h"
static int (*g_nearest)(const double *q) = nullptr;     // index of the node nearest to the point q
static int g_ann_n; static ANNpointArray g_ann_pts;
ANNpoint annAllocPt(int dim, ANNcoord c) { ANNpoint p = new double[dim]; for (int i = 0; i < dim; i++) p[i] = c; return p; }
ANNpointArray annAllocPts(int n, int dim) { ANNpointArray a = new ANNpoint[n]; for (int i = 0; i < n; i++) a[i] = annAllocPt(dim, 0); g_ann_n = n; return a; }
void annDeallocPt(ANNpoint &p) { delete[] p; p = nullptr; }
void annDeallocPts(ANNpointArray &a) { for (int i = 0; i < g_ann_n; i++) delete[] a[i]; delete[] a; a = nullptr; }
ANNkd_tree::ANNkd_tree(ANNpointArray pa, int n, int dd, int, ANNsplitRule) { dim = dd; n_pts = n; pts = pa; g_ann_pts = pa; g_ann_n = n; }
ANNkd_tree::~ANNkd_tree() {}
void ANNkd_tree::annkSearch(ANNpoint q, int k, ANNidxArray idx, ANNdistArray dd, double) { for (int i = 0; i < k; i++) { idx[i] = g_nearest(q); dd[i] = 0; } }
void ANNkd_tree::annkPriSearch(ANNpoint q, int k, ANNidxArray idx, ANNdistArray dd, double eps) { annkSearch(q, k, idx, dd, eps); }
int ANNkd_tree::annkFRSearch(ANNpoint, ANNdist, int, ANNidxArray, ANNdistArray, double) { return 0; }
void ANNkd_tree::Print(ANNbool, std::ostream &) {}
void ANNkd_tree::Dump(ANNbool, std::ostream &) {}
void ANNkd_tree::getStats(ANNkdStats &) {}
// not called by the entries that do not link the file that defines them
#ifndef MS_REAL_READ
__attribute__((weak)) double Mesh::mesh::readSol(bool, const std::string &) { return 0; }
#endif
__attribute__((weak)) void Fem::direction(enum Nodes::index) {}
#endif
