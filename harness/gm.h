// stand-in for the gmsh library (not in /repo): the API functions used by read.cpp answer from a model of the mesh file
#ifndef GM_H
#define GM_H
#include <gmsh.h>
#include <string>
#include <vector>
namespace gm {
struct Group { int dim, tag; std::string name; };
struct Entity { int dim, tag; std::vector<int> groups; std::vector<int> types; std::vector<std::vector<size_t>> nodes; };
static int dimension = 3;
static std::vector<int> types3, types2;
static std::vector<size_t> tags; static std::vector<double> xyz;
static std::vector<Group> groups; static std::vector<Entity> entities;
static int opened = 0, closed = 0;
inline void reset() { dimension = 3; types3 = {4}; types2 = {2}; tags.clear(); xyz.clear(); groups.clear(); entities.clear(); opened = closed = 0; }
}
namespace gmsh {
void initialize(int, char **, bool, bool) {}
void finalize() { gm::closed++; }
void clear() {}
void open(const std::string &) { gm::opened++; }
namespace option { void setNumber(const std::string &, double) {} }
namespace model {
int getDimension() { return gm::dimension; }
void getEntities(vectorpair &v, int dim) { v.clear(); for (const auto &e : gm::entities) if (dim < 0 || e.dim == dim) v.push_back({e.dim, e.tag}); }
void getEntityName(int, int, std::string &n) { n = ""; }
void getPhysicalGroups(vectorpair &v, int dim) { v.clear(); for (const auto &g : gm::groups) if (dim < 0 || g.dim == dim) v.push_back({g.dim, g.tag}); }
void getPhysicalGroupsForEntity(int dim, int tag, std::vector<int> &t) { t.clear(); for (const auto &e : gm::entities) if (e.dim == dim && e.tag == tag) t = e.groups; }
void getPhysicalName(int dim, int tag, std::string &n) { n = ""; for (const auto &g : gm::groups) if (g.dim == dim && g.tag == tag) n = g.name; }
namespace mesh {
void getElementTypes(std::vector<int> &t, int dim, int) { if (dim == 3) t = gm::types3; else if (dim == 2) t = gm::types2; else t.clear(); }
void getNodes(std::vector<size_t> &t, std::vector<double> &c, std::vector<double> &p, int, int, bool, bool) { t = gm::tags; c = gm::xyz; p.clear(); }
void getElements(std::vector<int> &t, std::vector<std::vector<size_t>> &et, std::vector<std::vector<size_t>> &n, int dim, int tag)
    { t.clear(); et.clear(); n.clear(); for (const auto &e : gm::entities) if (e.dim == dim && e.tag == tag) { t = e.types; n = e.nodes; et.resize(n.size()); } }
} } }
#endif
