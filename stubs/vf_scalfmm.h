// Stand-in for the ScalFMM headers (not installed here).  It keeps the particles that feellgood
// inserts and hands them to the harness when the algorithm is executed: the far-field solver itself is
// outside of what is verified.
#ifndef VF_SCALFMM_H
#define VF_SCALFMM_H
#include <vector>
#include <cstddef>
typedef long FSize;
extern "C" void omp_set_num_threads(int);
enum class FParticleType { FParticleTypeSource, FParticleTypeTarget };
template<class R> struct FPoint
    {
    R x, y, z;
    FPoint(R a, R b, R c) : x(a), y(b), z(c) {}
    R getX() const { return x; } R getY() const { return y; } R getZ() const { return z; }
    };
template<class R, int P> struct FTypedRotationCell { int resets = 0; void resetToInitialState() { resets++; } };
template<class R> struct FP2PParticleContainerIndexed
    {
    std::vector<FPoint<R>> pos; std::vector<FSize> idx; std::vector<R> val, pot;
    int getNbParticles() const { return idx.size(); }
    const std::vector<FSize> &getIndexes() const { return idx; }
    R *getPhysicalValues() { return val.data(); }
    R *getPotentials() { return pot.data(); }
    const R *getPotentials() const { return pot.data(); }
    void add(const FPoint<R> &p, FSize i, R v) { pos.push_back(p); idx.push_back(i); val.push_back(v); pot.push_back(R(1234)); }
    };
template<class R, class C> struct FTypedLeaf { C src, tgt; C *getSrc() { return &src; } C *getTargets() { return &tgt; } };
template<class R, class Cell, class C, class Leaf> struct FOctree
    {
    Leaf leaf[2]; Cell cell; int turn = 0;
    FOctree(int, int, R, const FPoint<R> &) {}
    void insert(const FPoint<R> &p, FParticleType t, FSize i, R v = R(0))
        { Leaf &l = leaf[turn++ % 2]; (t == FParticleType::FParticleTypeSource ? l.src : l.tgt).add(p, i, v); }
    template<class F> void forEachLeaf(F f) { f(&leaf[0]); f(&leaf[1]); }
    template<class F> void forEachCell(F f) { f(&cell); }
    };
template<class R, class Cell, class C, int P> struct FRotationKernel { FRotationKernel(int, R, const FPoint<R> &) {} };
extern void (*vf_fmm_execute)(void *tree);
template<class O, class Cell, class C, class K, class Leaf> struct FFmmAlgorithmThreadTsm
    {
    O *tree;
    FFmmAlgorithmThreadTsm(O *t, K *) : tree(t) {}
    void execute() { if (vf_fmm_execute) vf_fmm_execute(tree); }
    };
#endif
