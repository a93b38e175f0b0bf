// KDTree instantiations; PART 0..7.
#include "div.h"
#include <ostream>
#include "mathic/KDTree.h"
#ifndef PART
#define PART 0
#endif
namespace dv {
  template<bool UDM, bool UTDM, bool Packed, size_t Leaf, bool AR>
  struct TreeConf: ConfBase {
    static const bool UseDivMask = UDM;
    static const bool UseTreeDivMask = UTDM;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = Leaf;
    static const bool AllowRemovals = AR;
    size_t getLeafSize() const {return Leaf;}
  };
  template<class C>
  struct Tree: IFinder {
    typedef mathic::KDTree<C> F;
    F f;
    explicit Tree(const C& c): f(c) {}
    const F& cf() {return f;}
    bool isTree() {return true;}
    size_t maxEqual() {return C::LeafSize;}
    bool removals() {return C::AllowRemovals;}
    void insert(const Ent& e) {f.insert(e);}
    void insertRange(std::vector<Ent>& v) {f.insert(v.begin(), v.end());}
    bool removeMultiples(const Mono& m) {return f.removeMultiples(m);}
    bool removeMultiples(const Mono& m, Collector& c) {return f.removeMultiples(m, c);}
    bool removeElement(const Mono& m) {return f.removeElement(m);}
    Ent* findDivisor(const Mono& m) {return f.findDivisor(m);}
    const Ent* findDivisorConst(const Mono& m) {return cf().findDivisor(m);}
    void findAllDivisors(const Mono& m, Visitor& v, int how) {if (how) cf().findAllDivisors(m, v); else f.findAllDivisors(m, v);}
    void findAllMultiples(const Mono& m, Visitor& v, int how) {if (how) cf().findAllMultiples(m, v); else f.findAllMultiples(m, v);}
    void forAll(Visitor& v, int how) {if (how) cf().forAll(v); else f.forAll(v);}
    bool canIterate() {return false;}
    void iterate(Visitor&, int) {}
    const Ent* viaIterator(const Mono&) {return 0;}
    void moveToFront(size_t) {}
    bool hitToFront(const Mono&) {return false;}
    bool canClear() {return true;}
    void clear() {f.clear();}
    void rebuild() {f.rebuild();}
    size_t size() {return f.size();}
    bool empty() {return f.empty();}
    std::string name() {return cf().getName();}
    size_t memory() {return cf().getMemoryUse();}
  };
  template<bool UDM, bool UTDM, bool Packed, size_t Leaf, bool AR>
  IFinder* mk(const Params& p) {
    TreeConf<UDM, UTDM, Packed, Leaf, AR> c;
    static_cast<Params&>(c) = p;
    return new Tree<TreeConf<UDM, UTDM, Packed, Leaf, AR> >(c);
  }
  template<size_t Leaf, bool Packed> struct Part;
  template<size_t Leaf, bool Packed>
  IFinder* mkPart(int i, const Params& p) {
    switch (i) {
    case 0: return mk<false, false, Packed, Leaf, true>(p);
    case 1: return mk<true, false, Packed, Leaf, true>(p);
    case 2: return mk<true, true, Packed, Leaf, true>(p);
    case 3: return mk<false, false, Packed, Leaf, false>(p);
    case 4: return mk<true, false, Packed, Leaf, false>(p);
    default: return mk<true, true, Packed, Leaf, false>(p);
    }
  }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
  static constexpr size_t leafs[] = {1, 2, 4, 11};
  IFinder* CAT(makeTree, PART)(int i, const Params& p) {return mkPart<leafs[PART / 2], PART % 2 == 1>(i, p);}
}
