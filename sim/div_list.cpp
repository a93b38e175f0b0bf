#include "div.h"
#include <ostream>
#include "mathic/DivList.h"
namespace dv {
  template<bool UDM, bool List>
  struct ListConf: ConfBase {
    static const bool UseDivMask = UDM;
    static const bool UseLinkedList = List;
  };
  template<class C>
  struct ListFinder: IFinder {
    typedef mathic::DivList<C> F;
    F f;
    explicit ListFinder(const C& c): f(c) {}
    const F& cf() {return f;}
    bool isTree() {return false;}
    size_t maxEqual() {return 1000000;}
    bool removals() {return true;}
    void insert(const Ent& e) {f.insert(e);}
    void insertRange(std::vector<Ent>& v) {f.insert(v.begin(), v.end());}
    bool removeMultiples(const Mono& m) {return f.removeMultiples(m);}
    bool removeMultiples(const Mono& m, Collector& c) {return f.removeMultiples(m, c);}
    bool removeElement(const Mono& m) {return f.removeElement(m);}
    Ent* findDivisor(const Mono& m) {return f.findDivisor(m);}
    const Ent* findDivisorConst(const Mono& m) {return cf().findDivisor(m);}
    void findAllDivisors(const Mono& m, Visitor& v, int how) {if (how) cf().findAllDivisors(m, v); else f.findAllDivisors(m, v);}
    void findAllMultiples(const Mono& m, Visitor& v, int how) {if (how) cf().findAllMultiples(m, v); else f.findAllMultiples(m, v);}
    void forAll(Visitor& v, int how) {if (how) cf().forAll(v); else f.forAll(v);}
    bool canIterate() {return true;}
    void iterate(Visitor& v, int how) {
      if (how & 4) { // the other ways to write the same
        if (how & 1) {
          typename F::const_iterator b = cf().begin(), it = cf().end();
          if (how & 2) while (b != it) {--it; if (!v.proceed(*it.operator->())) return;}
          else while (!(it == b)) {it--; if (!v.proceed(*it.operator->())) return;}
        } else {
          typename F::iterator b = f.begin(), it = f.end();
          const typename F::const_iterator cb = b;
          if (how & 2) {
            while (it != cb) {
              typename F::iterator was = it--;
              if (!(was != it) || was == it) throw Violation("wrong-iteration", "it-- does not move");
              if (!(++it == was)) throw Violation("wrong-iteration", "++it does not undo it--");
              --it;
              if (!v.proceed(*it.operator->())) return;
            }
          } else
            for (; f.end() != b;) {
              typename F::iterator was = b++;
              if (!v.proceed(*was)) return;
            }
        }
      } else if (how & 1) {
        for (typename F::const_iterator it = cf().begin(), e = cf().end(); it != e; ++it) if (!v.proceed(*it)) return;
      } else if (how & 2) {
        typename F::iterator b = f.begin();
        for (typename F::iterator it = f.end(); it != b;) {--it; if (!v.proceed(*it)) return;}
      } else
        for (typename F::iterator it = f.begin(), e = f.end(); it != e; it++) if (!v.proceed(*it)) return;
    }
    const Ent* viaIterator(const Mono& m) {
      typename F::iterator it = f.findDivisorIterator(m);
      return it == f.end() ? 0 : &*it;
    }
    void moveToFront(size_t pos) {
      typename F::iterator it = f.begin();
      while (pos-- > 0) ++it;
      f.moveToFront(it);
    }
    bool hitToFront(const Mono& m) {
      typename F::iterator it = f.findDivisorIterator(m);
      if (it == f.end()) return false;
      f.moveToFront(it);
      return true;
    }
    bool canClear() {return false;}
    void clear() {}
    void rebuild() {f.rebuild();}
    size_t size() {return f.size();}
    bool empty() {return f.empty();}
    std::string name() {return cf().getName();}
    size_t memory() {return cf().getMemoryUse();}
  };
  template<bool UDM, bool List> IFinder* mkl(const Params& p) {
    ListConf<UDM, List> c;
    static_cast<Params&>(c) = p;
    return new ListFinder<ListConf<UDM, List> >(c);
  }
  IFinder* makeList(int i, const Params& p) {
    switch (i) {
    case 0: return mkl<false, false>(p);
    case 1: return mkl<true, false>(p);
    case 2: return mkl<false, true>(p);
    default: return mkl<true, true>(p);
    }
  }
  IFinder* makeTree0(int, const Params&);
  IFinder* makeTree1(int, const Params&);
  IFinder* makeTree2(int, const Params&);
  IFinder* makeTree3(int, const Params&);
  IFinder* makeTree4(int, const Params&);
  IFinder* makeTree5(int, const Params&);
  IFinder* makeTree6(int, const Params&);
  IFinder* makeTree7(int, const Params&);
  IFinder* makeFinder(int config, const Params& p) {
    if (config >= 48) return makeList(config - 48, p);
    static IFinder* (*const f[])(int, const Params&) = {makeTree0, makeTree1, makeTree2, makeTree3, makeTree4, makeTree5, makeTree6, makeTree7};
    return f[config / 6](config % 6, p);
  }
}
