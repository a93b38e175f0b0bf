// The models of src/divsim in many instantiations.
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <iostream>
#include <string>
#include "sim.h"
#include "dsim.h"
namespace std {void simExit(int);}
#define exit simExit
#include "divsim/stdinc.h"
#include "divsim/DivListModel.h"
#include "divsim/KDTreeModel.h"
#include "divsim/Simulation.h"
#undef exit

namespace ds {
  bool Out::add(const int* p) {
    sim::CbScope cb;
    got.push_back(p);
    return stopAfter == 0 || got.size() < stopAfter;
  }
  namespace {
    struct Store {
      Out& o;
      void push_back(const Monomial& m) {o.add(m.getPointer());}
      bool proceed(const Monomial& m) {return o.add(m.getPointer());}
    };
    long ticks = 0;
    unsigned long long lastQueries = 0;
    template<class M> struct Timed: public M { // takes some time in its first insertion
      template<class A, class B, class C, class D, class E, class F>
      Timed(const A& a, const B& b, const C& c, const D& d, const E& e, const F& f): M(a, b, c, d, e, f) {}
      ~Timed() {lastQueries = static_cast<const M*>(this)->getExpQueryCount();}
      template<class S> void insert(std::vector<int>& e, S& s) {
        now += ticks;
        ticks = 0;
        M::insert(e, s);
      }
      void insert(std::vector<int>& e) {M::insert(e);}
    };
    template<class M> struct Impl: IFinder {
      template<class A> Impl(const Params& p, A a, A b):
        m(p.vars, p.minimize, a, b, p.ratio, p.min) {}
      void insert(Exps& e) {m.insert(e);}
      void insert(Exps& e, Out& removed) {
        Store s = {removed};
        m.insert(e, s);
      }
      const M& c() {return m;}
      const int* findDivisor(Exps& e, bool constant) {
        if (constant) {
          const Monomial* const r = c().findDivisor(e);
          return r == 0 ? 0 : r->getPointer();
        }
        const Monomial* const r = m.findDivisor(e);
        return r == 0 ? 0 : r->getPointer();
      }
      void findAllDivisors(Exps& e, Out& o, bool constant) {
        Store s = {o};
        if (constant) c().findAllDivisors(e, s);
        else m.findAllDivisors(e, s);
      }
      void forAll(Out& o, bool constant) {
        Store s = {o};
        if (constant) c().forAll(s);
        else m.forAll(s);
      }
      size_t size() {return c().size();}
      std::string name() {return c().getName();}
      unsigned long long queries() {return c().getExpQueryCount();}
      M m;
    };
    template<class M> IFinder* make(const Params& p, bool a, bool b) {return new Impl<M>(p, a, b);}
    template<class M> void runIt(Simulation& s, const Params& p, bool a, bool b) {
      s.run<Timed<M> >(p.minimize, a, b, p.ratio, p.min);
    }
  }
  bool isList(int k) {return k < 4;}
  bool removes(int k) {return k < 12 || k >= 16;}
#define KINDS(F) \
    F(0, DivListModel<0 COMMA 0>) F(1, DivListModel<0 COMMA 1>) F(2, DivListModel<1 COMMA 0>) F(3, DivListModel<1 COMMA 1>) \
    F(4, KDTreeModel<0 COMMA 0 COMMA 0 COMMA 1 COMMA 1>) F(5, KDTreeModel<1 COMMA 0 COMMA 0 COMMA 2 COMMA 1>) \
    F(6, KDTreeModel<1 COMMA 1 COMMA 0 COMMA 1 COMMA 1>) F(7, KDTreeModel<0 COMMA 0 COMMA 1 COMMA 1 COMMA 1>) \
    F(8, KDTreeModel<1 COMMA 0 COMMA 1 COMMA 2 COMMA 1>) F(9, KDTreeModel<1 COMMA 1 COMMA 1 COMMA 1 COMMA 1>) \
    F(10, KDTreeModel<1 COMMA 1 COMMA 1 COMMA 20 COMMA 1>) F(11, KDTreeModel<1 COMMA 1 COMMA 0 COMMA 40 COMMA 1>) \
    F(12, KDTreeModel<1 COMMA 1 COMMA 1 COMMA 1 COMMA 0>) F(13, KDTreeModel<0 COMMA 0 COMMA 1 COMMA 2 COMMA 0>) \
    F(14, KDTreeModel<1 COMMA 1 COMMA 0 COMMA 2 COMMA 0>) F(15, KDTreeModel<0 COMMA 0 COMMA 0 COMMA 3 COMMA 0>) \
    F(16, KDTreeModel<0 COMMA 0 COMMA 0 COMMA 2 COMMA 1>) F(17, KDTreeModel<1 COMMA 1 COMMA 0 COMMA 3 COMMA 1>) \
    F(18, KDTreeModel<1 COMMA 1 COMMA 1 COMMA 3 COMMA 1>) F(19, KDTreeModel<0 COMMA 0 COMMA 1 COMMA 15 COMMA 1>)
#define COMMA ,
  IFinder* makeModel(int k, const Params& p) {
    const bool a = isList(k) ? p.toFront : p.sort, b = isList(k) ? p.sort : p.cache;
    switch (k) {
#define F(n, ...) case n: return make<__VA_ARGS__>(p, a, b);
    KINDS(F)
#undef F
    }
    return 0;
  }
  unsigned long long runModel(int k, const Params& p, Simulation& s, long t) {
    const bool a = isList(k) ? p.toFront : p.sort, b = isList(k) ? p.sort : p.cache;
    ticks = t;
    switch (k) {
#define F(n, ...) case n: runIt<__VA_ARGS__>(s, p, a, b); break;
    KINDS(F)
#undef F
    }
    return lastQueries;
  }
}
