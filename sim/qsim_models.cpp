// The models of src/pqsim in many instantiations.
#include <cstdlib>
#include <queue>
#include <vector>
#include <ctime>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <string>
#include "qsim.h"
void simExit(int);
#define exit simExit
#include "pqsim/stdinc.h"
#include "pqsim/Simulator.h"
#include "pqsim/StlSetModel.h"
#include "pqsim/HeapModel.h"
#include "pqsim/GeobucketModel.h"
#include "pqsim/TourTreeModel.h"
#undef exit

namespace qs {
  typedef long i64;
  namespace {
    template<class M> struct Impl: IModel {
      Impl() {}
      Impl(size_t a, size_t b): m(a, b) {}
      void push(const V* b, const V* e) {m.push(b, e);}
      V pop() {return m.pop();}
      bool empty() {return static_cast<const M&>(m).empty();}
      size_t comparisons() {return const_cast<M&>(m).getComparisons();}
      size_t memoryUse() {return static_cast<const M&>(m).getMemoryUse();}
      std::string name() {return static_cast<const M&>(m).getName();}
      void print(std::ostream& out) {static_cast<const M&>(m).print(out);}
      struct Timed { // takes some time in its first push
        M& m;
        i64 ticks;
        void push(const V* b, const V* e) {
          now += ticks;
          ticks = 0;
          m.push(b, e);
        }
        V pop() {return m.pop();}
        size_t getComparisons() {return m.getComparisons();}
        size_t getMemoryUse() {return m.getMemoryUse();}
        std::string getName() {return m.getName();}
        void print(std::ostream& out) {m.print(out);}
      };
      void run(Simulator& sim, bool d, bool s, i64 ticks) {
        Timed t = {m, ticks};
        sim.run(t, d, s);
      }
      M m;
    };
  }
  bool dedups(int k) {return k < 14 ? k >= 6 && ((k - 6) & 2) : ((k - 14) & 2) != 0;}
  IModel* makeModel(int k, size_t a, size_t b) {
    switch (k) {
    case 0: return new Impl<TourTreeModel<0, 0> >();
    case 1: return new Impl<TourTreeModel<0, 1> >();
    case 2: return new Impl<TourTreeModel<1, 0> >();
    case 3: return new Impl<TourTreeModel<1, 1> >();
    case 4: return new Impl<StlSetModel<0> >();
    case 5: return new Impl<StlSetModel<1> >();
#define H(n, s, d, f) case 6 + n: return new Impl<HeapModel<s, d, f> >();
    H(0, 0, 0, 0) H(1, 1, 0, 0) H(2, 0, 1, 0) H(3, 1, 1, 0)
    H(4, 0, 0, 1) H(5, 1, 0, 1) H(6, 0, 1, 1) H(7, 1, 1, 1)
    // spans, track front, binary search, dedup, premerge, collect max, storage
#define G4(n, tf, bin, pre, col, st) \
    case 14 + n: return new Impl<GeobucketModel<0, tf, bin, 0, pre, col, st> >(a, b); \
    case 15 + n: return new Impl<GeobucketModel<1, tf, bin, 0, pre, col, st> >(a, b); \
    case 16 + n: return new Impl<GeobucketModel<0, tf, bin, 1, pre, col, st> >(a, b); \
    case 17 + n: return new Impl<GeobucketModel<1, tf, bin, 1, pre, col, st> >(a, b);
    G4(0, 0, 0, 0, 0, 0) G4(4, 1, 0, 0, 0, 1) G4(8, 0, 1, 0, 1, 2) G4(12, 1, 1, 1, 0, 0)
    G4(16, 0, 0, 1, 1, 1) G4(20, 1, 1, 1, 1, 2) G4(24, 0, 1, 1, 0, 2)
    case 42: return new Impl<GeobucketModel<0, 1, 0, 0, 0, 1, 0, 3> >(a, b);
    case 43: return new Impl<GeobucketModel<1, 1, 0, 0, 0, 1, 0, 3> >(a, b);
    case 44: return new Impl<GeobucketModel<0, 1, 0, 1, 0, 1, 0, 3> >(a, b);
    default: return new Impl<GeobucketModel<1, 1, 0, 1, 0, 1, 0, 3> >(a, b);
    }
  }
}
