// Workload, reference model and oracle for divisibility masks (C17).
#include "sim.h"
#include <mathic/DivMask.h>
#include <memory>
#include <limits>

namespace {
  using namespace sim;

  template<class E>
  struct Mono {
    std::vector<E> e;
    size_t id;
  };

  template<class E, bool UseMask>
  struct Conf {
    typedef E Exponent;
    typedef const Mono<E>* Monomial;
    typedef const Mono<E>* Entry;
    static const bool UseDivMask = UseMask;
    size_t varCount;
    size_t getVarCount() const {return varCount;}
    E getExponent(Entry m, size_t var) const {
      CbScope cb;
      if (var >= varCount) throw Violation("bad-callback", "exponent of a variable that does not exist");
      g.throwAt(FExponent);
      return m->e[var];
    }
    bool divides(Entry a, Entry b) const {
      CbScope cb;
      g.log(3, a->id * 1000 + b->id);
      g.throwAt(FDivides);
      return divs(a, b);
    }
    static bool divs(Entry a, Entry b) {
      for (size_t i = 0; i < a->e.size(); ++i) if (a->e[i] > b->e[i]) return false;
      return true;
    }
  };

  enum {OAddMono, ORebuild, ORebuildDefault, OCompute, ORecalc, OCheck, OExtDivides, OBound, OCopyCalc, OAssignCalc};

  template<class E, bool UseMask>
  class Sim {
    typedef Conf<E, UseMask> C;
    typedef mathic::DivMask::Calculator<C> Calc;
    typedef mathic::DivMask::Extender<const Mono<E>*, UseMask> Ext;
    typedef mathic::DivMask Mask;
    struct Item {
      size_t mono;
      Ext ext;
    };
    struct One {
      std::unique_ptr<Calc> calc;
      std::vector<Item> items; // all computed with the present parameters
    };
  public:
    explicit Sim(const Plan& p): _plan(p) {}

    void run() {
      _c.varCount = static_cast<size_t>(std::min<i64>(70, std::max<i64>(0, _plan.get("vars"))));
      const size_t n = static_cast<size_t>(std::min<i64>(3, std::max<i64>(1, _plan.get("calcs", 1))));
      _o.resize(n);
      for (size_t i = 0; i < n; ++i) sutOk("construction", [&] {_o[i].calc.reset(new Calc(_c));});
      for (size_t i = 0; i < _plan.ops.size(); ++i) {
        ++g.opsInRun;
        g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
        step(_plan.ops[i]);
      }
      for (size_t i = 0; i < n; ++i) check(_o[i], 1, true);
      sutOk("destruction", [&] {for (size_t i = 0; i < n; ++i) {_o[i].items.clear(); _o[i].calc.reset();}});
      _o.clear();
    }

  private:
    E draw(u64 h) const {
      const u64 k = static_cast<u64>(_plan.get("dist"));
      const u64 top = static_cast<u64>(std::numeric_limits<E>::max());
      u64 v = 0;
      switch (k) {
      case 0: v = h % 3; break;
      case 1: v = h % 10; break;
      case 2: v = h & 7 ? 0 : (h >> 8) % 200; break;
      case 3: v = (h >> 4) >> (h % 60); break;
      case 4: v = top - (h >> 4) % 5 * ((h & 3) ? 1 : top / 5); break;
      default: v = (h & 1) ? top : (h >> 4) % 4; break;
      }
      return static_cast<E>(v > top ? v % top : v);
    }

    const Mono<E>* make(u64 salt, u64 how) {
      std::unique_ptr<Mono<E> > m(new Mono<E>());
      m->e.resize(_c.varCount);
      const Mono<E>* base = _pool.empty() ? 0 : _pool[mix64(salt) % _pool.size()].get();
      const Mono<E>* base2 = _pool.empty() ? 0 : _pool[mix64(salt + 7) % _pool.size()].get();
      for (size_t i = 0; i < _c.varCount; ++i) {
        const u64 h = mix64(salt * 977 + i);
        E v = draw(h);
        if (base) {
          const E b = base->e[i], b2 = base2->e[i];
          const u64 r = mix64(h);
          if (how == 1) v = r % 3 ? b : std::max(b, v);                       // a multiple
          if (how == 2) v = r % 3 ? b : std::min(b, v);                       // a divisor
          if (how == 3) v = b < std::numeric_limits<E>::max() && r % 4 == 0 ? static_cast<E>(b + 1) : b;
          if (how == 4) v = std::max(b, b2);                                  // least common multiple
          if (how == 5) v = std::min(b, b2);                                  // greatest common divisor
        }
        m->e[i] = v;
      }
      m->id = _pool.size();
      _pool.push_back(std::move(m));
      return _pool.back().get();
    }

    static bool canDivide(const Ext& a, const Ext& b) {return a.canDivide(b);}

    void same(const Item&, const Item&, bool, std::false_type) {}
    void same(const Item& a, const Item& b, bool can, std::true_type) {
      bool back = false, eq = false, ne = false;
      Mask x, y;
      sutOk("comparing masks", [&] {
        x = a.ext.getDivMask();
        y = b.ext.getDivMask();
        back = y.canDivide(x);
        eq = x == y;
        ne = x != y;
      });
      // masks are equal if each allows the other
      if (eq != (can && back) || ne == eq)
        throw Violation("wrong-comparison", strf("the masks of monomials %zu and %zu: == is %d, != is %d, but they allow each other: %d and %d", a.mono, b.mono, eq, ne, can, back));
    }

    void pair(const Item& a, const Item& b) {
      bool can = false;
      sutOk("canDivide", [&] {can = canDivide(a.ext, b.ext);});
      same(a, b, can, std::integral_constant<bool, UseMask>());
      const bool truth = C::divs(_pool[a.mono].get(), _pool[b.mono].get());
      if (truth) g.probe("true divisors tested");
      else if (!can) g.probe("divisions ruled out");
      if (truth && !can)
        throw Violation("denied-divisor", strf("the mask of monomial %zu says that it cannot divide monomial %zu, but it does", a.mono, b.mono));
    }

    void check(One& o, u64 salt, bool all) {
      const size_t n = o.items.size();
      if (n == 0) return;
      if (all && n <= 24) {
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) pair(o.items[i], o.items[j]);
      } else for (u64 i = 0; i < 40; ++i)
        pair(o.items[mix64(salt * 3 + i) % n], o.items[mix64(salt * 5 + i * 11 + 1) % n]);
    }

    void compute(One& o, const Op& op, size_t mono, bool& failed) {
      const Mono<E>* m = _pool[mono].get();
      std::unique_ptr<Ext> x;
      const Outcome r = sut(op, [&] {Ext e(m, *o.calc, _c); CbScope cb; x.reset(new Ext(e));});
      if (r == Other) throw Violation("unexpected-exception", "computing a mask");
      if (r != Done) {failed = true; return;}
      if (x->get() != m) throw Violation("wrong-entry", "an extended entry is not the entry that was given");
      Item it = {mono, *x};
      o.items.push_back(it);
      g.log(4, mono);
    }

    template<bool B>
    void bound(One& o, u64 salt, i64 count, std::integral_constant<bool, B>) {}
    void bound(One& o, u64 salt, i64 count, std::true_type) {
      // The bound of some masks, starting from the mask of all ones, denies
      // no multiple of any of the monomials it covers.
      mathic::DivMask::HasDivMask<true> low;
      std::vector<size_t> in;
      sutOk("resetDivMask", [&] {low.resetDivMask();});
      for (i64 i = 0; i < count; ++i) {
        const size_t k = mix64(salt + static_cast<u64>(i)) % o.items.size();
        in.push_back(k);
        sutOk("updateToLowerBound", [&] {low.updateToLowerBound(o.items[k].ext);});
      }
      for (size_t q = 0; q < o.items.size(); ++q) {
        bool can = false;
        sutOk("canDivide", [&] {can = low.canDivide(o.items[q].ext);});
        if (can) continue;
        g.probe("bounds that rule out");
        for (size_t i = 0; i < in.size(); ++i)
          if (C::divs(_pool[o.items[in[i]].mono].get(), _pool[o.items[q].mono].get()))
            throw Violation("denied-divisor", strf("a lower bound covering monomial %zu denies that it divides monomial %zu", o.items[in[i]].mono, o.items[q].mono));
      }
    }

    void step(const Op& op) {
      One& o = _o[static_cast<size_t>(op.arg(0)) % _o.size()];
      One& p = _o[static_cast<size_t>(op.arg(0) + 1) % _o.size()];
      const u64 salt = static_cast<u64>(op.arg(1));
      bool failed = false;
      g.log(60 + op.kind, o.items.size());
      switch (op.kind) {
      case OAddMono:
        make(salt, static_cast<u64>(op.arg(2)) % 6);
        break;
      case ORebuild:
      case ORebuildDefault: {
        std::vector<const Mono<E>*> range;
        for (i64 i = 0; i < op.arg(2) && !_pool.empty(); ++i)
          range.push_back(_pool[mix64(salt + static_cast<u64>(i)) % _pool.size()].get());
        const Outcome r = sut(op, [&] {
          if (op.kind == ORebuild) o.calc->rebuild(range.begin(), range.end(), _c);
          else o.calc->rebuildDefault(_c);
        });
        if (r == Other) throw Violation("unexpected-exception", "rebuild");
        if (r != Done) {
          g.probe("failed rebuilds"); // as if it had not happened
          failed = true;
          break;
        }
        g.probe("rebuilds");
        // recompute all masks; those that fail are dropped
        if (op.arg(3) & 1) {
          std::vector<Item> old;
          old.swap(o.items);
          for (size_t i = 0; i < old.size(); ++i) {
            sutOk("recalculateDivMask", [&] {old[i].ext.recalculateDivMask(*o.calc, _c);});
            o.items.push_back(old[i]);
          }
        } else
          o.items.clear();
        break;
      }
      case OCompute:
        for (i64 i = 0; i < op.arg(2) && !_pool.empty(); ++i)
          compute(o, i == op.arg(3) ? op : noFault, mix64(salt + static_cast<u64>(i)) % _pool.size(), failed);
        if (o.items.size() > 120) o.items.erase(o.items.begin(), o.items.begin() + 60);
        break;
      case ORecalc: { // with the same parameters, this may not change anything
        if (o.items.empty()) break;
        Item& it = o.items[salt % o.items.size()];
        const Outcome r = sut(op, [&] {it.ext.recalculateDivMask(*o.calc, _c);});
        if (r == Other) throw Violation("unexpected-exception", "recalculateDivMask");
        failed = r != Done;
        break;
      }
      case OCheck:
        check(o, salt, true);
        break;
      case OExtDivides: {
        if (o.items.empty()) break;
        const Item& a = o.items[mix64(salt) % o.items.size()];
        const Item& b = o.items[mix64(salt + 1) % o.items.size()];
        bool d = false;
        const Outcome r = sut(op, [&] {d = a.ext.divides(b.ext, _c);});
        if (r == Other) throw Violation("unexpected-exception", "divides");
        if (r != Done) {failed = true; break;}
        const bool truth = C::divs(_pool[a.mono].get(), _pool[b.mono].get());
        if (d != truth) throw Violation("wrong-division", strf("monomial %zu divides monomial %zu: %d instead of %d", a.mono, b.mono, d, truth));
        break;
      }
      case OBound:
        if (!o.items.empty()) bound(o, salt, op.arg(2), std::integral_constant<bool, UseMask>());
        break;
      case OCopyCalc: {
        std::unique_ptr<Calc> c;
        const Outcome r = sut(op, [&] {c.reset(new Calc(*p.calc));});
        if (r == Other) throw Violation("unexpected-exception", "copying a calculator");
        if (r != Done) {failed = true; break;}
        sutOk("destruction", [&] {o.calc = std::move(c);});
        o.items = p.items; // the copy gives the same meaning to masks
        break;
      }
      case OAssignCalc: {
        if (&o == &p) break;
        const Outcome r = sut(op, [&] {*o.calc = *p.calc;});
        if (r == Other) throw Violation("unexpected-exception", "assigning a calculator");
        if (r != Done) { // nothing is promised about the target but that it works
          failed = true;
          o.items.clear();
          sutOk("rebuildDefault", [&] {o.calc->rebuildDefault(_c);});
          break;
        }
        o.items = p.items;
        break;
      }
      }
      if (failed) {
        // new masks must fit the ones there are
        bool f = false;
        for (int i = 0; i < 3 && !o.items.empty(); ++i)
          compute(o, noFault, o.items[mix64(salt + 50 + i) % o.items.size()].mono, f);
        if (!_pool.empty()) compute(o, noFault, salt % _pool.size(), f);
      }
      check(o, salt, failed);
      if (_o.size() > 1) check(p, salt, false);
      g.state(mix64(o.items.size() * 64 + _c.varCount) ^ mix64(_pool.size() * 16 + _plan.get("dist")) ^ mix64(g.firedInRun * 4 + _plan.get("type")));
    }

    const Plan& _plan;
    C _c;
    std::vector<std::unique_ptr<Mono<E> > > _pool;
    std::vector<One> _o;
  };
}

namespace sim {
  const char* const opNames[] = {"monomial", "rebuild", "rebuildDefault", "compute", "recalculate", "check", "divides", "bound", "copyCalculator", "assignCalculator"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C17";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    plan.set("type", rng.below(5));
    plan.set("mask", rng.chance(93));
    plan.set("calcs", rng.chance(70) ? 1 : rng.range(2, 3));
    static const i64 vars[] = {1, 2, 3, 31, 32, 33, 5, 11};
    plan.set("vars", rng.chance(50) ? vars[rng.below(8)] : rng.chance(3) ? 0 : rng.chance(50) ? rng.range(1, 8) : rng.range(1, 70));
    plan.set("dist", rng.below(6));
    const bool faults = rng.chance(65);
    const int faultPercent = rng.chance(50) ? 25 : 60;
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(10));
    w[OAddMono] += 12;
    w[OCompute] += 8;
    w[ORebuild] += 4;
    w[OCheck] = 1;
    w[OCopyCalc] = w[OAssignCalc] = static_cast<int>(rng.below(3));
    const i64 n = rng.range(4, rng.chance(30) ? 25 : thorough ? 180 : 80);
    std::vector<int> kinds;
    kinds.push_back(FAlloc);
    kinds.push_back(FExponent);
    kinds.push_back(FExponent);
    for (i64 i = 0; i < n; ++i) {
      Op op(i < 3 ? static_cast<int>(OAddMono) : static_cast<int>(rng.weighted(w)));
      op.add(rng.below(3)).add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind == OAddMono) op.add(rng.chance(40) ? 0 : rng.below(6));
      else if (op.kind == ORebuild || op.kind == ORebuildDefault) op.add(rng.chance(10) ? 0 : rng.range(1, 20)).add(rng.below(2));
      else if (op.kind == OCompute) {
        const i64 c = rng.range(1, 12);
        op.add(c).add(rng.below(c));
      } else if (op.kind == OBound) op.add(rng.range(1, 6));
      if (faults && rng.chance(faultPercent)) {
        if (op.kind == OExtDivides) drawFault(rng, op, std::vector<int>(1, FDivides), 1);
        else drawFault(rng, op, kinds, op.kind == ORebuild ? 120 : 12);
      }
      plan.ops.push_back(op);
    }
  }

  template<class E>
  void go(const Plan& plan) {
    if (plan.get("mask")) {Sim<E, true> s(plan); s.run();}
    else {Sim<E, false> s(plan); s.run();}
  }

  void harnessExecute(const Plan& plan) {
    switch (plan.get("type")) {
    case 0: go<int>(plan); break;
    case 1: go<unsigned char>(plan); break;
    case 2: go<short>(plan); break;
    case 3: go<unsigned long>(plan); break;
    default: go<unsigned int>(plan); break;
    }
  }
}
