// Workload, reference model and oracle for BitTriangle (C11).
#include "sim.h"
#include <mathic/BitTriangle.h>
#include <memory>

namespace {
  using namespace sim;
  typedef std::vector<std::vector<bool> > Model;

  struct Tri {
    std::unique_ptr<mathic::BitTriangle> t;
    Model m;
    size_t wobble;
    Tri(): wobble(0) {}
  };

  enum {OAdd, OAddMany, OSet, OSetUnordered, OFlood, ORead, OScan, ORecreate, OCopy, OAssign, OMark, OFill};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void step(const Op& op);
    bool add(Tri& t, const Op& op);
    void cell(const Tri& t, u64 h, size_t& c, size_t& r) const;
    void check(Tri& t, size_t c, size_t r);
    void verify(Tri& t, bool full, u64 salt);
    const Plan& _plan;
    size_t _max;
    std::vector<Tri> _ts;
  };

  bool Sim::add(Tri& t, const Op& op) {
    const Outcome o = sut(op, [&] {t.t->addColumn();});
    if (o != Done && o != NoMemory) throw Violation("unexpected-exception", "addColumn threw something else than what was injected");
    if (o == Done) t.m.push_back(std::vector<bool>(t.m.size(), false));
    else g.probe("failed additions");
    g.say("addColumn -> %s, now %zu", outcomeName(o), t.m.size());
    return o == Done;
  }

  // mostly near the edges of the triangle and of machine words
  void Sim::cell(const Tri& t, u64 h, size_t& c, size_t& r) const {
    const size_t n = t.m.size(); // at least 2
    c = 1 + static_cast<size_t>((h >> 4) % (n - 1));
    if ((h & 3) == 0) c = n - 1;
    r = static_cast<size_t>((h >> 34) % c);
    if (((h >> 2) & 3) == 0) r = (h >> 33) & 1 ? c - 1 : 0;
    else if (((h >> 2) & 3) == 1) {
      const size_t w = (r + 32) / 64 * 64;
      if (w < c) r = w;
      if (r > 0 && ((h >> 33) & 1)) --r;
    }
  }

  void Sim::check(Tri& t, size_t c, size_t r) {
    bool a = false, b = false, d = false;
    const mathic::BitTriangle& ct = *t.t;
    sutOk("bit", [&] {
      a = ct.bit(c, r);
      b = ct.bitUnordered(c, r);
      d = ct.bitUnordered(r, c);
    });
    const bool want = t.m[c][r];
    if (a != want) throw Violation("wrong-bit", strf("bit(%zu,%zu) is %d, should be %d", c, r, a, want));
    if (b != want || d != want) throw Violation("wrong-bit", strf("bitUnordered of %zu and %zu is %d and %d, should be %d", c, r, b, d, want));
  }

  void Sim::verify(Tri& t, bool full, u64 salt) {
    size_t n = 0, mem = 0;
    bool e = false;
    sutOk("columnCount", [&] {n = t.t->columnCount(); e = t.t->empty(); mem = t.t->getMemoryUse();});
    if (n != t.m.size()) throw Violation("column-count", strf("columnCount() is %zu, should be %zu", n, t.m.size()));
    if (e != t.m.empty()) throw Violation("column-count", strf("empty() is %d with %zu columns", e, t.m.size()));
    // a lower bound that every representation has to respect
    if (mem < n * (n - (n > 0)) / 2 / 8) throw Violation("memory-use", strf("getMemoryUse() is %zu with %zu columns", mem, n));
    if (n >= 2) {
      if (n <= 12 || (full && n <= 700)) {
        for (size_t c = 1; c < n; ++c) for (size_t r = 0; r < c; ++r) check(t, c, r);
      } else {
        if (n > 60000) g.probe("more than 60000 columns");
        for (int i = 0; i < (full ? 3000 : 24); ++i) {
          size_t c, r;
          cell(t, mix64(salt * 31 + i), c, r);
          check(t, c, r);
        }
        if (full && n > 700) { // three bits of each column and all of a few
          for (size_t c = 1; c < n; ++c) {
            check(t, c, 0);
            check(t, c, c / 2);
            check(t, c, c - 1);
          }
          for (int k = 0; k < 3; ++k) {
            const size_t c = k == 0 ? n - 1 : 1 + mix64(salt + k) % (n - 1);
            for (size_t r = 0; r < c; ++r) check(t, c, r);
          }
        }
      }
    }
    u64 h = n;
    if (n <= 24) for (size_t c = 1; c < n; ++c) for (size_t r = 0; r < c; ++r) h = h * 3 + (t.m[c][r] ? 2 : 1);
    g.state(mix64(h) ^ mix64(g.firedInRun));
  }

  void Sim::step(const Op& op) {
    Tri& t = _ts[static_cast<size_t>(op.arg(0)) % _ts.size()];
    Tri& other = _ts[static_cast<size_t>(op.arg(0) + 1) % _ts.size()];
    const u64 salt = static_cast<u64>(op.arg(1));
    const size_t n = t.m.size();
    g.log(60 + op.kind, n);
    bool failed = false;
    switch (op.kind) {
    case OAdd:
      if (n >= _max) break;
      failed = !add(t, op);
      if (failed && (op.arg(1) & 1)) {
        verify(t, true, salt);
        if (!add(t, noFault)) throw Violation("no-recovery", "retried addColumn fails");
        g.probe("retried additions");
      }
      break;
    case OAddMany:
      for (i64 i = 0; i < op.arg(2) && t.m.size() < _max; ++i)
        if (!add(t, i == op.arg(3) ? op : noFault)) failed = true;
      break;
    case OSet:
    case OSetUnordered: {
      if (n < 2) break;
      size_t c, r;
      cell(t, mix64(salt), c, r);
      const bool v = op.arg(2) & 1;
      if (op.kind == OSet) sutOk("setBit", [&] {t.t->setBit(c, r, v);});
      else if (op.arg(2) & 2) sutOk("setBitUnordered", [&] {t.t->setBitUnordered(c, r, v);});
      else sutOk("setBitUnordered", [&] {t.t->setBitUnordered(r, c, v);});
      t.m[c][r] = v;
      check(t, c, r);
      break;
    }
    case OFlood: // write many bits
      if (n < 2) break;
      for (i64 i = 0; i < op.arg(2); ++i) {
        size_t c, r;
        const u64 h = mix64(salt * 131 + i);
        cell(t, h, c, r);
        const bool v = (h >> 60) & 3 ? 1 : 0;
        sutOk("setBit", [&] {t.t->setBit(c, r, v);});
        t.m[c][r] = v;
      }
      break;
    case ORead:
      break;
    case OMark: // three bits of each column
      for (size_t c = 1; c < n; ++c) {
        const size_t rows[] = {0, c / 2, c - 1};
        for (int k = 0; k < 3; ++k) {
          const bool v = mix64(salt * 7 + c * 3 + k) & 1;
          sutOk("setBit", [&] {t.t->setBit(c, rows[k], v);});
          t.m[c][rows[k]] = v;
        }
      }
      if (n > 1) check(t, n - 1, 0);
      break;
    case OFill: { // a whole column
      if (n < 2) break;
      const size_t c = op.arg(2) & 1 ? n - 1 : 1 + mix64(salt) % (n - 1);
      const u64 kind = mix64(salt + 1) % 3;
      for (size_t r = 0; r < c; ++r) {
        const bool v = kind == 2 ? mix64(salt + r) & 1 : kind;
        sutOk("setBit", [&] {t.t->setBit(c, r, v);});
        t.m[c][r] = v;
      }
      break;
    }
    case OScan:
      verify(t, true, salt);
      break;
    case ORecreate:
      sutOk("destruction", [&] {t.t.reset();});
      t.m.clear();
      sutOk("construction", [&] {t.t.reset(new mathic::BitTriangle());});
      break;
    case OCopy: { // copy construction, a failed copy changes nothing
      std::unique_ptr<mathic::BitTriangle> c;
      const mathic::BitTriangle& from = *other.t;
      const Outcome o = sut(op, [&] {c.reset(new mathic::BitTriangle(from));});
      if (o == Done) {
        sutOk("destruction", [&] {t.t = std::move(c);});
        t.m = other.m;
      } else failed = true;
      break;
    }
    case OAssign: {
      // only the source is guaranteed to survive a failed assignment
      const mathic::BitTriangle& from = *other.t;
      const Outcome o = sut(op, [&] {*t.t = from;});
      if (o == Done) t.m = other.m;
      else {
        sutOk("destruction", [&] {t.t.reset();});
        sutOk("construction", [&] {t.t.reset(new mathic::BitTriangle());});
        t.m.clear();
        verify(other, true, salt);
      }
      break;
    }
    }
    verify(t, failed, salt);
    if (_ts.size() > 1) verify(other, false, salt + 1);
  }

  void Sim::run() {
    _max = static_cast<size_t>(std::min<i64>(70000, std::max<i64>(2, _plan.get("max", 2))));
    const size_t n = static_cast<size_t>(std::min<i64>(3, std::max<i64>(1, _plan.get("triangles", 1))));
    _ts.resize(n);
    for (size_t i = 0; i < n; ++i) sutOk("construction", [&] {_ts[i].t.reset(new mathic::BitTriangle());});
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < n; ++i) verify(_ts[i], true, 5);
    sutOk("destruction", [&] {for (size_t i = 0; i < n; ++i) _ts[i].t.reset();});
  }
}

namespace sim {
  const char* const opNames[] = {"addColumn", "addMany", "setBit", "setBitUnordered", "flood", "read", "scan", "recreate", "copy", "assign", "mark", "fill"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C11";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    plan.set("triangles", rng.chance(60) ? 1 : rng.range(2, 3));
    const i64 max = rng.chance(40) ? rng.range(2, 12) : rng.chance(60) ? rng.range(12, 140) : rng.range(140, thorough ? 700 : 300);
    plan.set("max", max);
    const bool faults = rng.chance(70);
    const int faultPercent = rng.chance(50) ? 25 : 70;
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(10));
    w[OAdd] += 15;
    w[OSet] += 5;
    w[ORead] = 0;
    w[OAddMany] = max > 12 ? static_cast<int>(rng.below(10)) : 1;
    w[OScan] = 1;
    w[OMark] = w[OFill] = rng.chance(30) ? 1 : 0;
    w[ORecreate] = static_cast<int>(rng.below(2));
    w[OCopy] = w[OAssign] = static_cast<int>(rng.below(2));
    const i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 200 : 90);
    std::vector<int> kinds(1, FAlloc);
    // Rarely so many columns that the number of bits needs more than 31 bits.
    if (rng.below(thorough ? 60000 : 20000) == 0) {
      plan.set("triangles", 1);
      plan.set("max", 70000);
      Op op(OAddMany);
      const i64 c = rng.chance(25) ? rng.range(2000, 30000) : rng.range(65530, 67000);
      op.add(0).add(static_cast<i64>(rng.below(1u << 30))).add(c).add(rng.below(c));
      if (faults) drawFault(rng, op, kinds, 1);
      plan.ops.push_back(op);
      w[ORecreate] = w[OCopy] = w[OAssign] = 0;
      plan.ops.push_back(Op(OMark).add(0).add(static_cast<i64>(rng.below(1u << 30))));
      for (int k = 0; k < 3; ++k)
        plan.ops.push_back(Op(OFill).add(0).add(static_cast<i64>(rng.below(1u << 30))).add(k));
    }
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(rng.below(3)).add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind == OSet || op.kind == OSetUnordered) op.add(rng.below(4));
      if (op.kind == OFlood) op.add(rng.range(1, 80));
      if (op.kind == OFill) op.add(rng.below(2));
      if (op.kind == OAddMany) {
        const i64 c = rng.small(std::min<i64>(max, 150));
        op.add(c).add(rng.below(c));
      }
      if (faults && rng.chance(faultPercent)) drawFault(rng, op, kinds, op.kind == OCopy || op.kind == OAssign ? 30 : 3);
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
