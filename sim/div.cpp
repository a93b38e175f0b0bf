// Workload, reference model and oracle for the divisor finders (C06-C09).
#include "div.h"
#include <memory>
#include <ostream>
#include <set>

namespace dv {
  std::vector<Exps> table;
  u64 entryReads[2];

  std::ostream& operator<<(std::ostream& out, const Ent& e) {return out << e.id;}

  bool ConfBase::less(const Exps& x, const Exps& y) const {
    if (order == 0) {
      for (size_t i = 0; i < vars; ++i) if (x[i] != y[i]) return x[i] < y[i];
      return false;
    }
    if (order == 1) {
      for (size_t i = vars; i-- > 0;) if (x[i] != y[i]) return x[i] < y[i];
      return false;
    }
    i64 a = 0, b = 0;
    for (size_t i = 0; i < vars; ++i) {a += x[i]; b += y[i];}
    return a < b;
  }

  bool Visitor::see(const Ent& e) {
    if (stopped) afterStop = true;
    g.log(44, e.id);
    g.throwAt(FVisit);
    if (!e.check()) return false;
    seen.push_back(e.id);
    if (stopAfter >= 0 && static_cast<i64>(seen.size()) >= stopAfter) {
      stopped = true;
      return false;
    }
    return true;
  }
  bool Visitor::proceed(const Ent& e) {
    CbScope cb;
    return see(e);
  }
  bool Visitor::proceed(Ent& e) {
    CbScope cb;
    const size_t n = seen.size();
    const bool go = see(e);
    if (seen.size() > n) e.payload += addPayload;
    return go;
  }
  void Collector::push_back(Ent& e) {
    CbScope cb;
    g.log(45, e.id);
    g.throwAt(FOutput);
    if (e.check()) got.push_back(e.id);
  }
}

using namespace dv;

namespace {
  typedef std::set<std::uint32_t> Ids;

  struct Finder {
    std::unique_ptr<IFinder> f;
    Ids content;
    std::map<std::uint32_t, i64> payload;
    bool poisoned;
    Finder(): poisoned(false) {}
  };

  enum {OInsert, OInsertRange, ORemoveMultiples, ORemoveCollect, ORemoveElement, OFindDivisor, OFindAllDivisors,
    OFindAllMultiples, OForAll, OIterate, OMoveToFront, ORebuild, OClear, ORecreate, OBattery, OInfo};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void create(Finder& q, const Op& op);
    void destroy(Finder& q);
    void step(const Op& op);
    void verify(Finder& q);
    void battery(Finder& q, u64 salt, int count);
    void reconcile(Finder& q, const Ids& atLeast, const Ids& atMost, const char* what);
    Ids readAll(Finder& q, bool checkPayload);
    Exps pick(const Finder& q, i64 mode, u64 salt);
    std::uint32_t intern(const Exps& e) {table.push_back(e); return static_cast<std::uint32_t>(table.size() - 1);}
    bool divides(const Exps& a, const Exps& b) const {
      for (size_t i = 0; i < _p.vars; ++i) if (b[i] < a[i]) return false;
      return true;
    }
    Ids divisorsOf(const Finder& q, const Exps& m) const {
      Ids r;
      for (Ids::const_iterator it = q.content.begin(); it != q.content.end(); ++it) if (divides(table[*it], m)) r.insert(*it);
      return r;
    }
    Ids multiplesOf(const Finder& q, const Exps& m) const {
      Ids r;
      for (Ids::const_iterator it = q.content.begin(); it != q.content.end(); ++it) if (divides(m, table[*it])) r.insert(*it);
      return r;
    }
    void refusedRemoval(Finder& q, const Op& op, const Exps& m);
    bool tooManyEqual(const Finder& q, const Ids& ids) const;
    std::uint32_t newEntry(Finder& q, Exps e, std::map<Exps, size_t>& pending);
    Ids checkSeen(const Visitor& v, const Ids& expect, bool complete, const char* what);
    void applyPayload(Finder& q, const Visitor& v, bool mut);
    void checkDivisor(Finder& q, const Ent* e, const Exps& m, const char* what);
    std::string show(const Exps& e) const {
      std::string s = "(";
      for (size_t i = 0; i < _p.vars; ++i) s += strf(i ? ",%d" : "%d", e[i]);
      return s + ")";
    }

    const Plan& _plan;
    Params _p;
    int _config;
    int _mag;
    std::vector<Finder> _fs;
  };

  int magnitude(int mode, u64 h) {
    switch (mode) {
    case 0: return static_cast<int>(h % 4);
    case 1: return static_cast<int>(h % 21);
    case 2: return static_cast<int>(h % 1001);
    case 3: return (h & 3) ? 0 : static_cast<int>((h >> 8) % 10);
    default: {
      const u64 k = h % 5;
      h >>= 8;
      if (k == 0) return 0x7fffffff - static_cast<int>(h % 3);
      if (k == 1) return static_cast<int>(h % 5);
      return static_cast<int>(h & 0x7fffffff);
    }
    }
  }

  Exps Sim::pick(const Finder& q, i64 mode, u64 salt) {
    Exps e(_p.vars);
    u64 h = mix64(salt);
    if (mode == 0 || q.content.empty()) {
      for (size_t i = 0; i < _p.vars; ++i) {
        h = mix64(h);
        e[i] = magnitude(_mag, h);
      }
      return e;
    }
    if (mode == 4) { // one or zero everywhere
      for (size_t i = 0; i < _p.vars; ++i) {h = mix64(h); e[i] = salt % 3 == 0 ? 0 : static_cast<int>(h % 2);}
      return e;
    }
    Ids::const_iterator it = q.content.begin();
    std::advance(it, h % q.content.size());
    e = table[*it];
    if (mode == 1) return e;
    const int changes = 1 + static_cast<int>(mix64(h + 1) % 3);
    for (int c = 0; c < changes; ++c) {
      h = mix64(h + 7);
      const size_t v = h % _p.vars;
      const int d = 1 + static_cast<int>((h >> 20) % (((h >> 40) & 3) ? 2 : 30));
      if (mode == 2) e[v] = e[v] > 0x7fffffff - d ? 0x7fffffff : e[v] + d;
      else e[v] = e[v] < d ? 0 : e[v] - d;
    }
    if (mode == 5) { // gcd with another entry: small and likely to divide
      Ids::const_iterator j = q.content.begin();
      std::advance(j, mix64(h + 3) % q.content.size());
      for (size_t i = 0; i < _p.vars; ++i) e[i] = std::min(e[i], table[*j][i]);
    } else if (mode == 6) { // lcm: likely to be a multiple
      for (int k = 0; k < 3; ++k) {
        Ids::const_iterator j = q.content.begin();
        std::advance(j, mix64(h + 3 + k) % q.content.size());
        for (size_t i = 0; i < _p.vars; ++i) e[i] = std::max(e[i], table[*j][i]);
      }
    }
    return e;
  }

  void Sim::create(Finder& q, const Op& op) {
    q.content.clear();
    q.payload.clear();
    q.poisoned = false;
    const Params p = _p;
    const int config = _config;
    const Outcome o = sut(op, [&] {q.f.reset(makeFinder(config, p));});
    if (o == Done) return;
    if (o == Other) throw Violation("unexpected-exception", "construction threw something else than what was injected");
    g.probe("failed constructions");
    sutOk("construction", [&] {q.f.reset(makeFinder(config, p));});
  }

  void Sim::destroy(Finder& q) {
    sutOk("destruction", [&] {q.f.reset();});
  }

  Ids Sim::readAll(Finder& q, bool checkPayload) {
    Visitor v;
    sutOk("forAll", [&] {q.f->forAll(v, 1);});
    Ids ids;
    for (size_t i = 0; i < v.seen.size(); ++i)
      if (!ids.insert(v.seen[i]).second)
        throw Violation("duplicated-entry", strf("iteration visits entry %u %s twice", v.seen[i], show(table[v.seen[i]]).c_str()));
    return ids;
  }

  // For outcomes the property leaves open: what is stored must lie between
  // the bounds; the model then follows it.
  void Sim::reconcile(Finder& q, const Ids& atLeast, const Ids& atMost, const char* what) {
    const Ids now = readAll(q, false);
    for (Ids::const_iterator it = atLeast.begin(); it != atLeast.end(); ++it)
      if (!now.count(*it)) throw Violation("lost-entry", strf("%s lost entry %u %s", what, *it, show(table[*it]).c_str()));
    for (Ids::const_iterator it = now.begin(); it != now.end(); ++it)
      if (!atMost.count(*it)) throw Violation("invented-entry", strf("%s: entry %u is stored but should not be", what, *it));
    q.content = now;
  }

  void Sim::verify(Finder& q) {
    if (q.poisoned) return;
    size_t n = 0;
    bool e = false;
    sutOk("size", [&] {n = q.f->size(); e = q.f->empty();});
    const Ids now = readAll(q, true);
    for (Ids::const_iterator it = q.content.begin(); it != q.content.end(); ++it)
      if (!now.count(*it)) throw Violation("lost-entry", strf("entry %u %s is not visited by iteration", *it, show(table[*it]).c_str()));
    for (Ids::const_iterator it = now.begin(); it != now.end(); ++it)
      if (!q.content.count(*it)) throw Violation("invented-entry", strf("iteration visits entry %u which should not be stored", *it));
    if (n != q.content.size()) throw Violation("size", strf("size() is %zu with %zu entries stored", n, q.content.size()));
    if (e != q.content.empty()) throw Violation("size", strf("empty() is %d with %zu entries stored", int(e), q.content.size()));
    g.state(mix64(_config * 64 + _p.sort * 4 + _p.cache * 2 + _p.autob) ^ mix64(n * 77) ^ mix64(_p.vars * 1009 + g.firedInRun * 7));
  }

  Ids Sim::checkSeen(const Visitor& v, const Ids& expect, bool complete, const char* what) {
    Ids seen;
    for (size_t i = 0; i < v.seen.size(); ++i) {
      if (!expect.count(v.seen[i]))
        throw Violation("wrong-answer", strf("%s visits entry %u %s, which is not an answer", what, v.seen[i], v.seen[i] < table.size() ? show(table[v.seen[i]]).c_str() : "?"));
      if (!seen.insert(v.seen[i]).second)
        throw Violation("wrong-answer", strf("%s visits entry %u twice", what, v.seen[i]));
    }
    if (v.afterStop) throw Violation("visit-after-stop", strf("%s went on after the visitor asked it to stop", what));
    if (complete && !v.stopped && seen.size() != expect.size())
      for (Ids::const_iterator it = expect.begin(); it != expect.end(); ++it)
        if (!seen.count(*it)) throw Violation("missed-answer", strf("%s misses entry %u %s", what, *it, show(table[*it]).c_str()));
    return seen;
  }

  void Sim::applyPayload(Finder& q, const Visitor& v, bool mut) {
    if (!mut || v.addPayload == 0) return;
    for (size_t i = 0; i < v.seen.size(); ++i) q.payload[v.seen[i]] += v.addPayload;
  }

  void Sim::checkDivisor(Finder& q, const Ent* e, const Exps& m, const char* what) {
    const Ids d = divisorsOf(q, m);
    if (e == 0) {
      if (!d.empty()) throw Violation("missed-answer", strf("%s finds no divisor of %s but entry %u %s is one", what, show(m).c_str(), *d.begin(), show(table[*d.begin()]).c_str()));
      return;
    }
    e->check();
    g.checkFlag();
    if (!q.content.count(e->id)) throw Violation("wrong-answer", strf("%s returns entry %u which is not stored", what, e->id));
    if (!d.count(e->id)) throw Violation("wrong-answer", strf("%s returns entry %u %s, not a divisor of %s", what, e->id, show(table[e->id]).c_str(), show(m).c_str()));
    if (e->payload != q.payload[e->id]) throw Violation("wrong-answer", strf("%s returns entry %u with outdated content", what, e->id));
  }

  // Queries from outside the plan: as many monomials as asked for.
  void Sim::battery(Finder& q, u64 salt, int count) {
    for (int i = 0; i < count && !q.poisoned; ++i) {
      const u64 h = mix64(salt * 31 + i);
      const Exps m = pick(q, static_cast<i64>(h % 7), h >> 8);
      table.push_back(m);
      const Mono mono(static_cast<std::uint32_t>(table.size() - 1));
      const Ent* e = 0;
      sutOk("findDivisor", [&] {e = (h >> 40) & 1 ? q.f->findDivisorConst(mono) : q.f->findDivisor(mono);});
      checkDivisor(q, e, m, "findDivisor");
      Visitor d, u;
      sutOk("findAllDivisors", [&] {q.f->findAllDivisors(mono, d, 1);});
      checkSeen(d, divisorsOf(q, m), true, "findAllDivisors");
      sutOk("findAllMultiples", [&] {q.f->findAllMultiples(mono, u, 1);});
      checkSeen(u, multiplesOf(q, m), true, "findAllMultiples");
      table.pop_back();
    }
  }

  // Trees hold at most a leaf full of equal entries.
  std::uint32_t Sim::newEntry(Finder& q, Exps e, std::map<Exps, size_t>& pending) {
    // (unless it is to be seen what happens if there are too many)
    const size_t cap = q.f->maxEqual() + (_plan.get("tooequal") ? 2 : 0);
    for (;;) {
      size_t equal = pending[e];
      if (equal < cap)
        for (Ids::const_iterator it = q.content.begin(); it != q.content.end() && equal < cap; ++it)
          if (table[*it] == e) ++equal;
      if (equal < cap) break;
      for (size_t v = 0; v < _p.vars; ++v) {
        if (e[v] < 0x7fffffff) {++e[v]; break;}
        e[v] = 0;
      }
    }
    ++pending[e];
    return intern(e);
  }

  // Would a tree that holds ids have more equal entries than fit into a leaf?
  bool Sim::tooManyEqual(const Finder& q, const Ids& ids) const {
    if (!_plan.get("tooequal")) return false;
    std::map<Exps, size_t> count;
    for (Ids::const_iterator it = ids.begin(); it != ids.end(); ++it)
      if (++count[table[*it]] > q.f->maxEqual()) return true;
    return false;
  }

  // A structure configured not to support removals says so and changes nothing.
  void Sim::refusedRemoval(Finder& q, const Op& op, const Exps& m) {
#ifdef MATHIC_DEBUG
    return; // a build with assertions ends the program for this
#endif
    const Mono mono(intern(m));
    Collector c;
    const Outcome o = sut(op, [&] {
      if (op.kind == ORemoveElement) q.f->removeElement(mono);
      else if (op.kind == ORemoveCollect) q.f->removeMultiples(mono, c);
      else q.f->removeMultiples(mono);
    });
    g.say("refused removal of %s -> %s", show(m).c_str(), outcomeName(o));
    g.probe("refused removals");
    if (o == Done) throw Violation("removal-not-refused", "a removal is accepted although removals are not supported");
    if (!c.got.empty()) throw Violation("wrong-removal", "a refused removal hands out entries");
    reconcile(q, q.content, q.content, "a refused removal");
  }

  void Sim::step(const Op& op) {
    Finder& q = _fs[static_cast<size_t>(op.arg(0)) % _fs.size()];
    if (q.poisoned) {
      if (q.f->canClear() && (op.arg(1) & 1)) {
        g.probe("cleared after an aborted change");
        sutOk("clear", [&] {q.f->clear();});
        q.content.clear();
        q.payload.clear();
        q.poisoned = false;
        verify(q);
      } else {
        g.probe("destroyed after an aborted change");
        destroy(q);
        create(q, noFault);
      }
    }
    const bool tree = q.f->isTree();
    const u64 salt = static_cast<u64>(op.arg(1));
    const i64 mode = op.arg(2);
    g.log(60 + op.kind, q.content.size());
    bool failed = false;
    switch (op.kind) {
    case OInsert: {
      std::map<Exps, size_t> pending;
      const std::uint32_t id = newEntry(q, pick(q, mode, salt), pending);
      const Ent e(id);
      const Outcome o = sut(op, [&] {q.f->insert(e);});
      g.say("insert %u %s -> %s", id, show(table[id]).c_str(), outcomeName(o));
      Ids with = q.content;
      with.insert(id);
      const bool crowded = tooManyEqual(q, with);
      if (o == Other) {
        if (!crowded) throw Violation("unexpected-exception", "insert threw something else than what was injected");
        g.probe("refused insertions");
        reconcile(q, q.content, q.content, "a refused insert");
      } else if (o == Done) q.content.insert(id);
      else if (op.fault == FCopy || (tree && o == Faulted)) q.poisoned = true;
      else {
        failed = true;
        Ids most = q.content;
        most.insert(id);
        reconcile(q, q.content, most, "a failed insert");
        if ((op.arg(4) & 1) && !crowded && !q.content.count(id)) {
          g.probe("retried insertions");
          sutOk("retried insert", [&] {q.f->insert(e);});
          q.content.insert(id);
        }
      }
      break;
    }
    case OInsertRange: {
      std::map<Exps, size_t> pending;
      const i64 n = op.arg(3);
      std::vector<Ent> v;
      Ids added;
      for (i64 i = 0; i < n; ++i) {
        const std::uint32_t id = newEntry(q, pick(q, (i & 1) ? mode : 0, salt + static_cast<u64>(i) * 977), pending);
        v.push_back(Ent(id));
        added.insert(id);
      }
      Ids most = q.content;
      most.insert(added.begin(), added.end());
      const Outcome o = sut(op, [&] {q.f->insertRange(v);});
      g.say("insert range of %zu -> %s", v.size(), outcomeName(o));
      if (o == Other) {
        if (!tooManyEqual(q, most)) throw Violation("unexpected-exception", "range insert threw something else than what was injected");
        g.probe("refused range insertions");
        reconcile(q, q.content, most, "a refused range insert");
      } else if (o == Done) q.content = most;
      else if (op.fault == FCopy || (tree && o == Faulted)) q.poisoned = true;
      else {
        failed = true;
        reconcile(q, q.content, most, "a failed range insert");
      }
      break;
    }
    case ORemoveMultiples: case ORemoveCollect: {
      if (!q.f->removals()) {refusedRemoval(q, op, pick(q, mode, salt)); break;}
      const Exps m = pick(q, mode, salt);
      const Mono mono(intern(m));
      const Ids mult = multiplesOf(q, m);
      Ids rest = q.content;
      for (Ids::const_iterator it = mult.begin(); it != mult.end(); ++it) rest.erase(*it);
      Collector c;
      bool any = false;
      const bool collect = op.kind == ORemoveCollect;
      const Outcome o = sut(op, [&] {any = collect ? q.f->removeMultiples(mono, c) : q.f->removeMultiples(mono);});
      g.say("remove multiples of %s (%zu of %zu) -> %s", show(m).c_str(), mult.size(), q.content.size(), outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "removeMultiples threw something else than what was injected");
      Ids got;
      for (size_t i = 0; i < c.got.size(); ++i) {
        if (!got.insert(c.got[i]).second) throw Violation("handed-out-twice", strf("removeMultiples hands out entry %u twice", c.got[i]));
        if (!mult.count(c.got[i])) throw Violation("wrong-removal", strf("removeMultiples hands out entry %u which is no stored multiple", c.got[i]));
      }
      if (o == Done) {
        if (collect && got.size() != mult.size()) throw Violation("wrong-removal", strf("removeMultiples hands out %zu of %zu multiples", got.size(), mult.size()));
        if (any != !mult.empty()) throw Violation("wrong-removal", strf("removeMultiples returns %d when there are %zu multiples", int(any), mult.size()));
        q.content = rest;
      } else if (op.fault == FCopy) q.poisoned = true;
      else {
        failed = true;
        g.probe("aborted removals");
        if (collect) for (Ids::const_iterator it = got.begin(); it != got.end(); ++it) q.content.erase(*it);
        else reconcile(q, rest, q.content, "an aborted removeMultiples");
      }
      break;
    }
    case ORemoveElement: {
      if (!q.f->removals()) {refusedRemoval(q, op, pick(q, mode, salt)); break;}
      const Exps m = pick(q, mode, salt);
      const Mono mono(intern(m));
      Ids equal;
      for (Ids::const_iterator it = q.content.begin(); it != q.content.end(); ++it) if (table[*it] == m) equal.insert(*it);
      bool did = false;
      const Outcome o = sut(op, [&] {did = q.f->removeElement(mono);});
      g.say("remove element %s (%zu equal) -> %s", show(m).c_str(), equal.size(), outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "removeElement threw something else than what was injected");
      if (o == Done) {
        if (did != !equal.empty()) throw Violation("wrong-removal", strf("removeElement returns %d when %zu entries equal %s", int(did), equal.size(), show(m).c_str()));
        if (did) {
          const Ids now = readAll(q, false);
          size_t gone = 0;
          for (Ids::const_iterator it = equal.begin(); it != equal.end(); ++it) if (!now.count(*it)) ++gone;
          if (gone != 1) throw Violation("wrong-removal", strf("removeElement removed %zu of the %zu entries equal to %s", gone, equal.size(), show(m).c_str()));
          for (Ids::const_iterator it = equal.begin(); it != equal.end(); ++it) if (!now.count(*it)) q.content.erase(*it);
        }
      } else if (op.fault == FCopy) q.poisoned = true;
      else { // happened or not: the rebuild it triggered may be what failed
        failed = true;
        const size_t before = q.content.size();
        Ids least = q.content;
        for (Ids::const_iterator it = equal.begin(); it != equal.end(); ++it) least.erase(*it);
        reconcile(q, least, q.content, "an aborted removeElement");
        if (before - q.content.size() > 1) throw Violation("wrong-removal", "an aborted removeElement removed several entries");
      }
      break;
    }
    case OFindDivisor: {
      const Exps m = pick(q, mode, salt);
      const Mono mono(intern(m));
      const Ent* e = 0;
      i64 how = op.arg(3) % 3;
      if (how == 2 && !q.f->canIterate()) how = 0;
      const Outcome o = sut(op, [&] {e = how == 0 ? q.f->findDivisor(mono) : how == 1 ? q.f->findDivisorConst(mono) : q.f->viaIterator(mono);});
      g.say("find divisor of %s -> %s", show(m).c_str(), outcomeName(o));
      if (o == Done) checkDivisor(q, e, m, how == 2 ? "findDivisorIterator" : "findDivisor");
      else if (o == Other) throw Violation("unexpected-exception", "findDivisor threw something else than what was injected");
      else failed = true;
      break;
    }
    case OFindAllDivisors: case OFindAllMultiples: case OForAll: case OIterate: {
      if (op.kind == OIterate && !q.f->canIterate()) break;
      const Exps m = pick(q, mode, salt);
      const Mono mono(intern(m));
      Visitor v;
      const int how = static_cast<int>(op.arg(3) & 7);
      const bool mut = (how & 1) == 0;
      v.stopAfter = op.arg(4) > 0 ? op.arg(4) : -1;
      v.addPayload = op.arg(5);
      const Ids expect = op.kind == OFindAllDivisors ? divisorsOf(q, m) : op.kind == OFindAllMultiples ? multiplesOf(q, m) : q.content;
      const char* const what = op.kind == OFindAllDivisors ? "findAllDivisors" : op.kind == OFindAllMultiples ? "findAllMultiples" : op.kind == OForAll ? "forAll" : "iteration";
      const Outcome o = sut(op, [&] {
        switch (op.kind) {
        case OFindAllDivisors: q.f->findAllDivisors(mono, v, how & 1); break;
        case OFindAllMultiples: q.f->findAllMultiples(mono, v, how & 1); break;
        case OForAll: q.f->forAll(v, how & 1); break;
        default: q.f->iterate(v, how);
        }
      });
      g.say("%s %s stop after %lld (%zu answers) -> %s", what, show(m).c_str(), (long long)v.stopAfter, expect.size(), outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", strf("%s threw something else than what was injected", what));
      checkSeen(v, expect, o == Done, what);
      applyPayload(q, v, mut);
      if (o != Done || v.stopped) failed = true;
      break;
    }
    case OMoveToFront: {
      if (!q.f->canIterate() || _p.sort || q.content.empty()) break;
      Visitor v;
      const bool hit = (op.arg(3) & 1) != 0;
      std::uint32_t expectFront = NoId;
      if (hit) {
        const Exps m = pick(q, mode, salt);
        const Mono mono(intern(m));
        const Ent* e = 0;
        sutOk("findDivisorIterator", [&] {e = q.f->viaIterator(mono);});
        if (e != 0) expectFront = e->id;
        bool did = false;
        const Outcome o = sut(op, [&] {did = q.f->hitToFront(mono);});
        g.say("move divisor of %s to front -> %s", show(m).c_str(), outcomeName(o));
        if (o == Faulted && op.fault == FCopy) {q.poisoned = true; break;}
        if (o != Done) {failed = true; break;}
        if (did != (e != 0)) throw Violation("wrong-answer", "findDivisorIterator is not repeatable");
      } else {
        const size_t pos = salt % q.content.size();
        std::vector<std::uint32_t> order;
        Visitor before;
        sutOk("iteration", [&] {q.f->iterate(before, 1);});
        expectFront = pos < before.seen.size() ? before.seen[pos] : NoId;
        const Outcome o = sut(op, [&] {q.f->moveToFront(pos);});
        g.say("move position %zu to front -> %s", pos, outcomeName(o));
        if (o == Faulted && op.fault == FCopy) {q.poisoned = true; break;}
        if (o != Done) {failed = true; break;}
      }
      if (expectFront != NoId) {
        sutOk("iteration", [&] {q.f->iterate(v, 1);});
        if (v.seen.empty() || v.seen[0] != expectFront) throw Violation("wrong-front", strf("entry %u is not first after it was moved to the front", expectFront));
      }
      break;
    }
    case ORebuild: {
      const Outcome o = sut(op, [&] {q.f->rebuild();});
      g.say("rebuild %zu entries -> %s", q.content.size(), outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "rebuild threw something else than what was injected");
      if (o != Done) {
        failed = true;
        g.probe("aborted rebuilds");
        verify(q);
        battery(q, salt + 5, 2);
        if (op.arg(4) & 1) sutOk("retried rebuild", [&] {q.f->rebuild();});
      }
      break;
    }
    case OClear: {
      if (!q.f->canClear()) break;
      const Outcome o = sut(op, [&] {q.f->clear();});
      g.say("clear -> %s", outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "clear threw something else than what was injected");
      if (o != Done) {
        failed = true;
        g.probe("failed clears");
        reconcile(q, Ids(), q.content, "a failed clear");
        sutOk("retried clear", [&] {q.f->clear();});
      }
      q.content.clear();
      q.payload.clear();
      break;
    }
    case ORecreate:
      destroy(q);
      create(q, op);
      break;
    case OBattery:
      battery(q, salt, 4);
      break;
    case OInfo:
      sutOk("getName", [&] {q.f->name(); q.f->memory();});
      break;
    }
    verify(q);
    if (failed) battery(q, salt, 3);
  }

  void Sim::run() {
    table.clear();
    _config = static_cast<int>(_plan.get("config"));
    _mag = static_cast<int>(_plan.get("magnitude"));
    _p.vars = static_cast<size_t>(std::max<i64>(1, _plan.get("vars", 2)));
    _p.sort = _plan.get("sort") != 0;
    _p.cache = _plan.get("cache") != 0;
    _p.autob = _plan.get("autob") != 0;
    _p.ratio = static_cast<double>(std::max<i64>(1, _plan.get("ratio", 50))) / 100;
    _p.min = static_cast<size_t>(_plan.get("min"));
    _p.order = static_cast<int>(_plan.get("order"));
    _fs.resize(static_cast<size_t>(std::max<i64>(1, _plan.get("finders", 1))));
    for (size_t i = 0; i < _fs.size(); ++i) create(_fs[i], noFault);
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < _fs.size(); ++i) {
      if (!_fs[i].poisoned) {
        battery(_fs[i], 12345 + i, 4);
        // what earlier visitors wrote into the entries is still there
        Finder& q = _fs[i];
        if (q.content.size() > 1500) g.probe("more than 1500 entries");
        const size_t every = 1 + q.content.size() / 400;
        size_t at = 0;
        for (Ids::iterator it = q.content.begin(); it != q.content.end(); ++it) {
          if (++at % every != 0) continue;
          table.push_back(table[*it]);
          const Mono mono(static_cast<std::uint32_t>(table.size() - 1));
          const Ent* e = 0;
          sutOk("findDivisor", [&] {e = q.f->findDivisor(mono);});
          checkDivisor(q, e, table.back(), "findDivisor");
          if (e == 0) throw Violation("missed-answer", "an entry does not divide itself");
          table.pop_back();
        }
      }
      destroy(_fs[i]);
    }
    _fs.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"insert", "insertRange", "removeMultiples", "removeCollect", "removeElement", "findDivisor",
    "findAllDivisors", "findAllMultiples", "forAll", "iterate", "moveToFront", "rebuild", "clear", "recreate", "battery", "info"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C06" || p == "C07" || p == "C08" || p == "C09";}
  void harnessExecute(const Plan& plan) {::Sim s(plan); s.run();}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    const bool c06 = p.prop == "C06", c07 = p.prop == "C07", c08 = p.prop == "C08", c09 = p.prop == "C09";
    p.set("config", r.chance(20) ? 48 + r.range(0, 3) : static_cast<i64>(r.below(48)));
    const bool list = p.get("config") >= 48;
    p.set("finders", r.chance(85) ? 1 : 2);
    p.set("vars", r.chance(92) ? r.range(1, 6) : r.range(7, 40));
    p.set("magnitude", static_cast<i64>(r.below(5)));
    p.set("sort", r.chance(50));
    p.set("cache", r.chance(40));
    p.set("autob", r.chance(60));
    p.set("ratio", r.chance(50) ? 50 : r.range(1, 200));
    p.set("min", r.chance(60) ? r.range(0, 5) : r.range(0, 60));
    p.set("order", static_cast<i64>(r.below(3)));
    p.set("tooequal", r.chance(8));
    const bool faults = r.chance(c06 ? 35 : c07 ? 60 : 85);
    const int rate = faults ? static_cast<int>(r.range(3, 40)) : 0;
    std::vector<int> change, remove, query, build;
    change.push_back(FAlloc);
    if (r.chance(list ? 60 : 25)) {change.push_back(FExponent); change.push_back(FLess); change.push_back(FAny);}
    if (c09 && r.chance(70)) change.push_back(FCopy);
    static const std::vector<int> rem = {FDivides, FOutput, FExponent, FAlloc, FAny};
    for (size_t i = 0; i < rem.size(); ++i) if (r.chance(65)) remove.push_back(rem[i]);
    remove.push_back(FDivides);
    if (c09 && r.chance(50)) remove.push_back(FCopy);
    static const std::vector<int> que = {FDivides, FVisit, FExponent, FAlloc, FLess, FAny, FCopy};
    for (size_t i = 0; i < que.size(); ++i) if (r.chance(65)) query.push_back(que[i]);
    query.push_back(FVisit);
    static const std::vector<int> bui = {FAlloc, FExponent, FLess, FAny, FCopy};
    for (size_t i = 0; i < bui.size(); ++i) if (r.chance(65)) build.push_back(bui[i]);
    build.push_back(FAlloc);
    //                         ins rng rm rc re fd ad am fa it mf rb cl rec bat info
    static const int base[] = {40, 5,  3, 4, 5, 15, 6, 6, 4, 3, 4, 4, 1, 1, 2, 1};
    std::vector<int> w(opCount, 0);
    for (size_t i = 0; i < opCount; ++i) {
      w[i] = base[i];
      if (c08 && (i == ORebuild || (i >= OFindDivisor && i <= OForAll))) w[i] *= 2;
      if (r.chance(15)) w[i] = 0;
      else if (r.chance(15)) w[i] *= 4;
    }
    if (w[OInsert] == 0 && w[OInsertRange] == 0) w[OInsert] = 30;
    const bool grow = r.chance(30); // large content: remove little
    if (grow) {
      w[ORemoveMultiples] = w[ORemoveCollect] = 0;
      w[OClear] = w[ORecreate] = 0;
    }
    i64 n = r.range(3, thorough ? 200 : 90);
    if (r.chance(30)) n = r.range(2, 20);
    i64 total = 0;
    // Rarely thousands of entries.
    const bool huge = r.below(thorough ? 1000 : 2000) == 0;
    if (huge) {
      n = r.range(2, 25);
      p.set("magnitude", r.range(1, 4) == 3 ? 4 : r.range(1, 2));
      p.set("vars", r.range(2, 8));
      w[OClear] = w[ORecreate] = 0;
    }
    for (i64 i = 0; i < n; ++i) {
      if (huge && (i == 0 || r.chance(10))) {
        Op op(OInsertRange);
        op.add(0).add(static_cast<i64>(r.below(1000000))).add(0).add(i == 0 ? r.range(1500, 3500) : r.range(1, 300));
        if (rate && r.chance(rate)) drawFault(r, op, change, 6000);
        p.ops.push_back(op);
        continue;
      }
      Op op(static_cast<int>(r.weighted(w)));
      op.add(static_cast<i64>(r.below(2)));
      op.add(static_cast<i64>(r.below(1000000)));
      // mode
      switch (op.kind) {
      case OInsert: case OInsertRange: op.add(r.chance(60) ? 0 : r.range(1, 6)); break;
      case ORemoveMultiples: case ORemoveCollect: op.add(r.chance(50) ? 2 : r.chance(60) ? 1 : r.range(0, 6)); break;
      case ORemoveElement: op.add(r.chance(75) ? 1 : r.range(0, 6)); break;
      default: op.add(r.chance(30) ? 0 : r.range(1, 6));
      }
      switch (op.kind) {
      case OInsertRange: {
        i64 k = r.chance(5) ? 0 : r.small(thorough ? 200 : 80);
        if (total + k > 400) k = 1;
        total += k;
        op.add(k);
        break;
      }
      case OFindAllDivisors: case OFindAllMultiples: case OForAll: case OIterate:
        op.add(static_cast<i64>(r.below(8)));
        op.add(r.chance(60) ? 0 : r.small(8));
        op.add(r.chance(50) ? 0 : r.range(1, 9));
        break;
      default: op.add(static_cast<i64>(r.below(6)));
      }
      if (op.kind == OInsert || op.kind == ORebuild) op.add(static_cast<i64>(r.below(2)));
      if (rate && r.chance(rate)) {
        switch (op.kind) {
        case OInsert: case OInsertRange: drawFault(r, op, change, op.kind == OInsert ? 6 : 30); break;
        case ORemoveMultiples: case ORemoveCollect: case ORemoveElement: drawFault(r, op, remove, 8); break;
        case OMoveToFront: if (c09 && r.chance(50)) {static const std::vector<int> k = {FCopy}; drawFault(r, op, k, 4);} break;
        case ORebuild: drawFault(r, op, build, 30); break;
        case OClear: case ORecreate: {static const std::vector<int> k = {FAlloc}; drawFault(r, op, k, 2); break;}
        case OBattery: case OInfo: break;
        default: drawFault(r, op, query, 8);
        }
        if (op.fault == FAlloc && op.kind != ORebuild) op.at = r.small(5);
      }
      p.ops.push_back(op);
    }
  }
}
