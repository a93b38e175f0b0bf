// Workload, reference model and oracle for printing containers (C29).
// All queues, ComTree and both kinds of KD tree are filled, partly emptied and
// printed to streams that fail, with allocations that fail and with entries
// whose operator<< throws.
#include "plain.h"
#include "simio.h"
#include <mathic/ComTree.h>
#include <mathic/BinaryKDTree.h>
#include <mathic/PackedKDTree.h>
#include <memory>
#include <set>
#include <sstream>

namespace {
  typedef std::multiset<std::uint32_t> Ids;

  // Addresses are part of some texts, so characters are not logged.
  struct Out {
    Out(): broken(false) {}
    std::string data;
    bool broken;
  };
  class OutBuf: public std::streambuf {
  public:
    explicit OutBuf(Out& o): _o(o) {}
  protected:
    virtual int_type overflow(int_type c) {
      if (c == traits_type::eof()) return traits_type::not_eof(c);
      return put(static_cast<char>(c)) ? c : traits_type::eof();
    }
    virtual std::streamsize xsputn(const char* p, std::streamsize n) {
      for (std::streamsize i = 0; i < n; ++i) if (!put(p[i])) return i;
      return n;
    }
  private:
    bool put(char c) {
      CbScope cb;
      if (g.point(FStream)) {
        _o.broken = true;
        return false;
      }
      _o.data += c;
      return true;
    }
    Out& _o;
  };

  // A container that can be printed.
  struct IBox {
    IBox(): count(0) {}
    virtual ~IBox() {}
    virtual void construct() = 0;
    virtual void destroy() = 0;
    virtual Outcome add(const Op& op, u64 salt) = 0;  // adds entry number count
    virtual Outcome drop(u64 salt) = 0;               // removes one entry
    virtual bool clear() {return false;}
    virtual void refill(u64) {}                       // rebuilt from what it holds
    virtual void print(std::ostream& out) = 0;
    virtual std::string name() {return "";}
    virtual void content(Ids& ids) = 0;               // by other means than printing
    // what is printed of the content; throws Violation
    virtual void judge(const std::string& text) = 0;
    std::uint32_t count;
    Ids m;
  };

  std::vector<std::uint32_t> tokens(const std::string& s) {
    std::vector<std::uint32_t> r;
    for (size_t i = 0; i < s.size(); ++i)
      if (s[i] == '#') r.push_back(static_cast<std::uint32_t>(std::strtoul(s.c_str() + i + 1, 0, 10)));
    return r;
  }
  void allOnce(const std::string& text, const Ids& m) {
    const std::vector<std::uint32_t> t = tokens(text);
    const Ids s(t.begin(), t.end());
    if (s == m) return;
    for (Ids::const_iterator it = m.begin(); it != m.end(); ++it)
      if (s.count(*it) != 1) throw Violation("wrong-text", strf("entry %u is printed %zu times: ", *it, s.count(*it)) + quote(text));
    throw Violation("wrong-text", "what is printed shows an entry that is not held: " + quote(text));
  }

  struct QueueBox: IBox {
    int kind, flags;
    i64 keys;
    pq::ConfBase c;
    std::unique_ptr<pq::IQueue> q;
    void construct() {
      const pq::ConfBase conf = c;
      const int k = kind, fl = flags;
      sutOk("construction", [&] {
        q.reset(k != pq::KGeo ? pq::makeSmall(k, fl, conf) :
          fl / 16 == 0 ? pq::makeGeoPart0(fl % 16, conf) : fl / 16 == 1 ? pq::makeGeoPart5(fl % 16, conf) : pq::makeGeoPart10(fl % 16, conf));
      });
    }
    void destroy() {sutOk("destruction", [&] {q.reset();});}
    Outcome add(const Op& op, u64 salt) {
      const std::uint32_t id = count++;
      if (pq::bags.size() <= id) pq::bags.resize(id + 1);
      // a queue that merges equal entries gets none
      pq::bags[id].key = q->dedup() ? static_cast<i64>(mix64(salt) << 24 >> 2) + id : static_cast<i64>(mix64(salt) % static_cast<u64>(keys));
      pq::bags[id].queue = c.queue;
      pq::bags[id].ids.assign(1, id);
      const pq::Ent e(id);
      const Outcome o = sut(op, [&] {q->push(e);});
      if (o == Done) m.insert(id);
      return o;
    }
    Outcome drop(u64) {
      if (m.empty()) return Done;
      std::uint32_t h = pq::NoHandle;
      sutOk("pop", [&] {h = q->pop().h;});
      if (!m.count(h)) throw Violation("wrong-content", strf("pop gives entry %u, which is not held", h));
      m.erase(m.find(h));
      return Done;
    }
    bool clear() {
      if (!q->hasClear()) return false;
      sutOk("clear", [&] {q->clear();});
      return true;
    }
    void print(std::ostream& out) {q->print(out);}
    std::string name() {
      std::string n;
      sutOk("getName", [&] {const std::string s = q->name(); CbScope cb; n = s;});
      return n;
    }
    void content(Ids& ids) {
      if (!q->hasForAll()) {ids = m; return;}
      pq::Visitor v;
      sutOk("forAll", [&] {q->forAll(v);});
      ids.insert(v.seen.begin(), v.seen.end());
    }
    void judge(const std::string& text) {
      const std::string n = name();
      if (!isPrefix(n, text)) throw Violation("wrong-text", "what is printed does not start with the name " + quote(n) + ": " + quote(text));
      if (kind == pq::KTour) {
        // shows where entries are, not what they are
        if (tokens(text).size() > m.size()) throw Violation("wrong-text", "more entries than held are printed: " + quote(text));
        return;
      }
      if (kind != pq::KGeo) return allOnce(text, m);
      // A line for each bucket, with "[size/capacity]" at the end. All entries
      // of small buckets are shown, and the first and last of others.
      size_t sum = 0;
      std::istringstream in(text.substr(n.size()));
      std::string line;
      std::set<std::uint32_t> seen;
      while (std::getline(in, line)) {
        const size_t b = line.rfind('[');
        if (b == std::string::npos) continue;
        unsigned long size = 0, cap = 0;
        if (std::sscanf(line.c_str() + b, "[%lu/%lu]", &size, &cap) != 2 || size > cap)
          throw Violation("wrong-text", "a bucket is shown as " + quote(line));
        sum += size;
        const std::vector<std::uint32_t> t = tokens(line);
        if (t.size() > size || (size <= 4 && t.size() != size) || (size > 4 && t.size() < 4))
          throw Violation("wrong-text", strf("%zu entries are shown for a bucket of %lu: ", t.size(), size) + quote(line));
        if (size > 4) g.probe("buckets shown in part");
        for (size_t i = 0; i < t.size(); ++i) {
          if (!m.count(t[i])) throw Violation("wrong-text", strf("entry %u is shown and not held: ", t[i]) + quote(text));
          if (!seen.insert(t[i]).second) throw Violation("wrong-text", strf("entry %u is shown twice: ", t[i]) + quote(text));
        }
      }
      if (sum != m.size()) throw Violation("wrong-text", strf("buckets of %zu entries are shown, %zu are held: ", sum, m.size()) + quote(text));
    }
  };

  template<class E, bool FI> struct ComBox: IBox {
    std::unique_ptr<mathic::ComTree<pq::Ent, FI> > t;
    typedef typename mathic::ComTree<pq::Ent, FI>::Node Node;
    void construct() {sutOk("construction", [&] {t.reset(new mathic::ComTree<pq::Ent, FI>());});}
    void destroy() {sutOk("destruction", [&] {t.reset();});}
    Outcome add(const Op& op, u64) {
      const pq::Ent e(count++);
      const Outcome o = sut(op, [&] {t->pushBack(e);});
      if (o == Done) m.insert(e.h);
      return o;
    }
    Outcome drop(u64) {
      if (m.empty()) return Done;
      std::uint32_t h = 0;
      sutOk("popBack", [&] {h = (*t)[t->lastLeaf()].h; t->popBack();});
      if (!m.count(h)) throw Violation("wrong-content", strf("the last entry is %u, which is not held", h));
      m.erase(m.find(h));
      return Done;
    }
    bool clear() {
      sutOk("clear", [&] {t->clear();});
      return true;
    }
    void print(std::ostream& out) {
      const mathic::ComTree<pq::Ent, FI>& c = *t;
      if (count % 2) out << c;
      else c.print(out);
    }
    void content(Ids& ids) {
      const mathic::ComTree<pq::Ent, FI>& c = *t;
      for (Node n; n <= c.lastLeaf(); ++n) ids.insert(c[n].h);
    }
    void judge(const std::string& text) {
      allOnce(text, m);
      // breadth first
      const mathic::ComTree<pq::Ent, FI>& c = *t;
      const std::vector<std::uint32_t> v = tokens(text);
      size_t i = 0;
      for (Node n; n <= c.lastLeaf(); ++n, ++i)
        if (v[i] != c[n].h) throw Violation("wrong-text", strf("node %zu is shown as %u, holds %u: ", i + 1, v[i], c[n].h) + quote(text));
    }
  };

  template<size_t Leaf, bool UDM, bool UTDM> struct KdConf: dv::ConfBase {
    static const bool UseDivMask = UDM;
    static const bool UseTreeDivMask = UTDM;
    static const size_t LeafSize = Leaf;
    static const bool AllowRemovals = true;
    size_t getLeafSize() const {return Leaf;}
  };
  struct KdParams {dv::Params p;};
  template<template<class> class Tree, class C> struct KdBox: IBox, KdParams {
    typedef Tree<C> T;
    typedef typename T::ExtEntry Ext;
    typedef typename T::DivMaskCalculator Calc;
    std::unique_ptr<T> t;
    std::unique_ptr<Calc> calc;
    std::set<dv::Exps> held; // all different
    C conf() const {
      C c;
      static_cast<dv::Params&>(c) = p;
      return c;
    }
    void construct() {
      const C c = conf();
      sutOk("construction", [&] {t.reset(new T(c)); calc.reset(new Calc(c));});
    }
    void destroy() {sutOk("destruction", [&] {t.reset(); calc.reset();});}
    Outcome add(const Op& op, u64 salt) {
      dv::Exps e(p.vars);
      for (size_t i = 0; i < p.vars; ++i) e[i] = static_cast<int>(mix64(salt + i) % 12);
      if (held.count(e)) return Done;
      const std::uint32_t id = count++;
      if (dv::table.size() <= id) dv::table.resize(id + 1);
      dv::table[id] = e;
      const dv::Ent ent(id);
      const Outcome o = sut(op, [&] {
        const Ext ext(ent, *calc, t->getConfiguration());
        t->insert(ext);
      });
      if (o == Done) {
        m.insert(id);
        held.insert(e);
      }
      return o;
    }
    Outcome drop(u64 salt) {
      if (m.empty()) return Done;
      Ids::iterator it = m.begin();
      std::advance(it, salt % m.size());
      const dv::Mono mono(*it);
      bool r = false;
      sutOk("removeElement", [&] {r = t->removeElement(mono);});
      if (!r) throw Violation("wrong-content", strf("entry %u is held and cannot be removed", *it));
      held.erase(dv::table[*it]);
      m.erase(it);
      return Done;
    }
    bool clear() {
      sutOk("clear", [&] {t->clear();});
      held.clear();
      return true;
    }
    void refill(u64 salt) {
      std::vector<dv::Ent> v;
      for (Ids::iterator it = m.begin(); it != m.end(); ++it) v.push_back(dv::Ent(*it));
      if (v.empty()) return;
      for (size_t i = v.size(); --i > 0;) std::swap(v[i].id, v[mix64(salt + i) % (i + 1)].id);
      sutOk("reset", [&] {
        Calc c(*calc);
        c.rebuild(v.begin(), v.end(), t->getConfiguration());
        t->reset(v.begin(), v.end(), c);
        std::swap(*calc, c);
      });
    }
    void print(std::ostream& out) {static_cast<const T&>(*t).print(out);}
    void content(Ids& ids) {
      dv::Visitor v;
      sutOk("forAll", [&] {t->forAll(v);});
      ids.insert(v.seen.begin(), v.seen.end());
      // and what queries find
      for (Ids::iterator it = m.begin(); it != m.end(); ++it) {
        const dv::Mono mono(*it);
        dv::Ent* e = 0;
        sutOk("findDivisor", [&] {
          const typename T::ExtMonoRef ext(mono, *calc, t->getConfiguration());
          e = t->findDivisor(ext);
        });
        if (!e || !m.count(e->id)) throw Violation("wrong-content", strf("no divisor of entry %u is found", *it));
        if (std::distance(m.begin(), it) > 20) break;
      }
    }
    void judge(const std::string& text) {allOnce(text, m);}
  };
  template<template<class> class Tree, size_t Leaf> IBox* makeKd(int mask, const dv::Params& p) {
    IBox* r;
    KdParams* k;
#define KD(u, v) {KdBox<Tree, KdConf<Leaf, u, v> >* b = new KdBox<Tree, KdConf<Leaf, u, v> >(); r = b; k = b;}
    if (mask == 0) KD(false, false)
    else if (mask == 1) KD(true, false)
    else KD(true, true)
    k->p = p;
    return r;
  }

  enum {OAdd, OAddMany, ODrop, ODropMany, OPrint, OClear, ORefill, ORecreate};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void step(const Op& op);
    void print(const Op& op);
    void same(const char* when);
    std::string clean();
    const Plan& _plan;
    std::unique_ptr<IBox> _b;
  };

  std::string Sim::clean() {
    Out o;
    OutBuf buf(o);
    std::ostream out(&buf);
    sutOk("print", [&] {_b->print(out);});
    if (!out.good()) throw Violation("stream-state", "printing to a good stream leaves it in a bad state");
    return o.data;
  }

  void Sim::same(const char* when) {
    Ids ids;
    _b->content(ids);
    if (ids != _b->m) throw Violation("wrong-content", strf("%zu entries are held, should be %zu, %s", ids.size(), _b->m.size(), when));
  }

  void Sim::print(const Op& op) {
    const std::string text = clean();
    const std::string name = _b->name();
    _b->judge(text);
    if (clean() != text) throw Violation("print-changes", "printing the same again gives another text: " + quote(text));
    Out o;
    OutBuf buf(o);
    std::ostream out(&buf);
    const bool throws = op.arg(1) & 1;
    if (throws) out.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    const size_t before = g.firedInRun;
    const Outcome r = sut(op, [&] {_b->print(out);});
    const bool fired = g.firedInRun != before;
    g.say("print -> %s, %zu of %zu characters", outcomeName(r), o.data.size(), text.size());
    if (!fired && (r != Done || !out.good() || o.data != text))
      throw Violation("wrong-text", "printing with nothing failing is incomplete: " + quote(o.data));
    if (r == Other && !throws) throw Violation("unexpected-exception", "print threw something else than what was injected");
    if (!isPrefix(o.data, text)) throw Violation("wrong-text", "what is printed before a failure is not the start of the text: " + quote(o.data) + " against " + quote(text));
    if (o.data != text && r == Done && out.good()) throw Violation("missed-failure", "the text is incomplete and nothing says so: " + quote(o.data));
    if (fired) {
      g.probe(r == Done ? "failures kept in the stream" : "failures thrown");
      if (o.data.size() != text.size()) g.probe("texts cut short");
      // as if it had not been printed
      same("after a failed print");
      const std::string again = clean();
      if (again != text) throw Violation("print-changes", "the text has changed after a failed print: " + quote(again) + " was " + quote(text));
    }
    if (_b->name() != name) throw Violation("print-changes", "the name has changed by printing");
  }

  void Sim::step(const Op& op) {
    const u64 salt = static_cast<u64>(op.arg(0));
    IBox& b = *_b;
    g.log(60 + op.kind, b.m.size());
    const size_t limit = static_cast<size_t>(_plan.get("max", 40));
    const std::string name = b.name();
    switch (op.kind) {
    case OAdd:
      if (b.m.size() < limit) b.add(op, salt);
      break;
    case OAddMany:
      for (i64 i = 0; i < op.arg(1) && b.m.size() < limit; ++i) b.add(noFault, mix64(salt + i));
      break;
    case ODrop: b.drop(salt); break;
    case ODropMany:
      for (i64 i = 0; i < op.arg(1); ++i) b.drop(mix64(salt + i));
      break;
    case OPrint: print(op); break;
    case OClear:
      if (b.clear()) b.m.clear();
      break;
    case ORefill: b.refill(salt); break;
    case ORecreate:
      b.destroy();
      b.m.clear();
      b.count = 0;
      b.construct();
      b.clear();
      break;
    }
    same("after an operation");
    if (b.name() != name) throw Violation("wrong-text", "the name " + quote(name) + " changes with the content");
    g.state(mix64(static_cast<u64>(_plan.get("box")) * 977 + b.m.size() * 31 + op.kind) ^ mix64(g.firedInRun));
  }

  void Sim::run() {
    const int box = static_cast<int>(static_cast<u64>(_plan.get("box")) % 82);
    dv::table.clear();
    pq::bags.clear();
    dv::Params p;
    p.vars = static_cast<size_t>(std::max<i64>(1, std::min<i64>(40, _plan.get("vars", 2))));
    p.sort = _plan.get("sort") != 0;
    const size_t geo[] = {1, 2, 3, 5, 8};
    if (box < 56) {
      QueueBox* q = new QueueBox();
      _b.reset(q);
      q->kind = box < 4 ? pq::KHeap : box < 6 ? pq::KTour : box < 8 ? pq::KSet : pq::KGeo;
      q->flags = box < 8 ? box % 4 : box - 8;
      q->keys = std::max<i64>(1, _plan.get("keys", 5));
      q->c.queue = 0;
      q->c.minBucketSize = geo[static_cast<u64>(_plan.get("bucket")) % 5];
      q->c.geoBase = 2 + static_cast<size_t>(static_cast<u64>(_plan.get("base")) % 4);
    } else if (box < 64) {
      if (box % 2) _b.reset(new ComBox<pq::Ent, false>());
      else _b.reset(new ComBox<pq::Ent, true>());
    } else {
      const int i = box - 64, mask = i % 3;
      switch (i / 3) {
      case 0: _b.reset(makeKd<mathic::BinaryKDTree, 1>(mask, p)); break;
      case 1: _b.reset(makeKd<mathic::BinaryKDTree, 2>(mask, p)); break;
      case 2: _b.reset(makeKd<mathic::BinaryKDTree, 5>(mask, p)); break;
      case 3: _b.reset(makeKd<mathic::PackedKDTree, 1>(mask, p)); break;
      case 4: _b.reset(makeKd<mathic::PackedKDTree, 2>(mask, p)); break;
      default: _b.reset(makeKd<mathic::PackedKDTree, 5>(mask, p)); break;
      }
    }
    _b->construct();
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    while (!_b->m.empty()) _b->drop(0); // everything is still there
    same("at the end");
    _b->destroy();
    _b.reset();
    dv::table.clear();
    pq::bags.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"add", "addMany", "drop", "dropMany", "print", "clear", "refill", "recreate"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C29";}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    p.set("box", static_cast<i64>(r.below(82)));
    p.set("vars", r.chance(85) ? r.range(1, 6) : r.range(7, 35));
    p.set("sort", r.below(2));
    p.set("keys", r.chance(50) ? r.range(1, 4) : 1000);
    p.set("bucket", static_cast<i64>(r.below(5)));
    p.set("base", static_cast<i64>(r.below(4)));
    p.set("max", r.chance(60) ? r.range(1, 12) : r.chance(80) ? r.range(12, 60) : r.range(60, thorough ? 700 : 300));
    const bool faults = r.chance(75);
    const int percent = r.chance(50) ? 40 : 90;
    std::vector<int> w(opCount);
    w[OAdd] = 10;
    w[OAddMany] = 5;
    w[ODrop] = 4;
    w[ODropMany] = 2;
    w[OPrint] = 12;
    w[OClear] = w[ORefill] = w[ORecreate] = 1;
    std::vector<int> all, alloc(1, FAlloc);
    all.push_back(FAlloc);
    all.push_back(FStream);
    all.push_back(FStream);
    all.push_back(FVisit);
    const i64 n = r.range(2, thorough ? 40 : 20);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(r.weighted(w)));
      op.add(static_cast<i64>(r.below(1u << 30)));
      op.add(op.kind == OPrint ? static_cast<i64>(r.below(2)) : r.small(p.get("max")));
      if (faults && r.chance(percent)) {
        if (op.kind == OAdd) drawFault(r, op, alloc, 3);
        if (op.kind == OPrint) {
          drawFault(r, op, all, 1);
          op.at = op.fault == FStream ? r.small(400) : op.fault == FVisit ? r.small(20) : r.small(8);
          if (op.fault == FStream && r.chance(60)) op.len = 1000000;
        }
      }
      p.ops.push_back(op);
    }
    p.ops.push_back(Op(OPrint).add(static_cast<i64>(r.below(1u << 30))).add(0));
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
