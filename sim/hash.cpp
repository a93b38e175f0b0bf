// Workload, reference model and oracle for HashTable (C10).
#include "sim.h"
#include <mathic/HashTable.h>
#include <cstring>
#include <memory>
#include <set>

namespace {
  using namespace sim;

  // A key or value. cls decides equality, tag tells equal keys apart.
  template<int Kind> struct Token {
    std::uint32_t magic;
    i64 cls, tag;
    Token* self;
    static const std::uint32_t Alive = 0xa11fe100u + Kind;
    static const std::uint32_t Dead = 0xdeadbf00u + Kind;
    void init() {magic = Alive; self = this; ++g.liveEntries;}
    Token(i64 c, i64 t): cls(c), tag(t) {init();}
    Token(const Token& x): cls(x.cls), tag(x.tag) {
      x.check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      init();
    }
    Token& operator=(const Token& x) {
      check();
      x.check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      cls = x.cls;
      tag = x.tag;
      return *this;
    }
    ~Token() {check(); magic = Dead; --g.liveEntries;}
    bool check() const {
      if (magic == Alive && self == this) return true;
      g.flag("entry-lifetime", magic == Dead ? "destructed key or value used" : "memory that holds no key or value used as one");
      return false;
    }
  };
  typedef Token<0> K;

  template<int Pad> struct Val: Token<1> {
    char pad[Pad];
    Val(i64 c, i64 t): Token<1>(c, t) {std::memset(pad, 0x5a, Pad);}
  };

  size_t hashOf(int quality, i64 cls) {
    const u64 c = static_cast<u64>(cls);
    switch (quality) {
    case 0: return mix64(c);
    case 1: return c;
    case 2: return 42;
    case 3: return c % 3;
    case 4: return c << 40;
    case 5: return c * 4096;
    case 6: return c * 37 % 128;
    default: return ~c;
    }
  }

  template<int Pad> struct Conf {
    typedef K Key;
    typedef Val<Pad> Value;
    int quality;
    size_t hash(const K& k) {
      CbScope cb;
      k.check();
      g.log(51, static_cast<u64>(k.cls));
      g.throwAt(FHash);
      return hashOf(quality, k.cls);
    }
    bool keysEqual(const K& a, const K& b) {
      CbScope cb;
      a.check();
      b.check();
      g.log(52, static_cast<u64>(a.cls * 100003 + b.cls));
      g.throwAt(FEqual);
      return a.cls == b.cls;
    }
  };

  // as above but everything passed by value, as in the documentation
  struct ConfVal {
    typedef K Key;
    typedef Val<8> Value;
    int quality;
    size_t hash(K k) {
      CbScope cb;
      g.log(51, static_cast<u64>(k.cls));
      g.throwAt(FHash);
      return hashOf(quality, k.cls);
    }
    bool keysEqual(K a, K b) {
      CbScope cb;
      g.log(52, static_cast<u64>(a.cls * 100003 + b.cls));
      g.throwAt(FEqual);
      return a.cls == b.cls;
    }
  };

  struct ITable {
    virtual ~ITable() {}
    virtual bool insert(const K& k, i64 vc, i64 vt, void*& h) = 0;
    virtual void* lookup(const K& k) = 0;
    virtual void remove(void*& h) = 0;
    virtual void reset() = 0;
    virtual void hardReset() = 0;
    virtual size_t memory() = 0;
    virtual std::string name() = 0;
    virtual int quality() = 0;
    virtual const K& key(void* h) = 0;
    virtual Token<1>& value(void* h) = 0;
    virtual size_t handleSize() = 0;
  };
  template<class C> struct Table: ITable {
    typedef mathic::HashTable<C> T;
    typedef typename T::Handle H;
    T t;
    Table(const C& c, unsigned nbits): t(c, nbits) {}
    virtual bool insert(const K& k, i64 vc, i64 vt, void*& h) {
      const typename C::Value v(vc, vt);
      const std::pair<bool, H*> r = t.insert(k, v);
      h = r.second;
      return r.first;
    }
    virtual void* lookup(const K& k) {return t.lookup(k);}
    virtual void remove(void*& h) {
      H* p = static_cast<H*>(h);
      t.remove(p);
      h = p;
    }
    virtual void reset() {t.reset();}
    virtual void hardReset() {t.hardReset();}
    virtual size_t memory() {return t.memoryUse();}
    virtual std::string name() {return t.name();}
    virtual int quality() {
      const T& c = t;
      if (&c.configuration() != &t.configuration()) return -1;
      return t.configuration().quality;
    }
    virtual const K& key(void* h) {return static_cast<H*>(h)->key();}
    virtual Token<1>& value(void* h) {
      const H* const c = static_cast<H*>(h);
      if (&c->value() != &static_cast<H*>(h)->value()) g.flag("wrong-answer", "the two forms of value() differ");
      return static_cast<H*>(h)->value();
    }
    virtual size_t handleSize() {return sizeof(H);}
  };
  template<class C> ITable* make(int quality, unsigned nbits) {
    C c;
    c.quality = quality;
    return new Table<C>(c, nbits);
  }
  ITable* makeTable(int kind, int quality, unsigned nbits) {
    switch (kind) {
    case 0: return make<Conf<1> >(quality, nbits);
    case 1: return make<Conf<40> >(quality, nbits);
    default: return make<ConfVal>(quality, nbits);
    }
  }

  struct Item {i64 keyTag, valCls, valTag; void* h;};
  typedef std::map<i64, Item> Model;
  struct Tab {
    std::unique_ptr<ITable> t;
    Model m;
    std::set<void*> handles;
    int quality;
  };

  enum {OInsert, OInsertMany, OInsertAgain, OLookup, OSetValue, ORemove, ORemoveMany, OReset, OHardReset, ORecreate, OScan};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void create(Tab& t, const Op& op);
    void step(const Op& op);
    bool insert(Tab& t, const Op& op, i64 cls, i64 tag);
    bool remove(Tab& t, const Op& op, i64 cls);
    void checkItem(Tab& t, i64 cls, const Item& it);
    void checkAbsent(Tab& t, i64 cls);
    void verify(Tab& t, bool full, u64 salt);
    i64 present(Tab& t, u64 salt);
    const Plan& _plan;
    int _kind;
    i64 _keys;
    unsigned _nbits;
    std::vector<Tab> _ts;
  };

  void Sim::create(Tab& t, const Op& op) {
    t.m.clear();
    t.handles.clear();
    const int kind = _kind, quality = t.quality;
    const unsigned nbits = _nbits;
    const Outcome o = sut(op, [&] {t.t.reset(makeTable(kind, quality, nbits));});
    if (o == Done) return;
    if (o == Other) throw Violation("unexpected-exception", "construction threw something else than what was injected");
    g.probe("failed constructions");
    sutOk("construction", [&] {t.t.reset(makeTable(kind, quality, nbits));});
  }

  i64 Sim::present(Tab& t, u64 salt) {
    if (t.m.empty()) return -1;
    Model::iterator it = t.m.lower_bound(static_cast<i64>(mix64(salt) % static_cast<u64>(_keys)));
    if (it == t.m.end()) it = t.m.begin();
    return it->first;
  }

  void Sim::checkItem(Tab& t, i64 cls, const Item& it) {
    void* h = 0;
    const K k(cls, -1);
    sutOk("lookup", [&] {h = t.t->lookup(k);});
    if (h == 0) throw Violation("lost-entry", strf("key %lld is in the table but lookup does not find it", (long long)cls));
    if (h != it.h) throw Violation("handle-moved", strf("lookup of key %lld gives another handle than insert did", (long long)cls));
    const K& key = t.t->key(h);
    const Token<1>& v = t.t->value(h);
    key.check();
    v.check();
    g.checkFlag();
    if (key.cls != cls || key.tag != it.keyTag)
      throw Violation("wrong-key", strf("handle of key %lld/%lld holds key %lld/%lld", (long long)cls, (long long)it.keyTag, (long long)key.cls, (long long)key.tag));
    if (v.cls != it.valCls || v.tag != it.valTag)
      throw Violation("wrong-value", strf("key %lld has value %lld/%lld, should be %lld/%lld", (long long)cls, (long long)v.cls, (long long)v.tag, (long long)it.valCls, (long long)it.valTag));
  }

  void Sim::checkAbsent(Tab& t, i64 cls) {
    if (t.m.count(cls)) return;
    void* h = 0;
    const K k(cls, -1);
    sutOk("lookup", [&] {h = t.t->lookup(k);});
    if (h != 0) throw Violation("invented-entry", strf("lookup finds key %lld, which is not in the table", (long long)cls));
  }

  void Sim::verify(Tab& t, bool full, u64 salt) {
    if (full || t.m.size() <= 24) {
      for (Model::iterator it = t.m.begin(); it != t.m.end(); ++it) checkItem(t, it->first, it->second);
    } else {
      for (int i = 0; i < 16; ++i) {
        const i64 c = present(t, salt * 17 + i);
        checkItem(t, c, t.m[c]);
      }
    }
    for (int i = 0; i < (full ? 12 : 4); ++i) checkAbsent(t, static_cast<i64>(mix64(salt * 7919 + i) % static_cast<u64>(_keys + 3)));
    size_t mem = 0;
    int q = 0;
    sutOk("memoryUse", [&] {mem = t.t->memory(); q = t.t->quality();});
    if (mem < t.m.size() * t.t->handleSize()) throw Violation("memory-use", strf("memoryUse() is %zu with %zu nodes of %zu bytes", mem, t.m.size(), t.t->handleSize()));
    if (q != t.quality) throw Violation("configuration", "configuration() is not the configuration given");
    if (g.liveEntries != 0) {
      i64 n = 0;
      for (size_t i = 0; i < _ts.size(); ++i) n += static_cast<i64>(_ts[i].m.size());
      if (g.liveEntries != 2 * n) throw Violation("entry-lifetime", strf("%lld keys and values alive, the tables hold %lld", (long long)g.liveEntries, (long long)(2 * n)));
    }
    g.state(mix64(_kind * 8 + t.quality) ^ mix64(_nbits * 1000003 + t.m.size()) ^ mix64(g.firedInRun + 5));
  }

  // returns false if it failed
  bool Sim::insert(Tab& t, const Op& op, i64 cls, i64 tag) {
    void* h = 0;
    bool isNew = false;
    const K k(cls, tag);
    const i64 vc = cls * 3 + 1, vt = tag + 1000;
    const Outcome o = sut(op, [&] {isNew = t.t->insert(k, vc, vt, h);});
    g.say("insert %lld/%lld -> %s%s", (long long)cls, (long long)tag, outcomeName(o), o == Done ? (isNew ? " new" : " old") : "");
    if (o == Other) throw Violation("unexpected-exception", "insert threw something else than what was injected");
    if (o != Done) return false;
    const bool was = t.m.count(cls) != 0;
    if (h == 0) throw Violation("wrong-answer", "insert returns no handle");
    if (isNew == was) throw Violation("wrong-answer", strf("insert of key %lld reports it as %s", (long long)cls, isNew ? "new" : "already there"));
    if (isNew) {
      if (!t.handles.insert(h).second)
        throw Violation("handle-moved", strf("insert of key %lld returns the handle of another key", (long long)cls));
      Item it = {tag, vc, vt, h};
      t.m[cls] = it;
    }
    checkItem(t, cls, t.m[cls]);
    return true;
  }

  bool Sim::remove(Tab& t, const Op& op, i64 cls) {
    void* h = t.m[cls].h;
    const Outcome o = sut(op, [&] {t.t->remove(h);});
    g.say("remove %lld -> %s", (long long)cls, outcomeName(o));
    if (o == Other) throw Violation("unexpected-exception", "remove threw something else than what was injected");
    if (o != Done) return false;
    t.handles.erase(t.m[cls].h);
    t.m.erase(cls);
    checkAbsent(t, cls);
    return true;
  }

  void Sim::step(const Op& op) {
    Tab& t = _ts[static_cast<size_t>(op.arg(0)) % _ts.size()];
    const u64 salt = static_cast<u64>(op.arg(1));
    g.log(60 + op.kind, t.m.size());
    bool failed = false;
    switch (op.kind) {
    case OInsert: {
      const i64 cls = static_cast<i64>(mix64(salt) % static_cast<u64>(_keys));
      failed = !insert(t, op, cls, static_cast<i64>(salt % 1000));
      if (failed) {
        g.probe("failed inserts");
        verify(t, true, salt);
        if (op.arg(2) & 1) {
          if (!insert(t, noFault, cls, static_cast<i64>(salt % 1000 + 1))) throw Violation("no-recovery", "retried insert fails");
          g.probe("retried inserts");
        }
      }
      break;
    }
    case OInsertMany: {
      const i64 n = bulk(op.arg(2));
      for (i64 i = 0; i < n; ++i) {
        const i64 cls = static_cast<i64>(mix64(salt + i * 977) % static_cast<u64>(_keys));
        // the fault hits the insertion number arg(3)
        if (!insert(t, i == op.arg(3) ? op : noFault, cls, static_cast<i64>(i))) {
          failed = true;
          g.probe("failed inserts");
          verify(t, true, salt);
        }
      }
      break;
    }
    case OInsertAgain: {
      const i64 cls = present(t, salt);
      if (cls < 0) break;
      failed = !insert(t, op, cls, static_cast<i64>(salt % 1000));
      break;
    }
    case OLookup: {
      const i64 cls = static_cast<i64>(mix64(salt) % static_cast<u64>(_keys));
      void* h = 0;
      const K k(cls, -2);
      const Outcome o = sut(op, [&] {h = t.t->lookup(k);});
      if (o == Other) throw Violation("unexpected-exception", "lookup threw something else than what was injected");
      if (o != Done) {failed = true; break;}
      Model::iterator it = t.m.find(cls);
      if ((h != 0) != (it != t.m.end()) || (h != 0 && h != it->second.h))
        throw Violation("wrong-answer", strf("lookup of key %lld is wrong", (long long)cls));
      break;
    }
    case OSetValue: {
      const i64 cls = present(t, salt);
      if (cls < 0) break;
      Item& it = t.m[cls];
      Token<1>& v = t.t->value(it.h);
      v.check();
      g.checkFlag();
      v.tag = it.valTag = static_cast<i64>(salt % 100000);
      break;
    }
    case ORemove: {
      const i64 cls = present(t, salt);
      if (cls < 0) break;
      failed = !remove(t, op, cls);
      break;
    }
    case ORemoveMany: {
      const i64 n = op.arg(2);
      for (i64 i = 0; i < n && !t.m.empty(); ++i)
        if (!remove(t, i == op.arg(3) ? op : noFault, present(t, salt + i))) failed = true;
      break;
    }
    case OReset: { // only allowed on an empty table
      while (!t.m.empty())
        if (!remove(t, noFault, t.m.begin()->first)) throw Violation("no-recovery", "remove fails");
      sutOk("reset", [&] {t.t->reset();});
      break;
    }
    case OHardReset:
      sutOk("hardReset", [&] {t.t->hardReset();});
      t.m.clear();
    t.handles.clear();
      break;
    case ORecreate:
      sutOk("destruction", [&] {t.t.reset();});
      t.m.clear();
    t.handles.clear();
      verify(_ts[0].t ? _ts[0] : _ts[_ts.size() - 1].t ? _ts[_ts.size() - 1] : (create(t, noFault), t), false, salt);
      create(t, op);
      break;
    case OScan:
      verify(t, true, salt);
      break;
    }
    if (failed) g.probe("failed operations");
    verify(t, failed, salt);
  }

  void Sim::run() {
    _kind = static_cast<int>(_plan.get("kind")) % 3;
    _nbits = static_cast<unsigned>(_plan.get("nbits")) % 20;
    _keys = std::max<i64>(1, _plan.get("keys", 1));
    const size_t n = static_cast<size_t>(std::min<i64>(3, std::max<i64>(1, _plan.get("tables", 1))));
    _ts.resize(n);
    for (size_t i = 0; i < n; ++i) {
      _ts[i].quality = static_cast<int>(_plan.get("quality") + i) & 7;
      create(_ts[i], noFault);
    }
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < n; ++i) verify(_ts[i], true, 99 + i);
    sutOk("destruction", [&] {for (size_t i = 0; i < n; ++i) _ts[i].t.reset();});
  }
}

namespace sim {
  const char* const opNames[] = {"insert", "insertMany", "insertAgain", "lookup", "setValue", "remove", "removeMany", "reset", "hardReset", "recreate", "scan"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C10";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    plan.set("kind", rng.below(3));
    static const i64 bits[] = {0, 1, 2, 3, 4, 5, 6, 10};
    plan.set("nbits", bits[rng.below(8)]);
    plan.set("quality", rng.below(8));
    plan.set("tables", rng.chance(70) ? 1 : rng.range(2, 3));
    const i64 keys = rng.chance(40) ? rng.range(1, 20) : rng.chance(70) ? rng.range(20, 200) : rng.range(200, 1500);
    plan.set("keys", keys);
    const bool faults = rng.chance(65);
    std::vector<int> kinds;
    if (faults) {
      if (rng.chance(85)) kinds.push_back(FAlloc);
      if (rng.chance(50)) kinds.push_back(FCopy);
      if (rng.chance(60)) kinds.push_back(FHash);
      if (rng.chance(40)) kinds.push_back(FEqual);
      if (rng.chance(20)) kinds.push_back(FAny);
    }
    const int faultPercent = rng.chance(50) ? 20 : 60;
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(10));
    w[OInsert] += 25;
    w[OInsertMany] = static_cast<int>(rng.below(8));
    w[OReset] = static_cast<int>(rng.below(2));
    w[OHardReset] = static_cast<int>(rng.below(2));
    w[ORecreate] = static_cast<int>(rng.below(2));
    w[ORemoveMany] = static_cast<int>(rng.below(3));
    w[OScan] = static_cast<int>(rng.below(3));
    if (rng.chance(40)) w[ORemove] = w[ORemoveMany] = w[OReset] = 0;
    i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 200 : 90);
    // Rarely a table of tens of thousands of nodes or buckets.
    const bool huge = rng.below(thorough ? 1200 : 2400) == 0;
    if (huge) {
      n = rng.range(3, 30);
      static const i64 hugeBits[] = {0, 5, 10, 15, 17, 19};
      plan.set("nbits", hugeBits[rng.below(6)]);
      plan.set("quality", rng.chance(60) ? 0 : rng.chance(50) ? 1 : 7);
      plan.set("keys", 1 << 24);
      plan.set("tables", 1);
    }
    for (i64 i = 0; i < n; ++i) {
      if (huge && (i == 0 || rng.chance(6))) {
        Op op(rng.chance(70) ? OInsertMany : ORemoveMany);
        if (i == 0) op.kind = OInsertMany;
        const i64 c = i == 0 ? rng.range(5000, 70000) : rng.range(1, 5000);
        op.add(0).add(static_cast<i64>(rng.below(1u << 30))).add(c).add(rng.below(c));
        if (rng.chance(faultPercent)) drawFault(rng, op, kinds, 400);
        plan.ops.push_back(op);
        continue;
      }
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(rng.below(3)).add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind == OInsert) op.add(rng.below(2));
      if (op.kind == OInsertMany || op.kind == ORemoveMany) {
        const i64 c = rng.small(std::min<i64>(keys, thorough ? 400 : 120));
        op.add(c).add(rng.below(c));
      }
      if (rng.chance(faultPercent)) drawFault(rng, op, kinds, op.kind == OInsert || op.kind == OInsertMany ? (rng.chance(30) ? 40 : rng.chance(20) ? 400 : 3) : 4);
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
