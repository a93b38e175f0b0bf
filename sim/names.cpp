// Workload, reference model and oracle for NameFactory (C21).
#include "sim.h"
#include <mathic/NameFactory.h>
#include <mathic/error.h>
#include <algorithm>
#include <memory>

namespace {
  using namespace sim;
  typedef std::vector<std::string> Strings;

  class Sim;
  Sim* g_sim = 0;
  void nestedLookup();

  // What is made. The constructor belongs to the user: it may fail, and it
  // may ask the factory for something else.
  int g_depth = 0;
  struct Product {
    Product(int i): id(i), owned(new int(i)) {
      g.log(30, static_cast<u64>(i));
      CbScope cb;
      if (g_depth > 0) nestedLookup();
      g.throwAt(FConstruct);
    }
    virtual ~Product() {if (*owned != id) g.flag("product", "a product is destroyed that never was made");}
    int id;
    std::unique_ptr<int> owned;
  };
  const int ProductCount = 24;
  std::string g_static[ProductCount];
  template<int I> struct Made: public Product {
    Made(): Product(I) {}
    static std::string staticName() {return g_static[I];}
  };
  typedef mathic::NameFactory<Product> F;
  typedef void (*Register)(F&, const std::string&, bool);
  template<int I> void reg(F& f, const std::string& n, bool viaStatic) {
    if (viaStatic) mathic::nameFactoryRegister<Made<I> >(f);
    else mathic::nameFactoryRegister<Made<I> >(f, n);
  }
  template<int I> struct Table {
    static void fill(Register* t) {t[I] = reg<I>; Table<I - 1>::fill(t);}
  };
  template<> struct Table<-1> {static void fill(Register*) {}};

  enum {ORegister, ORegisterMany, OCreate, OCreateNull, OPrefix, OUnique, ONames, OInfo, OCopy, ORecreate, OScan};

  // Names that are often prefixes of each other.
  std::string makeName(u64 h) {
    static const char* const parts[] = {"a", "b", "ab", "heap", "He", "-", " ", "\xc3\xa9", "0", "list", "A", "z"};
    std::string s;
    const size_t n = h % 5;
    for (size_t i = 0; i < n; ++i) {
      h = mix64(h + i);
      s += parts[(h >> 8) % ((h & 1) ? 3 : sizeof parts / sizeof *parts)];
    }
    if (h % 61 == 0) s += std::string(1, '\0') + "x";
    if (h % 67 == 0) s.append(40 + h % 90, 'q');
    return s;
  }

  struct One {
    std::unique_ptr<F> f;
    std::string what;
    std::vector<std::pair<std::string, int> > m;
    int find(const std::string& n) const {
      for (size_t i = 0; i < m.size(); ++i) if (m[i].first == n) return m[i].second;
      return -1;
    }
    Strings with(const std::string& p) const {
      Strings r;
      for (size_t i = 0; i < m.size(); ++i) if (m[i].first.substr(0, p.size()) == p) r.push_back(m[i].first);
      std::sort(r.begin(), r.end());
      return r;
    }
  };

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {Table<ProductCount - 1>::fill(_reg); g_sim = this;}
    ~Sim() {g_sim = 0; g_depth = 0;}
    void run();
    void nested();
  private:
    enum {ENone, EUnknown, EAmbiguous};
    void step(const Op& op);
    std::string word(const One& o, u64 h) const;
    bool add(One& o, const Op& op, u64 h);
    void create(One& o, const Op& op, const std::string& w, int how);
    void unique(One& o, const Op& op, const std::string& w);
    void names(One& o, const Op& op, const std::string& w);
    void judgeError(const One& o, const std::string& w, int kind, int want, const std::string& what, bool prefix);
    void verify(One& o, u64 salt, bool all);
    void fresh(One& o, u64 h);
    const Plan& _plan;
    Register _reg[ProductCount];
    std::vector<One> _o;
    u64 _nest;
    size_t _on;
  };
  void nestedLookup() {if (g_sim) g_sim->nested();}

  void Sim::nested() {
    const int was = g_depth;
    const u64 h = mix64(_nest++);
    One& o = _o[_on];
    --g_depth;
    g.probe("lookups made by products");
    create(o, noFault, word(o, h), static_cast<int>(h >> 40) % 3);
    g_depth = was;
  }

  // what is asked for: names, prefixes of them, longer ones, others
  std::string Sim::word(const One& o, u64 h) const {
    h = mix64(h);
    if (o.m.empty() || (h & 7) == 0) return makeName(h >> 4);
    std::string s = o.m[(h >> 8) % o.m.size()].first;
    const u64 k = (h >> 3) & 7;
    if (k < 3) return s;
    if (k < 6) return s.substr(0, (h >> 32) % (s.size() + 1));
    if (k == 6) return s + static_cast<char>('a' + (h >> 32) % 3);
    if (!s.empty()) s[(h >> 32) % s.size()] ^= 1;
    return s;
  }

  void Sim::fresh(One& o, u64 h) {
    static const char* const kinds[] = {"data structure", "action", "", "a rather long description of what is made here, longer than any small buffer"};
    o.what = kinds[h % 4];
    o.m.clear();
    sutOk("construction", [&] {o.f.reset(new F(o.what.c_str()));});
  }

  bool Sim::add(One& o, const Op& op, u64 h) {
    std::string n = makeName(h);
    if (o.find(n) >= 0) return true; // names are unique
    const int i = static_cast<int>(mix64(h) % ProductCount);
    const bool viaStatic = (h >> 50) & 1;
    g_static[i] = n;
    const Outcome r = sut(op, [&] {_reg[i](*o.f, n, viaStatic);});
    g.say("register product %d -> %s", i, outcomeName(r));
    if (r != Done && r != NoMemory) throw Violation("unexpected-exception", "registering a product threw something else than what was injected");
    if (r == Done) o.m.push_back(std::make_pair(n, i));
    else g.probe("failed registrations");
    return r == Done;
  }

  void Sim::judgeError(const One& o, const std::string& w, int kind, int want, const std::string& what, bool prefix) {
    static const char* const e[] = {"no error", "an unknown name", "an ambiguous name"};
    if (kind != want)
      throw Violation("wrong-error", strf("asking for \"%s\" gives %s, should give %s", w.c_str(), e[kind], e[want]));
    if (kind == ENone || w.find('\0') != std::string::npos) return;
    if (what.find(w) == std::string::npos || what.find(o.what) == std::string::npos)
      throw Violation("wrong-error", strf("the error for \"%s\" does not tell what was asked for: %s", w.c_str(), what.c_str()));
    if (kind != EAmbiguous || !prefix) return;
    const Strings all = o.with(w);
    for (size_t i = 0; i < all.size(); ++i)
      if (all[i].find('\0') != std::string::npos) return;
    for (size_t i = 0; i < all.size(); ++i)
      if (what.find(all[i]) == std::string::npos)
        throw Violation("wrong-error", strf("the error for the ambiguous \"%s\" does not tell of \"%s\"", w.c_str(), all[i].c_str()));
    g.probe("ambiguous names");
  }

  void Sim::create(One& o, const Op& op, const std::string& w, int how) {
    std::unique_ptr<Product> p;
    int kind = ENone;
    std::string what;
    const F& f = *o.f;
    const Outcome r = sut(op, [&] {
      try {
        p = how == 0 ? f.create(w) : how == 1 ? f.createNullOnUnknown(w) : mathic::createWithPrefix(f, w);
      } catch (const mathic::UnknownNameException& e) {CbScope cb; kind = EUnknown; what = e.what();}
      catch (const mathic::AmbiguousNameException& e) {CbScope cb; kind = EAmbiguous; what = e.what();}
    });
    g.say("create \"%s\" (%d) -> %s %d %s", w.c_str(), how, outcomeName(r), p.get() ? p->id : -1, what.c_str());
    g.log(31, static_cast<u64>(kind));
    if (r == Other) throw Violation("unexpected-exception", "creating a product threw something else than what was injected");
    if (r != Done) {
      if (p.get()) throw Violation("wrong-product", "a creation that failed gives a product");
      g.probe("failed creations");
      return;
    }
    int id = o.find(w);
    int want = ENone;
    if (id < 0 && how == 2) {
      const Strings s = o.with(w);
      if (s.size() == 1) id = o.find(s[0]);
      else want = s.empty() ? EUnknown : EAmbiguous;
    } else if (id < 0 && how == 0) want = EUnknown;
    judgeError(o, w, kind, want, what, how == 2);
    const int got = p.get() ? p->id : -1;
    if (got != id) throw Violation("wrong-product", strf("asking for \"%s\" gives product %d, should give %d", w.c_str(), got, id));
    if (id >= 0) g.probe("products made");
    sutOk("destroying a product", [&] {p.reset();});
  }

  void Sim::unique(One& o, const Op& op, const std::string& w) {
    std::string n;
    int kind = ENone;
    std::string what;
    const F& f = *o.f;
    const Outcome r = sut(op, [&] {
      try {
        n = mathic::uniqueNameWithPrefix(f, w);
      } catch (const mathic::UnknownNameException& e) {CbScope cb; kind = EUnknown; what = e.what();}
      catch (const mathic::AmbiguousNameException& e) {CbScope cb; kind = EAmbiguous; what = e.what();}
    });
    if (r != Done && r != NoMemory) throw Violation("unexpected-exception", "looking up a name threw something else than what was injected");
    if (r == Done) {
      const Strings s = o.with(w);
      const bool exact = o.find(w) >= 0;
      judgeError(o, w, kind, exact || s.size() == 1 ? ENone : s.empty() ? EUnknown : EAmbiguous, what, true);
      if (kind == ENone && n != (exact ? w : s[0]))
        throw Violation("wrong-name", strf("the name with prefix \"%s\" is given as \"%s\", should be \"%s\"", w.c_str(), n.c_str(), (exact ? w : s[0]).c_str()));
    } else g.probe("failed lookups");
    sutOk("destroying a name", [&] {std::string().swap(n);});
  }

  void Sim::names(One& o, const Op& op, const std::string& w) {
    Strings s;
    const F& f = *o.f;
    const Outcome r = sut(op, [&] {f.namesWithPrefix(w, s);});
    if (r != Done && r != NoMemory) throw Violation("unexpected-exception", "listing names threw something else than what was injected");
    if (r == Done && s != o.with(w))
      throw Violation("wrong-name", strf("%zu names are listed for prefix \"%s\", should be these %zu, sorted", s.size(), w.c_str(), o.with(w).size()));
    sutOk("destroying names", [&] {Strings().swap(s);});
  }

  void Sim::verify(One& o, u64 salt, bool all) {
    std::string what;
    bool e = false;
    const F& f = *o.f;
    sutOk("empty", [&] {e = f.empty(); what = f.abstractProductName();});
    if (e != o.m.empty()) throw Violation("wrong-content", strf("empty() is %d with %zu names registered", e, o.m.size()));
    if (what != o.what) throw Violation("wrong-content", "abstractProductName() is not the name that was given");
    sutOk("destroying a name", [&] {std::string().swap(what);});
    names(o, noFault, "");
    if (all) for (size_t i = 0; i < o.m.size(); ++i) create(o, noFault, o.m[i].first, static_cast<int>(i % 3));
    const u64 h = mix64(salt);
    create(o, noFault, word(o, h), 0);
    create(o, noFault, word(o, h + 1), 1);
    create(o, noFault, word(o, h + 2), 2);
    unique(o, noFault, word(o, h + 3));
    names(o, noFault, word(o, h + 4));
    g.state(mix64(o.m.size() * 131 + o.with(word(o, h)).size()) ^ mix64(g.firedInRun));
  }

  void Sim::step(const Op& op) {
    const size_t at = static_cast<size_t>(op.arg(0)) % _o.size();
    One& o = _o[at];
    One& other = _o[(at + 1) % _o.size()];
    const u64 h = mix64(static_cast<u64>(op.arg(1)));
    bool failed = false;
    g.log(60 + op.kind, o.m.size());
    _on = at;
    _nest = h;
    g_depth = static_cast<int>(op.arg(2));
    switch (op.kind) {
    case ORegister:
      if (!add(o, op, h)) {
        failed = true;
        if (op.arg(1) & 1) {
          verify(o, h, true);
          if (!add(o, noFault, h)) throw Violation("no-recovery", "a retried registration fails");
        }
      }
      break;
    case ORegisterMany:
      for (i64 i = 0; i < op.arg(2); ++i) if (!add(o, i == op.arg(3) ? op : noFault, mix64(h + static_cast<u64>(i)))) failed = true;
      g_depth = 0;
      break;
    case OCreate: case OCreateNull: case OPrefix:
      create(o, op, word(o, h), op.kind - OCreate);
      failed = op.fault != FNone;
      break;
    case OUnique:
      unique(o, op, word(o, h));
      failed = op.fault != FNone;
      break;
    case ONames:
      names(o, op, word(o, h));
      failed = op.fault != FNone;
      break;
    case OCopy: {
      std::unique_ptr<F> c;
      const F& from = *other.f;
      const Outcome r = sut(op, [&] {c.reset(new F(from));});
      if (r != Done && r != NoMemory) throw Violation("unexpected-exception", "copying a factory threw something else than what was injected");
      if (r != Done) {failed = true; break;}
      sutOk("destruction", [&] {o.f = std::move(c);});
      o.m = other.m;
      o.what = other.what;
      break;
    }
    case ORecreate:
      sutOk("destruction", [&] {o.f.reset();});
      fresh(o, h);
      break;
    default:
      failed = true;
    }
    g_depth = 0;
    verify(o, h + 9, failed);
    if (_o.size() > 1) verify(other, h + 10, false);
  }

  void Sim::run() {
    _o.resize(static_cast<size_t>(std::min<i64>(3, std::max<i64>(1, _plan.get("factories", 1)))));
    for (size_t i = 0; i < _o.size(); ++i) fresh(_o[i], static_cast<u64>(_plan.get("what")) + i);
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < _o.size(); ++i) verify(_o[i], 3, true);
    sutOk("destruction", [&] {for (size_t i = 0; i < _o.size(); ++i) _o[i].f.reset();});
    _o.clear();
    for (int i = 0; i < ProductCount; ++i) g_static[i].clear();
  }
}

namespace sim {
  const char* const opNames[] = {"register", "registerMany", "create", "createNullOnUnknown", "createWithPrefix", "uniqueNameWithPrefix", "namesWithPrefix", "info", "copy", "recreate", "scan"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C21";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    plan.set("factories", rng.chance(60) ? 1 : rng.range(2, 3));
    plan.set("what", rng.below(4));
    const bool faults = rng.chance(70);
    const int percent = rng.chance(50) ? 20 : 60;
    const bool nest = rng.chance(40);
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(10));
    w[ORegister] += 12;
    w[ORegisterMany] = static_cast<int>(rng.below(4));
    w[OInfo] = 0;
    w[OScan] = 1;
    w[OCopy] = static_cast<int>(rng.below(3));
    w[ORecreate] = static_cast<int>(rng.below(2));
    const i64 n = rng.range(2, rng.chance(40) ? 15 : thorough ? 120 : 60);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(rng.below(3)).add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind == ORegisterMany) {
        const i64 c = rng.small(thorough ? 60 : 25);
        op.add(c).add(rng.below(c));
      } else op.add(nest && rng.chance(30) ? rng.range(1, 3) : 0);
      if (faults && rng.chance(percent)) {
        std::vector<int> kinds(1, FAlloc);
        if (op.kind >= OCreate && op.kind <= OPrefix) {kinds.push_back(FAlloc); kinds.push_back(FConstruct);}
        drawFault(rng, op, kinds, op.kind == OCopy ? 12 : 4);
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
