// Divisor finders behind one interface.
#ifndef VERIF_DIV_H
#define VERIF_DIV_H
#include "sim.h"
#include <algorithm>
#include <string>
#include <vector>

namespace dv {
  using namespace sim;
  typedef std::vector<int> Exps;

  const std::uint32_t NoId = 0xffffffffu;
  // What has been inserted so far in this run; entries and monomials are ids
  // into tables so that copying them is free unless a fault says otherwise.
  extern std::vector<Exps> table;

  template<int Tag> struct Token {
    std::uint32_t id;
    std::uint32_t magic;
    i64 payload; // may be changed by visitors at any time
    static const std::uint32_t Alive = 0xa11fe000u + Tag;
    static const std::uint32_t Dead = 0xdeadbe00u + Tag;
    void init() {
      magic = Alive;
      if (Tag == 0) ++g.liveEntries;
    }
    Token(): id(NoId), payload(0) {init();}
    explicit Token(std::uint32_t i): id(i), payload(0) {init();}
    Token(const Token& t): id(t.id), payload(t.payload) {
      t.check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      init();
    }
    Token& operator=(const Token& t) {
      t.check();
      check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      id = t.id;
      payload = t.payload;
      return *this;
    }
    ~Token() {
      check();
      magic = Dead;
      if (Tag == 0) --g.liveEntries;
    }
    bool check() const {
      if (magic == Alive) return true;
      g.flag("entry-lifetime", magic == Dead ? "destructed entry used" : "memory that holds no entry used as one");
      return false;
    }
  };
  typedef Token<0> Ent;
  typedef Token<1> Mono;
  std::ostream& operator<<(std::ostream& out, const Ent& e);

  extern u64 entryReads[2]; // exponents of entries asked for: variable 0 and others

  struct Params {
    Params(): vars(1), sort(false), cache(false), autob(false), ratio(0.5), min(1), order(0) {}
    size_t vars;
    bool sort, cache, autob;
    double ratio;
    size_t min;
    int order; // 0 lex, 1 reverse lex, 2 total degree
  };

  // Everything a configuration must offer apart from the compile time choices.
  struct ConfBase: Params {
    typedef Mono Monomial;
    typedef Ent Entry;
    typedef int Exponent;
    size_t getVarCount() const {return vars;}
    bool getSortOnInsert() const {return sort;}
    bool getUseDivisorCache() const {return cache;}
    bool getDoAutomaticRebuilds() const {return autob;}
    double getRebuildRatio() const {return ratio;}
    size_t getRebuildMin() const {return min;}
    template<int T> const Exps* look(const Token<T>& t) const {
      if (!t.check()) return 0;
      if (t.id >= table.size()) {
        g.flag("entry-lifetime", "entry with impossible content");
        return 0;
      }
      return &table[t.id];
    }
    template<int T> int getExponent(const Token<T>& t, size_t var) const {
      CbScope cb;
      g.log(41, t.id * 64ull + var);
      if (T == 0) ++entryReads[var > 0];
      g.throwAt(FExponent);
      const Exps* const e = look(t);
      if (!e) return 0;
      if (var >= vars) {
        g.flag("bad-variable", strf("exponent of variable %zu of %zu asked for", var, vars));
        return 0;
      }
      return (*e)[var];
    }
    template<int A, int B> bool divides(const Token<A>& a, const Token<B>& b) const {
      CbScope cb;
      g.log(42, a.id * 100003ull + b.id);
      g.throwAt(FDivides);
      const Exps* const x = look(a), * const y = look(b);
      if (!x || !y) return false;
      for (size_t i = 0; i < vars; ++i) if ((*y)[i] < (*x)[i]) return false;
      if (!g.suppress) ++g.divisible;
      return true;
    }
    template<int A, int B> bool isLessThan(const Token<A>& a, const Token<B>& b) const {
      CbScope cb;
      g.log(43, a.id * 100003ull + b.id);
      g.throwAt(FLess);
      const Exps* const x = look(a), * const y = look(b);
      if (!x || !y) return false;
      return less(*x, *y);
    }
    bool less(const Exps& x, const Exps& y) const; // extends divisibility
  };

  // Output of queries.
  struct Visitor {
    Visitor(): stopAfter(-1), stopped(false), afterStop(false), addPayload(0) {}
    std::vector<std::uint32_t> seen;
    i64 stopAfter;
    bool stopped, afterStop;
    i64 addPayload;
    bool proceed(Ent& e);
    bool proceed(const Ent& e);
    bool see(const Ent& e);
  };
  struct Collector {
    std::vector<std::uint32_t> got;
    void push_back(Ent& e);
  };

  struct IFinder {
    virtual ~IFinder() {}
    virtual bool isTree() = 0;
    virtual size_t maxEqual() = 0; // most equal entries that may be stored
    virtual bool removals() = 0;
    virtual void insert(const Ent& e) = 0;
    virtual void insertRange(std::vector<Ent>& v) = 0;
    virtual bool removeMultiples(const Mono& m) = 0;
    virtual bool removeMultiples(const Mono& m, Collector& c) = 0;
    virtual bool removeElement(const Mono& m) = 0;
    virtual Ent* findDivisor(const Mono& m) = 0;
    virtual const Ent* findDivisorConst(const Mono& m) = 0;
    // how: 0 mutable 1 const
    virtual void findAllDivisors(const Mono& m, Visitor& v, int how) = 0;
    virtual void findAllMultiples(const Mono& m, Visitor& v, int how) = 0;
    virtual void forAll(Visitor& v, int how) = 0;
    virtual bool canIterate() = 0;
    virtual void iterate(Visitor& v, int how) = 0;      // begin()..end()
    virtual const Ent* viaIterator(const Mono& m) = 0;  // findDivisorIterator
    virtual void moveToFront(size_t pos) = 0;
    virtual bool hitToFront(const Mono& m) = 0;
    virtual bool canClear() = 0;
    virtual void clear() = 0;
    virtual void rebuild() = 0;
    virtual size_t size() = 0;
    virtual bool empty() = 0;
    virtual std::string name() = 0;
    virtual size_t memory() = 0;
  };

  const int ConfigCount = 52; // 48 trees, then 4 lists
  IFinder* makeFinder(int config, const Params& p);
  IFinder* makeTree(int config, const Params& p);
  IFinder* makeList(int config, const Params& p);
}
#endif
