// Entries, callbacks and customisations that do nothing but what is asked of
// them (and fail on command), for harnesses that drive many kinds of containers.
#ifndef VERIF_PLAIN_H
#define VERIF_PLAIN_H
#include "div.h"
#include "pq_impl.h"
#include <mathic/PairQueue.h>
#include <mathic/HashTable.h>

using namespace sim;

// ------------------------------------------------- entries of the containers
namespace dv {
  std::vector<Exps> table;
  u64 entryReads[2];
  std::ostream& operator<<(std::ostream& out, const Ent& e) {
    {
      CbScope cb;
      g.throwAt(FVisit);
      e.check();
    }
    return out << '#' << e.id << ';';
  }
  bool ConfBase::less(const Exps& x, const Exps& y) const {
    if (order == 2) {
      i64 a = 0, b = 0;
      for (size_t i = 0; i < vars; ++i) {a += x[i]; b += y[i];}
      return a < b;
    }
    for (size_t i = 0; i < vars; ++i) {
      const size_t j = order == 0 ? i : vars - 1 - i;
      if (x[j] != y[j]) return x[j] < y[j];
    }
    return false;
  }
  bool Visitor::see(const Ent& e) {
    if (stopped) afterStop = true;
    g.throwAt(FVisit);
    if (!e.check()) return false;
    seen.push_back(e.id);
    if (stopAfter >= 0 && static_cast<i64>(seen.size()) >= stopAfter) stopped = true;
    return !stopped;
  }
  bool Visitor::proceed(const Ent& e) {CbScope cb; return see(e);}
  bool Visitor::proceed(Ent& e) {CbScope cb; return see(e);}
  void Collector::push_back(Ent& e) {
    CbScope cb;
    g.throwAt(FOutput);
    if (e.check()) got.push_back(e.id);
  }
}

namespace pq {
  IQueue* makeGeoPart0(int, const ConfBase&);
  IQueue* makeGeoPart5(int, const ConfBase&);
  IQueue* makeGeoPart10(int, const ConfBase&);
  std::ostream& operator<<(std::ostream& out, const Ent& e) {
    {
      CbScope cb;
      g.throwAt(FVisit);
      e.check();
    }
    return out << '#' << e.h << ';';
  }
  std::vector<Bag> bags;
  static const Bag* bag(const Ent& e, int queue) {
    e.check();
    if (e.h >= bags.size() || bags[e.h].queue != queue) {
      g.flag("foreign-entry", "an entry of another queue or none at all reached a callback of this queue");
      return 0;
    }
    return &bags[e.h];
  }
  int ConfBase::compare(const Ent& a, const Ent& b) const {
    CbScope cb;
    g.throwAt(FCompare);
    const Bag* const x = bag(a, queue), * const y = bag(b, queue);
    if (!x || !y) return 0;
    return x->key < y->key ? -1 : x->key > y->key;
  }
  Ent ConfBase::deduplicate(const Ent& a, const Ent& b) const {
    CbScope cb;
    g.throwAt(FDedup);
    if (!bag(a, queue) || !bag(b, queue)) return a;
    Bag r = bags[a.h];
    r.ids.insert(r.ids.end(), bags[b.h].ids.begin(), bags[b.h].ids.end());
    bags.push_back(r);
    return Ent(static_cast<std::uint32_t>(bags.size() - 1));
  }
  bool Visitor::proceed(const Ent& e) {
    CbScope cb;
    if (stopped) visitedAfterStop = true;
    g.throwAt(FVisit);
    e.check();
    seen.push_back(e.h);
    if (stopAfter >= 0 && static_cast<i64>(seen.size()) >= stopAfter) stopped = true;
    return !stopped;
  }
}

namespace {
  struct NPair {
    i64 key;
    size_t col, row;
    int* owned;
    NPair(): key(0), col(0), row(0), owned(new int(5)) {++g.liveEntries;}
    ~NPair() {--g.liveEntries; delete owned;}
  private:
    NPair(const NPair&);
    void operator=(const NPair&);
  };
  struct NPairConf {
    u64 salt;
    typedef NPair PairData;
    typedef int CompareResult;
    void computePairData(size_t col, size_t row, NPair& p) {
      CbScope cb;
      g.throwAt(FPairData);
      p.col = col;
      p.row = row;
      p.key = static_cast<i64>(mix64(salt ^ (col * 1000003 + row)) % 50);
    }
    int compare(size_t ca, size_t ra, const NPair& a, size_t cb_, size_t rb, const NPair& b) const {
      CbScope cb;
      g.throwAt(FCompare);
      if (a.col != ca || a.row != ra || b.col != cb_ || b.row != rb)
        g.flag("wrong-pairdata", "pair data of another pair reached the compare callback");
      return a.key < b.key ? -1 : a.key > b.key;
    }
    bool cmpLessThan(int r) const {return r < 0;}
  };
  struct NKey {
    i64 k;
    explicit NKey(i64 x): k(x) {++g.liveEntries;}
    NKey(const NKey& o): k(o.k) {
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      ++g.liveEntries;
    }
    ~NKey() {--g.liveEntries;}
  private:
    void operator=(const NKey&);
  };
  struct NHashConf {
    typedef NKey Key;
    typedef i64 Value;
    u64 salt;
    int quality;
    size_t hash(const NKey& k) {
      CbScope cb;
      g.throwAt(FHash);
      return quality == 0 ? mix64(static_cast<u64>(k.k) ^ salt) : static_cast<size_t>(k.k % 5);
    }
    bool keysEqual(const NKey& a, const NKey& b) {
      CbScope cb;
      g.throwAt(FEqual);
      return a.k == b.k;
    }
  };

}
#endif
