// Workload, reference model and oracle for PairQueue (C04, C05).
#include "sim.h"
#include "mathic/PairQueue.h"
#include <algorithm>
#include <memory>
#include <set>

using namespace sim;

namespace {
  struct QueueState; // harness view of one queue
  // Rows of a key function: the weight of a pair decides the order.
  struct Common {
    u64 salt;
    i64 keyRange;
    int mode;
    i64 weight(size_t col, size_t row) const {
      switch (mode) {
      case 1: return static_cast<i64>(col); // ties inside a column
      case 2: return static_cast<i64>(row) - static_cast<i64>(col);
      case 3: return 0;
      case 4: return static_cast<i64>(col + row);
      default: return static_cast<i64>(mix64(salt ^ (col * 1000003ull + row)) % static_cast<u64>(keyRange));
      }
    }
  };

  struct Shared {
    Shared(): live(0), checkRetired(true) {}
    Common common;
    std::set<size_t> retired;
    i64 live; // pair data objects alive
    bool checkRetired;
    u64 constructed, destructed;
  };

  struct PairData {
    std::uint32_t magic;
    int* owned; // makes a lost or repeated destruction visible as leak or double free
    Shared* shared;
    i64 col, row, key;
    static const std::uint32_t Alive = 0x9a17da7au, Dead = 0xdead9a17u;
    PairData() {
      {
        CbScope cb;
        g.log(21);
        g.throwAt(FConstruct);
      }
      owned = new int(7);
      magic = Alive;
      shared = 0;
      col = row = -1;
      ++g.liveEntries;
    }
    ~PairData() {
      if (magic != Alive) {
        g.flag("pairdata-lifetime", magic == Dead ? "pair data destructed twice" : "destructor run on memory that holds no pair data");
        return;
      }
      magic = Dead;
      --g.liveEntries;
      delete owned;
      owned = 0;
    }
    bool ok() const {
      if (magic != Alive) {
        g.flag("pairdata-lifetime", magic == Dead ? "destructed pair data used" : "unconstructed pair data used");
        return false;
      }
      return true;
    }
  private:
    PairData(const PairData&);
    void operator=(const PairData&);
  };

  struct ConfCore {
    Shared* shared;
    typedef ::PairData PairData;
    typedef int CompareResult;
    void computePairData(size_t col, size_t row, PairData& pd) {
      CbScope cb;
      g.log(22, col * 65537ull + row);
      if (col <= row) g.flag("bad-pair", strf("pair data computed for (%zu,%zu)", col, row));
      if (shared->checkRetired && (shared->retired.count(col) || shared->retired.count(row)))
        g.flag("computed-for-retired", strf("pair data computed for (%zu,%zu) which has a retired index", col, row));
      if (!pd.ok()) return;
      g.throwAt(FPairData);
      pd.shared = shared;
      pd.col = static_cast<i64>(col);
      pd.row = static_cast<i64>(row);
      pd.key = shared->common.weight(col, row);
      pd.owned[0] = static_cast<int>(pd.key);
    }
    bool check(size_t col, size_t row, const PairData& pd) const {
      if (!pd.ok()) return false;
      if (pd.col != static_cast<i64>(col) || pd.row != static_cast<i64>(row) || pd.shared != shared) {
        g.flag("wrong-pairdata", strf("pair (%zu,%zu) presented with the data of (%lld,%lld)", col, row, (long long)pd.col, (long long)pd.row));
        return false;
      }
      return true;
    }
    CompareResult compare(size_t colA, size_t rowA, const PairData& a, size_t colB, size_t rowB, const PairData& b) const {
      CbScope cb;
      g.log(23, colA * 31 + rowA + (colB * 31 + rowB) * 65537);
      g.throwAt(FCompare);
      if (!check(colA, rowA, a) || !check(colB, rowB, b)) return 0;
      return a.key < b.key ? -1 : a.key > b.key;
    }
    bool cmpLessThan(CompareResult r) const {return r < 0;}
  };
  template<bool Retire, bool Custom> struct Conf: ConfCore {};
}

namespace mathic {
  namespace PairQueueNamespace {
    template<bool Custom> struct SupportRetirement<Conf<false, Custom> > {static bool const value = false;};
    template<bool Retire> struct ConstructPairDataFunction<Conf<Retire, true> > {
      static void function(void* memory, Index col, Index row, Conf<Retire, true>& conf) {
        PairData* pd = new (memory) PairData();
        try {
          conf.computePairData(col, row, *pd);
        } catch (...) {
          pd->~PairData();
          throw;
        }
      }
    };
    template<bool Retire> struct DestructPairDataFunction<Conf<Retire, true> > {
      static void function(PairData* pd, Index col, Index row, Conf<Retire, true>& conf) {
        if (pd->ok() && (pd->col != static_cast<i64>(col) || pd->row != static_cast<i64>(row)))
          g.flag("wrong-pairdata", strf("data of pair (%lld,%lld) destructed as (%u,%u)", (long long)pd->col, (long long)pd->row, col, row));
        pd->~PairData();
      }
    };
  }
}

namespace {
  struct IPairQueue {
    virtual ~IPairQueue() {}
    virtual void add(const std::vector<unsigned>& rows) = 0;
    virtual void addFromList(const std::vector<size_t>& rows) = 0;
    virtual void pop() = 0;
    virtual std::pair<size_t, size_t> top() = 0;
    virtual const PairData& topData() = 0;
    virtual bool empty() = 0;
    virtual size_t columns() = 0;
    virtual size_t pairs() = 0;
    virtual bool canRetire() = 0;
    virtual void retire(size_t i) = 0;
    virtual bool retired(size_t i) = 0;
    virtual size_t memory() = 0;
    virtual std::string name() = 0;
  };

  template<class C, bool R> struct RetireCall {
    static void call(mathic::PairQueue<C>& q, size_t i) {q.retireIndex(i);}
  };
  template<class C> struct RetireCall<C, false> {
    static void call(mathic::PairQueue<C>&, size_t) {}
  };

  template<bool R, bool Cu> struct Impl: IPairQueue {
    typedef Conf<R, Cu> C;
    mathic::PairQueue<C> q;
    Impl(const C& c): q(c) {}
    void add(const std::vector<unsigned>& rows) {q.addColumnDescending(rows.begin(), rows.end());}
    void addFromList(const std::vector<size_t>& rows) {
      const size_t* b = rows.empty() ? 0 : &rows[0];
      q.addColumnDescending(b, b + rows.size());
    }
    void pop() {q.pop();}
    std::pair<size_t, size_t> top() {return q.topPair();}
    const PairData& topData() {return q.topPairData();}
    bool empty() {return static_cast<const mathic::PairQueue<C>&>(q).empty();}
    size_t columns() {return q.columnCount();}
    size_t pairs() {return q.pairCount();}
    bool canRetire() {return R;}
    void retire(size_t i) {RetireCall<C, R>::call(q, i);}
    bool retired(size_t i) {return q.retired(i);}
    size_t memory() {return q.getMemoryUse();}
    std::string name() {return q.name();}
  };

  struct Q {
    std::unique_ptr<IPairQueue> q;
    std::unique_ptr<Shared> shared;
    size_t columns;
    // live pairs: added, not popped, no retired index
    std::set<std::pair<size_t, size_t> > live;
    std::multiset<i64> keys; // of live
    size_t retiredPairs;     // removed only by retirement
    bool poisoned;           // a pop was interrupted by compare
    std::vector<unsigned> unretired; // candidates for rows
  };

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void create(Q& q);
    void destroy(Q& q);
    void step(const Op& op);
    void check(Q& q);
    void dropLive(Q& q, const std::pair<size_t, size_t>& p) {
      q.live.erase(p);
      q.keys.erase(q.keys.find(q.shared->common.weight(p.first, p.second)));
    }
    void recover(Q& q);
    const Plan& _plan;
    std::vector<Q> _qs;
    int _flags;
  };

  void Sim::create(Q& q) {
    q.shared.reset(new Shared());
    q.shared->common.salt = static_cast<u64>(_plan.get("salt"));
    q.shared->common.keyRange = std::max<i64>(1, _plan.get("keyRange", 100));
    q.shared->common.mode = static_cast<int>(_plan.get("mode"));
    q.columns = 0;
    q.live.clear();
    q.keys.clear();
    q.retiredPairs = 0;
    q.poisoned = false;
    q.unretired.clear();
    Shared* const s = q.shared.get();
    sutOk("construction", [&] {
      switch (_flags & 3) {
      case 0: {Conf<true, false> c; c.shared = s; q.q.reset(new Impl<true, false>(c)); break;}
      case 1: {Conf<false, false> c; c.shared = s; q.q.reset(new Impl<false, false>(c)); break;}
      case 2: {Conf<true, true> c; c.shared = s; q.q.reset(new Impl<true, true>(c)); break;}
      default: {Conf<false, true> c; c.shared = s; q.q.reset(new Impl<false, true>(c)); break;}
      }
    });
    const i64 pre = bulk(_plan.get("prefix"));
    if (pre > 0) {
      const std::vector<unsigned> none;
      sutOk("adding empty columns", [&] {for (i64 i = 0; i < pre; ++i) q.q->add(none);});
      for (i64 i = 0; i < pre; ++i) q.unretired.push_back(static_cast<unsigned>(i));
      q.columns = static_cast<size_t>(pre);
      g.probe("runs past the 16-bit row storage limit");
    }
  }

  void Sim::destroy(Q& q) {
    const i64 pairsAlive = g.liveEntries;
    (void)pairsAlive;
    sutOk("destruction", [&] {q.q.reset();});
  }

  // After an aborted pop the queue may show a retired pair; popping on skips it.
  void Sim::recover(Q& q) {
    for (int i = 0; i < 100000; ++i) {
      bool e = false;
      sutOk("empty", [&] {e = q.q->empty();});
      if (e) return;
      std::pair<size_t, size_t> p;
      sutOk("topPair", [&] {p = q.q->top();});
      if (!q.shared->retired.count(p.first) && !q.shared->retired.count(p.second)) return;
      sutOk("pop", [&] {q.q->pop();});
    }
  }

  void Sim::check(Q& q) {
    if (q.poisoned) return;
    size_t cols = 0, pairs = 0;
    bool e = false;
    sutOk("queries", [&] {cols = q.q->columns(); pairs = q.q->pairs(); e = q.q->empty();});
    if (cols != q.columns) throw Violation("column-count", strf("columnCount() is %zu, %zu columns were added", cols, q.columns));
    if (e != q.live.empty()) throw Violation("empty", strf("empty() is %d with %zu pairs to go", int(e), q.live.size()));
    if (pairs < q.live.size() || pairs > q.live.size() + q.retiredPairs)
      throw Violation("pair-count", strf("pairCount() is %zu with %zu unretired and %zu retired pairs to go", pairs, q.live.size(), q.retiredPairs));
    if (!q.q->canRetire() && pairs != q.live.size())
      throw Violation("pair-count", strf("pairCount() is %zu with %zu pairs to go", pairs, q.live.size()));
    if (e) return;
    std::pair<size_t, size_t> p;
    i64 dataCol = -1, dataRow = -1, dataKey = 0;
    sutOk("topPair", [&] {
      p = q.q->top();
      const PairData& pd = q.q->topData();
      CbScope cb;
      if (pd.ok()) {dataCol = pd.col; dataRow = pd.row; dataKey = pd.key;}
    });
    if (!q.live.count(p))
      throw Violation("wrong-top", strf("topPair() is (%zu,%zu), which is %s", p.first, p.second,
        q.shared->retired.count(p.first) || q.shared->retired.count(p.second) ? "retired" : "not in the queue (popped before or never added)"));
    const i64 w = q.shared->common.weight(p.first, p.second);
    if (w != *q.keys.rbegin())
      throw Violation("order", strf("topPair() (%zu,%zu) has key %lld but there is a pair with key %lld", p.first, p.second, (long long)w, (long long)*q.keys.rbegin()));
    if (dataCol != static_cast<i64>(p.first) || dataRow != static_cast<i64>(p.second) || dataKey != w)
      throw Violation("wrong-pairdata", strf("topPairData() for (%zu,%zu) holds the data of (%lld,%lld)", p.first, p.second, (long long)dataCol, (long long)dataRow));
    g.state(mix64(_flags + 4 * _plan.get("mode")) ^ mix64(std::min<size_t>(q.columns, 200) * 100000 + std::min<size_t>(q.live.size(), 500)) ^ mix64(std::min<size_t>(q.retiredPairs, 100)));
  }

  enum {OAdd, OAddEmpty, OPop, ORetire, ORetireTop, OQuery, ODrain, ORecreate, OAddBig};

  void Sim::step(const Op& op) {
    Q& q = _qs[static_cast<size_t>(op.arg(0)) % _qs.size()];
    if (q.poisoned) {
      g.probe("queue destroyed after a comparison failed inside pop");
      destroy(q);
      create(q);
    }
    g.log(30 + op.kind);
    switch (op.kind) {
    case OAdd: case OAddEmpty: case OAddBig: {
      // rows: a subset of the unretired indexes, chosen by (seed, density)
      std::vector<unsigned> rows;
      if (op.kind != OAddEmpty) {
        const u64 salt = static_cast<u64>(op.arg(1));
        const i64 density = op.arg(2); // per mille
        const size_t cap = static_cast<size_t>(std::max<i64>(0, op.arg(3)));
        const size_t n = q.unretired.size();
        // sample from the end so that large indexes are used in large queues
        const size_t from = n > 400 && op.kind == OAdd ? n - 400 : 0;
        const size_t stride = op.kind == OAddBig && n > 400 ? n / 300 : 1;
        for (size_t i = from; i < n && rows.size() < cap; i += stride)
          if (static_cast<i64>(mix64(salt ^ mix64(i)) % 1000) < density) rows.push_back(q.unretired[i]);
      }
      const size_t col = q.columns;
      const Common& c = q.shared->common;
      const u64 tie = static_cast<u64>(op.arg(1));
      std::sort(rows.begin(), rows.end(), [&](unsigned a, unsigned b) {
        const i64 x = c.weight(col, a), y = c.weight(col, b);
        if (x != y) return x > y;
        return mix64(tie ^ a) < mix64(tie ^ b);
      });
      const bool viaSize = (op.arg(4) & 1) != 0;
      std::vector<size_t> rows2(rows.begin(), rows.end());
      const Outcome o = sut(op, [&] {if (viaSize) q.q->addFromList(rows2); else q.q->add(rows);});
      g.say("add column %zu with %zu rows -> %s", col, rows.size(), outcomeName(o));
      if (o == Done) {
        for (size_t i = 0; i < rows.size(); ++i) {
          q.live.insert(std::make_pair(col, static_cast<size_t>(rows[i])));
          q.keys.insert(c.weight(col, rows[i]));
        }
        ++q.columns;
        q.unretired.push_back(static_cast<unsigned>(col));
      } else if (o == Other)
        throw Violation("unexpected-exception", "addColumnDescending threw something else than what was injected");
      else {
        g.probe("failed column addition");
        if (op.arg(5) == 0 && o != Done) {
          // retry must work
          sutOk("retried addColumnDescending", [&] {if (viaSize) q.q->addFromList(rows2); else q.q->add(rows);});
          for (size_t i = 0; i < rows.size(); ++i) {
            q.live.insert(std::make_pair(col, static_cast<size_t>(rows[i])));
            q.keys.insert(c.weight(col, rows[i]));
          }
          ++q.columns;
          q.unretired.push_back(static_cast<unsigned>(col));
        }
      }
      break;
    }
    case OPop: {
      if (q.live.empty()) break;
      std::pair<size_t, size_t> p;
      sutOk("topPair", [&] {p = q.q->top();});
      const Outcome o = sut(op, [&] {q.q->pop();});
      g.say("pop (%zu,%zu) -> %s", p.first, p.second, outcomeName(o));
      if (o == Done) dropLive(q, p);
      else if (o == Faulted) {
        if (op.fault == FPairData) {
          // The popped pair may or may not be gone; nothing else is.
          g.probe("pop aborted by pair data computation");
          recover(q);
          bool e = false;
          sutOk("empty", [&] {e = q.q->empty();});
          std::pair<size_t, size_t> p2(~size_t(0), 0);
          if (!e) sutOk("topPair", [&] {p2 = q.q->top();});
          if (p2 != p) dropLive(q, p);
        } else q.poisoned = true;
      } else throw Violation("unexpected-exception", "pop threw something else than what was injected");
      break;
    }
    case ORetire: case ORetireTop: {
      if (!q.q->canRetire() || q.unretired.empty()) break;
      size_t index;
      if (op.kind == ORetireTop && !q.live.empty()) {
        std::pair<size_t, size_t> p;
        sutOk("topPair", [&] {p = q.q->top();});
        index = (op.arg(1) & 1) ? p.first : p.second;
      } else {
        const size_t n = q.unretired.size();
        index = n > 300 ? q.unretired[n - 1 - static_cast<size_t>(op.arg(1)) % 300] : q.unretired[static_cast<size_t>(op.arg(1)) % n];
      }
      q.unretired.erase(std::find(q.unretired.begin(), q.unretired.end(), static_cast<unsigned>(index)));
      q.shared->retired.insert(index);
      std::vector<std::pair<size_t, size_t> > gone;
      for (std::set<std::pair<size_t, size_t> >::iterator it = q.live.begin(); it != q.live.end(); ++it)
        if (it->first == index || it->second == index) gone.push_back(*it);
      const Outcome o = sut(op, [&] {q.q->retire(index);});
      g.say("retire %zu -> %s", index, outcomeName(o));
      for (size_t i = 0; i < gone.size(); ++i) dropLive(q, gone[i]);
      q.retiredPairs += gone.size();
      if (o == Faulted) {
        if (op.fault == FPairData) recover(q); else q.poisoned = true;
      } else if (o != Done) throw Violation("unexpected-exception", "retireIndex threw something else than what was injected");
      break;
    }
    case OQuery: {
      bool ok = true;
      size_t bad = 0;
      sutOk("retired", [&] {
        for (size_t i = q.columns > 300 ? q.columns - 300 : 0; i < q.columns; ++i)
          if (q.q->retired(i) != (q.shared->retired.count(i) != 0)) {ok = false; bad = i;}
        q.q->memory();
        q.q->name();
      });
      if (!ok) throw Violation("retired", strf("retired(%zu) is wrong", bad));
      break;
    }
    case ODrain: {
      i64 n = op.arg(1) <= 0 ? (i64(1) << 40) : op.arg(1);
      while (n-- > 0 && !q.live.empty()) {
        std::pair<size_t, size_t> p;
        sutOk("topPair", [&] {p = q.q->top();});
        check(q);
        sutOk("pop", [&] {q.q->pop();});
        dropLive(q, p);
      }
      break;
    }
    case ORecreate:
      destroy(q);
      create(q);
      break;
    }
    check(q);
  }

  void Sim::run() {
    _flags = static_cast<int>(_plan.get("flags"));
    _qs.resize(static_cast<size_t>(std::max<i64>(1, _plan.get("queues", 1))));
    for (size_t i = 0; i < _qs.size(); ++i) create(_qs[i]);
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < _qs.size(); ++i) {
      Q& q = _qs[i];
      if (_plan.get("drain", 1) && !q.poisoned)
        while (!q.live.empty()) {
          std::pair<size_t, size_t> p;
          check(q);
          sutOk("topPair", [&] {p = q.q->top();});
          sutOk("pop", [&] {q.q->pop();});
          dropLive(q, p);
        }
      check(q);
      destroy(q);
    }
    _qs.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"add", "addEmpty", "pop", "retire", "retireTop", "query", "drain", "recreate", "addBig"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C04" || p == "C05";}
  void harnessExecute(const Plan& plan) {Sim s(plan); s.run();}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    const bool c05 = p.prop == "C05";
    p.set("flags", static_cast<i64>(r.below(4)) & (r.chance(50) ? 2 : 3)); // retirement more often
    p.set("salt", static_cast<i64>(r.below(1000000)));
    static const std::vector<int> modes = {0, 0, 0, 0, 1, 2, 3, 4};
    p.set("mode", r.pick(modes));
    p.set("keyRange", r.chance(50) ? r.range(1, 12) : 100000);
    p.set("queues", r.chance(80) ? 1 : 2);
    p.set("drain", r.chance(c05 ? 40 : 80));
    if (r.chance(3)) p.set("prefix", 65535 + r.range(-12, 8));
    const bool faults = r.chance(c05 ? 80 : 55);
    const int rate = faults ? static_cast<int>(r.range(3, 35)) : 0;
    std::vector<int> addKinds, popKinds;
    static const std::vector<int> all = {FAlloc, FPairData, FConstruct, FCompare, FAny};
    for (size_t i = 0; i < all.size(); ++i) if (r.chance(65)) addKinds.push_back(all[i]);
    if (addKinds.empty()) addKinds.push_back(FCompare);
    if (r.chance(60)) popKinds.push_back(FPairData);
    if (r.chance(c05 ? 60 : 25)) popKinds.push_back(FCompare);
    static const int base[] = {30, 3, 35, 6, 6, 3, 1, 1, 4};
    std::vector<int> w(opCount, 0);
    for (size_t i = 0; i < opCount; ++i) {
      w[i] = base[i];
      if (r.chance(15)) w[i] = 0;
      else if (r.chance(15)) w[i] *= 4;
    }
    if (w[OAdd] == 0) w[OAdd] = 25;
    i64 n = thorough ? r.range(4, 300) : r.range(4, 120);
    if (r.chance(30)) n = r.range(3, 20);
    const i64 cap = r.small(thorough ? 300 : 60);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(r.weighted(w)));
      op.add(static_cast<i64>(r.below(2)));
      switch (op.kind) {
      case OAdd: case OAddBig:
        op.add(static_cast<i64>(r.below(1000000)));
        op.add(r.chance(30) ? 1000 : r.range(0, 1000));
        op.add(r.chance(70) ? r.small(cap) : cap);
        op.add(static_cast<i64>(r.below(2)));
        op.add(static_cast<i64>(r.below(2)));
        break;
      case OAddEmpty: op.add(0).add(0).add(0).add(0).add(static_cast<i64>(r.below(2))); break;
      case ODrain: op.add(r.chance(30) ? 0 : r.small(100)); break;
      default: op.add(static_cast<i64>(r.below(1000))); break;
      }
      if (rate && r.chance(rate)) {
        if (op.kind == OAdd || op.kind == OAddBig || op.kind == OAddEmpty) {
          drawFault(r, op, addKinds, 6);
          if (op.fault == FAlloc) op.at = r.small(4);
        } else if (op.kind == OPop || op.kind == ORetireTop || op.kind == ORetire)
          drawFault(r, op, popKinds, 5);
      }
      p.ops.push_back(op);
    }
  }
}
