// Workload, reference model and oracle for the priority queues (C01-C03).
#include "pq.h"
#include <algorithm>
#include <memory>
#include <ostream>
#include <set>
#include <sstream>


namespace pq {
#define D(i) IQueue* makeGeoPart##i(int, const ConfBase&);
  D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11)
#undef D
  std::ostream& operator<<(std::ostream& out, const Ent& e) {return out << e.h;}

  IQueue* makeGeo(int flags, const ConfBase& c) {
    typedef IQueue* (*Maker)(int, const ConfBase&);
    static const Maker makers[12] = {
      makeGeoPart0, makeGeoPart1, makeGeoPart2, makeGeoPart3, makeGeoPart4, makeGeoPart5,
      makeGeoPart6, makeGeoPart7, makeGeoPart8, makeGeoPart9, makeGeoPart10, makeGeoPart11};
    flags %= 192;
    return makers[flags / 16](flags % 16, c);
  }

  std::vector<Bag> bags;
  static bool garbageMatters = true; // off after a violation
  static std::vector<char> poisonedQueue;
  static bool strict(int queue) {return garbageMatters && !(static_cast<size_t>(queue) < poisonedQueue.size() && poisonedQueue[queue]);}
  static u64 dedupsInOp = 0;

  static i64 keyOf(const Ent& e, int queue) {
    e.check();
    if (e.h >= bags.size()) {
      if (strict(queue)) g.flag("garbage-entry", "an entry that was never pushed reached the compare callback");
      return 0;
    }
    return bags[e.h].key;
  }

  int ConfBase::compare(const Ent& a, const Ent& b) const {
    CbScope cb;
    const i64 x = keyOf(a, queue), y = keyOf(b, queue);
    if (strict(queue) && a.h < bags.size() && b.h < bags.size() && bags[a.h].queue != bags[b.h].queue)
      g.flag("foreign-entry", "entries of different queues compared");
    g.log(1, a.h * 65536ull + b.h);
    g.throwAt(FCompare);
    return x < y ? -1 : x > y;
  }

  Ent ConfBase::deduplicate(const Ent& a, const Ent& b) const {
    CbScope cb;
    g.log(2, a.h * 65536ull + b.h);
    g.throwAt(FDedup);
    const i64 x = keyOf(a, queue), y = keyOf(b, queue);
    if (!strict(queue) || a.h >= bags.size() || b.h >= bags.size()) return a;
    if (a.h == b.h) g.flag("dedup-self", "an entry was merged with itself");
    if (x != y) g.flag("dedup-unequal", "entries that are not equal were merged");
    Bag bag;
    bag.key = x;
    bag.queue = bags[a.h].queue;
    bag.ids = bags[a.h].ids;
    bag.ids.insert(bag.ids.end(), bags[b.h].ids.begin(), bags[b.h].ids.end());
    bags.push_back(bag);
    ++dedupsInOp;
    return Ent(static_cast<std::uint32_t>(bags.size() - 1));
  }

  bool Visitor::proceed(const Ent& e) {
    CbScope cb;
    e.check();
    if (stopped) visitedAfterStop = true;
    seen.push_back(e.h);
    g.log(3, e.h);
    g.throwAt(FVisit);
    if (stopAfter >= 0 && static_cast<i64>(seen.size()) >= stopAfter) {
      stopped = true;
      return false;
    }
    return true;
  }

  // --------------------------------------------------------- reference model
  // For each queue: the outstanding original entries. certain: must be there;
  // maybe: may be there (only after a failed range push or decreaseTop on a
  // queue that cannot be iterated).
  struct Model {
    std::set<std::uint32_t> certain, maybe;
    std::multiset<i64> keys; // of certain
  };

  struct Q {
    std::unique_ptr<IQueue> q;
    Model m;
    bool poisoned;
    int kind;
  };

  class Sim {
  public:
    Sim(const Plan& plan): _carry(0), _plan(plan) {}
    void run();
  private:
    IQueue* make(int queue);
    std::uint32_t newEntry(Q& q, i64 key);
    void accept(Q& q, std::uint32_t id) {
      q.m.certain.insert(id);
      q.m.keys.insert(bags[id].key);
    }
    void take(Q& q, std::uint32_t id, const char* what);
    void takeBag(Q& q, std::uint32_t h, const char* what);
    void checkTop(Q& q, std::uint32_t h, const char* what);
    void resync(Q& q);   // decide the maybes by iterating
    void compareContent(Q& q, bool exact);
    void checkEmptySize(Q& q);
    void step(const Op& op, size_t index);
    void poison(Q& q);
    void replace(Q& q);
    bool certainHolds(Q& q) const {return !q.m.certain.empty();}
    i64 maxKey(const Q& q) const {return *q.m.keys.rbegin();}
    void setBagKey(Q& q, std::uint32_t h, i64 key);

    // An allocation fault that found no allocation to fail in its operation
    // stays armed for the following pushes (memory is short until noticed).
    Op withCarry(const Op& op) {
      if (op.fault == FNone && _carry) {
        Op o = op;
        o.fault = FAlloc;
        o.at = 1;
        o.len = _carry;
        return o;
      }
      return op;
    }
    template<class F> Outcome sutCarry(const Op& op, F f) {
      const Op o = withCarry(op);
      const u64 before = g.stats.fired[FAlloc];
      const Outcome r = sut(o, f);
      if (o.fault == FAlloc) _carry = g.stats.fired[FAlloc] == before ? o.len : 0;
      return r;
    }
    i64 _carry;

    const Plan& _plan;
    std::vector<Q> _qs;
    int _kind, _flags;
  };

  IQueue* Sim::make(int queue) {
    ConfBase c;
    c.minBucketSize = static_cast<size_t>(std::max<i64>(1, _plan.get("minBucket", 4)));
    c.geoBase = static_cast<size_t>(std::max<i64>(2, _plan.get("geoBase", 2)));
    c.queue = queue;
    return _kind == KGeo ? makeGeo(_flags, c) : makeSmall(_kind, _flags, c);
  }

  std::uint32_t Sim::newEntry(Q& q, i64 key) {
    Bag b;
    b.key = key;
    b.queue = static_cast<int>(&q - &_qs[0]);
    b.ids.push_back(static_cast<std::uint32_t>(bags.size()));
    bags.push_back(b);
    return static_cast<std::uint32_t>(bags.size() - 1);
  }

  void Sim::take(Q& q, std::uint32_t id, const char* what) {
    if (q.m.certain.erase(id)) {
      q.m.keys.erase(q.m.keys.find(bags[id].key));
      return;
    }
    if (q.m.maybe.erase(id)) return;
    throw Violation("duplicate-or-foreign", strf("%s: entry %u (key %lld) is not in the queue (handed out before, or never accepted)", what, id, (long long)bags[id].key));
  }

  void Sim::takeBag(Q& q, std::uint32_t h, const char* what) {
    if (h >= bags.size()) throw Violation("garbage-entry", strf("%s returned an entry that was never pushed", what));
    const std::vector<std::uint32_t> ids = bags[h].ids;
    for (size_t i = 0; i < ids.size(); ++i) take(q, ids[i], what);
  }

  void Sim::checkTop(Q& q, std::uint32_t h, const char* what) {
    if (h >= bags.size()) throw Violation("garbage-entry", strf("%s returned an entry that was never pushed", what));
    const std::vector<std::uint32_t>& ids = bags[h].ids;
    for (size_t i = 0; i < ids.size(); ++i)
      if (!q.m.certain.count(ids[i]) && !q.m.maybe.count(ids[i]))
        throw Violation("duplicate-or-foreign", strf("%s: entry %u is not in the queue", what, ids[i]));
    if (!q.m.keys.empty() && bags[h].key < maxKey(q))
      throw Violation("order", strf("%s returned key %lld but key %lld is in the queue", what, (long long)bags[h].key, (long long)maxKey(q)));
    // a maybe with a larger key cannot be there
    for (std::set<std::uint32_t>::iterator it = q.m.maybe.begin(); it != q.m.maybe.end();)
      if (bags[*it].key > bags[h].key) it = q.m.maybe.erase(it); else ++it;
  }

  // All visited entries must partition the content.
  void Sim::compareContent(Q& q, bool exact) {
    if (!q.q->hasForAll()) return;
    Visitor v;
    sutOk("forAll", [&] {q.q->forAll(v);});
    std::set<std::uint32_t> seen;
    for (size_t i = 0; i < v.seen.size(); ++i) {
      if (v.seen[i] >= bags.size()) throw Violation("garbage-entry", "iteration visits an entry that was never pushed");
      const std::vector<std::uint32_t>& ids = bags[v.seen[i]].ids;
      for (size_t j = 0; j < ids.size(); ++j) {
        if (!seen.insert(ids[j]).second)
          throw Violation("iteration-duplicate", strf("iteration shows entry %u twice", ids[j]));
        if (!q.m.certain.count(ids[j]) && !q.m.maybe.count(ids[j]))
          throw Violation("duplicate-or-foreign", strf("iteration shows entry %u which is not in the queue", ids[j]));
      }
    }
    for (std::set<std::uint32_t>::const_iterator it = q.m.certain.begin(); it != q.m.certain.end(); ++it)
      if (!seen.count(*it))
        throw Violation("lost-entry", strf("iteration misses entry %u (key %lld)", *it, (long long)bags[*it].key));
    if (q.q->hasSize()) {
      size_t n = 0;
      sutOk("size", [&] {n = q.q->size();});
      if (n != v.seen.size())
        throw Violation("size", strf("size() is %zu but iteration visits %zu entries", n, v.seen.size()));
    }
    if (!exact) {
      std::set<std::uint32_t> maybe = q.m.maybe;
      q.m.maybe.clear();
      for (std::set<std::uint32_t>::const_iterator it = maybe.begin(); it != maybe.end(); ++it)
        if (seen.count(*it)) accept(q, *it);
    }
  }

  void Sim::resync(Q& q) {compareContent(q, false);}

  void Sim::checkEmptySize(Q& q) {
    bool e = false;
    sutOk("empty", [&] {e = q.q->empty();});
    if (q.m.maybe.empty()) {
      if (e != q.m.certain.empty())
        throw Violation("empty", strf("empty() is %d but %zu entries are in the queue", int(e), q.m.certain.size()));
    } else if (e && !q.m.certain.empty())
      throw Violation("empty", "empty() is true but entries are in the queue");
    if (q.q->hasSize() && q.m.maybe.empty()) {
      size_t n = 0;
      sutOk("size", [&] {n = q.q->size();});
      if (!q.q->dedup() && n != q.m.certain.size())
        throw Violation("size", strf("size() is %zu but %zu entries are in the queue", n, q.m.certain.size()));
      if (q.q->dedup() && (n > q.m.certain.size() || (n == 0) != q.m.certain.empty()))
        throw Violation("size", strf("size() is %zu but %zu entries were accepted", n, q.m.certain.size()));
    }
  }

  void Sim::setBagKey(Q& q, std::uint32_t h, i64 key) {
    Bag& b = bags[h];
    for (size_t i = 0; i < b.ids.size(); ++i) {
      const std::uint32_t id = b.ids[i];
      const i64 old = bags[id].key;
      if (q.m.certain.count(id)) {
        q.m.keys.erase(q.m.keys.find(old));
        q.m.keys.insert(key);
      }
      bags[id].key = key;
    }
    b.key = key;
  }

  void Sim::poison(Q& q) {
    q.poisoned = true;
    poisonedQueue[&q - &_qs[0]] = 1;
    g.probe("queue interrupted by a callback, then cleared or destroyed");
  }

  void Sim::replace(Q& q) {
    sutOk("destruction", [&] {q.q.reset();});
    q.m = Model();
    q.poisoned = false;
    poisonedQueue[&q - &_qs[0]] = 0;
    const int i = static_cast<int>(&q - &_qs[0]);
    sutOk("construction", [&] {q.q.reset(make(i));});
  }

  enum {OPush, OPushRange, OPop, OTop, ODecrease, OMutateDecrease, OMutatePop, OClear, OForAll, OQuery,
        OPrint, ODrain, OMove, ORecreate, OBurst, OReplaceTop};

  void Sim::step(const Op& op, size_t) {
    Q& q = _qs[static_cast<size_t>(op.arg(0)) % _qs.size()];
    g.log(10 + op.kind, static_cast<u64>(&q - &_qs[0]));
    if (q.poisoned) {
      // Only clear and destruction are allowed now. Alternate between them.
      if (q.q->hasClear() && (op.arg(1) + op.kind) % 3 != 0) {
        Op clean;
        sutOk("clear after an interruption", [&] {q.q->clear();});
        q.m = Model();
        q.poisoned = false;
        poisonedQueue[&q - &_qs[0]] = 0;
        g.say("clear after interruption");
      } else {
        g.say("destroy after interruption");
        replace(q);
      }
      checkEmptySize(q);
      compareContent(q, true);
      // go on with the operation on the cleaned queue
    }
    dedupsInOp = 0;
    switch (op.kind) {
    case OPush: {
      const std::uint32_t h = newEntry(q, op.arg(1));
      const Ent e(h);
      const Outcome o = sutCarry(op, [&] {q.q->push(e);});
      g.say("push id %u key %lld -> %s", h, (long long)op.arg(1), outcomeName(o));
      if (o == Done) accept(q, h);
      else if (o == Faulted) poison(q);
      else if (o == Other) throw Violation("unexpected-exception", "push threw something else than what was injected");
      break;
    }
    case OBurst: { // many pushes in one op: start key, step, count, modulus
      const i64 n = bulk(op.arg(3)), mod = op.arg(4);
      for (i64 i = 0; i < n && !q.poisoned; ++i) {
        const i64 key = op.arg(1) + op.arg(2) * i;
        const std::uint32_t h = newEntry(q, mod > 0 ? key % mod : key);
        const Ent e(h);
        sutOk("push", [&] {q.q->push(e);});
        accept(q, h);
      }
      if (n > 20000) g.probe("queue of more than 20000 entries");
      g.say("burst of %lld", (long long)n);
      break;
    }
    case OPushRange: { // arg 1..: keys
      std::vector<i64> keys(op.a.begin() + (op.a.empty() ? 0 : 1), op.a.end());
      std::sort(keys.begin(), keys.end());
      std::reverse(keys.begin(), keys.end());
      if (q.q->dedup()) keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
      std::vector<Ent> es;
      es.reserve(keys.size());
      for (size_t i = 0; i < keys.size(); ++i) es.push_back(Ent(newEntry(q, keys[i])));
      const Ent* b = es.empty() ? 0 : &es[0];
      const Outcome o = sutCarry(op, [&] {q.q->pushRange(b, b + es.size());});
      g.say("push range of %zu -> %s", es.size(), outcomeName(o));
      if (o == Done) for (size_t i = 0; i < es.size(); ++i) accept(q, es[i].h);
      else if (o == Faulted) poison(q);
      else if (o == NoMemory) {
        for (size_t i = 0; i < es.size(); ++i) q.m.maybe.insert(es[i].h);
        resync(q);
      } else throw Violation("unexpected-exception", "range push threw something else than what was injected");
      break;
    }
    case OPop: case OMutatePop: {
      if (q.m.certain.empty()) {checkEmptySize(q); return;}
      if (op.kind == OMutatePop) {
        std::uint32_t h = NoHandle;
        sutOk("top", [&] {h = q.q->top().h;});
        checkTop(q, h, "top");
        setBagKey(q, h, bags[h].key - std::max<i64>(0, op.arg(1)));
        std::uint32_t p = NoHandle;
        const Outcome o = sut(op, [&] {p = q.q->pop().h;});
        if (o == Done) {
          if (p != h) throw Violation("order", "pop after in-place decrease of the top did not remove the top");
          takeBag(q, p, "pop");
        } else if (o == Faulted) poison(q);
        else throw Violation("unexpected-exception", "pop threw");
        g.say("in-place decrease of top %u, pop -> %s", h, outcomeName(o));
        break;
      }
      std::uint32_t h = NoHandle;
      const Outcome o = sut(op, [&] {h = q.q->pop().h;});
      g.say("pop -> %s, %d key %lld", outcomeName(o), int(h), (long long)(h < bags.size() ? bags[h].key : -1));
      if (o == Done) {
        checkTop(q, h, "pop");
        takeBag(q, h, "pop");
        if (bags[h].ids.size() > 1) g.probe("popped a merged entry");
      } else if (o == Faulted) poison(q);
      else if (o == NoMemory) throw Violation("unexpected-exception", "pop needs no memory but threw bad_alloc");
      else throw Violation("unexpected-exception", "pop threw something else than what was injected");
      break;
    }
    case OTop: {
      if (q.m.certain.empty()) {checkEmptySize(q); return;}
      std::uint32_t h = NoHandle;
      const Outcome o = sut(op, [&] {h = q.q->top().h;});
      g.say("top -> %s %d", outcomeName(o), int(h));
      if (o == Done) checkTop(q, h, "top");
      else if (o == Faulted) {
        // reading must not change the content, unless copying entries failed
        // in the middle of a permitted lazy merge
        if (op.fault == FCopy && q.q->dedup()) poison(q);
        else {
          compareContent(q, true);
          if (op.arg(1) != 0) {
            sutOk("top", [&] {h = q.q->top().h;});
            g.say("top again -> %d", int(h));
            checkTop(q, h, "top after an interrupted top");
          }
        }
        g.probe("interrupted top");
      } else throw Violation("unexpected-exception", "top threw something else than what was injected");
      break;
    }
    case ODecrease: case OReplaceTop: case OMutateDecrease: {
      if (!q.q->hasDecreaseTop()) return;
      if (q.m.certain.empty()) {checkEmptySize(q); return;}
      std::uint32_t h = NoHandle;
      sutOk("top", [&] {h = q.q->top().h;});
      checkTop(q, h, "top");
      const i64 delta = std::max<i64>(0, op.arg(1));
      if (op.kind == OMutateDecrease) {
        setBagKey(q, h, bags[h].key - delta);
        const Ent e(h);
        const Outcome o = sutCarry(op, [&] {q.q->decreaseTop(e);});
        g.say("in-place decrease of top %u by %lld -> %s", h, (long long)delta, outcomeName(o));
        if (o == Faulted) poison(q);
        else if (o == NoMemory) {
          // the entry may be in or out, nothing else may change
          const std::vector<std::uint32_t> ids = bags[h].ids;
          for (size_t i = 0; i < ids.size(); ++i) {
            take(q, ids[i], "decreaseTop");
            q.m.maybe.insert(ids[i]);
          }
          resync(q);
        } else if (o == Other) throw Violation("unexpected-exception", "decreaseTop threw something else than what was injected");
      } else {
        const std::uint32_t n = newEntry(q, bags[h].key - delta);
        const Ent e(n);
        const Outcome o = sutCarry(op, [&] {q.q->decreaseTop(e);});
        g.say("decrease top %u by %lld, new entry %u -> %s", h, (long long)delta, n, outcomeName(o));
        if (o == Done) {
          takeBag(q, h, "decreaseTop");
          accept(q, n);
        } else if (o == Faulted) poison(q);
        else if (o == NoMemory) {
          const std::vector<std::uint32_t> ids = bags[h].ids;
          for (size_t i = 0; i < ids.size(); ++i) {
            take(q, ids[i], "decreaseTop");
            q.m.maybe.insert(ids[i]);
          }
          resync(q);
        } else throw Violation("unexpected-exception", "decreaseTop threw something else than what was injected");
      }
      break;
    }
    case OClear: {
      if (!q.q->hasClear()) {replace(q); break;}
      const Outcome o = sut(op, [&] {q.q->clear();});
      g.say("clear -> %s", outcomeName(o));
      if (o != Done) throw Violation("unexpected-exception", "clear threw");
      q.m = Model();
      compareContent(q, true);
      break;
    }
    case OForAll: {
      if (!q.q->hasForAll()) return;
      Visitor v;
      v.stopAfter = op.arg(1) == 0 ? -1 : op.arg(1);
      const Outcome o = sut(op, [&] {q.q->forAll(v);});
      g.say("forAll -> %s after %zu", outcomeName(o), v.seen.size());
      if (v.visitedAfterStop) throw Violation("visit-after-stop", "iteration went on after the visitor asked to stop");
      if (o == Done && !v.stopped) {
        size_t n = 0;
        for (size_t i = 0; i < v.seen.size(); ++i) {
          if (v.seen[i] >= bags.size()) throw Violation("garbage-entry", "iteration visits an entry that was never pushed");
          n += bags[v.seen[i]].ids.size();
        }
        if (n != q.m.certain.size()) throw Violation("iteration-count", strf("iteration shows %zu entries, %zu are in the queue", n, q.m.certain.size()));
      }
      if (o != Done) compareContent(q, true);
      break;
    }
    case OQuery: {
      checkEmptySize(q);
      compareContent(q, true);
      size_t mem = 0;
      sutOk("getMemoryUse", [&] {mem = q.q->memoryUse();});
      break;
    }
    case OPrint: {
      std::ostringstream out;
      sutOk("print", [&] {q.q->print(out); q.q->name();});
      break;
    }
    case ODrain: {
      i64 n = op.arg(1);
      if (n <= 0) n = static_cast<i64>(1) << 40;
      while (n-- > 0 && !q.m.certain.empty()) {
        std::uint32_t h = NoHandle;
        sutOk("pop", [&] {h = q.q->pop().h;});
        checkTop(q, h, "pop");
        takeBag(q, h, "pop");
      }
      g.say("drain, %zu left", q.m.certain.size());
      break;
    }
    case OMove: {
      if (!q.q->canMove()) return;
      sutOk("move", [&] {q.q->move();});
      g.say("move");
      compareContent(q, true);
      break;
    }
    case ORecreate:
      replace(q);
      g.say("recreate");
      break;
    }
    if (!q.poisoned) {
      checkEmptySize(q);
      if (g.opsInRun % 7 == 0 && q.m.certain.size() < 400) compareContent(q, true);
      g.state(mix64(static_cast<u64>(_kind * 1000 + _flags)) ^ mix64(static_cast<u64>(op.kind * 8 + (g.firedInRun ? 1 : 0))) ^
        mix64(std::min<size_t>(q.m.certain.size(), 300) + 7919 * (q.m.keys.empty() ? 0 : static_cast<u64>(q.m.keys.count(maxKey(q))))));
    }
  }

  void Sim::run() {
    _kind = static_cast<int>(_plan.get("kind"));
    _flags = static_cast<int>(_plan.get("flags"));
    const size_t n = static_cast<size_t>(std::max<i64>(1, _plan.get("queues", 1)));
    _qs.resize(n);
    poisonedQueue.assign(n, 0);
    for (size_t i = 0; i < n; ++i) {
      _qs[i].poisoned = false;
      _qs[i].kind = _kind;
      // construction itself may fail and must then leave nothing behind
      Op c;
      c.fault = _plan.get("ctorFail") ? FAlloc : FNone;
      c.at = _plan.get("ctorFail");
      c.len = 1;
      const Outcome o = sut(c, [&] {_qs[i].q.reset(make(static_cast<int>(i)));});
      if (o != Done) sutOk("construction", [&] {_qs[i].q.reset(make(static_cast<int>(i)));});
    }
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      step(_plan.ops[i], i);
    }
    for (size_t i = 0; i < n; ++i) {
      Q& q = _qs[i];
      if (!q.poisoned) {
        checkEmptySize(q);
        compareContent(q, false);
        if (_plan.get("drain", 1)) while (!q.m.certain.empty() || !q.m.maybe.empty()) {
          bool e = false;
          sutOk("empty", [&] {e = q.q->empty();});
          if (e) break;
          std::uint32_t h = NoHandle;
          sutOk("pop", [&] {h = q.q->pop().h;});
          checkTop(q, h, "pop");
          takeBag(q, h, "pop");
        }
        if (_plan.get("drain", 1) && !q.m.certain.empty())
          throw Violation("lost-entry", strf("queue is empty but entry %u was never handed out", *q.m.certain.begin()));
      }
      sutOk("destruction", [&] {q.q.reset();});
    }
    _qs.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"push", "pushRange", "pop", "top", "decreaseTop", "mutateDecrease", "mutatePop",
    "clear", "forAll", "query", "print", "drain", "move", "recreate", "burst", "replaceTop"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C01" || p == "C02" || p == "C03";}

  void harnessExecute(const Plan& plan) {
    using namespace pq;
    bags.clear();
    garbageMatters = true;
    Sim s(plan);
    try {
      s.run();
    } catch (...) {
      garbageMatters = false;
      throw;
    }
  }

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    using namespace pq;
    const bool c01 = p.prop == "C01", c02 = p.prop == "C02", c03 = p.prop == "C03";
    // configuration
    static const std::vector<int> kindW01 = {14, 16, 6, 64};
    static const std::vector<int> kindW02 = {25, 0, 0, 75};
    static const std::vector<int> kindW03 = {20, 20, 5, 55};
    const int kind = static_cast<int>(r.weighted(c01 ? kindW01 : c02 ? kindW02 : kindW03));
    int flags;
    if (kind == KHeap) {
      flags = static_cast<int>(r.below(4));
      if (c01) flags &= 1;
      if (c02) flags |= 2;
    } else {
      flags = static_cast<int>(r.below(192));
      if (c01) flags &= ~16;
      if (c02) flags |= 16;
    }
    p.set("kind", kind);
    p.set("flags", flags);
    static const std::vector<int> minBuckets = {1, 1, 2, 2, 3, 4, 4, 5, 8, 16};
    static const std::vector<int> geoBases = {2, 2, 2, 3, 4, 5};
    p.set("minBucket", r.pick(minBuckets));
    p.set("geoBase", r.pick(geoBases));
    const int queues = r.chance(75) ? 1 : static_cast<int>(r.range(2, 3));
    p.set("queues", queues);
    p.set("drain", r.chance(85));
    const bool faults = c03 ? r.chance(85) : r.chance(50);
    if (faults && r.chance(15)) p.set("ctorFail", r.range(1, 6));
    std::vector<int> mutKinds, readKinds;
    mutKinds.push_back(FAlloc);
    if (c03) {
      static const std::vector<int> all = {FCompare, FCompare, FDedup, FCopy, FAny};
      mutKinds.clear();
      for (size_t i = 0; i < all.size(); ++i) if (r.chance(60)) mutKinds.push_back(all[i]);
      if (r.chance(50)) mutKinds.push_back(FAlloc);
      if (mutKinds.empty()) mutKinds.push_back(FCompare);
      readKinds.push_back(FCompare);
      readKinds.push_back(FVisit);
      readKinds.push_back(FCopy);
    }
    // Some runs interrupt nothing but reading, so that the content stays known.
    const bool readOnly = c03 && faults && r.chance(35);
    const int faultRate = readOnly ? 60 : faults ? static_cast<int>(r.range(2, 30)) : 0;
    const i64 scale = r.chance(50) ? 4 : 40;
    // workload
    i64 n = thorough ? r.range(5, 400) : r.range(5, 160);
    if (r.chance(30)) n = r.range(3, 25);
    i64 keyRange = 1;
    for (int i = static_cast<int>(r.below(14)); i > 0; --i) keyRange *= 2;
    if (c02) keyRange = r.range(1, 40);
    const i64 rangeMax = r.small(thorough ? 300 : 120);
    const int trend = static_cast<int>(r.below(4)); // 0,1 random keys, 2 rising, 3 falling
    std::vector<int> w(opCount, 0);
    static const int base[] = {30, 12, 22, 5, 8, 4, 3, 2, 3, 2, 1, 2, 2, 1, 1, 0};
    for (size_t i = 0; i < opCount; ++i) {
      w[i] = base[i];
      if (r.chance(20)) w[i] = 0;
      else if (r.chance(20)) w[i] *= 4;
    }
    if (w[OPush] == 0 && w[OPushRange] == 0) w[OPush] = 20;
    if (readOnly) w[OTop] = 25;
    i64 now = 0;
    // Rarely a queue of tens of thousands of entries, see what sizes and
    // indexes that no longer fit a small integer do.
    const bool huge = r.below(thorough ? 1200 : 2400) == 0;
    if (huge) n = r.range(4, 40);
    for (i64 i = 0; i < n; ++i) {
      if (huge && (i == 0 || r.chance(10))) {
        Op op(OBurst);
        op.add(0).add(r.range(0, 1000)).add(r.range(0, 3) == 0 ? 1 : 2 * r.range(0, 50000) + 1);
        op.add(i == 0 ? r.range(30000, 80000) : r.range(1, 10000)).add(r.chance(50) ? 0 : 1 << r.range(12, 24));
        p.ops.push_back(op);
        continue;
      }
      Op op(static_cast<int>(r.weighted(w)));
      op.add(queues == 1 ? 0 : r.range(0, queues - 1));
      now += trend == 2 ? r.range(0, 3) : trend == 3 ? -r.range(0, 3) : 0;
      switch (op.kind) {
      case OPush: op.add(now + r.range(0, keyRange)); break;
      case OPushRange: {
        const i64 m = r.chance(5) ? 0 : r.chance(80) ? r.small(rangeMax) : rangeMax;
        const bool clustered = r.chance(20);
        const i64 at = now + r.range(0, keyRange);
        for (i64 j = 0; j < m; ++j) op.add(clustered ? at + j / 2 : now + r.range(0, keyRange));
        break;
      }
      case ODecrease: case OReplaceTop: case OMutateDecrease: case OMutatePop:
        op.add(r.chance(20) ? 0 : r.small(keyRange + 3)); break;
      case OForAll: op.add(r.chance(50) ? 0 : r.small(60)); break;
      case ODrain: op.add(r.chance(40) ? 0 : r.small(300)); break;
      case OBurst:
        op.add(now + r.range(0, keyRange)).add(r.range(-2, 2)).add(r.small(thorough ? 3000 : 600)); break;
      case OPop: op.add(0); break;
      default: op.add(static_cast<i64>(r.below(3))); break;
      }
      if (faultRate && r.chance(faultRate)) {
        const bool mut = op.kind == OPush || op.kind == OPushRange || op.kind == OPop || op.kind == ODecrease ||
          op.kind == OMutateDecrease || op.kind == OMutatePop || op.kind == OReplaceTop;
        if (mut && readOnly) {
          if (op.kind == OPush || op.kind == OPushRange) {
            static const std::vector<int> k = {FAlloc};
            if (r.chance(20)) drawFault(r, op, k, 4);
          }
        } else if (op.kind == OTop && c03) {
          static const std::vector<int> k = {FCompare, FCompare, FCompare, FDedup, FCopy};
          drawFault(r, op, k, 6);
        } else if (mut && !(c03 == false && (op.kind == OPop || op.kind == OMutatePop))) drawFault(r, op, mutKinds, op.kind == OPushRange ? scale * 3 : scale);
        else if (c03 && op.kind == OForAll) drawFault(r, op, readKinds, scale);
        if (op.fault == FAlloc) op.at = r.chance(70) ? 1 : r.small(4);
      }
      p.ops.push_back(op);
    }
  }
}
