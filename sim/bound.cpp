// Workload and oracle for the memory containers hold on to (C22).
//
// One round of operations on one container, bounded in content and ending
// with the container empty, is repeated over and over. What is held at the
// peak of a round must not keep growing with the number of rounds.
#include "plain.h"
#include <mathic/BitTriangle.h>
#include <memtailor.h>
#include <memory>
#include <set>

using namespace sim;

namespace {
  struct Box {
    virtual ~Box() {}
    virtual void create() = 0;
    virtual void destroy() = 0;
    virtual void act(const Op& op, u64 action, u64 salt, size_t index) = 0;
    virtual void drain(u64 how) = 0; // makes it empty
    virtual const char* name() = 0;
    virtual size_t memoryUse() = 0;
    virtual bool exact() {return true;} // not just an estimate
    // what it may hold beyond that: blocks of arenas have headers
    virtual i64 slack(size_t) {return 16;}
    virtual u64 ofEntries() {return 0;} // bytes that the entries own
    // after a change that was aborted in a way that only allows this
    void restart() {
      g.probe("recreated after an aborted change");
      destroy();
      create();
    }
  };

  // ------------------------------------------------------------------ finders
  struct FinderBox: Box {
    std::unique_ptr<dv::IFinder> f;
    dv::Params p;
    int config;
    i64 mag;
    size_t max;
    size_t count; // inserted since it was empty, including failed ones
    const char* name() {return f->isTree() ? "KDTree" : "DivList";}
    size_t memoryUse() {return f->memory();}
    i64 slack(size_t n) { // the memory of the divmask calculator varies
      return 560 + (f->isTree() ? static_cast<i64>(n / 64) : 0);
    }
    void create() {
      count = 0;
      const dv::Params q = p;
      const int c = config;
      sutOk("construction", [&] {f.reset(dv::makeFinder(c, q));});
    }
    void destroy() {sutOk("destruction", [&] {f.reset();});}
    void setup() { // ids 1..max are entries with different exponents, then queries
      dv::table.assign(max + 9, dv::Exps(p.vars, 0));
      for (size_t i = 1; i <= max; ++i) {
        u64 h = i;
        for (size_t v = 0; v < p.vars; ++v) {
          h = mix64(h);
          dv::table[i][v] = static_cast<int>(h % static_cast<u64>(mag));
        }
        for (bool unique = false; !unique;) { // no two are equal
          unique = true;
          for (size_t j = 1; j < i && unique; ++j) unique = dv::table[j] != dv::table[i];
          if (!unique) ++dv::table[i][i % p.vars];
        }
      }
    }
    std::uint32_t query(u64 salt) {
      const std::uint32_t id = static_cast<std::uint32_t>(max + 1 + salt % 8);
      dv::table[id] = dv::table[1 + mix64(salt) % max];
      for (size_t v = 0; v < p.vars; ++v) {
        const u64 x = mix64(salt + v);
        if (x % 3 == 0) dv::table[id][v] += static_cast<int>((x >> 9) % 9);
        if (x % 3 == 1 && dv::table[id][v] > 0) dv::table[id][v] /= 2;
      }
      return id;
    }
    void act(const Op& op, u64 action, u64 salt, size_t) {
      Outcome o = Done;
      bool change = false;
      switch (action % 12) {
      case 0: case 1: case 2: {
        if (count >= max) return;
        const dv::Ent e(static_cast<std::uint32_t>(++count));
        change = true;
        o = sut(op, [&] {f->insert(e);});
        break;
      }
      case 3: case 4: {
        std::vector<dv::Ent> v;
        for (u64 i = 0; i < 1 + salt % max && count < max; ++i) v.push_back(dv::Ent(static_cast<std::uint32_t>(++count)));
        if (v.empty()) return;
        change = true;
        o = sut(op, [&] {f->insertRange(v);});
        break;
      }
      case 5: {
        if (!f->removals()) return;
        const dv::Mono m(query(salt));
        change = true;
        if (salt & 1) o = sut(op, [&] {f->removeMultiples(m);});
        else {
          dv::Collector c;
          o = sut(op, [&] {f->removeMultiples(m, c);});
        }
        break;
      }
      case 6: {
        if (!f->removals() || count == 0) return;
        const dv::Mono m(static_cast<std::uint32_t>(1 + mix64(salt) % count));
        change = true;
        o = sut(op, [&] {f->removeElement(m);});
        break;
      }
      case 7: {
        const dv::Mono m(query(salt));
        o = sut(op, [&] {f->findDivisor(m);});
        break;
      }
      case 8: case 9: {
        const dv::Mono m(query(salt));
        dv::Visitor v;
        if (salt % 3 == 0) v.stopAfter = static_cast<i64>(1 + salt % 5);
        if (action % 12 == 8) o = sut(op, [&] {f->findAllDivisors(m, v, 1);});
        else o = sut(op, [&] {f->findAllMultiples(m, v, 1);});
        break;
      }
      case 10:
        o = sut(op, [&] {f->rebuild();});
        if (o != Done && op.fault == FCopy) change = true;
        break;
      default: {
        if (salt % 3) return;
        drain(salt >> 2);
        return;
      }
      }
      if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
      if (o != Done) g.probe("aborted operations");
      if (change && o != Done && (op.fault == FCopy || (f->isTree() && o == Faulted))) {
        if (f->canClear()) {
          sutOk("clear", [&] {f->clear();});
          count = 0;
          g.probe("cleared after an aborted change");
        } else restart();
      }
    }
    void drain(u64 how) {
      if (f->canClear() && (how % 3 == 0 || !f->removals()))
        sutOk("clear", [&] {f->clear();});
      else if (how % 3 == 1 && count > 0) {
        for (size_t i = 1; i <= count; ++i) {
          const dv::Mono m(static_cast<std::uint32_t>(i));
          sutOk("removeElement", [&] {f->removeElement(m);});
        }
      } else {
        const dv::Mono zero(0);
        sutOk("removeMultiples", [&] {f->removeMultiples(zero);});
      }
      size_t n = 0;
      sutOk("size", [&] {n = f->size();});
      if (n != 0) throw Violation("not-empty", strf("%zu entries left when all have been removed", n));
      count = 0;
    }
  };

  // ------------------------------------------------------------------- queues
  struct QueueBox: Box {
    std::unique_ptr<pq::IQueue> q;
    pq::ConfBase c;
    int kind, flags;
    size_t max;
    i64 keys;
    size_t count; // pushed since it was empty
    const char* name() {
      static const char* const n[] = {"Heap", "TourTree", "StlSet", "Geobucket"};
      return n[kind];
    }
    size_t memoryUse() {return q->memoryUse();}
    bool exact() {return kind != 2;}
    void create() {
      empty();
      const pq::ConfBase conf = c;
      const int k = kind, fl = flags;
      sutOk("construction", [&] {
        q.reset(k != pq::KGeo ? pq::makeSmall(k, fl, conf) :
          fl / 16 == 0 ? pq::makeGeoPart0(fl % 16, conf) : fl / 16 == 1 ? pq::makeGeoPart5(fl % 16, conf) : pq::makeGeoPart10(fl % 16, conf));
      });
    }
    void destroy() {sutOk("destruction", [&] {q.reset();});}
    void empty() {
      count = 0;
      pq::bags.resize(max);
    }
    void setup(u64 salt) {
      pq::bags.clear();
      for (size_t i = 0; i < max; ++i) {
        pq::Bag b;
        b.key = static_cast<i64>(mix64(salt + i) % static_cast<u64>(keys));
        b.queue = c.queue;
        b.ids.push_back(static_cast<std::uint32_t>(i));
        pq::bags.push_back(b);
      }
    }
    bool isEmpty() {
      bool e = false;
      sutOk("empty", [&] {e = q->empty();});
      return e;
    }
    void act(const Op& op, u64 action, u64 salt, size_t) {
      Outcome o = Done;
      bool change = true;
      switch (action % 11) {
      case 0: case 1: case 2: {
        if (count >= max) return;
        const pq::Ent e(static_cast<std::uint32_t>(count++));
        o = sut(op, [&] {q->push(e);});
        break;
      }
      case 3: case 4: {
        std::vector<std::pair<i64, size_t> > k;
        for (u64 i = 0; i < 1 + salt % max && count < max; ++i, ++count) k.push_back(std::make_pair(-pq::bags[count].key, count));
        std::sort(k.begin(), k.end());
        std::vector<pq::Ent> v;
        for (size_t i = 0; i < k.size(); ++i)
          if (i == 0 || !q->dedup() || k[i].first != k[i - 1].first) v.push_back(pq::Ent(static_cast<std::uint32_t>(k[i].second)));
        if (v.empty()) return;
        o = sut(op, [&] {q->pushRange(&v[0], &v[0] + v.size());});
        break;
      }
      case 5: case 6:
        if (isEmpty()) return;
        o = sut(op, [&] {q->pop();});
        break;
      case 7: {
        if (!q->hasDecreaseTop() || isEmpty()) return;
        std::uint32_t h = 0;
        sutOk("top", [&] {h = q->top().h;});
        pq::Bag b = pq::bags[h];
        b.key -= static_cast<i64>(salt % 10);
        pq::bags.push_back(b);
        const pq::Ent e(static_cast<std::uint32_t>(pq::bags.size() - 1));
        o = sut(op, [&] {q->decreaseTop(e);});
        break;
      }
      case 8: {
        if (!q->hasForAll()) return;
        pq::Visitor v;
        if (salt % 3 == 0) v.stopAfter = static_cast<i64>(1 + salt % 4);
        o = sut(op, [&] {q->forAll(v);});
        change = false;
        break;
      }
      case 9:
        if (isEmpty()) return;
        o = sut(op, [&] {q->top();});
        break;
      default:
        if (salt % 3) return;
        drain(salt >> 2);
        return;
      }
      if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
      if (o != Done) g.probe("aborted operations");
      if (change && o == Faulted) {
        if (q->hasClear()) {
          sutOk("clear", [&] {q->clear();});
          empty();
          g.probe("cleared after an aborted change");
        } else restart();
      }
    }
    void drain(u64 how) {
      if (q->hasClear() && how % 2)
        sutOk("clear", [&] {q->clear();});
      else
        for (size_t i = 0; !isEmpty(); ++i) {
          if (i > 2 * max) throw Violation("not-empty", "more entries come out of a queue than went in");
          sutOk("pop", [&] {q->pop();});
        }
      if (!isEmpty()) throw Violation("not-empty", "a queue is not empty after everything has been removed");
      empty();
    }
  };

  // --------------------------------------------------------------- hash tables
  struct HashBox: Box {
    typedef mathic::HashTable<NHashConf> T;
    std::unique_ptr<T> t;
    NHashConf conf;
    unsigned bits;
    size_t max;
    size_t count; // inserted since it was empty
    const char* name() {return "HashTable";}
    size_t memoryUse() {return t->memoryUse();}
    i64 slack(size_t n) {return 128 + static_cast<i64>(n / 64);}
    void create() {
      count = 0;
      const NHashConf c = conf;
      const unsigned b = bits;
      sutOk("construction", [&] {t.reset(new T(c, b));});
    }
    void destroy() {sutOk("destruction", [&] {t.reset();});}
    void act(const Op& op, u64 action, u64 salt, size_t) {
      Outcome o = Done;
      const i64 k = static_cast<i64>(mix64(salt) % max);
      switch (action % 7) {
      case 0: case 1: case 2: {
        const NKey key(k);
        o = sut(op, [&] {t->insert(key, 5);});
        break;
      }
      case 3:
        for (i64 i = 0; i < static_cast<i64>(1 + salt % max); ++i) {
          const NKey key((k + i) % static_cast<i64>(max));
          if (sut(i == static_cast<i64>(salt % 3) ? op : noFault, [&] {t->insert(key, 5);}) != Done) g.probe("aborted operations");
        }
        break;
      case 4: {
        const NKey key(k);
        o = sut(op, [&] {t->lookup(key);});
        break;
      }
      case 5: {
        const NKey key(k);
        T::Handle* h = 0;
        sutOk("lookup", [&] {h = t->lookup(key);});
        if (h == 0) return;
        o = sut(op, [&] {t->remove(h);});
        break;
      }
      default:
        if (salt % 3) return;
        drain(salt >> 2);
        return;
      }
      if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
      if (o != Done) g.probe("aborted operations");
    }
    void drain(u64 how) {
      if (how % 5 == 4) sutOk("hardReset", [&] {t->hardReset();});
      else {
        for (size_t k = 0; k < max; ++k) {
          const NKey key(static_cast<i64>(k));
          sutOk("removing a key", [&] {
            T::Handle* h = t->lookup(key);
            if (h != 0) t->remove(h);
          });
        }
        if (how % 5 == 3) sutOk("reset", [&] {t->reset();});
      }
    }
  };

  // -------------------------------------------------------------- pair queues
  // Columns stay for good, so that only additions that fail are repeated.
  struct PairBox: Box {
    typedef mathic::PairQueue<NPairConf> PQ;
    std::unique_ptr<PQ> q;
    NPairConf conf;
    size_t start;
    bool grows; // any operation rather than only additions that fail
    std::vector<char> dead; // operations that succeeded
    const char* name() {return "PairQueue";}
    size_t memoryUse() {return q->getMemoryUse();}
    i64 slack(size_t n) {return 256 + static_cast<i64>(n / 32);}
    u64 ofEntries() {return static_cast<u64>(g.liveEntries) * sizeof(int);}
    void create() {
      const NPairConf c = conf;
      retired.clear();
      sutOk("construction", [&] {q.reset(new PQ(c));});
      for (size_t i = 0; i < start; ++i) add(noFault, i);
    }
    void destroy() {sutOk("destruction", [&] {q.reset();});}
    std::set<size_t> retired;
    Outcome add(const Op& op, u64 salt) {
      const size_t cols = q->columnCount();
      std::vector<std::pair<i64, unsigned> > rows;
      for (size_t i = 0; i < cols; ++i)
        if (mix64(salt + i) % 4 && retired.count(i) == 0) {
          const u64 s = mix64(conf.salt ^ (cols * 1000003 + i)) % 50;
          rows.push_back(std::make_pair(-static_cast<i64>(s), static_cast<unsigned>(i)));
        }
      std::sort(rows.begin(), rows.end());
      std::vector<unsigned> v;
      for (size_t i = 0; i < rows.size(); ++i) v.push_back(rows[i].second);
      return sut(op, [&] {q->addColumnDescending(v.begin(), v.end());});
    }
    // Columns, also very many empty ones, pops and retired indexes.
    void anything(const Op& op, u64 action, u64 salt) {
      const size_t cols = q->columnCount();
      Outcome o = Done;
      switch (action % 6) {
      case 0: case 1:
        if (cols < 200) o = add(op, salt);
        if (o != Done) g.probe("aborted operations");
        return; // without effect if it failed
      case 2: {
        if (cols > 20000) return;
        const std::vector<unsigned> none;
        for (size_t i = 0; i < 1 + salt % (salt % 3 ? 20 : 3000); ++i)
          if (sut(i == 0 ? op : noFault, [&] {q->addColumnDescending(none.begin(), none.end());}) != Done) g.probe("aborted operations");
        return;
      }
      case 3: case 4:
        for (size_t i = 0; i < 1 + salt % (action % 6 == 3 ? 3 : 200) && o == Done && !q->empty(); ++i)
          o = sut(i == 0 ? op : noFault, [&] {q->pop();});
        break;
      default:
        if (cols == 0) return;
        {
          const size_t index = mix64(salt) % std::min<size_t>(cols, 200);
          if (!retired.insert(index).second) return;
          o = sut(op, [&] {q->retireIndex(index);});
        }
      }
      if (o != Done) {
        g.probe("aborted operations");
        restart();
      }
    }
    void act(const Op& op, u64 action, u64 salt, size_t index) {
      if (grows) return anything(op, action, salt);
      if (index >= dead.size()) dead.resize(index + 1);
      if (dead[index] || op.fault == FNone) return;
      const Outcome o = add(op, salt);
      if (o == Done) dead[index] = 1;
      else g.probe("aborted operations");
    }
    void drain(u64) {}
  };

  // ------------------------------------------------------------ bit triangles
  struct BitBox: Box {
    std::unique_ptr<mathic::BitTriangle> t;
    size_t max;
    const char* name() {return "BitTriangle";}
    size_t memoryUse() {return t->getMemoryUse();}
    void create() {sutOk("construction", [&] {t.reset(new mathic::BitTriangle());});}
    void destroy() {sutOk("destruction", [&] {t.reset();});}
    void act(const Op& op, u64, u64 salt, size_t) {
      for (size_t i = 0; i < 1 + salt % 30; ++i)
        if (sut(i == 0 ? op : noFault, [&] {t->addColumn();}) != Done) g.probe("aborted operations");
    }
    void drain(u64) {}
  };

  // ---------------------------------------------------------------- simulation
  enum {OAct, ODrain};
  // Bytes held by the container and by the shared scratch arena.
  struct Held {
    Held(): own(0), scratch(0) {}
    u64 own, scratch;
    void see() {
      const u64 s = memt::Arena::getArena().getMemoryUse();
      scratch = std::max(scratch, s);
      own = std::max(own, g_alloc.liveBytes - std::min(s, g_alloc.liveBytes));
    }
    void max(const Held& h) {
      scratch = std::max(scratch, h.scratch);
      own = std::max(own, h.own);
    }
  };

  // What a container says it holds must be what it holds.
  struct Report {
    Box& box;
    u64 base; // the object itself
    Report(Box& b): box(b), base(0) {}
    u64 own() const {
      const u64 s = memt::Arena::getArena().getMemoryUse();
      return g_alloc.liveBytes - std::min(s + box.ofEntries(), g_alloc.liveBytes);
    }
    size_t reported() {
      size_t n = 0;
      sutOk("memory use", [&] {n = box.memoryUse();});
      return n;
    }
    void start() {
      const size_t n = reported();
      base = own() - n;
    }
    void check() {
      const size_t n = reported();
      const i64 missing = static_cast<i64>(own()) - static_cast<i64>(base) - static_cast<i64>(n);
      g.log(82, n);
      g.state(mix64(n) ^ mix64(static_cast<u64>(box.name()[0])));
      if (!box.exact()) {
        if (n > 8 * own() || own() > base + 4 * n + 256) throw Violation("memory-use", strf("%s says it holds %zu bytes when it holds %llu", box.name(), n, (unsigned long long)own()));
      } else if (missing < -box.slack(0) || missing > box.slack(n))
        throw Violation("memory-use", strf("%s says it holds %zu bytes when it holds %lld", box.name(), n, (long long)n + missing));
    }
  };

  void run(const Plan& plan) {
    const u64 salt = static_cast<u64>(plan.get("salt"));
    const size_t max = static_cast<size_t>(std::min<i64>(400, std::max<i64>(1, plan.get("max", 10))));
    dv::table.clear();
    pq::bags.clear();
    std::unique_ptr<Box> box;
    switch (plan.get("kind")) {
    case 0: {
      FinderBox* const b = new FinderBox();
      box.reset(b);
      b->config = static_cast<int>(static_cast<u64>(plan.get("config")) % dv::ConfigCount);
      b->mag = std::max<i64>(1, plan.get("mag", 5));
      b->max = max;
      b->p.vars = static_cast<size_t>(std::min<i64>(40, std::max<i64>(1, plan.get("vars", 3))));
      b->p.sort = plan.get("sort") != 0;
      b->p.cache = plan.get("cache") != 0;
      b->p.autob = plan.get("autob") != 0;
      b->p.ratio = static_cast<double>(plan.get("ratio", 5)) / 10;
      b->p.min = static_cast<size_t>(plan.get("min", 1));
      b->p.order = static_cast<int>(plan.get("order"));
      b->setup();
      break;
    }
    case 1: {
      QueueBox* const b = new QueueBox();
      box.reset(b);
      b->kind = static_cast<int>(plan.get("queue") & 3);
      b->flags = static_cast<int>(static_cast<u64>(plan.get("flags")) % (b->kind == pq::KGeo ? 48 : 4));
      b->max = max;
      b->keys = std::max<i64>(1, plan.get("keys", 10));
      b->c.minBucketSize = static_cast<size_t>(std::max<i64>(1, plan.get("minBucket", 2)));
      b->c.geoBase = static_cast<size_t>(std::max<i64>(2, plan.get("geoBase", 2)));
      b->c.queue = 0;
      b->setup(salt);
      break;
    }
    case 2: {
      HashBox* const b = new HashBox();
      box.reset(b);
      b->conf.salt = salt;
      b->conf.quality = static_cast<int>(plan.get("quality") & 1);
      b->bits = static_cast<unsigned>(std::min<i64>(10, std::max<i64>(1, plan.get("bits", 3))));
      b->max = max;
      break;
    }
    case 4: {
      BitBox* const b = new BitBox();
      box.reset(b);
      b->max = max;
      break;
    }
    default: {
      PairBox* const b = new PairBox();
      box.reset(b);
      b->conf.salt = salt;
      b->start = std::min<size_t>(max, 60);
      b->grows = plan.get("grows") != 0;
      if (b->grows) b->start = std::min<size_t>(b->start, 5);
    }
    }
    box->create();
    g.say("%s", box->name());
    if (plan.prop == "C23") {
      Report report(*box);
      report.start();
      for (int round = 0; round < 3; ++round) {
        for (size_t i = 0; i < plan.ops.size(); ++i) {
          const Op& op = plan.ops[i];
          ++g.opsInRun;
          g.log(60 + op.kind);
          if (op.kind == OAct) box->act(op, static_cast<u64>(op.arg(0)), static_cast<u64>(op.arg(1)), i);
          else box->drain(static_cast<u64>(op.arg(0)));
          report.check();
        }
        box->drain(salt);
        report.check();
      }
      box->destroy();
      box.reset();
      dv::table.clear();
      pq::bags.clear();
      return;
    }
    // A few rounds show most growth; if there is any, many rounds tell whether
    // it ever ends. What is rarely done (rebuilds) has happened by then.
    const int few = 32, settled = 100, many = 1000;
    Held quick, early, late;
    for (int round = 0; round < many; ++round) {
      if (round == few) {
        if (late.own <= quick.own + 64 && late.scratch <= quick.scratch) break;
        g.probe("growth looked into");
      }
      Held peak;
      for (size_t i = 0; i < plan.ops.size(); ++i) {
        const Op& op = plan.ops[i];
        ++g.opsInRun;
        g.log(60 + op.kind);
        if (op.kind == OAct) box->act(op, static_cast<u64>(op.arg(0)), static_cast<u64>(op.arg(1)), i);
        else box->drain(static_cast<u64>(op.arg(0)));
        peak.see();
      }
      box->drain(salt);
      peak.see();
      g.log(81, peak.own);
      if (round < few / 4) quick.max(peak);
      if (round < settled) early.max(peak);
      late.max(peak);
      if (round < 2 || round == few - 1) g.state(mix64(peak.own) ^ mix64(static_cast<u64>(plan.get("kind"))));
      if (round < 4 || round % 100 == 99) g.say("round %d: peak %llu bytes and %llu bytes of the shared arena", round, (unsigned long long)peak.own, (unsigned long long)peak.scratch);
    }
    if (late.own > 3 * early.own + 2048)
      throw Violation("accumulates", strf("%s holds %llu bytes at the peak of %d equal rounds that start and end empty, and %llu at that of the first %d", box->name(), (unsigned long long)late.own, many, (unsigned long long)early.own, settled));
    if (late.scratch > 3 * early.scratch + 65536)
      throw Violation("accumulates", strf("%s takes %llu bytes of the shared arena at the peak of %d equal rounds, and %llu at that of the first %d", box->name(), (unsigned long long)late.scratch, many, (unsigned long long)early.scratch, settled));
    box->destroy();
    box.reset();
    dv::table.clear();
    pq::bags.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"act", "drain"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C22" || p == "C23";}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    const i64 kind = p.prop == "C23" && r.chance(4) ? 4 : r.chance(45) ? 0 : r.chance(50) ? 1 : r.chance(60) ? 2 : 3;
    p.set("kind", kind);
    p.set("salt", static_cast<i64>(r.below(1u << 30)));
    p.set("max", r.chance(50) ? r.range(1, 12) : r.range(4, thorough ? 200 : 70));
    if (kind == 0) {
      p.set("config", static_cast<i64>(r.below(dv::ConfigCount)));
      p.set("vars", r.chance(70) ? r.range(1, 6) : r.range(1, 35));
      p.set("mag", r.chance(50) ? r.range(1, 4) : r.range(2, 50));
      p.set("sort", r.chance(50));
      p.set("cache", r.chance(40));
      p.set("autob", r.chance(50));
      p.set("ratio", r.range(1, 9));
      p.set("min", r.range(1, 30));
      p.set("order", static_cast<i64>(r.below(3)));
    } else if (kind == 1) {
      p.set("queue", r.chance(60) ? 3 : static_cast<i64>(r.below(3)));
      p.set("flags", static_cast<i64>(r.below(48)));
      p.set("keys", r.chance(50) ? r.range(1, 8) : r.range(5, 1000));
      p.set("minBucket", r.range(1, 6));
      p.set("geoBase", r.range(2, 5));
    } else if (kind == 2) {
      p.set("bits", r.range(1, 6));
      p.set("quality", r.below(2));
    }
    const bool grows = kind == 3 && p.prop == "C23" && r.chance(70);
    if (grows) p.set("grows", 1);
    const bool faults = (kind == 3 && !grows) || r.chance(60);
    const int percent = kind == 3 && !grows ? 100 : r.chance(50) ? 15 : 50;
    const i64 n = r.range(1, r.chance(50) ? 6 : thorough ? 60 : 25);
    for (i64 i = 0; i < n; ++i) {
      Op op(r.chance(93) ? static_cast<int>(OAct) : static_cast<int>(ODrain));
      op.add(static_cast<i64>(r.below(1000)));
      op.add(static_cast<i64>(r.below(1u << 30)));
      if (op.kind == OAct && faults && r.chance(percent)) {
        std::vector<int> kinds;
        kinds.push_back(FAlloc);
        kinds.push_back(FAny);
        if (kind != 3) kinds.push_back(FCopy);
        drawFault(r, op, kinds, 20);
      }
      p.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {run(plan);}
}
