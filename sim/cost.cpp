// Workload and oracle for the work containers do (C27: queues, hash tables and
// pair queues, C28: divisor finders), measured in calls of user callbacks.
//
// The bounds are what the design of each container promises (a heap does
// O(log n) comparisons, a geobucket O(log n) amortized, a div mask and a tree
// save most divisibility tests, a rebuild happens when DivFinder.h says), with
// ample room in the constants.
#include "plain.h"
#include <cmath>
#include <memory>
#include <set>

using namespace sim;

namespace {
  double log2n(size_t n) {return std::log(static_cast<double>(n) + 2) / std::log(2.0);}
  size_t ilog(size_t base, size_t n) {
    size_t l = 0;
    for (; n > 1; n = (n + base - 1) / base) ++l;
    return l;
  }
  struct Meter {
    u64 before[FaultCount], reads[2], allocsBefore;
    Meter() {
      allocsBefore = g_alloc.allocs;
      for (int i = 0; i < FaultCount; ++i) before[i] = g.calls[i];
      reads[0] = dv::entryReads[0];
      reads[1] = dv::entryReads[1];
    }
    u64 operator()(int kind) const {return g.calls[kind] - before[kind];}
    u64 allocs() const {return g_alloc.allocs - allocsBefore;}
    u64 read(int others) const {return dv::entryReads[others] - reads[others];}
  };
  void allow(const char* what, u64 used, double allowed, size_t n, const char* cls) {
    g.log(91, used);
    if (static_cast<double>(used) > allowed)
      throw Violation(cls, strf("%s: %llu calls with %zu stored, where %.0f are plenty", what, (unsigned long long)used, n, allowed));
  }
#ifdef CALIBRATE
  std::map<std::string, double> worst;
  struct Report {~Report() {for (auto& w: worst) fprintf(stderr, "CAL %-40s %.3f\n", w.first.c_str(), w.second);}} report;
  void cal(const std::string& name, double used, double allowed) {
    double& w = worst[name];
    if (used / allowed > w) w = used / allowed;
  }
  std::string callWhat(const char* w) {return w;}
#define ALLOW(name, what, used, allowed, n, cls) (cal(name, static_cast<double>(used), allowed), allow(what, used, 1e30, n, cls))
#else
#define ALLOW(name, what, used, allowed, n, cls) allow(what, used, allowed, n, cls)
#endif

  enum {OAdd, OTake, OLook, OChange, OWalk, OClear, ORange, ORemove, ORebuild, OBattery};

  i64 amount(const Op& op, i64 max) {return std::min(max, std::max<i64>(1, op.arg(0)));}

  // ------------------------------------------------------------------- queues
  void runQueue(const Plan& plan) {
    const int kind = static_cast<int>(plan.get("queue") & 3);
    const int flags = static_cast<int>(static_cast<u64>(plan.get("flags")) % (kind == pq::KGeo ? 48 : 4));
    const i64 spread = std::max<i64>(1, plan.get("keys", 1000));
    const int shape = static_cast<int>(plan.get("shape"));
    const u64 salt = static_cast<u64>(plan.get("salt"));
    pq::ConfBase conf;
    conf.minBucketSize = static_cast<size_t>(std::min<i64>(50, std::max<i64>(1, plan.get("minBucket", 2))));
    conf.geoBase = static_cast<size_t>(std::min<i64>(20, std::max<i64>(2, plan.get("geoBase", 2))));
    conf.queue = 0;
    static const char* const names[] = {"Heap", "TourTree", "StlSet", "Geobucket"};
    const std::string name = names[kind];
    pq::bags.clear();
    std::unique_ptr<pq::IQueue> q;
    auto create = [&] {
      q.reset();
      sutOk("construction", [&] {
        q.reset(kind != pq::KGeo ? pq::makeSmall(kind, flags, conf) :
          flags / 16 == 0 ? pq::makeGeoPart0(flags % 16, conf) : flags / 16 == 1 ? pq::makeGeoPart5(flags % 16, conf) : pq::makeGeoPart10(flags % 16, conf));
      });
    };
    create();
    const Meter built;
    size_t n = 0, top = 0; // stored (at most), most ever
    u64 pushes = 0, others = 0, serial = 0, fresh = 1;
    const Meter whole;
    auto isEmpty = [&] {
      bool e = false;
      sutOk("empty", [&] {e = q->empty();});
      return e;
    };
    auto key = [&] {
      const u64 x = mix64(salt + ++serial);
      i64 k = static_cast<i64>(x % static_cast<u64>(spread));
      if (shape == 1) k += static_cast<i64>(serial); // mostly ascending
      if (shape == 2) k -= static_cast<i64>(serial); // mostly descending
      return k;
    };
    auto make = [&](i64 k) {
      pq::Bag b;
      b.key = k;
      b.queue = 0;
      pq::bags.push_back(b);
      return pq::Ent(static_cast<std::uint32_t>(pq::bags.size() - 1));
    };
    const bool amortized = kind == pq::KGeo;
    auto check = [&](const char* what, const Meter& m, double times, double factor) {
      if (amortized) return;
      times += static_cast<double>(m(FDedup)); // each makes the queue smaller, and so only happens once
      const double each = kind == pq::KSet ? 4 * log2n(std::max(n, top)) + 8 : 3 * log2n(n) + 8;
      ALLOW(name + " " + what, (name + ": comparisons in " + what).c_str(), m(FCompare), times * factor * each, n, "comparisons");
    };
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      const Op& op = plan.ops[i];
      ++g.opsInRun;
      g.log(60 + op.kind, n);
      Outcome o = Done;
      switch (op.kind) {
      case OAdd: {
        const i64 count = amount(op, 2000);
        for (i64 j = 0; j < count && o == Done; ++j) {
          const pq::Ent e = make(key());
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {q->push(e);});
          ++n, ++pushes;
          check("push", m, 1, 1);
        }
        break;
      }
      case ORange: {
        std::vector<i64> keys;
        for (i64 j = 0; j < amount(op, 2000); ++j) keys.push_back(key());
        std::sort(keys.begin(), keys.end());
        std::reverse(keys.begin(), keys.end());
        if (q->dedup()) keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
        std::vector<pq::Ent> v;
        for (size_t j = 0; j < keys.size(); ++j) v.push_back(make(keys[j]));
        n += v.size();
        pushes += v.size();
        const Meter m;
        o = sut(op, [&] {q->pushRange(&v[0], &v[0] + v.size());});
        check("push of a range", m, static_cast<double>(v.size()), 1);
        break;
      }
      case OTake: {
        const i64 count = amount(op, 3000);
        for (i64 j = 0; j < count && o == Done && !isEmpty(); ++j) {
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {q->pop();});
          ++others;
          check("pop", m, 1, 1);
          if (n > 0) --n;
        }
        break;
      }
      case OLook: {
        if (isEmpty()) break;
        const i64 count = amount(op, 300);
        for (i64 j = 0; j < count && o == Done; ++j) {
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {q->top();});
          ++others;
          if (!amortized) ALLOW(name + " top", (name + ": comparisons in top").c_str(), m(FCompare), 2, n, "comparisons");
        }
        break;
      }
      case OChange: {
        const i64 count = amount(op, 1000);
        for (i64 j = 0; j < count && o == Done && q->hasDecreaseTop() && !isEmpty(); ++j) {
          std::uint32_t h = 0;
          ++others;
          sutOk("top", [&] {h = q->top().h;});
          const pq::Ent e = make(pq::bags[h].key - static_cast<i64>(mix64(salt ^ ++serial) % static_cast<u64>(spread)));
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {q->decreaseTop(e);});
          ++others, ++pushes;
          check("decreaseTop", m, 1, 1.5);
        }
        break;
      }
      case OWalk: {
        if (!q->hasForAll()) break;
        pq::Visitor v;
        const Meter m;
        o = sut(op, [&] {q->forAll(v);});
        if (o == Faulted) o = Done;
        ALLOW(name + " forAll", (name + ": comparisons in forAll").c_str(), m(FCompare), 1, n, "comparisons");
        break;
      }
      case OClear:
        if (q->hasClear()) sutOk("clear", [&] {q->clear();});
        else create();
        n = 0;
        ++fresh;
        break;
      default: break;
      }
      if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
      if (o == Faulted) {
        if (q->hasClear() && i % 2) sutOk("clear", [&] {q->clear();});
        else create();
        n = 0;
        ++fresh;
        g.probe("cleared or recreated after an aborted change");
      }
      top = std::max(top, n);
      {
        const double ops = static_cast<double>(pushes + others), lg = log2n(top);
        ALLOW(name + " copies", (name + ": copies of entries in total").c_str(), whole(FCopy), ops * (amortized ? 1e9 : kind == pq::KHeap ? 3 * lg + 10 : 12) + 50, top, "entries-copied");
        ALLOW(name + " allocs", (name + ": memory allocations in total").c_str(), built.allocs(), (kind == pq::KSet ? 2. * static_cast<double>(pushes) : 0) + static_cast<double>(fresh) * (5 * lg + 12) + 2 * static_cast<double>(i), top, "allocations");
      }
      if (amortized) {
        const double b = static_cast<double>(conf.geoBase), f = flags < 32 ? 1 : 2 + (160 + flags % 16) % 3;
        const double m = static_cast<double>(conf.minBucketSize);
        const double buckets = static_cast<double>(ilog(conf.geoBase, top / conf.minBucketSize + 2) + 2);
        const double entry = 1 + b + f, look = 1 + buckets; // of one entry moving one bucket, of one look at the fronts
        const double search = flags & 8 ? log2n(conf.minBucketSize * static_cast<size_t>(f)) : f * m;
        ALLOW(name + " copies", "Geobucket: copies of entries in total", whole(FCopy), (static_cast<double>(pushes) * (entry * buckets * 3 + f * m + 10) + static_cast<double>(others) * 10) + 50, top, "entries-copied");
        const double all = static_cast<double>(pushes) * (entry * buckets + search + look) + static_cast<double>(others) * look + 50;
        ALLOW(name + " total " + std::to_string(flags & 3), "Geobucket: comparisons in total", whole(FCompare), all / 2, top, "comparisons");
      }
      g.state(mix64(static_cast<u64>(kind * 64 + flags)) ^ mix64(static_cast<u64>(log2n(n) * 4)) ^ mix64(g.firedInRun));
      g.say("op %zu: at most %zu stored, %llu comparisons so far", i, n, (unsigned long long)whole(FCompare));
    }
    if (top >= 500) g.probe("queue held 500 entries");
    q.reset();
    pq::bags.clear();
  }

  // --------------------------------------------------------------- hash tables
  void runHash(const Plan& plan) {
    typedef mathic::HashTable<NHashConf> T;
    NHashConf conf;
    conf.salt = static_cast<u64>(plan.get("salt"));
    conf.quality = 0;
    const unsigned bits = static_cast<unsigned>(std::min<i64>(14, std::max<i64>(1, plan.get("bits", 8))));
    const i64 keys = std::min<i64>(20000, std::max<i64>(1, plan.get("keys", 1000)));
    std::unique_ptr<T> t;
    sutOk("construction", [&] {t.reset(new T(conf, bits));});
    std::map<i64, T::Handle*> in;
    u64 serial = 0, done = 0;
    double rehash = 0; // keys hashed by attempts to grow that failed
    const Meter whole;
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      const Op& op = plan.ops[i];
      ++g.opsInRun;
      g.log(60 + op.kind, in.size());
      const i64 count = amount(op, 2000);
      Outcome o = Done;
      for (i64 j = 0; j < count; ++j) {
        const i64 k = static_cast<i64>(mix64(conf.salt ^ 77 ^ ++serial) % static_cast<u64>(keys));
        const NKey key(k);
        const Op& f = j == count - 1 ? op : noFault;
        const Meter m;
        T::Handle* h = 0;
        double hashes = 1;
        switch (op.kind) {
        case OAdd: case ORange: case OChange: {
          std::pair<bool, T::Handle*> r(false, static_cast<T::Handle*>(0));
          o = sut(f, [&] {r = t->insert(key, k);});
          if (o == Done) in[k] = r.second;
          hashes = 2 + static_cast<double>(in.size());
          break;
        }
        case OTake: case ORemove: {
          auto it = in.find(k);
          if (it == in.end()) continue;
          h = it->second;
          o = sut(f, [&] {t->remove(h);});
          if (o == Done) in.erase(it);
          break;
        }
        case OClear:
          sutOk("hardReset", [&] {t->hardReset();});
          in.clear();
          hashes = static_cast<double>(in.size());
          break;
        default:
          o = sut(f, [&] {h = t->lookup(key);});
        }
        if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
        ++done;
        if (o != Done) rehash += static_cast<double>(m(FHash));
        ALLOW("hash one", "HashTable: keys compared in one operation", m(FEqual), 12, in.size(), "keys-compared");
        ALLOW("hash h", "HashTable: keys hashed in one operation", m(FHash), 2 * hashes, in.size(), "keys-hashed");
        if (op.kind == OClear) break;
      }
      ALLOW("hash copies", "HashTable: copies of keys in total", whole(FCopy), 3 * static_cast<double>(done) + 10, in.size(), "keys-copied");
      ALLOW("hash all", "HashTable: keys compared in total", whole(FEqual), 2.5 * static_cast<double>(done) + 40, in.size(), "keys-compared");
      ALLOW("hash all h", "HashTable: keys hashed in total", whole(FHash), 4 * static_cast<double>(done) + rehash + 10, in.size(), "keys-hashed");
      g.state(mix64(in.size()) ^ mix64(bits) ^ mix64(g.firedInRun));
      g.say("op %zu: %zu stored, %llu keys compared so far", i, in.size(), (unsigned long long)whole(FEqual));
    }
    if (in.size() >= 500) g.probe("hash table held 500 keys");
    t.reset();
  }

  // -------------------------------------------------------------- pair queues
  void runPairs(const Plan& plan) {
    typedef mathic::PairQueue<NPairConf> PQ;
    NPairConf conf;
    conf.salt = static_cast<u64>(plan.get("salt"));
    const int percent = static_cast<int>(plan.get("percent", 50));
    std::unique_ptr<PQ> q;
    sutOk("construction", [&] {q.reset(new PQ(conf));});
    u64 added = 0, popped = 0, failures = 0, serial = 0;
    const Meter whole;
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      const Op& op = plan.ops[i];
      ++g.opsInRun;
      g.log(60 + op.kind, q->columnCount());
      const i64 count = std::min<i64>(300, amount(op, 2000));
      Outcome o = Done;
      for (i64 j = 0; j < count && o == Done; ++j) {
        const size_t cols = q->columnCount();
        const Op& f = j == count - 1 ? op : noFault;
        const char* what = "";
        const Meter m;
        if (op.kind == OAdd || op.kind == ORange) {
          if (cols >= 600) break;
          what = "addColumnDescending";
          std::vector<std::pair<i64, unsigned> > rows;
          for (size_t r = 0; r < cols; ++r)
            if (static_cast<int>(mix64(conf.salt + 17 * ++serial) % 100) < percent)
              rows.push_back(std::make_pair(-static_cast<i64>(mix64(conf.salt ^ (cols * 1000003 + r)) % 50), static_cast<unsigned>(r)));
          std::sort(rows.begin(), rows.end());
          std::vector<unsigned> v;
          for (size_t r = 0; r < rows.size(); ++r) v.push_back(rows[r].second);
          o = sut(f, [&] {q->addColumnDescending(v.begin(), v.end());});
          added += o == Done;
        } else {
          if (q->empty()) break;
          if (op.kind == OLook) {
            what = "topPair";
            o = sut(f, [&] {q->topPair();});
          } else {
            what = "pop";
            o = sut(f, [&] {q->pop();});
            popped += o == Done;
          }
        }
        if (o != Done) ++failures;
        if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
        ALLOW(std::string("pairs ") + what, strf("PairQueue: comparisons in %s", what).c_str(), m(FCompare), 3 * log2n(cols) + 8, cols, "comparisons");
        ALLOW("pairs data", "PairQueue: pairs computed in total", whole(FPairData), static_cast<double>(added + popped + failures), cols, "pairs-computed");
        ALLOW("pairs alive", "PairQueue: pair data kept", static_cast<u64>(g.liveEntries), static_cast<double>(q->columnCount()), cols, "pairs-kept");
      }
      if (o == Faulted) {
        sutOk("recreation", [&] {q.reset(); q.reset(new PQ(conf));});
        g.probe("cleared or recreated after an aborted change");
      }
      g.state(mix64(q->columnCount()) ^ mix64(static_cast<u64>(log2n(popped) * 4)) ^ mix64(g.firedInRun));
      g.say("op %zu: %zu columns, %llu comparisons so far", i, q->columnCount(), (unsigned long long)whole(FCompare));
    }
    if (q->columnCount() >= 100) g.probe("pair queue held 100 columns");
    q.reset();
  }

  // ----------------------------------------------------------- divisor finders
  struct Finder {
    const Plan& plan;
    const int config;
    dv::Params p;
    u64 salt, serial;
    std::unique_ptr<dv::IFinder> f;
    bool mask, tree;
    // changes since the last rebuild, at least and at most, and sizes since
    bool known;
    size_t least, most, smallest, largest, n;
    size_t tuned; // entries that the masks in use were made for
    u64 rebuilds;
    std::set<dv::Exps> used;

    Finder(const Plan& pl): plan(pl), config(static_cast<int>(static_cast<u64>(pl.get("config")) % dv::ConfigCount)), salt(static_cast<u64>(pl.get("salt"))), serial(0), tuned(0), rebuilds(0) {
      p.vars = static_cast<size_t>(std::min<i64>(40, std::max<i64>(2, pl.get("vars", 3))));
      p.sort = pl.get("sort") != 0;
      p.cache = pl.get("cache") != 0;
      p.autob = pl.get("autob") != 0;
      p.ratio = static_cast<double>(std::max<i64>(1, pl.get("ratio", 5))) / 10 *
        std::pow(10.0, static_cast<double>(std::min<i64>(300, std::max<i64>(0, pl.get("huge")))));
      p.min = static_cast<size_t>(std::max<i64>(0, pl.get("min", 1)));
      p.order = static_cast<int>(pl.get("order"));
      tree = config < 48;
      mask = tree ? config % 3 != 0 : config % 2 != 0;
      n = 0;
      fresh(0);
    }
    void fresh(size_t size) { // just rebuilt
      known = true;
      tuned = size;
      least = most = 0;
      smallest = largest = size;
    }
    double limit(size_t size) const {return std::max(std::floor(static_cast<double>(size) * p.ratio), static_cast<double>(p.min));}
    size_t size() {
      size_t s = 0;
      sutOk("size", [&] {s = f->size();});
      return s;
    }
    std::uint32_t add(const dv::Exps& e) {
      dv::table.push_back(e);
      return static_cast<std::uint32_t>(dv::table.size() - 1);
    }
    i64 scale(size_t var, i64 mag) { // variables may differ in their magnitudes
      if (!plan.get("skew")) return mag;
      return std::max<i64>(40, mag >> (mix64(salt ^ (var + 5)) % 10));
    }
    std::uint32_t random(i64 mag) {
      dv::Exps e(p.vars);
      do { // all entries are different, as many trees need
        u64 h = mix64(salt + 13 * ++serial);
        for (size_t v = 0; v < p.vars; ++v) {
          h = mix64(h);
          e[v] = static_cast<int>(h % static_cast<u64>(scale(v, mag)));
        }
        mag += mag / 8;
      } while (!used.insert(e).second);
      return add(e);
    }
    // Looks at what a change did to the number of changes till a rebuild.
    void changed(const Meter& m, size_t before, Outcome o, size_t inserted) {
      n = size();
      const size_t changes = inserted > 0 ? inserted : before - n;
      const u64 reads = tree ? m.read(0) + m.read(1) : m.read(1);
      const size_t floor = std::min(before, n);
      const bool canTell = floor >= 200 && (tree || mask);
      const bool did = reads >= (tree ? 2 : 1) * floor;
      least += changes;
      most += changes;
      smallest = std::min(smallest, std::min(before, n));
      largest = std::max(largest, std::max(before, n));
      if (o != Done || inserted > 1) {
        most = 1u << 30;
        least = 0; // it may have been rebuilt any time
        known = true;
        return;
      }
      if (!canTell) {
        known = false;
        return;
      }
      if (did) {
        ++rebuilds;
        g.probe("automatic rebuild");
        if (!p.autob) throw Violation("rebuild-unasked", strf("%s rebuilt itself when automatic rebuilds are off", f->name().c_str()));
        if (known && static_cast<double>(most) + 1 < limit(smallest))
          throw Violation("rebuild-early", strf("%s: rebuild after %zu changes with at least %zu stored", f->name().c_str(), most, smallest));
        fresh(n);
        return;
      }
      if (p.autob && known && static_cast<double>(least) > limit(largest) + 1)
        throw Violation("rebuild-late", strf("%s: no rebuild after %zu changes with at most %zu stored", f->name().c_str(), least, largest));
    }
    void unsure() { // does not know when it was last rebuilt
      known = false;
    }
    void battery(const Op& op, i64 mag) {
      // Random monomials of the magnitude of the entries; a finder that has just
      // been rebuilt must save most of the divisibility tests.
      const int queries = 20;
      u64 total = 0;
      for (int i = 0; i < queries; ++i) {
        const dv::Mono m(random(mag > 0 ? mag : std::min<i64>(100000, std::max<i64>(2, op.arg(1)))));
        const Meter meter;
        dv::Visitor v;
        Outcome o = Done;
        size_t answers = 0;
        const Op& fault = i == 0 ? op : noFault;
        const char* what;
        switch (op.arg(2) / 2 % 3) {
        case 0: {
          what = "findDivisor";
          dv::Ent* e = 0;
          o = sut(fault, [&] {e = f->findDivisor(m);});
          answers = e != 0;
          break;
        }
        case 1:
          what = "findAllDivisors";
          o = sut(fault, [&] {f->findAllDivisors(m, v, i & 1);});
          answers = v.seen.size();
          break;
        default:
          what = "findAllMultiples";
          o = sut(fault, [&] {f->findAllMultiples(m, v, i & 1);});
          answers = v.seen.size();
        }
        const u64 tests = meter(FDivides);
        ALLOW("finder one", strf("%s: entries tested by %s", f->name().c_str(), what).c_str(), tests, static_cast<double>(n + 1), n, "entries-tested");
        ALLOW("finder reads", strf("%s: exponents read by %s", f->name().c_str(), what).c_str(), meter(FExponent), static_cast<double>(5 * std::max(n, largest) + 500), n, "exponents-read");
      if (o == Done) total += tests - std::min<u64>(tests, answers);
      }
      g.log(92, total);
      g.say("%s: %d queries of %zu entries tested %llu in vain", f->name().c_str(), queries, n, (unsigned long long)total);
#ifdef CALIBRATE
      if (n >= 200 && mag > 0) cal(strf("battery%s %s%s vars %zu kind %d mag %lld", plan.get("skew") ? "S" : "", tree ? (config / 6 % 2 ? "packed" : "tree") : "list", mask ? " mask" : "", p.vars, (int)(op.arg(2) / 2 % 3), (long long)mag), static_cast<double>(total), static_cast<double>(queries * n));
#endif
      if (n < 200 || mag <= 0 || tuned < 200) return;
      // the masks have at least two bits for each variable
      const double part = mask && p.vars <= 16 ? 0.15 : tree ? 0.5 : 1;
      ALLOW(strf("worst %s%d %d", tree ? "tree" : "list", mask && p.vars <= 16, (int)(op.arg(2) % 2)), strf("%s: entries tested in vain by %d queries", f->name().c_str(), queries).c_str(), total, part * queries * static_cast<double>(n), n, "queries-not-pruned");
      g.probe(part < 1 ? "queries pruned" : "queries without masks or tree");
    }
    void run();
  };

  void Finder::run() {
    dv::table.assign(1, dv::Exps(p.vars, 0));
    const dv::Params q = p;
    const int c = config;
    sutOk("construction", [&] {f.reset(dv::makeFinder(c, q));});
    g.say("%s", f->name().c_str());
    bool clean = true; // what is stored has one magnitude and masks are made for it
    i64 mag = 0;
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      const Op& op = plan.ops[i];
      ++g.opsInRun;
      g.log(60 + op.kind, n);
      const i64 count = amount(op, 1200);
      i64 opMag = std::min<i64>(100000, std::max<i64>(2, op.arg(1)));
      Outcome o = Done;
      bool whole = false;
      switch (op.kind) {
      case OAdd: case OChange:
        if (n + static_cast<size_t>(count) > 2500) break;
        for (i64 j = 0; j < count && o == Done; ++j) {
          const dv::Ent e(random(opMag));
          const size_t before = n;
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {f->insert(e);});
          whole = o == Faulted || (o == NoMemory && op.fault == FCopy);
          changed(m, before, o, o == Done ? 1 : 0);
        }
        mag = mag == 0 || mag == opMag ? opMag : -1;
        clean = false;
        break;
      case ORange: {
        if (n + static_cast<size_t>(count) > 2500) break;
        std::vector<dv::Ent> v;
        for (i64 j = 0; j < count; ++j) v.push_back(dv::Ent(random(opMag)));
        const size_t before = n;
        const Meter m;
        o = sut(op, [&] {f->insertRange(v);});
        whole = o == Faulted;
        mag = mag == 0 || mag == opMag ? opMag : -1;
        if (before == 0 && o == Done) {
          n = size();
          fresh(n);
          clean = true;
        } else {
          changed(m, before, o, o == Done ? v.size() : 0);
          clean = false;
        }
        break;
      }
      case OTake:
        if (!f->removals() || dv::table.size() < 2) break;
        for (i64 j = 0; j < count && o == Done; ++j) {
          const dv::Mono mono(static_cast<std::uint32_t>(1 + mix64(salt ^ ++serial) % (dv::table.size() - 1)));
          const size_t before = n;
          const Meter m;
          o = sut(j == count - 1 ? op : noFault, [&] {f->removeElement(mono);});
          whole = o == Faulted;
          changed(m, before, o, 0);
        }
        break;
      case ORemove: {
        if (!f->removals() || dv::table.size() < 2) break;
        dv::Exps e = dv::table[1 + mix64(salt ^ ++serial) % (dv::table.size() - 1)];
        for (size_t v = 0; v < p.vars; ++v) if (mix64(serial + 7 * v) % 3 == 0) e[v] /= 2;
        const dv::Mono mono(add(e));
        const size_t before = n;
        const Meter m;
        o = sut(op, [&] {f->removeMultiples(mono);});
        whole = o == Faulted;
        changed(m, before, o, 0);
        break;
      }
      case ORebuild:
        o = sut(op, [&] {f->rebuild();});
        whole = o == Faulted;
        if (o == Done) {
          fresh(n);
          clean = true;
        } else {
          n = size();
          unsure();
          clean = false;
        }
        break;
      case OClear:
        if (!f->canClear()) break;
        sutOk("clear", [&] {f->clear();});
        n = 0;
        fresh(0);
        mag = 0;
        clean = false;
        break;
      case OBattery:
        if (n == 0) break;
        if (!clean && (op.arg(2) % 2 || tuned < 200)) {
          sutOk("rebuild", [&] {f->rebuild();});
          fresh(n);
          clean = true;
        }
        battery(op, mag);
        break;
      case OLook: { // the divisor cache
        if (n == 0 || !tree || !p.cache || dv::table.size() < 2) break;
        dv::Exps e = dv::table[1 + mix64(salt ^ ++serial) % (dv::table.size() - 1)];
        for (size_t v = 0; v < p.vars; ++v) e[v] += 1;
        const dv::Mono mono(add(e));
        dv::Ent* first = 0;
        o = sut(op, [&] {first = f->findDivisor(mono);});
        if (o != Done || first == 0) {
          o = Done;
          break;
        }
        const Meter m;
        sutOk("findDivisor", [&] {f->findDivisor(mono);});
        ALLOW("cache", "KDTree with a divisor cache: entries tested for a monomial of which it has just found a divisor", m(FDivides), 1, n, "cache-unused");
        ALLOW("cache", "KDTree with a divisor cache: exponents read for a monomial of which it has just found a divisor", m(FExponent), 2. * p.vars + 130, n, "cache-unused");
        g.probe("divisor cache used");
        break;
      }
      default: break;
      }
      if (o == Other) throw Violation("unexpected-exception", "an operation threw something else than what was injected");
      if (o != Done) {
        g.probe("aborted operations");
        if (op.fault == FCopy || (tree && whole)) { // may have lost anything
          if (f->canClear()) sutOk("clear", [&] {f->clear();});
          else {
            f.reset();
            sutOk("construction", [&] {f.reset(dv::makeFinder(c, q));});
          }
          n = 0;
          fresh(0);
          mag = 0;
        }
        clean = false;
      }
      g.state(mix64(static_cast<u64>(config)) ^ mix64(n / 50) ^ mix64(g.firedInRun) ^ mix64(rebuilds + 99));
      g.say("op %zu: %zu stored, %llu automatic rebuilds so far", i, n, (unsigned long long)rebuilds);
    }
    if (n >= 500) g.probe("finder held 500 entries");
    f.reset();
    dv::table.clear();
  }
}

namespace sim {
  const char* const opNames[] = {"add", "take", "look", "change", "walk", "clear", "range", "remove", "rebuild", "battery"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C27" || p == "C28";}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    p.set("salt", static_cast<i64>(r.below(1u << 30)));
    const bool finders = p.prop == "C28";
    int kind = 3;
    if (!finders) {
      kind = r.chance(70) ? 0 : r.chance(60) ? 1 : 2;
      p.set("kind", kind);
      p.set("shape", static_cast<i64>(r.below(3)));
      if (kind == 0) {
        p.set("queue", r.chance(40) ? 3 : static_cast<i64>(r.below(3)));
        p.set("flags", static_cast<i64>(r.below(48)));
        p.set("keys", r.chance(30) ? r.range(1, 20) : r.range(5, 100000));
        p.set("minBucket", r.small(30));
        p.set("geoBase", r.range(2, 9));
      } else if (kind == 1) {
        p.set("bits", r.range(2, 12));
        p.set("keys", r.range(5, 6000));
      } else p.set("percent", r.range(1, 100));
    } else {
      p.set("config", static_cast<i64>(r.below(dv::ConfigCount + 12)));
      if (p.get("config") >= dv::ConfigCount) p.set("config", 48 + p.get("config") % 4);
      p.set("vars", r.chance(70) ? r.range(2, 8) : r.range(2, 35));
      p.set("sort", r.chance(50));
      p.set("cache", r.chance(40));
      p.set("autob", r.chance(80));
      p.set("ratio", r.range(1, 9));
      p.set("min", r.chance(50) ? r.range(0, 30) : r.range(0, 500));
      p.set("order", static_cast<i64>(r.below(3)));
      p.set("skew", r.chance(40));
      if (r.chance(5)) p.set("huge", r.chance(50) ? r.range(1, 25) : r.range(16, 300)); // as good as never
    }
    const i64 mag = r.chance(50) ? r.range(50, 300) : r.range(300, 50000);
    const bool faults = r.chance(60);
    const i64 n = r.range(2, finders ? 14 : 10);
    const i64 big = thorough ? 1000 : 400;
    for (i64 i = 0; i < n; ++i) {
      std::vector<int> w(10, 0);
      if (finders) {
        const int wf[] = {10, 4, 4, 0, 0, 1, 4, 4, 3, 6};
        w.assign(wf, wf + 10);
      } else {
        const int wq[] = {8, 6, 3, 3, 1, 1, 3, 2, 0, 0};
        w.assign(wq, wq + 10);
      }
      Op op(static_cast<int>(r.weighted(w)));
      if (i == 0) op.kind = finders && r.chance(70) ? ORange : OAdd;
      op.add(i == 0 ? r.range(finders ? 200 : 50, big) : r.range(1, r.chance(50) ? 30 : big));
      op.add(r.chance(85) ? mag : r.range(50, 50000));
      op.add(static_cast<i64>(r.below(6)));
      if (faults && i > 0 && r.chance(30)) {
        std::vector<int> kinds;
        kinds.push_back(FAlloc);
        kinds.push_back(FAny);
        if (kind != 2) kinds.push_back(FCopy);
        drawFault(r, op, kinds, r.chance(50) ? 20 : 1500);
      }
      p.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    if (plan.prop == "C28") Finder(plan).run();
    else if (plan.get("kind") == 0) runQueue(plan);
    else if (plan.get("kind") == 1) runHash(plan);
    else runPairs(plan);
  }
}
