// Workload and oracle for interleaved and nested operations (C12).
//
// Several actors each own one container. The plan is a flat list of calls;
// a call with a greater depth than the one before it is made from inside a
// callback of that one, at a drawn callback, on another container. The oracle
// is differential: after the nested run each actor's calls are repeated alone
// on a fresh container, and every result must be the same.
#include "plain.h"
#include <memtailor.h>
#include <cstring>
#include <memory>
#include <set>

using namespace sim;

namespace {
  // -------------------------------------------------------------------- actors
  typedef std::vector<i64> Rec; // observable results of one call
  bool onlyArenaFails;  // results that may depend on a failed rebuild are normalised
  const size_t IdsPerActor = 6000;

  struct Actor {
    Actor(): id(0), busy(false), next(0) {}
    virtual ~Actor() {}
    virtual void create() = 0;
    virtual void destroy() = 0;
    // effect: in, whether the call shall be made (only matters alone);
    // out, whether it had an effect
    virtual Outcome act(const Op& op, u64 action, u64 salt, Rec& r, bool& effect) = 0;
    size_t id;
    bool busy;
    size_t next; // ids handed out
  };

  struct FinderActor: Actor {
    std::unique_ptr<dv::IFinder> f;
    dv::Params p;
    int config;
    std::map<dv::Exps, std::uint32_t> content; // superset, to avoid equal entries
    i64 mag;

    void create() {
      content.clear();
      const dv::Params q = p;
      const int c = config;
      sutOk("construction", [&] {f.reset(dv::makeFinder(c, q));});
    }
    void destroy() {
      sutOk("destruction", [&] {f.reset();});
      content.clear();
    }
    dv::Exps exps(u64 h) const {
      dv::Exps e(p.vars);
      for (size_t i = 0; i < p.vars; ++i) {
        h = mix64(h);
        e[i] = static_cast<int>(h % static_cast<u64>(mag));
      }
      return e;
    }
    // NoId if there may be an equal entry already
    std::uint32_t fresh(u64 h) {
      const dv::Exps e = exps(h);
      if (next + 8 >= IdsPerActor || content.count(e)) return dv::NoId;
      const std::uint32_t i = static_cast<std::uint32_t>(id * IdsPerActor + next++);
      dv::table[i] = e;
      content[e] = i;
      return i;
    }
    std::uint32_t query(u64 h) {
      const std::uint32_t i = static_cast<std::uint32_t>(id * IdsPerActor + IdsPerActor - 1 - h % 4);
      dv::Exps e = exps(h);
      if (!content.empty() && h % 3) {
        std::map<dv::Exps, std::uint32_t>::const_iterator it = content.begin();
        std::advance(it, h % content.size());
        e = it->first;
        for (size_t v = 0; v < p.vars; ++v) {
          const u64 x = mix64(h + v);
          if (x % 4 == 0) e[v] += static_cast<int>(x >> 8) % 2 ? 1 : 0;
          if (x % 4 == 1 && h % 2 && e[v] > 0) --e[v];
        }
      }
      dv::table[i] = e;
      return i;
    }
    void record(const dv::Visitor& v, Rec& r) {
      std::vector<std::uint32_t> s = v.seen;
      if (onlyArenaFails) std::sort(s.begin(), s.end());
      r.insert(r.end(), s.begin(), s.end());
      r.push_back(v.afterStop ? -7 : -8);
    }
    size_t size() {
      size_t n = 0;
      sutOk("size", [&] {n = f->size();});
      return n;
    }
    Outcome act(const Op& op, u64 action, u64 salt, Rec& r, bool& effect) {
      Outcome o = Done;
      bool mutating = false;
      const bool alone = !effect;
      switch (action % 13) {
      case 0: case 1: case 2: case 3: {
        const std::uint32_t i = fresh(salt);
        if (i == dv::NoId) break;
        const dv::Exps key = dv::table[i];
        mutating = true;
        if (alone && onlyArenaFails) {content.erase(key); break;}
        const size_t n = size();
        const dv::Ent e(i);
        o = sut(op, [&] {f->insert(e);});
        if (o == NoMemory) {
          effect = size() > n;
          if (!effect) content.erase(key);
        }
        break;
      }
      case 4: {
        std::vector<dv::Ent> v;
        for (u64 k = 0; k < 1 + salt % 9; ++k) {
          const std::uint32_t i = fresh(mix64(salt + k * 77));
          if (i != dv::NoId) v.push_back(dv::Ent(i));
        }
        if (v.empty()) break;
        mutating = true;
        o = sut(onlyArenaFails ? noFault : op, [&] {f->insertRange(v);});
        break;
      }
      case 5: case 6: {
        if (!f->removals()) break;
        const dv::Mono m(query(salt));
        const size_t n = size();
        if (alone && onlyArenaFails) break;
        bool any = false;
        dv::Collector c;
        mutating = true;
        if (action % 13 == 5) o = sut(op, [&] {any = f->removeMultiples(m);});
        else o = sut(op, [&] {any = f->removeMultiples(m, c);});
        if (o == NoMemory) effect = size() != n;
        std::sort(c.got.begin(), c.got.end());
        if (o == Done) r.push_back(any);
        if (o == Done) r.insert(r.end(), c.got.begin(), c.got.end());
        break;
      }
      case 7: {
        if (!f->isTree() || !f->removals() || content.empty()) break;
        std::map<dv::Exps, std::uint32_t>::const_iterator it = content.begin();
        std::advance(it, mix64(salt) % content.size());
        const std::uint32_t q = query(0);
        dv::table[q] = it->first;
        const dv::Mono m(q);
        const size_t n = size();
        if (alone && onlyArenaFails) break;
        bool any = false;
        mutating = true;
        o = sut(op, [&] {any = f->removeElement(m);});
        if (o == NoMemory) effect = size() != n;
        if (o == Done) r.push_back(any);
        break;
      }
      case 8: case 9: {
        const dv::Mono m(query(salt));
        dv::Ent* e = 0;
        o = sut(op, [&] {e = f->findDivisor(m);});
        if (o != Done) break;
        r.push_back(e == 0 ? -1 : onlyArenaFails ? 1 : static_cast<i64>(e->id));
        break;
      }
      case 10: {
        const dv::Mono m(query(salt));
        dv::Visitor v;
        if (!onlyArenaFails && salt % 4 == 0) v.stopAfter = static_cast<i64>(1 + mix64(salt) % 5);
        if (mix64(salt + 1) % 2) o = sut(op, [&] {f->findAllDivisors(m, v, 1);});
        else o = sut(op, [&] {f->findAllMultiples(m, v, 1);});
        record(v, r);
        break;
      }
      case 11: {
        dv::Visitor v;
        o = sut(op, [&] {f->forAll(v, 1);});
        record(v, r);
        break;
      }
      default:
        mutating = true;
        o = sut(op, [&] {f->rebuild();});
        if (o == Faulted) mutating = false; // changes nothing
        break;
      }
      if (mutating && o != Done && o != NoMemory) {
        destroy();
        create();
      } else if (mutating && o == NoMemory && action % 13 == 4) {
        destroy();
        create();
      }
      r.push_back(static_cast<i64>(size()));
      return o;
    }
  };

  struct QueueActor: Actor {
    std::unique_ptr<pq::IQueue> q;
    pq::ConfBase conf;
    int kind;
    i64 keys;
    size_t inside;
    void create() {
      inside = 0;
      const pq::ConfBase c = conf;
      const int k = kind;
      sutOk("construction", [&] {
        pq::IQueue* n = 0;
        if (k < 4) n = pq::makeSmall(pq::KHeap, k, c);
        else if (k == 4) n = pq::makeSmall(pq::KTour, 0, c);
        else if (k < 21) n = pq::makeGeoPart0(k - 5, c);
        else if (k < 37) n = pq::makeGeoPart5(k - 21, c);
        else n = pq::makeGeoPart10(k - 37, c);
        q.reset(n);
      });
    }
    void destroy() {sutOk("destruction", [&] {q.reset();});}
    pq::Ent fresh(u64 h) {
      pq::Bag b;
      b.key = static_cast<i64>(mix64(h) % static_cast<u64>(keys));
      b.queue = static_cast<int>(id);
      b.ids.push_back(static_cast<std::uint32_t>(next++));
      pq::bags.push_back(b);
      return pq::Ent(static_cast<std::uint32_t>(pq::bags.size() - 1));
    }
    void record(std::uint32_t h, Rec& r) {
      const pq::Bag* const b = pq::bag(pq::Ent(h), static_cast<int>(id));
      g.checkFlag();
      r.push_back(b->key);
      r.insert(r.end(), b->ids.begin(), b->ids.end());
    }
    bool empty() {
      bool e = false;
      sutOk("empty", [&] {e = q->empty();});
      return e;
    }
    Outcome act(const Op& op, u64 action, u64 salt, Rec& r, bool&) {
      Outcome o = Done;
      bool mutating = false;
      switch (action % 9) {
      case 0: case 1: case 2: {
        const pq::Ent e = fresh(salt);
        mutating = true;
        o = sut(op, [&] {q->push(e);});
        break;
      }
      case 3: {
        std::vector<pq::Ent> v;
        std::vector<std::pair<i64, std::uint32_t> > order;
        for (u64 k = 0; k < salt % 12; ++k) {
          const pq::Ent e = fresh(salt + k);
          order.push_back(std::make_pair(-pq::bags[e.h].key, e.h));
        }
        std::sort(order.begin(), order.end()); // ranges are descending
        for (size_t i = 0; i < order.size(); ++i)
          if (i == 0 || order[i].first != order[i - 1].first) // no two of a range may merge
            v.push_back(pq::Ent(order[i].second));
        mutating = true;
        o = sut(op, [&] {q->pushRange(v.data(), v.data() + v.size());});
        if (o == NoMemory) o = Faulted; // partly accepted
        break;
      }
      case 4: case 5:
        if (empty()) break;
        mutating = true;
        {
          std::uint32_t h = pq::NoHandle;
          o = sut(op, [&] {h = q->pop().h;});
          if (o == Done) record(h, r);
        }
        break;
      case 6: {
        if (!q->hasDecreaseTop() || empty()) break;
        std::uint32_t h = pq::NoHandle;
        sutOk("top", [&] {h = q->top().h;});
        pq::Bag b = pq::bags[h];
        b.key -= static_cast<i64>(salt % 10);
        pq::bags.push_back(b);
        const pq::Ent e(static_cast<std::uint32_t>(pq::bags.size() - 1));
        mutating = true;
        o = sut(op, [&] {q->decreaseTop(e);});
        break;
      }
      case 7: {
        if (!q->hasForAll()) break;
        pq::Visitor v;
        if (salt % 3 == 0) v.stopAfter = static_cast<i64>(1 + salt % 4);
        o = sut(op, [&] {q->forAll(v);});
        for (size_t i = 0; i < v.seen.size(); ++i) record(v.seen[i], r);
        break;
      }
      default:
        if (!q->hasClear() || salt % 3) break;
        mutating = true;
        o = sut(op, [&] {q->clear();});
        break;
      }
      if (mutating && o != Done && o != NoMemory) {
        destroy();
        create();
      }
      if (!empty()) {
        std::uint32_t h = pq::NoHandle;
        sutOk("top", [&] {h = q->top().h;});
        record(h, r);
      }
      if (q->hasSize()) {
        size_t n = 0;
        sutOk("size", [&] {n = q->size();});
        r.push_back(static_cast<i64>(n));
      }
      return o;
    }
  };

  struct PairActor: Actor {
    typedef mathic::PairQueue<NPairConf> PQ;
    std::unique_ptr<PQ> q;
    NPairConf conf;
    size_t cols;
    void create() {
      cols = 0;
      const NPairConf c = conf;
      sutOk("construction", [&] {q.reset(new PQ(c));});
    }
    void destroy() {sutOk("destruction", [&] {q.reset();});}
    Outcome act(const Op& op, u64 action, u64 salt, Rec& r, bool&) {
      Outcome o = Done;
      bool e = false;
      sutOk("empty", [&] {e = q->empty();});
      switch (action % 6) {
      case 0: case 1: case 2: {
        if (cols >= 60) break;
        std::vector<std::pair<i64, unsigned> > rows;
        for (size_t i = 0; i < cols; ++i)
          if (mix64(salt + i) % 4 && !q->retired(i)) {
            NPair p;
            {
              const u64 s = mix64(conf.salt ^ (cols * 1000003 + i)) % 50;
              rows.push_back(std::make_pair(-static_cast<i64>(s), static_cast<unsigned>(i)));
            }
          }
        std::sort(rows.begin(), rows.end());
        std::vector<unsigned> v;
        for (size_t i = 0; i < rows.size(); ++i) v.push_back(rows[i].second);
        o = sut(op, [&] {q->addColumnDescending(v.begin(), v.end());});
        if (o == Done) ++cols;
        break;
      }
      case 3: case 4:
        if (e) break;
        o = sut(op, [&] {q->pop();});
        if (o != Done) {
          destroy();
          create();
        }
        break;
      default:
        if (cols == 0 || salt % 3) break;
        o = sut(op, [&] {q->retireIndex(mix64(salt) % cols);});
        if (o != Done) {
          destroy();
          create();
        }
        break;
      }
      size_t c = 0, n = 0;
      sutOk("queries", [&] {c = q->columnCount(); n = q->pairCount(); e = q->empty();});
      r.push_back(static_cast<i64>(c));
      r.push_back(static_cast<i64>(n));
      if (!e) {
        std::pair<size_t, size_t> p;
        i64 key = 0;
        sutOk("topPair", [&] {p = q->topPair(); key = q->topPairData().key;});
        r.push_back(static_cast<i64>(p.first));
        r.push_back(static_cast<i64>(p.second));
        r.push_back(key);
      }
      return o;
    }
  };

  struct HashActor: Actor {
    typedef mathic::HashTable<NHashConf> T;
    std::unique_ptr<T> t;
    NHashConf conf;
    unsigned bits;
    std::set<i64> keys;
    void create() {
      keys.clear();
      const NHashConf c = conf;
      const unsigned b = bits;
      sutOk("construction", [&] {t.reset(new T(c, b));});
    }
    void destroy() {sutOk("destruction", [&] {t.reset();});}
    Outcome act(const Op& op, u64 action, u64 salt, Rec& r, bool&) {
      Outcome o = Done;
      const NKey key(static_cast<i64>(mix64(salt) % 60));
      switch (action % 6) {
      case 0: case 1: case 2: {
        bool created = false;
        i64 v = 0;
        o = sut(op, [&] {
          const std::pair<bool, T::Handle*> p = t->insert(key, static_cast<i64>(salt));
          created = p.first;
          v = p.second->value();
        });
        if (o == Done) {
          r.push_back(created);
          r.push_back(v);
          keys.insert(key.k);
        }
        break;
      }
      case 3: case 4: {
        i64 v = -1;
        o = sut(op, [&] {
          T::Handle* h = t->lookup(key);
          if (h) v = h->value();
        });
        r.push_back(o == Done ? v : -2);
        break;
      }
      default: {
        T::Handle* h = 0;
        sutOk("lookup", [&] {h = t->lookup(key);});
        if (h == 0) break;
        o = sut(op, [&] {t->remove(h);});
        if (o == Done) keys.erase(key.k);
        break;
      }
      }
      if (salt % 5 == 0)
        for (std::set<i64>::const_iterator it = keys.begin(); it != keys.end(); ++it) {
          const NKey k(*it);
          i64 v = -1;
          sutOk("lookup", [&] {
            T::Handle* h = t->lookup(k);
            if (h) v = h->value();
          });
          r.push_back(v);
        }
      return o;
    }
  };

  // -------------------------------------------------------------- the schedule
  enum {OCall, OHold, ORelease, OCold};

  struct Node {
    const Op* op;
    size_t index; // in the plan
    std::vector<Node*> children;
    bool done;
  };
  struct Frame {
    Actor* actor;
    Node* node;
    u64 calls;
    size_t nextChild;
  };
  struct Done1 { // one call that was made
    size_t actor;
    size_t index;
    Rec rec;
    Outcome outcome;
    bool effect;
  };
  struct Held {
    unsigned char* p;
    size_t size;
    unsigned char fill;
  };

  class Sim {
  public:
    explicit Sim(const Plan& p): _plan(p) {}
    void run();
    static Sim* current;
    void callback();
  private:
    void makeActors();
    void call(Node* n);
    void perform(Node* n);
    void checkHeld(const Held& h) const {
      for (size_t i = 0; i < h.size; ++i)
        if (h.p[i] != h.fill)
          throw Violation("scratch-memory-changed", strf("byte %zu of %zu bytes that a caller holds in the scratch arena was changed", i, h.size));
    }
    Held hold(size_t size, u64 salt) {
      Held h = {static_cast<unsigned char*>(memt::Arena::getArena().alloc(size)), size, static_cast<unsigned char>(1 + salt % 250)};
      std::memset(h.p, h.fill, size);
      return h;
    }
    const Plan& _plan;
    std::vector<std::unique_ptr<Actor> > _actors;
    std::vector<Node> _nodes;
    std::vector<Frame> _frames;
    std::vector<Done1> _log;
    std::vector<Held> _held;
    size_t _deepest;
  };
  Sim* Sim::current = 0;

  void onCallback() {
    CbScope cb;
    Sim::current->callback();
  }

  void Sim::callback() {
    if (_frames.empty()) return;
    const size_t f = _frames.size() - 1;
    ++_frames[f].calls;
    Node* const n = _frames[f].node;
    if (n == 0) return;
    while (_frames[f].nextChild < n->children.size() &&
      static_cast<u64>(n->children[_frames[f].nextChild]->op->arg(2)) <= _frames[f].calls) {
      Node* const child = n->children[_frames[f].nextChild++];
      g.say("callback %llu of op %zu:", (unsigned long long)_frames[f].calls, n->index);
      call(child);
    }
  }

  // makes a call with whatever surrounds it
  void Sim::call(Node* n) {
    if (n->done) return;
    n->done = true;
    memt::Arena& arena = memt::Arena::getArena();
    const u64 salt = static_cast<u64>(n->op->arg(4));
    const size_t bytes = static_cast<size_t>(std::min<i64>(20000, std::max<i64>(0, n->op->arg(5))));
    Held mine = {0, 0, 0};
    if (bytes > 0) {
      mine = hold(bytes, salt);
      g.probe("scratch memory held around a call");
    }
    const size_t used = arena.getAllocatedMemoryUse();
    perform(n);
    const size_t now = arena.getAllocatedMemoryUse();
    if (now != used)
      throw Violation("arena-not-restored", strf("op %zu left %zu bytes in the scratch arena where there had been %zu", n->index, now, used));
    if (bytes > 0) {
      checkHeld(mine);
      arena.freeTop(mine.p);
    }
    for (size_t i = 0; i < _held.size(); ++i) checkHeld(_held[i]);
    // calls whose callback was never reached
    for (size_t i = 0; i < n->children.size(); ++i)
      if (!n->children[i]->done) call(n->children[i]);
  }

  void Sim::perform(Node* n) {
    const size_t a = static_cast<size_t>(n->op->arg(0)) % _actors.size();
    Actor& actor = *_actors[a];
    if (actor.busy) return;
    if (_frames.size() > 40) return;
    ++g.opsInRun;
    Done1 d;
    d.actor = a;
    d.index = n->index;
    d.effect = true;
    const u64 hash = g.hash;
    actor.busy = true;
    Frame f = {&actor, n, 0, 0};
    _frames.push_back(f);
    const size_t depth = _frames.size();
    if (depth > 1) g.probe("nested calls");
    if (depth > 2) g.probe("calls nested at least twice");
    _deepest = std::max(_deepest, depth);
    // only the calls of the operation proper may be interrupted by others
    d.outcome = actor.act(*n->op, static_cast<u64>(n->op->arg(3)), static_cast<u64>(n->op->arg(4)), d.rec, d.effect);
    _frames.pop_back();
    actor.busy = false;
    if (depth > 1 && d.outcome != Done) g.probe("nested calls aborted");
    g.hash = mix64(hash ^ g.hash);
    for (size_t i = 0; i < d.rec.size(); ++i) g.log(90, static_cast<u64>(d.rec[i]));
    g.say("op %zu: actor %zu -> %s, %zu results", n->index, a, outcomeName(d.outcome), d.rec.size());
    g.state(mix64(depth * 8 + d.outcome) ^ mix64(a * 100 + static_cast<u64>(n->op->arg(3)) % 13 + 5000) ^ mix64(_frames.empty() ? 0 : static_cast<u64>(_frames.back().node->op->arg(0) * 100 + _frames.back().node->op->arg(3) % 13)));
    _log.push_back(d);
  }

  void Sim::makeActors() {
    _actors.clear();
    const size_t n = static_cast<size_t>(std::min<i64>(6, std::max<i64>(2, _plan.get("actors", 2))));
    for (size_t i = 0; i < n; ++i) {
      const u64 c = static_cast<u64>(_plan.get(strf("a%zu", i).c_str()));
      std::unique_ptr<Actor> a;
      switch (c % 8) {
      case 0: case 1: case 2: case 3: case 4: {
        std::unique_ptr<FinderActor> f(new FinderActor());
        u64 h = mix64(c);
        f->config = c % 8 == 4 ? 48 + static_cast<int>(h % 4) : c % 8 == 3 ? 48 + static_cast<int>(h % 4) : static_cast<int>(h % 48);
        h = mix64(h);
        f->p.vars = 1 + h % 6;
        f->p.sort = (h >> 8) & 1;
        f->p.cache = (h >> 9) & 1;
        f->p.autob = ((h >> 10) & 3) != 0;
        f->p.ratio = ((h >> 12) & 1) ? 0.2 : 1.0;
        f->p.min = 1 + (h >> 16) % 10;
        f->p.order = static_cast<int>((h >> 24) % 3);
        f->mag = ((h >> 30) & 1) ? 4 : 20;
        if (f->p.vars < 3) f->mag = 300;
        a.reset(f.release());
        break;
      }
      case 5: {
        std::unique_ptr<QueueActor> q(new QueueActor());
        u64 h = mix64(c);
        q->kind = static_cast<int>(h % 53);
        if (((h >> 10) & 3) == 0) q->kind %= 5;
        q->conf.minBucketSize = 1 + (h >> 20) % 6;
        q->conf.geoBase = 2 + (h >> 28) % 3;
        q->conf.queue = static_cast<int>(i);
        q->keys = ((h >> 36) & 1) ? 6 : 1000;
        a.reset(q.release());
        break;
      }
      case 6: {
        std::unique_ptr<PairActor> q(new PairActor());
        q->conf.salt = mix64(c);
        a.reset(q.release());
        break;
      }
      default: {
        std::unique_ptr<HashActor> q(new HashActor());
        q->conf.salt = mix64(c);
        q->conf.quality = static_cast<int>(mix64(c) % 2);
        q->bits = 1 + static_cast<unsigned>(mix64(c + 1) % 5);
        a.reset(q.release());
        break;
      }
      }
      a->id = i;
      _actors.push_back(std::move(a));
    }
  }

  void Sim::run() {
    current = this;
    onlyArenaFails = _plan.get("arenaFails") != 0;
    g.arenaMode = onlyArenaFails ? Ctx::ArenaOnly : Ctx::ArenaSafe;
    _deepest = 0;
    dv::table.assign(6 * IdsPerActor, dv::Exps());
    pq::bags.clear();
    makeActors();

    // the tree of calls
    _nodes.resize(_plan.ops.size());
    std::vector<Node*> path, roots;
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      Node& n = _nodes[i];
      n.op = &_plan.ops[i];
      n.index = i;
      n.done = false;
      size_t depth = n.op->kind == OCall ? static_cast<size_t>(std::max<i64>(0, n.op->arg(1))) : 0;
      if (depth > path.size()) depth = path.size();
      path.resize(depth);
      if (depth == 0) roots.push_back(&n);
      else path.back()->children.push_back(&n);
      if (n.op->kind == OCall) path.push_back(&n);
    }
    for (size_t i = 0; i < _nodes.size(); ++i)
      std::stable_sort(_nodes[i].children.begin(), _nodes[i].children.end(),
        [](const Node* a, const Node* b) {return a->op->arg(2) < b->op->arg(2);});

    for (size_t i = 0; i < _actors.size(); ++i) _actors[i]->create();
    g.onCallback = ::onCallback;
    for (size_t i = 0; i < roots.size(); ++i) {
      Node* const n = roots[i];
      memt::Arena& arena = memt::Arena::getArena();
      switch (n->op->kind) {
      case OCall:
        g.say("-- %zu: call", i);
        call(n);
        break;
      case OHold: {
        Held h = hold(static_cast<size_t>(std::min<i64>(50000, std::max<i64>(1, n->op->arg(0)))), n->index);
        _held.push_back(h);
        break;
      }
      case ORelease:
        if (_held.empty()) break;
        checkHeld(_held.back());
        arena.freeTop(_held.back().p);
        _held.pop_back();
        break;
      case OCold:
        if (_held.empty()) arenaReset();
        break;
      }
    }
    g.onCallback = 0;
    while (!_held.empty()) {
      checkHeld(_held.back());
      memt::Arena::getArena().freeTop(_held.back().p);
      _held.pop_back();
    }
    if (memt::Arena::getArena().getAllocatedMemoryUse() != 0)
      throw Violation("arena-not-restored", "the shared scratch arena still holds allocations");
    for (size_t i = 0; i < _actors.size(); ++i)
      _actors[(i * 5 + 2) % _actors.size() == i ? i : i]->destroy();
    _actors.clear();

    // the same calls, each actor alone
    dv::table.assign(6 * IdsPerActor, dv::Exps());
    pq::bags.clear();
    makeActors();
    for (size_t a = 0; a < _actors.size(); ++a) {
      arenaReset();
      Actor& actor = *_actors[a];
      actor.create();
      for (size_t i = 0; i < _log.size(); ++i) {
        const Done1& d = _log[i];
        if (d.actor != a) continue;
        const Op& op = _plan.ops[d.index];
        Rec r;
        bool effect = d.effect;
        g.say("alone: op %zu", d.index);
        const Outcome o = actor.act(onlyArenaFails ? noFault : op, static_cast<u64>(op.arg(3)), static_cast<u64>(op.arg(4)), r, effect);
        if (onlyArenaFails && d.outcome != Done) continue; // no result there
        // what is kept for the next time may change which allocations there are to fail
        if (o != d.outcome && op.fault != 0 && (o == NoMemory || d.outcome == NoMemory)) break;
        if (o != d.outcome)
          throw Violation("interference", strf("op %zu on container %zu ended with %s among other operations but with %s alone", d.index, a, outcomeName(d.outcome), outcomeName(o)));
        if (r != d.rec) {
          size_t k = 0;
          while (k < r.size() && k < d.rec.size() && r[k] == d.rec[k]) ++k;
          throw Violation("interference", strf("result %zu of op %zu on container %zu is %lld among other operations but %lld alone (%zu and %zu results)", k, d.index, a,
            k < d.rec.size() ? (long long)d.rec[k] : -99ll, k < r.size() ? (long long)r[k] : -99ll, d.rec.size(), r.size()));
        }
      }
      actor.destroy();
    }
    _actors.clear();
    g.probe(strf("runs nested to depth %zu", std::min<size_t>(_deepest, 6)).c_str());
  }
}

namespace sim {
  const char* const opNames[] = {"call", "hold", "release", "cold"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C12";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    const i64 actors = rng.range(2, 6);
    plan.set("actors", actors);
    // mostly the kinds that use the scratch arena
    // and often several of exactly the same type, which would share statics
    const int alike = rng.chance(40) ? 70 : 0;
    i64 kind = 0;
    for (i64 i = 0; i < actors; ++i) {
      if (i == 0 || !rng.chance(alike)) kind = static_cast<i64>(rng.below(1u << 20));
      plan.set(strf("a%d", static_cast<int>(i)).c_str(), kind);
    }
    const bool arenaFails = rng.chance(15);
    plan.set("arenaFails", arenaFails);
    const bool faults = arenaFails || rng.chance(65);
    const int faultPercent = rng.chance(50) ? 20 : 50;
    const int nest = rng.chance(20) ? 0 : static_cast<int>(rng.range(30, 75));
    const i64 n = rng.range(6, rng.chance(30) ? 30 : thorough ? 260 : 120);
    const bool holds = rng.chance(60);
    const bool cold = rng.chance(50);
    i64 depth = -1;
    for (i64 i = 0; i < n; ++i) {
      if (holds && rng.chance(6)) {
        Op h(rng.chance(60) ? static_cast<int>(OHold) : static_cast<int>(ORelease));
        if (h.kind == OHold) h.add(rng.chance(15) ? rng.range(1000, 30000) : rng.range(1, 200));
        plan.ops.push_back(h);
        depth = -1;
        continue;
      }
      if (cold && rng.chance(8)) {
        plan.ops.push_back(Op(OCold));
        depth = -1;
      }
      Op op(OCall);
      if (depth < 0 || !rng.chance(nest)) depth = rng.chance(50) || depth < 0 ? 0 : static_cast<i64>(rng.below(depth + 1));
      else depth = std::min<i64>(depth + 1, 7);
      op.add(rng.below(actors)).add(depth).add(rng.small(150));
      op.add(rng.below(1000)).add(static_cast<i64>(rng.below(1u << 30)));
      op.add(holds && rng.chance(30) ? (rng.chance(15) ? rng.range(500, 9000) : rng.range(1, 100)) : 0);
      if (faults && rng.chance(faultPercent)) {
        std::vector<int> kinds(1, FAlloc);
        if (!arenaFails) {
          kinds.push_back(FAny);
          kinds.push_back(FAny);
          kinds.push_back(FCopy);
        }
        drawFault(rng, op, kinds, arenaFails ? 2 : 60);
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
