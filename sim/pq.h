// Priority queues behind one interface, so that one workload and one
// reference model drive every template instantiation.
#ifndef VERIF_PQ_H
#define VERIF_PQ_H
#include "sim.h"
#include <iosfwd>

namespace pq {
  using namespace sim;

  const std::uint32_t NoHandle = 0xffffffffu;

  // What the queues store: a handle into the harness' table of entries. Its
  // constructors, destructor and assignments are tracked and are fault points.
  struct Ent {
    std::uint32_t h;
    std::uint32_t magic;
    static const std::uint32_t Alive = 0xa11fe000u;
    static const std::uint32_t Dead = 0xdeadbeefu;
    Ent(): h(NoHandle), magic(Alive) {++g.liveEntries;}
    explicit Ent(std::uint32_t handle): h(handle), magic(Alive) {++g.liveEntries;}
    Ent(const Ent& e): h(e.h), magic(Alive) {
      e.check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      ++g.liveEntries;
    }
    Ent& operator=(const Ent& e) {
      e.check();
      check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      h = e.h;
      return *this;
    }
    ~Ent() {
      check();
      magic = Dead;
      --g.liveEntries;
    }
    void check() const {
      if (magic != Alive)
        g.flag("entry-lifetime", magic == Dead ? "destructed entry used" : "unconstructed entry memory used");
    }
  };

  // Entries known to the harness. A bag is an entry together with the
  // original entries that were merged into it.
  struct Bag {
    i64 key;
    int queue;
    std::vector<std::uint32_t> ids; // originals it represents
  };
  std::ostream& operator<<(std::ostream& out, const Ent& e);
  extern std::vector<Bag> bags;

  struct ConfBase {
    size_t minBucketSize;
    size_t geoBase;
    int queue;
    typedef Ent Entry;
    typedef int CompareResult;
    CompareResult compare(const Ent& a, const Ent& b) const;
    bool cmpLessThan(CompareResult r) const {return r < 0;}
    bool cmpEqual(CompareResult r) const {return r == 0;}
    Ent deduplicate(const Ent& a, const Ent& b) const;
  };

  struct Visitor {
    std::vector<std::uint32_t> seen;
    i64 stopAfter; // stop when that many have been seen, <0 never
    bool stopped, visitedAfterStop;
    Visitor(): stopAfter(-1), stopped(false), visitedAfterStop(false) {}
    bool proceed(const Ent& e);
  };

  struct IQueue {
    virtual ~IQueue() {}
    virtual void push(const Ent& e) = 0;
    virtual void pushRange(const Ent* begin, const Ent* end) = 0;
    virtual Ent pop() = 0;
    virtual Ent top() = 0;
    virtual bool empty() = 0;
    virtual bool hasSize() = 0;
    virtual size_t size() = 0;
    virtual bool hasForAll() = 0;
    virtual void forAll(Visitor& v) = 0;
    virtual bool hasDecreaseTop() = 0;
    virtual void decreaseTop(const Ent& e) = 0;
    virtual bool hasClear() = 0;
    virtual void clear() = 0;
    virtual bool canMove() = 0;
    virtual void move() = 0;
    virtual size_t memoryUse() = 0;
    virtual std::string name() = 0;
    virtual void print(std::ostream& out) = 0;
    virtual bool dedup() = 0;
  };

  enum Kind {KHeap = 0, KTour = 1, KSet = 2, KGeo = 3};
  // flags for KHeap: 1 fast index, 2 dedup
  // flags for KGeo: 1 trackFront 2 premerge 4 collectMax 8 binary search,
  //   16 dedup, 32.. bucketStorage*32 (0..2), 96: insert factor variant
  IQueue* makeSmall(int kind, int flags, const ConfBase& c);
  IQueue* makeGeo(int flags, const ConfBase& c);
}
#endif
