// Workload, reference models and oracle for copying and moving objects (C19)
// and for the complete tree ComTree (C20).
#include "sim.h"
#include "simio.h"
#include <mathic/ComTree.h>
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/StlSet.h>
#include <mathic/BitTriangle.h>
#include <mathic/ColumnPrinter.h>
#include <mathic/NameFactory.h>
#include <mathic/CliParser.h>
#include <mathic/Action.h>
#include <algorithm>
#include <memory>
#include <sstream>

namespace {
  using namespace sim;

  std::vector<i64> keys; // by entry id

  struct Ent {
    std::uint32_t id;
    std::uint32_t magic;
    static const std::uint32_t Alive = 0xa11fe001u;
    static const std::uint32_t Dead = 0xdeadbeefu;
    static const std::uint32_t None = 0xffffffffu;
    Ent(): id(None), magic(Alive) {++g.liveEntries;}
    explicit Ent(std::uint32_t i): id(i), magic(Alive) {++g.liveEntries;}
    Ent(const Ent& e): id(e.id), magic(Alive) {
      e.check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      ++g.liveEntries;
    }
    Ent& operator=(const Ent& e) {
      e.check();
      check();
      if (g_alloc.depth > 0) g.throwAt(FCopy);
      id = e.id;
      return *this;
    }
    ~Ent() {
      check();
      magic = Dead;
      --g.liveEntries;
    }
    void check() const {
      if (magic != Alive)
        g.flag("entry-lifetime", magic == Dead ? "destructed entry used" : "unconstructed entry memory used");
    }
  };
  std::ostream& operator<<(std::ostream& out, const Ent& e) {return out << e.id;}

  // A configuration with state of its own that knows whether it is alive.
  struct Conf {
    typedef Ent Entry;
    typedef int CompareResult;
    static const bool fastIndex = true;
    static const bool supportDeduplication = false;
    int sign;
    i64 label;
    std::uint32_t magic;
    Conf(int s, i64 l): sign(s), label(l), magic(Ent::Alive) {}
    Conf(const Conf& c): sign(c.sign), label(c.label), magic(Ent::Alive) {c.check();}
    Conf& operator=(const Conf& c) {c.check(); check(); sign = c.sign; label = c.label; return *this;}
    ~Conf() {check(); magic = Ent::Dead;}
    void check() const {
      if (magic != Ent::Alive) g.flag("configuration-lifetime", "configuration used that is not alive");
    }
    int compare(const Ent& a, const Ent& b) const {
      check();
      a.check();
      b.check();
      g.throwAt(FCompare);
      const i64 ka = a.id < keys.size() ? keys[a.id] : 0, kb = b.id < keys.size() ? keys[b.id] : 0;
      return ka == kb ? 0 : (ka < kb) == (sign > 0) ? -1 : 1;
    }
    bool cmpLessThan(int r) const {return r < 0;}
    bool cmpEqual(int r) const {return r == 0;}
    Ent deduplicate(const Ent& a, const Ent&) const {return a;}
  };

  enum {ONew, OCopy, OMove, OAssign, OSwap, OChange, OMany, OWrite, OShrink, OClear, OGrow, OConfig, ODrain, ODrop, OWalk};

  // One object together with what it should contain.
  struct Thing {
    virtual ~Thing() {}
    virtual const char* name() const = 0;
    virtual bool canCopy() const {return true;}
    virtual bool canMove() const {return true;}
    virtual bool canAssign() const {return false;}
    virtual bool canSwap() const {return false;}
    // These return null if the copy could not be made. The new object's model
    // is the old one's.
    virtual Thing* copy(const Op& op) = 0;
    virtual Thing* move(const Op& op) = 0; // leaves *this to be destructed only, or usable if reusable
    virtual bool assign(const Op&, Thing&) {return true;} // false if it failed
    virtual void swap(Thing&) {}
    virtual void change(const Op& op) = 0;
    virtual void write(const Op&) {}
    virtual void shrink(const Op&) {}
    virtual void clear() {}
    virtual void grow(const Op&) {}
    virtual void config(const Op&) {}
    virtual void walk(u64) {}
    virtual void verify(bool full) = 0;
    virtual void drain() {}
  };

  std::uint32_t newEntry(i64 key) {
    keys.push_back(key);
    return static_cast<std::uint32_t>(keys.size() - 1);
  }

  // ------------------------------------------------------------- queues
  template<class Q> struct Traits;
  template<> struct Traits<mathic::Heap<Conf> > {static const bool copy = false, assign = false, more = true; static const char* name() {return "Heap";}};
  template<> struct Traits<mathic::TourTree<Conf> > {static const bool copy = true, assign = false, more = true; static const char* name() {return "TourTree";}};
  template<> struct Traits<mathic::StlSet<Conf> > {static const bool copy = true, assign = true, more = false; static const char* name() {return "StlSet";}};
  template<bool b> struct If {};

  struct Seen {
    std::vector<std::uint32_t> ids;
    bool proceed(const Ent& e) {CbScope cb; e.check(); ids.push_back(e.id); return true;}
  };

  template<class Q>
  struct Queue: public Thing {
    std::unique_ptr<Q> q;
    std::vector<std::uint32_t> m;
    int sign;
    i64 label;
    bool broken; // only destruction is left
    Queue(): sign(1), label(0), broken(false) {}
    ~Queue() {if (q.get() != 0) sutOk("destruction", [&] {q.reset();});}
    static Q* cp(const Q& from, If<true>) {return new Q(from);}
    static Q* cp(const Q&, If<false>) {return 0;}
    static void as(Q& a, const Q& b, If<true>) {a = b;}
    static void as(Q&, const Q&, If<false>) {}
    static void fa(const Q& a, Seen& s, If<true>) {a.forAll(s);}
    static void fa(const Q&, Seen&, If<false>) {}
    static void cl(Q& a, If<true>) {a.clear();}
    static void cl(Q&, If<false>) {}
    const char* name() const {return Traits<Q>::name();}
    bool canCopy() const {return Traits<Q>::copy;}
    bool canAssign() const {return Traits<Q>::assign;}
    Queue* like() const {
      std::unique_ptr<Queue> n(new Queue());
      n->m = m; n->sign = sign; n->label = label;
      return n.release();
    }
    Thing* copy(const Op& op) {
      std::unique_ptr<Queue> n(like());
      const Q& from = *q;
      if (sut(op, [&] {n->q.reset(cp(from, If<Traits<Q>::copy>()));}) != Done) return 0;
      return n.release();
    }
    Thing* move(const Op& op) {
      std::unique_ptr<Queue> n(like());
      if (sut(op, [&] {n->q.reset(new Q(std::move(*q)));}) != Done) {
        broken = true; // as a move may be a copy or may have moved already
        return 0;
      }
      broken = true;
      return n.release();
    }
    bool assign(const Op& op, Thing& t) {
      Queue& o = static_cast<Queue&>(t);
      if (sut(op, [&] {as(*q, *o.q, If<Traits<Q>::assign>());}) != Done) {broken = true; return false;}
      m = o.m; sign = o.sign; label = o.label;
      return true;
    }
    i64 best() const {
      i64 b = keys[m[0]];
      for (size_t i = 1; i < m.size(); ++i)
        if (sign > 0 ? keys[m[i]] > b : keys[m[i]] < b) b = keys[m[i]];
      return b;
    }
    void take(std::uint32_t id, const char* what) {
      std::vector<std::uint32_t>::iterator it = std::find(m.begin(), m.end(), id);
      if (it == m.end())
        throw Violation("invented-entry", strf("%s of a %s yields entry %lld that is not there", what, name(), (long long)id));
      if (keys[id] != best())
        throw Violation("not-maximal", strf("%s of a %s yields an entry with key %lld while %lld is there", what, name(), (long long)keys[id], (long long)best()));
      m.erase(it);
    }
    void change(const Op& op) {
      const std::uint32_t id = newEntry(op.arg(2));
      {
        const Ent e(id);
        sutOk("push", [&] {q->push(e);});
      }
      m.push_back(id);
    }
    void shrink(const Op&) {
      if (m.empty()) return;
      std::uint32_t id = 0;
      sutOk("pop", [&] {id = q->pop().id;});
      take(id, "pop");
    }
    void clear() {
      if (!Traits<Q>::more) return;
      sutOk("clear", [&] {cl(*q, If<Traits<Q>::more>());});
      m.clear();
    }
    void config(const Op& op) {
      label = op.arg(2);
      q->getConfiguration().label = label;
      if (m.empty()) {
        sign = op.arg(3) & 1 ? 1 : -1;
        q->getConfiguration().sign = sign;
      }
    }
    void verify(bool) {
      bool e = false;
      i64 l = 0;
      int s = 0;
      const Q& c = *q;
      sutOk("empty", [&] {e = c.empty(); l = c.getConfiguration().label; s = c.getConfiguration().sign;});
      if (e != m.empty()) throw Violation("wrong-content", strf("empty() of a %s is %d with %zu entries", name(), e, m.size()));
      if (l != label || s != sign) throw Violation("shared-configuration", strf("the configuration of a %s changed without being touched", name()));
      g.state(mix64(m.size() * 3 + (sign > 0)) ^ mix64(Traits<Q>::copy * 2 + Traits<Q>::assign) ^ mix64(g.firedInRun + 77));
      if (m.empty()) return;
      std::uint32_t id = 0;
      sutOk("top", [&] {id = q->top().id;});
      std::vector<std::uint32_t> keep(m);
      take(id, "top");
      m = keep;
      if (Traits<Q>::more) {
        Seen seen;
        sutOk("forAll", [&] {fa(c, seen, If<Traits<Q>::more>());});
        std::sort(seen.ids.begin(), seen.ids.end());
        std::sort(keep.begin(), keep.end());
        if (seen.ids != keep) throw Violation("wrong-content", strf("a %s holds %zu entries, should be %zu other ones", name(), seen.ids.size(), keep.size()));
      }
    }
    void drain() {
      while (!m.empty()) shrink(noFault);
      verify(true);
    }
  };

  template<class Q>
  Thing* makeQueue(const Op& op) {
    std::unique_ptr<Queue<Q> > t(new Queue<Q>());
    t->sign = op.arg(3) & 1 ? 1 : -1;
    t->label = op.arg(2);
    const Conf c(t->sign, t->label);
    sutOk("construction", [&] {t->q.reset(new Q(c));});
    return t.release();
  }

  // ------------------------------------------------------------- ComTree
  template<bool FI>
  struct Tree: public Thing {
    typedef mathic::ComTree<Ent, FI> T;
    typedef typename T::Node Node;
    std::unique_ptr<T> t;
    std::vector<std::uint32_t> m; // m[i] is the entry at node i + 1
    ~Tree() {if (t.get() != 0) sutOk("destruction", [&] {t.reset();});}
    const char* name() const {return FI ? "ComTree with fast index" : "ComTree";}
    bool canSwap() const {return true;}
    static Node at(size_t index) {return Node().next(index - 1);} // 1 is the root
    Thing* copy(const Op& op) {
      std::unique_ptr<Tree> n(new Tree());
      const T& from = *t;
      const size_t cap = op.arg(3) & 1 ? static_cast<size_t>(op.arg(3)) % 90 : 0;
      const Outcome o = sut(op, [&] {
        if (cap == 0) n->t.reset(new T(from)); else n->t.reset(new T(from, cap));
      });
      if (o != Done) return 0;
      if (n->t->capacity() < cap) throw Violation("capacity", strf("a copy with capacity for at least %zu has capacity for %zu", cap, n->t->capacity()));
      n->m = m;
      return n.release();
    }
    Thing* move(const Op& op) {
      std::unique_ptr<Tree> n(new Tree());
      if (sut(op, [&] {n->t.reset(new T(std::move(*t)));}) != Done) return 0; // new failed, so nothing was moved
      n->m.swap(m);
      return n.release();
    }
    void swap(Thing& o) {
      Tree& other = static_cast<Tree&>(o);
      sutOk("swap", [&] {t->swap(*other.t);});
      m.swap(other.m);
    }
    void change(const Op& op) {
      const std::uint32_t id = newEntry(op.arg(2));
      Outcome o;
      if (!m.empty() && (op.arg(3) & 12) == 12) { // another copy of an entry of the tree itself
        const size_t i = static_cast<size_t>(op.arg(3) >> 4) % m.size();
        g.probe(t->capacity() > m.size() ? "pushBack of own entry" : "pushBack of own entry with growth");
        o = sut(op, [&] {t->pushBack((*t)[at(i + 1)]);});
        if (o == Done) m.push_back(m[i]);
        return;
      }
      {
        const Ent e(id);
        if ((op.arg(3) & 3) == 0 && t->capacity() > m.size()) {
          g.probe("pushBackWithCapacity");
          o = sut(op, [&] {t->pushBackWithCapacity(e);});
        } else
          o = sut(op, [&] {t->pushBack(e);});
      }
      if (o == Done) m.push_back(id);
      else g.probe("failed pushBack");
    }
    void write(const Op& op) {
      if (m.empty()) return;
      const size_t i = static_cast<size_t>(op.arg(3)) % m.size();
      const std::uint32_t id = newEntry(op.arg(2));
      Outcome o;
      {
        const Ent e(id);
        o = sut(op, [&] {(*t)[at(i + 1)] = e;});
      }
      if (o == Done) m[i] = id;
    }
    void shrink(const Op&) {
      if (m.empty()) return;
      sutOk("popBack", [&] {t->popBack();});
      m.pop_back();
    }
    void clear() {
      sutOk("clear", [&] {t->clear();});
      m.clear();
    }
    void grow(const Op& op) {
      const size_t cap = t->capacity(), want = t->capacityAfterIncrease();
      if (cap > 20000) return;
      const Outcome o = sut(op, [&] {t->increaseCapacity();});
      if (o == Done && (t->capacity() <= cap || t->capacity() != want))
        throw Violation("capacity", strf("capacity %zu after increasing a capacity of %zu, announced was %zu", t->capacity(), cap, want));
      if (o != Done && t->capacity() != cap) throw Violation("capacity", "a failed increase changed the capacity");
      if (o != Done) g.probe("failed capacity increases");
    }
    void expect(Node n, size_t index, const char* what, size_t from) const {
      if (n != at(index)) throw Violation("wrong-node", strf("%s of node %zu of a %s is not node %zu", what, from, name(), index));
    }
    void walk(u64 salt) {
      const size_t i = 1 + static_cast<size_t>(salt % (m.size() + 20));
      const Node n = at(i);
      expect(n.left(), 2 * i, "left()", i);
      expect(n.right(), 2 * i + 1, "right()", i);
      expect(n.next(), i + 1, "next()", i);
      expect(n.next(salt >> 40), i + (salt >> 40), "next(count)", i);
      if (i > 1) {
        expect(n.parent(), i / 2, "parent()", i);
        expect(n.sibling(), i ^ 1, "sibling()", i);
        expect(n.leftSibling(), i & ~static_cast<size_t>(1), "leftSibling()", i);
        expect(n.prev(), i - 1, "prev()", i);
      }
      Node u = n;
      ++u;
      expect(u, i + 1, "++", i);
      if ((i > 1 && (!!n.isLeft() == !!(i & 1) || !!n.isRight() != !!(i & 1))) || n.isRoot() != (i == 1))
        throw Violation("wrong-node", strf("node %zu of a %s is on the wrong side", i, name()));
      const size_t k = 1 + static_cast<size_t>((salt >> 20) % (m.size() + 20));
      const Node o = at(k);
      if ((n < o) != (i < k) || (n <= o) != (i <= k) || (n > o) != (i > k) || (n >= o) != (i >= k) || (n == o) != (i == k) || (n != o) != (i != k))
        throw Violation("wrong-node", strf("nodes %zu and %zu of a %s compare wrongly", i, k, name()));
      const size_t extra = static_cast<size_t>(salt >> 50) % 40;
      const bool free = t->hasFreeCapacity(extra);
      if (free != (t->capacity() - t->size() >= extra))
        throw Violation("capacity", strf("hasFreeCapacity(%zu) is %d with capacity %zu and size %zu", extra, free, t->capacity(), t->size()));
    }
    void verify(bool) {
      const T& c = *t;
      if (c.size() != m.size() || c.empty() != m.empty())
        throw Violation("wrong-content", strf("a %s has size() %zu and empty() %d with %zu entries", name(), c.size(), c.empty(), m.size()));
      if (c.capacity() < m.size()) throw Violation("capacity", "capacity() is below size()");
      if (c.getMemoryUse() < m.size() * sizeof(Ent)) throw Violation("memory-use", "getMemoryUse() is less than the entries take up");
      if (!m.empty() && c.lastLeaf() != at(m.size())) throw Violation("wrong-node", "lastLeaf() is not the last entry");
      size_t i = 0;
      if (!m.empty())
        for (Node n; n <= c.lastLeaf(); n = n.next(), ++i) {
          const std::uint32_t id = c[n].id;
          c[n].check();
          g.checkFlag();
          if (i >= m.size() || id != m[i])
            throw Violation("wrong-content", strf("entry %zu of a %s is %lld, should be %lld", i, name(), (long long)id, i < m.size() ? (long long)m[i] : -1ll));
        }
      g.state(mix64(m.size() * 2 + FI) ^ mix64(c.capacity() + 5) ^ mix64(g.firedInRun + 99));
    }
  };
  template<bool FI>
  Thing* makeTree(const Op& op) {
    std::unique_ptr<Tree<FI> > t(new Tree<FI>());
    const size_t cap = op.arg(3) & 1 ? static_cast<size_t>(op.arg(3)) % 90 : 0;
    const Outcome o = sut(op, [&] {t->t.reset(new mathic::ComTree<Ent, FI>(cap));});
    if (o != Done) return 0;
    if (t->t->capacity() != cap) throw Violation("capacity", strf("a tree made with capacity %zu has capacity %zu", cap, t->t->capacity()));
    return t.release();
  }

  // ------------------------------------------------------------- BitTriangle
  struct Tri: public Thing {
    std::unique_ptr<mathic::BitTriangle> t;
    std::vector<std::vector<char> > m;
    ~Tri() {if (t.get() != 0) sutOk("destruction", [&] {t.reset();});}
    const char* name() const {return "BitTriangle";}
    bool canAssign() const {return true;}
    bool broken;
    Tri(): broken(false) {}
    Thing* copy(const Op& op) {
      std::unique_ptr<Tri> n(new Tri());
      const mathic::BitTriangle& from = *t;
      if (sut(op, [&] {n->t.reset(new mathic::BitTriangle(from));}) != Done) return 0;
      n->m = m;
      return n.release();
    }
    Thing* move(const Op& op) {
      std::unique_ptr<Tri> n(new Tri());
      if (sut(op, [&] {n->t.reset(new mathic::BitTriangle(std::move(*t)));}) != Done) return 0;
      n->m = m;
      return n.release();
    }
    bool assign(const Op& op, Thing& o) {
      Tri& other = static_cast<Tri&>(o);
      const mathic::BitTriangle& from = *other.t;
      if (sut(op, [&] {*t = from;}) != Done) return false;
      m = other.m;
      return true;
    }
    void change(const Op&) {
      if (m.size() > 150) return;
      sutOk("addColumn", [&] {t->addColumn();});
      m.push_back(std::vector<char>(m.size(), 0));
    }
    void write(const Op& op) {
      if (m.size() < 2) return;
      const size_t c = 1 + static_cast<size_t>(op.arg(2) & 0xffff) % (m.size() - 1), r = static_cast<size_t>(op.arg(3)) % c;
      const bool v = !m[c][r];
      sutOk("setBit", [&] {t->setBit(c, r, v);});
      m[c][r] = v;
    }
    void verify(bool) {
      const mathic::BitTriangle& c = *t;
      if (c.columnCount() != m.size()) throw Violation("wrong-content", strf("a BitTriangle has %zu columns, should be %zu", c.columnCount(), m.size()));
      for (size_t i = 1; i < m.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          if (c.bit(i, j) != (m[i][j] != 0)) throw Violation("wrong-content", strf("bit(%zu,%zu) of a BitTriangle is wrong", i, j));
      g.state(mix64(m.size() + 9000) ^ mix64(g.firedInRun));
    }
  };

  // ------------------------------------------------------------- ColumnPrinter
  struct Printer: public Thing {
    std::unique_ptr<mathic::ColumnPrinter> p;
    std::string m; // what it prints
    size_t cols;
    Printer(): cols(0) {}
    ~Printer() {if (p.get() != 0) sutOk("destruction", [&] {p.reset();});}
    const char* name() const {return "ColumnPrinter";}
    bool canCopy() const {return false;}
    Thing* copy(const Op&) {return 0;}
    Thing* move(const Op& op) {
      std::unique_ptr<Printer> n(new Printer());
      if (sut(op, [&] {n->p.reset(new mathic::ColumnPrinter(std::move(*p)));}) != Done) return 0;
      n->m = m;
      n->cols = cols;
      return n.release();
    }
    void show(std::string& out) const {
      out = printed();
    }
    std::string printed() const {
      std::ostringstream s;
      const mathic::ColumnPrinter& c = *p;
      sutOk("print", [&] {c.print(s);});
      return s.str();
    }
    void change(const Op& op) {
      const bool left = op.arg(3) & 1;
      sutOk("addColumn", [&] {p->addColumn(left, op.arg(3) & 2 ? " " : "--", op.arg(3) & 4 ? "" : "|");});
      ++cols;
      m = printed();
    }
    void write(const Op& op) {
      if (cols == 0) return;
      const size_t c = static_cast<size_t>(op.arg(3)) % cols;
      const std::string before = m;
      sutOk("writing to a column", [&] {(*p)[c] << "cell" << op.arg(2) % 1000 << '\n';});
      m = printed();
      if (m == before) throw Violation("wrong-content", "text written to a column of a ColumnPrinter is not printed");
    }
    void verify(bool) {
      if (p->getColumnCount() != cols) throw Violation("wrong-content", strf("a ColumnPrinter has %zu columns, should be %zu", p->getColumnCount(), cols));
      if (printed() != m) throw Violation("wrong-content", "a ColumnPrinter prints something else than before it was moved");
      g.state(mix64(m.size() + 90000) ^ mix64(g.firedInRun));
    }
  };

  // ------------------------------------------------------------- NameFactory
  struct Product {
    virtual ~Product() {}
    virtual int id() const = 0;
  };
  template<int N> struct Prod: public Product {int id() const {return N;}};
  std::unique_ptr<Product> mk0() {return std::unique_ptr<Product>(new Prod<0>());}
  std::unique_ptr<Product> mk1() {return std::unique_ptr<Product>(new Prod<1>());}
  std::unique_ptr<Product> mk2() {return std::unique_ptr<Product>(new Prod<2>());}

  struct Factory: public Thing {
    typedef mathic::NameFactory<Product> F;
    std::unique_ptr<F> f;
    std::vector<std::pair<std::string, int> > m;
    ~Factory() {if (f.get() != 0) sutOk("destruction", [&] {f.reset();});}
    const char* name() const {return "NameFactory";}
    Thing* copy(const Op& op) {
      std::unique_ptr<Factory> n(new Factory());
      const F& from = *f;
      if (sut(op, [&] {n->f.reset(new F(from));}) != Done) return 0;
      n->m = m;
      return n.release();
    }
    Thing* move(const Op& op) {
      std::unique_ptr<Factory> n(new Factory());
      if (sut(op, [&] {n->f.reset(new F(std::move(*f)));}) != Done) return 0;
      n->m = m;
      return n.release();
    }
    void change(const Op& op) {
      static const char* const stems[] = {"alpha", "alphabet", "b", "beta-name-that-needs-memory", "gamma"};
      const std::string nm = std::string(stems[op.arg(3) % 5]) + strf("%zu", m.size());
      const int k = static_cast<int>(op.arg(2) & 0xff) % 3;
      const Outcome o = sut(op, [&] {f->registerProduct(nm, k == 0 ? mk0 : k == 1 ? mk1 : mk2);});
      if (o == Done) m.push_back(std::make_pair(nm, k));
    }
    void verify(bool full) {
      const F& c = *f;
      if (c.empty() != m.empty()) throw Violation("wrong-content", "empty() of a NameFactory is wrong");
      for (size_t i = full ? 0 : m.size() > 3 ? m.size() - 3 : 0; i < m.size(); ++i) {
        int id = -1;
        sutOk("create", [&] {
          std::unique_ptr<Product> p = c.createNullOnUnknown(m[i].first);
          id = p.get() == 0 ? -1 : p->id();
        });
        if (id != m[i].second) throw Violation("wrong-content", strf("a NameFactory makes product %d for a name of product %d", id, m[i].second));
      }
      bool other = false;
      sutOk("create", [&] {other = c.createNullOnUnknown(strf("beta%zu", m.size())).get() != 0;});
      if (other) throw Violation("wrong-content", "a NameFactory makes a product for a name that is not registered with it");
      g.state(mix64(m.size() + 900000) ^ mix64(g.firedInRun));
    }
  };

  Thing* make(i64 kind, const Op& op) {
    switch (kind) {
    case 0: return makeQueue<mathic::TourTree<Conf> >(op);
    case 1: return makeQueue<mathic::StlSet<Conf> >(op);
    case 2: return makeQueue<mathic::Heap<Conf> >(op);
    case 3: return makeTree<false>(op);
    case 4: return makeTree<true>(op);
    case 5: {
      std::unique_ptr<Tri> t(new Tri());
      sutOk("construction", [&] {t->t.reset(new mathic::BitTriangle());});
      return t.release();
    }
    case 6: {
      std::unique_ptr<Printer> t(new Printer());
      sutOk("construction", [&] {t->p.reset(new mathic::ColumnPrinter());});
      t->m = t->printed();
      return t.release();
    }
    default: {
      std::unique_ptr<Factory> t(new Factory());
      sutOk("construction", [&] {t->f.reset(new mathic::NameFactory<Product>("product"));});
      return t.release();
    }
    }
  }

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void step(const Op& op);
    void put(size_t slot, Thing* t) {_t[slot].reset(t);}
    void fresh(size_t slot) {
      _t[slot].reset();
      Op plain(ONew);
      plain.add(0).add(0).add(7).add(0);
      _t[slot].reset(make(_kind, plain));
    }
    const Plan& _plan;
    i64 _kind;
    std::vector<std::unique_ptr<Thing> > _t;
  };

  void Sim::step(const Op& op) {
    const size_t a = static_cast<size_t>(op.arg(0)) % _t.size();
    const size_t b = static_cast<size_t>(op.arg(1)) % _t.size();
    Thing& t = *_t[a];
    g.log(40 + op.kind, a * 8 + b);
    switch (op.kind) {
    case ONew: {
      std::unique_ptr<Thing> n(make(_kind, op));
      if (n.get() != 0) _t[a] = std::move(n);
      break;
    }
    case OCopy: {
      if (!t.canCopy()) break;
      std::unique_ptr<Thing> n(t.copy(op));
      if (n.get() == 0) {
        g.probe("failed copies");
        t.verify(true);
        break;
      }
      g.probe("copies");
      n->verify(true);
      if (a != b) _t[b] = std::move(n);
      else _t[a] = std::move(n); // the original goes away, the copy stays
      break;
    }
    case OMove: {
      if (!t.canMove()) break;
      std::unique_ptr<Thing> n(t.move(op));
      if (n.get() == 0) {
        g.probe("failed moves");
        fresh(a);
        break;
      }
      g.probe("moves");
      n->verify(true);
      // what is left of a moved object can be destructed before or after
      if (_kind == 3 || _kind == 4) {
        t.verify(true); // documented by its move constructor: an empty tree
        if (op.arg(2) & 1) {
          _t[b] = std::move(n);
          break;
        }
      }
      if (a == b) {
        _t[a] = std::move(n);
      } else {
        _t[b] = std::move(n);
        fresh(a);
      }
      break;
    }
    case OAssign:
      if (!t.canAssign()) break;
      if (t.assign(op, *_t[b])) g.probe("assignments");
      else {
        g.probe("failed assignments");
        if (a != b) {
          _t[b]->verify(true);
          fresh(a);
        } else
          fresh(a);
      }
      break;
    case OSwap:
      if (!t.canSwap()) break;
      t.swap(*_t[b]);
      break;
    case OChange: t.change(op); break;
    case OMany: {
      Op one(op);
      one.kind = OChange;
      for (i64 i = 0; i < op.arg(4); ++i) {
        one.a[2] = static_cast<i64>(mix64(static_cast<u64>(op.arg(2) + i)) % 1000);
        one.a[3] = op.arg(3) + i;
        t.change(i == op.arg(5) ? one : [&] {Op p(one); p.fault = 0; return p;}());
      }
      break;
    }
    case OWrite: t.write(op); break;
    case OShrink: t.shrink(op); break;
    case OClear: t.clear(); break;
    case OGrow: t.grow(op); break;
    case OConfig: t.config(op); break;
    case ODrain: t.drain(); break;
    case ODrop: fresh(a); break;
    case OWalk:
      for (int i = 0; i < 12; ++i) t.walk(mix64(static_cast<u64>(op.arg(2) * 16 + i)));
      break;
    }
    for (size_t i = 0; i < _t.size(); ++i) _t[i]->verify(false);
  }

  void Sim::run() {
    keys.clear();
    _kind = _plan.get("kind") % 8;
    const size_t n = static_cast<size_t>(std::min<i64>(5, std::max<i64>(1, _plan.get("objects", 2))));
    _t.resize(n);
    for (size_t i = 0; i < n; ++i) fresh(i);
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < n; ++i) _t[i]->verify(true);
    for (size_t i = 0; i < n; ++i) {
      _t[i]->drain();
      for (size_t k = 0; k < n; ++k) _t[k]->verify(false);
    }
    _t.clear();
    g.checkFlag();
    static const char* const names[] = {"TourTree", "StlSet", "Heap", "ComTree", "ComTree with fast index", "BitTriangle", "ColumnPrinter", "NameFactory"};
    g.probe(strf("runs of %s", names[_kind]).c_str());
  }
}

namespace sim {
  const char* const opNames[] = {"new", "copy", "move", "assign", "swap", "change", "many", "write", "shrink", "clear", "grow", "config", "drain", "drop", "walk"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C19" || p == "C20";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    const bool tree = plan.prop == "C20";
    const i64 kind = tree ? rng.range(3, 4) : rng.range(0, 7);
    plan.set("kind", kind);
    const i64 objects = tree ? rng.range(1, 3) : rng.range(2, 5);
    plan.set("objects", objects);
    const bool faults = rng.chance(tree ? 65 : 60);
    const int faultPercent = rng.chance(50) ? 25 : 70;
    const i64 keyRange = rng.chance(40) ? rng.range(1, 8) : 1000000;
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(8));
    w[OChange] += 14;
    w[OMany] = static_cast<int>(rng.below(5));
    w[ONew] = w[ODrop] = w[ODrain] = 1;
    w[OClear] = static_cast<int>(rng.below(2));
    w[OCopy] += tree ? 1 : 6;
    w[OMove] += tree ? 0 : 3;
    w[OWalk] = tree ? 6 : kind == 3 || kind == 4 ? 1 : 0;
    if (kind != 3 && kind != 4) w[OGrow] = w[OSwap] = 0;
    else w[OGrow] = std::min(w[OGrow], 1);
    i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 220 : 80);
    // Rarely tens of thousands of entries.
    const bool huge = kind <= 4 && rng.below(thorough ? 3000 : 6000) == 0;
    if (huge) n = rng.range(2, 10);
    for (i64 i = 0; i < n; ++i) {
      if (huge && i == 0) {
        Op op(OMany);
        const i64 c = kind >= 3 ? rng.range(30000, 70000) : rng.range(2000, 6000);
        op.add(0).add(0).add(static_cast<i64>(rng.below(keyRange))).add(static_cast<i64>(rng.below(1u << 30))).add(c).add(rng.below(c));
        plan.ops.push_back(op);
        continue;
      }
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(rng.below(objects)).add(rng.below(objects)).add(static_cast<i64>(rng.below(keyRange))).add(static_cast<i64>(rng.below(1u << 20)));
      if (op.kind == OMany) op.add(rng.small(rng.chance(10) ? 200 : 40)).add(rng.below(30));
      if (faults && rng.chance(faultPercent)) {
        std::vector<int> kinds(1, FAlloc);
        kinds.push_back(FCopy);
        if (kind <= 1) kinds.push_back(FCompare);
        drawFault(rng, op, kinds, op.kind == OCopy || op.kind == OAssign ? 40 : op.kind == OGrow ? 20 : 3);
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
