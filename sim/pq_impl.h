#ifndef VERIF_PQ_IMPL_H
#define VERIF_PQ_IMPL_H
#include "pq.h"
#include <ostream>
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/StlSet.h"
#include "mathic/Geobucket.h"

namespace pq {
  // Forwards to members that some queues do not have.
  template<class Q> struct Has {static const bool forAll = true, decreaseTop = true, clear = true, size = true, move = false;};
  template<class C> struct Has<mathic::Heap<C> > {static const bool forAll = true, decreaseTop = true, clear = true, size = true, move = true;};
  template<class C> struct Has<mathic::TourTree<C> > {static const bool forAll = true, decreaseTop = true, clear = true, size = false, move = false;};
  template<class C> struct Has<mathic::StlSet<C> > {static const bool forAll = false, decreaseTop = false, clear = false, size = false, move = false;};
  template<bool b> struct If {};

  template<class Q> size_t doSize(const Q& q, If<true>) {return q.size();}
  template<class Q> size_t doSize(const Q&, If<false>) {return 0;}
  template<class Q> void doForAll(const Q& q, Visitor& v, If<true>) {q.forAll(v);}
  template<class Q> void doForAll(const Q&, Visitor&, If<false>) {}
  template<class Q> void doDecrease(Q& q, const Ent& e, If<true>) {q.decreaseTop(e);}
  template<class Q> void doDecrease(Q&, const Ent&, If<false>) {}
  template<class Q> void doClear(Q& q, If<true>) {q.clear();}
  template<class Q> void doClear(Q&, If<false>) {}
  template<class Q> void doMove(Q*& q, If<true>) {
    Q* n = new Q(std::move(*q));
    delete q;
    q = n;
  }
  template<class Q> void doMove(Q*&, If<false>) {}

  template<class Q, bool Dedup>
  class QueueImpl: public IQueue {
  public:
    typedef Has<Q> H;
    template<class C> explicit QueueImpl(const C& c): _q(new Q(c)) {}
    ~QueueImpl() {delete _q;}
    void push(const Ent& e) {_q->push(e);}
    void pushRange(const Ent* b, const Ent* e) {_q->push(b, e);}
    Ent pop() {return _q->pop();}
    Ent top() {return _q->top();}
    bool empty() {return static_cast<const Q*>(_q)->empty();}
    bool hasSize() {return H::size;}
    size_t size() {return doSize(*_q, If<H::size>());}
    bool hasForAll() {return H::forAll;}
    void forAll(Visitor& v) {doForAll(*_q, v, If<H::forAll>());}
    bool hasDecreaseTop() {return H::decreaseTop;}
    void decreaseTop(const Ent& e) {doDecrease(*_q, e, If<H::decreaseTop>());}
    bool hasClear() {return H::clear;}
    void clear() {doClear(*_q, If<H::clear>());}
    bool canMove() {return H::move;}
    void move() {doMove(_q, If<H::move>());}
    size_t memoryUse() {return static_cast<const Q*>(_q)->getMemoryUse();}
    std::string name() {return static_cast<const Q*>(_q)->getName();}
    void print(std::ostream& out) {static_cast<const Q*>(_q)->print(out);}
    bool dedup() {return Dedup;}
  private:
    Q* _q;
  };
}
#endif
