#include "pq_impl.h"
namespace pq {
  namespace {
    template<bool FI, bool D> struct HeapConf: ConfBase {
      HeapConf(const ConfBase& c): ConfBase(c) {}
      static const bool fastIndex = FI;
      static const bool supportDeduplication = D;
    };
    struct PlainConf: ConfBase {
      PlainConf(const ConfBase& c): ConfBase(c) {}
      static const bool fastIndex = false;
      static const bool supportDeduplication = false;
    };
    template<bool FI, bool D> IQueue* heap(const ConfBase& c) {
      typedef HeapConf<FI, D> C;
      const C conf(c);
      return new QueueImpl<mathic::Heap<C>, D>(conf);
    }
  }
  IQueue* makeSmall(int kind, int flags, const ConfBase& c) {
    if (kind == KHeap) switch (flags & 3) {
      case 0: return heap<0, 0>(c);
      case 1: return heap<1, 0>(c);
      case 2: return heap<0, 1>(c);
      default: return heap<1, 1>(c);
    }
    if (kind == KTour) return new QueueImpl<mathic::TourTree<PlainConf>, false>(PlainConf(c));
    return new QueueImpl<mathic::StlSet<PlainConf>, false>(PlainConf(c));
  }
}
