// Compiled once per PART (0..11); a part holds 16 geobucket configurations.
#include "pq_impl.h"
#ifndef PART
#error PART
#endif
namespace pq {
  namespace {
    template<int F> struct GeoConf: ConfBase {
      GeoConf(const ConfBase& c): ConfBase(c) {}
      static const bool trackFront = (F & 1) != 0;
      static const bool premerge = (F & 2) != 0;
      static const bool collectMax = (F & 4) != 0;
      static const bool minBucketBinarySearch = (F & 8) != 0;
      static const bool supportDeduplication = (F & 16) != 0;
      static const mathic::GeobucketBucketStorage bucketStorage =
        static_cast<mathic::GeobucketBucketStorage>((F / 32) % 3);
      static const size_t insertFactor = F < 96 ? 1 : 2 + (F % 3);
    };
    template<int F> IQueue* geo(const ConfBase& c) {
      typedef GeoConf<F> C;
      return new QueueImpl<mathic::Geobucket<C>, C::supportDeduplication>(C(c));
    }
  }
#define GEOCAT2(a, b) a##b
#define GEOCAT(a, b) GEOCAT2(a, b)
  IQueue* GEOCAT(makeGeoPart, PART)(int low, const ConfBase& c) {
    switch (low) {
#define G(i) case i: return geo<PART * 16 + i>(c);
      G(0) G(1) G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G(10) G(11) G(12) G(13) G(14)
      default: return geo<PART * 16 + 15>(c);
    }
  }
}
