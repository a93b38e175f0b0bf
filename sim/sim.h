// Deterministic simulation core shared by every check in /verif.
//
// One 64-bit integer (VERIF_SEED mixed with property id and run index)
// decides a whole run.  generate() turns it into an explicit Plan - a
// configuration plus a list of operations, each with an optional fault to
// inject at the n-th fault point the operation reaches.  execute() is a pure
// function of the Plan and the code under test, so that a Plan file is a
// complete, exactly repeatable replay file, and shrinking means deleting or
// simplifying lines of it.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <utility>

namespace sim {
  typedef std::uint64_t u64;
  typedef std::int64_t i64;

  inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }

  // The only source of randomness. Used by generate() only.
  class Rng {
  public:
    explicit Rng(u64 seed): _s(seed) {}
    u64 next() {return mix64(_s++ * 0x2545F4914F6CDD1Dull + 0x1234567);}
    // uniform in [0,n)
    u64 below(u64 n) {return n == 0 ? 0 : next() % n;}
    i64 range(i64 lo, i64 hi) {return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1)));}
    bool chance(int percent) {return static_cast<int>(below(100)) < percent;}
    template<class T> const T& pick(const std::vector<T>& v) {return v[below(v.size())];}
    // index drawn with the given weights
    size_t weighted(const std::vector<int>& w) {
      i64 sum = 0;
      for (size_t i = 0; i < w.size(); ++i) sum += w[i];
      if (sum <= 0) return 0;
      i64 x = static_cast<i64>(below(static_cast<u64>(sum)));
      for (size_t i = 0; i < w.size(); ++i) {
        if (x < w[i]) return i;
        x -= w[i];
      }
      return w.size() - 1;
    }
    // 1..cap, small numbers likely
    i64 small(i64 cap) {
      i64 lim = 1;
      while (lim < cap && chance(60)) lim *= 2;
      if (lim > cap) lim = cap;
      return range(1, lim);
    }
  private:
    u64 _s;
  };

  // Fault kinds. What actually happens at a fault point:
  //  FAlloc    operator new inside the code under test throws bad_alloc
  //  others    the user-supplied callback of that kind throws SimFault
  enum Fault {
    FNone = 0, FAlloc, FCompare, FDedup, FCopy, FVisit, FDivides, FExponent,
    FLess, FPairData, FConstruct, FOutput, FHash, FEqual, FStream, FAny, FaultCount
  };
  const char* faultName(int f);
  int faultFromName(const std::string& s);

  struct Op {
    Op(): kind(0), fault(FNone), at(0), len(0) {}
    explicit Op(int k): kind(k), fault(FNone), at(0), len(0) {}
    int kind;
    std::vector<i64> a;
    int fault; // kind of fault to inject
    i64 at;    // fires at the at-th (1-based) fault point of that kind
    i64 len;   // how many consecutive fault points fail
    i64 arg(size_t i) const {return i < a.size() ? a[i] : 0;}
    Op& add(i64 v) {a.push_back(v); return *this;}
  };

  struct Plan {
    Plan(): seed(0), index(0) {}
    std::string group; // empty, or "C26." in a build with assertions, "C30." with checks for undefined behaviour, "C31." with mask statistics
    std::string prop;
    u64 seed;
    u64 index;
    std::vector<std::pair<std::string, i64> > cfg;
    std::vector<Op> ops;
    i64 get(const char* name, i64 def = 0) const {
      for (size_t i = 0; i < cfg.size(); ++i)
        if (cfg[i].first == name) return cfg[i].second;
      return def;
    }
    void set(const char* name, i64 v) {
      for (size_t i = 0; i < cfg.size(); ++i)
        if (cfg[i].first == name) {cfg[i].second = v; return;}
      cfg.push_back(std::make_pair(std::string(name), v));
    }
  };

  // A property violation. cls is a short stable class used when minimising.
  struct Violation {
    Violation(const std::string& c, const std::string& m): cls(c), msg(m) {}
    std::string cls;
    std::string msg;
  };

  // Thrown by simulated user callbacks.
  struct SimFault: public std::runtime_error {
    SimFault(): std::runtime_error("injected callback failure") {}
  };

  struct Stats {
    Stats();
    u64 runs, ops, nontrivial, faultRuns, cleanRuns, simTimeMs;
    u64 fired[FaultCount];
    u64 armed[FaultCount];
    std::map<std::string, u64> probes;
  };

  // ---------------------------------------------------------------- context
  // Global simulator state for the run in progress. One thread, one run.
  struct Ctx {
    Ctx();
    void beginRun();
    void endRunChecks(); // leaks, lifetime flags; throws Violation

    // event log: hashed always, printed when verbose
    void log(u64 tag, u64 v = 0) {hash = mix64(hash ^ (tag * 0x100000001b3ull) ^ mix64(v));}
    void say(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void probe(const char* name) {++stats.probes[name];}
    void state(u64 h); // distinct-state measure

    // arm the fault of op for the next Sut section; disarm afterwards
    void arm(const Op& op);
    void disarm();
    // A fault point of the given kind; returns true if it must fail now.
    bool point(int kind) {
      ++pointsHit;
      if (!armedFault || suppress) return false;
      if (armedFault != kind && !(armedFault == FAny && kind != FAlloc && kind != FCopy)) return false;
      return countDown(kind);
    }
    bool countDown(int kind);
    void throwAt(int kind) {
      if (!suppress) {
        ++calls[kind];
        if (onCallback) onCallback(); // a simulated caller may act here
      }
      if (point(kind)) throw SimFault();
    }
    void (*onCallback)();
    // ArenaPlain: growing an arena or pool is an allocation like any other.
    // ArenaSafe: growing the shared scratch arena never fails.
    // ArenaOnly: no allocation but growing the shared scratch arena fails.
    enum ArenaMode {ArenaPlain, ArenaSafe, ArenaOnly};
    int arenaMode;

    // sticky error noticed where throwing is impossible
    void flag(const char* cls, const std::string& msg);
    void checkFlag() const {if (!flagCls.empty()) throw Violation(flagCls, flagMsg);}

    u64 divisible; // calls of divides() that returned true
    u64 calls[FaultCount]; // simulated user callbacks made in this run
    u64 hash;
    bool verbose;
    int armedFault;
    i64 countdown, failLen;
    bool faultFired; // since arm()
    u64 firedInRun;
    int suppress;    // >0: no faults
    u64 pointsHit;
    u64 opsInRun;
    std::string flagCls, flagMsg;
    Stats stats;
    unsigned char* bitmap;
    i64 liveEntries; // tracked entry objects alive
  };
  extern Ctx g;

  // ------------------------------------------------------------- allocation
  // While depth > 0, operator new is inside the code under test: it is a
  // fault point and its blocks are tracked until they are released.
  struct AllocState {
    int depth;
    u64 allocs;
    u64 liveBlocks;
    u64 liveBytes;
  };
  extern AllocState g_alloc;
  void allocReset();           // forget tracked blocks (start of run)
  std::string allocDescribe(); // sizes of blocks still alive

  // Marks code under test.
  struct SutScope {
    SutScope() {++g_alloc.depth;}
    ~SutScope() {--g_alloc.depth;}
  };
  // Marks harness code called back from the code under test.
  struct CbScope {
    CbScope(): _saved(g_alloc.depth) {g_alloc.depth = 0;}
    ~CbScope() {g_alloc.depth = _saved;}
    int _saved;
  };

  enum Outcome {Done, NoMemory, Faulted, Other};
  const char* outcomeName(int o);

  // Runs f as code under test with op's fault armed.
  struct ArmState { // sections nest: save and restore what is armed
    ArmState(): depth(g_alloc.depth), armed(g.armedFault), cd(g.countdown), fl(g.failLen), fired(g.faultFired) {}
    void restore() {
      g_alloc.depth = depth;
      g.armedFault = armed;
      g.countdown = cd;
      g.failLen = fl;
      g.faultFired = fired;
    }
    int depth, armed;
    i64 cd, fl;
    bool fired;
  };

  template<class F>
  Outcome sut(const Op& op, F f) {
    ArmState saved;
    g.arm(op);
    Outcome o = Done;
    try {
      SutScope scope;
      f();
    } catch (const Violation&) {
      saved.restore();
      throw;
    } catch (const SimFault&) {o = Faulted;}
    catch (const std::bad_alloc&) {o = NoMemory;}
    catch (const std::exception& e) {
      CbScope cb;
      o = Other;
      g.say("exception: %s", e.what());
    } catch (...) {
      o = Other;
    }
    const bool fired = g.faultFired;
    saved.restore();
    g.log(77, static_cast<u64>(o));
    g.checkFlag();
    if ((o == NoMemory || o == Faulted) && !fired)
      throw Violation("spurious-exception", "operation threw although nothing failed in this operation");
    return o;
  }
  extern const Op noFault;
  // Runs f as code under test with nothing failing: it must not throw.
  template<class F>
  void sutOk(const char* what, F f) {
    const Outcome o = sut(noFault, f);
    if (o != Done)
      throw Violation("unexpected-exception", std::string(what) + " threw although nothing failed");
  }

  std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

  // ----------------------------------------------------------- run interface
  // Implemented by each harness.
  extern const char* const opNames[];
  extern const size_t opCount;
  bool harnessKnows(const std::string& prop);
  void harnessGenerate(Rng& rng, bool thorough, Plan& plan);
  void harnessExecute(const Plan& plan);

  void arenaReset();
  // How many of n simple calls to make in one operation. Builds with assertions
  // look at everything again after every call.
  inline i64 bulk(i64 n) {
#ifdef MATHIC_DEBUG
    if (n > 150) n = 150;
#endif
    return n;
  }
  // Attaches a fault drawn at random from kinds to op.
  void drawFault(Rng& rng, Op& op, const std::vector<int>& kinds, i64 scale);
}

#endif
