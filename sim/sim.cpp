#include <malloc.h>
#include "sim.h"
#ifdef MATHIC_TRACK_DIV_MASK_HIT_RATIO
#include "maskstats.h"
#endif

#include <memtailor.h>

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <set>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <ctime>
#include <unistd.h>

namespace sim {
  Ctx g;
  AllocState g_alloc = {0, 0, 0, 0};
  const Op noFault;

  static const char* const faultNames[FaultCount] = {
    "none", "alloc", "compare", "dedup", "copy", "visit", "divides",
    "exponent", "less", "pairdata", "construct", "output", "hash", "equal",
    "stream", "any"
  };
  const char* faultName(int f) {return faultNames[f];}
  int faultFromName(const std::string& s) {
    for (int i = 0; i < FaultCount; ++i)
      if (s == faultNames[i]) return i;
    return -1;
  }
  const char* outcomeName(int o) {
    static const char* const n[] = {"done", "no-memory", "callback-threw", "other-exception"};
    return n[o];
  }

  std::string strf(const char* fmt, ...) {
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
  }

  Stats::Stats(): runs(0), ops(0), nontrivial(0), faultRuns(0), cleanRuns(0), simTimeMs(0) {
    for (int i = 0; i < FaultCount; ++i) fired[i] = armed[i] = 0;
  }

  Ctx::Ctx(): onCallback(0), arenaMode(ArenaPlain), hash(0), verbose(false), armedFault(0), countdown(0), failLen(0),
    faultFired(false), firedInRun(0), suppress(0), pointsHit(0), opsInRun(0),
    bitmap(0), liveEntries(0) {}

  void Ctx::say(const char* fmt, ...) {
    if (!verbose) return;
    CbScope cb;
    va_list ap;
    va_start(ap, fmt);
    fputs("    ", stdout);
    vfprintf(stdout, fmt, ap);
    fputs("\n", stdout);
    fflush(stdout);
    va_end(ap);
  }

  static const size_t bitmapBits = size_t(1) << 24;

  void Ctx::state(u64 h) {
    if (bitmap == 0) return;
    h = mix64(h) & (bitmapBits - 1);
    unsigned char* p = bitmap + (h >> 3);
    const unsigned char m = static_cast<unsigned char>(1u << (h & 7));
    if (!(*p & m)) __sync_fetch_and_or(p, m);
  }

  void Ctx::arm(const Op& op) {
    armedFault = op.fault;
    countdown = op.at;
    failLen = op.len > 0 ? op.len : 1;
    faultFired = false;
    if (armedFault) ++stats.armed[armedFault];
  }
  void Ctx::disarm() {armedFault = 0;}

  bool Ctx::countDown(int kind) {
    if (countdown > 1) {--countdown; return false;}
    if (failLen <= 0) return false;
    --failLen;
    countdown = 1;
    if (!faultFired) ++firedInRun;
    faultFired = true;
    ++stats.fired[kind];
    log(99, static_cast<u64>(kind));
    if (verbose) say("!! fault %s fires", faultName(kind));
    return true;
  }

  void Ctx::flag(const char* cls, const std::string& msg) {
    if (!flagCls.empty()) return;
    CbScope cb;
    flagCls = cls;
    flagMsg = msg;
  }

  // --------------------------------------------------------- allocation seam
  namespace {
    struct Slot {void* p; size_t size; int kind;};
    Slot* table = 0;
    size_t tableCap = 0, tableUsed = 0; // used counts tombstones
    void* const tomb = reinterpret_cast<void*>(1);

    size_t hashPtr(void* p) {return mix64(reinterpret_cast<u64>(p));}
    void tableInsertRaw(Slot s) {
      size_t i = hashPtr(s.p) & (tableCap - 1);
      while (table[i].p != 0 && table[i].p != tomb) i = (i + 1) & (tableCap - 1);
      if (table[i].p == 0) ++tableUsed;
      table[i] = s;
    }
    void tableGrow() {
      Slot* old = table;
      const size_t oldCap = tableCap;
      if (tableCap == 0) tableCap = 4096;
      else if (g_alloc.liveBlocks * 4 >= tableCap) tableCap *= 2;
      table = static_cast<Slot*>(std::calloc(tableCap, sizeof(Slot)));
      tableUsed = 0;
      for (size_t i = 0; i < oldCap; ++i)
        if (old[i].p != 0 && old[i].p != tomb) tableInsertRaw(old[i]);
      std::free(old);
    }
    void track(void* p, size_t size, int kind) {
      if ((tableUsed + 1) * 2 > tableCap) tableGrow();
      Slot s = {p, size, kind};
      tableInsertRaw(s);
      ++g_alloc.liveBlocks;
      g_alloc.liveBytes += size;
    }
    void untrack(void* p, int kind) {
      if (g_alloc.liveBlocks == 0 || tableCap == 0) return;
      size_t i = hashPtr(p) & (tableCap - 1);
      while (table[i].p != 0) {
        if (table[i].p == p) {
          if (table[i].kind != kind)
            g.flag("mismatched-delete", "memory from new released with delete[] or the reverse");
          --g_alloc.liveBlocks;
          g_alloc.liveBytes -= table[i].size;
          table[i].p = tomb;
          return;
        }
        i = (i + 1) & (tableCap - 1);
      }
    }
    const u64 byteLimit = u64(3) << 30;

    void* simNew(size_t size, int kind) {
      if (g_alloc.depth > 0) {
        ++g_alloc.allocs;
        if (g.arenaMode != Ctx::ArenaOnly && g.point(FAlloc)) return 0;
        if (size > byteLimit || g_alloc.liveBytes + size > byteLimit) {
          static const char msg[] = "SIM: runaway allocation by the code under test\n";
          ssize_t r = write(2, msg, sizeof msg - 1);
          (void)r;
          _exit(79);
        }
      }
      void* p = std::malloc(size == 0 ? 1 : size);
      if (p == 0) return 0;
#ifdef SIM_UNDEFINED // AddressSanitizer does this in the other builds
      std::memset(p, 190, std::min(size, size_t(65536)));
#endif
      if (g_alloc.depth > 0) track(p, size, kind);
      return p;
    }
    void simDelete(void* p, int kind) {
      if (p == 0) return;
      untrack(p, kind);
#ifdef SIM_UNDEFINED
      std::memset(p, 223, std::min(malloc_usable_size(p), size_t(65536)));
#endif
      std::free(p);
    }
  }

  void allocReset() {
    if (table) std::memset(table, 0, tableCap * sizeof(Slot));
    tableUsed = 0;
    g_alloc.depth = 0;
    g_alloc.allocs = g_alloc.liveBlocks = g_alloc.liveBytes = 0;
  }

  std::string allocDescribe() {
    std::vector<size_t> sizes;
    for (size_t i = 0; i < tableCap; ++i)
      if (table[i].p != 0 && table[i].p != tomb) sizes.push_back(table[i].size);
    std::sort(sizes.begin(), sizes.end());
    std::string s = strf("%zu blocks of sizes", sizes.size());
    for (size_t i = 0; i < sizes.size() && i < 8; ++i) s += strf(" %zu", sizes[i]);
    return s;
  }
}

// The allocator seam: every operator new in the process, including the ones
// made inside libmemtailor and libstdc++, comes through here.
void* operator new(size_t n) {void* p = sim::simNew(n, 1); if (!p) throw std::bad_alloc(); return p;}
void* operator new[](size_t n) {void* p = sim::simNew(n, 2); if (!p) throw std::bad_alloc(); return p;}
void* operator new(size_t n, const std::nothrow_t&) noexcept {return sim::simNew(n, 1);}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {return sim::simNew(n, 2);}
void operator delete(void* p) noexcept {sim::simDelete(p, 1);}
void operator delete[](void* p) noexcept {sim::simDelete(p, 2);}
void operator delete(void* p, size_t) noexcept {sim::simDelete(p, 1);}
void operator delete[](void* p, size_t) noexcept {sim::simDelete(p, 2);}
void operator delete(void* p, const std::nothrow_t&) noexcept {sim::simDelete(p, 1);}
void operator delete[](void* p, const std::nothrow_t&) noexcept {sim::simDelete(p, 2);}

// The seam between mathic and libmemtailor. The installed libmemtailor is not
// under test and has a defect of its own: MemoryBlocks::Block::newBlock links
// the current block to itself before it allocates the next one, so that if
// that allocation fails the same memory is released twice later. Growing an
// arena or a pool is therefore one fault point that fails before libmemtailor
// has done anything, which is what the code under test may rely on.
namespace {
  template<class Fn> Fn realFn(Fn& cache, const char* name) {
    if (cache == 0) {
      cache = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, name));
      if (cache == 0) {
        static const char msg[] = "SIM: libmemtailor seam not found\n";
        ssize_t r = write(2, msg, sizeof msg - 1);
        (void)r;
        _exit(78);
      }
    }
    return cache;
  }
  struct Suppress {
    Suppress() {++sim::g.suppress;}
    ~Suppress() {--sim::g.suppress;}
  };
  void growPoint(bool shared) {
    const int mode = sim::g.arenaMode;
    if (mode == (shared ? sim::Ctx::ArenaSafe : sim::Ctx::ArenaOnly)) return;
    if (sim::g_alloc.depth > 0 && sim::g.point(sim::FAlloc)) throw std::bad_alloc();
  }
}
void memt::Arena::growCapacity(size_t needed) {
  typedef void (*Fn)(void*, size_t);
  static Fn cache = 0;
  growPoint(this == &memt::Arena::getArena());
  Suppress s;
  realFn(cache, "_ZN4memt5Arena12growCapacityEm")(this, needed);
}
void memt::BufferPool::growCapacity() {
  typedef void (*Fn)(void*);
  static Fn cache = 0;
  growPoint(false);
  Suppress s;
  realFn(cache, "_ZN4memt10BufferPool12growCapacityEv")(this);
}

namespace sim {
  void arenaReset() {
    memt::Arena::getArena().freeAllAllocsAndBackingMemory();
  }

  void Ctx::beginRun() {
    for (int i = 0; i < FaultCount; ++i) calls[i] = 0;
    divisible = 0;
    g_alloc.depth = 0;
    arenaReset();
    allocReset();
    hash = 0x5eed;
    armedFault = 0;
    faultFired = false;
    firedInRun = 0;
    suppress = 0;
    onCallback = 0;
    arenaMode = ArenaPlain;
    pointsHit = 0;
    opsInRun = 0;
    flagCls.clear();
    flagMsg.clear();
    liveEntries = 0;
  }

  void Ctx::endRunChecks() {
    checkFlag();
    if (memt::Arena::getArena().getAllocatedMemoryUse() != 0)
      throw Violation("arena-not-restored", "the shared scratch arena still holds allocations");
    arenaReset();
    if (liveEntries != 0)
      throw Violation("entry-lifetime", strf("%lld entry objects never destructed (negative: destructed twice)", (long long)liveEntries));
    if (g_alloc.liveBlocks != 0)
      throw Violation("leak", "memory leaked: " + allocDescribe());
  }

  void drawFault(Rng& rng, Op& op, const std::vector<int>& kinds, i64 scale) {
    if (kinds.empty()) return;
    op.fault = rng.pick(kinds);
    op.at = rng.small(scale);
    op.len = op.fault == FAlloc && rng.chance(30) ? 1000000 : 1;
  }

  // ------------------------------------------------------------ plan text i/o
  static void writePlan(std::ostream& out, const Plan& p) {
    out << "plan " << p.group << p.prop << ' ' << p.seed << ' ' << p.index << '\n';
    for (size_t i = 0; i < p.cfg.size(); ++i)
      out << "cfg " << p.cfg[i].first << ' ' << p.cfg[i].second << '\n';
    for (size_t i = 0; i < p.ops.size(); ++i) {
      const Op& op = p.ops[i];
      out << "op " << opNames[op.kind];
      for (size_t j = 0; j < op.a.size(); ++j) out << ' ' << op.a[j];
      if (op.fault) out << " ! " << faultName(op.fault) << ' ' << op.at << ' ' << op.len;
      out << '\n';
    }
  }

  // "C26.C06" is the histories of C06 in a build with assertions, for C26, and "C30.C06"
  // in a build in which undefined behaviour ends the run, for C30, and so on.
  static void splitProp(const std::string& s, Plan& p) {
    const size_t dot = s.find('.');
    p.group = dot == std::string::npos ? "" : s.substr(0, dot + 1);
    p.prop = s.substr(p.group.size());
  }
  static bool knows(const std::string& s) {
    Plan p;
    splitProp(s, p);
#if defined(MATHIC_DEBUG)
    const char* const group = "C26.";
#elif defined(SIM_UNDEFINED)
    const char* const group = "C30.";
#elif defined(MATHIC_TRACK_DIV_MASK_HIT_RATIO)
    const char* const group = "C31.";
#else
    const char* const group = "";
#endif
    return p.group == group && harnessKnows(p.prop);
  }

  static bool readPlan(std::istream& in, Plan& p) {
    std::string line;
    bool got = false;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::string w;
      if (!(ls >> w) || w[0] == '#') continue;
      if (w == "plan") {
        ls >> w >> p.seed >> p.index;
        splitProp(w, p);
        got = true;
      } else if (w == "cfg") {
        std::string n;
        i64 v;
        if (!(ls >> n >> v)) return false;
        p.set(n.c_str(), v);
      } else if (w == "op") {
        std::string n;
        ls >> n;
        Op op;
        op.kind = -1;
        for (size_t i = 0; i < opCount; ++i)
          if (n == opNames[i]) op.kind = static_cast<int>(i);
        if (op.kind < 0) return false;
        while (ls >> w) {
          if (w == "!") {
            std::string f;
            ls >> f >> op.at >> op.len;
            op.fault = faultFromName(f);
            if (op.fault < 0) return false;
          } else
            op.a.push_back(std::strtoll(w.c_str(), 0, 10));
        }
        p.ops.push_back(op);
      }
    }
    return got;
  }

  static std::string jsonEscape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
      const unsigned char c = static_cast<unsigned char>(s[i]);
      if (c == '"' || c == '\\') {r += '\\'; r += static_cast<char>(c);}
      else if (c < 32 || c > 126) r += strf("\\u%04x", c);
      else r += static_cast<char>(c);
    }
    return r;
  }

  static u64 propHash(const std::string& s) {
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); ++i) h = (h ^ static_cast<unsigned char>(s[i])) * 1099511628211ull;
    return h;
  }

  static Plan makePlan(const std::string& prop, u64 seed, u64 index, bool thorough) {
    Plan p;
    splitProp(prop, p);
    p.seed = seed;
    p.index = index;
    Rng rng(mix64(seed ^ propHash(prop)) ^ mix64(index * 2654435761ull + 17));
    harnessGenerate(rng, thorough, p);
#ifdef MATHIC_DEBUG
    p.set("tooequal", 0); // refused insertions end a program with assertions
#endif
    return p;
  }

  // returns true if ok
  static bool runOnce(const Plan& p, std::string& cls, std::string& msg) {
    g.beginRun();
    bool ok = true;
    try {
#ifdef MATHIC_TRACK_DIV_MASK_HIT_RATIO
      MaskStats stats(p);
      harnessExecute(p);
      stats.finish();
#else
      harnessExecute(p);
#endif
      g.endRunChecks();
    } catch (const Violation& v) {
      g_alloc.depth = 0;
      g.disarm();
      cls = v.cls;
      msg = v.msg;
      ok = false;
    }
    g.disarm();
    return ok;
  }

  // Memory that is kept for the next time, in a static buffer say, is no leak.
  // What leaks is lost again every time the same plan runs.
  static bool runPlan(const Plan& p, std::string& cls, std::string& msg) {
    bool ok = runOnce(p, cls, msg);
    for (int again = 0; !ok && cls == "leak" && again < 2; ++again)
      ok = runOnce(p, cls, msg);
    ++g.stats.runs;
    g.stats.ops += g.opsInRun;
    if (g.firedInRun) ++g.stats.faultRuns; else ++g.stats.cleanRuns;
    return ok;
  }

  static void onHang(int) {
    static const char msg[] = "SIM: hang (CPU time limit of one run exceeded)\n";
    ssize_t r = write(2, msg, sizeof msg - 1);
    (void)r;
    _exit(78);
  }
  static void cpuLimit(int seconds) {
    struct itimerval t;
    std::memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, 0);
  }
  static const int runCpuSeconds = 30;

  static int doExec(const std::string& file, bool verbose) {
    std::ifstream in(file.c_str());
    Plan p;
    if (!in || !readPlan(in, p)) {
      fprintf(stderr, "cannot read plan %s\n", file.c_str());
      return 2;
    }
    if (!knows(p.group + p.prop)) {
      fprintf(stderr, "unknown property %s\n", p.prop.c_str());
      return 2;
    }
    g.verbose = verbose;
    std::string cls, msg;
    cpuLimit(runCpuSeconds);
    const bool ok = runPlan(p, cls, msg);
    cpuLimit(0);
    if (ok)
      printf("RESULT {\"status\":\"ok\",\"hash\":\"%016llx\",\"fired\":%llu}\n",
        (unsigned long long)g.hash, (unsigned long long)g.firedInRun);
    else
      printf("RESULT {\"status\":\"violation\",\"class\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"fired\":%llu}\n",
        jsonEscape(cls).c_str(), jsonEscape(msg).c_str(), (unsigned long long)g.hash, (unsigned long long)g.firedInRun);
    fflush(stdout);
    return ok ? 0 : 1;
  }

  static double cpuNow() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); // raw: clock() and friends may be simulated
    return ts.tv_sec + ts.tv_nsec * 1e-9;
  }

  static long userMs() {
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    return u.ru_utime.tv_sec * 1000l + u.ru_utime.tv_usec / 1000;
  }

  // Runs indexes from, from+step, ... < to. Per-run records go to out.rec
  // (index, hash, flags: 3 x u64); the index of the run in progress is kept in
  // out.cur so that the parent can attribute a crash.
  static int doCampaign(const std::string& prop, u64 seed, u64 from, u64 to, u64 step,
                        bool thorough, double seconds, const std::string& out, const std::string& bitmapFile) {
    const int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 8) != 0) return 2;
    volatile u64* cur = static_cast<volatile u64*>(mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (cur == MAP_FAILED) return 2;
    *cur = ~u64(0);
    if (!bitmapFile.empty()) {
      const int bfd = open(bitmapFile.c_str(), O_RDWR | O_CREAT, 0644);
      if (bfd < 0 || ftruncate(bfd, bitmapBits / 8) != 0) return 2;
      g.bitmap = static_cast<unsigned char*>(mmap(0, bitmapBits / 8, PROT_READ | PROT_WRITE, MAP_SHARED, bfd, 0));
      if (g.bitmap == MAP_FAILED) return 2;
    }
    FILE* rec = fopen((out + ".rec").c_str(), "wb");
    if (!rec) return 2;
    const double start = cpuNow();
    std::string cls, msg;
    bool ok = true;
    u64 bad = 0;
    bool timeUp = false;
    long slowestMs = 0, before = userMs();
    u64 slowest = 0;
    for (u64 i = from; i < to; i += step) {
      if (seconds > 0 && cpuNow() - start > seconds) {timeUp = true; break;}
      *cur = i;
      cpuLimit(runCpuSeconds);
      const Plan p = makePlan(prop, seed, i, thorough);
      const u64 opsBefore = g.stats.ops;
      ok = runPlan(p, cls, msg);
      const long after = userMs();
      if (after - before > slowestMs) {slowestMs = after - before; slowest = i;}
      before = after;
      const u64 ops = g.stats.ops - opsBefore;
      const bool nontrivial = ops >= 8;
      if (nontrivial) ++g.stats.nontrivial;
      const u64 r[3] = {i, g.hash, (nontrivial ? 1u : 0u) | (g.firedInRun ? 2u : 0u) | (u64(ops) << 8)};
      fwrite(r, sizeof r, 1, rec);
      if (!ok) {bad = i; break;}
    }
    cpuLimit(0);
    *cur = ~u64(0);
    fclose(rec);
    std::ofstream js((out + ".json").c_str());
    js << "{\"runs\":" << g.stats.runs << ",\"ops\":" << g.stats.ops << ",\"nontrivial\":" << g.stats.nontrivial
       << ",\"faultRuns\":" << g.stats.faultRuns << ",\"cleanRuns\":" << g.stats.cleanRuns
       << ",\"simTimeMs\":" << g.stats.simTimeMs << ",\"timeUp\":" << (timeUp ? "true" : "false") << ",\"fired\":{";
    bool first = true;
    for (int f = 1; f < FaultCount; ++f) {
      if (!g.stats.fired[f]) continue;
      js << (first ? "" : ",") << '"' << faultName(f) << "\":" << g.stats.fired[f];
      first = false;
    }
    js << "},\"armed\":{";
    first = true;
    for (int f = 1; f < FaultCount; ++f) {
      if (!g.stats.armed[f]) continue;
      js << (first ? "" : ",") << '"' << faultName(f) << "\":" << g.stats.armed[f];
      first = false;
    }
    js << "},\"slowest\":[" << slowestMs << "," << slowest << "],\"probes\":{";
    first = true;
    for (std::map<std::string, u64>::const_iterator it = g.stats.probes.begin(); it != g.stats.probes.end(); ++it) {
      js << (first ? "" : ",") << '"' << jsonEscape(it->first) << "\":" << it->second;
      first = false;
    }
    js << "}";
    if (!ok) js << ",\"violation\":{\"index\":" << bad << ",\"class\":\"" << jsonEscape(cls) << "\",\"msg\":\"" << jsonEscape(msg) << "\"}";
    js << "}\n";
    js.close();
    return ok ? 0 : 1;
  }
}

#ifdef MATHIC_DEBUG
namespace simassert {
  void enter() {++sim::g.suppress;}
  void leave() {--sim::g.suppress;}
  void fail(const char* what, const char* file, int line) {
    const char* slash = strrchr(file, '/');
    fprintf(stderr, "SIM: assertion failed: %s (%s:%d)\n", what, slash ? slash + 1 : file, line);
    fflush(stderr);
    _exit(79);
  }
}
#endif

int main(int argc, char** argv) {
  using namespace sim;
  // Address-space randomisation off, so that nothing can depend on it.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && getenv("SIM_REEXEC") == 0) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  signal(SIGVTALRM, onHang);
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    const std::string s = argv[i];
    if (s.size() > 2 && s.substr(0, 2) == "--" && i + 1 < argc) {o[s.substr(2)] = argv[i + 1]; ++i;}
    else pos.push_back(s);
  }
  if (pos.empty()) {
    fprintf(stderr, "usage: campaign|gen|exec|trace ...\n");
    return 2;
  }
  const u64 seed = o.count("seed") ? strtoull(o["seed"].c_str(), 0, 10) : 1;
  const bool thorough = o["tier"] == "thorough";
  if (pos[0] == "exec" && pos.size() == 2) return doExec(pos[1], false);
  if (pos[0] == "trace" && pos.size() == 2) return doExec(pos[1], true);
  const std::string prop = o["prop"];
  if (!knows(prop)) {
    fprintf(stderr, "unknown property %s\n", prop.c_str());
    return 2;
  }
  if (pos[0] == "gen") {
    writePlan(std::cout, makePlan(prop, seed, strtoull(o["index"].c_str(), 0, 10), thorough));
    return 0;
  }
  if (pos[0] == "campaign") {
    return doCampaign(prop, seed, strtoull(o["from"].c_str(), 0, 10), strtoull(o["to"].c_str(), 0, 10),
      strtoull(o["step"].c_str(), 0, 10), thorough, atof(o["seconds"].c_str()), o["out"], o["bitmap"]);
  }
  return 2;
}
