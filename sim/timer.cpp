// Workload, reference model and oracle for Timer (C13) under a simulated
// processor clock.
#include "sim.h"
#include "simio.h"
#include <mathic/Timer.h>
#include <ctime>
#include <memory>

namespace {
  using namespace sim;

  // The simulated clock, in ticks of 1/CLOCKS_PER_SEC seconds. It moves only
  // when the plan says so: between operations, by a fixed amount each time it
  // is read and by a fixed amount for each character written to a slow stream.
  i64 g_now = 0;
  i64 g_perRead = 0;
  i64 g_perChar = 0;
  u64 g_reads = 0;
  void onChar() {g_now += g_perChar;}
}

extern "C" clock_t clock() throw() {
  ++g_reads;
  const i64 t = g_now;
  g_now += g_perRead;
  return static_cast<clock_t>(t);
}

namespace {
  struct T {
    std::unique_ptr<mathic::Timer> t;
    i64 lo, hi;   // the clock at the last reset lies in [lo,hi]
    u64 lastRead; // milliseconds, since the last reset
    T(): lo(0), hi(0), lastRead(0) {}
  };

  enum {OAdvance, OReset, ORead, OReadTwice, OPrint, OPrintFile, OShift, OCopy, ORecreate, OReadAll};

  // all values a correct timer may show for an elapsed number of ticks
  bool near(u64 ms, i64 ticks) {
    const i64 perMs = CLOCKS_PER_SEC / 1000;
    const i64 d = static_cast<i64>(ms) * perMs - ticks;
    return 2 * d <= perMs && -2 * d <= perMs;
  }
  // is there an elapsed time in [lo,hi] that rounds to ms?
  bool nearRange(u64 ms, i64 lo, i64 hi) {
    const i64 perMs = CLOCKS_PER_SEC / 1000;
    const i64 c = static_cast<i64>(ms) * perMs;
    const i64 best = c < lo ? lo : c > hi ? hi : c;
    return near(ms, best);
  }
  std::string render(u64 ms) {
    const u64 s = ms / 1000, m = s / 60, h = m / 60;
    std::string r;
    if (h != 0) r += strf("%lluh", (unsigned long long)h);
    if (h != 0 || m != 0) r += strf("%llum", (unsigned long long)(m % 60));
    return r + strf("%llu.%03llu", (unsigned long long)(s % 60), (unsigned long long)(ms % 1000));
  }

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void step(const Op& op);
    void reset(T& t) {
      t.lo = g_now;
      sutOk("reset", [&] {t.t->reset();});
      t.hi = g_now;
      t.lastRead = 0;
    }
    u64 read(T& t) {
      const i64 from = g_now;
      unsigned long ms = 0;
      sutOk("getMilliseconds", [&] {ms = t.t->getMilliseconds();});
      judge(t, ms, from, g_now, "getMilliseconds");
      return ms;
    }
    void judge(T& t, u64 ms, i64 from, i64 to, const char* what) {
      g.log(70, ms);
      if (!nearRange(ms, from - t.hi, to - t.lo))
        throw Violation("wrong-time", strf("%s gives %llu ms, between %lld and %lld microseconds have passed since the reset", what,
          (unsigned long long)ms, (long long)((from - t.hi) * (1000000 / CLOCKS_PER_SEC)), (long long)((to - t.lo) * (1000000 / CLOCKS_PER_SEC))));
      if (ms < t.lastRead)
        throw Violation("time-runs-backwards", strf("%s gives %llu ms after %llu ms", what, (unsigned long long)ms, (unsigned long long)t.lastRead));
      t.lastRead = ms;
    }
    void print(T& t, const Op& op, bool file);
    const Plan& _plan;
    std::vector<T> _ts;
  };

  // Finds the duration shown in a print-out that is complete.
  bool parse(const std::string& s, u64& ms) {
    u64 v = 0, h = 0, m = 0;
    size_t i = 0;
    bool sawH = false, sawM = false, digit = false;
    for (; i < s.size(); ++i) {
      if (s[i] >= '0' && s[i] <= '9') {v = v * 10 + static_cast<u64>(s[i] - '0'); digit = true;}
      else if (s[i] == 'h' && digit && !sawH && !sawM) {h = v; v = 0; sawH = true; digit = false;}
      else if (s[i] == 'm' && digit && !sawM) {m = v; v = 0; sawM = true; digit = false;}
      else break;
    }
    if (!digit || i >= s.size() || s[i] != '.' || s.size() != i + 4) return false;
    u64 f = 0;
    for (size_t j = i + 1; j < s.size(); ++j) {
      if (s[j] < '0' || s[j] > '9') return false;
      f = f * 10 + static_cast<u64>(s[j] - '0');
    }
    ms = ((h * 60 + m) * 60 + v) * 1000 + f;
    return s == render(ms);
  }

  void Sim::print(T& t, const Op& op, bool file) {
    Sink sink;
    sink.onChar = onChar;
    const i64 from = g_now;
    const u64 lastRead = t.lastRead;
    if (file) {
      FILE* const f = openSink(sink);
      if (f == 0) throw Violation("harness", "no FILE");
      g_perChar = op.arg(2);
      const Outcome o = sut(op, [&] {t.t->print(f);});
      g_perChar = 0;
      fclose(f);
      if (o == Other) throw Violation("unexpected-exception", "print threw");
    } else {
      SimBuf buf(sink);
      std::ostream out(&buf);
      sink.throws = op.arg(3) & 1;
      if (op.arg(3) & 2) out.exceptions(std::ios::badbit | std::ios::failbit);
      g_perChar = op.arg(2);
      const Outcome o = sut(op, [&] {if (op.arg(3) & 4) out << *t.t; else t.t->print(out);});
      g_perChar = 0;
      if (o != Done && !sink.broken) throw Violation("unexpected-exception", "print threw");
      if (sink.broken && o == Done && !out.bad() && !out.fail()) throw Violation("lost-error", "the stream failed and does not say so");
    }
    const i64 to = g_now;
    g.say("print -> %s", quote(sink.data).c_str());
    std::string s = sink.data;
    if (!sink.broken) {
      // decoration: parentheses, or a trailing unit
      if (!s.empty() && s[0] == '(' && s[s.size() - 1] == ')') s = s.substr(1, s.size() - 2);
      if (!s.empty() && s[s.size() - 1] == 's') s.erase(s.size() - 1);
      u64 ms = 0;
      if (!parse(s, ms)) throw Violation("bad-print", "a timer prints " + quote(sink.data));
      judge(t, ms, from, to, file ? "print to a FILE" : "print to a stream");
      return;
    }
    g.probe("prints cut short");
    // What arrived must be a prefix of some correct print-out. For a clock
    // that stood still there is just one or, half way, two.
    t.lastRead = lastRead;
    if (g_perRead != 0 || op.arg(2) != 0) return;
    if (!s.empty() && s[0] == '(') s.erase(0, 1);
    if (file) return; // stdio may go on after a failed write
    const i64 perMs = CLOCKS_PER_SEC / 1000;
    bool ok = false;
    for (i64 e = from - t.hi; e <= from - t.lo; e += 1) {
      const u64 ms = static_cast<u64>(e / perMs);
      if (near(ms, e) && isPrefix(s, render(ms) + "s")) ok = true;
      if (near(ms + 1, e) && isPrefix(s, render(ms + 1) + "s")) ok = true;
    }
    if (!ok) throw Violation("bad-print", "a cut short print-out reads " + quote(sink.data));
  }

  void Sim::step(const Op& op) {
    T& t = _ts[static_cast<size_t>(op.arg(0)) % _ts.size()];
    g.log(60 + op.kind, static_cast<u64>(g_now));
    const i64 before = g_now;
    switch (op.kind) {
    case OAdvance:
      g_now += op.arg(1);
      break;
    case OReset:
      reset(t);
      break;
    case ORead:
      read(t);
      break;
    case OReadTwice: {
      const u64 a = read(t);
      if (g_perRead == 0 && read(t) != a) throw Violation("wrong-time", "two readings of a stopped clock differ");
      break;
    }
    case OPrint:
      print(t, op, false);
      break;
    case OPrintFile:
      print(t, op, true);
      break;
    case OShift: { // the clock jumps to just before or after a boundary seen from this timer
      const i64 unit = op.arg(1);
      if (unit <= 0) break;
      const i64 elapsed = g_now - t.hi;
      const i64 goal = (elapsed / unit + 1) * unit + op.arg(2);
      if (goal > elapsed) g_now = t.hi + goal;
      break;
    }
    case OCopy: {
      T& o = _ts[static_cast<size_t>(op.arg(1)) % _ts.size()];
      if (&o == &t) break;
      sutOk("copy", [&] {*t.t = *o.t;});
      t.lo = o.lo;
      t.hi = o.hi;
      t.lastRead = o.lastRead;
      break;
    }
    case ORecreate:
      sutOk("destruction", [&] {t.t.reset();});
      t.lo = g_now;
      sutOk("construction", [&] {t.t.reset(new mathic::Timer());});
      t.hi = g_now;
      t.lastRead = 0;
      break;
    case OReadAll:
      for (size_t i = 0; i < _ts.size(); ++i) read(_ts[i]);
      break;
    }
    if (g_now < before) throw Violation("harness", "clock went backwards");
    u64 mag = 0;
    for (i64 e = g_now - t.hi; e > 0; e /= 4) ++mag;
    g.state(mix64(op.kind * 131 + mag) ^ mix64(_ts.size() * 8 + (g_perRead ? 1 : 0)) ^ mix64((g_now - t.hi) % 1000));
  }

  void Sim::run() {
    const size_t n = static_cast<size_t>(std::min<i64>(6, std::max<i64>(1, _plan.get("timers", 1))));
    g_now = std::max<i64>(0, _plan.get("start"));
    g_perRead = std::max<i64>(0, _plan.get("perRead"));
    g_perChar = 0;
    const i64 start = g_now;
    _ts.resize(n);
    for (size_t i = 0; i < n; ++i) {
      T& t = _ts[i];
      t.lo = g_now;
      sutOk("construction", [&] {t.t.reset(new mathic::Timer());});
      t.hi = g_now;
    }
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s at tick %lld", i, opNames[_plan.ops[i].kind], (long long)g_now);
      step(_plan.ops[i]);
    }
    for (size_t i = 0; i < n; ++i) read(_ts[i]);
    sutOk("destruction", [&] {for (size_t i = 0; i < n; ++i) _ts[i].t.reset();});
    g.stats.simTimeMs += static_cast<u64>((g_now - start) / (CLOCKS_PER_SEC / 1000));
  }
}

namespace sim {
  const char* const opNames[] = {"advance", "reset", "read", "readTwice", "print", "printFile", "shift", "copy", "recreate", "readAll"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C13";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    static const i64 units[] = {1, 500, 1000, 1000, 1000000, 1000000, 60000000ll, 60000000ll, 3600000000ll, 3600000000ll * 10, 100000, 10000};
    plan.set("timers", rng.chance(30) ? 1 : rng.range(2, 6));
    plan.set("start", rng.chance(30) ? 0 : static_cast<i64>(rng.below(u64(1) << (rng.below(42)))));
    plan.set("perRead", rng.chance(60) ? 0 : static_cast<i64>(rng.below(rng.chance(60) ? 20 : 3000)));
    const bool faults = rng.chance(50);
    std::vector<int> kinds;
    kinds.push_back(FStream);
    kinds.push_back(FStream);
    kinds.push_back(FAlloc);
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = 1 + static_cast<int>(rng.below(10));
    w[OAdvance] += 8;
    w[OShift] += 6;
    w[ORecreate] = 1;
    const i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 250 : 100);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(rng.below(6));
      const i64 unit = units[rng.below(sizeof units / sizeof *units)];
      switch (op.kind) {
      case OAdvance:
        op.add(rng.chance(20) ? 0 : rng.chance(30) ? static_cast<i64>(rng.below(2500)) : static_cast<i64>(rng.below(static_cast<u64>(unit * rng.range(1, 70)) + 1)));
        break;
      case OShift:
        op.add(unit).add(rng.chance(50) ? rng.range(-2, 2) : rng.range(-1001, 1001));
        break;
      case OCopy:
        op.add(rng.below(6));
        break;
      case OPrint: case OPrintFile:
        op.add(0).add(rng.chance(60) ? 0 : static_cast<i64>(rng.below(rng.chance(50) ? 3000 : 2000000))).add(rng.below(8));
        if (faults && rng.chance(40)) {
          drawFault(rng, op, kinds, 16);
          if (op.fault == FStream && rng.chance(50)) op.len = rng.chance(50) ? 1000000 : 2;
        }
        break;
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
