// Workload, reference arithmetic and oracle for the numeric formatting helpers
// of ColumnPrinter (C16), called in histories in which memory fails.
#include "sim.h"
#include <mathic/ColumnPrinter.h>
#include <cmath>
#include <cstdlib>

namespace {
  using namespace sim;
  typedef mathic::ColumnPrinter P;
  typedef unsigned __int128 W;
  typedef long double Real;

  enum {OCommafy, OSI, OBytes, OPercentInt, OPercentFixed, ORatioInt, ORatioDouble, OPercentDouble2, OPercentDouble, OOneDecimal, OSequence};

  u64 hashStr(const std::string& s) {
    u64 h = s.size();
    for (size_t i = 0; i < s.size(); ++i) h = mix64(h ^ static_cast<unsigned char>(s[i]));
    return h;
  }
  std::string decimal(u64 v) {
    std::string s;
    do {s.insert(s.begin(), static_cast<char>('0' + v % 10)); v /= 10;} while (v != 0);
    return s;
  }
  std::string grouped(u64 v) {
    std::string s = decimal(v);
    for (size_t i = s.size(); i > 3;) {
      i -= 3;
      s.insert(i, ",");
    }
    return s;
  }
  void wrong(const char* what, u64 a, u64 b, const std::string& got, const std::string& more) {
    throw Violation("wrong-text", strf("%s(%llu, %llu) is \"%s\", %s", what, (unsigned long long)a, (unsigned long long)b, got.substr(0, 60).c_str(), more.c_str()));
  }

  // Splits "123.4" + suffix; returns the number of tenths. False if malformed.
  bool tenths(const std::string& s, u64& t, std::string& suffix) {
    size_t i = 0;
    t = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
      if (t > (~u64(0) - 9) / 100) return false;
      t = t * 10 + (s[i++] - '0');
    }
    if (i == 0 || (i > 1 && s[0] == '0')) return false;
    if (i + 1 >= s.size() || s[i] != '.' || s[i + 1] < '0' || s[i + 1] > '9') return false;
    t = t * 10 + (s[i + 1] - '0');
    suffix = s.substr(i + 2);
    return true;
  }
  // Is t the number of tenths nearest to x tenths, up to the precision of
  // double arithmetic? exact says that x and every intermediate value can be
  // expected to be exact, so that halves must be rounded up.
  bool nearest(u64 t, Real x, bool exact) {
    const Real d = static_cast<Real>(t) - x;
    if (exact) return d > -0.5L && d <= 0.5L;
    const Real eps = x * 1e-14L + 1e-12L;
    return d > -0.5L - eps && d <= 0.5L + eps;
  }
  bool powerOf2(u64 d) {return d != 0 && (d & (d - 1)) == 0;}

  void judgeRatio(const char* what, u64 n, u64 d, u64 times, const std::string& got, const std::string& suffix) {
    if (d == 0) {
      if (got != (n == 0 ? "0/0" : "?/0") + suffix) wrong(what, n, d, got, "for a zero denominator");
      return;
    }
    u64 t;
    std::string rest;
    if (!tenths(got, t, rest) || rest != suffix) wrong(what, n, d, got, "which is malformed");
    const Real x = static_cast<Real>(n) * static_cast<Real>(times) * 10 / static_cast<Real>(d);
    const bool exact = powerOf2(d) && n < (u64(1) << 40) && d < (u64(1) << 40);
    if (!nearest(t, x, exact)) wrong(what, n, d, got, strf("should be %.3Lf", x / 10));
  }
  void judgeDouble(const char* what, double v, const std::string& got, const std::string& suffix, bool exact) {
    u64 t;
    std::string rest;
    if (!tenths(got, t, rest) || rest != suffix)
      throw Violation("wrong-text", strf("%s(%.17g) is \"%s\", which is malformed", what, v, got.substr(0, 60).c_str()));
    if (!nearest(t, static_cast<Real>(v) * 10, exact))
      throw Violation("wrong-text", strf("%s(%.17g) is \"%s\"", what, v, got.substr(0, 60).c_str()));
  }
  void judgeUnit(const char* what, u64 l, unsigned base, const char* const* units, const std::string& got) {
    if (l < base) {
      if (got != decimal(l) + units[0]) wrong(what, l, 0, got, "should be the number itself");
      return;
    }
    u64 t;
    std::string rest;
    if (!tenths(got, t, rest)) wrong(what, l, 0, got, "which is malformed");
    Real scale = 1;
    for (int u = 1; u <= 4; ++u) {
      scale *= base;
      if (rest != units[u]) continue;
      if (!nearest(t, static_cast<Real>(l) * 10 / scale, false)) wrong(what, l, 0, got, strf("should be %.3Lf", static_cast<Real>(l) / scale));
      if (t < 10) wrong(what, l, 0, got, "a smaller unit should be used");
      if (u < 4 && t >= static_cast<u64>(base) * 10) wrong(what, l, 0, got, "a larger unit should be used");
      return;
    }
    wrong(what, l, 0, got, "which has no known unit");
  }
  const char* const siUnits[] = {"", "k", "M", "G", "T"};
  const char* const byteUnits[] = {"B", "kB", "MB", "GB", "TB"};

  // the double that the arguments of an operation stand for
  double value(const Op& op) {
    const double n = static_cast<double>(op.arg(0));
    switch (op.arg(2) & 3) {
    case 0: return n / 1000.0;
    case 1: return std::ldexp(n, -static_cast<int>((op.arg(2) >> 2) & 31));
    case 2: return n / 20.0; // halves of the last digit, most of them not exact
    default: return n;
    }
  }
  bool exactValue(const Op& op) {
    const u64 n = static_cast<u64>(op.arg(0));
    return ((op.arg(2) & 3) == 1 || (op.arg(2) & 3) == 3) && n < (u64(1) << 45);
  }

  void step(const Op& op) {
    const u64 a = static_cast<u64>(op.arg(0)), b = static_cast<u64>(op.arg(1));
    std::string s;
    const double v = value(op);
    const double den = static_cast<double>(b % 1000000007u);
    const Outcome o = sut(op, [&] {
      switch (op.kind) {
      case OCommafy: s = P::commafy(a); break;
      case OSI: s = P::withSIPrefix(a); break;
      case OBytes: s = P::bytesInUnit(a); break;
      case OPercentInt: s = P::percentInteger(a, b); break;
      case OPercentFixed: s = P::percentIntegerFixed(a, b); break;
      case ORatioInt: s = P::ratioInteger(a, b); break;
      case ORatioDouble: s = P::ratioDouble(v, den); break;
      case OPercentDouble2: s = P::percentDouble(v, den); break;
      case OPercentDouble: s = P::percentDouble(v); break;
      case OOneDecimal: s = P::oneDecimal(v); break;
      }
    });
    g.log(60 + op.kind, hashStr(s));
    g.say("%s %llu %llu %.17g -> %d \"%s\"", opNames[op.kind], (unsigned long long)a, (unsigned long long)b, v, o, s.substr(0, 80).c_str());
    g.state(mix64(op.kind * 64 + (a == 0 ? 0 : 64 - __builtin_clzll(a))) ^ mix64(b == 0 ? 100 : 164 - __builtin_clzll(b)) ^ mix64(o + 1000) ^ mix64(s.size()));
    if (o == Other || o == Faulted) throw Violation("unexpected-exception", std::string(opNames[op.kind]) + " threw something else than bad_alloc");
    if (o == NoMemory) {
      g.probe("out of memory reported");
      return;
    }
    if (op.fault != FNone) g.probe("complete in spite of a fault or none met");
    switch (op.kind) {
    case OCommafy:
      if (s != grouped(a)) wrong("commafy", a, 0, s, "should be " + grouped(a));
      break;
    case OSI: judgeUnit("withSIPrefix", a, 1000, siUnits, s); break;
    case OBytes: judgeUnit("bytesInUnit", a, 1024, byteUnits, s); break;
    case OPercentInt: judgeRatio("percentInteger", a, b, 100, s, "%"); break;
    case OPercentFixed: {
      size_t i = 0;
      while (i < s.size() && s[i] == ' ') ++i;
      if (s.size() < 6 || (i > 0 && s.size() != 6)) wrong("percentIntegerFixed", a, b, s, "which has the wrong width");
      judgeRatio("percentIntegerFixed", a, b, 100, s.substr(i), "%");
      break;
    }
    case ORatioInt: judgeRatio("ratioInteger", a, b, 1, s, ""); break;
    case ORatioDouble:
    case OPercentDouble2: {
      const char* const suffix = op.kind == ORatioDouble ? "" : "%";
      if (den == 0) {
        const Real x = op.kind == ORatioDouble ? v : v * 100;
        if (x > 1e-10L && x < 1e-8L) break; // around the limit for being zero
        if (s != (x < 1e-9L ? "0/0" : "?/0") + std::string(suffix)) throw Violation("wrong-text", "\"" + s + "\" for a zero denominator");
        break;
      }
      const Real x = static_cast<Real>(v) * (op.kind == ORatioDouble ? 1 : 100) / den;
      u64 t;
      std::string rest;
      if (!tenths(s, t, rest) || rest != suffix || !nearest(t, x * 10, false))
        throw Violation("wrong-text", strf("%s(%.17g, %.17g) is \"%s\"", opNames[op.kind], v, den, s.substr(0, 60).c_str()));
      break;
    }
    case OPercentDouble: {
      u64 t;
      std::string rest;
      if (!tenths(s, t, rest) || rest != "%" || !nearest(t, static_cast<Real>(v) * 1000, exactValue(op)))
        throw Violation("wrong-text", strf("percentDouble(%.17g) is \"%s\"", v, s.substr(0, 60).c_str()));
      break;
    }
    case OOneDecimal: judgeDouble("oneDecimal", v, s, "", exactValue(op)); break;
    }
  }

  u64 pick(Rng& rng) {
    static const u64 marks[] = {0, 1, 9, 10, 99, 100, 999, 1000, 1023, 1024, 999949, 999950, 999999, 1000000, 1048575, 1048576, 1048524, 1048525,
      999949999ull, 999950000ull, 1073690000ull, 1073741824ull, 999950000000ull, 1000000000000ull, 1099511627776ull, 999950000000000ull, 1000000000000000ull,
      1125899906842624ull, 184467440737095516ull, 184467440737095517ull, 1000000000000000000ull, 18446744073709551615ull, 4294967295ull, 4294967296ull};
    switch (rng.below(5)) {
    case 0: return marks[rng.below(sizeof marks / sizeof *marks)];
    case 1: {
      const u64 m = marks[rng.below(sizeof marks / sizeof *marks)];
      return m + rng.below(41) - 20; // wraps around at both ends
    }
    case 2: return rng.below(2000);
    case 3: {
      u64 p = 1; // a few digits followed by zeros or nines
      for (u64 i = rng.below(19); i > 0; --i) p *= 10;
      return rng.below(1000) * p - rng.below(2);
    }
    default: return rng.next() >> rng.below(64);
    }
  }
}

namespace sim {
  const char* const opNames[] = {"commafy", "withSIPrefix", "bytesInUnit", "percentInteger", "percentIntegerFixed", "ratioInteger", "ratioDouble", "percentDouble2", "percentDouble", "oneDecimal"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C16";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    const bool faults = rng.chance(65);
    const int percent = rng.chance(50) ? 30 : 80;
    const i64 n = rng.range(3, thorough ? 150 : 50);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(rng.below(opCount)));
      u64 a = pick(rng), b = pick(rng);
      const i64 how = static_cast<i64>(rng.below(128));
      // ratios and decimals that fit into 64 bits when shown with one decimal
      const u64 top = u64(1) << 45;
      if (op.kind >= ORatioDouble) a &= top - 1;
      else if (op.kind >= OPercentInt && op.kind <= ORatioInt) {
        if (rng.chance(40)) b = u64(1) << rng.below(12);
        if (rng.chance(30)) a = rng.below(5000);
        if (rng.chance(20)) a = b / rng.range(1, 40);
        if (b != 0 && a / b > top) b = 1 + (a >> 40);
      }
      op.add(static_cast<i64>(a)).add(static_cast<i64>(b)).add(how);
      if (faults && rng.chance(percent)) {
        std::vector<int> kinds(1, FAlloc);
        drawFault(rng, op, kinds, 4);
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    for (size_t i = 0; i < plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[plan.ops[i].kind]);
      step(plan.ops[i]);
    }
  }
}
