// Workload, reference model and oracle for the queue simulator in src/pqsim
// (C24): what it generates, what its models do and what it prints.
#include <cstdlib>
#include <queue>
#include <vector>
#include <ctime>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <string>
#include <set>
#include <deque>
#include <memory>
#include <unistd.h>
#include "qsim.h"
#include "sim.h"
#include "simio.h"
void simExit(int);
#define exit simExit
#include "pqsim/stdinc.h"
#include "pqsim/Simulator.h"
#undef exit

void simExit(int) {throw SimExit();}

namespace {
  using namespace sim;

  // The random numbers and the processor clock the simulator sees.
  u64 randSalt = 0, randCalls = 0;
  int randRepeat = 0; // percentage of numbers from a small set
  const u64 randLimit = 3000000;
}

// libstdc++ does not call rand, so this is only for the code under test
extern "C" int rand() throw() {
  if (++randCalls > randLimit) {
    static const char msg[] = "SIM: hang (a simulation took millions of random numbers)\n";
    const ssize_t w = write(2, msg, sizeof msg - 1);
    (void)w;
    _exit(78);
  }
  const u64 x = mix64(randSalt + randCalls);
  if (static_cast<int>(x % 100) < randRepeat) return static_cast<int>((x >> 32) % 97);
  return static_cast<int>((x >> 20) & 0x7fffffff);
}
namespace qs {long now = 0;}
extern "C" clock_t clock() throw() {
  return static_cast<clock_t>(qs::now);
}

namespace {
  struct Ev {
    std::vector<qs::V> push; // empty: pop
    qs::V pop;
  };

  // Everything that is live. A pop takes out all that are equal to the maximum.
  struct Ref {
    std::multiset<qs::V> live;
    void push(const std::vector<qs::V>& v) {live.insert(v.begin(), v.end());}
    qs::V pop() {
      const qs::V top = *live.rbegin();
      live.erase(top);
      return top;
    }
  };

  // Stands in for a queue and looks at the simulation it is told to run.
  struct Recorder {
    Ref ref;
    std::vector<Ev> events;
    std::string problem;
    size_t pushed, duplicates;
    i64 wrongAt; // give an incorrect value in this pop
    size_t pops;
    i64 ticks;
    Recorder(i64 t): pushed(0), duplicates(0), wrongAt(-1), pops(0), ticks(t) {}
    void push(const qs::V* b, const qs::V* e) {
      CbScope cb;
      qs::now += ticks;
      ticks = 0;
      Ev ev;
      ev.push.assign(b, e);
      ev.pop = 0;
      if (ev.push.empty()) problem = "an empty span is pushed";
      for (size_t i = 1; i < ev.push.size(); ++i)
        if (ev.push[i] >= ev.push[i - 1]) problem = "a span is not strictly descending";
      for (size_t i = 0; i < ev.push.size(); ++i) duplicates += ref.live.count(ev.push[i]) != 0;
      pushed += ev.push.size();
      ref.push(ev.push);
      events.push_back(ev);
    }
    qs::V pop() {
      CbScope cb;
      Ev ev;
      if (ref.live.empty()) {
        problem = "a pop of an empty queue";
        throw SimExit();
      }
      ev.pop = ref.pop();
      events.push_back(ev);
      const bool wrong = static_cast<i64>(pops++) == wrongAt;
      return ev.pop + (wrong ? 1 : 0);
    }
    size_t getComparisons() {return 4321;}
    size_t getMemoryUse() {return 5 * 1024 + 7;}
    std::string getName() {return "recorder";}
    void print(std::ostream& out) {out << "recorded\n";}
  };

  enum {OPush, OPop, OGenerate, ORun, OShow, OPrint};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p), _max(0) {}
    void run();
  private:
    struct M {
      int kind;
      std::unique_ptr<qs::IModel> m;
      Ref ref;
      size_t cmps;
    };
    struct Row {
      std::string name;
      u64 ms, cmps, kb;
      bool operator<(const Row& r) const {return name < r.name || (name == r.name && (ms < r.ms || (ms == r.ms && (cmps < r.cmps || (cmps == r.cmps && kb < r.kb)))));}
      bool operator==(const Row& r) const {return name == r.name && ms == r.ms && cmps == r.cmps && kb == r.kb;}
    };
    const Plan& _plan;
    std::deque<M> _ms;
    std::deque<std::vector<qs::V> > _spans; // stay for as long as the models
    size_t _max, _geoBase, _minBucket;
    std::unique_ptr<Simulator> _sim;
    size_t _repeats;
    i64 _ticks;
    bool _generated;
    std::vector<Ev> _events;
    std::vector<Row> _rows;

    void fresh(M& m) {
      const int k = m.kind;
      const size_t a = _geoBase, b = _minBucket;
      sutOk("destruction", [&] {m.m.reset();});
      sutOk("construction", [&] {m.m.reset(qs::makeModel(k, a, b));});
      m.ref = Ref();
      m.cmps = 0;
    }
    void verify(M& m) {
      bool e = false;
      size_t c = 0, mem = 0;
      sutOk("empty", [&] {
        e = m.m->empty();
        c = m.m->comparisons();
        mem = m.m->memoryUse();
      });
      if (e != m.ref.live.empty()) throw Violation("emptiness", strf("%s: empty() is %d with %zu values in it", m.m->name().c_str(), e, m.ref.live.size()));
      if (c < m.cmps) throw Violation("comparisons", "the number of comparisons made went down");
      m.cmps = c;
      g.log(90, c);
      g.state(mix64(static_cast<u64>(m.kind) * 1000 + std::min<size_t>(m.ref.live.size(), 60)) ^ mix64(g.firedInRun));
    }
    void newSimulator(size_t repeats) {
      _repeats = repeats;
      _generated = false;
      _rows.clear();
      _events.clear();
      sutOk("destruction", [&] {_sim.reset();});
      sutOk("construction", [&] {_sim.reset(new Simulator(repeats));});
    }
    void generate(const Op& op);
    void runModel(const Op& op, int kind, bool print, bool states);
    void show();
    void printData(const Op& op);
    void step(const Op& op);
  };

  void Sim::generate(const Op& op) {
    const int how = static_cast<int>(static_cast<u64>(op.arg(0)) % 3);
    const size_t a = static_cast<size_t>(std::max<i64>(1, std::min<i64>(3000, op.arg(1))));
    const size_t b = static_cast<size_t>(std::max<i64>(1, std::min<i64>(200, op.arg(2))));
    const size_t c = static_cast<size_t>(std::max<i64>(1, std::min<i64>(500, op.arg(3))));
    const size_t dups = static_cast<size_t>(std::max<i64>(0, std::min<i64>(100, op.arg(4))));
    randSalt = mix64(static_cast<u64>(op.arg(5)));
    randRepeat = how == 1 ? 0 : static_cast<int>(static_cast<u64>(op.arg(5)) % 3 * 10);
    newSimulator(1 + static_cast<size_t>(op.arg(6)) % 3);
    // for the second kind a is the number of spans
    const size_t spans = how == 0 ? a : std::max<size_t>(1, std::min<size_t>(a, 1500 / b));
    const char* const names[] = {"dupSpans", "orderSpans", "randomSpans"};
    auto f = [&] {
      if (how == 0) _sim->dupSpans(a, b, c, dups);
      else if (how == 1) _sim->orderSpans(spans, b, c);
      else _sim->randomSpans(spans, b, c);
    };
    randCalls = 0;
    if (op.fault != FNone && sut(op, f) != Done) {
      g.probe("generations aborted");
      randCalls = 0;
      sutOk(names[how], f); // starts over
    } else if (op.fault == FNone) sutOk(names[how], f);
    else { // a failure inside a stream is not reported, so the text may be short
      randCalls = 0;
      sutOk(names[how], f);
    }
    g.log(91, randCalls);

    // let a recorder run it
    const i64 ticks = _ticks;
    Recorder r(ticks);
    bool rejected = false;
    sutOk("running the recorder", [&] {
      try {
        _sim->run(r, false, false);
      } catch (const SimExit&) {rejected = true;}
    });
    if (!r.problem.empty()) throw Violation("bad-simulation", strf("%s(%zu,%zu,%zu,%zu): %s", names[how], spans, b, c, dups, r.problem.c_str()));
    if (rejected) throw Violation("bad-simulation", strf("%s(%zu,%zu,%zu,%zu): the expected value of a pop is not the maximum", names[how], spans, b, c, dups));
    if (!r.ref.live.empty()) throw Violation("bad-simulation", strf("%s(%zu,%zu,%zu,%zu): the simulation leaves %zu values in the queue", names[how], spans, b, c, dups, r.ref.live.size()));
    if (r.events.size() % _repeats != 0) throw Violation("bad-simulation", "the repetitions of a simulation differ");
    _events.assign(r.events.begin(), r.events.begin() + r.events.size() / _repeats);
    Row row;
    row.name = "recorder";
    row.ms = static_cast<u64>(ticks) * 1000 / CLOCKS_PER_SEC;
    row.cmps = 4321;
    row.kb = 5;
    _rows.push_back(row);

    size_t pushes = 0, pushed = 0, longest = 0, lastBefore = 0, firstSize = 0;
    bool sameSize = true;
    for (size_t i = 0; i < _events.size(); ++i) {
      const size_t s = _events[i].push.size();
      if (s == 0) continue;
      if (pushes == 0) firstSize = s;
      else if (s != b) sameSize = false;
      ++pushes;
      lastBefore = pushed;
      pushed += s;
      longest = std::max(longest, s);
    }
    if (r.pushed != pushed * _repeats) throw Violation("bad-simulation", "the repetitions of a simulation differ");
    if (how == 0) {
      if (pushed < a || lastBefore >= a)
        throw Violation("wrong-amount", strf("dupSpans: %zu elements asked for, %zu pushed, %zu of them before the last span", a, pushed, lastBefore));
      const size_t dev = b <= 10 ? b - 1 : 10;
      for (size_t i = 0; i < _events.size(); ++i) {
        const size_t s = _events[i].push.size();
        if (s != 0 && (s + dev < b || s > b + dev)) throw Violation("wrong-span", strf("dupSpans: a span of %zu with an average of %zu asked for", s, b));
      }
      if (dups == 0 && r.duplicates != 0) throw Violation("wrong-duplicates", strf("dupSpans: %zu duplicates with 0%% asked for", r.duplicates));
    } else {
      if (pushes != spans || !sameSize || firstSize != (how == 1 ? b : c))
        throw Violation("wrong-amount", strf("%s: %zu spans, the first of %zu, with %zu spans of %zu and %zu asked for", names[how], pushes, firstSize, spans, b, c));
    }
    // what it says about itself
    Sink s;
    SimBuf buf(s);
    std::ostream out(&buf);
    sutOk("printEventSummary", [&] {_sim->printEventSummary(out);});
    const std::string want = strf("\n %zu spans\n %zu per span on average\n", pushes, pushed / pushes);
    if (s.data.find(want) == std::string::npos || s.data.find(strf("\n %zu entries popped in total.\n", pushed)) == std::string::npos || s.data.find(strf("\n %zu repeats.\n", _repeats)) == std::string::npos)
      throw Violation("wrong-summary", strf("%zu spans of together %zu are summed up as \"%s\"", pushes, pushed, s.data.c_str()));
    _generated = true;
    g.probe(strf("simulations from %s", names[how]).c_str());
  }

  void Sim::show() {
    if (!_generated) return;
    Sink s;
    SimBuf buf(s);
    std::ostream out(&buf);
    sutOk("printEvents", [&] {_sim->printEvents(out);});
    std::string want = strf("*** The %zu events are\n", _events.size());
    for (size_t i = 0; i < _events.size(); ++i) {
      if (_events[i].push.empty()) want += strf("Pop %lu\n", _events[i].pop);
      else {
        want += "Insert";
        for (size_t k = 0; k < _events[i].push.size(); ++k) want += strf(" %lu", _events[i].push[k]);
        want += '\n';
      }
    }
    if (s.data != want) throw Violation("wrong-events", "the list of events is not what a queue gets to see");
  }

  void Sim::runModel(const Op& op, int kind, bool print, bool states) {
    if (!_generated) return;
    if (kind < 0) { // a queue that is wrong once must be noticed
      Recorder r(0);
      size_t pops = 0;
      for (size_t i = 0; i < _events.size(); ++i) pops += _events[i].push.empty();
      r.wrongAt = static_cast<i64>(static_cast<u64>(op.arg(2)) % (pops * _repeats));
      bool rejected = false;
      sutOk("running a wrong queue", [&] {
        try {
          _sim->run(r, print, false);
        } catch (const SimExit&) {rejected = true;}
      });
      if (!rejected) throw Violation("missed-error", strf("a queue that gives an incorrect value in pop %lld of %zu passes", (long long)r.wrongAt, pops * _repeats));
      g.probe("wrong queues rejected");
      return;
    }
    std::unique_ptr<qs::IModel> m;
    const size_t a = _geoBase, b = _minBucket;
    sutOk("construction", [&] {m.reset(qs::makeModel(kind, a, b));});
    bool rejected = false;
    const i64 ticks = static_cast<i64>(mix64(static_cast<u64>(op.arg(2))) % (static_cast<u64>(_ticks) + 1)) / 1000 * 1000;
    const Outcome o = sut(op, [&] {
      try {
        m->run(*_sim, print, states, ticks);
      } catch (const SimExit&) {rejected = true;}
    });
    if (o == Other) throw Violation("unexpected-exception", "run threw something else than what was injected");
    if (rejected) throw Violation("rejected", strf("the queue %s is said to give an incorrect value", m->name().c_str()));
    if (o == Done) {
      Row r;
      sutOk("data", [&] {
        CbScope cb;
        r.name = m->name();
        r.cmps = m->comparisons();
        r.kb = m->memoryUse() / 1024;
        if (!m->empty()) throw Violation("not-empty", "a queue is not empty at the end of a simulation");
      });
      r.ms = static_cast<u64>(ticks) * 1000 / CLOCKS_PER_SEC;
      _rows.push_back(r);
      g.log(92, r.cmps);
      g.probe("models run");
    } else g.probe("aborted runs");
    sutOk("destruction", [&] {m.reset();});
  }

  u64 number(const std::string& s) {
    u64 v = 0;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] != ',') v = v * 10 + (s[i] - '0');
    return v;
  }

  void Sim::printData(const Op& op) {
    if (_rows.empty()) return;
    Sink s;
    SimBuf buf(s);
    std::ostream out(&buf);
    const Outcome o = sut(op, [&] {_sim->printData(out);});
    if (o == Other) throw Violation("unexpected-exception", "printData threw something else than what was injected");
    if (op.fault != FNone) { // now without a failure
      s.data.clear();
      out.clear();
      sutOk("printData", [&] {_sim->printData(out);});
    }
    std::istringstream in(s.data);
    std::string line;
    std::getline(in, line);
    std::vector<Row> got;
    u64 last = 0;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::vector<std::string> w;
      std::string x;
      while (l >> x) w.push_back(x);
      const size_t n = w.size();
      bool ok = n >= 4;
      static const char* const unit[] = {"ms", "cmps", "kb"};
      for (int k = 0; k < 3 && ok; ++k) {
        std::string& v = w[n - 3 + k];
        const std::string u = unit[k];
        ok = v.size() > u.size() && v.compare(v.size() - u.size(), u.size(), u) == 0;
        if (ok) v.resize(v.size() - u.size());
        ok = ok && v.find_first_not_of("0123456789,") == std::string::npos;
        for (size_t i = 0; ok && i < v.size(); ++i) ok = (v[v.size() - 1 - i] == ',') == (i % 4 == 3);
      }
      if (!ok) throw Violation("wrong-table", strf("a line of the outcome is \"%s\"", line.c_str()));
      Row r;
      r.name = w[0];
      for (size_t i = 1; i + 3 < n; ++i) r.name += " " + w[i];
      r.ms = number(w[n - 3]);
      r.cmps = number(w[n - 2]);
      r.kb = number(w[n - 1]);
      if (r.ms < last) throw Violation("wrong-table", "the outcome is not sorted by time");
      last = r.ms;
      got.push_back(r);
    }
    std::vector<Row> want = _rows;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
      if (i < std::min(got.size(), want.size()) && got[i] == want[i]) continue;
      const Row& r = i < want.size() ? want[i] : got[i];
      throw Violation("wrong-table", strf("the outcome has %zu rows for %zu runs, or the row of %s (%llu ms, %llu cmps, %llu kb) is not right: %s", got.size(), want.size(), r.name.c_str(), (unsigned long long)r.ms, (unsigned long long)r.cmps, (unsigned long long)r.kb, s.data.c_str()));
    }
    g.probe("outcomes printed");
  }

  void Sim::step(const Op& op) {
    g.log(60 + op.kind);
    switch (op.kind) {
    case OPush: {
      std::vector<qs::V> v;
      const size_t n = static_cast<size_t>(std::max<i64>(1, std::min<i64>(300, op.arg(0))));
      const u64 salt = static_cast<u64>(op.arg(1)), range = static_cast<u64>(std::max<i64>(1, op.arg(2)));
      for (size_t i = 0; i < n; ++i) v.push_back(mix64(salt + i) % range);
      std::sort(v.begin(), v.end(), std::greater<qs::V>());
      std::vector<qs::V> u(v);
      u.erase(std::unique(u.begin(), u.end()), u.end());
      _spans.push_back(v);
      const qs::V* const vb = &_spans.back()[0];
      _spans.push_back(u);
      const qs::V* const ub = &_spans.back()[0];
      for (size_t i = 0; i < _ms.size(); ++i) {
        M& m = _ms[i];
        const bool d = qs::dedups(m.kind);
        const Op& fop = i == static_cast<size_t>(op.arg(3)) % _ms.size() ? op : noFault;
        const Outcome o = sut(fop, [&] {m.m->push(d ? ub : vb, d ? ub + u.size() : vb + v.size());});
        if (o == Other) throw Violation("unexpected-exception", "push threw something else than what was injected");
        if (o == Done) m.ref.push(d ? u : v);
        else {
          g.probe("pushes aborted");
          fresh(m);
        }
        verify(m);
      }
      break;
    }
    case OPop:
      for (i64 k = 0; k < std::max<i64>(1, op.arg(0)); ++k)
        for (size_t i = 0; i < _ms.size(); ++i) {
          M& m = _ms[i];
          if (m.ref.live.empty()) continue;
          const Op& fop = k == 0 && i == static_cast<size_t>(op.arg(3)) % _ms.size() ? op : noFault;
          qs::V got = 0;
          const Outcome o = sut(fop, [&] {got = m.m->pop();});
          if (o == Other) throw Violation("unexpected-exception", "pop threw something else than what was injected");
          if (o == Done) {
            const qs::V want = m.ref.pop();
            if (got != want) throw Violation("wrong-pop", strf("%s pops %lu when %lu is the maximum", m.m->name().c_str(), got, want));
          } else {
            g.probe("pops aborted");
            fresh(m);
          }
          verify(m);
        }
      break;
    case OGenerate: generate(op); break;
    case ORun: runModel(op, static_cast<int>(op.arg(0)), op.arg(1) & 1, (op.arg(1) & 6) == 6 && _events.size() < 100); break;
    case OShow: show(); break;
    case OPrint: printData(op); break;
    }
  }

  void Sim::run() {
    qs::now = 1000;
    _ticks = std::max<i64>(0, _plan.get("ticks", 1000)) / 1000 * 1000; // whole milliseconds
    _geoBase = static_cast<size_t>(std::min<i64>(6, std::max<i64>(2, _plan.get("geoBase", 2))));
    _minBucket = static_cast<size_t>(std::min<i64>(40, std::max<i64>(1, _plan.get("minBucket", 2))));
    const size_t n = static_cast<size_t>(std::min<i64>(4, std::max<i64>(1, _plan.get("models", 2))));
    struct Redirect { // what the simulator writes to cerr
      Redirect(std::streambuf* b): old(std::cerr.rdbuf(b)) {}
      ~Redirect() {
        std::cerr.rdbuf(old);
        std::cerr.clear();
      }
      std::streambuf* old;
    };
    struct Null: public std::streambuf { // may be given addresses, so not logged
      int_type overflow(int_type c) {return traits_type::not_eof(c);}
      std::streamsize xsputn(const char*, std::streamsize n) {return n;}
    } null;
    Redirect redirect(&null);
    _ms.resize(n);
    for (size_t i = 0; i < n; ++i) {
      _ms[i].kind = static_cast<int>((static_cast<u64>(_plan.get("kind")) + i * static_cast<u64>(_plan.get("stride", 1))) % qs::modelCount);
      fresh(_ms[i]);
    }
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
      std::cerr.clear();
    }
    Op rest(OPop);
    rest.add(1);
    for (bool more = true; more;) {
      more = false;
      step(rest);
      for (size_t i = 0; i < n; ++i) more = more || !_ms[i].ref.live.empty();
    }
    sutOk("destruction", [&] {
      _sim.reset();
      for (size_t i = 0; i < n; ++i) _ms[i].m.reset();
    });
  }
}

namespace sim {
  const char* const opNames[] = {"push", "pop", "generate", "run", "show", "printData"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C24";}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    const bool simulate = r.chance(35);
    p.set("models", simulate ? 1 : r.range(1, 3));
    p.set("kind", static_cast<i64>(r.below(qs::modelCount)));
    p.set("stride", r.range(1, qs::modelCount - 1));
    p.set("geoBase", r.range(2, 5));
    p.set("minBucket", r.chance(70) ? r.range(1, 6) : r.range(1, 32));
    p.set("ticks", static_cast<i64>(r.below(r.chance(50) ? 5000 : 2000000000)));
    const bool faults = r.chance(50);
    const int percent = r.chance(50) ? 15 : 50;
    const std::vector<int> kinds(1, FAlloc);
    if (simulate) {
      const i64 rounds = r.range(1, 2);
      for (i64 k = 0; k < rounds; ++k) {
        Op op(OGenerate);
        const i64 span = r.chance(40) ? r.range(1, 11) : r.range(1, 60);
        op.add(static_cast<i64>(r.below(3))).add(r.chance(50) ? r.range(1, 60) : r.range(20, thorough ? 1200 : 400)).add(span)
          .add(r.chance(60) ? r.range(1, 30) : r.range(1, 200)).add(r.chance(30) ? 0 : r.chance(20) ? 100 : r.range(0, 100)).add(static_cast<i64>(r.below(1u << 30))).add(r.below(3));
        if (faults && r.chance(percent)) drawFault(r, op, kinds, 60);
        p.ops.push_back(op);
        const i64 n = r.range(1, thorough ? 12 : 7);
        for (i64 i = 0; i < n; ++i) {
          Op o(r.chance(75) ? ORun : r.chance(50) ? OShow : OPrint);
          if (o.kind == ORun) {
            o.add(r.chance(12) ? -1 : static_cast<i64>(r.below(qs::modelCount))).add(static_cast<i64>(r.below(8))).add(static_cast<i64>(r.below(1u << 30)));
            if (faults && r.chance(percent)) drawFault(r, o, kinds, 30);
          } else if (o.kind == OPrint && faults && r.chance(percent)) drawFault(r, o, kinds, 40);
          p.ops.push_back(o);
        }
        p.ops.push_back(Op(OPrint));
      }
      return;
    }
    const i64 n = r.range(2, r.chance(40) ? 20 : thorough ? 250 : 90);
    const i64 maxSpan = r.chance(60) ? 8 : r.chance(70) ? 40 : 250;
    const i64 range = r.chance(50) ? r.range(1, 30) : r.chance(70) ? r.range(20, 2000) : 0x7fffffff;
    const int pushes = r.chance(50) ? 50 : r.chance(50) ? 25 : 75;
    for (i64 i = 0; i < n; ++i) {
      Op op(r.chance(pushes) ? OPush : OPop);
      if (op.kind == OPush) op.add(r.small(maxSpan)).add(static_cast<i64>(r.below(1u << 30))).add(range).add(r.below(4));
      else op.add(r.chance(70) ? 1 : r.range(1, 20)).add(0).add(0).add(r.below(4));
      if (faults && r.chance(percent)) drawFault(r, op, kinds, 4);
      p.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
