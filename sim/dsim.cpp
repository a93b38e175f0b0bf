// Workload, reference model and oracle for the divisor finder simulator in
// src/divsim (C25): what it generates, what its models do, what it accepts
// and what it prints.
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <string>
#include <deque>
#include <memory>
#include <ctime>
#include "sim.h"
#include "simio.h"
#include "dsim.h"
namespace std {void simExit(int);}
#define exit simExit
#include "divsim/stdinc.h"
#include "divsim/Simulation.h"
#undef exit

void std::simExit(int) {throw SimExit();}

namespace {
  using namespace sim;
  u64 randSalt = 0, randCalls = 0;
  int randRange = 1000;
}
extern "C" void srand(unsigned) throw() {}
extern "C" int rand() throw() {
  return static_cast<int>(mix64(randSalt + ++randCalls) % static_cast<u64>(randRange));
}
namespace ds {long now = 0;}
extern "C" clock_t clock() throw() {return static_cast<clock_t>(ds::now);}

namespace {
  bool divides(const int* a, const int* b, size_t n) {
    for (size_t i = 0; i < n; ++i) if (a[i] > b[i]) return false;
    return true;
  }

  // Entries in a finder, in no particular order.
  struct Ref {
    size_t vars;
    bool minimize;
    std::vector<const int*> e;
    bool contains(const int* q) const {
      for (size_t i = 0; i < e.size(); ++i) if (std::equal(q, q + vars, e[i])) return true;
      return false;
    }
    bool hasDivisor(const int* q) const {
      for (size_t i = 0; i < e.size(); ++i) if (divides(e[i], q, vars)) return true;
      return false;
    }
    std::vector<const int*> divisors(const int* q) const {
      std::vector<const int*> r;
      for (size_t i = 0; i < e.size(); ++i) if (divides(e[i], q, vars)) r.push_back(e[i]);
      return r;
    }
    std::vector<const int*> insert(const int* p) { // returns what is removed
      std::vector<const int*> removed;
      if (minimize) {
        if (hasDivisor(p)) return removed;
        std::vector<const int*> keep;
        for (size_t i = 0; i < e.size(); ++i) (divides(p, e[i], vars) ? removed : keep).push_back(e[i]);
        e.swap(keep);
      }
      e.push_back(p);
      return removed;
    }
  };
  std::string diff(std::vector<const int*> got, std::vector<const int*> want) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got == want) return "";
    return strf("%zu instead of %zu, or others", got.size(), want.size());
  }

  // Stands in for a finder and looks at the simulation it is told to run.
  struct Record {
    Ref ref;
    size_t inserts, queries, perInsert;
    bool lateInsert, allQueries, badExps, equal;
    i64 wrongAt; // give a wrong answer to this query
    bool madeWrong;
    long ticks;
  };
  Record* rec = 0;
  struct Recorder {
    typedef Monomial Entry;
    typedef ::Monomial Monomial;
    Entry found;
    explicit Recorder(size_t vars) {
      rec->ref.vars = vars;
    }
    void look(const std::vector<int>& e) const {
      if (e.size() != rec->ref.vars) rec->badExps = true;
      for (size_t i = 0; i < e.size(); ++i) if (e[i] < 0) rec->badExps = true;
    }
    void insert(std::vector<int>&) {}
    template<class S> void insert(std::vector<int>& e, S& s) {
      CbScope cb;
      look(e);
      ds::now += rec->ticks;
      rec->ticks = 0;
      ++rec->inserts;
      if (rec->queries != 0) rec->lateInsert = true;
      rec->equal = rec->equal || rec->ref.contains(&e[0]);
      const std::vector<const int*> r = rec->ref.insert(&e[0]);
      const Monomial m(e);
      for (size_t i = 0; i < r.size(); ++i) s.push_back(m);
    }
    bool wrong() const {
      const bool w = static_cast<i64>(rec->queries) == rec->wrongAt;
      ++rec->queries;
      rec->madeWrong = rec->madeWrong || w;
      return w;
    }
    Entry* findDivisor(std::vector<int>& e) {
      CbScope cb;
      look(e);
      const bool has = rec->ref.hasDivisor(&e[0]) != wrong();
      if (!has) return 0;
      found = Monomial(e);
      return &found;
    }
    template<class S> void findAllDivisors(const std::vector<int>& e, S& s) const {
      CbScope cb;
      look(e);
      rec->allQueries = true;
      size_t n = rec->ref.divisors(&e[0]).size();
      if (wrong()) n += n == 0 || (e[0] & 1) ? 1 : -1;
      const Monomial m(const_cast<std::vector<int>&>(e));
      for (size_t i = 0; i < n; ++i) s.proceed(m);
    }
    template<class S> void forAll(S&) {}
    size_t size() const {return rec->ref.e.size();}
    std::string getName() const {return "recorder";}
    unsigned long long getExpQueryCount() const {return 1234567;}
  };

  enum {OInsert, OInsertOut, ODivisor, OAll, OForAll, OGenerate, ORun, OPrint};

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    struct M {
      int kind;
      ds::Params p;
      std::unique_ptr<ds::IFinder> m;
      Ref ref;
      unsigned long long queries;
    };
    struct Row {
      std::string name;
      u64 ms, eqs;
      bool operator<(const Row& r) const {return name < r.name || (name == r.name && (ms < r.ms || (ms == r.ms && eqs < r.eqs)));}
      bool operator==(const Row& r) const {return name == r.name && ms == r.ms && eqs == r.eqs;}
    };
    const Plan& _plan;
    std::deque<M> _ms;
    std::deque<ds::Exps> _store; // stay for as long as the models
    size_t _vars;
    int _mag;
    std::unique_ptr<Simulation> _sim;
    bool _generated, _minimize, _findAll;
    bool _equal; // the simulation inserts equal entries, which trees may refuse
    size_t _queries;
    i64 _ticks;
    std::vector<Row> _rows;

    ds::Params params(int kind, u64 h, bool minimize) {
      ds::Params p;
      p.vars = _vars;
      p.minimize = minimize && ds::removes(kind);
      p.sort = h & 1;
      p.toFront = !(h & 1) && (h & 2);
      p.cache = (h & 4) != 0;
      static const double ratios[] = {0.01, 0.1, 0.5, 1};
      p.ratio = ratios[(h >> 3) & 3];
      static const size_t mins[] = {0, 1, 5, 20};
      p.min = mins[(h >> 5) & 3];
      return p;
    }
    ds::Exps& fresh(u64 salt) {
      _store.push_back(ds::Exps(_vars));
      for (size_t v = 0; v < _vars; ++v) _store.back()[v] = static_cast<int>(mix64(salt * 64 + v) % static_cast<u64>(_mag));
      return _store.back();
    }
    void make(M& m) {
      sutOk("destruction", [&] {m.m.reset();});
      sutOk("construction", [&] {m.m.reset(ds::makeModel(m.kind, m.p));});
      m.ref.e.clear();
      m.ref.vars = _vars;
      m.ref.minimize = m.p.minimize;
      m.queries = 0;
    }
    std::vector<const int*> content(M& m) {
      ds::Out o;
      const bool c = m.queries & 1;
      sutOk("forAll", [&] {m.m->forAll(o, c);});
      return o.got;
    }
    void verify(M& m) {
      size_t n = 0;
      unsigned long long q = 0;
      sutOk("size", [&] {
        n = m.m->size();
        q = m.m->queries();
      });
      if (n != m.ref.e.size()) throw Violation("size", strf("%s: size() is %zu with %zu entries", m.m->name().c_str(), n, m.ref.e.size()));
      if (q < m.queries) throw Violation("count", "the number of exponents asked for went down");
      m.queries = q;
      const std::string d = diff(content(m), m.ref.e);
      if (!d.empty()) throw Violation("content", strf("%s: the entries are not the right ones, %s", m.m->name().c_str(), d.c_str()));
      g.log(90, q);
      g.state(mix64(static_cast<u64>(m.kind) * 100000 + std::min<size_t>(n, 60) * 100 + m.p.minimize * 4 + m.p.cache * 2 + m.p.sort) ^ mix64(g.firedInRun));
    }
    void insert(M& m, const Op& op, ds::Exps& e, bool out);
    void generate(const Op& op);
    void runModel(const Op& op);
    void printData(const Op& op);
    void step(const Op& op);
  };

  void Sim::insert(M& m, const Op& op, ds::Exps& e, bool out) {
    ds::Out removed;
    const Ref before = m.ref;
    const Outcome o = out ? sut(op, [&] {m.m->insert(e, removed);}) : sut(op, [&] {m.m->insert(e);});
    if (o == Other) throw Violation("unexpected-exception", "insert threw something else than what was injected");
    if (o == Done) {
      const std::vector<const int*> want = m.ref.insert(&e[0]);
      if (out) {
        const std::string d = diff(removed.got, want);
        if (!d.empty()) throw Violation("removed", strf("%s: an insertion reports the wrong entries as removed, %s", m.m->name().c_str(), d.c_str()));
      }
      if (!want.empty()) g.probe("insertions that removed");
    } else {
      g.probe("insertions aborted");
      // entries may have been removed, and the new one may be there: the rebuild it triggered may be what failed
      const std::vector<const int*> now = content(m);
      std::vector<const int*> gone;
      for (size_t i = 0; i < before.e.size(); ++i)
        if (std::find(now.begin(), now.end(), before.e[i]) == now.end()) gone.push_back(before.e[i]);
      for (size_t i = 0; i < gone.size(); ++i)
        if (!m.p.minimize || !divides(&e[0], gone[i], _vars)) throw Violation("lost", strf("%s: an entry that is no multiple is gone after a failed insertion", m.m->name().c_str()));
      if (out) {
        const std::string d = diff(removed.got, gone);
        if (!d.empty()) throw Violation("removed", strf("%s: a failed insertion reports entries as removed that are not, or the other way around, %s", m.m->name().c_str(), d.c_str()));
      }
      std::vector<const int*> keep;
      for (size_t i = 0; i < before.e.size(); ++i)
        if (std::find(gone.begin(), gone.end(), before.e[i]) == gone.end()) keep.push_back(before.e[i]);
      if (std::find(now.begin(), now.end(), &e[0]) != now.end()) keep.push_back(&e[0]);
      m.ref.e = keep;
    }
  }

  void Sim::generate(const Op& op) {
    const size_t vars = static_cast<size_t>(std::max<i64>(1, std::min<i64>(20, op.arg(0))));
    const size_t inserts = static_cast<size_t>(std::max<i64>(0, std::min<i64>(400, op.arg(1))));
    const size_t queries = static_cast<size_t>(std::max<i64>(0, std::min<i64>(400, op.arg(2))));
    _findAll = op.arg(3) & 1;
    _minimize = op.arg(3) & 2;
    _vars = vars;
    _queries = queries;
    randSalt = mix64(static_cast<u64>(op.arg(4)));
    static const int ranges[] = {3, 10, 100, 1000000};
    randRange = ranges[static_cast<u64>(op.arg(4)) % 4];
    _generated = false;
    _rows.clear();
    sutOk("destruction", [&] {_sim.reset();});
    const bool partial = op.arg(4) & 8;
    sutOk("construction", [&] {_sim.reset(new Simulation(1, partial));});
    auto f = [&] {_sim->makeStandard(vars, inserts, queries, _findAll);};
    randCalls = 0;
    if (op.fault != FNone) {
      if (sut(op, f) != Done) g.probe("generations aborted");
      randCalls = 0;
    }
    sutOk("makeStandard", f); // starts over
    Record r;
    r.ref.minimize = _minimize;
    r.inserts = r.queries = 0;
    r.lateInsert = r.allQueries = r.badExps = r.equal = r.madeWrong = false;
    r.wrongAt = -1;
    r.ticks = _ticks;
    rec = &r;
    bool rejected = false;
    sutOk("running the recorder", [&] {
      try {
        _sim->run<Recorder>();
      } catch (const SimExit&) {rejected = true;}
    });
    if (rejected) throw Violation("rejected", "the first finder to run a simulation is said to be wrong");
    if (r.inserts != inserts || r.queries != queries)
      throw Violation("wrong-amount", strf("%zu insertions and %zu queries when %zu and %zu were asked for", r.inserts, r.queries, inserts, queries));
    if (r.lateInsert || r.badExps) throw Violation("bad-simulation", r.badExps ? "exponents are negative or not as many as there are variables" : "an insertion comes after a query");
    if (queries != 0 && r.allQueries != _findAll) throw Violation("bad-simulation", "queries are of the wrong kind");
    Row row = {"recorder", static_cast<u64>(_ticks) * 1000 / CLOCKS_PER_SEC, 1234567};
    if (inserts == 0) row.ms = 0;
    _rows.push_back(row);
    _equal = r.equal;
    _generated = true;
    g.probe("simulations generated");
  }

  void Sim::runModel(const Op& op) {
    if (!_generated) return;
    int kind = static_cast<int>(op.arg(0));
    if (kind < 0) { // a finder that is wrong once must be noticed
      if (_queries == 0) return;
      Record r;
      r.ref.minimize = _minimize;
      r.inserts = r.queries = 0;
      r.lateInsert = r.allQueries = r.badExps = r.equal = r.madeWrong = false;
      r.wrongAt = static_cast<i64>(static_cast<u64>(op.arg(1)) % _queries);
      r.ticks = 0;
      rec = &r;
      bool rejected = false;
      sutOk("running a wrong finder", [&] {
        try {
          _sim->run<Recorder>();
        } catch (const SimExit&) {rejected = true;}
      });
      if (!rejected) throw Violation("missed-error", strf("a finder that gives a wrong answer to query %lld of %zu passes", (long long)r.wrongAt, _queries));
      g.probe("wrong finders rejected");
      return;
    }
    kind %= ds::modelCount;
    if (_minimize && !ds::removes(kind)) kind = 4 + kind % 8;
    if (!_minimize && _equal) kind %= 4;
    const ds::Params p = params(kind, static_cast<u64>(op.arg(1)), _minimize);
    const long ticks = static_cast<long>(mix64(static_cast<u64>(op.arg(1))) % (static_cast<u64>(_ticks) + 1)) / 1000 * 1000;
    bool rejected = false;
    unsigned long long eqs = 0;
    const u64 before = static_cast<u64>(ds::now);
    const Outcome o = sut(op, [&] {
      try {
        eqs = ds::runModel(kind, p, *_sim, ticks);
      } catch (const SimExit&) {rejected = true;}
    });
    if (o == Other) throw Violation("unexpected-exception", "run threw something else than what was injected");
    if (rejected) throw Violation("rejected", strf("finder model %d is said to give a wrong answer", kind));
    if (o == Done) {
      Row r;
      {
        std::unique_ptr<ds::IFinder> m;
        sutOk("name", [&] {
          m.reset(ds::makeModel(kind, p));
          const std::string n = m->name();
          CbScope cb;
          r.name = n;
        });
        sutOk("destruction", [&] {m.reset();});
      }
      r.ms = (static_cast<u64>(ds::now) - before) * 1000 / CLOCKS_PER_SEC;
      r.eqs = eqs;
      _rows.push_back(r);
      g.log(92, eqs);
      g.probe("models run");
    } else g.probe("aborted runs");
  }

  u64 number(const std::string& s) {
    u64 v = 0;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] != ',') v = v * 10 + (s[i] - '0');
    return v;
  }

  void Sim::printData(const Op& op) {
    if (_rows.empty()) return;
    Sink s;
    SimBuf buf(s);
    std::ostream out(&buf);
    const Outcome o = sut(op, [&] {_sim->printData(out);});
    if (o == Other) throw Violation("unexpected-exception", "printData threw something else than what was injected");
    if (op.fault != FNone) { // now without a failure
      s.data.clear();
      out.clear();
      sutOk("printData", [&] {_sim->printData(out);});
    }
    std::istringstream in(s.data);
    std::string line;
    std::getline(in, line);
    std::vector<Row> got;
    u64 last = 0;
    while (std::getline(in, line)) {
      std::istringstream l(line);
      std::vector<std::string> w;
      std::string x;
      while (l >> x) w.push_back(x);
      const size_t n = w.size();
      bool ok = n >= 3;
      static const char* const unit[] = {"ms", "eqs"};
      for (int k = 0; k < 2 && ok; ++k) {
        std::string& v = w[n - 2 + k];
        const std::string u = unit[k];
        ok = v.size() > u.size() && v.compare(v.size() - u.size(), u.size(), u) == 0;
        if (ok) v.resize(v.size() - u.size());
        ok = ok && v.find_first_not_of("0123456789,") == std::string::npos;
        for (size_t i = 0; ok && i < v.size(); ++i) ok = (v[v.size() - 1 - i] == ',') == (i % 4 == 3);
      }
      if (!ok) throw Violation("wrong-table", strf("a line of the outcome is \"%s\"", line.c_str()));
      Row r;
      r.name = w[0];
      for (size_t i = 1; i + 2 < n; ++i) r.name += " " + w[i];
      r.ms = number(w[n - 2]);
      r.eqs = number(w[n - 1]);
      if (r.ms < last) throw Violation("wrong-table", "the outcome is not sorted by time");
      last = r.ms;
      got.push_back(r);
    }
    std::vector<Row> want = _rows;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
      if (i < std::min(got.size(), want.size()) && got[i] == want[i]) continue;
      const Row& r = i < want.size() ? want[i] : got[i];
      throw Violation("wrong-table", strf("the outcome has %zu rows for %zu runs, or the row of %s (%llu ms, %llu eqs) is not right: %s", got.size(), want.size(), r.name.c_str(), (unsigned long long)r.ms, (unsigned long long)r.eqs, s.data.c_str()));
    }
    g.probe("outcomes printed");
  }

  void Sim::step(const Op& op) {
    g.log(60 + op.kind);
    const u64 salt = static_cast<u64>(op.arg(1));
    const size_t target = static_cast<size_t>(op.arg(2)) % _ms.size();
    switch (op.kind) {
    case OInsert: case OInsertOut:
      for (i64 k = 0; k < std::max<i64>(1, std::min<i64>(200, op.arg(0))); ++k) {
        ds::Exps& e = fresh(salt + static_cast<u64>(k));
        for (size_t i = 0; i < _ms.size(); ++i) {
          if (!ds::isList(_ms[i].kind) && !_ms[i].p.minimize && _ms[i].ref.contains(&e[0])) continue; // trees may refuse it
          insert(_ms[i], k == 0 && i == target ? op : noFault, e, op.kind == OInsertOut);
          if (k == 0) verify(_ms[i]);
        }
      }
      for (size_t i = 0; i < _ms.size(); ++i) verify(_ms[i]);
      break;
    case ODivisor: case OAll: {
      ds::Exps e = fresh(salt);
      _store.pop_back();
      for (size_t v = 0; v < _vars; ++v) if (mix64(salt + v) % 3 == 0) e[v] += static_cast<int>(mix64(salt - v) % static_cast<u64>(_mag));
      const bool constant = op.arg(0) & 1;
      for (size_t i = 0; i < _ms.size(); ++i) {
        M& m = _ms[i];
        const Op& fop = i == target ? op : noFault;
        if (op.kind == ODivisor) {
          const int* got = 0;
          const Outcome o = sut(fop, [&] {got = m.m->findDivisor(e, constant);});
          if (o == Other) throw Violation("unexpected-exception", "findDivisor threw something else than what was injected");
          if (o == Done) {
            if ((got != 0) != m.ref.hasDivisor(&e[0])) throw Violation("wrong-answer", strf("%s: findDivisor finds %s", m.m->name().c_str(), got ? "something when nothing divides" : "nothing when there is a divisor"));
            if (got != 0 && (std::find(m.ref.e.begin(), m.ref.e.end(), got) == m.ref.e.end() || !divides(got, &e[0], _vars)))
              throw Violation("wrong-answer", strf("%s: findDivisor returns what is no entry or does not divide", m.m->name().c_str()));
          } else g.probe("queries aborted");
        } else {
          ds::Out got;
          got.stopAfter = op.arg(0) & 2 ? 1 + salt % 3 : 0;
          const Outcome o = sut(fop, [&] {m.m->findAllDivisors(e, got, constant);});
          if (o == Other) throw Violation("unexpected-exception", "findAllDivisors threw something else than what was injected");
          const std::vector<const int*> want = m.ref.divisors(&e[0]);
          if (o == Done && (got.stopAfter == 0 || want.size() < got.stopAfter)) {
            const std::string d = diff(got.got, want);
            if (!d.empty()) throw Violation("wrong-answer", strf("%s: findAllDivisors finds %s", m.m->name().c_str(), d.c_str()));
          } else {
            if (o == Done && got.got.size() != got.stopAfter) throw Violation("wrong-answer", strf("%s: findAllDivisors reports %zu when told to stop after %zu of %zu", m.m->name().c_str(), got.got.size(), got.stopAfter, want.size()));
            for (size_t k = 0; k < got.got.size(); ++k)
              if (std::find(want.begin(), want.end(), got.got[k]) == want.end()) throw Violation("wrong-answer", strf("%s: findAllDivisors reports what is no divisor", m.m->name().c_str()));
          }
          if (o != Done) g.probe("queries aborted");
        }
        verify(m);
      }
      break;
    }
    case OForAll:
      for (size_t i = 0; i < _ms.size(); ++i) verify(_ms[i]);
      break;
    case OGenerate: generate(op); break;
    case ORun: runModel(op); break;
    case OPrint: printData(op); break;
    }
  }

  void Sim::run() {
    ds::now = 5000;
    _generated = false;
    _ticks = std::max<i64>(0, _plan.get("ticks", 1000)) / 1000 * 1000; // whole milliseconds
    _vars = static_cast<size_t>(std::min<i64>(20, std::max<i64>(1, _plan.get("vars", 3))));
    _mag = static_cast<int>(std::max<i64>(1, _plan.get("mag", 5)));
    const size_t n = static_cast<size_t>(std::min<i64>(4, std::max<i64>(1, _plan.get("models", 2))));
    struct Redirect { // what the simulator writes to cout and cerr
      Redirect(std::streambuf* b): out(std::cout.rdbuf(b)), err(std::cerr.rdbuf(b)) {}
      ~Redirect() {
        std::cout.rdbuf(out);
        std::cout.clear();
        std::cerr.rdbuf(err);
        std::cerr.clear();
      }
      std::streambuf *out, *err;
    };
    struct Null: public std::streambuf {
      int_type overflow(int_type c) {return traits_type::not_eof(c);}
      std::streamsize xsputn(const char*, std::streamsize n) {return n;}
    } null;
    Redirect redirect(&null);
    _ms.resize(n);
    const u64 h = static_cast<u64>(_plan.get("settings"));
    for (size_t i = 0; i < n; ++i) {
      _ms[i].kind = static_cast<int>((static_cast<u64>(_plan.get("kind")) + i * static_cast<u64>(_plan.get("stride", 1))) % ds::modelCount);
      _ms[i].p = params(_ms[i].kind, mix64(h + i), _plan.get("minimize") != 0);
      make(_ms[i]);
    }
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
      std::cerr.clear();
      std::cout.clear();
    }
    sutOk("destruction", [&] {
      _sim.reset();
      for (size_t i = 0; i < n; ++i) _ms[i].m.reset();
    });
  }
}

namespace sim {
  const char* const opNames[] = {"insert", "insertReporting", "findDivisor", "findAllDivisors", "forAll", "generate", "run", "printData"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C25";}

  void harnessGenerate(Rng& r, bool thorough, Plan& p) {
    const bool simulate = r.chance(35);
    p.set("models", simulate ? 1 : r.range(1, 3));
    p.set("kind", static_cast<i64>(r.below(ds::modelCount)));
    p.set("stride", r.range(1, ds::modelCount - 1));
    p.set("vars", r.chance(70) ? r.range(1, 5) : r.range(1, 20));
    p.set("mag", r.chance(60) ? r.range(2, 5) : r.range(4, 60));
    p.set("minimize", r.chance(70));
    p.set("settings", static_cast<i64>(r.below(1u << 30)));
    p.set("ticks", static_cast<i64>(r.below(r.chance(50) ? 50000 : 2000000000)));
    const bool faults = r.chance(50);
    const int percent = r.chance(50) ? 15 : 50;
    const std::vector<int> kinds(1, FAlloc);
    if (simulate) {
      const i64 rounds = r.range(1, 2);
      for (i64 k = 0; k < rounds; ++k) {
        Op op(OGenerate);
        op.add(r.range(1, r.chance(70) ? 5 : 20)).add(r.chance(10) ? 0 : r.chance(60) ? r.range(1, 40) : r.range(1, thorough ? 400 : 150))
          .add(r.chance(10) ? 0 : r.chance(60) ? r.range(1, 40) : r.range(1, thorough ? 400 : 150)).add(r.below(4)).add(static_cast<i64>(r.below(1u << 30)));
        if (faults && r.chance(percent)) drawFault(r, op, kinds, 60);
        p.ops.push_back(op);
        const i64 n = r.range(1, thorough ? 12 : 7);
        for (i64 i = 0; i < n; ++i) {
          Op o(r.chance(85) ? ORun : OPrint);
          if (o.kind == ORun) o.add(r.chance(12) ? -1 : static_cast<i64>(r.below(ds::modelCount))).add(static_cast<i64>(r.below(1u << 30)));
          if (faults && r.chance(percent)) drawFault(r, o, kinds, o.kind == ORun ? 20 : 40);
          p.ops.push_back(o);
        }
        p.ops.push_back(Op(OPrint));
      }
      return;
    }
    const i64 n = r.range(2, r.chance(40) ? 20 : thorough ? 200 : 80);
    std::vector<int> w(5);
    for (int i = 0; i < 5; ++i) w[i] = 1 + static_cast<int>(r.below(8));
    w[OInsertOut] += 4;
    w[OForAll] = 1;
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(r.weighted(w)));
      op.add(op.kind <= OInsertOut ? (r.chance(70) ? 1 : r.small(40)) : static_cast<i64>(r.below(4))).add(static_cast<i64>(r.below(1u << 30))).add(r.below(4));
      if (faults && r.chance(percent)) drawFault(r, op, kinds, 4);
      p.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
