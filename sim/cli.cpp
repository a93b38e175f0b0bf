// Workload, reference model and oracle for the command line classes (C14).
#include "sim.h"
#include "simio.h"
#include <mathic/CliParser.h>
#include <mathic/CliParameter.h>
#include <mathic/IntegerParameter.h>
#include <mathic/BoolParameter.h>
#include <mathic/StringParameter.h>
#include <mathic/HelpAction.h>
#include <mathic/error.h>
#include <algorithm>
#include <memory>
#include <set>

namespace {
  using namespace sim;
  using mathic::CliParameter;
  typedef std::vector<std::string> Strings;

  // ------------------------------------------------------- what is registered
  enum PKind {PInt, PBool, PString, PCustom};
  struct PSpec {int kind; std::string name; std::string def;};
  struct ASpec {std::string name, desc, shortDesc; bool takesDirect; std::vector<PSpec> params;};
  const int MaxActions = 8;
  ASpec g_spec[MaxActions];

  // A user-defined parameter: accepts words without 'z', may fail on command.
  class CustomParameter: public CliParameter {
  public:
    CustomParameter(const std::string& n, const std::string& d, const std::string& v): CliParameter(n, d), _v(v) {}
    const std::string& value() const {return _v;}
    virtual std::string argumentType() const {return "WORD";}
    virtual std::string valueAsString() const {return _v;}
    virtual void processArgument(const std::string& a) {
      g.log(21, a.size());
      g.throwAt(FVisit);
      if (a.find('z') != std::string::npos) mathic::reportError("bad word for " + name());
      _v = a;
    }
  private:
    std::string _v;
  };

  class SimBase;
  struct NestHook {
    virtual ~NestHook() {}
    virtual void nested(mathic::CliParser& p) = 0;
  };
  NestHook* g_nest = 0;

  class SimBase: public mathic::Action {
  public:
    SimBase(int i): index(i) {
      g.log(22, static_cast<u64>(i));
      g.throwAt(FConstruct);
      const ASpec& s = g_spec[i];
      for (size_t j = 0; j < s.params.size(); ++j) {
        const PSpec& p = s.params[j];
        std::unique_ptr<CliParameter> c;
        const std::string d = "describes " + p.name;
        if (p.kind == PInt) c.reset(new mathic::IntegerParameter(p.name, d, static_cast<unsigned>(std::atoi(p.def.c_str()))));
        else if (p.kind == PBool) c.reset(new mathic::BoolParameter(p.name, d, p.def == "on"));
        else if (p.kind == PString) c.reset(new mathic::StringParameter(p.name, d, p.def));
        else c.reset(new CustomParameter(p.name, d, p.def));
        params.push_back(std::move(c));
      }
      ++g.liveEntries;
    }
    virtual ~SimBase() {--g.liveEntries;}
    virtual void directOptions(Strings tokens, mathic::CliParser& parser) {
      g.throwAt(FVisit);
      if (g_nest) {
        NestHook* const h = g_nest;
        g_nest = 0;
        h->nested(parser);
      }
      if (g_spec[index].takesDirect) direct = tokens;
      else Action::directOptions(tokens, parser);
    }
    virtual void performAction() {}
    virtual const char* name() const {return g_spec[index].name.c_str();}
    virtual const char* description() const {return g_spec[index].desc.c_str();}
    virtual const char* shortDescription() const {return g_spec[index].shortDesc.c_str();}
    virtual void pushBackParameters(std::vector<CliParameter*>& p) {
      g.throwAt(FVisit);
      for (size_t j = 0; j < params.size(); ++j) p.push_back(params[j].get());
    }
    const int index;
    std::vector<std::unique_ptr<CliParameter> > params;
    Strings direct;
  };
  template<int I> class SimAction: public SimBase {
  public:
    SimAction(): SimBase(I) {}
  };
  void registerAction(mathic::CliParser& p, int i) {
    const std::string& n = g_spec[i].name;
    switch (i) {
    case 0: p.registerAction<SimAction<0> >(n); break;
    case 1: p.registerAction<SimAction<1> >(n); break;
    case 2: p.registerAction<SimAction<2> >(n); break;
    case 3: p.registerAction<SimAction<3> >(n); break;
    case 4: p.registerAction<SimAction<4> >(n); break;
    case 5: p.registerAction<SimAction<5> >(n); break;
    case 6: p.registerAction<SimAction<6> >(n); break;
    default: p.registerAction<SimAction<7> >(n); break;
    }
  }

  // -------------------------------------------------------------------- model
  // Errors a command line contains, as a set of bits.
  enum {EUnknown = 1, EAmbiguous = 2, EOther = 4};
  const int HelpIndex = 100;
  struct Result {
    Result(): errors(0), action(-1) {}
    int errors;
    std::string culprit; // the name an Unknown/Ambiguous error must mention
    int action;
    Strings values, direct;
    bool open; // an argument the documentation leaves open
  };

  bool startsWith(const std::string& s, const std::string& p) {return s.compare(0, p.size(), p) == 0;}

  // exact match, else unique prefix
  int resolve(const Strings& names, const std::string& p, int& error) {
    int found = -1, count = 0;
    for (size_t i = 0; i < names.size(); ++i) {
      if (names[i] == p) return static_cast<int>(i);
      if (startsWith(names[i], p)) {found = static_cast<int>(i); ++count;}
    }
    error = count == 0 ? EUnknown : count > 1 ? EAmbiguous : 0;
    return count == 1 ? found : -1;
  }

  // 0 reject, 1 accept, 2 open
  int intArg(const std::string& s, std::string& shown) {
    shown = s;
    if (s.empty() || s.size() > 10) return 0;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return 0;
    if (s[0] == '0' && s.size() > 1) return 0; // not the form it is printed in
    const unsigned long long v = strtoull(s.c_str(), 0, 10);
    if (v > 0xffffffffull) return 0;
    return v > 0x7fffffffull ? 2 : 1; // the message says up to 2^31-1, the type holds more
  }
  int acceptArg(int kind, const std::string& arg, std::string& shown) {
    shown = arg;
    switch (kind) {
    case PInt: return intArg(arg, shown);
    case PBool:
      if (arg.empty()) shown = "on";
      return arg.empty() || arg == "on" || arg == "off";
    case PString: return 1;
    default: return arg.find('z') == std::string::npos;
    }
  }

  class ParamSet;
  struct Held {
    std::unique_ptr<mathic::Action> a;
    Result r;
  };

  enum {ORegister, ORegisterHelp, OList, OCreate, OParse, OParam, OSetParam, OHelp, ORecreate, ODrop, OParamInfo};

  class Sim: public NestHook {
  public:
    Sim(const Plan& p): _plan(p), _helpRegistered(false), _depth(0), _nestSalt(0), _withoutFault(true) {}
    void run();
    virtual void nested(mathic::CliParser& p);
  private:
    void makeSpecs();
    std::string word(u64 h) const;
    std::string token(u64 code, int action) const;
    Strings commandLine(const Op& op, size_t from) const;
    Strings commandLine(u64 salt, const std::vector<i64>& codes, size_t from) const;
    std::string actionWord(u64 h) const;
    Result expect(const Strings& line) const;
    void parse(const Op& op, const Strings& line, bool keep);
    void judgeAction(mathic::Action* a, const Result& r, const char* what);
    void checkHeld();
    void checkNames();
    void checkParams();
    void help(const Op& op);
    void step(const Op& op);
    const Plan& _plan;
    std::unique_ptr<mathic::CliParser> _p;
    std::vector<int> _registered; // action indexes, HelpIndex for help
    bool _helpRegistered;
    std::string _pre, _post;
    std::vector<Held> _held;
    int _depth;
    u64 _nestSalt;
    bool _withoutFault;
    std::unique_ptr<mathic::IntegerParameter> _int;
    std::unique_ptr<mathic::BoolParameter> _bool;
    std::unique_ptr<mathic::StringParameter> _string;
    std::string _vals[3];
    std::string _descs[3];
  };

  std::string Sim::word(u64 h) const {
    static const char* const pool[] = {"a", "ab", "abc", "abd", "abcd", "b", "ba", "bab", "list", "lists", "listing", "l",
      "ideal", "idealize", "id", "he", "helper", "x", "xy", "a-rather-long-name-of-something", "a-rather-long-name-of-something-else",
      "sort", "sorted", "s", "zz"};
    const size_t n = sizeof pool / sizeof *pool;
    if (h % 10 < 8) return pool[(h >> 8) % n];
    std::string s;
    const size_t len = 1 + (h >> 8) % 3;
    for (size_t i = 0; i < len; ++i) s += "ab"[(h >> (16 + i)) & 1];
    return s;
  }

  void Sim::makeSpecs() {
    const u64 seed = static_cast<u64>(_plan.get("names"));
    const int maxParams = static_cast<int>(_plan.get("params")) % 8;
    std::set<std::string> used;
    used.insert("help");
    for (int i = 0; i < MaxActions; ++i) {
      ASpec& s = g_spec[i];
      s = ASpec();
      u64 h = mix64(seed * 100 + static_cast<u64>(i));
      do {s.name = word(h); h = mix64(h);} while (!used.insert(s.name).second);
      s.takesDirect = h & 1;
      s.desc = "This is what action number " + strf("%d", i) + " does.";
      s.shortDesc = strf("Short%d text.", i);
      std::set<std::string> pn;
      const int n = maxParams ? static_cast<int>((h >> 8) % static_cast<u64>(maxParams + 1)) : 0;
      for (int j = 0; j < n; ++j) {
        PSpec p;
        h = mix64(h + 3);
        do {p.name = word(h); h = mix64(h);} while (!pn.insert(p.name).second);
        p.kind = static_cast<int>((h >> 4) % 4);
        p.def = p.kind == PInt ? strf("%d", static_cast<int>((h >> 8) % 1000)) : p.kind == PBool ? ((h >> 8) & 1 ? "on" : "off") :
          (h >> 8) % 3 == 0 ? "" : (h >> 8) % 3 == 1 ? "word" : "a default value that needs memory";
        s.params.push_back(p);
      }
    }
  }

  std::string Sim::actionWord(u64 h) const {
    const u64 k = h % 12;
    h >>= 4;
    if (k < 7 && !_registered.empty()) {
      const int r = _registered[h % _registered.size()];
      const std::string n = r == HelpIndex ? "help" : g_spec[r].name;
      if (k < 4) return n;
      return n.substr(0, 1 + (h >> 8) % n.size());
    }
    if (k < 10) return g_spec[h % MaxActions].name;
    if (k == 10) return "";
    return word(h);
  }

  // Words for the rest of a command line; the action decides the likely ones.
  std::string Sim::token(u64 code, int action) const {
    const u64 k = code % 20;
    u64 h = mix64(code);
    static const char* const ints[] = {"0", "1", "17", "2147483647", "4294967295", "4294967296", "99999999999999999999", "+5", "007", "3x", " 4", "0x10", "12 "};
    const std::vector<PSpec>* ps = action >= 0 && action < MaxActions && !g_spec[action].params.empty() ? &g_spec[action].params : 0;
    if (k < 7 && ps) {
      const std::string& n = (*ps)[h % ps->size()].name;
      if (k < 5) return "-" + n;
      return "-" + n.substr(0, 1 + (h >> 8) % n.size());
    }
    if (k < 11) return strf("%u", static_cast<unsigned>((h >> 8) % ((h & 7) ? 300 : 2147483648u)));
    if (k < 12) return ints[h % (sizeof ints / sizeof *ints)];
    if (k < 14) return (h & 1) ? "on" : "off";
    if (k < 15) return "";
    if (k < 16) return (h & 3) ? "-" + word(h >> 8) : "-";
    if (k < 17) return (h & 1) ? "-5" : "--";
    if (k < 18) return "a much longer word that does not fit into a short string";
    return word(h);
  }

  Strings Sim::commandLine(u64 salt, const std::vector<i64>& codes, size_t from) const {
    Strings line;
    if (salt % 50 == 0) return line;
    line.push_back(actionWord(mix64(salt)));
    int error = 0;
    Strings names;
    for (size_t i = 0; i < _registered.size(); ++i) names.push_back(_registered[i] == HelpIndex ? "help" : g_spec[_registered[i]].name);
    const int r = resolve(names, line[0], error);
    const int action = r < 0 ? -1 : _registered[static_cast<size_t>(r)];
    for (size_t i = from; i < codes.size(); ++i) line.push_back(token(static_cast<u64>(codes[i]), action));
    return line;
  }
  Strings Sim::commandLine(const Op& op, size_t from) const {
    return commandLine(static_cast<u64>(op.arg(0)), op.a, from);
  }

  Result Sim::expect(const Strings& line) const {
    Result r;
    r.open = false;
    if (line.empty()) {r.errors = EUnknown; return r;}
    Strings names;
    for (size_t i = 0; i < _registered.size(); ++i) names.push_back(_registered[i] == HelpIndex ? "help" : g_spec[_registered[i]].name);
    int error = 0;
    const int a = resolve(names, line[0], error);
    if (a < 0) {r.errors = error; r.culprit = line[0]; return r;}
    r.action = _registered[static_cast<size_t>(a)];
    std::vector<PSpec> ps;
    if (r.action != HelpIndex) ps = g_spec[r.action].params;
    Strings pnames;
    for (size_t i = 0; i < ps.size(); ++i) {pnames.push_back(ps[i].name); r.values.push_back(ps[i].def);}
    Strings options;
    bool dash = false;
    for (size_t i = 1; i < line.size(); ++i) {
      if (line[i].empty()) continue;
      if (line[i][0] == '-') dash = true;
      (dash ? options : r.direct).push_back(line[i]);
    }
    if (r.action == HelpIndex ? r.direct.size() > 1 : (!r.direct.empty() && !g_spec[r.action].takesDirect)) r.errors |= EOther;
    for (size_t i = 0; i < options.size(); ++i) {
      if (options[i][0] != '-') {r.errors |= EOther; continue;}
      const std::string n = options[i].substr(1);
      std::string arg;
      if (i + 1 < options.size() && options[i + 1][0] != '-') arg = options[++i];
      int e = 0;
      const int p = resolve(pnames, n, e);
      if (p < 0) {r.errors |= e; r.culprit = n; continue;}
      std::string shown;
      const int acc = acceptArg(ps[static_cast<size_t>(p)].kind, arg, shown);
      if (acc == 0) r.errors |= EOther;
      else {
        if (acc == 2) r.open = true;
        r.values[static_cast<size_t>(p)] = shown;
      }
    }
    return r;
  }

  void Sim::judgeAction(mathic::Action* a, const Result& r, const char* what) {
    if (a == 0) throw Violation("wrong-action", std::string(what) + " returns no action");
    if (r.action == HelpIndex) {
      if (!a->isHelpAction()) throw Violation("wrong-action", std::string(what) + " should give the help action, gives " + a->name());
      return;
    }
    SimBase* const s = dynamic_cast<SimBase*>(a);
    if (s == 0 || s->index != r.action)
      throw Violation("wrong-action", strf("%s should give action %s, gives %s", what, g_spec[r.action].name.c_str(), a->name()));
    if (g_spec[r.action].takesDirect && s->direct != r.direct)
      throw Violation("wrong-parameter", strf("%s: action %s got %zu direct parameters, should get %zu", what, a->name(), s->direct.size(), r.direct.size()));
    for (size_t i = 0; i < s->params.size(); ++i) {
      std::string v;
      const CliParameter& p = *s->params[i];
      sutOk("valueAsString", [&] {v = p.valueAsString();});
      if (p.name() != g_spec[r.action].params[i].name) throw Violation("wrong-parameter", "a parameter changed its name");
      if (v != r.values[i])
        throw Violation("wrong-parameter", strf("%s: parameter %s of action %s has value %s, should have %s", what, p.name().c_str(), a->name(), quote(v).c_str(), quote(r.values[i]).c_str()));
      bool same = true;
      if (const mathic::IntegerParameter* ip = dynamic_cast<const mathic::IntegerParameter*>(&p)) same = strf("%u", ip->value()) == v && static_cast<unsigned int>(*ip) == ip->value();
      else if (const mathic::BoolParameter* bp = dynamic_cast<const mathic::BoolParameter*>(&p)) same = bp->value() == (v == "on") && static_cast<bool>(*bp) == bp->value();
      else if (const mathic::StringParameter* sp = dynamic_cast<const mathic::StringParameter*>(&p)) same = sp->value() == v && *sp == v && !(*sp == v + "x") && static_cast<const std::string&>(*sp) == v;
      if (!same) throw Violation("wrong-parameter", strf("value and valueAsString of parameter %s differ", p.name().c_str()));
    }
  }

  void Sim::parse(const Op& op, const Strings& line, bool keep) {
    const Result r = expect(line);
    std::unique_ptr<mathic::Action> a;
    int kind = 0; // what was thrown
    std::string what;
    mathic::CliParser& p = *_p;
    bool argvForm = (line.size() & 1) && !line.empty();
    std::vector<char*> argv;
    std::vector<std::string> store = line;
    for (size_t i = 0; i < store.size(); ++i) argv.push_back(&store[i][0]);
    const Outcome o = sut(op, [&] {
      try {
        a = argvForm ? p.parse(static_cast<int>(argv.size()), argv.data()) : p.parse(line);
      } catch (const mathic::UnknownNameException& e) {CbScope cb; kind = EUnknown; what = e.what();}
      catch (const mathic::AmbiguousNameException& e) {CbScope cb; kind = EAmbiguous; what = e.what();}
      catch (const mathic::MathicException& e) {CbScope cb; kind = EOther; what = e.what();}
    });
    if (g.verbose) {
      std::string s;
      for (size_t i = 0; i < line.size(); ++i) s += " " + quote(line[i]);
      g.say("parse%s -> %s %s", s.c_str(), o == Done ? (kind ? "error" : "ok") : outcomeName(o), what.c_str());
    }
    g.log(71, static_cast<u64>(kind * 16 + r.errors));
    g_nest = 0;
    const bool fired = o != Done || !_withoutFault;
    if (o == Other) throw Violation("unexpected-exception", "parse threw something that is not a MathicException");
    if (o != Done) {g.probe("aborted parses"); return;}
    if (kind == 0) {
      if (r.errors) throw Violation("missed-error", strf("a command line with errors (%d) is accepted", r.errors));
      judgeAction(a.get(), r, "parse");
      g.probe("successful parses");
      if (keep) {
        if (_held.size() >= 4) _held.erase(_held.begin());
        _held.push_back(Held());
        _held.back().a = std::move(a);
        _held.back().r = r;
      }
    } else if (!r.errors) {
      if (!r.open && (!fired || op.fault == FAlloc)) throw Violation("false-error", "a correct command line is rejected: " + what);
    } else {
      g.probe("rejected command lines");
      const bool single = r.errors == EUnknown || r.errors == EAmbiguous || r.errors == EOther;
      if (single && kind != r.errors && (op.fault == FNone || op.fault == FAlloc) && !r.open)
        throw Violation("wrong-error", strf("error of kind %d where %d is due: %s", kind, r.errors, what.c_str()));
      if (single && kind != EOther && r.errors == kind && !r.culprit.empty() && r.action < 0 && what.find(r.culprit) == std::string::npos)
        throw Violation("wrong-error", "the error does not name " + quote(r.culprit) + ": " + what);
    }
    sutOk("destroying an action", [&] {a.reset();});
  }

  void Sim::nested(mathic::CliParser& p) {
    CbScope cb;
    if (&p != _p.get()) throw Violation("wrong-parser", "directOptions is given another parser than the one parsing");
    g.probe("nested parses");
    std::vector<i64> codes;
    for (u64 i = 0; i < _nestSalt % 4; ++i) codes.push_back(static_cast<i64>(mix64(_nestSalt + i) % 100000));
    parse(noFault, commandLine(_nestSalt + 1, codes, 0), false);
  }

  void Sim::checkHeld() {
    for (size_t i = 0; i < _held.size(); ++i) judgeAction(_held[i].a.get(), _held[i].r, "held action");
  }

  void Sim::checkNames() {
    Strings names, want;
    const mathic::CliParser& p = *_p;
    sutOk("pushBackRegisteredActionNames", [&] {p.pushBackRegisteredActionNames(names);});
    for (size_t i = 0; i < _registered.size(); ++i) want.push_back(_registered[i] == HelpIndex ? "help" : g_spec[_registered[i]].name);
    std::sort(want.begin(), want.end());
    if (names != want) throw Violation("registered-names", strf("%zu names are reported as registered, should be %zu, sorted", names.size(), want.size()));
    if (p.helpPreMessage() != _pre || p.helpPostMessage() != _post) throw Violation("help-message", "the help messages are not those registered");
    sutOk("destroying names", [&] {Strings().swap(names);});
  }

  void Sim::checkParams() {
    std::string v[3];
    sutOk("valueAsString", [&] {
      v[0] = _int->valueAsString();
      v[1] = _bool->valueAsString();
      v[2] = _string->valueAsString();
    });
    for (int i = 0; i < 3; ++i)
      if (v[i] != _vals[i]) throw Violation("wrong-parameter", strf("a parameter has value %s, should have %s", quote(v[i]).c_str(), quote(_vals[i]).c_str()));
    if (strf("%u", _int->value()) != v[0] || _bool->value() != (v[1] == "on") || _string->value() != v[2] ||
        static_cast<unsigned int>(*_int) != _int->value() || static_cast<bool>(*_bool) != _bool->value() ||
        static_cast<const std::string&>(*_string) != v[2] || !(*_string == v[2]))
      throw Violation("wrong-parameter", "value and valueAsString differ");
    if (_int->description() != _descs[0] || _bool->description() != _descs[1] || _string->description() != _descs[2])
      throw Violation("wrong-parameter", "a parameter has the wrong description");
    sutOk("destroying values", [&] {for (int i = 0; i < 3; ++i) std::string().swap(v[i]);});
  }

  Strings words(const std::string& s) {
    Strings r;
    std::string w;
    for (size_t i = 0; i <= s.size(); ++i) {
      if (i == s.size() || isspace(static_cast<unsigned char>(s[i]))) {
        if (!w.empty()) r.push_back(w);
        w.clear();
      } else w += s[i];
    }
    return r;
  }

  // help [topic] performed with standard error captured
  void Sim::help(const Op& op) {
    if (!_helpRegistered) return;
    Strings line(1, "help");
    const std::string topic = (op.arg(0) & 1) ? actionWord(mix64(static_cast<u64>(op.arg(1)))) : "";
    if (!topic.empty() && topic[0] != '-') line.push_back(topic);
    std::unique_ptr<mathic::Action> a;
    mathic::CliParser& p = *_p;
    sutOk("parse", [&] {a = p.parse(line);});
    Sink sink;
    FILE* const f = openSink(sink);
    FILE* const old = stderr;
    int kind = 0;
    std::string what;
    stderr = f;
    Outcome o = Done;
    try {
      o = sut(op, [&] {
        try {a->performAction();}
        catch (const mathic::UnknownNameException& e) {CbScope cb; kind = EUnknown; what = e.what();}
        catch (const mathic::AmbiguousNameException& e) {CbScope cb; kind = EAmbiguous; what = e.what();}
      });
    } catch (...) {
      stderr = old;
      fclose(f);
      throw;
    }
    stderr = old;
    fclose(f);
    sutOk("destroying an action", [&] {a.reset();});
    g.say("help %s -> %s, %zu characters", topic.c_str(), outcomeName(o), sink.data.size());
    if (o == Other) throw Violation("unexpected-exception", "help threw something that is not a MathicException");
    // Help that does not report a lack of memory has to be complete.
    if (o != Done || (op.fault != FNone && op.fault != FAlloc)) {g.probe("help under faults"); return;}
    Strings want;
    if (line.size() == 1) {
      if (kind) throw Violation("false-error", "help fails: " + what);
      Strings names;
      for (size_t i = 0; i < _registered.size(); ++i) names.push_back(_registered[i] == HelpIndex ? "help" : g_spec[_registered[i]].name);
      std::sort(names.begin(), names.end());
      want = words(_pre);
      for (size_t i = 0; i < names.size(); ++i) {
        want.push_back(names[i]);
        want.push_back("-");
        std::string d;
        if (names[i] == "help") d = mathic::HelpAction().shortDescription();
        else for (int j = 0; j < MaxActions; ++j) if (g_spec[j].name == names[i]) d = g_spec[j].shortDesc;
        const Strings w = words(d);
        want.insert(want.end(), w.begin(), w.end());
      }
      const Strings w = words(_post);
      want.insert(want.end(), w.begin(), w.end());
      if (words(sink.data) != want) throw Violation("wrong-help", "help shows " + quote(sink.data));
      return;
    }
    Strings names;
    for (size_t i = 0; i < _registered.size(); ++i) names.push_back(_registered[i] == HelpIndex ? "help" : g_spec[_registered[i]].name);
    int error = 0;
    const int r = resolve(names, topic, error);
    if (r < 0) {
      if (kind != error) throw Violation("wrong-error", strf("help on %s gives error %d instead of %d", topic.c_str(), kind, error));
      return;
    }
    if (kind) throw Violation("false-error", "help on " + topic + " fails: " + what);
    const int ai = _registered[static_cast<size_t>(r)];
    if (ai == HelpIndex) return;
    const Strings got = words(sink.data);
    std::string flat = " ";
    for (size_t i = 0; i < got.size(); ++i) flat += got[i] + " ";
    const ASpec& s = g_spec[ai];
    std::vector<std::string> need;
    need.push_back(" " + s.name + " ");
    need.push_back(" " + s.desc + " ");
    for (size_t i = 0; i < s.params.size(); ++i) {
      const PSpec& q = s.params[i];
      need.push_back(" -" + q.name + " ");
      need.push_back("(default is" + (q.def.empty() ? std::string(" )") : " " + q.def + ")"));
      need.push_back(" describes " + q.name + " ");
    }
    for (size_t i = 0; i < need.size(); ++i)
      if (flat.find(need[i]) == std::string::npos) throw Violation("wrong-help", "help on " + s.name + " does not show" + need[i] + "but " + quote(sink.data));
  }

  void Sim::step(const Op& op) {
    g.log(60 + op.kind, _registered.size());
    _withoutFault = op.fault == FNone;
    switch (op.kind) {
    case ORegister: {
      const int i = static_cast<int>(static_cast<u64>(op.arg(0)) % MaxActions);
      if (std::find(_registered.begin(), _registered.end(), i) != _registered.end()) break;
      mathic::CliParser& p = *_p;
      const Outcome o = sut(op, [&] {registerAction(p, i);});
      if (o == Done) _registered.push_back(i);
      else if (o == Other) throw Violation("unexpected-exception", "registerAction threw");
      else g.probe("failed registrations");
      break;
    }
    case ORegisterHelp: {
      if (_helpRegistered) break;
      mathic::CliParser& p = *_p;
      const std::string pre = (op.arg(0) & 1) ? "Before the list of all the actions there are." : "Pre";
      const std::string post = (op.arg(0) & 2) ? "" : "After the list of all the actions there are.";
      const Outcome o = sut(op, [&] {p.registerHelpAction(pre, post);});
      if (o == Done) {
        _registered.push_back(HelpIndex);
        _helpRegistered = true;
        _pre = pre;
        _post = post;
      } else if (o == Other) throw Violation("unexpected-exception", "registerHelpAction threw");
      else g.probe("failed registrations");
      break;
    }
    case OList:
      break;
    case OCreate: {
      const std::string w = actionWord(mix64(static_cast<u64>(op.arg(0))));
      Strings line(1, w);
      const Result r = expect(line);
      std::unique_ptr<mathic::Action> a;
      int kind = 0;
      mathic::CliParser& p = *_p;
      const Outcome o = sut(op, [&] {
        try {a = p.createActionWithPrefix(w);}
        catch (const mathic::UnknownNameException&) {kind = EUnknown;}
        catch (const mathic::AmbiguousNameException&) {kind = EAmbiguous;}
      });
      g.say("create %s -> %d %s", w.c_str(), kind, outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "createActionWithPrefix threw");
      if (o != Done) break;
      if (kind != r.errors) throw Violation("wrong-error", strf("createActionWithPrefix(%s) gives error %d, should give %d", w.c_str(), kind, r.errors));
      if (kind == 0) judgeAction(a.get(), r, "createActionWithPrefix");
      sutOk("destroying an action", [&] {a.reset();});
      break;
    }
    case OParse: {
      if (op.arg(1) & 1) {
        g_nest = this;
        _nestSalt = static_cast<u64>(op.arg(1) >> 1);
      }
      const Strings line = commandLine(op, 2);
      parse(op, line, true);
      g_nest = 0;
      if (op.fault != FNone && (op.arg(1) & 2)) { // the same again with nothing failing
        _withoutFault = true;
        parse(noFault, line, true);
      }
      break;
    }
    case OParam: {
      const int k = static_cast<int>(static_cast<u64>(op.arg(0)) % 3);
      const std::string arg = token(static_cast<u64>(op.arg(1)), -1);
      CliParameter* const p = k == 0 ? static_cast<CliParameter*>(_int.get()) : k == 1 ? static_cast<CliParameter*>(_bool.get()) : _string.get();
      bool rejected = false;
      const Outcome o = sut(op, [&] {
        try {p->processArgument(arg);}
        catch (const mathic::MathicException&) {rejected = true;}
      });
      if (o == Other) throw Violation("unexpected-exception", "processArgument threw something that is not a MathicException");
      g.say("param %d argument %s -> %s%s", k, quote(arg).c_str(), outcomeName(o), rejected ? " rejected" : "");
      if (o != Done) break;
      std::string shown;
      const int acc = acceptArg(k, arg, shown);
      if (!rejected && acc == 0) throw Violation("missed-error", "a parameter accepts " + quote(arg));
      if (rejected && acc == 1 && (op.fault == FNone || op.fault == FAlloc)) throw Violation("false-error", "a parameter rejects " + quote(arg));
      if (!rejected) _vals[k] = shown;
      else g.probe("rejected arguments");
      break;
    }
    case OSetParam: {
      const u64 h = mix64(static_cast<u64>(op.arg(0)));
      const unsigned i = static_cast<unsigned>(h >> 20);
      const std::string s = token(h, -1);
      const Outcome o = sut(op, [&] {
        switch (h % 6) {
        case 0: _int->setValue(i); break;
        case 1: *_int = i; break;
        case 2: _bool->setValue(i & 1); break;
        case 3: *_bool = (i & 1) != 0; break;
        case 4: _string->setValue(s); break;
        case 5: *_string = s; break;
        }
      });
      if (o == Other) throw Violation("unexpected-exception", "setValue threw");
      if (o != Done) break;
      if (h % 6 < 2) _vals[0] = strf("%u", i);
      else if (h % 6 < 4) _vals[1] = (i & 1) ? "on" : "off";
      else _vals[2] = s;
      break;
    }
    case OParamInfo: {
      const int k = static_cast<int>(static_cast<u64>(op.arg(0)) % 3);
      CliParameter* const p = k == 0 ? static_cast<CliParameter*>(_int.get()) : k == 1 ? static_cast<CliParameter*>(_bool.get()) : _string.get();
      const std::string s = " " + token(static_cast<u64>(op.arg(1)), -1);
      if (_descs[k].size() > 500) break;
      const Outcome o = sut(op, [&] {p->appendToDescription(s);});
      if (o == Done) _descs[k] += s;
      break;
    }
    case OHelp:
      help(op);
      break;
    case ORecreate: {
      std::unique_ptr<mathic::CliParser> n;
      const Outcome o = sut(op, [&] {n.reset(new mathic::CliParser());});
      if (o != Done) break;
      _held.clear(); // help actions know their parser
      sutOk("destruction", [&] {_p.reset();});
      _p = std::move(n);
      _registered.clear();
      _helpRegistered = false;
      _pre = _post = "";
      break;
    }
    case ODrop:
      if (!_held.empty()) _held.erase(_held.begin() + static_cast<std::ptrdiff_t>(static_cast<u64>(op.arg(0)) % _held.size()));
      break;
    }
    checkNames();
    checkHeld();
    checkParams();
    u64 m = 0;
    for (size_t i = 0; i < _registered.size(); ++i) m |= u64(1) << (_registered[i] % 64);
    g.state(mix64(m) ^ mix64(static_cast<u64>(_plan.get("names")) * 31 + static_cast<u64>(op.kind)) ^ mix64(_held.size()));
  }

  void Sim::run() {
    makeSpecs();
    g_nest = 0;
    sutOk("construction", [&] {_p.reset(new mathic::CliParser());});
    _vals[0] = "7";
    _vals[1] = "off";
    _vals[2] = "initial";
    _descs[0] = "an integer";
    _descs[1] = "a truth value";
    _descs[2] = "a text";
    sutOk("construction", [&] {
      _int.reset(new mathic::IntegerParameter("int", "an integer", 7));
      _bool.reset(new mathic::BoolParameter("bool", "a truth value", false));
      _string.reset(new mathic::StringParameter("string", "a text", "initial"));
    });
    try {
      for (size_t i = 0; i < _plan.ops.size(); ++i) {
        ++g.opsInRun;
        g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
        step(_plan.ops[i]);
      }
    } catch (...) {
      g_nest = 0;
      throw;
    }
    _held.clear();
    sutOk("destruction", [&] {_p.reset(); _int.reset(); _bool.reset(); _string.reset();});
  }
}

namespace sim {
  const char* const opNames[] = {"register", "registerHelp", "list", "create", "parse", "param", "setParam", "help", "recreate", "drop", "describe"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C14";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    plan.set("names", static_cast<i64>(rng.below(1u << 30)));
    plan.set("params", rng.below(8));
    const bool faults = rng.chance(60);
    std::vector<int> kinds;
    kinds.push_back(FAlloc);
    kinds.push_back(FAlloc);
    if (rng.chance(50)) kinds.push_back(FVisit);
    if (rng.chance(30)) kinds.push_back(FConstruct);
    const int faultPercent = rng.chance(50) ? 20 : 60;
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(6));
    w[OParse] += 15;
    w[ORegister] += 4;
    w[OCreate] += 2;
    w[OParam] += 2;
    w[ORegisterHelp] = 1;
    w[OHelp] = static_cast<int>(rng.below(4));
    w[ORecreate] = static_cast<int>(rng.below(2));
    const i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 200 : 80);
    for (i64 i = 0; i < n; ++i) {
      Op op(i < 3 && rng.chance(70) ? int(ORegister) : static_cast<int>(rng.weighted(w)));
      op.add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind != OList && op.kind != ODrop) op.add(static_cast<i64>(rng.below(1u << 30)));
      if (op.kind == OParse) {
        op.a[1] = rng.chance(70) ? (rng.below(2) << 1) : static_cast<i64>(rng.below(1u << 20) | 1);
        const i64 c = rng.range(0, rng.chance(70) ? 4 : 10);
        for (i64 j = 0; j < c; ++j) op.add(static_cast<i64>(rng.below(1u << 30)));
      }
      if (faults && rng.chance(faultPercent)) drawFault(rng, op, kinds, rng.chance(50) ? 8 : 60);
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
