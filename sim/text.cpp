// Workload, reference model and oracle for ColumnPrinter (C15) and for the
// messages displayed on standard error (C18).
#include "sim.h"
#include "simio.h"
#include <mathic/ColumnPrinter.h>
#include <mathic/display.h>
#include <mathic/error.h>
#include <algorithm>
#include <memory>

namespace {
  using namespace sim;
  typedef std::vector<std::string> Strings;

  // ------------------------------------------------------------ column model
  struct Col {
    bool left;
    std::string prefix, suffix;
    std::string text; // '\0' c ends a line that is padded with c
    bool dead;        // its stream has failed and accepts nothing more
  };
  struct Line {std::string s; char pad;};

  std::vector<Line> linesOf(const std::string& t) {
    std::vector<Line> r;
    std::string cur;
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i] == '\n') {
        Line l = {cur, ' '};
        r.push_back(l);
        cur.clear();
      } else if (t[i] == '\0') {
        Line l = {cur, i + 1 < t.size() ? t[i + 1] : ' '};
        ++i;
        r.push_back(l);
        cur.clear();
      } else cur += t[i];
    }
    if (!cur.empty()) {
      Line l = {cur, ' '};
      r.push_back(l);
    }
    return r;
  }

  std::string render(const std::string& prefix, const std::vector<Col>& cols) {
    std::vector<std::vector<Line> > ls;
    std::vector<size_t> width;
    size_t rows = 0;
    for (size_t c = 0; c < cols.size(); ++c) {
      ls.push_back(linesOf(cols[c].text));
      size_t w = 0;
      for (size_t i = 0; i < ls[c].size(); ++i) w = std::max(w, ls[c][i].s.size());
      width.push_back(w);
      rows = std::max(rows, ls[c].size());
    }
    std::string out;
    for (size_t r = 0; r < rows; ++r) {
      out += prefix;
      for (size_t c = 0; c < cols.size(); ++c) {
        Line l = {"", ' '};
        if (r < ls[c].size()) l = ls[c][r];
        const std::string pad(width[c] - l.s.size(), l.pad);
        out += cols[c].prefix + (cols[c].left ? l.s + pad : pad + l.s) + cols[c].suffix;
      }
      out += '\n';
    }
    return out;
  }

  struct Table {
    std::unique_ptr<mathic::ColumnPrinter> p;
    std::string prefix;
    std::vector<Col> cols;
    std::string expected() const {return render(prefix, cols);}
  };

  enum {OAddColumn, OPrefix, OWrite, ORepeat, ORepeatAll, ONest, OPrint, OPrintFile, ORecreate,
    ODisplay, OException, OReport};

  const char* const cells[] = {"", "x", "\n", "a\n", "abc", "one\ntwo\n", "some longer cell text\n", "1234567890123456789012345678901234567890\n",
    "ragged", "\n\n", "a\n\nb", " lead", "trail \n", "-", "multi\nline\ncell", "9\n10\n100\n"};
  const char* const fixes[] = {"  ", "", " | ", "* ", "prefix that is long enough to need memory ", ":"};

  // any bytes except \0, some texts very wide and some very tall
  std::string randomText(u64 h, bool lineBreaks) {
    size_t n = static_cast<size_t>((h >> 4) % 30);
    const u64 shape = h % 64;
    if (shape < 6) n = static_cast<size_t>((h >> 4) % 300);
    if (shape == 6) n = static_cast<size_t>((h >> 4) % 1200);
    const u64 mode = (h >> 40) % 5;
    std::string r;
    for (size_t i = 0; i < n; ++i) {
      h = mix64(h + i);
      char c = static_cast<char>(mode == 0 ? 1 + h % 255 : mode == 1 ? "ab \t"[h % 4] : mode == 2 ? 33 + h % 94 : mode == 3 ? 32 : 32 + h % 224);
      const bool brk = (h >> 32) % (shape == 6 && mode == 2 ? 8 : n > 300 ? 1000 : 10) == 0;
      if (c == '\n' || (brk && lineBreaks)) c = lineBreaks ? '\n' : 'n';
      r += c;
    }
    return r;
  }
  std::string fix(i64 a) {
    return a % 8 < 6 ? std::string(fixes[a % 8]) : randomText(mix64(static_cast<u64>(a)) & ~u64(63), false);
  }

  class Sim {
  public:
    Sim(const Plan& p): _plan(p) {}
    void run();
  private:
    void step(const Op& op);
    void settle(Table& t, size_t col, const std::string& attempted, bool atomic);
    std::string printed(Table& t);
    void verify(Table& t);
    void print(Table& t, const Op& op, bool file);
    void createTable(Table& t, const Op& op);
    void displayOp(const Op& op, bool exception);
    void reportOp(const Op& op);
    std::string message(u64 h) const;
    const Plan& _plan;
    bool _display;
    std::vector<Table> _ts;
  };

  std::string Sim::printed(Table& t) {
    Sink sink;
    SimBuf buf(sink);
    std::ostream out(&buf);
    const mathic::ColumnPrinter& p = *t.p;
    sutOk("print", [&] {p.print(out);});
    if (!out.good()) throw Violation("stream-state", "printing to a healthy stream leaves it in a failed state");
    return sink.data;
  }

  void Sim::verify(Table& t) {
    size_t n = 0;
    sutOk("getColumnCount", [&] {n = t.p->getColumnCount();});
    if (n != t.cols.size()) throw Violation("column-count", strf("getColumnCount() is %zu, should be %zu", n, t.cols.size()));
    const std::string want = t.expected(), got = printed(t);
    if (got != want) throw Violation("wrong-table", "a table prints as " + quote(got) + " instead of " + quote(want));
    u64 h = 7;
    for (size_t c = 0; c < t.cols.size(); ++c) h = mix64(h * 31 + t.cols[c].text.size() * 2 + t.cols[c].left);
    g.state(h ^ mix64(g.firedInRun));
  }

  // A column stream has failed while text was added to it: some part of the
  // text from its beginning has arrived.
  void Sim::settle(Table& t, size_t col, const std::string& attempted, bool atomic) {
    Col& c = t.cols[col];
    c.dead = true;
    const std::string got = printed(t), before = c.text;
    for (size_t k = 0; k <= attempted.size(); ++k) {
      c.text = before + attempted.substr(0, k);
      if (t.expected() == got) return;
    }
    c.text = before;
    (void)atomic;
    throw Violation("wrong-table", "after adding " + quote(attempted) + " failed a table prints as " + quote(got) + " instead of a part of it after " + quote(t.expected()));
  }

  void Sim::createTable(Table& t, const Op& op) {
    t.cols.clear();
    t.prefix.clear();
    const size_t n = static_cast<size_t>(op.arg(1)) % 5;
    const Outcome o = sut(op, [&] {t.p.reset(new mathic::ColumnPrinter(n));});
    if (o != Done) {
      if (o == Other) throw Violation("unexpected-exception", "construction threw");
      g.probe("failed constructions");
      sutOk("construction", [&] {t.p.reset(new mathic::ColumnPrinter(n));});
    }
    for (size_t i = 0; i < n; ++i) {
      Col c = {true, "  ", "", "", false};
      t.cols.push_back(c);
    }
  }

  void Sim::print(Table& t, const Op& op, bool file) {
    const std::string want = t.expected();
    Sink sink;
    const mathic::ColumnPrinter& p = *t.p;
    Outcome o;
    bool ok = true;
    if (file) {
      FILE* const f = openSink(sink);
      o = sut(op, [&] {mathic::print(f, p);});
      fclose(f);
    } else {
      SimBuf buf(sink);
      std::ostream out(&buf);
      sink.throws = op.arg(1) & 1;
      if (op.arg(1) & 2) out.exceptions(std::ios::badbit | std::ios::failbit);
      o = sut(op, [&] {
        if (op.arg(1) & 4) {
          std::ostream& r = out << p;
          if (&r != &out) g.flag("wrong-answer", "operator<< returns another stream");
        } else p.print(out);
      });
      ok = out.good();
      g.checkFlag();
    }
    g.say("print -> %s, %zu of %zu characters%s", outcomeName(o), sink.data.size(), want.size(), sink.broken ? ", stream failed" : "");
    if (o == Other && !sink.broken) throw Violation("unexpected-exception", "print threw");
    if (!isPrefix(sink.data, want))
      throw Violation("not-a-prefix", "a table prints as " + quote(sink.data) + ", not a prefix of " + quote(want));
    if (op.fault == FNone && (sink.data != want || o != Done || !ok))
      throw Violation("wrong-table", "a table prints as " + quote(sink.data) + " instead of " + quote(want));
    if (!file && o == Done && ok && !sink.broken && sink.data != want)
      throw Violation("lost-output", "a table prints incompletely without any sign of failure");
    if (!file && sink.broken && o == Done && ok && sink.data != want) throw Violation("lost-error", "the stream failed and does not say so");
    if (sink.data != want) g.probe("prints cut short");
  }

  // ---------------------------------------------------------------- messages
  std::string Sim::message(u64 h) const {
    std::string s;
    const size_t n = (h >> 3) % 40;
    static const char* const ws[] = {"a", "to", "the", "word", "message", "explanation", "internationalisation",
      "a-word-so-long-that-it-can-not-possibly-fit-on-one-line-of-the-console-together-with-anything-else-at-all", "1234567890", "x."};
    static const char* const gaps[] = {" ", " ", " ", " ", " ", "  ", "\n", "\n  ", "\n\n", "\t"};
    if (h & 1) s += (h & 2) ? "   " : " ";
    for (size_t i = 0; i < n; ++i) {
      h = mix64(h + i);
      size_t w = h % 40;
      if (w >= 10) w = w % 7;
      if ((h >> 24) % 8 == 0) { // any word, often about as long as a line
        const size_t len = (h >> 28) & 1 ? 60 + (h >> 30) % 30 : 1 + (h >> 30) % 20;
        for (size_t j = 0; j < len; ++j) {
          const u64 c = mix64(h + 31 * j);
          s += static_cast<char>((h >> 29) & 1 ? 33 + c % 94 : 128 + c % 128);
        }
      } else s += ws[w];
      s += gaps[(h >> 16) % ((h >> 40) & 3 ? 6 : 10)];
    }
    return s;
  }

  bool space(char c) {return isspace(static_cast<unsigned char>(c)) != 0;}
  Strings words(const std::string& s) {
    Strings r;
    std::string w;
    for (size_t i = 0; i <= s.size(); ++i) {
      if (i == s.size() || space(s[i])) {
        if (!w.empty()) r.push_back(w);
        w.clear();
      } else w += s[i];
    }
    return r;
  }

  // The white space in front of each word.
  Strings spaces(const std::string& s) {
    Strings r;
    std::string gap;
    for (size_t i = 0; i < s.size(); ++i) {
      if (space(s[i])) {gap += s[i]; continue;}
      if (i == 0 || space(s[i - 1])) {r.push_back(gap); gap.clear();}
    }
    return r;
  }

  // Judges a complete rendering of msg with every line starting with prefix.
  void judgeDisplay(const std::string& out, const std::string& msg, const std::string& prefix) {
    const size_t width = 79;
    // source lines
    std::vector<Strings> src, gaps;
    Strings indent;
    {
      size_t i = 0;
      while (i < msg.size()) {
        size_t e = msg.find('\n', i);
        if (e == std::string::npos) e = msg.size();
        const std::string l = msg.substr(i, e - i);
        size_t k = 0;
        while (k < l.size() && space(l[k])) ++k;
        indent.push_back(l.substr(0, k));
        src.push_back(words(l));
        gaps.push_back(spaces(l));
        i = e + 1;
      }
    }
    // output lines
    Strings lines;
    {
      size_t i = 0;
      while (i < out.size()) {
        size_t e = out.find('\n', i);
        if (e == std::string::npos) e = out.size();
        lines.push_back(out.substr(i, e - i));
        i = e + 1;
      }
    }
    size_t at = 0;
    for (size_t s = 0; s < src.size(); ++s) {
      size_t done = 0;
      bool first = true;
      const std::string start = prefix + indent[s];
      while (first || done < src[s].size()) {
        first = false;
        if (at >= lines.size()) throw Violation("lost-text", strf("the text displayed ends before line %zu of the message", s));
        const std::string& l = lines[at++];
        if (!isPrefix(start, l)) throw Violation("wrong-indentation", "the line " + quote(l) + " does not start with " + quote(start));
        const Strings w = words(l.substr(start.size()));
        std::string exact = start;
        for (size_t i = 0; i < w.size() && done + i < src[s].size(); ++i) exact += (i == 0 ? "" : gaps[s][done + i]) + w[i];
        for (size_t i = 0; i < w.size(); ++i, ++done)
          if (done >= src[s].size() || w[i] != src[s][done])
            throw Violation("wrong-text", "the line " + quote(l) + " does not continue the message with the word it should");
        if (l != exact) throw Violation("wrong-spacing", "the line " + quote(l) + " should be " + quote(exact));
        if (w.size() > 1 && l.size() > width) throw Violation("line-too-long", strf("a line of %zu characters: ", l.size()) + quote(l));
        // broken only if the next word does not fit
        if (!w.empty() && done < src[s].size() && l.size() + gaps[s][done].size() + src[s][done].size() <= width)
          throw Violation("broken-too-early", "the line " + quote(l) + " is broken although " + src[s][done] + " fits");
        if (w.empty() && done < src[s].size() && (l != start || start.size() + src[s][done].size() <= width))
          throw Violation("broken-too-early", "an empty line in the middle of the message");
        if (g.verbose) g.say("| %s", l.c_str());
      }
    }
    if (at != lines.size()) throw Violation("invented-text", strf("%zu lines more than the message has", lines.size() - at));
    if (!msg.empty() && !words(msg).empty() && !words(msg.substr(msg.rfind('\n') == std::string::npos ? 0 : msg.rfind('\n'))).empty() && (out.empty() || out[out.size() - 1] != '\n'))
      throw Violation("wrong-text", "the last line is not ended");
  }

  struct Capture {
    Capture(Sink& s): old(stderr) {f = openSink(s); stderr = f;}
    ~Capture() {stderr = old; fclose(f);}
    FILE* old, * f;
  };

  void Sim::displayOp(const Op& op, bool exception) {
    const std::string msg = message(mix64(static_cast<u64>(op.arg(0))));
    const i64 form = exception ? 4 : op.arg(1) % 4;
    static const char* const pre[] = {"", "   ", "> ", "a rather long prefix that takes up much of the line: "};
    const std::string prefix = form == 0 ? pre[static_cast<size_t>(op.arg(2)) % 4] : "";
    const std::runtime_error error(msg);
    const std::string shown = form == 1 ? "NOTE: " + msg + "\n" : form == 2 ? "ERROR: " + msg + "\n" : form == 3 ? "INTERNAL ERROR: " + msg + "\n" : msg;
    const auto show = [&] {
      switch (form) {
      case 0: if (prefix.empty()) mathic::display(msg); else mathic::display(msg, prefix); break;
      case 1: mathic::displayNote(msg); break;
      case 2: mathic::displayError(msg); break;
      case 3: mathic::displayInternalError(msg); break;
      default: mathic::displayException(error);
      }
    };
    Sink full;
    if (op.fault == FNone || !exception || op.arg(1) & 1) {
      Capture c(full);
      sutOk("display", show);
    }
    if (op.fault == FNone) {
      judgeDisplay(full.data, shown, prefix);
      return;
    }
    Sink sink;
    Outcome o;
    {
      Capture c(sink);
      o = sut(op, show);
    }
    g.say("display -> %s, %zu characters%s", outcomeName(o), sink.data.size(), sink.broken ? ", stream failed" : "");
    if (o == Other) throw Violation("unexpected-exception", "display threw something else than what was injected");
    if (!exception) {
      if (!isPrefix(sink.data, full.data)) throw Violation("not-a-prefix", "an interrupted display shows " + quote(sink.data) + ", not a prefix of " + quote(full.data));
      if (o == Done && !sink.broken && sink.data != full.data) throw Violation("lost-text", "a display is incomplete without any sign of failure");
      g.probe("displays under faults");
      return;
    }
    if (sink.broken) return;
    // the message must get through even if there is no memory to wrap it
    if (o != Done) {
      g.probe("exceptions displayed without memory");
      if (sink.data.find(msg) == std::string::npos) throw Violation("lost-text", "the message of an exception is not shown in full when memory runs out");
    } else if (op.arg(1) & 1) {
      if (sink.data != full.data) throw Violation("wrong-text", "displaying an exception is incomplete without any sign of failure");
    }
  }

  // An error report throws an exception of its kind with the whole message,
  // or reports that there is no memory for it.
  void Sim::reportOp(const Op& op) {
    const std::string msg = message(mix64(static_cast<u64>(op.arg(0))));
    const char* const file = (op.arg(1) & 8) ? "src/some/file.cpp" : "a-file-with-quite-a-long-name-so-that-the-message-is-long.h";
    const unsigned line = static_cast<unsigned>(op.arg(0) % 100003);
    const i64 form = op.arg(1) % 3;
    std::string what;
    int kind = 0;
    const Outcome o = sut(op, [&] {
      try {
        if (form == 0) mathic::reportError(msg);
        else if (form == 1) mathic::reportInternalError(msg);
        else mathic::reportInternalError(msg, file, line);
      } catch (const mathic::MathicException& e) {CbScope cb; kind = 1; what = e.what();}
      catch (const mathic::InternalMathicException& e) {CbScope cb; kind = 2; what = e.what();}
    });
    g.say("report -> %s %d %s", outcomeName(o), kind, quote(what).c_str());
    if (o == NoMemory) {
      g.probe("reports without memory");
      return;
    }
    if (o != Done || kind != (form == 0 ? 1 : 2)) throw Violation("unexpected-exception", "an error report does not throw an exception of its kind");
    if (form < 2) {
      if (what != (form == 0 ? "ERROR: " : "INTERNAL ERROR: ") + msg) throw Violation("lost-text", "an error report of " + quote(msg) + " says " + quote(what));
    } else if (what.find("INTERNAL ERROR: " + msg) != 0 || what.find(file, msg.size()) == std::string::npos || what.find(strf(" %u", line), msg.size()) == std::string::npos)
      throw Violation("lost-text", "an internal error report says " + quote(what));
    g.probe("reports");
  }

  void Sim::step(const Op& op) {
    if (op.kind == OReport) {
      g.log(60 + op.kind);
      reportOp(op);
      g.state(mix64(static_cast<u64>(op.arg(0))) ^ mix64(static_cast<u64>(op.fault * 100 + op.at + 7)));
      return;
    }
    if (op.kind == ODisplay || op.kind == OException) {
      g.log(60 + op.kind);
      displayOp(op, op.kind == OException);
      g.state(mix64(static_cast<u64>(op.arg(0))) ^ mix64(static_cast<u64>(op.fault * 100 + op.at)));
      return;
    }
    Table& t = _ts[static_cast<size_t>(op.arg(0)) % _ts.size()];
    Table& other = _ts[static_cast<size_t>(op.arg(0) + 1) % _ts.size()];
    const size_t cols = t.cols.size();
    const size_t col = cols ? static_cast<size_t>(op.arg(1)) % cols : 0;
    g.log(60 + op.kind, cols);
    switch (op.kind) {
    case OAddColumn: {
      if (cols >= 9) break;
      const bool left = op.arg(1) & 1;
      const std::string pre = fix(op.arg(2)), suf = fix(op.arg(3) + (op.arg(3) > 5 ? op.arg(2) / 8 * 8 : 0));
      std::ostream* out = 0;
      const int form = static_cast<int>(op.arg(1) >> 1) % 4;
      const Outcome o = sut(op, [&] {
        switch (form) {
        case 0: out = &t.p->addColumn(); break;
        case 1: out = &t.p->addColumn(left); break;
        case 2: out = &t.p->addColumn(left, pre); break;
        default: out = &t.p->addColumn(left, pre, suf);
        }
      });
      g.say("addColumn -> %s", outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "addColumn threw");
      if (o != Done) {g.probe("failed column additions"); break;}
      Col c = {form == 0 || left, form < 2 ? "  " : pre, form < 3 ? "" : suf, "", false};
      t.cols.push_back(c);
      if (out != &(*t.p)[cols]) throw Violation("wrong-answer", "addColumn does not return the stream of the new column");
      break;
    }
    case OPrefix: {
      const std::string pre = fix(op.arg(1));
      const Outcome o = sut(op, [&] {t.p->setPrefix(pre);});
      if (o == Done) t.prefix = pre;
      else if (o == Other) throw Violation("unexpected-exception", "setPrefix threw");
      break;
    }
    case OWrite: {
      if (!cols) break;
      const std::string s = op.arg(3) & 1 ? strf("%lld", (long long)(op.arg(2) % 100000)) + "\n" :
        op.arg(3) & 4 ? randomText(mix64(static_cast<u64>(op.arg(2))), true) : cells[static_cast<size_t>(op.arg(2)) % (sizeof cells / sizeof *cells)];
      bool good = true;
      const Outcome o = sut(op, [&] {
        std::ostream& out = (*t.p)[col];
        if (op.arg(3) & 1) out << op.arg(2) % 100000 << '\n';
        else if (op.arg(3) & 2) out << s;
        else for (size_t i = 0; i < s.size(); ++i) out << s[i];
        good = out.good();
      });
      g.say("write %s to column %zu -> %s%s", quote(s).c_str(), col, outcomeName(o), good ? "" : " stream failed");
      if (t.cols[col].dead) break;
      if (o == Done && good) t.cols[col].text += s;
      else {
        if (op.fault == FNone) throw Violation("stream-state", "writing to a column fails although nothing failed");
        g.probe("failed writes");
        settle(t, col, s, false);
      }
      break;
    }
    case ORepeat:
    case ORepeatAll: {
      if (op.kind == ORepeat && !cols) break;
      const char c = "-=. "[static_cast<size_t>(op.arg(2)) % 4];
      const Outcome o = sut(op, [&] {
        if (op.kind == ORepeat) t.p->repeatToEndOfLine(c, col);
        else t.p->repeatToEndOfLine(c);
      });
      g.say("repeat %c -> %s", c, outcomeName(o));
      if (o == Other) throw Violation("unexpected-exception", "repeatToEndOfLine threw");
      std::string s(1, '\0');
      s += c;
      if (op.fault == FNone) {
        for (size_t i = 0; i < cols; ++i)
          if ((op.kind == ORepeatAll || i == col) && !t.cols[i].dead) t.cols[i].text += s;
        break;
      }
      // each column separately has or has not got it; if a stream failed in between start afresh
      bool any = false;
      for (size_t i = 0; i < cols; ++i) {
        if ((op.kind == ORepeat && i != col) || t.cols[i].dead) continue;
        if ((*t.p)[i].good() && o == Done) t.cols[i].text += s;
        else any = true;
      }
      if (any) {
        g.probe("failed repeats");
        sutOk("destruction", [&] {t.p.reset();});
        createTable(t, noFault);
      }
      break;
    }
    case ONest: { // a table inside a cell of a table
      if (!cols || t.cols[col].dead || other.expected().size() > 400 || t.expected().size() > 4000) break;
      const std::string s = other.expected();
      bool good = true;
      const Outcome o = sut(op, [&] {
        std::ostream& out = (*t.p)[col];
        out << *other.p;
        good = out.good();
      });
      g.say("nested table -> %s%s", outcomeName(o), good ? "" : " stream failed");
      if (o == Other) throw Violation("unexpected-exception", "printing into a column threw");
      if (o == Done && good) t.cols[col].text += s;
      else if (o != Done && good && op.fault != FNone) { // failed before anything was written, or in the middle
        settle(t, col, s, false);
        t.cols[col].dead = false;
        // whether more arrives cannot be told apart from here: start afresh
        sutOk("destruction", [&] {t.p.reset();});
        createTable(t, noFault);
      } else {
        if (op.fault == FNone) throw Violation("stream-state", "printing into a column fails although nothing failed");
        settle(t, col, s, false);
      }
      break;
    }
    case OPrint:
      print(t, op, false);
      break;
    case OPrintFile:
      print(t, op, true);
      break;
    case ORecreate:
      sutOk("destruction", [&] {t.p.reset();});
      createTable(t, op);
      break;
    }
    verify(t);
    if (&other != &t) verify(other);
  }

  void Sim::run() {
    const size_t n = static_cast<size_t>(std::min<i64>(3, std::max<i64>(1, _plan.get("tables", 1))));
    _ts.resize(n);
    Op first;
    first.add(0).add(_plan.get("columns"));
    for (size_t i = 0; i < n; ++i) createTable(_ts[i], first);
    for (size_t i = 0; i < _plan.ops.size(); ++i) {
      ++g.opsInRun;
      g.say("-- %zu: %s", i, opNames[_plan.ops[i].kind]);
      step(_plan.ops[i]);
    }
    sutOk("destruction", [&] {for (size_t i = 0; i < n; ++i) _ts[i].p.reset();});
  }
}

namespace sim {
  const char* const opNames[] = {"addColumn", "setPrefix", "write", "repeat", "repeatAll", "nest", "print", "printFile", "recreate", "display", "displayException", "report"};
  const size_t opCount = sizeof opNames / sizeof *opNames;
  bool harnessKnows(const std::string& p) {return p == "C15" || p == "C18";}

  void harnessGenerate(Rng& rng, bool thorough, Plan& plan) {
    const bool disp = plan.prop == "C18";
    plan.set("tables", disp || rng.chance(60) ? 1 : rng.range(2, 3));
    plan.set("columns", disp ? 0 : rng.below(5));
    const bool faults = rng.chance(70);
    std::vector<int> w(opCount);
    for (size_t i = 0; i < opCount; ++i) w[i] = static_cast<int>(rng.below(6));
    if (disp) {
      for (size_t i = 0; i < opCount; ++i) w[i] = 0;
      w[ODisplay] = 3;
      w[OException] = 2;
      w[OReport] = 2;
    } else {
      w[ODisplay] = w[OException] = w[OReport] = 0;
      w[OWrite] += 12;
      w[OAddColumn] += 2;
      w[OPrint] += 3;
      w[ONest] = static_cast<int>(rng.below(2));
      w[ORecreate] = static_cast<int>(rng.below(2));
      w[ORepeatAll] = static_cast<int>(rng.below(3));
    }
    const int faultPercent = rng.chance(50) ? 20 : 50;
    const i64 n = rng.range(3, rng.chance(30) ? 20 : thorough ? 120 : 50);
    for (i64 i = 0; i < n; ++i) {
      Op op(static_cast<int>(rng.weighted(w)));
      op.add(static_cast<i64>(rng.below(disp ? 1u << 30 : 3))).add(static_cast<i64>(rng.below(64)));
      if (op.kind == OAddColumn || op.kind == OWrite) op.add(static_cast<i64>(rng.below(100000))).add(rng.below(8));
      else if (op.kind == ORepeat || op.kind == ORepeatAll || op.kind == ODisplay) op.add(rng.below(8));
      if (faults && rng.chance(faultPercent)) {
        std::vector<int> kinds(1, FAlloc);
        if (op.kind == OPrint || op.kind == OPrintFile || op.kind == ODisplay) {kinds.push_back(FStream); kinds.push_back(FStream);}
        drawFault(rng, op, kinds, op.kind == OWrite || op.kind == OAddColumn || op.kind == OPrefix ? 4 : 1);
        if (op.fault == FStream) {
          op.at = rng.small(rng.chance(50) ? 40 : 600);
          // a FILE has no memory of having failed, so it fails for good
          op.len = op.kind != OPrint || rng.chance(40) ? 1000000 : rng.range(1, 3);
        } else if (op.kind >= ONest) {
          op.at = rng.small(op.kind == OReport ? 3 : 12);
          if (op.kind == OException) op.len = rng.chance(50) ? 1000000 : 1;
        }
      }
      plan.ops.push_back(op);
    }
  }

  void harnessExecute(const Plan& plan) {
    Sim s(plan);
    s.run();
  }
}
