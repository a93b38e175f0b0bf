// The builds with MATHIC_TRACK_DIV_MASK_HIT_RATIO (C31): std::cerr is replaced by a buffer
// which judges every table of div mask statistics at the moment it is complete.
#ifndef MASKSTATS_H
#define MASKSTATS_H
#include <mathic/DivMask.h>
#include <cstring>
#include <streambuf>
#include <iostream>

namespace sim {
  class MaskStats: public std::streambuf {
  public:
    MaskStats(const Plan& plan):
      _used(0), _tables(0), _old(std::cerr.rdbuf(this)),
      // the harnesses in which each call of divides() is counted, with finders that have masks
      _counted(hasMasks(static_cast<u64>(plan.get("config"))) && (plan.prop == "C06" || plan.prop == "C07" || plan.prop == "C08" || plan.prop == "C09" || plan.prop == "C28")),
      _exact(plan.get("cache") == 0), _list(static_cast<u64>(plan.get("config")) % 52 >= 48) {
      using namespace mathic::DivMaskStats;
      std::cerr.clear();
      maskComputes = maskChecks = maskHits = divChecks = divDivides = divHits = 0;
    }
    ~MaskStats() {std::cerr.rdbuf(_old); std::cerr.clear();}
    void finish() {
      counters();
      // lists have no masks but those of their entries; a check that fails to print is not completed
      using namespace mathic::DivMaskStats;
      if (_counted && _list && (maskChecks - divChecks > g.firedInRun || maskHits - divHits > g.firedInRun))
        g.flag("wrong-statistics", strf("a list has made %lu mask checks with %lu hits, but %lu div checks with %lu hits",
          maskChecks, maskHits, divChecks, divHits));
      if (_tables > 0) g.probe("tables of mask statistics");
      if (_tables > 20) g.probe("more than 20 tables of mask statistics");
      g.checkFlag();
    }

  protected:
    int_type overflow(int_type c) {
      if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
      add(traits_type::to_char_type(c));
      return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) {
      for (std::streamsize i = 0; i < n; ++i) add(s[i]);
      return n;
    }

  private:
    static bool hasMasks(u64 config) {
      config %= 52;
      return config < 48 ? config % 3 != 0 : config % 2 != 0;
    }
    void add(char c) {
      if (_used < sizeof _text) _text[_used++] = c;
      if (c != '\n' || _used < 6 || std::memcmp(_text + _used - 6, "\n****\n", 6) != 0) return;
      CbScope cb;
      const std::string all(_text, _used);
      _used = 0;
      g.log(77, all.size());
      const std::string head = "**** DivMask stats (turn off by not defining macro) ****\n";
      const size_t at = all.rfind(head); // a table before may have been cut short by a fault
      if (at == std::string::npos) {
        g.flag("wrong-statistics", "a table of mask statistics has no headline");
        return;
      }
      ++_tables;
      // the streams of a ColumnPrinter swallow text when memory runs out
      if (!g.faultFired) table(all.substr(at + head.size(), all.size() - at - head.size() - 5));
      counters();
    }
    static std::string squeeze(const std::string& s) {
      std::string r;
      for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != ' ') r += s[i];
        else if (!r.empty() && r[r.size() - 1] != ' ' && r[r.size() - 1] != '\n') r += ' ';
        if (s[i] == '\n' && r.size() > 1 && r[r.size() - 2] == ' ') r.erase(r.size() - 2, 1);
      }
      return r;
    }
    static std::string number(unsigned long v) {
      std::string s = std::to_string(v);
      for (size_t i = s.size(); i > 3; i -= 3) s.insert(i - 3, ",");
      return s;
    }
    static std::string percent(unsigned long a, unsigned long b) {
      if (b == 0) return a == 0 ? "0/0%" : "?/0%";
      const unsigned long tenths = static_cast<unsigned long>(static_cast<double>(a) * 100 / static_cast<double>(b) * 10 + 0.5);
      return std::to_string(tenths / 10) + "." + std::to_string(tenths % 10) + "%";
    }
    void table(const std::string& shown) {
      using namespace mathic::DivMaskStats;
      const std::string should =
        "* masks computed: " + number(maskComputes) + " " + percent(maskComputes, maskChecks) + " of mask checks\n"
        "* mask checks: " + number(maskChecks) + "\n"
        "* mask hits: " + number(maskHits) + " " + percent(maskHits, maskChecks) + " of mask checks\n"
        "* mask div checks: " + number(divChecks) + " " + percent(divChecks, maskChecks) + " of mask checks\n"
        "* actually divide: " + number(divDivides) + " " + percent(divDivides, divChecks) + " of div checks\n"
        "* mask div hits: " + number(divHits) + " " + percent(divHits, divChecks) + " of div checks, " +
        percent(divHits, divChecks - divDivides) + " adjusted.\n";
      if (squeeze(shown) != should)
        g.flag("wrong-statistics", "the table of mask statistics is\n" + shown + "and should be\n" + should);
      if (maskChecks % (1ul << (MATHIC_TRACK_DIV_MASK_HIT_RATIO)) != 0)
        g.flag("wrong-statistics", strf("a table of mask statistics comes after %lu mask checks", maskChecks));
    }
    void counters() {
      using namespace mathic::DivMaskStats;
      if (maskHits > maskChecks || divChecks > maskChecks || divHits > divChecks || divHits > maskHits ||
          divDivides > divChecks - divHits)
        g.flag("wrong-statistics", strf("mask checks %lu hits %lu, div checks %lu hits %lu divides %lu do not add up",
          maskChecks, maskHits, divChecks, divHits, divDivides));
      if (!_counted) return;
      // a test of divisibility that no mask rules out is a call of divides(); the cache calls it, too
      const u64 asked = g.calls[FDivides], tested = divChecks - divHits;
      if (tested > asked || (_exact && asked != tested))
        g.flag("wrong-statistics", strf("%lu div checks with %lu div hits, but divides() has been called %llu times",
          divChecks, divHits, static_cast<unsigned long long>(asked)));
      if (divDivides > g.divisible || (_exact && g.divisible != divDivides))
        g.flag("wrong-statistics", strf("%lu are said to divide, but divides() returned true %llu times",
          divDivides, static_cast<unsigned long long>(g.divisible)));
      if (maskComputes * 32 > g.calls[FExponent] + 32 * g.firedInRun)
        g.flag("wrong-statistics", strf("%lu masks computed, but exponents have been read %llu times",
          maskComputes, static_cast<unsigned long long>(g.calls[FExponent])));
    }

    char _text[1 << 14];
    size_t _used;
    u64 _tables;
    std::streambuf* const _old;
    const bool _counted, _exact, _list;
  };
}
#endif
