// Simulated output: a stream buffer and a FILE whose writes can be delayed,
// refused, cut short or throw, one character at a time.
#ifndef VERIF_SIMIO_H
#define VERIF_SIMIO_H
#include "sim.h"
#include <cstdio>
#include <ostream>
#include <streambuf>
#include <string>

namespace sim {
  struct Sink {
    Sink(): throws(false), broken(false), onChar(0) {}
    std::string data;
    bool throws;  // a failing write throws instead of reporting failure
    bool broken;  // has failed at least once
    void (*onChar)();
    // returns false if the character is refused
    bool put(char c) {
      CbScope cb;
      if (onChar) onChar();
      g.log(31, static_cast<unsigned char>(c));
      if (g.point(FStream)) {
        broken = true;
        if (throws) throw SimFault();
        return false;
      }
      data += c;
      return true;
    }
  };

  class SimBuf: public std::streambuf {
  public:
    explicit SimBuf(Sink& s): _s(s) {}
  protected:
    virtual int_type overflow(int_type c) {
      if (c == traits_type::eof()) return traits_type::not_eof(c);
      return _s.put(static_cast<char>(c)) ? c : traits_type::eof();
    }
    virtual std::streamsize xsputn(const char* p, std::streamsize n) {
      for (std::streamsize i = 0; i < n; ++i) if (!_s.put(p[i])) return i;
      return n;
    }
  private:
    Sink& _s;
  };

  // Unbuffered FILE writing to a sink (which must not throw).
  inline ssize_t sinkWrite(void* cookie, const char* p, size_t n) {
    Sink& s = *static_cast<Sink*>(cookie);
    for (size_t i = 0; i < n; ++i) if (!s.put(p[i])) return static_cast<ssize_t>(i);
    return static_cast<ssize_t>(n);
  }
  inline FILE* openSink(Sink& s) {
    cookie_io_functions_t f = {0, sinkWrite, 0, 0};
    FILE* const r = fopencookie(&s, "w", f);
    if (r) setvbuf(r, 0, _IONBF, 0);
    return r;
  }

  inline bool isPrefix(const std::string& a, const std::string& b) {
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
  }
  inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < 400; ++i) {
      if (s[i] == '\n') r += "\\n";
      else if (static_cast<unsigned char>(s[i]) < 32) r += strf("\\x%02x", s[i]);
      else r += s[i];
    }
    return r + "\"";
  }
}
#endif
