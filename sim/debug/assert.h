// Found instead of the system's assert.h in the builds with assertions (C26).
// Evaluating an assertion calls back into user code and may need memory. The
// simulator injects nothing while it does: a fault there is no fault of the
// operation being simulated.
#include_next <assert.h>
#ifdef __cplusplus
namespace simassert {
  void enter();
  void leave();
  void fail(const char* what, const char* file, int line);
  struct Scope {
    Scope() {enter();}
    ~Scope() {leave();}
  };
}
#undef assert
#define assert(...) do {simassert::Scope simAssertScope; \
    if (!(__VA_ARGS__)) simassert::fail(#__VA_ARGS__, __FILE__, __LINE__);} while (0)
#endif
