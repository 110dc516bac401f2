#include <coroutine>
struct G {
  struct promise_type {
    int v;
    G get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    std::suspend_always yield_value(int x) { v = x; return {}; }
    void return_void() {}
    void unhandled_exception() {}
  };
  std::coroutine_handle<promise_type> h;
};
static G gen(int n) {
  for (int i = 0; i < n; i++) co_yield i;
}
extern "C" long long u0_entry(int a, unsigned b, long long c, double d) {
  G g = gen(3);
  g.h.resume();
  long long r = g.h.promise().v;
  g.h.destroy();
  return r;
}
