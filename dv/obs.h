/* Reports compile-time values of a unit through code that lies in no main file. */
#ifndef OBS_H
#define OBS_H
#include "h.h"
static inline void h_table(int tag, int (*f)(int), int lo, int hi) {
  for (int x = lo; x <= hi; x++) h_obs(tag, (long long)x * 1000 + f(x));
}
static inline void h_vals(int tag, const long long *p, int n) {
  for (int i = 0; i < n; i++) h_obs(tag + i, p[i]);
}
#ifdef __cplusplus
#define H_K static constexpr
#else
#define H_K static const
#endif
/* Arguments end up in constant initialisers or are pasted, so that they are not themselves subject to mutation. */
#define OBSV(n) h_obs(60##n, h_sv_##n)
#define H_TAB(tag, arr) do { H_K int h_t = (tag), h_n = (int)(sizeof(arr) / sizeof(arr[0])); h_vals(h_t, arr, h_n); } while (0)
#define H_SEL(tag, f, lo, hi) do { H_K int h_t = (tag), h_l = (lo), h_h = (hi); h_table(h_t, f, h_l, h_h); } while (0)
#define H_BF(tag, S, f) do { H_K int h_t = (tag); static S h_s; __builtin_memset(&h_s, 255, sizeof h_s); h_obs(h_t, h_s.f); } while (0)
#ifdef __cplusplus
template <int TAG, long long V> struct h_obs_t { static void hit() { h_obs(TAG, V); } };
#define OBS(tag, ...) h_obs_t<(tag), (long long)(__VA_ARGS__)>::hit()
template <int TAG, long long V> struct h_box { h_box() { h_obs(TAG, V); } };
template <int TAG, auto V> struct h_auto { h_auto() { h_obs(TAG, (long long)V); h_obs(TAG + 1, sizeof(V) * 4 + ((decltype(V))-1 < (decltype(V))1)); } };
template <int TAG, typename T, T V> struct h_typed { h_typed() { h_obs(TAG, (long long)V); } };
template <int V> struct h_int { static constexpr int v = V; };
template <unsigned V> struct h_uns { static constexpr unsigned v = V; };
template <bool V> struct h_bool { static constexpr int v = V; };
template <int TAG, class A, class B> struct h_pair { h_pair() { h_obs(TAG, A::v); h_obs(TAG + 1, B::v); } };
template <class A, class B> struct h_two { static constexpr long long v = A::v * 1000ll + B::v; };
template <class A, class B, class C, class D = h_int<4>> struct h_many { static constexpr long long v = ((A::v * 1000ll + B::v) * 1000ll + C::v) * 10 + D::v; };
template <int... V> struct h_seq { static constexpr long long v = (7ll + ... + V); };
template <class T, int A, class U = h_int<2>, int B = 3> struct h_mixed { static constexpr long long v = T::v * 1000ll + A * 100 + U::v * 10 + B; };
template <class T> using h_alias = h_two<T, h_int<1>>;
template <int TAG, int... V> struct h_pack { h_pack() { h_obs(TAG, sizeof...(V)); h_obs(TAG + 1, (0ll + ... + V)); } };
template <typename T, unsigned long N> struct h_array { T e[N]; };
template <int TAG, typename T, unsigned long N> void h_arr(const T (&)[N]) { h_obs(TAG, N); h_obs(TAG + 1, sizeof(T)); }
template <int TAG, typename T> void h_size(const T &) { h_obs(TAG, sizeof(T)); }
#else
#define OBS(tag, ...) do { static const int h_t = (tag); static const long long h_v = (long long)(__VA_ARGS__); h_obs(h_t, h_v); } while (0)
#endif
#endif
