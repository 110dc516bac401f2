/* Harness interface seen by generated units. Nothing here is in a main file. */
#ifndef H_H
#define H_H
#ifdef __cplusplus
#include <initializer_list>
extern "C" {
#endif
void h_emit(long long v);
void h_emitd(double v);
void h_hit(int k);
void h_obs(int tag, long long v);
#ifdef __cplusplus
}
#endif
#ifdef H_REF
#define H_END __builtin_trap();
#else
#define H_END
#endif
#endif
