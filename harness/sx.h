// Interface between harnesses and the symbolic executor (or the native replay
// runtime in replay_rt.cc).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double sx_real(const char* name);                   // arbitrary double
int sx_bool(const char* name);                      // arbitrary 0/1
int sx_int(const char* name);                       // arbitrary int
int sx_choose(const char* name, int lo, int hi);    // every value in [lo,hi]
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_assert_eq(double a, double b, const char* msg);
void sx_assert_le(double a, double b, const char* msg);
void sx_reach(const char* label);
void sx_protect(const void* p, size_t n);
void sx_unprotect(const void* p, size_t n);
void sx_poison(void* p, size_t n);                  // contents become undefined
int sx_prints();                                    // output calls so far
int sx_mode();                                      // 0 reals, 1 IEEE, 2 IEEE/UF
long long sx_clock();                                // nanoseconds
int sx_live();                                      // live heap blocks
void sx_show(double v);
void sx_stop();
}
