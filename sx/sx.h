// Interface between a harness and the symbolic executor (or, for replay, the recorded inputs)
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
long long sx_i64(const char* name);
unsigned long long sx_u64(const char* name);
int sx_i32(const char* name);
unsigned char sx_u8(const char* name);
double sx_f64(const char* name);
bool sx_bool(const char* name);
int sx_choose(const char* name, int n);  // 0..n-1, explored separately
void sx_assume(bool c);
void sx_assert(bool c, const char* what);
void sx_fail(const char* what);
bool sx_and(bool a, bool b);
bool sx_or(bool a, bool b);
void sx_log(const char* s, long long v);
void sx_done();
}
