// Replays recorded inputs against the natively compiled harness (argv: inputs-file entry)
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <utility>
#include <vector>
static std::vector<std::pair<std::string, unsigned long long>> in;
static size_t pos = 0;
static unsigned long long asserts = 0;
static void finish(int c, const char* what) {
  printf("%s (asserts %llu)\n", what, asserts);
  fflush(stdout);
  _Exit(c);
}
static unsigned long long nextv(const char* n) {
  if (pos >= in.size()) finish(3, "DIVERGED: more inputs are read than were recorded");
  if (in[pos].first != n) finish(3, "DIVERGED: another input is read than was recorded");
  return in[pos++].second;
}
extern "C" {
long long sx_i64(const char* n) { return (long long)nextv(n); }
unsigned long long sx_u64(const char* n) { return nextv(n); }
int sx_i32(const char* n) { return (int)nextv(n); }
unsigned char sx_u8(const char* n) { return (unsigned char)nextv(n); }
double sx_f64(const char* n) {
  unsigned long long v = nextv(n);
  double d;
  memcpy(&d, &v, 8);
  return d;
}
bool sx_bool(const char* n) { return nextv(n) & 1; }
int sx_choose(const char* n, int) { return (int)nextv(n); }
void sx_assume(bool c) { if (!c) finish(3, "DIVERGED: an assumption does not hold"); }
void sx_assert(bool c, const char* what) {
  asserts++;
  if (!c) { printf("ASSERTION FAILED: %s\n", what); finish(1, "violated"); }
}
void sx_fail(const char* what) { printf("FAILED: %s\n", what); finish(1, "violated"); }
bool sx_and(bool a, bool b) { return a && b; }
bool sx_or(bool a, bool b) { return a || b; }
void sx_log(const char* s, long long v) { printf("%s %lld\n", s, v); }
void sx_done() { finish(0, "completed"); }
}
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  char name[256];
  unsigned long long v;
  while (fscanf(f, "%255s %llx", name, &v) == 2) in.push_back({name, v});
  fclose(f);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!e) finish(4, "no such entry");
  try {
    e();
  } catch (...) {
    printf("FAILED: exception escapes\n");
    finish(1, "violated");
  }
  finish(0, "completed");
}
