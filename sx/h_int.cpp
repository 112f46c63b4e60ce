#include "sx.h"
#include <minizinc/values.hh>
using namespace MiniZinc;
typedef __int128 I;
static const I LO = (I)std::numeric_limits<long long>::min(), HI = (I)std::numeric_limits<long long>::max();
static bool fits(I v) { return v >= LO && v <= HI; }
template <class F>
static void run(F f, I exact, bool defined, bool mayFail, const char* what) {
  IntVal r;
  bool thrown = false;
  try {
    r = f();
  } catch (ArithmeticError&) {
    thrown = true;
  }
  if (thrown) {
    sx_assert(!defined || !fits(exact) || mayFail, what);
  } else {
    sx_assert(defined && r.isFinite() && (I)r.toInt() == exact, what);
  }
}
extern "C" void h_add() {
  long long x = sx_i64("x"), y = sx_i64("y");
  run([&] { return IntVal(x) + IntVal(y); }, (I)x + y, true, false, "x + y");
}
extern "C" void h_sub() {
  long long x = sx_i64("x"), y = sx_i64("y");
  run([&] { return IntVal(x) - IntVal(y); }, (I)x - y, true, false, "x - y");
}
static const long long MC[] = {0, 1, -1, 2, -2, 3, -3, 5, -5, 6, 7, -7, 9, 10, -10, 12, 100, -100, 255, 256, 1000, -1000, 65536, 1000003, 2147483647LL, -2147483648LL, 4294967296LL, 4294967297LL, -3037000499LL, 3037000500LL, 1LL << 40, 1000000000000LL, 1LL << 61, (1LL << 62) - 1, 1LL << 62, -(1LL << 62), (1LL << 62) + 1, std::numeric_limits<long long>::max(), -std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min()};
extern "C" void h_mul() {
  long long x = sx_i64("x"), y = MC[sx_choose("y", sizeof(MC) / sizeof(MC[0]))];
  bool swap = sx_choose("swap", 2) == 1;
  run([&] { return swap ? IntVal(y) * IntVal(x) : IntVal(x) * IntVal(y); }, (I)x * y, true, x == LO || y == LO || (I)x * y == LO, "x * y");
}
extern "C" void h_mul_small() {
  long long x = sx_i64("x"), y = sx_i64("y");
  sx_assume(x >= -300 && x <= 300 && y >= -300 && y <= 300);
  run([&] { return IntVal(x) * IntVal(y); }, (I)x * y, true, x == LO || y == LO || (I)x * y == LO, "x * y");
}
extern "C" void h_div() {
  long long x = sx_i64("x"), y;
  int c = sx_choose("case", 3);
  if (c < 2) {
    y = c == 0 ? 1 : -1;
  } else {
    y = sx_i64("y");
    sx_assume(y < -1 || y > 1 || y == 0);
  }
  run([&] { return IntVal(x) / IntVal(y); }, y == 0 ? 0 : (x == LO && y == -1) ? -LO : (I)(x / y), y != 0, x == LO, "x div y");
}
extern "C" void h_mod() {
  long long x = sx_i64("x"), y = sx_i64("y");
  run([&] { return IntVal(x) % IntVal(y); }, (y == 0 || y == -1) ? 0 : (I)(x % y), y != 0, false, "x mod y");
}
// ---- operands that may be infinite ------------------------------------------
struct X {
  int k;  // -1, 0, 1: minus infinity, finite, infinity
  I v;
};
static IntVal mkx(const char* n, X& x) {
  x.k = sx_choose(n, 3) - 1;
  x.v = 0;
  if (x.k == 0) {
    long long v = sx_i64("v");
    x.v = v;
    return IntVal(v);
  }
  return x.k > 0 ? IntVal::infinity() : -IntVal::infinity();
}
// exact extended result; k = 2 means undefined (an error is required)
static X ext(int op, X a, X b) {
  X r{2, 0};
  if (op == 0 || op == 1) {
    int bk = op == 0 ? b.k : -b.k;
    if (a.k == 0 && b.k == 0) return X{0, op == 0 ? a.v + b.v : a.v - b.v};
    if (a.k == 0) return X{bk, 0};
    if (b.k == 0 || bk == a.k) return X{a.k, 0};
    return r;
  }
  if (op == 2) {
    int sa = a.k ? a.k : a.v > 0 ? 1 : a.v < 0 ? -1 : 0, sb = b.k ? b.k : b.v > 0 ? 1 : b.v < 0 ? -1 : 0;
    if (sa == 0 || sb == 0) return r;
    return X{sa * sb, 0};
  }
  if (op == 3) {
    if (a.k == 0 || b.k != 0 || b.v == 0) return r;
    return X{a.k * (b.v > 0 ? 1 : -1), 0};
  }
  return r;
}
static void agree(const IntVal& r, X e, const char* what) {
  if (e.k == 0) {
    sx_assert(r.isFinite() && fits(e.v) && (I)r.toInt() == e.v, what);
  } else {
    sx_assert(e.k != 2 && !r.isFinite() && (e.k == 1 ? r.isPlusInfinity() : r.isMinusInfinity()), what);
  }
}
// + - * / % and their compound forms when an operand is infinite
extern "C" void h_inf() {
  X a, b;
  int form = sx_choose("form", 9);
  IntVal x = mkx("x", a), y = mkx("y", b);
  int op = form < 5 ? form : form - 5;
  if (a.k == 0 && b.k == 0) sx_done();
  IntVal r;
  bool thrown = false;
  try {
    switch (form) {
      case 0: r = x + y; break;
      case 1: r = x - y; break;
      case 2: r = x * y; break;
      case 3: r = x / y; break;
      case 4: r = x % y; break;
      case 5: r = x; r += y; break;
      case 6: r = x; r -= y; break;
      case 7: r = x; r *= y; break;
      case 8: r = x; r /= y; break;
    }
  } catch (ArithmeticError&) {
    thrown = true;
  }
  if (!thrown) agree(r, ext(op, a, b), "arithmetic with an infinite operand");
}
// compound assignment, increment and decrement, unary minus, abs, infinity-safe plus and minus
extern "C" void h_unary() {
  int form = sx_choose("form", 10);
  X a;
  IntVal x = mkx("x", a), r = x, old;
  int k = 0;
  X e{0, 0};
  long long y = 0;
  if (form == 0 || form == 1) y = sx_i64("y");
  if (form == 8 || form == 9) y = k = sx_i32("k");
  bool thrown = false;
  try {
    switch (form) {
      case 0: r += y; break;
      case 1: r -= y; break;
      case 2: r = ++x; break;
      case 3: old = x++; r = x; break;
      case 4: r = --x; break;
      case 5: old = x--; r = x; break;
      case 6: r = -x; break;
      case 7: r = abs(x); break;
      case 8: r = x.plus(k); break;
      case 9: r = x.minus(k); break;
    }
  } catch (ArithmeticError&) {
    thrown = true;
  }
  switch (form) {
    case 0: case 8: e.v = a.v + y; break;
    case 1: case 9: e.v = a.v - y; break;
    case 2: case 3: e.v = a.v + 1; break;
    case 4: case 5: e.v = a.v - 1; break;
    case 6: e.v = -a.v; break;
    case 7: e.v = a.v < 0 ? -a.v : a.v; break;
  }
  e.k = form == 6 ? -a.k : form == 7 ? (a.k != 0) : a.k;
  if (thrown) {
    sx_assert(a.k != 0 || !fits(e.v), "error although the result is representable");
    sx_assert(!(a.k != 0 && form >= 6), "error although the infinite result is defined");
  } else {
    agree(r, e, "unary or in-place operation");
    if (form == 3 || form == 5) {
      a.v = a.v;
      agree(old, a, "value before ++ or --");
    }
  }
}
// comparisons are those of the extended integers
extern "C" void h_cmp() {
  X a, b;
  IntVal x = mkx("x", a), y = mkx("y", b);
  bool lt = a.k != b.k ? a.k < b.k : (a.k == 0 && a.v < b.v);
  bool eq = a.k == b.k && (a.k != 0 || a.v == b.v);
  sx_assert((x < y) == lt, "<");
  sx_assert((x <= y) == (lt || eq), "<=");
  sx_assert((x > y) == !(lt || eq), ">");
  sx_assert((x >= y) == !lt, ">=");
  sx_assert((x == y) == eq, "==");
  sx_assert((x != y) == !eq, "!=");
  if (eq) sx_assert(x.hash() == y.hash(), "equal values have equal hashes");
}
// base^exponent for chosen bases and all exponents
static const long long PB[] = {0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, -10, 16, 1000, -1000, 65536, 3037000499LL, 3037000500LL, -3037000500LL, 4294967296LL, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min()};
static I ipow(I b, long long e, bool& over) {
  I r = 1;
  over = false;
  for (long long i = 0; i < e; i++) {
    r *= b;
    if (!fits(r)) {
      over = true;
      return 0;
    }
  }
  return r;
}
extern "C" void h_pow() {
  long long b = PB[sx_choose("b", sizeof(PB) / sizeof(PB[0]))], e = sx_i64("e");
  IntVal r;
  bool thrown = false;
  try {
    r = IntVal(b).pow(IntVal(e));
  } catch (ArithmeticError&) {
    thrown = true;
  }
  if (e < 0) {
    if (b == 0) {
      sx_assert(thrown, "0 to a negative power is an error");
    } else {
      long long x = b == 1 ? 1 : b == -1 ? (e % 2 == 0 ? 1 : -1) : 0;
      sx_assert(!thrown && r.isFinite() && r.toInt() == x, "negative power");
    }
  } else if (b == 0 || b == 1 || b == -1) {
    long long x = e == 0 ? 1 : b == -1 && e % 2 == 0 ? 1 : b;
    sx_assert(!thrown && r.isFinite() && r.toInt() == x, "power of -1, 0 or 1");
  } else {
    bool over;
    I x = ipow(b, e, over);
    sx_assert(thrown ? over || (x == LO && e > 1) : !over && r.isFinite() && (I)r.toInt() == x, "power");
  }
}
extern "C" void h_pow_base() {
  long long b = sx_i64("b"), e = sx_choose("e", 5);
  sx_assume(b >= -2000 && b <= 2000);
  if (e == 4) e = 5;
  IntVal r = IntVal(b).pow(IntVal(e));
  I x = 1;
  for (int i = 0; i < e; i++) x *= b;
  sx_assert(r.isFinite() && (I)r.toInt() == x, "power of a small base");
}
// products of all operands: the overflow error is raised exactly when needed (upper bits)
extern "C" void h_mul_sign() {
  long long x = sx_i64("x"), y = MC[sx_choose("y", sizeof(MC) / sizeof(MC[0]))];
  IntVal r = x, s = y;
  bool thrown = false;
  try {
    r *= s;
  } catch (ArithmeticError&) {
    thrown = true;
  }
  if (!thrown) sx_assert((I)r.toInt() == (I)x * y, "x *= y");
}
