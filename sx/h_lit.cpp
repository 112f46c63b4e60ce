// Integer and float values kept inside tagged pointers, and float/integer conversion
#include "sx.h"
#include <minizinc/flatten_internal.hh>
#include <cstring>
using namespace MiniZinc;
extern "C" void h_unboxed_int() {
  long long x = sx_i64("x");
  IntLit* p = Expression::intToUnboxedInt(x);
  if (p == nullptr) {
    sx_assert(x > (1LL << 60) || x < -(1LL << 60), "small integers are stored in place");
  } else {
    sx_assert(Expression::isUnboxedInt(p) && Expression::isUnboxedVal(p) && !Expression::isUnboxedFloatVal(p), "tag of an integer");
    IntVal v = Expression::unboxedIntToIntVal(p);
    sx_assert(v.isFinite() && v.toInt() == x, "integer value");
    sx_assert(IntLit::v(p) == IntVal(x), "IntLit::v");
    sx_assert(Expression::eid(p) == Expression::E_INTLIT, "expression kind");
  }
}
extern "C" void h_unboxed_float() {
  unsigned long long u = sx_u64("bits");
  sx_assume((u >> 52 & 0x7ff) != 0x7ff);  // finite
  double d;
  memcpy(&d, &u, 8);
  FloatLit* p = Expression::doubleToUnboxedFloatVal(d);
  if (p != nullptr) {
    sx_assert(Expression::isUnboxedFloatVal(p) && Expression::isUnboxedVal(p) && !Expression::isUnboxedInt(p), "tag of a float");
    double r = Expression::unboxedFloatToFloatVal(p).toDouble();
    unsigned long long v;
    memcpy(&v, &r, 8);
    sx_assert(v == u, "float value");
    sx_assert(Expression::eid(p) == Expression::E_FLOATLIT, "expression kind");
  }
}
extern "C" void h_float2int() {
  double d = sx_f64("d");
  sx_assume(d - d == 0);
  bool thrown = false;
  IntVal r;
  try {
    r = static_cast<IntVal>(FloatVal(d));
  } catch (ArithmeticError&) {
    thrown = true;
  }
  bool in = d >= -9223372036854775808.0 && d < 9223372036854775808.0;
  sx_assert(thrown == !in, "conversion fails exactly outside the integer range");
  if (!thrown) {
    double b = (double)r.toInt();
    double diff = d - b;
    sx_assert(d >= 0 ? (b <= d && diff < 1.0) : (b >= d && diff > -1.0), "truncation");
  }
}
extern "C" void h_floordiv() {
  static const long long D[] = {1, 2, 3, 4, 5, 7, 10, 16, 1000, 4294967296LL, 1000000000000LL, -1, -2, -3, -7, -10, -1000};
  long long x = sx_i64("x"), y = D[sx_choose("y", sizeof(D) / sizeof(D[0]))];
  sx_assume(x > std::numeric_limits<long long>::min());
  long long q = x / y, r = x % y;
  long long fl = r != 0 && ((r < 0) != (y < 0)) ? q - 1 : q, ce = r != 0 && ((r < 0) == (y < 0)) ? q + 1 : q;
  sx_assert(LinearTraits<IntLit>::floorDiv(IntVal(x), IntVal(y)) == IntVal(fl), "floor of a quotient");
  sx_assert(LinearTraits<IntLit>::ceilDiv(IntVal(x), IntVal(y)) == IntVal(ce), "ceiling of a quotient");
}
