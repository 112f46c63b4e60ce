// Set algebra on unions of ranges.  T = IntSetVal or FloatSetVal
#include "sx.h"
#include <minizinc/iter.hh>
#include <minizinc/values.hh>
#include <cstring>
using namespace MiniZinc;
struct IntK {
  typedef IntVal V;
  typedef long long N;
  typedef IntSetVal S;
  typedef IntSetRanges R;
  static N fresh(const char* n) {
    // 256 values around seven large multiples: the code only compares and takes neighbours
    unsigned char u = sx_u8(n);
    return ((long long)(signed char)u >> 5) * (1LL << 36) + (u & 31);
  }
  static bool gap(N a, N b) { return a + 1 < b; }
  static bool gapV(const V& a, const V& b) { return a.toInt() + 1 < b.toInt(); }
  static N raw(const V& v) { return v.toInt(); }
};
struct FloatK {
  typedef FloatVal V;
  typedef double N;
  typedef FloatSetVal S;
  typedef FloatSetRanges R;
  static N fresh(const char* n) {
    // 256 doubles: both signs, zero, subnormal and normal numbers, with neighbours
    unsigned char u = sx_u8(n);
    unsigned long long e = (u >> 5) & 3, m = u & 31, b = ((unsigned long long)(u >> 7) << 63) | ((e << 8) << 52) | m;
    double d;
    memcpy(&d, &b, 8);
    return d;
  }
  static bool gap(N a, N b) { return std::nextafter(a, INFINITY) < b; }
  static N raw(const V& v) { return v.toDouble(); }
};
// description of a set: ranges with symbolic ends
template <class K>
struct Desc {
  int n = 0;
  bool minf = false, pinf = false;
  typename K::N lo[4], hi[4];
  std::vector<typename K::S::Range> rs;
  bool has(typename K::N p) const {
    bool r = false;
    for (int i = 0; i < n; i++) {
      bool a = (i == 0 && minf) ? true : lo[i] <= p, b = (i == n - 1 && pinf) ? true : p <= hi[i];
      r = sx_or(r, sx_and(a, b));
    }
    return r;
  }
};
static int shapes(int maxn, bool inf) { return 1 + maxn * (inf ? 4 : 1); }
template <class K>
static void mk(Desc<K>& d, int maxn, bool inf, int shape = -1) {
  if (shape < 0) shape = sx_choose("shape", shapes(maxn, inf));
  d.n = shape == 0 ? 0 : inf ? (shape - 1) / 4 + 1 : shape;
  if (d.n > 0 && inf) {
    d.minf = (shape - 1) & 1;
    d.pinf = (shape - 1) & 2;
  }
  for (int i = 0; i < d.n; i++) {
    d.lo[i] = K::fresh("lo");
    d.hi[i] = K::fresh("hi");
    if (!(i == 0 && d.minf) && !(i == d.n - 1 && d.pinf)) sx_assume(d.lo[i] <= d.hi[i]);
    if (i > 0) sx_assume(K::gap(d.hi[i - 1], d.lo[i]));
    typename K::V a = d.lo[i], b = d.hi[i];
    if (i == 0 && d.minf) a = -K::V::infinity();
    if (i == d.n - 1 && d.pinf) b = K::V::infinity();
    d.rs.push_back(typename K::S::Range(a, b));
  }
}
// membership of p in the ranges of s, and its normal form
template <class K>
static bool member(const typename K::S* s, typename K::N p) {
  bool r = false;
  for (unsigned int i = 0; i < s->size(); i++) {
    bool a = s->min(i).isFinite() ? K::raw(s->min(i)) <= p : s->min(i).isMinusInfinity();
    bool b = s->max(i).isFinite() ? p <= K::raw(s->max(i)) : s->max(i).isPlusInfinity();
    r = sx_or(r, sx_and(a, b));
  }
  return r;
}
template <class K>
static void normal(const typename K::S* s, bool strictGap) {
  bool ok = true;
  for (unsigned int i = 0; i < s->size(); i++) {
    bool fa = s->min(i).isFinite(), fb = s->max(i).isFinite();
    if (!fa) ok = sx_and(ok, i == 0 && s->min(i).isMinusInfinity());
    if (!fb) ok = sx_and(ok, i + 1 == s->size() && s->max(i).isPlusInfinity());
    if (fa && fb) ok = sx_and(ok, K::raw(s->min(i)) <= K::raw(s->max(i)));
    if (i > 0 && fa && s->max(i - 1).isFinite()) {
      if (strictGap)
        ok = sx_and(ok, K::gap(K::raw(s->max(i - 1)), K::raw(s->min(i))));
      else
        ok = sx_and(ok, K::raw(s->max(i - 1)) < K::raw(s->min(i)));
    }
  }
  sx_assert(ok, "normal form: ranges non-empty, ordered, disjoint, not adjacent, infinite only at the ends");
}
template <class K>
static void binary(int op, int maxn, bool inf, int total = 99) {
  typedef typename K::V V;
  typedef typename K::R R;
  Desc<K> a, b;
  // pairs of shapes with at most `total` ranges altogether
  int ns = shapes(maxn, inf), np = 0, pairs[200];
  auto ranges = [&](int s) { return s == 0 ? 0 : inf ? (s - 1) / 4 + 1 : s; };
  for (int i = 0; i < ns * ns; i++) {
    if (ranges(i / ns) + ranges(i % ns) <= total) pairs[np++] = i;
  }
  int sh = pairs[sx_choose("shapes", np)];
  mk<K>(a, maxn, inf, sh / ns);
  mk<K>(b, maxn, inf, sh % ns);
  typename K::S *sa = K::S::a(a.rs), *sb = K::S::a(b.rs), *r;
  R ra(sa), rb(sb);
  typename K::N p = K::fresh("p");
  bool ia = a.has(p), ib = b.has(p);
  switch (op) {
    case 0: {
      Ranges::Union<V, R, R> u(ra, rb);
      r = K::S::ai(u);
      sx_assert(member<K>(r, p) == sx_or(ia, ib), "union: membership");
      normal<K>(r, true);
      break;
    }
    case 1: {
      Ranges::Inter<V, R, R> u(ra, rb);
      r = K::S::ai(u);
      sx_assert(member<K>(r, p) == sx_and(ia, ib), "intersection: membership");
      normal<K>(r, true);
      break;
    }
    case 2: {
      Ranges::Diff<V, R, R> u(ra, rb);
      r = K::S::ai(u);
      sx_assert(member<K>(r, p) == sx_and(ia, !ib), "difference: membership");
      normal<K>(r, true);
      break;
    }
    case 3: {
      bool s = Ranges::subset(ra, rb);
      // a subset relation answered "yes" has no counterexample
      if (s) {
        sx_assert(sx_or(!ia, ib), "subset answered although an element is missing");
      } else {
        // some end of a range, or a neighbour of one, must be a witness
        bool w = a.n > 0 && ((a.minf && !(b.n > 0 && b.minf)) || (a.pinf && !(b.n > 0 && b.pinf)));
        for (int i = 0; i < a.n; i++) {
          if (!(i == 0 && a.minf)) w = sx_or(w, !b.has(a.lo[i]));
          if (!(i == a.n - 1 && a.pinf)) w = sx_or(w, !b.has(a.hi[i]));
        }
        for (int i = 0; i < b.n; i++) {  // the point behind or before a range of b lies in a gap of b
          if (!(i == b.n - 1 && b.pinf)) {
            typename K::N q = K::raw(Ranges::next_higher(V(b.hi[i])));
            w = sx_or(w, sx_and(a.has(q), !b.has(q)));
          }
          if (!(i == 0 && b.minf)) {
            typename K::N q = K::raw(Ranges::next_lower(V(b.lo[i])));
            w = sx_or(w, sx_and(a.has(q), !b.has(q)));
          }
        }
        sx_assert(w, "subset denied although it holds");
      }
      break;
    }
    case 4: {
      bool s = Ranges::disjoint(ra, rb);
      if (s) {
        sx_assert(!sx_and(ia, ib), "disjointness answered although an element is shared");
      } else {
        bool w = a.n > 0 && b.n > 0 && ((a.minf && b.minf) || (a.pinf && b.pinf));
        for (int i = 0; i < a.n; i++) {
          if (!(i == 0 && a.minf)) w = sx_or(w, b.has(a.lo[i]));
          if (!(i == a.n - 1 && a.pinf)) w = sx_or(w, b.has(a.hi[i]));
        }
        for (int i = 0; i < b.n; i++) {
          if (!(i == 0 && b.minf)) w = sx_or(w, a.has(b.lo[i]));
          if (!(i == b.n - 1 && b.pinf)) w = sx_or(w, a.has(b.hi[i]));
        }
        sx_assert(w, "disjointness denied although it holds");
      }
      break;
    }
    case 5: {
      bool e1 = Ranges::equal(ra, rb), e2 = sa->equal(sb);
      sx_assert(e1 == e2, "the two equality tests differ");
      bool same = a.n == b.n && (a.n == 0 || (a.minf == b.minf && a.pinf == b.pinf));
      for (int i = 0; same && i < a.n; i++) {
        if (!(i == 0 && a.minf)) same = sx_and(same, a.lo[i] == b.lo[i]);
        if (!(i == a.n - 1 && a.pinf)) same = sx_and(same, a.hi[i] == b.hi[i]);
      }
      sx_assert(e1 == same, "equality");
      break;
    }
  }
}
#define BIN(name, K, op, n, inf) \
  extern "C" void name() { binary<K>(op, n, inf); }
#define BIN3(name, K, op, n, inf) \
  extern "C" void name() { binary<K>(op, n, inf, 3); }
BIN(h_union, IntK, 0, 2, true)
BIN(h_inter, IntK, 1, 2, true)
BIN(h_diff, IntK, 2, 2, true)
BIN(h_subset, IntK, 3, 2, true)
BIN(h_disjoint, IntK, 4, 2, true)
BIN(h_equal, IntK, 5, 2, true)
BIN(h_union3, IntK, 0, 3, false)
BIN(h_inter3, IntK, 1, 3, false)
BIN(h_diff3, IntK, 2, 3, false)
BIN(h_subset3, IntK, 3, 3, false)
BIN3(h_funion, FloatK, 0, 2, true)
BIN(h_funion4, FloatK, 0, 2, true)
BIN3(h_finter, FloatK, 1, 2, true)
BIN(h_finter4, FloatK, 1, 2, true)
BIN3(h_fdiff, FloatK, 2, 2, true)
BIN(h_fdiff4, FloatK, 2, 2, true)
BIN(h_fsubset, FloatK, 3, 2, true)
BIN(h_fdisjoint, FloatK, 4, 2, true)
BIN(h_fequal, FloatK, 5, 2, true)

typedef __int128 I;
// cardinality, minimum, maximum, membership, range subset
extern "C" void h_query() {
  Desc<IntK> a;
  mk<IntK>(a, 3, true);
  IntSetVal* s = IntSetVal::a(a.rs);
  long long p = IntK::fresh("p");
  sx_assert(s->contains(IntVal(p)) == a.has(p), "membership");
  sx_assert(s->contains(IntVal::infinity()) == (a.n > 0 && a.pinf), "membership of infinity");
  sx_assert(s->empty() == (a.n == 0), "emptiness");
  IntVal c = s->card();
  IntSetRanges r0(s);
  IntVal c2 = Ranges::cardinality(r0);
  sx_assert(c == c2, "cardinality of the set and of its ranges");
  if (a.n > 0 && (a.minf || a.pinf)) {
    sx_assert(c.isPlusInfinity(), "cardinality of an infinite set");
  } else {
    I t = 0;
    for (int i = 0; i < a.n; i++) t += (I)a.hi[i] - a.lo[i] + 1;
    sx_assert(c.isFinite() && (I)c.toInt() == t, "cardinality");
  }
  if (a.n > 0) {
    IntVal mi = s->min(), ma = s->max();
    sx_assert(a.minf ? mi.isMinusInfinity() : mi.isFinite() && mi.toInt() == a.lo[0], "minimum");
    sx_assert(a.pinf ? ma.isPlusInfinity() : ma.isFinite() && ma.toInt() == a.hi[a.n - 1], "maximum");
  }
}
extern "C" void h_range_subset() {
  Desc<IntK> a;
  mk<IntK>(a, 2, true);
  IntSetVal* s = IntSetVal::a(a.rs);
  long long x = IntK::fresh("x"), y = IntK::fresh("y"), p = IntK::fresh("p");
  sx_assume(x <= y);
  bool in = s->isSubset(IntSetVal::Range(x, y));
  if (in) {
    sx_assert(sx_or(!sx_and(x <= p, p <= y), a.has(p)), "range subset answered although an element is missing");
  } else {
    bool w = sx_or(!a.has(x), !a.has(y));
    for (int i = 0; i < a.n; i++) {
      if (i == a.n - 1 && a.pinf) continue;
      long long q = a.hi[i] + 1;
      w = sx_or(w, sx_and(sx_and(x <= q, q <= y), !a.has(q)));
    }
    sx_assert(w, "range subset denied although it holds");
  }
}
// sets from element lists, in any order, with duplicates
extern "C" void h_elements() {
  int n = sx_choose("n", 5);
  std::vector<IntVal> v;
  long long e[4];
  for (int i = 0; i < n; i++) {
    e[i] = IntK::fresh("e");
    v.push_back(IntVal(e[i]));
  }
  IntSetVal* s = IntSetVal::a(v);
  long long p = IntK::fresh("p");
  bool in = false;
  for (int i = 0; i < n; i++) in = sx_or(in, e[i] == p);
  sx_assert(member<IntK>(s, p) == in, "set of elements: membership");
  normal<IntK>(s, true);
}
extern "C" void h_range_make() {
  long long x = IntK::fresh("x"), y = IntK::fresh("y"), p = IntK::fresh("p");
  IntSetVal* s = IntSetVal::a(x, y);
  sx_assert(member<IntK>(s, p) == sx_and(x <= p, p <= y), "range");
  normal<IntK>(s, true);
  IntSetVal* c;
  {
    Ranges::Const<IntVal> k(x, y);
    c = IntSetVal::ai(k);
  }
  sx_assert(s->equal(c), "constant range");
}
// restriction of a set to bounds
extern "C" void h_bounded() {
  Desc<IntK> a;
  int form = sx_choose("form", 3);
  mk<IntK>(a, 2, true);
  IntSetVal* s = IntSetVal::a(a.rs);
  long long x = IntK::fresh("x"), y = IntK::fresh("y"), p = IntK::fresh("p");
  IntSetRanges r(s);
  typedef Ranges::Bounded<IntVal, IntSetRanges> BD;
  BD b = form == 0 ? BD::miniter(r, x) : form == 1 ? BD::maxiter(r, y) : BD::minmaxiter(r, x, y);
  if (form == 2) sx_assume(x <= y);
  IntSetVal* t = IntSetVal::ai(b);
  sx_assert(member<IntK>(t, p) == sx_and(a.has(p), sx_and(form == 1 ? true : x <= p, form == 0 ? true : p <= y)), "bounded set: membership");
  normal<IntK>(t, true);
}
// iteration over the values visits every element once, in order
extern "C" void h_values() {
  Desc<IntK> a;
  mk<IntK>(a, 3, false);
  for (int i = 0; i < a.n; i++) sx_assume(a.hi[i] - a.lo[i] <= 2);
  IntSetVal* s = IntSetVal::a(a.rs);
  IntSetRanges r(s);
  int i = 0;
  long long cur = a.n ? a.lo[0] : 0;
  for (Ranges::ToValues<IntSetRanges> v(r); v(); ++v) {
    sx_assert(i < a.n && v.val() == IntVal(cur), "next value");
    if (cur == a.hi[i]) {
      i++;
      if (i < a.n) cur = a.lo[i];
    } else {
      cur++;
    }
  }
  sx_assert(i == a.n, "all values visited");
}
// lexicographic order of sets
template <class F>
static void order(F f, bool strict, int n) {
  Desc<IntK> a, b;
  mk<IntK>(a, n, false);
  mk<IntK>(b, n, false);
  IntSetVal *sa = IntSetVal::a(a.rs), *sb = IntSetVal::a(b.rs);
  IntSetRanges ra(sa), rb(sb);
  bool got = f(ra, rb);
  // the smallest element of the symmetric difference is the start of a range or lies just behind one
  long long c[16];
  int k = 0;
  for (int i = 0; i < a.n; i++) c[k++] = a.lo[i], c[k++] = a.hi[i] + 1;
  for (int i = 0; i < b.n; i++) c[k++] = b.lo[i], c[k++] = b.hi[i] + 1;
  bool less = false, any = false;
  for (int i = 0; i < k; i++) {
    bool ia = a.has(c[i]), ib = b.has(c[i]), first = ia != ib;
    any = sx_or(any, first);
    for (int j = 0; j < k; j++) first = sx_and(first, sx_or(c[j] >= c[i], a.has(c[j]) == b.has(c[j])));
    bool moreA = a.n > 0 && a.hi[a.n - 1] > c[i], moreB = b.n > 0 && b.hi[b.n - 1] > c[i];
    less = sx_or(less, sx_and(first, sx_or(sx_and(ia, moreB), sx_and(ib, !moreA))));
  }
  sx_assert(got == (strict ? less : sx_or(less, !any)), "set order");
}
extern "C" void h_less() {
  order([](IntSetRanges& a, IntSetRanges& b) { return Ranges::less(a, b); }, true, 2);
}
extern "C" void h_less_eq() {
  order([](IntSetRanges& a, IntSetRanges& b) { return Ranges::less_eq(a, b); }, false, 2);
}
