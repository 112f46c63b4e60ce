// Symbolic executor for LLVM-18 bitcode (opaque pointers), deciding every branch and assertion with Z3.
// usage: engine file.bc entry [--part i/n] [--max-steps N] [--max-paths N] [--time S] [--qtime ms]
// Prints one JSON object: paths, instructions, queries, solver time, functions executed, violations with inputs.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

static Z3_context Z;
static bool fpUsed = false;
static u64 nQueries = 0, nSteps = 0, nSat = 0, nUnsat = 0, nUnknown = 0;
static double solverTime = 0;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values
struct Val {
  unsigned w = 0;
  u128 c = 0;
  Z3_ast e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  bool sym() const { return e != nullptr; }
};
static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static Val C(unsigned w, u128 c) {
  Val v;
  v.w = w;
  v.c = c & mask(w);
  return v;
}
static Val S(unsigned w, Z3_ast e) {
  Val v;
  v.w = w;
  v.e = e;
  return v;
}
static i128 sx(u128 c, unsigned w) {
  if (w < 128 && ((c >> (w - 1)) & 1)) return (i128)(c | ~mask(w));
  return (i128)c;
}
static Z3_sort bvs(unsigned w) {
  static Z3_sort s[129];
  if (!s[w]) s[w] = Z3_mk_bv_sort(Z, w);
  return s[w];
}
static Z3_ast num(unsigned w, u128 c) {
  if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64)c, bvs(w));
  return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64)(c >> 64), bvs(w - 64)),
                      Z3_mk_unsigned_int64(Z, (u64)c, bvs(64)));
}
static Z3_ast ast(const Val& v) { return v.e ? v.e : num(v.w, v.c); }
static bool numeral(Z3_ast a, u128& out) {
  if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false;
  uint64_t r;
  if (Z3_get_numeral_uint64(Z, a, &r)) {
    out = r;
    return true;
  }
  const char* s = Z3_get_numeral_string(Z, a);
  u128 x = 0;
  for (; *s; s++) x = x * 10 + (*s - '0');
  out = x;
  return true;
}
static Val simp(Val v) {
  if (!v.e) return v;
  Z3_ast a = Z3_simplify(Z, v.e);
  u128 n;
  if (numeral(a, n)) return C(v.w, n);
  v.e = a;
  return v;
}
static std::unordered_map<Z3_ast, Z3_ast> bvToBool;
static Z3_ast one1() {
  static Z3_ast a = num(1, 1);
  return a;
}
// Simplification is used to find constants only: rewritten terms can be much larger
static Z3_ast simpB(Z3_ast b) {
  Z3_ast r = Z3_simplify(Z, b);
  return Z3_get_bool_value(Z, r) == Z3_L_UNDEF ? b : r;
}
static Val ofBool(Z3_ast b) {
  switch (Z3_get_bool_value(Z, b)) {
    case Z3_L_TRUE:
      return C(1, 1);
    case Z3_L_FALSE:
      return C(1, 0);
    default:
      break;
  }
  Z3_ast r = Z3_mk_ite(Z, b, num(1, 1), num(1, 0));
  bvToBool[r] = b;
  return S(1, r);
}
static Z3_ast toBool(const Val& v) {
  if (!v.e) return v.c ? Z3_mk_true(Z) : Z3_mk_false(Z);
  auto it = bvToBool.find(v.e);
  if (it != bvToBool.end()) return it->second;
  return Z3_mk_eq(Z, v.e, one1());
}
static Val ext(const Val& v, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (!v.e) return C(w, v.c >> lo);
  if (lo == 0 && w == v.w) return v;
  return S(w, Z3_mk_extract(Z, hi, lo, v.e));
}
static Val zx(const Val& v, unsigned w) {
  if (w <= v.w) return w == v.w ? v : ext(v, w - 1, 0);
  if (!v.e) return C(w, v.c);
  return S(w, Z3_mk_zero_ext(Z, w - v.w, v.e));
}
static Val sxt(const Val& v, unsigned w) {
  if (w <= v.w) return w == v.w ? v : ext(v, w - 1, 0);
  if (!v.e) return C(w, (u128)sx(v.c, v.w));
  return S(w, Z3_mk_sign_ext(Z, w - v.w, v.e));
}

// ---------------------------------------------------------------- memory
struct SymB {
  Z3_ast e = nullptr;
  unsigned idx = 0;
};
struct Obj {
  u64 base = 0, size = 0;
  std::vector<uint8_t> c;
  std::vector<SymB> s;
  bool alive = true, ro = false;
  char kind = 'g';
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
  std::unordered_map<const Value*, unsigned> slot;
  unsigned n = 0;
};
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnInfos;
static FnInfo& info(const Function* f) {
  auto& p = fnInfos[f];
  if (!p) {
    p.reset(new FnInfo);
    for (auto& a : f->args()) p->slot[&a] = p->n++;
    for (auto& b : *f)
      for (auto& i : b)
        if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
  }
  return *p;
}
struct Frame {
  const Function* f = nullptr;
  FnInfo* fi = nullptr;
  const BasicBlock* bb = nullptr;
  const BasicBlock* prev = nullptr;
  BasicBlock::const_iterator pc;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  const CallBase* call = nullptr;  // the call in the caller this frame answers
  std::vector<Val> va;
};
struct Exc {
  u64 obj = 0, ti = 0;
};
struct Input {
  std::string name;
  unsigned w = 0;
  Z3_ast e = nullptr;
  u128 c = 0;  // for choices
};
struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  std::vector<Z3_ast> pc;
  std::vector<Input> in;
  Z3_model model = nullptr;
  u64 next = 0x10000000;
  std::vector<Exc> thrown, caught;
  u64 steps = 0;
  unsigned firstChoice = 0;
  u64 asserts = 0;
  bool done = false;
  std::vector<std::string> log;
};
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, const Function*> faddr;
static std::deque<std::unique_ptr<State>> work;
static std::map<std::string, u64> unsupported;
static std::set<std::string> fnsRun;
struct Viol {
  std::string kind, where;
  std::vector<std::pair<std::string, std::string>> in;
};
static std::vector<Viol> viols, witnesses, hangs;
static unsigned maxWitness = 3;
static u64 nPaths = 0, nDone = 0, nInfeasible = 0, nLimit = 0, nAsserts = 0, nAssertQ = 0, nUndecided = 0, nConcretised = 0;
static u64 maxSteps = 20000000, maxPaths = 1000000;
static unsigned qtime = 60000;
static double deadline = 1e18;
static unsigned partI = 0, partN = 1;

struct Kill {
  std::string why;
};
struct Reexec {};
[[noreturn]] static void unsup(const std::string& s) { throw Kill{"unsupported: " + s}; }

static u64 allocObj(State& s, u64 size, char kind, uint8_t fill) {
  u64 a = s.next;
  s.next += (size + 64 + 15) & ~(u64)15;
  auto o = std::make_shared<Obj>();
  o->base = a;
  o->size = size;
  o->c.assign(size, fill);
  o->kind = kind;
  s.mem[a] = o;
  return a;
}
static Obj* findObj(State& s, u64 a) {
  auto it = s.mem.upper_bound(a);
  if (it == s.mem.begin()) return nullptr;
  --it;
  Obj* o = it->second.get();
  if (a - o->base <= o->size) return o;
  return nullptr;
}
static Obj* own(State& s, Obj* o) {
  auto& p = s.mem[o->base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}

// ---------------------------------------------------------------- solver
static std::unordered_map<Z3_ast, std::shared_ptr<std::set<unsigned>>> varsMemo;
static std::shared_ptr<std::set<unsigned>> varsOf(Z3_ast a) {
  auto it = varsMemo.find(a);
  if (it != varsMemo.end()) return it->second;
  // iterative post-order
  std::vector<std::pair<Z3_ast, bool>> stk{{a, false}};
  while (!stk.empty()) {
    auto [x, done] = stk.back();
    stk.pop_back();
    if (varsMemo.count(x)) continue;
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) {
      varsMemo[x] = std::make_shared<std::set<unsigned>>();
      continue;
    }
    Z3_app ap = Z3_to_app(Z, x);
    unsigned n = Z3_get_app_num_args(Z, ap);
    if (n == 0) {
      auto sset = std::make_shared<std::set<unsigned>>();
      Z3_func_decl d = Z3_get_app_decl(Z, ap);
      if (Z3_get_decl_kind(Z, d) == Z3_OP_UNINTERPRETED) sset->insert(Z3_get_ast_id(Z, x));
      varsMemo[x] = sset;
      continue;
    }
    if (!done) {
      stk.push_back({x, true});
      for (unsigned i = 0; i < n; i++) {
        Z3_ast c = Z3_get_app_arg(Z, ap, i);
        if (!varsMemo.count(c)) stk.push_back({c, false});
      }
      continue;
    }
    std::shared_ptr<std::set<unsigned>> r;
    bool shared = true;
    for (unsigned i = 0; i < n; i++) {
      auto& q = varsMemo[Z3_get_app_arg(Z, ap, i)];
      if (q->empty()) continue;
      if (!r) {
        r = q;
      } else if (r != q) {
        if (shared) {
          r = std::make_shared<std::set<unsigned>>(*r);
          shared = false;
        }
        r->insert(q->begin(), q->end());
      }
    }
    if (!r) r = std::make_shared<std::set<unsigned>>();
    varsMemo[x] = r;
  }
  return varsMemo[a];
}
static std::map<std::vector<Z3_ast>, int> qcache;
// returns 1 sat (model updated when wanted), 0 unsat, -1 unknown
static int check(State& s, Z3_ast cond, Z3_model* out) {
  // independence slicing
  auto vs = *varsOf(cond);
  std::vector<bool> use(s.pc.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) {
      if (use[i]) continue;
      auto& q = varsMemo.count(s.pc[i]) ? varsMemo[s.pc[i]] : (varsOf(s.pc[i]), varsMemo[s.pc[i]]);
      bool hit = false;
      for (unsigned v : *q)
        if (vs.count(v)) {
          hit = true;
          break;
        }
      if (hit) {
        use[i] = true;
        ch = true;
        vs.insert(q->begin(), q->end());
      }
    }
  }
  std::vector<Z3_ast> key;
  for (size_t i = 0; i < s.pc.size(); i++)
    if (use[i]) key.push_back(s.pc[i]);
  key.push_back(cond);
  std::sort(key.begin(), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end() && it->second == 0) return 0;
  nQueries++;
  double t0 = now();
  Z3_solver sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fpUsed ? "QF_FPBV" : "QF_BV"));
  Z3_solver_inc_ref(Z, sol);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qtime);
  Z3_solver_set_params(Z, sol, p);
  for (auto a : key) Z3_solver_assert(Z, sol, a);
  Z3_lbool r = Z3_solver_check(Z, sol);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1 && out) {
    Z3_model m = Z3_solver_get_model(Z, sol);
    Z3_model_inc_ref(Z, m);
    Z3_model nm = Z3_mk_model(Z);
    Z3_model_inc_ref(Z, nm);
    for (auto& i : s.in) {
      if (!i.e) continue;
      Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, i.e));
      Z3_ast v = nullptr;
      if (vs.count(Z3_get_ast_id(Z, i.e))) {
        Z3_model_eval(Z, m, i.e, true, &v);
      } else if (s.model) {
        Z3_model_eval(Z, s.model, i.e, true, &v);
      }
      if (v) Z3_add_const_interp(Z, nm, d, v);
    }
    *out = nm;
    Z3_model_dec_ref(Z, m);
  }
  Z3_params_dec_ref(Z, p);
  Z3_solver_dec_ref(Z, sol);
  double dt = now() - t0;
  solverTime += dt;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) {
    fprintf(stderr, "slow query %.2fs res=%d size=%zu cond=%s\n", dt, res, key.size(), Z3_ast_to_string(Z, cond));
  }
  if (res == 1) nSat++;
  else if (res == 0) nUnsat++;
  else nUnknown++;
  qcache[key] = res;
  return res;
}
static bool evalModel(State& s, Z3_ast b, bool& val) {
  if (!s.model) return false;
  Z3_ast r = nullptr;
  if (!Z3_model_eval(Z, s.model, b, true, &r)) return false;
  r = Z3_simplify(Z, r);
  switch (Z3_get_bool_value(Z, r)) {
    case Z3_L_TRUE:
      val = true;
      return true;
    case Z3_L_FALSE:
      val = false;
      return true;
    default:
      return false;
  }
}
static u128 modelVal(State& s, Z3_ast e) {
  Z3_ast r = nullptr;
  u128 n;
  if (s.model && Z3_model_eval(Z, s.model, e, true, &r)) {
    r = Z3_simplify(Z, r);
    if (numeral(r, n)) return n;
  }
  throw Kill{"no model value"};
}
// Feasibility of b and not b.  Returns bits: 1 = true feasible, 2 = false feasible; models filled.
static int feas(State& s, Z3_ast b, Z3_model& mt, Z3_model& mf) {
  int r = 0;
  bool v;
  mt = mf = nullptr;
  if (evalModel(s, b, v)) {
    if (v) {
      r |= 1;
      mt = s.model;
    } else {
      r |= 2;
      mf = s.model;
    }
  }
  if (!(r & 1)) {
    int q = check(s, b, &mt);
    if (q < 0) throw Kill{"undecided: solver gave no answer"};
    if (q) r |= 1;
  }
  if (!(r & 2)) {
    int q = check(s, Z3_mk_not(Z, b), &mf);
    if (q < 0) throw Kill{"undecided: solver gave no answer"};
    if (q) r |= 2;
  }
  return r;
}
static std::unique_ptr<State> cloneState(const State& s) { return std::make_unique<State>(s); }

static std::string where(State& s) {
  std::string r;
  for (size_t i = s.st.size(); i-- > 0 && r.size() < 600;) {
    r += s.st[i].f->getName().str();
    if (i) r += " < ";
  }
  return r;
}
static std::string hexs(u128 v) {
  char b[40];
  if (v >> 64) snprintf(b, sizeof b, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, sizeof b, "%llx", (unsigned long long)v);
  return b;
}
static void record(std::vector<Viol>& to, State& s, Z3_model m, const std::string& kind) {
  Viol v;
  v.kind = kind;
  v.where = where(s);
  for (auto& i : s.in) {
    u128 n = i.c;
    if (i.e) {
      n = 0;
      Z3_ast r;
      if (m && Z3_model_eval(Z, m, i.e, true, &r)) {
        r = Z3_simplify(Z, r);
        numeral(r, n);
      }
    }
    v.in.push_back({i.name, hexs(n)});
  }
  to.push_back(v);
}
static void violation(State& s, Z3_model m, const std::string& kind) { record(viols, s, m, kind); }
// Branch on a condition that must hold for execution to be well behaved
static void require(State& s, const Val& ok, const std::string& kind) {
  if (!ok.e) {
    if (!ok.c) {
      violation(s, s.model, kind);
      throw Kill{"violation"};
    }
    return;
  }
  Z3_ast b = toBool(ok);
  Z3_model mt, mf;
  nAssertQ++;
  int f = feas(s, b, mt, mf);
  if (f & 2) {
    violation(s, mf, kind);
    if (!(f & 1)) throw Kill{"violation"};
    s.pc.push_back(b);
    s.model = mt;
  }
}
// concretise: continue with one value, and re-execute the instruction for the others
static u128 concretise(State& s, const Val& v0) {
  Val v = simp(v0);
  if (!v.e) return v.c;
  u128 n = modelVal(s, v.e);
  Z3_ast eq = Z3_mk_eq(Z, v.e, num(v.w, n));
  Z3_model m = nullptr;
  int q = check(s, Z3_mk_not(Z, eq), &m);
  if (q < 0) throw Kill{"undecided: solver gave no answer"};
  if (q) {
    nConcretised++;
    auto o = cloneState(s);
    o->pc.push_back(Z3_mk_not(Z, eq));
    o->model = m;
    work.push_back(std::move(o));
    s.pc.push_back(eq);
  }
  return n;
}
static u64 conc64(State& s, const Val& v) { return (u64)concretise(s, v); }

// ---------------------------------------------------------------- loads and stores
static Val byteAt(Obj* o, u64 off) {
  if (!o->s.empty() && o->s[off].e) {
    auto& b = o->s[off];
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, b.e));
    if (w == 8) return S(8, b.e);
    return S(8, Z3_mk_extract(Z, b.idx * 8 + 7, b.idx * 8, b.e));
  }
  return C(8, o->c[off]);
}
static Val readBytes(Obj* o, u64 off, unsigned n) {
  bool any = false;
  if (!o->s.empty())
    for (unsigned i = 0; i < n; i++)
      if (o->s[off + i].e) {
        any = true;
        break;
      }
  if (!any) {
    u128 r = 0;
    for (unsigned i = n; i-- > 0;) r = (r << 8) | o->c[off + i];
    return C(n * 8, r);
  }
  Z3_ast res = nullptr;
  unsigned i = 0;
  while (i < n) {
    SymB b = o->s[off + i];
    Z3_ast part;
    unsigned k = 1;
    if (b.e) {
      while (i + k < n && o->s[off + i + k].e == b.e && o->s[off + i + k].idx == b.idx + k) k++;
      unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, b.e));
      part = (b.idx == 0 && w == k * 8) ? b.e : Z3_mk_extract(Z, (b.idx + k) * 8 - 1, b.idx * 8, b.e);
    } else {
      u128 r = o->c[off + i];
      while (i + k < n && !o->s[off + i + k].e && k < 8) {
        r |= (u128)o->c[off + i + k] << (8 * k);
        k++;
      }
      part = num(k * 8, r);
    }
    res = res ? Z3_mk_concat(Z, part, res) : part;
    i += k;
  }
  return S(n * 8, res);
}
static void writeBytes(Obj* o, u64 off, Val v) {
  unsigned n = (v.w + 7) / 8;
  if (v.w != n * 8) v = zx(v, n * 8);
  if (!v.e) {
    for (unsigned i = 0; i < n; i++) {
      o->c[off + i] = (uint8_t)(v.c >> (8 * i));
      if (!o->s.empty()) o->s[off + i].e = nullptr;
    }
    return;
  }
  if (o->s.empty()) o->s.resize(o->size);
  for (unsigned i = 0; i < n; i++) {
    o->s[off + i].e = v.e;
    o->s[off + i].idx = i;
  }
}
static Obj* checkAccess(State& s, u64 a, u64 n, bool wr, const char* what) {
  Obj* o = findObj(s, a);
  if (!o || !o->alive || a - o->base + n > o->size || (wr && o->ro)) {
    std::string k = std::string("memory error: ") + what + " of " + std::to_string(n) + " byte(s) " +
                    (!o ? (a < 4096 ? "through a null pointer" : "at an invalid address")
                        : !o->alive ? "after free"
                                    : (wr && o->ro) ? "to constant memory" : "outside the object");
    violation(s, s.model, k);
    throw Kill{"violation"};
  }
  return o;
}
static Obj* symObject(State& s, const Val& addr, u64 n, const char* what) {
  u64 a = (u64)modelVal(s, addr.e);
  Obj* o = findObj(s, a);
  if (!o || !o->alive) {
    // this value is a bad pointer
    checkAccess(s, a, n, false, what);
  }
  // is the address always inside this object?
  Z3_ast e = addr.e;
  Z3_ast lo = Z3_mk_bvuge(Z, e, num(64, o->base));
  Z3_ast in1;
  if (o->size < n) {
    in1 = Z3_mk_false(Z);
  } else {
    in1 = Z3_mk_bvule(Z, e, num(64, o->base + o->size - n));
  }
  Z3_ast args[2] = {lo, in1};
  Z3_ast in = Z3_mk_and(Z, 2, args);
  Z3_model m = nullptr;
  int q = check(s, Z3_mk_not(Z, in), &m);
  if (q < 0) throw Kill{"undecided: solver gave no answer"};
  if (q) {
    u64 a2 = 0;
    {
      Z3_ast r;
      Z3_model_eval(Z, m, e, true, &r);
      u128 nn;
      numeral(Z3_simplify(Z, r), nn);
      a2 = (u64)nn;
    }
    Obj* o2 = findObj(s, a2);
    if (!o2 || !o2->alive || a2 - o2->base + n > o2->size) {
      Z3_model keep = s.model;
      s.model = m;
      violation(s, m, std::string("memory error: ") + what + " outside the object");
      s.model = keep;
      Z3_model m3 = nullptr;
      if (check(s, in, &m3) != 1) throw Kill{"violation"};
      s.pc.push_back(in);
      s.model = m3;
      return findObj(s, o->base);
    }
    auto other = cloneState(s);
    other->pc.push_back(Z3_mk_not(Z, in));
    other->model = m;
    work.push_back(std::move(other));
    Z3_model m3 = nullptr;
    if (check(s, in, &m3) != 1) throw Kill{"infeasible"};
    s.pc.push_back(in);
    s.model = m3;
  }
  return o;
}
static Val load(State& s, const Val& addr0, unsigned w, unsigned align) {
  unsigned n = (w + 7) / 8;
  Val addr = simp(addr0);
  Val r;
  if (!addr.e) {
    Obj* o = checkAccess(s, (u64)addr.c, n, false, "read");
    r = readBytes(o, (u64)addr.c - o->base, n);
  } else {
    Obj* o = symObject(s, addr, n, "read");
    if (o->size > 2048) {
      u64 a = conc64(s, addr);
      o = checkAccess(s, a, n, false, "read");
      r = readBytes(o, a - o->base, n);
    } else {
      if (align == 0 || align > 16) align = 1;
      // use the alignment only if the base is aligned likewise
      Z3_ast res = nullptr;
      bool allc = true;
      for (u64 off = 0; off + n <= o->size; off += align) {
        Val b = readBytes(o, off, n);
        if (b.e) allc = false;
        res = res ? Z3_mk_ite(Z, Z3_mk_eq(Z, addr.e, num(64, o->base + off)), ast(b), res) : ast(b);
      }
      (void)allc;
      r = S(n * 8, res);
    }
  }
  if (w != n * 8) r = ext(r, w - 1, 0);
  return r;
}
static void store(State& s, const Val& addr0, const Val& v, unsigned align) {
  unsigned n = (v.w + 7) / 8;
  Val addr = simp(addr0);
  if (!addr.e) {
    Obj* o = own(s, checkAccess(s, (u64)addr.c, n, true, "write"));
    writeBytes(o, (u64)addr.c - o->base, v);
    return;
  }
  Obj* o = symObject(s, addr, n, "write");
  if (o->size > 256) {
    u64 a = conc64(s, addr);
    o = own(s, checkAccess(s, a, n, true, "write"));
    writeBytes(o, a - o->base, v);
    return;
  }
  o = own(s, o);
  if (align == 0 || align > 16) align = 1;
  Val vv = zx(v, n * 8);
  std::vector<std::pair<u64, Val>> nv;
  if (align % n == 0) {
    for (u64 off = 0; off + n <= o->size; off += align) {
      Val old = readBytes(o, off, n);
      nv.push_back({off, S(n * 8, Z3_mk_ite(Z, Z3_mk_eq(Z, addr.e, num(64, o->base + off)), ast(vv), ast(old)))});
    }
  } else {
    u64 a = conc64(s, addr);
    writeBytes(o, a - o->base, v);
    return;
  }
  for (auto& p : nv) writeBytes(o, p.first, p.second);
}

// ---------------------------------------------------------------- types
static unsigned bitsOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static Val zeroOf(Type* t) {
  if (unsigned w = bitsOf(t)) return C(w, 0);
  Val v;
  v.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t)) {
    for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(zeroOf(st->getElementType(i)));
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroOf(at->getElementType()));
    return v;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.agg->push_back(zeroOf(vt->getElementType()));
    return v;
  }
  unsup("type");
}
static Val loadT(State& s, const Val& addr, Type* t, unsigned align) {
  if (unsigned w = bitsOf(t)) return load(s, addr, w, align);
  if (addr.e) unsup("aggregate load through a symbolic pointer");
  Val v;
  v.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      v.agg->push_back(loadT(s, C(64, addr.c + (u64)sl->getElementOffset(i)), st->getElementType(i), 1));
    return v;
  }
  Type* et;
  u64 cnt;
  if (auto* at = dyn_cast<ArrayType>(t)) {
    et = at->getElementType();
    cnt = at->getNumElements();
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    et = vt->getElementType();
    cnt = vt->getNumElements();
    if (bitsOf(et) % 8) unsup("vector of bits");
  } else {
    unsup("load type");
  }
  u64 sz = DL->getTypeAllocSize(et);
  for (u64 i = 0; i < cnt; i++) v.agg->push_back(loadT(s, C(64, addr.c + i * sz), et, 1));
  return v;
}
static void storeT(State& s, const Val& addr, const Val& v, Type* t, unsigned align) {
  if (bitsOf(t)) return store(s, addr, v, align);
  if (addr.e) unsup("aggregate store through a symbolic pointer");
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      storeT(s, C(64, addr.c + (u64)sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i), 1);
    return;
  }
  Type* et;
  u64 cnt;
  if (auto* at = dyn_cast<ArrayType>(t)) {
    et = at->getElementType();
    cnt = at->getNumElements();
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    et = vt->getElementType();
    cnt = vt->getNumElements();
  } else {
    unsup("store type");
  }
  u64 sz = DL->getTypeAllocSize(et);
  for (u64 i = 0; i < cnt; i++) storeT(s, C(64, addr.c + i * sz), (*v.agg)[i], et, 1);
}

// ---------------------------------------------------------------- constants
static std::unordered_map<const Constant*, Val> constCache;
static Val binop(State* s, unsigned op, const Val& a, const Val& b, bool exactTrap);
static Val constant(const Constant* k) {
  auto it = constCache.find(k);
  if (it != constCache.end()) return it->second;
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(k)) {
    const APInt& a = ci->getValue();
    if (a.getBitWidth() > 128) unsup("wide integer");
    u128 c = a.getRawData()[0];
    if (a.getNumWords() > 1) c |= (u128)a.getRawData()[1] << 64;
    v = C(a.getBitWidth(), c);
  } else if (auto* cf = dyn_cast<ConstantFP>(k)) {
    if (!bitsOf(k->getType())) unsup("long double constant");
    v = C(bitsOf(k->getType()), cf->getValueAPF().bitcastToAPInt().getZExtValue());
  } else if (isa<ConstantPointerNull>(k)) {
    v = C(64, 0);
  } else if (isa<UndefValue>(k) || isa<ConstantAggregateZero>(k)) {
    v = zeroOf(k->getType());
  } else if (auto* ga = dyn_cast<GlobalAlias>(k)) {
    v = constant(ga->getAliasee());
  } else if (auto* gv = dyn_cast<GlobalValue>(k)) {
    auto q = gaddr.find(gv);
    if (q == gaddr.end()) unsup("global " + gv->getName().str());
    v = C(64, q->second);
  } else if (auto* ca = dyn_cast<ConstantAggregate>(k)) {
    v.agg = std::make_shared<std::vector<Val>>();
    for (auto& o : ca->operands()) v.agg->push_back(constant(cast<Constant>(o)));
  } else if (auto* cd = dyn_cast<ConstantDataSequential>(k)) {
    v.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constant(cd->getElementAsConstant(i)));
  } else if (auto* ce = dyn_cast<ConstantExpr>(k)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) unsup("constant gep");
        v = C(64, constant(ce->getOperand(0)).c + (u64)off.getSExtValue());
        break;
      }
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        v = constant(ce->getOperand(0));
        break;
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::Trunc:
      case Instruction::ZExt:
        v = zx(constant(ce->getOperand(0)), bitsOf(ce->getType()));
        break;
      case Instruction::SExt:
        v = sxt(constant(ce->getOperand(0)), bitsOf(ce->getType()));
        break;
      case Instruction::ICmp: {
        Val a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: v = C(1, a.c == b.c); break;
          case CmpInst::ICMP_NE: v = C(1, a.c != b.c); break;
          default: unsup("constant icmp");
        }
        break;
      }
      default:
        if (Instruction::isBinaryOp(ce->getOpcode())) {
          v = binop(nullptr, ce->getOpcode(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), false);
        } else {
          unsup(std::string("constant expression ") + ce->getOpcodeName());
        }
    }
  } else {
    unsup("constant");
  }
  constCache[k] = v;
  return v;
}
static void initGlobal(Obj* o, u64 off, const Constant* k) {
  if (isa<ConstantAggregateZero>(k) || isa<UndefValue>(k)) return;
  Type* t = k->getType();
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      initGlobal(o, off + (u64)sl->getElementOffset(i), cast<Constant>(k->getOperand(i)));
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(k)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->c[off], raw.data(), raw.size());
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
    u64 sz = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < k->getNumOperands(); i++) initGlobal(o, off + i * sz, cast<Constant>(k->getOperand(i)));
    return;
  }
  Val v = constant(k);
  writeBytes(o, off, v);
}

static Val get(State& s, const Value* v) {
  if (auto* k = dyn_cast<Constant>(v)) return constant(k);
  Frame& f = s.st.back();
  return f.regs[f.fi->slot.at(v)];
}
static void set(State& s, const Value* v, const Val& x) {
  Frame& f = s.st.back();
  f.regs[f.fi->slot.at(v)] = x;
}

// ---------------------------------------------------------------- operators
static Val ite(const Val& c, const Val& a, const Val& b) {
  if (!c.e) return c.c ? a : b;
  if (a.agg) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(ite(c, (*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  if (!a.e && !b.e && a.c == b.c) return a;
  if (a.e && a.e == b.e) return a;
  if (a.w == 1) {
    Z3_ast r = Z3_mk_ite(Z, toBool(c), toBool(a), toBool(b));
    return ofBool(simpB(r));
  }
  return S(a.w, Z3_mk_ite(Z, toBool(c), ast(a), ast(b)));
}
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(Z) : Z3_mk_fpa_sort_32(Z); }
static std::unordered_map<Z3_ast, Z3_ast> bvToFp;
static Z3_ast fpa(const Val& v) {
  fpUsed = true;
  if (v.e) {
    auto it = bvToFp.find(v.e);
    if (it != bvToFp.end()) return it->second;
  }
  return Z3_mk_fpa_to_fp_bv(Z, ast(v), fps(v.w));
}
static Val ofFp(unsigned w, Z3_ast f) {
  Z3_ast r = Z3_mk_fpa_to_ieee_bv(Z, f);
  bvToFp[r] = f;
  return S(w, r);
}
static double dbl(const Val& v) {
  if (v.w == 64) {
    double d;
    u64 x = (u64)v.c;
    memcpy(&d, &x, 8);
    return d;
  }
  float d;
  uint32_t x = (uint32_t)v.c;
  memcpy(&d, &x, 4);
  return d;
}
static Val ofDbl(unsigned w, double d) {
  if (w == 64) {
    u64 x;
    memcpy(&x, &d, 8);
    return C(64, x);
  }
  float f = (float)d;
  uint32_t x;
  memcpy(&x, &f, 4);
  return C(32, x);
}
static Val icmp(unsigned pred, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (!a.e && !b.e) {
    bool r = false;
    i128 sa = sx(a.c, w), sb = sx(b.c, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: r = a.c == b.c; break;
      case CmpInst::ICMP_NE: r = a.c != b.c; break;
      case CmpInst::ICMP_ULT: r = a.c < b.c; break;
      case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
      case CmpInst::ICMP_UGT: r = a.c > b.c; break;
      case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
      case CmpInst::ICMP_SLT: r = sa < sb; break;
      case CmpInst::ICMP_SLE: r = sa <= sb; break;
      case CmpInst::ICMP_SGT: r = sa > sb; break;
      case CmpInst::ICMP_SGE: r = sa >= sb; break;
    }
    return C(1, r);
  }
  if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && a.e && b.e && a.e == b.e) return C(1, pred == CmpInst::ICMP_EQ);
  if (a.e && b.e && Z3_get_ast_kind(Z, a.e) == Z3_APP_AST && Z3_get_ast_kind(Z, b.e) == Z3_APP_AST) {
    // compare before extension
    Z3_app p = Z3_to_app(Z, a.e), q = Z3_to_app(Z, b.e);
    Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, p));
    if (k == Z3_get_decl_kind(Z, Z3_get_app_decl(Z, q)) && (k == Z3_OP_SIGN_EXT || k == Z3_OP_ZERO_EXT)) {
      Z3_ast x = Z3_get_app_arg(Z, p, 0), y = Z3_get_app_arg(Z, q, 0);
      unsigned wx = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
      bool sg = pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SLE || pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_SGE;
      if (wx == Z3_get_bv_sort_size(Z, Z3_get_sort(Z, y)) && (k == Z3_OP_SIGN_EXT || !sg)) return icmp(pred, S(wx, x), S(wx, y));
    }
  }
  Z3_ast x = ast(a), y = ast(b), r = nullptr;
  if (w == 1 && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
    r = Z3_mk_iff(Z, toBool(a), toBool(b));
    if (pred == CmpInst::ICMP_NE) r = Z3_mk_not(Z, r);
    return ofBool(simpB(r));
  }
  switch (pred) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
  }
  return ofBool(simpB(r));
}
static Val fcmp(unsigned pred, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    double x = dbl(a), y = dbl(b);
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = false; break;
      case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
    }
    return C(1, r);
  }
  Z3_ast x = fpa(a), y = fpa(b);
  Z3_ast ua[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)};
  Z3_ast un = Z3_mk_or(Z, 2, ua);
  Z3_ast r = nullptr;
  auto Or = [&](Z3_ast p) { Z3_ast q[2] = {un, p}; return Z3_mk_or(Z, 2, q); };
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = Z3_mk_false(Z); break;
    case CmpInst::FCMP_TRUE: r = Z3_mk_true(Z); break;
    case CmpInst::FCMP_OEQ: r = Z3_mk_fpa_eq(Z, x, y); break;
    case CmpInst::FCMP_OGT: r = Z3_mk_fpa_gt(Z, x, y); break;
    case CmpInst::FCMP_OGE: r = Z3_mk_fpa_geq(Z, x, y); break;
    case CmpInst::FCMP_OLT: r = Z3_mk_fpa_lt(Z, x, y); break;
    case CmpInst::FCMP_OLE: r = Z3_mk_fpa_leq(Z, x, y); break;
    case CmpInst::FCMP_ONE: r = Z3_mk_not(Z, Or(Z3_mk_fpa_eq(Z, x, y))); break;
    case CmpInst::FCMP_ORD: r = Z3_mk_not(Z, un); break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = Or(Z3_mk_fpa_eq(Z, x, y)); break;
    case CmpInst::FCMP_UGT: r = Or(Z3_mk_fpa_gt(Z, x, y)); break;
    case CmpInst::FCMP_UGE: r = Or(Z3_mk_fpa_geq(Z, x, y)); break;
    case CmpInst::FCMP_ULT: r = Or(Z3_mk_fpa_lt(Z, x, y)); break;
    case CmpInst::FCMP_ULE: r = Or(Z3_mk_fpa_leq(Z, x, y)); break;
    case CmpInst::FCMP_UNE: r = Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)); break;
  }
  return ofBool(simpB(r));
}
static Val binop(State* s, unsigned op, const Val& a, const Val& b, bool) {
  if (a.agg) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(s, op, (*a.agg)[i], (*b.agg)[i], false));
    return r;
  }
  unsigned w = a.w;
  switch (op) {
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
      if (s) {
        require(*s, icmp(CmpInst::ICMP_NE, b, C(w, 0)), "integer division by zero");
        if (op == Instruction::SDiv || op == Instruction::SRem) {
          Val bad1 = icmp(CmpInst::ICMP_NE, a, C(w, (u128)1 << (w - 1)));
          Val bad2 = icmp(CmpInst::ICMP_NE, b, C(w, mask(w)));
          Val ok = (!bad1.e && bad1.c) || (!bad2.e && bad2.c) ? C(1, 1)
                   : ofBool(simpB([&] { Z3_ast q[2] = {toBool(bad1), toBool(bad2)}; return Z3_mk_or(Z, 2, q); }()));
          require(*s, ok, "integer division overflow");
        }
      }
      break;
    default:
      break;
  }
  if (!a.e && !b.e) {
    i128 sa = sx(a.c, w), sb = sx(b.c, w);
    switch (op) {
      case Instruction::Add: return C(w, a.c + b.c);
      case Instruction::Sub: return C(w, a.c - b.c);
      case Instruction::Mul: return C(w, a.c * b.c);
      case Instruction::UDiv: return C(w, a.c / b.c);
      case Instruction::SDiv: return C(w, (u128)(sa / sb));
      case Instruction::URem: return C(w, a.c % b.c);
      case Instruction::SRem: return C(w, (u128)(sa % sb));
      case Instruction::And: return C(w, a.c & b.c);
      case Instruction::Or: return C(w, a.c | b.c);
      case Instruction::Xor: return C(w, a.c ^ b.c);
      case Instruction::Shl: return C(w, b.c >= w ? 0 : a.c << b.c);
      case Instruction::LShr: return C(w, b.c >= w ? 0 : a.c >> b.c);
      case Instruction::AShr: return C(w, b.c >= w ? 0 : (u128)(sa >> (int)b.c));
      case Instruction::FAdd: return ofDbl(w, dbl(a) + dbl(b));
      case Instruction::FSub: return ofDbl(w, dbl(a) - dbl(b));
      case Instruction::FMul: return ofDbl(w, dbl(a) * dbl(b));
      case Instruction::FDiv: return ofDbl(w, dbl(a) / dbl(b));
      case Instruction::FRem: return ofDbl(w, fmod(dbl(a), dbl(b)));
    }
    unsup("binary operator");
  }
  // cheap identities
  if (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor ||
      op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) {
    if (!b.e && b.c == 0) return a;
  }
  if ((op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor) && !a.e && a.c == 0) return b;
  if (w == 1) {
    Z3_ast q[2] = {toBool(a), toBool(b)};
    Z3_ast r = nullptr;
    switch (op) {
      case Instruction::And: case Instruction::Mul: r = Z3_mk_and(Z, 2, q); break;
      case Instruction::Or: r = Z3_mk_or(Z, 2, q); break;
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r = Z3_mk_xor(Z, q[0], q[1]); break;
      default: unsup("i1 operator");
    }
    return ofBool(simpB(r));
  }
  if (op == Instruction::And || op == Instruction::Mul) {
    if ((!a.e && a.c == 0) || (!b.e && b.c == 0)) return C(w, 0);
  }
  Z3_ast x = ast(a), y = ast(b);
  Z3_ast rm = nullptr;
  switch (op) {
    case Instruction::Add: return S(w, Z3_mk_bvadd(Z, x, y));
    case Instruction::Sub: return S(w, Z3_mk_bvsub(Z, x, y));
    case Instruction::Mul: return S(w, Z3_mk_bvmul(Z, x, y));
    case Instruction::UDiv: return S(w, Z3_mk_bvudiv(Z, x, y));
    case Instruction::SDiv: return S(w, Z3_mk_bvsdiv(Z, x, y));
    case Instruction::URem: return S(w, Z3_mk_bvurem(Z, x, y));
    case Instruction::SRem: return S(w, Z3_mk_bvsrem(Z, x, y));
    case Instruction::And: return simp(S(w, Z3_mk_bvand(Z, x, y)));
    case Instruction::Or: return simp(S(w, Z3_mk_bvor(Z, x, y)));
    case Instruction::Xor: return simp(S(w, Z3_mk_bvxor(Z, x, y)));
    case Instruction::Shl: return simp(S(w, Z3_mk_bvshl(Z, x, y)));
    case Instruction::LShr: return simp(S(w, Z3_mk_bvlshr(Z, x, y)));
    case Instruction::AShr: return simp(S(w, Z3_mk_bvashr(Z, x, y)));
    case Instruction::FAdd: rm = Z3_mk_fpa_rne(Z); return ofFp(w, Z3_mk_fpa_add(Z, rm, fpa(a), fpa(b)));
    case Instruction::FSub: rm = Z3_mk_fpa_rne(Z); return ofFp(w, Z3_mk_fpa_sub(Z, rm, fpa(a), fpa(b)));
    case Instruction::FMul: rm = Z3_mk_fpa_rne(Z); return ofFp(w, Z3_mk_fpa_mul(Z, rm, fpa(a), fpa(b)));
    case Instruction::FDiv: rm = Z3_mk_fpa_rne(Z); return ofFp(w, Z3_mk_fpa_div(Z, rm, fpa(a), fpa(b)));
  }
  unsup("symbolic binary operator");
}
static Val castOp(State& s, unsigned op, const Val& a, unsigned w) {
  if (a.agg) unsup("vector cast");
  switch (op) {
    case Instruction::Trunc: {
      if (!a.e) return C(w, a.c);
      if (w == 1) return simp(ext(a, 0, 0));
      return simp(ext(a, w - 1, 0));
    }
    case Instruction::ZExt: return zx(a, w);
    case Instruction::SExt: return sxt(a, w);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: return zx(a, w);
    case Instruction::BitCast: return a;
    case Instruction::SIToFP:
      if (!a.e) return ofDbl(w, (double)sx(a.c, a.w));
      fpUsed = true; return ofFp(w, Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), a.e, fps(w)));
    case Instruction::UIToFP:
      if (!a.e) return ofDbl(w, (double)a.c);
      fpUsed = true; return ofFp(w, Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), a.e, fps(w)));
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      bool sg = op == Instruction::FPToSI;
      // out of range is undefined behaviour
      double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sg ? w - 1 : w);
      double lom = sg ? (w == 64 ? lo : lo - 1) : -1;
      Val ge = w == 64 && sg ? fcmp(CmpInst::FCMP_OGE, a, ofDbl(a.w, lo)) : fcmp(CmpInst::FCMP_OGT, a, ofDbl(a.w, lom));
      Val lt = fcmp(CmpInst::FCMP_OLT, a, ofDbl(a.w, hi));
      require(s, binop(&s, Instruction::And, ge, lt, false), "float to integer conversion out of range");
      if (!a.e) return C(w, sg ? (u128)(i128)(long long)dbl(a) : (u128)(unsigned long long)dbl(a));
      return S(w, sg ? Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), fpa(a), w) : Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), fpa(a), w));
    }
    case Instruction::FPExt:
    case Instruction::FPTrunc:
      if (!a.e) return ofDbl(w, dbl(a));
      return ofFp(w, Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), fpa(a), fps(w)));
  }
  unsup("cast");
}

// ---------------------------------------------------------------- control
static void enter(State& s, const Function* f, std::vector<Val> args, const CallBase* call) {
  if (s.st.size() > 4000) throw Kill{"undecided: call depth"};
  fnsRun.insert(f->getName().str());
  Frame fr;
  fr.f = f;
  fr.fi = &info(f);
  fr.regs.resize(fr.fi->n);
  fr.bb = &f->getEntryBlock();
  fr.pc = fr.bb->begin();
  fr.call = call;
  size_t i = 0;
  for (auto& a : f->args()) {
    Val v = args[i++];
    if (a.hasByValAttr()) {
      Type* t = a.getParamByValType();
      u64 n = DL->getTypeAllocSize(t);
      u64 p = allocObj(s, n, 's', 0xCD);
      Obj* so = checkAccess(s, (u64)v.c, n, false, "read");
      Obj* d = s.mem[p].get();
      u64 off = (u64)v.c - so->base;
      memcpy(d->c.data(), &so->c[off], n);
      if (!so->s.empty()) d->s.assign(so->s.begin() + off, so->s.begin() + off + n);
      fr.allocas.push_back(p);
      v = C(64, p);
    }
    fr.regs[fr.fi->slot.at(&a)] = v;
  }
  for (; i < args.size(); i++) fr.va.push_back(args[i]);
  s.st.push_back(std::move(fr));
}
static void jump(State& s, const BasicBlock* to) {
  Frame& f = s.st.back();
  const BasicBlock* from = f.bb;
  // evaluate phis in parallel
  std::vector<std::pair<const PHINode*, Val>> ph;
  for (auto& i : *to) {
    auto* p = dyn_cast<PHINode>(&i);
    if (!p) break;
    ph.push_back({p, get(s, p->getIncomingValueForBlock(from))});
  }
  f.prev = from;
  f.bb = to;
  f.pc = to->begin();
  for (auto& p : ph) {
    set(s, p.first, p.second);
    ++f.pc;
  }
}
static void popFrame(State& s) {
  Frame& f = s.st.back();
  for (u64 a : f.allocas) s.mem.erase(a);
  s.st.pop_back();
}
static std::unordered_map<u64, const GlobalVariable*> tiByAddr;
static std::map<u64, int> tiIds;
static int typeId(u64 ti) {
  auto it = tiIds.find(ti);
  if (it == tiIds.end()) it = tiIds.insert({ti, (int)tiIds.size() + 1}).first;
  return it->second;
}
static bool derives(u64 ti, u64 base) {
  if (ti == base) return true;
  auto it = tiByAddr.find(ti);
  if (it == tiByAddr.end()) return false;
  const GlobalVariable* g = it->second;
  auto bg = tiByAddr.find(base);
  // externally defined hierarchy of the standard exceptions
  static const std::map<std::string, std::string> ext = {
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
      {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
  if (!g->hasInitializer()) {
    auto e = ext.find(g->getName().str());
    if (e == ext.end()) return false;
    if (bg != tiByAddr.end() && bg->second->getName() == e->second) return true;
    auto* p = M->getNamedGlobal(e->second);
    if (p) return derives(gaddr[p], base);
    auto e2 = ext.find(e->second);
    return e2 != ext.end() && bg != tiByAddr.end() && bg->second->getName() == e2->second;
  }
  const Constant* k = g->getInitializer();
  for (unsigned i = 2; i < k->getNumOperands(); i++) {
    if (auto* b = dyn_cast<GlobalVariable>(k->getOperand(i)->stripPointerCasts())) {
      if (derives(gaddr[b], base)) return true;
    }
  }
  return false;
}
static void unwind(State& s) {
  Exc ex = s.thrown.back();
  while (!s.st.empty()) {
    const CallBase* c = s.st.back().call;
    popFrame(s);
    if (s.st.empty()) break;
    auto* iv = dyn_cast_or_null<InvokeInst>(c);
    if (!iv) continue;
    const LandingPadInst* lp = iv->getLandingPadInst();
    int sel = -1;
    for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
      if (lp->isCatch(i)) {
        Val v = constant(lp->getClause(i));
        if (v.c == 0 || derives(ex.ti, (u64)v.c)) sel = v.c == 0 ? typeId(0) : typeId((u64)v.c);
      } else {
        // filter: an empty filter means terminate
        sel = -1;
      }
    }
    if (sel < 0 && lp->isCleanup()) sel = 0;
    if (sel < 0) continue;
    jump(s, iv->getUnwindDest());
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    v.agg->push_back(C(64, ex.obj));
    v.agg->push_back(C(32, (u128)sel));
    set(s, lp, v);
    Frame& f = s.st.back();
    f.pc = lp->getIterator();
    ++f.pc;
    return;
  }
  violation(s, s.model, "uncaught exception");
  throw Kill{"violation"};
}
static void throwExc(State& s, u64 obj, u64 ti) {
  s.thrown.push_back({obj, ti});
  // a marker frame is popped first by unwind(): the current frame is the thrower, so push a dummy
  Frame d;
  d.f = s.st.back().f;
  d.call = dyn_cast<CallBase>(&*s.st.back().pc);
  s.st.push_back(d);
  unwind(s);
}
static u64 stdTi(State& s, const char* name) {
  if (auto* g = M->getNamedGlobal(name)) return gaddr[g];
  static std::map<std::string, u64> fake;
  auto it = fake.find(name);
  if (it == fake.end()) it = fake.insert({name, 0x7000000 + fake.size() * 64}).first;
  return it->second;
}
static void finishCall(State& s, const CallBase* cb, const Val& r) {
  if (!cb->getType()->isVoidTy()) set(s, cb, r);
  if (auto* iv = dyn_cast<InvokeInst>(cb)) {
    jump(s, iv->getNormalDest());
  } else {
    ++s.st.back().pc;
  }
}
static std::string cstr(State& s, u64 a) {
  std::string r;
  for (;;) {
    Obj* o = findObj(s, a);
    if (!o || a - o->base >= o->size) break;
    Val b = byteAt(o, a - o->base);
    if (b.e || b.c == 0) break;
    r.push_back((char)b.c);
    a++;
  }
  return r;
}
static void copyBytes(State& s, u64 d, u64 src, u64 n) {
  if (n == 0) return;
  Obj* so = checkAccess(s, src, n, false, "read");
  Obj* dobj = checkAccess(s, d, n, true, "write");
  dobj = own(s, dobj);
  so = findObj(s, src);
  u64 so0 = src - so->base, do0 = d - dobj->base;
  std::vector<uint8_t> c(so->c.begin() + so0, so->c.begin() + so0 + n);
  std::vector<SymB> sb;
  if (!so->s.empty()) sb.assign(so->s.begin() + so0, so->s.begin() + so0 + n);
  memcpy(&dobj->c[do0], c.data(), n);
  if (!sb.empty()) {
    if (dobj->s.empty()) dobj->s.resize(dobj->size);
    std::copy(sb.begin(), sb.end(), dobj->s.begin() + do0);
  } else if (!dobj->s.empty()) {
    for (u64 i = 0; i < n; i++) dobj->s[do0 + i].e = nullptr;
  }
}
static Val addSymInput(State& s, const std::string& name, unsigned w) {
  std::string u = name + "#" + std::to_string(s.in.size());
  Z3_ast e = Z3_mk_const(Z, Z3_mk_string_symbol(Z, u.c_str()), bvs(w));
  Input i;
  i.name = name;
  i.w = w;
  i.e = e;
  s.in.push_back(i);
  if (!s.model) {
    s.model = Z3_mk_model(Z);
    Z3_model_inc_ref(Z, s.model);
  }
  return S(w, e);
}
static Val andv(const Val& a, const Val& b) { return binop(nullptr, Instruction::And, a, b, false); }
static Val orv(const Val& a, const Val& b) { return binop(nullptr, Instruction::Or, a, b, false); }

static bool branch(State& s, const Val& c0) {
  Val c = c0;
  if (!c.e) return c.c & 1;
  Z3_ast b = toBool(c);
  b = simpB(b);
  if (Z3_get_bool_value(Z, b) == Z3_L_TRUE) return true;
  if (Z3_get_bool_value(Z, b) == Z3_L_FALSE) return false;
  Z3_model mt, mf;
  int f = feas(s, b, mt, mf);
  if (f == 3) {
    auto o = cloneState(s);
    o->pc.push_back(Z3_mk_not(Z, b));
    o->model = mf;
    work.push_back(std::move(o));
    s.pc.push_back(b);
    s.model = mt;
    return true;
  }
  if (f == 0) throw Kill{"infeasible"};
  return f == 1;
}

// external functions: return true if handled
static bool external(State& s, const CallBase* cb, const Function* f, std::vector<Val>& a, Val& ret) {
  std::string n = f->getName().str();
  auto is = [&](const char* p) { return n == p; };
  auto starts = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  // ---- harness interface
  if (starts("sx_")) {
    if (is("sx_i64") || is("sx_u64")) { ret = addSymInput(s, cstr(s, (u64)a[0].c), 64); return true; }
    if (is("sx_i32")) { ret = addSymInput(s, cstr(s, (u64)a[0].c), 32); return true; }
    if (is("sx_u8")) { ret = addSymInput(s, cstr(s, (u64)a[0].c), 8); return true; }
    if (is("sx_f64")) { ret = addSymInput(s, cstr(s, (u64)a[0].c), 64); return true; }
    if (is("sx_bool")) {
      Val v = addSymInput(s, cstr(s, (u64)a[0].c), 8);
      s.pc.push_back(Z3_mk_bvule(Z, v.e, num(8, 1)));
      ret = zx(ofBool(Z3_mk_eq(Z, v.e, num(8, 1))), bitsOf(cb->getType()));
      return true;
    }
    if (is("sx_choose")) {
      // fork over 0..n-1
      u64 k = conc64(s, a[1]);
      if (k == 0) throw Kill{"infeasible"};
      Input i;
      i.name = cstr(s, (u64)a[0].c);
      i.w = 32;
      u64 lo = 0, step = 1;
      if (s.firstChoice == 0 && partN > 1) { lo = partI; step = partN; }
      bool first = s.firstChoice == 0;
      s.firstChoice = 1;
      (void)first;
      std::vector<u64> vals;
      for (u64 v = lo; v < k; v += step) vals.push_back(v);
      if (vals.empty()) throw Kill{"infeasible"};
      for (size_t q = vals.size(); q-- > 1;) {
        auto o = cloneState(s);
        i.c = vals[q];
        o->in.push_back(i);
        finishCall(*o, cb, C(32, vals[q]));
        work.push_back(std::move(o));
      }
      i.c = vals[0];
      s.in.push_back(i);
      ret = C(32, vals[0]);
      return true;
    }
    if (is("sx_assume")) {
      Val c = icmp(CmpInst::ICMP_NE, a[0], C(a[0].w, 0));
      if (!c.e) {
        if (!c.c) throw Kill{"infeasible"};
        return true;
      }
      Z3_ast b = simpB(toBool(c));
      if (Z3_get_bool_value(Z, b) == Z3_L_TRUE) return true;
      bool v;
      if (!(evalModel(s, b, v) && v)) {
        Z3_model m = nullptr;
        int q = check(s, b, &m);
        if (q < 0) throw Kill{"undecided: solver gave no answer"};
        if (!q) throw Kill{"infeasible"};
        s.model = m;
      }
      s.pc.push_back(b);
      return true;
    }
    if (is("sx_assert")) {
      nAsserts++;
      s.asserts++;
      require(s, icmp(CmpInst::ICMP_NE, a[0], C(a[0].w, 0)), cstr(s, (u64)a[1].c));
      return true;
    }
    if (is("sx_fail")) {
      violation(s, s.model, cstr(s, (u64)a[0].c));
      throw Kill{"violation"};
    }
    if (is("sx_and")) { ret = zx(andv(icmp(CmpInst::ICMP_NE, a[0], C(a[0].w, 0)), icmp(CmpInst::ICMP_NE, a[1], C(a[1].w, 0))), bitsOf(cb->getType())); return true; }
    if (is("sx_or")) { ret = zx(orv(icmp(CmpInst::ICMP_NE, a[0], C(a[0].w, 0)), icmp(CmpInst::ICMP_NE, a[1], C(a[1].w, 0))), bitsOf(cb->getType())); return true; }
    if (is("sx_not")) { ret = zx(icmp(CmpInst::ICMP_EQ, a[0], C(a[0].w, 0)), bitsOf(cb->getType())); return true; }
    if (is("sx_ite")) { ret = ite(icmp(CmpInst::ICMP_NE, a[0], C(a[0].w, 0)), a[1], a[2]); return true; }
    if (is("sx_log")) { fprintf(stderr, "log: %s %s\n", cstr(s, (u64)a[0].c).c_str(), a[1].e ? Z3_ast_to_string(Z, a[1].e) : hexs(a[1].c).c_str()); return true; }
    if (is("sx_done")) throw Kill{"done"};
  }
  // ---- allocation
  if (is("malloc") || is("_Znwm") || is("_Znam") || is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t") || is("_ZnwmSt11align_val_t")) {
    u64 k = conc64(s, a[0]);
    if (k > (1u << 28)) throw Kill{"undecided: huge allocation"};
    ret = C(64, allocObj(s, k, 'h', 0xCD));
    return true;
  }
  if (is("calloc")) {
    u64 k = conc64(s, a[0]) * conc64(s, a[1]);
    ret = C(64, allocObj(s, k, 'h', 0));
    return true;
  }
  if (is("realloc")) {
    u64 k = conc64(s, a[1]);
    u64 old = conc64(s, a[0]);
    u64 p = allocObj(s, k, 'h', 0xCD);
    if (old) {
      Obj* o = findObj(s, old);
      copyBytes(s, p, old, std::min(k, o->size));
      own(s, findObj(s, old))->alive = false;
    }
    ret = C(64, p);
    return true;
  }
  if (is("free") || is("_ZdlPv") || is("_ZdaPv") || is("_ZdlPvm") || is("_ZdaPvm") || is("_ZdlPvSt11align_val_t") || is("_ZdlPvmSt11align_val_t")) {
    u64 p = conc64(s, a[0]);
    if (p) {
      Obj* o = findObj(s, p);
      if (!o || o->base != p || !o->alive || o->kind != 'h') {
        violation(s, s.model, "memory error: invalid free");
        throw Kill{"violation"};
      }
      o = own(s, o);
      o->alive = false;
      o->c.clear();
      o->s.clear();
      o->c.resize(0);
    }
    return true;
  }
  // ---- memory and strings
  if (is("memcpy") || is("memmove")) { copyBytes(s, conc64(s, a[0]), conc64(s, a[1]), conc64(s, a[2])); ret = a[0]; return true; }
  if (is("memset")) {
    u64 d = conc64(s, a[0]), k = conc64(s, a[2]);
    if (k) {
      Obj* o = own(s, checkAccess(s, d, k, true, "write"));
      Val b = ext(a[1], 7, 0);
      for (u64 i = 0; i < k; i++) writeBytes(o, d - o->base + i, b);
    }
    ret = a[0];
    return true;
  }
  if (is("memcmp") || is("bcmp")) {
    u64 p = conc64(s, a[0]), q = conc64(s, a[1]), k = conc64(s, a[2]);
    Val r = C(32, 0);
    if (k) {
      Obj* o = checkAccess(s, p, k, false, "read");
      Obj* o2 = checkAccess(s, q, k, false, "read");
      for (u64 i = k; i-- > 0;) {
        Val x = byteAt(o, p - o->base + i), y = byteAt(o2, q - o2->base + i);
        Val d = binop(&s, Instruction::Sub, zx(x, 32), zx(y, 32), false);
        r = ite(icmp(CmpInst::ICMP_EQ, x, y), r, d);
      }
    }
    ret = simp(r);
    return true;
  }
  if (is("strlen") || is("memchr") || is("strchr") || is("strcmp") || is("strncmp")) {
    unsup("use of the C model of " + n);  // provided in the support library instead
  }
  // ---- exceptions
  if (is("__cxa_allocate_exception")) { ret = C(64, allocObj(s, conc64(s, a[0]), 'h', 0)); return true; }
  if (is("__cxa_free_exception")) return true;
  if (is("__cxa_throw")) { throwExc(s, (u64)a[0].c, (u64)a[1].c); throw Reexec{}; }
  if (is("__cxa_begin_catch")) {
    Exc e = s.thrown.empty() ? Exc() : s.thrown.back();
    if (!s.thrown.empty()) s.thrown.pop_back();
    s.caught.push_back(e);
    ret = a[0];
    return true;
  }
  if (is("__cxa_end_catch")) {
    if (!s.caught.empty()) s.caught.pop_back();
    return true;
  }
  if (is("__cxa_rethrow")) {
    Exc e = s.caught.back();
    throwExc(s, e.obj, e.ti);
    throw Reexec{};
  }
  if (is("__cxa_get_exception_ptr")) { ret = a[0]; return true; }
  if (is("_ZSt20__throw_length_errorPKc")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt12length_error")); throw Reexec{}; }
  if (is("_ZSt24__throw_out_of_range_fmtPKcz") || is("_ZSt20__throw_out_of_rangePKc")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt12out_of_range")); throw Reexec{}; }
  if (is("_ZSt19__throw_logic_errorPKc")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt11logic_error")); throw Reexec{}; }
  if (is("_ZSt24__throw_invalid_argumentPKc")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt16invalid_argument")); throw Reexec{}; }
  if (is("_ZSt17__throw_bad_allocv") || is("_ZSt28__throw_bad_array_new_lengthv")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt9bad_alloc")); throw Reexec{}; }
  if (is("_ZSt25__throw_bad_function_callv")) { throwExc(s, allocObj(s, 64, 'h', 0), stdTi(s, "_ZTISt17bad_function_call")); throw Reexec{}; }
  if (is("__clang_call_terminate") || is("_ZSt9terminatev") || is("abort") || is("__assert_fail") || is("exit") || is("_exit") || is("__cxa_pure_virtual")) {
    violation(s, s.model, "program terminates in " + n + (is("__assert_fail") ? ": " + cstr(s, (u64)a[0].c) : ""));
    throw Kill{"violation"};
  }
  if (is("__cxa_guard_acquire")) {
    Val g = load(s, a[0], 8, 1);
    ret = C(32, g.c == 0);
    return true;
  }
  if (is("__cxa_guard_release")) { store(s, a[0], C(8, 1), 1); return true; }
  if (is("__cxa_guard_abort")) return true;
  if (is("__cxa_atexit") || is("__cxa_thread_atexit")) { ret = C(32, 0); return true; }
  // standard exception objects carry no data we look at
  if (starts("_ZNSt9exceptionD") || starts("_ZNSt13runtime_error") || starts("_ZNSt11logic_error") || starts("_ZNSt9bad_allocD") || starts("_ZNSt12out_of_range") || starts("_ZNSt16invalid_argument") || starts("_ZNSt12length_error")) return true;
  if (starts("_ZNSt8ios_base4Init")) return true;
  if (is("pow") || is("floor") || is("ceil") || is("fmod") || is("sqrt") || is("log") || is("exp") || is("trunc") || is("round") || is("fabs")) {
    for (auto& v : a) if (v.e) unsup("symbolic " + n);
    double x = dbl(a[0]), y = a.size() > 1 ? dbl(a[1]) : 0, r;
    r = is("pow") ? pow(x, y) : is("floor") ? floor(x) : is("ceil") ? ceil(x) : is("fmod") ? fmod(x, y) : is("sqrt") ? sqrt(x) : is("log") ? log(x) : is("exp") ? exp(x) : is("trunc") ? trunc(x) : is("round") ? round(x) : fabs(x);
    ret = ofDbl(64, r);
    return true;
  }
  return false;
}
static Z3_ast roundFp(const Val& v, Z3_ast rm) { return Z3_mk_fpa_round_to_integral(Z, rm, fpa(v)); }

static bool intrinsic(State& s, const IntrinsicInst* ii, Val& ret) {
  auto A = [&](unsigned i) { return get(s, ii->getArgOperand(i)); };
  unsigned w = ii->getType()->isVoidTy() ? 0 : bitsOf(ii->getType());
  switch (ii->getIntrinsicID()) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::assume:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
      ret = C(64, 0);
      return true;
    case Intrinsic::expect:
    case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
      ret = A(0);
      return true;
    case Intrinsic::is_constant:
      ret = C(1, 0);
      return true;
    case Intrinsic::objectsize:
      ret = C(w, mask(w));
      return true;
    case Intrinsic::threadlocal_address:
      ret = A(0);
      return true;
    case Intrinsic::stacksave:
      ret = C(64, 0);
      return true;
    case Intrinsic::stackrestore:
      return true;
    case Intrinsic::trap:
      violation(s, s.model, "trap");
      throw Kill{"violation"};
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
    case Intrinsic::memcpy_inline: {
      u64 d = conc64(s, A(0)), q = conc64(s, A(1)), n = conc64(s, A(2));
      copyBytes(s, d, q, n);
      return true;
    }
    case Intrinsic::memset: {
      u64 d = conc64(s, A(0)), n = conc64(s, A(2));
      if (n) {
        Obj* o = own(s, checkAccess(s, d, n, true, "write"));
        Val b = A(1);
        for (u64 i = 0; i < n; i++) writeBytes(o, d - o->base + i, b);
      }
      return true;
    }
    case Intrinsic::eh_typeid_for:
      ret = C(32, (u128)typeId((u64)A(0).c));
      return true;
    case Intrinsic::smax: { Val a = A(0), b = A(1); ret = ite(icmp(CmpInst::ICMP_SGT, a, b), a, b); return true; }
    case Intrinsic::smin: { Val a = A(0), b = A(1); ret = ite(icmp(CmpInst::ICMP_SLT, a, b), a, b); return true; }
    case Intrinsic::umax: { Val a = A(0), b = A(1); ret = ite(icmp(CmpInst::ICMP_UGT, a, b), a, b); return true; }
    case Intrinsic::umin: { Val a = A(0), b = A(1); ret = ite(icmp(CmpInst::ICMP_ULT, a, b), a, b); return true; }
    case Intrinsic::abs: { Val a = A(0); ret = ite(icmp(CmpInst::ICMP_SLT, a, C(w, 0)), binop(&s, Instruction::Sub, C(w, 0), a, false), a); return true; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); ret = ite(icmp(CmpInst::ICMP_UGT, a, b), binop(&s, Instruction::Sub, a, b, false), C(w, 0)); return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val t = binop(&s, Instruction::Add, a, b, false); ret = ite(icmp(CmpInst::ICMP_ULT, t, a), C(w, mask(w)), t); return true; }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      Val a = A(0), b = A(1), c = A(2);
      if (c.e) unsup("symbolic funnel shift");
      unsigned k = (unsigned)(c.c % w);
      if (ii->getIntrinsicID() == Intrinsic::fshr) k = k == 0 ? 0 : w - k;
      else if (k == 0) { ret = a; return true; }
      if (k == 0) { ret = ii->getIntrinsicID() == Intrinsic::fshr ? b : a; return true; }
      ret = binop(&s, Instruction::Or, binop(&s, Instruction::Shl, a, C(w, k), false), binop(&s, Instruction::LShr, b, C(w, w - k), false), false);
      return true;
    }
    case Intrinsic::bswap: {
      Val a = A(0);
      if (a.e) unsup("symbolic bswap");
      u128 r = 0;
      for (unsigned i = 0; i < w / 8; i++) r = (r << 8) | ((a.c >> (8 * i)) & 0xff);
      ret = C(w, r);
      return true;
    }
    case Intrinsic::ctlz: {
      Val a = A(0);
      if (!a.e) { unsigned k = 0; while (k < w && !((a.c >> (w - 1 - k)) & 1)) k++; ret = C(w, k); return true; }
      Val r = C(w, w);
      for (unsigned i = 0; i < w; i++) r = ite(icmp(CmpInst::ICMP_EQ, ext(a, i, i), C(1, 1)), C(w, w - 1 - i), r);
      ret = r;
      return true;
    }
    case Intrinsic::cttz: {
      Val a = A(0);
      if (!a.e) { unsigned k = 0; while (k < w && !((a.c >> k) & 1)) k++; ret = C(w, k); return true; }
      Val r = C(w, w);
      for (unsigned i = w; i-- > 0;) r = ite(icmp(CmpInst::ICMP_EQ, ext(a, i, i), C(1, 1)), C(w, i), r);
      ret = r;
      return true;
    }
    case Intrinsic::ctpop: {
      Val a = A(0);
      Val r = C(w, 0);
      for (unsigned i = 0; i < w; i++) r = binop(&s, Instruction::Add, r, zx(ext(a, i, i), w), false);
      ret = simp(r);
      return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow: {
      Val a = A(0), b = A(1);
      unsigned bw = a.w;
      auto id = ii->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add
                    : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      unsigned ww = op == Instruction::Mul ? 2 * bw : bw + 1;
      Val r = binop(&s, op, a, b, false), o;
      if (ww <= 128) {
        Val x = sg ? sxt(a, ww) : zx(a, ww), y = sg ? sxt(b, ww) : zx(b, ww);
        Val full = binop(&s, op, x, y, false);
        Val back = sg ? sxt(r, ww) : zx(r, ww);
        o = icmp(CmpInst::ICMP_NE, full, back);
      } else {
        unsup("128-bit overflow intrinsic");
      }
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      v.agg->push_back(r);
      v.agg->push_back(o);
      ret = v;
      return true;
    }
    case Intrinsic::fabs: { Val a = A(0); if (!a.e) ret = ofDbl(w, fabs(dbl(a))); else ret = ofFp(w, Z3_mk_fpa_abs(Z, fpa(a))); return true; }
    case Intrinsic::floor: { Val a = A(0); if (!a.e) ret = ofDbl(w, floor(dbl(a))); else ret = ofFp(w, roundFp(a, Z3_mk_fpa_rtn(Z))); return true; }
    case Intrinsic::ceil: { Val a = A(0); if (!a.e) ret = ofDbl(w, ceil(dbl(a))); else ret = ofFp(w, roundFp(a, Z3_mk_fpa_rtp(Z))); return true; }
    case Intrinsic::trunc: { Val a = A(0); if (!a.e) ret = ofDbl(w, trunc(dbl(a))); else ret = ofFp(w, roundFp(a, Z3_mk_fpa_rtz(Z))); return true; }
    case Intrinsic::round: { Val a = A(0); if (!a.e) ret = ofDbl(w, round(dbl(a))); else ret = ofFp(w, roundFp(a, Z3_mk_fpa_rna(Z))); return true; }
    case Intrinsic::maxnum: { Val a = A(0), b = A(1); if (!a.e && !b.e) ret = ofDbl(w, fmax(dbl(a), dbl(b))); else ret = ofFp(w, Z3_mk_fpa_max(Z, fpa(a), fpa(b))); return true; }
    case Intrinsic::minnum: { Val a = A(0), b = A(1); if (!a.e && !b.e) ret = ofDbl(w, fmin(dbl(a), dbl(b))); else ret = ofFp(w, Z3_mk_fpa_min(Z, fpa(a), fpa(b))); return true; }
    case Intrinsic::fmuladd: { Val t = binop(&s, Instruction::FMul, A(0), A(1), false); ret = binop(&s, Instruction::FAdd, t, A(2), false); return true; }
    case Intrinsic::is_fpclass: {
      Val a = A(0);
      unsigned m = (unsigned)A(1).c;
      Z3_ast x = fpa(a);
      std::vector<Z3_ast> o;
      auto neg = Z3_mk_fpa_is_negative(Z, x);
      auto pos = Z3_mk_fpa_is_positive(Z, x);
      auto An = [&](Z3_ast p, Z3_ast q) { Z3_ast r[2] = {p, q}; return Z3_mk_and(Z, 2, r); };
      if (m & 3) o.push_back(Z3_mk_fpa_is_nan(Z, x));
      if (m & 4) o.push_back(An(Z3_mk_fpa_is_infinite(Z, x), neg));
      if (m & 512) o.push_back(An(Z3_mk_fpa_is_infinite(Z, x), pos));
      if (m & 8) o.push_back(An(Z3_mk_fpa_is_normal(Z, x), neg));
      if (m & 256) o.push_back(An(Z3_mk_fpa_is_normal(Z, x), pos));
      if (m & 16) o.push_back(An(Z3_mk_fpa_is_subnormal(Z, x), neg));
      if (m & 128) o.push_back(An(Z3_mk_fpa_is_subnormal(Z, x), pos));
      if (m & 32) o.push_back(An(Z3_mk_fpa_is_zero(Z, x), neg));
      if (m & 64) o.push_back(An(Z3_mk_fpa_is_zero(Z, x), pos));
      ret = ofBool(simpB(Z3_mk_or(Z, o.size(), o.data())));
      return true;
    }
    default:
      return false;
  }
}

static void call(State& s, const CallBase* cb) {
  if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
    Val r;
    if (!intrinsic(s, ii, r)) unsup("intrinsic " + ii->getCalledFunction()->getName().str());
    finishCall(s, cb, r);
    return;
  }
  if (cb->isInlineAsm()) {
    if (cb->getType()->isVoidTy()) { finishCall(s, cb, Val()); return; }
    unsup("inline assembly");
  }
  const Function* f = cb->getCalledFunction();
  if (!f) {
    auto* co = cb->getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(co)) co = al->getAliasee()->stripPointerCasts();
    f = dyn_cast<Function>(co);
  }
  if (!f) {
    u64 p = conc64(s, get(s, cb->getCalledOperand()));
    auto it = faddr.find(p);
    if (it == faddr.end()) {
      violation(s, s.model, "call through an invalid function pointer");
      throw Kill{"violation"};
    }
    f = it->second;
  }
  std::vector<Val> args;
  for (auto& a : cb->args()) {
    if (a->getType()->isMetadataTy()) args.push_back(Val());
    else args.push_back(get(s, a));
  }
  if (f->isDeclaration()) {
    Val r;
    try {
      if (!external(s, cb, f, args, r)) unsup("external function " + f->getName().str());
    } catch (Reexec&) {
      return;
    }
    if (!cb->getType()->isVoidTy() && r.w == 0 && !r.agg) r = zeroOf(cb->getType());
    if (r.w && bitsOf(cb->getType()) && r.w != bitsOf(cb->getType())) r = zx(r, bitsOf(cb->getType()));
    finishCall(s, cb, r);
    return;
  }
  enter(s, f, args, cb);
}

// Executes one instruction; returns false when the state is finished
static bool step(State& s) {
  Frame& f = s.st.back();
  const Instruction* I = &*f.pc;
  nSteps++;
  if (++s.steps > maxSteps) throw Kill{"limit: more than " + std::to_string(maxSteps) + " instructions"};
  switch (I->getOpcode()) {
    case Instruction::Ret: {
      Val r;
      bool has = cast<ReturnInst>(I)->getReturnValue() != nullptr;
      if (has) r = get(s, cast<ReturnInst>(I)->getReturnValue());
      const CallBase* c = f.call;
      popFrame(s);
      if (s.st.empty()) return false;
      finishCall(s, c, r);
      return true;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) {
        jump(s, b->getSuccessor(0));
      } else {
        bool t = branch(s, get(s, b->getCondition()));
        jump(s, b->getSuccessor(t ? 0 : 1));
      }
      return true;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      Val v = simp(get(s, sw->getCondition()));
      if (!v.e) {
        const BasicBlock* t = sw->getDefaultDest();
        for (auto& c : sw->cases())
          if (constant(c.getCaseValue()).c == v.c) {
            t = c.getCaseSuccessor();
            break;
          }
        jump(s, t);
        return true;
      }
      // group the cases by target
      std::map<const BasicBlock*, std::vector<Z3_ast>> tg;
      std::vector<const BasicBlock*> order;
      std::vector<Z3_ast> all;
      for (auto& c : sw->cases()) {
        Z3_ast e = Z3_mk_eq(Z, v.e, ast(constant(c.getCaseValue())));
        all.push_back(e);
        if (c.getCaseSuccessor() == sw->getDefaultDest()) continue;
        if (!tg.count(c.getCaseSuccessor())) order.push_back(c.getCaseSuccessor());
        tg[c.getCaseSuccessor()].push_back(e);
      }
      std::vector<std::pair<const BasicBlock*, Z3_ast>> opts;
      std::vector<Z3_ast> nd;
      for (auto* t : order) {
        Z3_ast o = Z3_mk_or(Z, tg[t].size(), tg[t].data());
        opts.push_back({t, o});
        nd.push_back(o);
      }
      Z3_ast dflt = nd.empty() ? Z3_mk_true(Z) : Z3_mk_not(Z, Z3_mk_or(Z, nd.size(), nd.data()));
      if (!isa<UnreachableInst>(sw->getDefaultDest()->front())) opts.push_back({sw->getDefaultDest(), dflt});
      std::vector<std::pair<std::pair<const BasicBlock*, Z3_ast>, Z3_model>> ok;
      for (auto& o : opts) {
        bool mv;
        if (evalModel(s, o.second, mv) && mv) {
          ok.push_back({o, s.model});
          continue;
        }
        Z3_model m = nullptr;
        int q = check(s, o.second, &m);
        if (q < 0) throw Kill{"undecided: solver gave no answer"};
        if (q) ok.push_back({o, m});
      }
      if (ok.empty()) throw Kill{"infeasible"};
      for (size_t i = ok.size(); i-- > 1;) {
        auto o = cloneState(s);
        o->pc.push_back(ok[i].first.second);
        o->model = ok[i].second;
        jump(*o, ok[i].first.first);
        work.push_back(std::move(o));
      }
      s.pc.push_back(ok[0].first.second);
      s.model = ok[0].second;
      jump(s, ok[0].first.first);
      return true;
    }
    case Instruction::Unreachable:
      violation(s, s.model, "unreachable code executed");
      throw Kill{"violation"};
    case Instruction::Call:
    case Instruction::Invoke:
      call(s, cast<CallBase>(I));
      return true;
    case Instruction::Resume: {
      // continue unwinding out of this frame
      Val v = get(s, I->getOperand(0));
      (void)v;
      Frame d;
      d.f = f.f;
      d.call = nullptr;
      s.st.push_back(d);
      unwind(s);
      return true;
    }
    case Instruction::Alloca: {
      auto* al = cast<AllocaInst>(I);
      u64 k = conc64(s, get(s, al->getArraySize()));
      u64 p = allocObj(s, k * (u64)DL->getTypeAllocSize(al->getAllocatedType()), 's', 0xCD);
      s.st.back().allocas.push_back(p);
      set(s, I, C(64, p));
      break;
    }
    case Instruction::Load: {
      auto* l = cast<LoadInst>(I);
      set(s, I, loadT(s, get(s, l->getPointerOperand()), l->getType(), (unsigned)l->getAlign().value()));
      break;
    }
    case Instruction::Store: {
      auto* st = cast<StoreInst>(I);
      storeT(s, get(s, st->getPointerOperand()), get(s, st->getValueOperand()), st->getValueOperand()->getType(), (unsigned)st->getAlign().value());
      break;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I);
      Val p = get(s, g->getPointerOperand());
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
        if (StructType* st = ti.getStructTypeOrNull()) {
          unsigned k = (unsigned)cast<ConstantInt>(ti.getOperand())->getZExtValue();
          p = binop(&s, Instruction::Add, p, C(64, (u64)DL->getStructLayout(st)->getElementOffset(k)), false);
        } else {
          Val ix = sxt(get(s, ti.getOperand()), 64);
          u64 sz = DL->getTypeAllocSize(ti.getIndexedType());
          if (ix.agg) unsup("vector gep");
          Val off = sz == 1 ? ix : binop(&s, Instruction::Mul, ix, C(64, sz), false);
          p = binop(&s, Instruction::Add, p, off, false);
        }
      }
      set(s, I, p);
      break;
    }
    case Instruction::ICmp: {
      Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
      if (a.agg) unsup("vector compare");
      set(s, I, icmp(cast<ICmpInst>(I)->getPredicate(), a, b));
      break;
    }
    case Instruction::FCmp:
      set(s, I, fcmp(cast<FCmpInst>(I)->getPredicate(), get(s, I->getOperand(0)), get(s, I->getOperand(1))));
      break;
    case Instruction::Select: {
      Val c = get(s, I->getOperand(0));
      if (c.agg) unsup("vector select");
      if (c.e && I->getType()->isPointerTy()) {
        bool t = branch(s, c);
        if (t) set(s, I, get(s, I->getOperand(1)));
        else set(s, I, get(s, I->getOperand(2)));
        // the forked state re-executes the select with its own path condition
      } else {
        set(s, I, ite(c, get(s, I->getOperand(1)), get(s, I->getOperand(2))));
      }
      break;
    }
    case Instruction::PHI:
      unsup("stray phi");
    case Instruction::ExtractValue: {
      Val v = get(s, I->getOperand(0));
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
      set(s, I, v);
      break;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      Val v = get(s, iv->getAggregateOperand());
      std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned d) -> Val {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>(*x.agg);
        unsigned i = iv->getIndices()[d];
        if (d + 1 == iv->getNumIndices()) (*r.agg)[i] = get(s, iv->getInsertedValueOperand());
        else (*r.agg)[i] = ins((*x.agg)[i], d + 1);
        return r;
      };
      set(s, I, ins(v, 0));
      break;
    }
    case Instruction::ExtractElement: {
      Val v = get(s, I->getOperand(0));
      u64 i = conc64(s, get(s, I->getOperand(1)));
      set(s, I, (*v.agg)[i]);
      break;
    }
    case Instruction::InsertElement: {
      Val v = get(s, I->getOperand(0)), r;
      u64 i = conc64(s, get(s, I->getOperand(2)));
      r.agg = std::make_shared<std::vector<Val>>(*v.agg);
      (*r.agg)[i] = get(s, I->getOperand(1));
      set(s, I, r);
      break;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1)), r;
      r.agg = std::make_shared<std::vector<Val>>();
      for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < (int)a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
      set(s, I, r);
      break;
    }
    case Instruction::Freeze:
      set(s, I, get(s, I->getOperand(0)));
      break;
    case Instruction::FNeg: {
      Val a = get(s, I->getOperand(0));
      set(s, I, binop(&s, Instruction::Xor, a, C(a.w, (u128)1 << (a.w - 1)), false));
      break;
    }
    case Instruction::Fence:
      break;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I);
      Val p = get(s, r->getPointerOperand()), v = get(s, r->getValOperand());
      Val old = load(s, p, v.w, 1);
      Val nv;
      switch (r->getOperation()) {
        case AtomicRMWInst::Add: nv = binop(&s, Instruction::Add, old, v, false); break;
        case AtomicRMWInst::Sub: nv = binop(&s, Instruction::Sub, old, v, false); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Or: nv = binop(&s, Instruction::Or, old, v, false); break;
        case AtomicRMWInst::And: nv = binop(&s, Instruction::And, old, v, false); break;
        default: unsup("atomicrmw");
      }
      store(s, p, nv, 1);
      set(s, I, old);
      break;
    }
    case Instruction::AtomicCmpXchg: {
      auto* x = cast<AtomicCmpXchgInst>(I);
      Val p = get(s, x->getPointerOperand()), c = get(s, x->getCompareOperand()), n = get(s, x->getNewValOperand());
      Val old = load(s, p, c.w, 1);
      Val eq = icmp(CmpInst::ICMP_EQ, old, c);
      store(s, p, ite(eq, n, old), 1);
      Val r;
      r.agg = std::make_shared<std::vector<Val>>();
      r.agg->push_back(old);
      r.agg->push_back(eq);
      set(s, I, r);
      break;
    }
    default:
      if (I->isBinaryOp()) {
        set(s, I, binop(&s, I->getOpcode(), get(s, I->getOperand(0)), get(s, I->getOperand(1)), true));
      } else if (I->isCast()) {
        Type* t = I->getType();
        if (I->getOpcode() == Instruction::BitCast && !bitsOf(t)) unsup("vector bitcast");
        Val a = get(s, I->getOperand(0));
        if (a.agg) {
          if (I->getOpcode() == Instruction::BitCast && bitsOf(t)) {
            Val r = (*a.agg)[0];
            for (size_t i = 1; i < a.agg->size(); i++) {
              Val& x = (*a.agg)[i];
              if (!r.e && !x.e) r = C(r.w + x.w, (x.c << r.w) | r.c);
              else r = S(r.w + x.w, Z3_mk_concat(Z, ast(x), ast(r)));
            }
            set(s, I, r);
            break;
          }
          Val r;
          r.agg = std::make_shared<std::vector<Val>>();
          for (auto& x : *a.agg) r.agg->push_back(castOp(s, I->getOpcode(), x, bitsOf(t->getScalarType())));
          set(s, I, r);
          break;
        }
        set(s, I, castOp(s, I->getOpcode(), a, bitsOf(t)));
      } else {
        unsup(std::string("instruction ") + I->getOpcodeName());
      }
  }
  ++s.st.back().pc;
  return true;
}

static std::string jesc(const std::string& x) {
  std::string r;
  for (char c : x) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::string entry = argv[2];
  double t0 = now();
  for (int i = 3; i + 1 < argc; i += 2) {
    std::string o = argv[i], v = argv[i + 1];
    if (o == "--part") sscanf(v.c_str(), "%u/%u", &partI, &partN);
    if (o == "--max-steps") maxSteps = std::stoull(v);
    if (o == "--max-paths") maxPaths = std::stoull(v);
    if (o == "--time") deadline = t0 + std::stod(v);
    if (o == "--witnesses") maxWitness = std::stoul(v);
    if (o == "--qtime") qtime = std::stoul(v);
  }
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("engine", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    throw Kill{"undecided: z3 error"};
  });
  auto init = std::make_unique<State>();
  // addresses
  u64 fa = 0x1000000;
  for (auto& f : *M) {
    gaddr[&f] = fa;
    faddr[fa] = &f;
    fa += 16;
  }
  for (auto& g : M->globals()) {
    Type* t = g.getValueType();
    u64 n = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0;
    if (!g.hasInitializer() && n < 256) n = 256;
    gaddr[&g] = allocObj(*init, n, 'g', 0);
    if (g.getName().starts_with("_ZTI")) tiByAddr[gaddr[&g]] = &g;
  }
  for (auto& g : M->globals()) {
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
      Obj* o = init->mem[gaddr[&g]].get();
      try {
        initGlobal(o, 0, g.getInitializer());
      } catch (Kill& k) {
        unsupported[k.why + " in initialiser of " + g.getName().str()]++;
      }
      if (g.isConstant()) o->ro = true;
    }
  }
  const Function* F = M->getFunction(entry);
  if (!F) {
    fprintf(stderr, "no function %s\n", entry.c_str());
    return 2;
  }
  // constructors run first (those named by the harness in sx_ctors, i.e. all defined ones)
  std::vector<const Function*> ctors;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
    if (g->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& o : ca->operands())
          if (auto* f = dyn_cast<Function>(cast<Constant>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
  for (auto* c : ctors) {
    State save = *init;
    try {
      enter(*init, c, {}, nullptr);
      while (!init->st.empty() && step(*init)) {}
    } catch (Kill& k) {
      unsupported["constructor " + c->getName().str() + ": " + k.why]++;
      *init = save;
    }
  }
  init->steps = 0;
  init->st.clear();
  enter(*init, F, {}, nullptr);
  work.push_back(std::move(init));
  bool complete = true;
  std::map<std::string, u64> kills;
  while (!work.empty()) {
    if (now() > deadline || nPaths >= maxPaths) {
      complete = false;
      break;
    }
    auto s = std::move(work.back());
    work.pop_back();
    nPaths++;
    try {
      while (step(*s)) {
        if ((nSteps & 0xffff) == 0 && now() > deadline) throw Kill{"limit: time"};
      }
      nDone++;
      s->done = true;
    } catch (Kill& k) {
      if (k.why == "done") { nDone++; s->done = true; }
      else if (k.why == "infeasible") nInfeasible++;
      else if (k.why == "violation") {}
      else {
        nUndecided++;
        if (k.why.compare(0, 16, "limit: more than") == 0 && hangs.size() < 4) record(hangs, *s, s->model, "does not finish within the step limit");
        if (kills[k.why + " in " + (s->st.empty() ? "?" : where(*s))]++ == 0) {}
      }
    }
    if (s->done && (witnesses.size() < maxWitness || (nDone & (nDone - 1)) == 0)) {
      record(witnesses, *s, s->model, std::to_string(s->asserts));
      if (witnesses.size() > 4 * maxWitness) witnesses.erase(witnesses.begin() + 1);
    }
    if (viols.size() > 20) {
      complete = false;
      break;
    }
  }
  printf("{\"entry\":\"%s\",\"complete\":%s,\"pending\":%zu,\"paths\":%llu,\"done\":%llu,\"infeasible\":%llu,\"undecided\":%llu,"
         "\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"concretised\":%llu,\"solver_s\":%.2f,\"wall_s\":%.2f,",
         entry.c_str(), complete && nUndecided == 0 ? "true" : "false", work.size(), (unsigned long long)nPaths, (unsigned long long)nDone,
         (unsigned long long)nInfeasible, (unsigned long long)nUndecided, (unsigned long long)nSteps, (unsigned long long)nQueries,
         (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nAsserts,
         (unsigned long long)nAssertQ, (unsigned long long)nConcretised, solverTime, now() - t0);
  printf("\"functions\":[");
  bool first = true;
  for (auto& f : fnsRun) {
    printf("%s\"%s\"", first ? "" : ",", jesc(f).c_str());
    first = false;
  }
  printf("],\"unfinished\":{");
  first = true;
  for (auto& k : kills) {
    printf("%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  printf("},\"notes\":[");
  first = true;
  for (auto& k : unsupported) {
    printf("%s\"%s\"", first ? "" : ",", jesc(k.first).c_str());
    first = false;
  }
  printf("]");
  auto dump = [&](const char* n, std::vector<Viol>& l) {
    printf(",\"%s\":[", n);
    bool first = true;
    for (auto& v : l) {
      printf("%s{\"kind\":\"%s\",\"where\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.where).c_str());
      bool f2 = true;
      for (auto& i : v.in) {
        printf("%s[\"%s\",\"%s\"]", f2 ? "" : ",", jesc(i.first).c_str(), i.second.c_str());
        f2 = false;
      }
      printf("]}");
      first = false;
    }
    printf("]");
  };
  dump("violations", viols);
  dump("witnesses", witnesses);
  dump("hangs", hangs);
  printf("}\n");
  fflush(stdout);
  _Exit(0);
}
