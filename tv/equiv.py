r"""Decide, for one model, whether the compiler's output has exactly the model's
solutions.

  soundness     F(x,r) /\ not S(x)              must be unsatisfiable
  completeness  S(x) /\ forall r. not F(x,r)    must be unsatisfiable

x: the model's decision variables, r: introduced variables without a defining
constraint.  Counterexamples are replayed: the model is evaluated at the concrete
x by the reference interpreter without a solver, and the FlatZinc is given to a
fresh concrete evaluation (and to the Gecode FlatZinc solver where it can read it)
with x fixed."""
import os, subprocess, tempfile, time, json, hashlib, re, shutil
import z3
from fractions import Fraction
from . import smt as S, mznparse, interp, fzn
from .smt import And, Or, Not, SI, Unsupported, is_bool, is_int, is_float
from .interp import Interp, Set, Rng, Arr, Opt, Tup, Rec, eq, num, ParError

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MZN = os.environ.get("VERIF_MZN", os.path.join(VERIF, ".cache", "native", "minizinc"))
SHARE = os.environ.get("VERIF_SHARE", os.path.join(VERIF, ".cache", "src", "share", "minizinc"))


def cenv():
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "MZN_SOLVER_PATH": os.path.join(HERE, "solvers"),
         "MZN_STDLIB_DIR": SHARE, "LANG": "C"}
    return e


class Case:
    def __init__(self, id, src, lib="std", flags=(), data=None, mode='bv', intb=None, outmode='dzn', expect=None,
                 residual_ok=True, timeout=None, tags=(), refuse=None, ref=None):
        self.id, self.src, self.lib, self.flags, self.data, self.mode = id, src, lib, list(flags), data, mode
        self.intb = intb
        self.outmode = outmode
        self.ref = ref             # reference model, where it is not the compiled text itself
        self.expect = expect
        self.refuse = refuse       # regex: messages with which the compiler may refuse this model
        self.timeout = timeout
        self.tags = tags


class Compiled:
    pass


def compile_case(case, wd, timeout=60):
    m = os.path.join(wd, "m.mzn")
    with open(m, "w") as f:
        f.write(case.src)
    fz, oz = os.path.join(wd, "m.fzn"), os.path.join(wd, "m.ozn")
    cmd = [MZN, "-c", "--solver", "verif." + case.lib, "--fzn", fz, "--ozn", oz]
    if case.outmode:
        cmd += ["--output-mode", case.outmode]
    cmd += case.flags + [m]
    if case.data is not None:
        ext = ".json" if case.data.lstrip().startswith('{') else ".dzn"
        dp = os.path.join(wd, "d" + ext)
        with open(dp, "w") as f:
            f.write(case.data)
        cmd.append(dp)
    c = Compiled()
    c.cmd = cmd
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=cenv(), timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired:
        c.rc, c.out, c.err = 'timeout', '', ''
        c.fzn = c.ozn = None
        return c
    c.rc, c.out, c.err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    c.fzn = open(fz, encoding='utf8', errors='surrogateescape').read() if os.path.exists(fz) else None
    c.ozn = open(oz, encoding='utf8', errors='surrogateescape').read() if os.path.exists(oz) else None
    return c


def leaves(v, out):
    """z3 terms of the primary symbols in a source value"""
    if isinstance(v, SI):
        out.append(v.e)
    elif isinstance(v, z3.ExprRef):
        out.append(v)
    elif isinstance(v, Arr):
        for x in v.e:
            leaves(x, out)
    elif isinstance(v, Set):
        for k in v.vals():
            leaves(v.m[k], out)
    elif isinstance(v, Opt):
        leaves(v.p, out)
        if v.v is not None:
            leaves(v.v, out)
    elif isinstance(v, Tup):
        for x in v:
            leaves(x, out)
    elif isinstance(v, Rec):
        for x in v.values():
            leaves(x, out)
    return out


def domset(ti):
    return ti


class Mapping:
    """Connects source variables with FlatZinc variables through the output model."""

    def __init__(self, src, flat, ozn_items):
        self.src, self.flat = src, flat
        self.preset = {}
        self.links = []
        self.late = []
        self.unmapped = []
        self.decls = {}
        self.ozn_items = ozn_items
        for it in ozn_items:
            if it[0] == 'decl':
                self.decls[it[2]] = it
        self.shown = {}       # name -> expression printed for it (unified variables are not declared)
        for it in ozn_items:
            if it[0] == 'output' and it[-1][0] == 'arr':
                for a, b in zip(it[-1][1], it[-1][1][1:]):
                    if a[0] == 'str' and isinstance(a[1], str) and a[1].endswith(' = ') and b[0] == 'call' and b[1] == 'showDzn' and len(b[2]) == 1:
                        self.shown[a[1][:-3].strip()] = b[2][0]
        for n in src.order:
            v = src.vars[n]
            if not leaves(v, []) and not isinstance(v, (Arr,)):
                # single-valued variable: still must be consistent
                pass
            self.bind(n, v)

    def bind(self, n, v):
        d = self.decls.get(n)
        if d is None:
            if n in self.flat.vars:
                self.assign(n, v)
            elif n in self.flat.arrays:
                self.bindast(('id', n), v)
            elif n in self.shown:
                self.bindast(self.shown[n], v)
            else:
                self.unmapped.append(n)
            return
        if d[3] is None:
            self.bindast(('id', n), v)
        else:
            self.bindast(d[3], v, n)

    def assign(self, fn, v):
        ti = self.flat.vars[fn]
        isb = ti[4] == ('base', 'bool')
        if isinstance(v, Opt):
            self.late.append((('id', fn), v))
            return
        if isb != is_bool(v) and not isinstance(v, Set):
            if isb and is_int(v):
                self.late.append((('id', fn), v))
                return
            if is_bool(v) and not isb:
                v = num(v)
        if fn in self.preset:
            self.links.append(eq(self.preset[fn], v))
        else:
            self.preset[fn] = v

    def bindast(self, e, v, name=None):
        t = e[0]
        if t == 'paren':
            return self.bindast(e[1], v, name)
        if t == 'id':
            n = e[1]
            if n in self.decls and self.decls[n][3] is not None and n != name:
                return self.bindast(self.decls[n][3], v, n)
            if n in self.flat.vars:
                return self.assign(n, v)
            if n in self.flat.arrays and isinstance(v, Arr):
                r = self.flat.arrays[n][1]
                if r[0] == 'arr' and len(r[1]) == len(v.e):
                    for x, y in zip(r[1], v.e):
                        self.bindast(x, y)
                    return
        if t == 'arr' and isinstance(v, Arr) and len(e[1]) == len(v.e):
            for x, y in zip(e[1], v.e):
                self.bindast(x, y)
            return
        if t == 'arr2' and isinstance(v, Arr):
            fl = [x for r in e[1] for x in r]
            if len(fl) == len(v.e):
                for x, y in zip(fl, v.e):
                    self.bindast(x, y)
                return
        if t == 'call' and re.match(r'array\dd$', e[1]) and isinstance(v, Arr):
            return self.bindast(e[2][-1], v)
        if t == 'tuple' and isinstance(v, Tup) and len(e[1]) == len(v):
            for x, y in zip(e[1], v):
                self.bindast(x, y)
            return
        if t == 'tuple' and isinstance(v, Rec) and len(e[1]) == len(v):
            for x, y in zip(e[1], v.values()):
                self.bindast(x, y)
            return
        if t == 'record' and isinstance(v, Rec):
            for k, x in e[1]:
                self.bindast(x, v[k])
            return
        if t == 'call' and e[1] == 'reverse_map_var_opt' and isinstance(v, Opt):
            b, x = e[2]
            self.bindast(b, v.p)
            if x[0] == 'id' and x[1] in self.flat.vars and x[1] not in self.preset and self.decls.get(x[1], [None] * 4)[3] is None and not isinstance(v.v, (Tup, Rec)):
                fv, syms, c = self.flat.fresh(x[1])
                if syms:
                    self.flat.residual[x[1]] = syms
                self.links.append(Or(v.p, c))
                self.preset[x[1]] = interp.ite(v.p, v.v, fv)
                return
            self.late.append((x, Opt(v.p, v.v), 'val'))
            return
        if t == 'call' and e[1] == 'reverse_map' and len(e[2]) == 1 and is_bool(v) and e[2][0][0] == 'id':
            # int(0/1) -> bool; the definition in the output model is checked by the generic link below
            n = e[2][0][1]
            if n in self.flat.vars and n not in self.preset:
                self.preset[n] = num(v)
        self.late.append((e, v))

    def link(self):
        """conditions for the parts that are general expressions"""
        out = list(self.links)
        if self.late:
            I = Interp(self.ozn_items, flatvals=self.env())
            I.run_decls()
            for x in self.late:
                ov = I.ev(x[0], I.g)
                if len(x) == 3:
                    out.append(S.Implies(x[1].p, eq(ov, x[1].v)))
                else:
                    v = x[1]
                    if is_int(v) and is_bool(ov):
                        ov = num(ov)
                    if is_bool(v) and is_int(ov):
                        out.append(S.Iff(v, S.ceq(ov, 1)))
                        out.append(And(S.le(0, ov), S.le(ov, 1)))
                    else:
                        out.append(eq(ov, v))
            out += I.ctx.defs
        return And(out)

    def env(self):
        e = {}
        for n in self.flat.vars:
            if n not in self.decls or self.decls[n][3] is None:
                e[n] = self.flat.val[n]
        for n, (ti, rhs) in self.flat.arrays.items():
            if n in self.decls and self.decls[n][3] is None or True:
                try:
                    v = self.flat.ev(('id', n))
                except Exception:
                    continue
                d = self.decls.get(n)
                if isinstance(v, Arr) and d is not None and d[3] is None and d[1][5] is not None:
                    ds = self.dims(d)
                    if ds:
                        v = Arr(ds, v.e)
                e[n] = v
        return e

    def dims(self, d):
        try:
            I = Interp([it for it in self.ozn_items if it[0] == 'enum'])
            I.run()
            return I.dims(d[1], I.g)
        except Exception:
            return None


class MapError(Exception):
    pass


def run_decls(self):
    for it in self.items:
        if it[0] == 'function':
            self.funs.setdefault(it[2], []).append(it)
        elif it[0] == 'enum' and it[2] is not None:
            self.mkenum(it[1], it[2])
        elif it[0] == 'decl':
            self.g.d[it[2]] = interp.Lazy(it, self.g)
    for n, v in (self.flat or {}).items():
        if n not in self.g.d:
            self.g.d[n] = v
    self._root = self.ctx


Interp.run_decls = run_decls


def model_vals(m, v):
    """concrete value of a symbolic source value"""
    def b(x):
        if isinstance(x, bool):
            return x
        return z3.is_true(m.eval(x, model_completion=True))
    if isinstance(v, SI):
        x = m.eval(v.e, model_completion=True)
        return x.as_signed_long() if z3.is_bv_value(x) else x.as_long()
    if is_bool(v):
        return b(v)
    if isinstance(v, z3.ArithRef):
        x = m.eval(v, model_completion=True)
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        return Fraction(str(x.approx(20)).rstrip('?')) if z3.is_algebraic_value(x) else Fraction(0)
    if isinstance(v, Arr):
        return Arr(v.dims, [model_vals(m, x) for x in v.e])
    if isinstance(v, Set):
        return Set({k: True for k in v.m if b(v.m[k])})
    if isinstance(v, Opt):
        p = b(v.p)
        return Opt(p, model_vals(m, v.v) if p and v.v is not None else None)
    if isinstance(v, Tup):
        return Tup(model_vals(m, x) for x in v)
    if isinstance(v, Rec):
        return Rec((k, model_vals(m, x)) for k, x in v.items())
    return v


def show(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, Fraction):
        return repr(float(v)) if v.denominator != 1 else "%d.0" % v
    if isinstance(v, Arr):
        if len(v.dims) == 1 and v.dims[0][0] == 1:
            return "[%s]" % ",".join(show(x) for x in v.e)
        return "array%dd(%s,[%s])" % (len(v.dims), ",".join("%d..%d" % d for d in v.dims), ",".join(show(x) for x in v.e))
    if isinstance(v, Set):
        return "{%s}" % ",".join(str(k) for k in v.vals())
    if isinstance(v, Opt):
        return show(v.v) if v.p is True else "<>"
    if isinstance(v, Tup):
        return "(%s,)" % ",".join(show(x) for x in v)
    if isinstance(v, Rec):
        return "(%s)" % ",".join("%s: %s" % (k, show(x)) for k, x in v.items())
    return str(v)


class Result:
    def __init__(self, case):
        self.case = case
        self.status = None     # ok / unsupported / violation / error / undecided
        self.detail = ''
        self.queries = 0
        self.solver_s = 0.0
        self.x = None
        self.kind = None
        self.ncons = 0
        self.nres = 0
        self.fzn = None
        self.nvac = None
        self.vac = None
        self.extra = None
        self.compile_s = 0.0
        self.cmd = None


def solve(res, timeout, *conds, ctx=None):
    """satisfiable? returns (answer, model)"""
    c = And(*conds)
    if c is False:
        return 'unsat', None
    s = z3.Solver() if S.MODE[0] == 'int' else z3.SolverFor('QF_FD')
    s.set('timeout', int(timeout * 1000))
    if c is not True:
        s.add(c)
    t = time.time()
    r = s.check()
    res.queries += 1
    res.solver_s += time.time() - t
    if r == z3.sat:
        return 'sat', s.model()
    return ('unsat' if r == z3.unsat else 'unknown'), None


def check_case(case, timeout=20.0, keep=None):
    res = Result(case)
    wd = tempfile.mkdtemp(prefix="tv")
    try:
        S.MODE[0] = case.mode
        try:
            try:
                return _check(case, res, wd, timeout)
            except Unsupported as e:
                if case.mode != 'bv' or 'mix' not in str(e):
                    raise
                S.MODE[0] = 'int'
                return _check(case, res, wd, timeout)
        except Unsupported as e:
            res.status, res.detail = 'unsupported', str(e)
        except MapError as e:
            res.status, res.kind, res.detail = 'violation', 'mapping', str(e)
        except mznparse.ParseError as e:
            res.status, res.detail = 'unsupported', 'parse: ' + str(e)
        except RecursionError:
            res.status, res.detail = 'unsupported', 'recursion'
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


UNSAT = "=====UNSATISFIABLE====="


def claims_unsat(c):
    return UNSAT in c.out or (c.fzn is None and UNSAT in c.err) or (c.rc == 1 and 'model inconsistency detected' in c.err)


def data_items(case):
    if case.data is None:
        return []
    if case.data.lstrip().startswith('{'):
        raise Unsupported("json data needs src-side values")
    return mznparse.parse(case.data)


def ref_items(case):
    if case.ref is not None:
        return mznparse.parse(case.ref)
    return mznparse.parse(case.src) + data_items(case)


def source(case):
    items = ref_items(case)
    I = Interp(items, intb=case.intb or interp.INTB)
    return I


def _check(case, res, wd, timeout):
    t = time.time()
    c = compile_case(case, wd)
    res.compile_s = time.time() - t
    res.cmd = c.cmd
    res.fzn = c.fzn
    # reference semantics
    src = source(case)
    try:
        root = src.run()
        perr = None
    except ParError as e:
        perr = e
    if perr is not None or case.expect == 'error':
        if c.rc not in (0, 'timeout') and 'rror' in c.err and c.rc > 0:
            res.status, res.detail = 'rejected', str(perr)
            return res
        if case.expect == 'error' or perr is not None:
            res.status, res.kind = 'violation', 'noerror'
            res.detail = "model is in error (%s) but the compiler accepted it" % (perr,)
            return res
    dom = And(src.domc)
    Sx = And(dom, root)
    unsat_claim = claims_unsat(c)
    if c.rc == 'timeout':
        res.status, res.kind, res.detail = 'violation', 'timeout', 'compiler did not finish in 60 s'
        return res
    if not unsat_claim and c.rc == 1 and case.refuse and re.search(case.refuse, c.err):
        res.status, res.detail = 'rejected', 'documented refusal'
        return res
    if not unsat_claim and (c.rc != 0 or c.fzn is None):
        res.status, res.kind = 'violation', 'compile'
        res.detail = "compiler failed on a valid model (exit %s): %s" % (c.rc, (c.err + c.out)[-800:])
        return res
    src.flat = None
    if unsat_claim:
        r, m = solve(res, timeout, Sx)
        return finish(case, res, src, r, m, 'lost', c, None)
    try:
        fitems = mznparse.parse(c.fzn)
    except mznparse.ParseError as e:
        # does the compiler itself read what it wrote?
        fz2 = os.path.join(wd, "re.fzn")
        with open(fz2, "w", encoding='utf8', errors='surrogateescape') as f:
            f.write(c.fzn)
        p = subprocess.run([MZN, "-c", "--solver", "verif." + case.lib, "--fzn", os.path.join(wd, "re2.fzn"), fz2], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=cenv(), timeout=120, cwd=wd)
        if p.returncode != 0:
            res.status, res.kind, res.detail = 'violation', 'malformed', "FlatZinc does not parse: %s / %s" % (e, p.stderr.decode('utf8', 'replace')[-300:])
            return res
        raise
    flat = fzn.Flat(fitems)
    ozn_items = mznparse.parse(c.ozn) if c.ozn else []
    mp = Mapping(src, flat, ozn_items)
    res.ncons = len(flat.cons)
    Fx = flat.solve_all(mp.preset)
    Fx = And(Fx, mp.link())
    if mp.unmapped and Fx is not False:
        raise MapError("source variables %s are neither in the FlatZinc nor in the output model" % mp.unmapped)
    rs = [s for v in flat.residual.values() for s in v]
    res.nres = len(rs)
    # vacuity (sampled): has the model any solution at all / any non-solution
    if int(hashlib.sha1(case.src.encode()).hexdigest(), 16) % 5 == 0:
        q, ss = res.queries, res.solver_s
        res.vac = (solve(res, 2, Sx)[0] == 'sat', solve(res, 2, dom, Not(root))[0] == 'sat')
        res.queries, res.solver_s = q, ss
    # soundness (source domains may be smaller than the flat ones when unbounded ints are cut)
    bounded = And(unboundedcut(src), True)
    r, m = solve(res, timeout, Fx, Not(Sx), bounded)
    if r != 'unsat':
        return finish(case, res, src, r, m, 'invented', c, (flat, mp))
    # objective: no solution of the FlatZinc is better than the model solution it stands for,
    # and every model solution is reached with exactly its objective value
    if src.solve[0] != 'satisfy' and flat.solve[0] == 'satisfy' or src.solve[0] == 'satisfy' and flat.solve[0] != 'satisfy':
        # only the FlatZinc of an unsatisfiable model may forget its objective
        r, m = solve(res, timeout, Sx)
        if r == 'sat':
            raise MapError("solve item changed from %s to %s" % (src.solve[0], flat.solve[0]))
        want = better = False
    else:
        want, better = objective(src, flat)
    if better is not False:
        r, m = solve(res, timeout, Fx, better, bounded)
        if r != 'unsat':
            return finish(case, res, src, r, m, 'objective', c, (flat, mp))
    # completeness
    r, m = complete(res, timeout, Sx, And(Fx, want), rs, flat.rbound, flat.onehot() if rs else ())
    if r != 'unsat':
        return finish(case, res, src, r, m, 'lost', c, (flat, mp))
    res.status = 'ok'
    return res


def unboundedcut(src):
    """integers declared without bounds are only examined within +-intb"""
    out = []
    for n in src.order:
        ti = src.varti[n]
        if ti[4] == ('base', 'int') and not ti[3]:
            v = src.vars[n]
            for x in ([v] if not isinstance(v, Arr) else v.e):
                if isinstance(x, Opt):
                    x = x.v
                if isinstance(x, SI):
                    out.append(And(S.le(-src.intb, x), S.le(x, src.intb)))
    return And(out)


def objective(src, flat):
    """(the flat objective has the value of the model's, the flat objective is better)"""
    k, o = src.solve
    fk, fo = flat.solve
    if k == 'satisfy' and fk == 'satisfy':
        return True, False
    fv = flat.ev(fo)
    if isinstance(o, Opt):
        raise Unsupported("opt objective")
    if is_bool(o):
        o = num(o)
    if is_bool(fv):
        fv = num(fv)
    I = interp.Interp([])
    if k != fk:         # the goal may be rewritten by negation
        o = I.un('-', o)
    if z3.is_real(fv) if isinstance(fv, z3.ExprRef) else isinstance(fv, Fraction):
        better = Not(S.rle(o, fv)) if fk == 'minimize' else Not(S.rle(fv, o))
        return S.req(fv, o), better
    return eq(fv, o), (S.lt(fv, o) if fk == 'minimize' else S.lt(o, fv))


def conjuncts(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if isinstance(x, bool):
            if not x:
                return [z3.BoolVal(False)]
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_and(x):
            st.extend(x.children())
        else:
            out.append(x)
    return out


def size(es, cap):
    seen, st = set(), list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > cap:
            return cap + 1
        st.extend(x.children())
    return len(seen)


def eliminate(Fx, rs, bound, hot=(), cap=4000, t_max=5.0):
    """Remove existentially quantified finite variables by local expansion: the
    conjuncts that mention r are replaced by the disjunction over r's values."""
    t0 = time.time()
    cs = conjuncts(Fx)
    names = {r.decl().name(): r for r in rs}

    def sup(c):
        return frozenset(n for n in constnames(c) if n in names)
    items = [(c, sup(c)) for c in cs]
    left = []
    todo = dict(names)
    for g, zero in sorted(hot, key=lambda a: len(a[0])):
        ns = [x.decl().name() for x in g]
        if not all(n in todo for n in ns) or time.time() - t0 > t_max:
            continue
        grp = [c for c, s in items if any(n in s for n in ns)]
        if not grp or len(ns) > 400 or size(grp, 20000) * len(ns) > 300000:
            continue
        f = z3.And(grp)
        alts = []
        for n in ns + [None] * zero:
            x = z3.simplify(z3.substitute(f, *[(names[k], (z3.BitVecVal(int(k == n), names[k].size()) if z3.is_bv(names[k]) else z3.IntVal(int(k == n)))) for k in ns]))
            if not z3.is_false(x):
                alts.append(x)
        e = z3.BoolVal(False) if not alts else z3.Or(alts) if len(alts) > 1 else alts[0]
        items = [(c, s) for c, s in items if not any(n in s for n in ns)] + [(c, sup(c)) for c in conjuncts(e)]
        for n in ns:
            todo.pop(n)
    while todo:
        if time.time() - t0 > t_max:
            left += list(todo.values())
            break
        # the variable whose elimination couples fewest others
        best = None
        for n, r in todo.items():
            nb, sz = set(), 0
            for c, s in items:
                if n in s:
                    nb |= s
                    sz += 1
            k = (len(nb), sz)
            if best is None or k < best[0]:
                best = (k, n)
        n = best[1]
        r = todo.pop(n)
        grp = [c for c, s in items if n in s]
        rest = [(c, s) for c, s in items if n not in s]
        if not grp:
            items = rest
            continue
        vals = bound.get(n)
        if vals is None or len(vals) > 12 or size(grp, cap) * len(vals) > cap * 2:
            left.append(r)
            continue
        alts = []
        g = z3.And(grp) if len(grp) > 1 else grp[0]
        for v in vals:
            x = z3.simplify(z3.substitute(g, (r, v)))
            if not z3.is_false(x):
                alts.append(x)
        e = z3.BoolVal(False) if not alts else z3.Or(alts) if len(alts) > 1 else alts[0]
        if size([e], cap) > cap:
            left.append(r)
            continue
        items = rest + [(c, sup(c)) for c in conjuncts(e)]
    return z3.And([c for c, _ in items]) if items else True, left


_cn = {}


def constnames(e):
    return [n.decl().name() for n in consts(e)]


def complete(res, timeout, Sx, Fx, rs, bound=None, hot=()):
    if not rs or Fx is True or Fx is False:
        return solve(res, timeout, Sx, Not(Fx))
    real = any(z3.is_real(x) or z3.is_int(x) for x in rs) or S.MODE[0] == 'int'
    if not real:
        r, m = cegis(res, timeout, Sx, Fx, rs, 0.3, 0.0)
        if r != 'unknown':
            return r, m
    if bound:
        t = time.time()
        Fx, rs = eliminate(Fx, rs, bound, hot)
        res.solver_s += time.time() - t
        if not rs:
            return solve(res, timeout, Sx, Not(Fx))
    if real:
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        if Sx is False:
            return 'unsat', None
        if Sx is not True:
            s.add(Sx)
        s.add(z3.ForAll(rs, z3.Not(Fx)))
        t = time.time()
        r = s.check()
        res.queries += 1
        res.solver_s += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        return ('unsat' if r == z3.unsat else 'unknown'), None
    return cegis(res, timeout, Sx, Fx, rs, 3.0, timeout * 3)


def cegis(res, timeout, Sx, Fx, rs, t_general, t_enum):
    """Counterexample-guided search for x with S(x) and no r: F(x,r).  First every witness r is
    generalised (all x for which it works are excluded); after t_general seconds the solutions x
    of S are gone through one by one for at most t_enum seconds."""
    if Sx is False:
        return 'unsat', None
    outer = z3.SolverFor('QF_FD')
    inner = z3.SolverFor('QF_FD')
    outer.set('timeout', int(timeout * 1000))
    inner.set('timeout', int(timeout * 1000))
    if Sx is not True:
        outer.add(Sx)
    inner.add(Fx)
    xs = consts(And(Sx, True)) | consts(Fx)
    rset = set(x.decl().name() for x in rs)
    xs = [x for x in xs if x.decl().name() not in rset]
    t0 = time.time()
    it = 0
    try:
        while True:
            it += 1
            el = time.time() - t0
            if el > t_general + t_enum:
                return 'unknown', None
            r = outer.check()
            res.queries += 1
            if r == z3.unsat:
                return 'unsat', None
            if r != z3.sat:
                return 'unknown', None
            m = outer.model()
            asg = [x == m.eval(x, model_completion=True) for x in xs]
            inner.push()
            inner.add(asg)
            r2 = inner.check()
            res.queries += 1
            if r2 == z3.unsat:
                return 'sat', m
            if r2 != z3.sat:
                return 'unknown', None
            mi = inner.model()
            if el > t_general:
                inner.pop()
                outer.add(z3.Not(z3.And(asg)))
                continue
            inner.pop()
            w = [(x, mi.eval(x, model_completion=True)) for x in rs]
            outer.add(z3.Not(z3.substitute(Fx, *w)))
    finally:
        res.solver_s += time.time() - t0


def consts(e):
    out = {}
    if isinstance(e, bool):
        return set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        else:
            st.extend(x.children())
    return set(out.values())


def finish(case, res, src, r, m, kind, c, fl):
    if r == 'unsat':
        res.status = 'ok'
        return res
    if r == 'unknown':
        res.status, res.detail = 'undecided', kind
        return res
    res.kind = kind
    x = {n: model_vals(m, src.vars[n]) for n in src.order} if m is not None else {}
    res.x = {n: show(v) for n, v in x.items()}
    # replay
    ok, why = replay(case, res, x, kind, c)
    if ok:
        res.status = 'violation'
        res.detail = why
    else:
        res.status = 'error'
        res.detail = 'counterexample did not replay: ' + why
    return res


def fixdomain(src):
    pass


def replay(case, res, x, kind, c):
    """concrete confirmation without the symbolic encoding"""
    items = ref_items(case)
    I = Interp(items, flatvals=x, intb=case.intb or interp.INTB)
    try:
        v = I.run()
    except ParError as e:
        return False, "parameter error %s" % e
    # domains of the variables
    dom = True
    I2 = Interp(items, intb=case.intb or interp.INTB)
    I2.run()
    for n in I2.order:
        dom = And(dom, valdom(I2, n, x[n]))
    s = And(dom, v)
    if not isinstance(s, bool):
        return False, "reference value not concrete: %s" % s
    if claims_unsat(c):
        return (s is True), "compiler reports unsatisfiable, but %s is a solution" % showx(x)
    flat = fzn.Flat(mznparse.parse(c.fzn))
    ozn_items = mznparse.parse(c.ozn) if c.ozn else []
    I3 = Interp(items, intb=case.intb or interp.INTB)
    I3.run()
    I3.vars = {n: x[n] for n in I3.order}
    mp = Mapping(I3, flat, ozn_items)
    F = And(flat.solve_all(mp.preset), mp.link())
    if isinstance(F, bool):
        f = F
        aux = None
    else:
        r, mm = solve(res, 30, F)
        if r == 'unknown':
            return False, "flat side undecided"
        f = r == 'sat'
    if kind == 'objective':
        return True, "objective differs at %s" % showx(x)
    if kind == 'lost':
        if s is True and not f:
            return True, "solution %s of the model is not a solution of the FlatZinc%s" % (showx(x), gecode_confirm(case, flat, mp, c, False))
        return False, "S=%s F=%s at %s" % (s, f, showx(x))
    if s is False and f:
        return True, "FlatZinc accepts %s, which violates the model%s" % (showx(x), gecode_confirm(case, flat, mp, c, True))
    return False, "S=%s F=%s at %s" % (s, f, showx(x))


def gecode_confirm(case, flat, mp, c, expect_sat):
    """Ask fzn-gecode about the FlatZinc with the mapped variables fixed (information only)."""
    try:
        exe = '/usr/bin/fzn-gecode'
        if not os.path.exists(exe):
            return ''
        txt = c.fzn
        extra = []
        for n, v in mp.preset.items():
            if n not in flat.vars:
                continue
            if isinstance(v, bool):
                extra.append("constraint bool_eq(%s,%s);" % (n, show(v)))
            elif isinstance(v, int):
                extra.append("constraint int_eq(%s,%d);" % (n, v))
            elif isinstance(v, Set):
                extra.append("constraint set_eq(%s,%s);" % (n, show(v)))
            else:
                return ''
        i = txt.rindex("solve ")
        with tempfile.NamedTemporaryFile('w', suffix='.fzn', delete=False) as f:
            f.write(txt[:i] + "\n".join(extra) + "\n" + txt[i:])
        p = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, text=True)
        os.unlink(f.name)
        if '=====UNSAT' in p.stdout:
            return " (fzn-gecode on the FlatZinc with these values: UNSATISFIABLE)"
        if '----------' in p.stdout:
            return " (fzn-gecode on the FlatZinc with these values: solution)"
    except Exception:
        pass
    return ''


def showx(x):
    return ", ".join("%s=%s" % (n, show(v)) for n, v in x.items())


def valdom(I, n, val):
    """is concrete val in the declared domain of variable n"""
    ti = I.varti[n]
    return vdom(I, ti, val)


def vdom(I, ti, v):
    ti = I.resolve(ti)
    b = ti[4]
    if isinstance(v, Arr):
        et = b[1] if b[0] == 'nested' else (ti[0], ti[1], ti[2], ti[3], ti[4], None, ti[6])
        return And([vdom(I, et, x) for x in v.e])
    if isinstance(v, Opt):
        if not v.p:
            return True
        return vdom(I, (ti[0], ti[1], False, ti[3], ti[4], None, ti[6]), v.v)
    if isinstance(v, Tup):
        return And([vdom(I, f, x) for f, x in zip(b[1], v)])
    if isinstance(v, Rec):
        return And([vdom(I, f, v[n]) for f, n in b[1]])
    if b[0] == 'dom':
        d = I.ev(b[1], I.g)
        if isinstance(v, Set):
            return interp.subset(v, d)
        return interp.member(v, d)
    return True


if __name__ == '__main__':
    import sys
    src = open(sys.argv[1]).read()
    lib = sys.argv[2] if len(sys.argv) > 2 else 'std'
    r = check_case(Case('cli', src, lib=lib, flags=sys.argv[3:]))
    print(r.status, r.kind, r.detail, r.x, 'q=%d res=%d cons=%d solver=%.2fs compile=%.2fs' % (r.queries, r.nres, r.ncons, r.solver_s, r.compile_s))
