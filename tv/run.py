"""Runner of the translation-validation checks:  python3-vt -m tv.run <property>

Builds the compiler from /repo's working tree, takes the property's corpus, decides
every case with the solver (tv/equiv.py), confirms violations a second time in a
fresh process and writes evidence/<id>.json."""
import os, sys, time, json, hashlib, importlib, multiprocessing as mp, multiprocessing.connection as mpc, random, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "lib"))

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
REPLAY = os.path.join(VERIF, "replay")


def ckey(case):
    h = hashlib.sha1()
    h.update(json.dumps([case.src, case.lib, case.flags, case.data, case.outmode] + ([case.ref] if case.ref else [])).encode())
    return h.hexdigest()[:16]


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


# ------------------------------------------------------------------ workers
def _worker(conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from tv import equiv
    while True:
        try:
            m = conn.recv()
        except EOFError:
            return
        if m is None:
            return
        i, case, timeout = m
        t = time.time()
        try:
            f = getattr(case, 'decide', None)
            r = f(timeout) if f else equiv.check_case(case, timeout)
            d = dict(status=r.status, kind=r.kind, detail=r.detail, x=r.x, queries=r.queries, solver_s=r.solver_s,
                     ncons=r.ncons, nres=r.nres, compile_s=r.compile_s, cmd=r.cmd, vac=getattr(r, 'vac', None), extra=getattr(r, 'extra', None))
        except MemoryError:
            d = dict(status='undecided', kind='memory', detail='out of memory')
        except Exception:
            d = dict(status='internal', kind='internal', detail=traceback.format_exc()[-1500:])
        d['t'] = time.time() - t
        try:
            conn.send((i, d))
        except (BrokenPipeError, OSError):
            return


class Pool:
    def __init__(self, n):
        self.ctx = mp.get_context('fork')
        self.n = n
        self.w = []

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0, 0]

    def run(self, cases, timeout, hard, deadline, progress=None):
        """yields (index, result) ; cases not started before the deadline are not reported"""
        todo = list(range(len(cases)))
        todo.reverse()
        w = [self.spawn() for _ in range(min(self.n, max(1, len(cases))))]
        busy = 0
        try:
            while True:
                for s in w:
                    if s[2] is None and todo and time.time() < deadline:
                        if s[4] >= 150:
                            self.stop(s)
                            s[:] = self.spawn()
                        i = todo.pop()
                        s[1].send((i, cases[i], timeout))
                        s[2], s[3] = i, time.time()
                        s[4] += 1
                act = [s for s in w if s[2] is not None]
                if not act:
                    return
                rd = mpc.wait([s[1] for s in act], timeout=1.0)
                for s in act:
                    if s[1] in rd:
                        i = s[2]
                        try:
                            i, d = s[1].recv()
                        except (EOFError, OSError):
                            d = dict(status='undecided', kind='died', detail='worker died', t=time.time() - s[3])
                            self.stop(s)
                            s[:] = self.spawn()
                            yield i, d
                            continue
                        s[2] = None
                        yield i, d
                    elif time.time() - s[3] > hard:
                        i = s[2]
                        self.stop(s)
                        s[:] = self.spawn()
                        yield i, dict(status='undecided', kind='hard', detail='no verdict within %d s' % hard, t=hard)
        finally:
            for s in w:
                self.stop(s)

    def stop(self, s):
        try:
            s[0].kill()
            s[0].join(5)
            s[1].close()
        except Exception:
            pass


def main():
    prop = sys.argv[1]
    t0 = time.time()
    import native
    budget = float(os.environ.get("VERIF_BUDGET", "330" if TIER == 'quick' else "3000"))
    try:
        native.build()
    except native.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
    tb = time.time() - t0
    mod = importlib.import_module("tv.corpus." + prop.lower())
    cases = mod.cases(TIER, SEED % 4)
    seen, uniq = set(), []
    for c in cases:
        k = ckey(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    cases = uniq
    from tv.equiv import Case
    kf = known(prop)
    kkeys = {}
    for d in kf:
        c = Case('known-' + d['id'], d['src'], lib=d.get('lib', 'std'), flags=d.get('flags', []), data=d.get('data'), outmode=d.get('outmode', 'dzn'),
                 expect=d.get('expect'))
        k = ckey(c)
        kkeys[k] = d
        if k not in seen:
            seen.add(k)
            cases.append(c)
    order = list(range(len(cases)))
    random.Random(7).shuffle(order)
    cases = [cases[i] for i in order]
    deadline = t0 + budget
    pool = Pool(JOBS)
    res = {}
    tmo = 10 if TIER == 'quick' else 60
    hard = 75 if TIER == 'quick' else 240
    for i, d in pool.run(cases, tmo, hard, deadline):
        res[i] = d
        if os.environ.get("VERIF_VERBOSE") and d['status'] not in ('ok', 'unsupported', 'rejected'):
            print('=====', cases[i].id, cases[i].lib, ' '.join(cases[i].flags), d['status'], d['kind'], d['detail'], d.get('x'), flush=True)
            print(cases[i].src, cases[i].data or '', flush=True)
    # second look at everything that was not decided
    redo = [i for i in res if res[i]['status'] in ('violation', 'undecided', 'error', 'internal')]
    redo.sort(key=lambda i: (res[i]['status'] != 'violation', i))
    confirmed = {}
    if redo:
        sub = [cases[i] for i in redo]
        dl2 = max(deadline, time.time() + 60)
        hard2 = 130 if TIER == 'quick' else 600
        for j, d in pool.run(sub, tmo * 3, hard2, dl2):
            i = redo[j]
            if res[i]['status'] == 'violation':
                if d['status'] == 'violation':
                    confirmed[i] = d
                else:
                    res[i] = dict(d, status='undecided' if d['status'] not in ('ok', 'rejected') else d['status'])
            elif d['status'] == 'violation':
                confirmed[i] = d
                res[i] = d
            else:
                res[i] = d
    os.makedirs(REPLAY, exist_ok=True)
    nviol = 0
    fired = set()
    lines = []
    for i in sorted(confirmed):
        c, d = cases[i], confirmed[i]
        k = ckey(c)
        kd = kkeys.get(k)
        if kd is not None and (kd.get('kind') in (None, d['kind'])):
            fired.add(kd['id'])
            continue
        nviol += 1
        if nviol > 20:
            continue
        p = os.path.join(REPLAY, "%s-%s.txt" % (prop, k))
        with open(p, "w") as f:
            f.write("%% property %s, case %s, library %s, flags %s\n%% %s: %s\n%% values: %s\n%% command: %s\n%s\n" % (
                prop, c.id, c.lib, ' '.join(c.flags), d['kind'], d['detail'], d['x'], ' '.join(d.get('cmd') or []), c.src))
            if c.data is not None:
                f.write("%% data:\n%s\n" % c.data)
        lines.append((p, c, d))
    for d in kf:
        if d['id'] in fired:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, d['id'], d['what']))
    for p, c, d in lines:
        print("case %s (%s): %s: %s" % (c.id, c.lib, d['kind'], (d['detail'] or '')[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    cnt = {}
    for d in res.values():
        cnt[d['status']] = cnt.get(d['status'], 0) + 1
    uns = {}
    for d in res.values():
        if d['status'] == 'unsupported':
            uns[d['detail'][:60]] = uns.get(d['detail'][:60], 0) + 1
    dec = [i for i in res if res[i]['status'] in ('ok', 'violation')]
    q = sum(d.get('queries') or 0 for d in res.values())
    ss = sum(d.get('solver_s') or 0 for d in res.values())
    rng = random.Random(SEED)
    samp = [dict(id=cases[i].id, lib=cases[i].lib, flags=cases[i].flags, model=cases[i].src, constraints=res[i].get('ncons'),
                 queries=res[i].get('queries')) for i in rng.sample(sorted(dec), min(4, len(dec)))]
    vac = [res[i]['vac'] for i in dec if res[i].get('vac')]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="translation_validation", coverage=dict(
        programs=len(dec), disagreements_checked=q, samples=samp, cases_generated=len(cases), cases_not_started=len(cases) - len(res),
        outcomes=cnt, unsupported=dict(sorted(uns.items(), key=lambda x: -x[1])[:12]), solver_queries=q, solver_seconds=round(ss, 1),
        flatzinc_constraints_encoded=sum(res[i].get('ncons') or 0 for i in dec),
        existential_variables=sum(res[i].get('nres') or 0 for i in dec),
        models_with_a_solution=sum(1 for v in vac if v[0] is True), models_with_a_nonsolution=sum(1 for v in vac if v[1] is True), vacuity_checked=len(vac),
        bounds=getattr(mod, 'BOUNDS', 'integers: the declared domains of each model (shown in the samples); unbounded integers are cut at +-60; sets: the declared universe'),
        encoded=getattr(mod, 'ENCODED', 'the FlatZinc and output model that the compiler built from the current tree emits for each program, every constraint of it; symbolic: all decision variables'),
        known_findings_seen=sorted(fired), build_s=round(tb, 1), rule=getattr(mod, 'RULE', '')),
        assumptions=getattr(mod, 'ASSUME', ["reference semantics in tv/interp.py and tv/stdfuns.py", "FlatZinc builtin semantics in tv/fzn.py", "Z3"]),
        wall_s=round(time.time() - t0, 1), violations=nviol)
    if hasattr(mod, 'evidence'):
        mod.evidence(ev, cases, res)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d programs decided (%s), %d solver queries, %.0f s solver, %.0f s wall" % (
        prop, len(dec), ", ".join("%s %d" % x for x in sorted(cnt.items())), q, ss, time.time() - t0))
    rej = {}
    for d in res.values():
        if d['status'] == 'rejected':
            rej[(d['detail'] or '')[:60]] = rej.get((d['detail'] or '')[:60], 0) + 1
    if rej:
        print("rejected by both:", sorted(rej.items(), key=lambda x: -x[1])[:8])
    if uns:
        print("unsupported:", sorted(uns.items(), key=lambda x: -x[1])[:8])
    for i in res:
        if res[i]['status'] in ('undecided', 'internal', 'error'):
            print(res[i]['status'], cases[i].id, (res[i]['detail'] or '')[-300:])
    sys.exit(1 if nviol else 0)


if __name__ == '__main__':
    main()
