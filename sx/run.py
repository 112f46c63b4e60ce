"""Runner of the symbolic-execution checks:  python3-vt sx/run.py <property>

Compiles the property's harnesses together with the source files of /repo's
working tree to LLVM bitcode, executes every entry symbolically (sx/engine.cpp:
all inputs are SMT variables, every branch and assertion is decided by Z3),
replays counterexamples and some path witnesses against a native build (with the
address sanitizer) of the same sources, and writes evidence/<id>.json."""
import os, sys, time, json, subprocess, hashlib, shutil, resource, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, os.path.join(VERIF, "lib"), HERE]
import native
from props import PROPS

REPO, CACHE = native.REPO, os.path.join(native.CACHE, "sx")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
ENGINE = os.path.join(CACHE, "engine")
INC = ["-I" + HERE, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(native.BUILD, "include"), "-I" + os.path.join(native.SRC, "include"),
       "-I" + REPO]
BC = ["clang++", "-std=c++17", "-O1", "-DNDEBUG", "-w", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c"]
ASAN = ["clang++", "-std=c++17", "-O1", "-g1", "-DNDEBUG", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR"]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise native.BuildError(" ".join(cmd) + "\n" + p.stdout[-5000:])
    return p.stdout


def digest(files):
    h = hashlib.sha1()
    for f in files:
        with open(f, "rb") as g:
            h.update(g.read())
    return h.hexdigest()


def setup():
    """engine and library models (they depend on /verif only)"""
    os.makedirs(CACHE, exist_ok=True)
    lk = native.lock()
    d = digest([os.path.join(HERE, f) for f in ("engine.cpp", "rt.c", "rt.cpp")])
    st = os.path.join(CACHE, "stamp")
    if not (os.path.exists(st) and open(st).read() == d and os.path.exists(ENGINE)):
        with ThreadPoolExecutor() as ex:
            js = [ex.submit(sh, ["g++", "-std=c++17", "-O2", "-w", "-I/usr/lib/llvm-18/include", "-fexceptions", os.path.join(HERE, "engine.cpp"), "-o", ENGINE,
                                 "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"]),
                  ex.submit(sh, ["clang", "-O1", "-w", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", os.path.join(HERE, "rt.c"), "-o",
                                 os.path.join(CACHE, "rt_c.bc")]),
                  ex.submit(sh, BC + INC + [os.path.join(HERE, "rt.cpp"), "-o", os.path.join(CACHE, "rt_cpp.bc")])]
            for j in js:
                j.result()
        sh(["llvm-link-18", os.path.join(CACHE, "rt_c.bc"), os.path.join(CACHE, "rt_cpp.bc"), "-o", os.path.join(CACHE, "rtall.bc")])
        with open(st, "w") as f:
            f.write(d)
    lk.close()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def engine(bc, entry, part, parts, o):
    cmd = [ENGINE, bc, entry, "--part", "%d/%d" % (part, parts), "--time", str(o.get("time", 240)), "--max-steps", str(o.get("steps", 2000000)),
           "--qtime", str(o.get("qtime", 60000)), "--max-paths", str(o.get("paths", 2000000)), "--witnesses", "2" if parts > 2 else "4"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=o.get("time", 240) + 150)
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError) as e:
        err = "" if isinstance(e, subprocess.TimeoutExpired) else p.stderr[-300:]
        return dict(entry=entry, complete=False, paths=0, done=0, infeasible=0, undecided=1, instructions=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0,
                    assert_queries=0, solver_s=0, wall_s=0, functions=[], unfinished={"engine: %s %s" % (type(e).__name__, err): 1}, notes=[], violations=[],
                    witnesses=[], hangs=[])


def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        setup()
        if not os.path.exists(os.path.join(native.BUILD, "include", "minizinc", "config.hh")):
            native.build()
        P = PROPS[prop]
        work = os.path.join(CACHE, prop)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        sha, nat = {}, {}
        ex = ThreadPoolExecutor(JOBS)
        comp = {}

        def obj(src, kind, flags=()):
            k = (src, kind, tuple(flags))
            if k not in comp:
                out = os.path.join(work, os.path.basename(src) + hashlib.sha1(repr(k).encode()).hexdigest()[:6] + (".bc" if kind == "bc" else ".o"))
                comp[k] = (ex.submit(sh, (BC if kind == "bc" else ASAN + ["-c"]) + list(flags) + INC + [src, "-o", out]), out)
            return comp[k]

        hs = [h for h in P["harnesses"] if TIER == "thorough" or not h.get("thorough")]
        for h in hs:
            srcs = [os.path.join(HERE, s) for s in [h["file"]] + h.get("own", [])] + [os.path.join(REPO, s) for s in h.get("src", []) if os.path.exists(os.path.join(REPO, s))]
            h["_bc"] = [obj(s, "bc", h.get("flags", [])) for s in srcs]
            h["_o"] = [obj(s, "o", h.get("flags", [])) for s in srcs + [os.path.join(HERE, "sx_native.cpp")]]
        for f, _ in list(comp.values()):
            f.result()
        for h in hs:
            n = os.path.splitext(h["file"])[0]
            h["bc"] = os.path.join(work, n + ".all.bc")
            h["exe"] = os.path.join(work, n + ".exe")
            h["_l1"] = ex.submit(sh, ["llvm-link-18"] + [o for _, o in h["_bc"]] + [os.path.join(CACHE, "rtall.bc"), "-o", h["bc"]])
            h["_l2"] = ex.submit(sh, ["clang++", "-fsanitize=address", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all"] + [o for _, o in h["_o"]] + ["-ldl", "-lpthread", "-o", h["exe"]])
        for h in hs:
            h["_l1"].result()
            h["_l2"].result()
    except native.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
    tb = time.time() - t0
    jobs = []
    for h in hs:
        for e in h["entries"]:
            o = dict(h.get("opts", {}), **e.get("opts", {}))
            if TIER == "thorough":
                if "thorough_entry" in e:
                    e = dict(e, name=e["thorough_entry"])
                o = dict(o, time=o.get("ttime", 1500), qtime=300000)
            elif e.get("thorough"):
                continue
            for p in range(e.get("parts", 1)):
                jobs.append((e.get("cost", 1), h, e, p, e.get("parts", 1), o))
    jobs.sort(key=lambda j: -j[0])
    futs = [(j, ex.submit(engine, j[1]["bc"], j[2]["name"], j[3], j[4], j[5])) for j in jobs]
    res = [(j, f.result()) for j, f in futs]
    known = [json.loads(l) for l in open(os.path.join(VERIF, "known_findings.jsonl")) if l.strip() and not l.startswith("#")]
    known = [d for d in known if d.get("status") == "known" and d["property"] == prop]

    def replay(h, entry, ins, tag):
        f = os.path.join(work, tag + ".in")
        with open(f, "w") as g:
            for n, v in ins:
                g.write("%s %s\n" % (n, v))
        try:
            p = subprocess.run([h["exe"], f, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30, errors="replace",
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1"))
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return "timeout", "no end within 30 s"

    nviol, spurious, wit, wok, lines, fired, shown = 0, [], 0, 0, [], set(), set()
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for k, (j, r) in enumerate(res):
        h, e = j[1], j[2]["name"]
        for q, v in enumerate(r["violations"][:12] + r["hangs"]):
            if len(shown) > 12:
                break
            rc, out = replay(h, e, v["inputs"], "v%d-%d" % (k, q))
            if rc == 0 or rc == 3 or rc == 4:
                spurious.append("%s: %s (%s) not reproduced natively: %s" % (e, v["kind"], v["where"][:120], out[-200:]))
                continue
            kd = [d for d in known if d.get("entry") == e and d.get("kind") == v["kind"] and (not d.get("inputs") or all(x in [list(i) for i in v["inputs"]] for x in d["inputs"]))]
            if kd:
                fired.add(kd[0]["id"])
                continue
            nviol += 1
            key = (e, v["kind"])
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(VERIF, "replay", "%s-%s-%s.txt" % (prop, e, hashlib.sha1(repr(v).encode()).hexdigest()[:8]))
            with open(path, "w") as g:
                g.write("property %s, harness %s, entry %s\n%s\nat %s\ninputs (hexadecimal, in the order they are read):\n%s\nnative replay (exit %s):\n%s\n" % (
                    prop, h["file"], e, v["kind"], v["where"], "\n".join("%s %s" % tuple(i) for i in v["inputs"]), rc, out[-3000:]))
            lines.append("entry %s: %s; inputs %s\nVIOLATION property=%s replay=%s" % (e, v["kind"], " ".join("%s=%s" % tuple(i) for i in v["inputs"])[:400], prop, path))
        for q, v in enumerate(r["witnesses"]):
            rc, out = replay(h, e, v["inputs"], "w%d-%d" % (k, q))
            wit += 1
            if rc == 0 and "(asserts %s)" % v["kind"] in out:
                wok += 1
            else:
                spurious.append("%s: path witness %s ended differently natively (%s): %s" % (e, v["inputs"][:8], rc, out[-300:]))
                if rc not in (0, 3, 4):  # the native run itself breaks the property
                    nviol += 1
                    path = os.path.join(VERIF, "replay", "%s-%s-w%d.txt" % (prop, e, k))
                    with open(path, "w") as g:
                        g.write("property %s, harness %s, entry %s, inputs:\n%s\nnative run (exit %s):\n%s\n" % (prop, h["file"], e, "\n".join("%s %s" % tuple(i) for i in v["inputs"]), rc, out[-3000:]))
                    lines.append("entry %s fails natively\nVIOLATION property=%s replay=%s" % (e, prop, path))
    for d in known:
        if d["id"] in fired:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, d["id"], d["what"]))
    for l in lines:
        print(l)
    S = lambda f: sum(r[f] for _, r in res)
    unf = {}
    for _, r in res:
        for a, b in r["unfinished"].items():
            a = r["entry"] + ": " + a[:160]
            unf[a] = unf.get(a, 0) + b
    ent = {}
    for j, r in res:
        d = ent.setdefault(r["entry"], dict(complete=True, paths=0, asserts=0, queries=0, solver_s=0.0, wall_s=0.0, bound=j[2].get("bound", "")))
        d["complete"] = d["complete"] and r["complete"]
        for f in ("paths", "asserts", "queries", "solver_s", "wall_s"):
            d[f] = round(d[f] + r[f], 2)
    fns = sorted(set(f for _, r in res for f in r["functions"]))
    dem = demangle(fns)
    mz = [d for d in dem if "MiniZinc" in d]
    samples = [dict(entry=j[2]["name"], path_inputs=r["witnesses"][-1]["inputs"][:24]) for j, r in res if r["witnesses"]][:6]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=dict(
        states=S("paths"), transitions=S("instructions"), traces_validated_against_impl=wok, samples=samples,
        paths_completed=S("done"), paths_infeasible=S("infeasible"), paths_undecided=S("undecided"), assertions_checked=S("asserts"),
        assertion_queries=S("assert_queries"), solver_queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), solver_seconds=round(S("solver_s"), 1),
        entries=ent, entries_complete=sum(1 for d in ent.values() if d["complete"]), entries_total=len(ent), witnesses_replayed=wit,
        functions_encoded=len(fns), minizinc_functions_encoded=mz[:400], unfinished=dict(sorted(unf.items())[:40]), not_reproduced=spurious[:20],
        bounds=P["bounds"], outside="; ".join(P.get("outside", [])), build_s=round(tb, 1),
        explanation="states = execution paths explored symbolically, transitions = LLVM instructions executed symbolically; every branch on symbolic data and every assertion, memory access and library precondition is a Z3 query over all inputs reaching it"),
        assumptions=P.get("assume", []) + ["LLVM bitcode of the sources at -O1 (clang 18) represents them", "library models in sx/rt.c and sx/rt.cpp", "sx/engine.cpp and Z3"],
        wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in spurious[:10]:
        print("not reproduced:", s)
    for a, b in sorted(unf.items())[:30]:
        print("unfinished:", b, a)
    if os.environ.get("VERIF_VERBOSE"):
        for a, d in ent.items():
            print(a, d)
    print("%s: %d entries (%d complete), %d paths, %d assertions, %d queries, %.0f s solver, %d witnesses replayed (%d agree), %.0f s wall" % (
        prop, len(ent), ev["coverage"]["entries_complete"], S("paths"), S("asserts"), S("queries"), S("solver_s"), wit, wok, time.time() - t0))
    shutil.rmtree(work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    sys.exit(1 if nviol else 0)


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")[:len(names)]


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        setup()
    else:
        main()
