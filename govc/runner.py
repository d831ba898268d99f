"""Runs the check of one property: contracts of every function in the property's cone, the property's
lemmas over those contracts, and the executable-contract harness on the real code."""
import sys, os, re, json, time, subprocess, signal, importlib, multiprocessing as mp, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
GOENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off")


def sh(cmd, cwd, env, timeout):
    """run a command in its own session; -> (rc or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


def build_exporter():
    exe = os.path.join(BUILD, "ssaexport")
    src = os.path.join(HERE, "ssaexport")
    if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src)):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["go", "build", "-o", exe, "."], src, dict(GOENV, GOFLAGS="-mod=mod"), 600)
    if rc != 0:
        sys.stderr.write(out)
        raise SystemExit("cannot build the SSA exporter")
    return exe


def export(tmp):
    exe = build_exporter()
    out = os.path.join(tmp, "ssa.json")
    rc, txt = sh([exe, REPO, out], REPO, dict(GOENV, GOFLAGS="-mod=readonly"), 300)
    if rc != 0:
        sys.stderr.write(txt)
        raise SystemExit("cannot export the SSA of %s" % REPO)
    return out


def load_specs():
    from engine import spec
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "specs")) if f.endswith(".py") and f != "__init__.py"):
        importlib.import_module("specs." + m)
    return spec


def callees(fn):
    out = set()
    for b in fn.blocks:
        for i in b["instrs"]:
            st = [i]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get("k") == "func":
                        out.add(x["n"])
                    if isinstance(x.get("callee"), str):
                        out.add(x["callee"])
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
    return out


def cone(vm, roots):
    seen = set()
    work = list(roots)
    while work:
        n = work.pop()
        if n.endswith("$bound"):
            n = n[:-6]
        if n in seen:
            continue
        seen.add(n)
        f = vm.fns.get(n)
        if f:
            work.extend(callees(f))
    return seen


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_VM = None


def work(job):
    kind, name, limit = job
    from engine import spec, ext, ctx
    ext.USED.clear()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    c0 = ctx.STATS["z3_queries"], ctx.STATS["z3_time"]
    try:
        r = spec.check(_VM, name) if kind == "fn" else spec.check_lemma(_VM, name)
        signal.alarm(0)
        obls, fail, used = r.obls, [(a, str(b)[:3000]) for a, b in r.fail], sorted(r.used)
    except Timeout:
        obls, fail, used = [("verifiable", False)], [("verifiable", "outside the verifier's reach: time limit of %d s" % limit)], []
    except BaseException as e:
        signal.alarm(0)
        obls, fail, used = [("verifiable", False)], [("verifiable", "outside the verifier's reach: %s %s" % (type(e).__name__, str(e)[:500]))], []
    return dict(kind=kind, name=name, obls=obls, fail=fail, used=used, ext=sorted(ext.USED), time=time.time() - t0,
                solver=(ctx.STATS["z3_queries"] - c0[0], ctx.STATS["z3_time"] - c0[1]))


def private(name):
    return name.split(".")[-1][:1].islower()


def pool_run(jobs):
    res = []
    if jobs:
        with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(work, jobs, 1):
                res.append(r)
    return res


def verify(prop, ssa, limit):
    global _VM
    spec = load_specs()
    from engine import vm as V
    vm = V.VM(ssa)
    spec.install(vm)
    _VM = vm
    roots = [n for n, s in spec.SPECS.items() if prop in s.props]
    lems = [n for n, l in spec.LEMMAS.items() if prop in l.props]
    lroots = [u for n in lems for u in spec.LEMMAS[n].uses]
    c = cone(vm, roots + lroots)
    for r in roots:
        if r not in vm.fns:
            c.add(r)
    fns = [n for n in spec.SPECS if n in c and not spec.SPECS[n].unchecked]
    bodies = sorted(n for n in c if n in vm.fns and vm.fns[n].blocks and n.startswith(("pol/", "(pol/", "(*pol/")))
    jobs = [("fn", n, limit) for n in fns] + [("lemma", n, limit) for n in lems]
    jobs.sort(key=lambda j: -spec.COST.get(j[1], 1))
    res = pool_run(jobs)
    # A private helper may be reshaped freely. Where one no longer meets its contract it is inlined into its callers instead.
    moved = {r["name"] for r in res if r["kind"] == "fn" and private(r["name"]) and any(a != "verifiable" for a, _ in r["fail"])}
    if moved:
        spec.install(vm, drop=moved)
        again = {(r["kind"], r["name"]) for r in res if r["name"] not in moved and any(u[1] in moved for u in r["used"])}
        res2 = pool_run([j for j in jobs if j[:2] in again])
        if again and not any(r["fail"] for r in res2):
            res = [r for r in res if (r["kind"], r["name"]) not in again] + res2
            for r in res:
                if r["name"] in moved:
                    r["fail"] = [("verifiable", "outside the verifier's reach: private helper with another contract now, inlined into its callers: " + b) for a, b in r["fail"]][:1]
    notes = [n for f in fns for n in [spec.SPECS[f].note] if n]
    unchecked = [n for n in spec.SPECS if n in c and spec.SPECS[n].unchecked]
    return res, roots, bodies, notes, unchecked


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


def harness(prop, tmp, tier, seed, limit):
    """the executable contracts: run the property's tests on the real code through an overlay"""
    hd = os.path.join(ROOT, "harness")
    runs, fails = [], []
    if not os.path.isdir(hd):
        return runs, fails, []
    repl, pkgs = {}, []
    for pkg in sorted(os.listdir(hd)):
        d = os.path.join(hd, pkg)
        if not os.path.isdir(d) or (pkg != "verifh" and not os.path.isdir(os.path.join(REPO, pkg))):
            continue
        hit = False
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                # export_*.go and the helper package are laid in as ordinary files, the rest as in-package tests
                plain = pkg == "verifh" or f.startswith("export_")
                repl[os.path.join(REPO, pkg, "zz_verif_" + f if plain else f.replace(".go", "_verif_test.go"))] = os.path.join(d, f)
                if "func TestVerif_%s_" % prop in open(os.path.join(d, f)).read():
                    hit = True
        if hit:
            pkgs.append("./" + pkg)
    if not pkgs:
        return runs, fails, []
    ov = os.path.join(tmp, "overlay.json")
    env = dict(GOENV, GOFLAGS="-mod=readonly", VERIF_SEED=str(seed), VERIF_TIER=tier)
    env["GOCACHE"] = os.environ.get("GOCACHE", "/root/.cache/go-build")
    cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-json", "-timeout", "%ds" % limit, "-run", "^TestVerif_%s_" % prop] + pkgs
    dropped = []
    for attempt in range(8):
        json.dump({"Replace": repl}, open(ov, "w"))
        rc, out = sh(cmd, REPO, env, limit + 60)
        # a test file that no longer compiles with the tree (a renamed private name) is left out
        bad = set()
        for l in out.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("Action") == "build-output":
                bad |= {f for f, src in repl.items() if src + ":" in j["Output"] or os.path.relpath(src, REPO) + ":" in j["Output"]}
        if not bad:
            break
        for f in bad:
            dropped.append(repl.pop(f))
    skipped = ["left out, does not compile with this tree: %s" % d for d in dropped]
    logs = {}
    for l in out.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        k = (j.get("Package"), j.get("Test"))
        if j.get("Action") == "output":
            logs[k] = logs.get(k, "") + j["Output"]
        elif j.get("Action") in ("pass", "fail") and j.get("Test") and "/" not in j["Test"]:
            runs.append((k[0], k[1], j["Action"], j.get("Elapsed", 0)))
    cases = distinct = 0
    samples = []
    for (p, t), o in logs.items():
        for l in o.splitlines():
            l = l.strip()
            if "VERIF-CASES" in l:
                try:
                    w = l.split("VERIF-CASES", 1)[1].split()
                    cases += int(w[0])
                    distinct += int(w[1])
                except ValueError:
                    pass
            if "VERIF-SAMPLE" in l and len(samples) < 8:
                samples.append(l.split("VERIF-SAMPLE", 1)[1].strip()[:300])
    for p, t, a, el in runs:
        if a == "fail":
            o = logs.get((p, t), "")
            if "VERIF-FAIL" in o or "panic:" in o:
                fails.append((p, t, o))
            else:
                skipped.append("%s %s did not run: %s" % (p, t, o[-300:]))
    if rc is None:
        skipped.append("harness ran out of time")
        for (p, t), o in logs.items():
            if "VERIF-FAIL" in o:
                fails.append((p, t, o))
    elif not runs:
        # a test binary that panics or hangs reports the package only
        whole = "".join(logs.values()) + "\n" + out[-3000:]
        skipped.append("harness did not run: " + whole[-600:])
    else:
        # a panic in a goroutine or a hang ends the binary: the running test has no verdict
        started = {(json.loads(l).get("Package"), json.loads(l).get("Test")) for l in out.splitlines() if l.startswith("{") and '"run"' in l}
        for k in started:
            if k[1] and "/" not in k[1] and k not in {(r[0], r[1]) for r in runs}:
                o = logs.get(k, "") + logs.get((k[0], None), "")
                if "test timed out" in o or "panic:" in o or "fatal error" in o:
                    fails.append((k[0], k[1], o))
    return runs, fails, skipped, cases, samples, distinct


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, tmp, t0):
    ssa = export(tmp)
    limit = 420 if tier == "quick" else 1200
    res, roots, bodies, notes, unchecked = verify(prop, ssa, limit)
    hv = harness(prop, tmp, tier, seed, 400 if tier == "quick" else 3000)
    runs, fails, skipped = hv[0], hv[1], hv[2]
    cases, samples, distinct = hv[3:6] if len(hv) > 3 else (0, [], 0)
    obl = sum(len(r["obls"]) for r in res)
    dis = sum(1 for r in res for o in r["obls"] if o[1])
    failed = [(r["name"], a, b) for r in res for a, b in r["fail"]]
    broken = [f for f in failed if f[1] != "verifiable"]
    beyond = [f for f in failed if f[1] == "verifiable"]
    kn = known(prop)
    ext = sorted(set(e for r in res for e in r["ext"]))
    vio = []
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, "replay-%s.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    fails = [f for f in fails if not any(k in f[2] for k in kn)]
    if fails or broken:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            for n, a, b in broken:
                f.write("\nfailed obligation: %s / %s\n%s\n" % (n, a, b))
            for n, a, b in beyond:
                f.write("\nundecided: %s: %s\n" % (n, b))
            for p, t, o in fails:
                f.write("\nfailing input on the real code: %s %s (VERIF_SEED=%d VERIF_TIER=%s)\n%s\n" % (p, t, seed, tier, o[-6000:]))
                f.write("rerun: VERIF_SEED=%d VERIF_TIER=%s python3-vt %s/runner.py %s\n" % (seed, tier, HERE, prop))
    level = "proof"
    mf = os.path.join(ROOT, "MANIFEST.json")
    if os.path.exists(mf):
        level = {c["property"]: c["level"] for c in json.load(open(mf))["checks"]}.get(prop, level)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3-vt %s/runner.py %s" % (HERE, prop),
            "trusted_base": ["govc/engine (symbolic executor over go/ssa, normaliser over polynomials with symbolic sums, loop-summary inference re-verified inductively)",
                             "golang.org/x/tools/go/ssa", "z3 (linear integer facts)"] + ["assumed contract of " + e for e in ext],
            "functions_under_contract": sorted(r["name"] for r in res if r["kind"] == "fn" and not r["fail"]),
            "lemmas": sorted(r["name"] for r in res if r["kind"] == "lemma" and not r["fail"]),
            "property_functions": sorted(roots),
            "functions_in_cone": len(bodies),
            "functions_in_cone_without_contract": [b for b in bodies if not any(r["name"] == b for r in res)],
            "assumed_contracts_unchecked": unchecked,
            "undecided_by_verifier": ["%s: %s" % (n, b[:300]) for n, a, b in beyond],
            "failed_obligations": ["%s/%s" % (n, a) for n, a, b in broken],
            "solver_calls": sum(r["solver"][0] for r in res), "solver_s": round(sum(r["solver"][1] for r in res), 2),
            "verifier_s": round(sum(r["time"] for r in res), 2),
            "bounded_checks": [{"test": "%s.%s" % (p, t), "outcome": a, "s": el} for p, t, a, el in runs],
            "evaluations": cases, "distinct_nontrivial": distinct, "samples": samples, "bounded_skipped": skipped,
            "rule": "bounded stand-in, not counted as proved: each case is one call of the real code compared with the contract's reference value; distinct = distinct case descriptions (inputs, tampering, configuration)",
        },
        "assumptions": ASSUME + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails) + len(broken),
    }
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s: %d/%d obligations discharged over %d functions and %d lemmas, %d bounded tests (%d cases), %.0f s" % (
        prop, dis, obl, sum(r["kind"] == "fn" for r in res), sum(r["kind"] == "lemma" for r in res), len(runs), cases, time.time() - t0))
    for n, a, b in failed:
        print("  %s: %s: %s: %s" % ("undecided" if a == "verifiable" else "FAILED", n, a, b[:600]))
    for s in skipped:
        print("  skipped:", s[:600])
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if fails:
        for p, t, o in fails:
            print("  failing input:", p, t, "|".join(l.strip() for l in o.splitlines() if "VERIF-FAIL" in l or "panic" in l)[:800])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if broken:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    if not res and not runs:
        print("nothing was checked")
        return 2
    return 0


ASSUME = [
    "Go ints are mathematical integers (no overflow); slices and maps fit in memory",
    "goroutines of the parallel mode run one after another in the proofs; schedules are not explored",
    "mathlib group elements are identified with their discrete logarithms in the scalar field (cyclic groups of prime order, bilinear pairing), mathlib scalars with residues plus a flag for the canonical representative",
    "SHA-256 and the byte encodings of scalars and group elements are uninterpreted functions; challenges derived from hashes are non-zero",
]

if __name__ == "__main__":
    main()
