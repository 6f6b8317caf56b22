#!/usr/bin/env python3
"""Decide one property of ink-stroke-modeler by symbolic execution of the real
code (LLVM IR regenerated from the working tree of /repo) + z3.

  check.py PROPERTY [--tier quick|thorough] [--only HARNESS[:CASE]] [-v]
  check.py --replay FILE          replay a counterexample natively

Exit 0: held on everything explored (or KNOWN-FINDING only); exit 1: a
counterexample was found by the solver AND reproduced by the natively compiled
code ("VIOLATION property=<id> replay=<path>").
"""
import threading, argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = "clang++-18"
BASE = ["-std=c++20", "-O1", "-ffp-contract=off", "-fno-math-errno", "-w",
        "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]
SYM = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-exceptions", "-fno-threadsafe-statics", "-fno-pic", "-fno-pie",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm"]
UB = ["-fsanitize=float-cast-overflow,signed-integer-overflow,integer-divide-by-zero,bounds,null,shift,bool,enum,return,unreachable"]
ENGINE = os.path.join(VERIF, "build", "inksym")


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def build_engine():
    out = os.path.join(VERIF, "build")
    os.makedirs(out, exist_ok=True)
    import fcntl
    with open(os.path.join(out, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "OUT=" + out])
        if r.returncode:
            raise RuntimeError("engine build failed:\n" + r.stderr[-3000:])


def sources():
    res = []
    for d, dn, fs in os.walk(os.path.join(REPO, "ink_stroke_modeler")):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(".cc") and not f.endswith("_test.cc") and "type_matchers" not in f and "fuzz" not in f \
                    and "benchmark" not in f and "/testing" not in d:
                res.append(os.path.join(d, f))
    return res


class Build:
    """Compiles /repo's current tree + harnesses, in a scratch directory."""

    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.pool = cf.ThreadPoolExecutor(8)

    def _cc(self, src, out, flags):
        r = sh([CXX] + BASE + flags + ["-c", src, "-o", out])
        if r.returncode:
            raise RuntimeError("compile %s: %s" % (src, r.stderr[-2500:]))
        return out

    def objs(self, key, flags, ext):
        if key not in self.cache:
            futs = []
            for s in sources():
                n = os.path.relpath(s, REPO).replace("/", "_") + "." + key + ext
                futs.append(self.pool.submit(self._cc, s, os.path.join(self.work, n), flags))
            self.cache[key] = [f.result() for f in futs]
        return self.cache[key]

    def prebuild(self, fn, keys):
        """Builds several harnesses at once; failures surface when each is asked for."""
        keys = list(dict.fromkeys(keys))

        def one(k):
            try:
                fn(*k)
            except RuntimeError:
                pass
        if keys:
            one(keys[0])
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(one, keys[1:]))

    def bitcode(self, harness, variant, defs=()):
        flags = SYM + list(defs) + (UB + ["-fsanitize-trap=all"] if variant == "ubsan" else [])
        tag = variant + hashlib.md5(repr(defs).encode()).hexdigest()[:6]
        key = ("bc", harness, tag)
        if key not in self.cache:
            rep = self.objs("sym" + variant, SYM + (UB + ["-fsanitize-trap=all"] if variant == "ubsan" else []), ".bc")
            h = self._cc(os.path.join(VERIF, "harness", harness + ".cc"),
                         os.path.join(self.work, harness + tag + ".h.bc"), flags)
            out = os.path.join(self.work, harness + tag + ".bc")
            r = sh(["llvm-link-18"] + rep + [h, "-o", out])
            if r.returncode:
                raise RuntimeError("link: " + r.stderr[-2000:])
            self.cache[key] = out
        return self.cache[key]

    def native(self, harness, san, defs=()):
        key = ("nat", harness, san, tuple(defs))
        if key not in self.cache:
            flags = ["-fno-vectorize", "-fno-slp-vectorize", "-DVP_NATIVE"] + list(defs)
            if san:
                flags = ["-g", "-fsanitize=address", "-fno-sanitize-recover=all", "-DVP_NATIVE"] + UB + list(defs)
            rep = self.objs("nat%d" % san, ["-g", "-fsanitize=address", "-fno-sanitize-recover=all"] + UB if san else flags[:2], ".o")
            tag = "nat%d%s" % (san, hashlib.md5(repr(tuple(defs)).encode()).hexdigest()[:6])
            h = self._cc(os.path.join(VERIF, "harness", harness + ".cc"),
                         os.path.join(self.work, harness + tag + ".h.o"), flags)
            n = self._cc(os.path.join(VERIF, "harness", "native.cc"), os.path.join(self.work, tag + "native.o"), flags)
            out = os.path.join(self.work, harness + tag)
            r = sh([CXX] + (flags if san else []) + rep + [h, n, "-o", out])
            if r.returncode:
                raise RuntimeError("native link: " + r.stderr[-2000:])
            self.cache[key] = out
        return self.cache[key]


def run_native(exe, vals, case, timeout=20):
    with tempfile.NamedTemporaryFile("w", suffix=".vals", delete=False) as f:
        for k, v in vals.items():
            f.write("%s %s\n" % (k, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
               UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$0\" \"$@\"", exe, f.name, str(case)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, errors="replace", text=True)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
    finally:
        os.unlink(f.name)
    return rc, out, err


def reproduced(rc, out, err, label):
    """Does the native run show the violation `label`?"""
    fails = [l[8:] for l in out.splitlines() if l.startswith("VP-FAIL ")]
    if label.startswith("crash:"):
        if fails:
            return fails[0]
        if rc == "timeout":
            return "hang (no answer within 20 s)"
        if rc in (0, 3, 10):
            return None
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: \S+|Assertion .*)", err)
        return "crash rc=%s %s" % (rc, m.group(1) if m else "")
    if label in fails:
        return label
    if fails:
        return fails[0]
    if rc == "timeout":
        return "hang (no answer within 20 s)"
    if isinstance(rc, int) and rc not in (0, 3, 10):
        return "crash rc=%s" % rc
    return None


RUNNING, STOP = set(), threading.Event()


def engine_run(bc, case, unit, tier, seed, deadline, outdir):
    out = os.path.join(outdir, "o_%s_%d.json" % (os.path.basename(bc), case))
    cmd = [ENGINE, bc, "--case", str(case), "--out", out, "--seed", str(seed), "--deadline", str(deadline)] + list(unit.get("flags", []))
    t0 = time.time()
    p = subprocess.Popen(["bash", "-c", "ulimit -v 14000000; exec \"$0\" \"$@\""] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    RUNNING.add(p)
    try:
        _, err = p.communicate(timeout=deadline + 45)
        if os.path.exists(out):
            d = json.load(open(out))
        elif STOP.is_set():
            d = {"crashed": "stopped: a counterexample was already reproduced"}
        else:
            d = {"crashed": "rc=%s %s" % (p.returncode, err[-300:])}
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        d = {"crashed": "timeout"}
    except json.JSONDecodeError as e:
        d = {"crashed": "bad json %s" % e}
    finally:
        RUNNING.discard(p)
    d["_t"] = time.time() - t0
    return d


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid]


def check(pid, tier, only, verbose):
    t0 = time.time()
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    build_engine()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="inkvp_%s_" % pid)
    notes, viol, known_hit = [], [], []
    totals = dict(paths=0, forks=0, instructions=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0)
    obl, reach, funcs, undecided, cexs, wits, units_ev = {}, {}, set(), [], [], [], []
    try:
        B = Build(work)
        jobs = []
        B.prebuild(B.bitcode, [(u["harness"], u.get("variant", "plain"), tuple(u.get("defs", ()))) for u in P["units"]
                                     if not only or only.partition(":")[0] == u["harness"]])
        for u in P["units"]:
            cases = u["cases"][tier] if isinstance(u["cases"], dict) else u["cases"]
            if only:
                h, _, c = only.partition(":")
                if h != u["harness"]:
                    continue
                if c:
                    cases = [x for x in cases if str(x) in c.split(",")]
            try:
                bc = B.bitcode(u["harness"], u.get("variant", "plain"), tuple(u.get("defs", ())))
            except RuntimeError as e:
                notes.append("INCONCLUSIVE %s: %s" % (u["harness"], str(e)[:1500]))
                continue
            for c in cases:
                jobs.append((u, bc, c))
        # longest first (costs.json only steers the order)
        cp = os.path.join(VERIF, "costs.json")
        costs = json.load(open(cp)) if os.path.exists(cp) else {}
        ckey = lambda u, c: "%s %s %d" % (u["harness"], " ".join(u.get("defs", [])), c)
        jobs.sort(key=lambda j: -costs.get(ckey(j[0], j[2]), 0))
        budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
        dl = P.get("deadline", {}).get(tier, 240 if tier == "quick" else 1500)
        t1 = time.time()
        lock = threading.Lock()

        def confirm(u, c, x):
            if STOP.is_set() or any(f.get("harness") == u["harness"] and f.get("label") == x["label"] for f in load_known(pid)):
                return False
            try:
                with lock:
                    exe = B.native(u["harness"], 1 if x["label"].startswith("crash:") else 0, tuple(u.get("defs", ())))
            except RuntimeError:
                return False
            return reproduced(*run_native(exe, x["values"], c), x["label"]) is not None
        with cf.ThreadPoolExecutor(8) as ex:
            def go(j):
                u, bc, c = j
                left = budget - (time.time() - t1)
                if left < 5:
                    return j, {"crashed": "budget exhausted"}
                if STOP.is_set():
                    return j, {"crashed": "stopped: a counterexample was already reproduced"}
                d = engine_run(bc, c, u, tier, seed, int(min(u.get("deadline", dl), max(left, 10))), work)
                if tier == "quick" and not only and any(confirm(u, c, x) for x in d.get("cex", [])[:3]):
                    STOP.set()  # the verdict is settled: stop the other cases
                    for p in list(RUNNING):
                        p.kill()
                return j, d
            results = list(ex.map(go, jobs))
        if os.environ.get("VP_COSTS"):
            for (u, bc, c), d in results:
                costs.pop(ckey(u, c), None)
                if d.get("_t", 0) > 2:
                    costs[ckey(u, c)] = round(d["_t"])
            with open(cp, "w") as f:
                json.dump(costs, f, indent=0, sort_keys=True)
        stopped = 0
        for (u, bc, c), d in results:
            name = "%s:%d" % (u["harness"], c)
            if d.get("crashed", "").startswith("stopped"):
                stopped += 1
                continue
            if "crashed" in d:
                notes.append("INCONCLUSIVE %s: %s" % (name, d["crashed"]))
                continue
            for k in totals:
                totals[k] += d.get(k, 0)
            if not d["complete"]:
                notes.append("INCOMPLETE %s: %s (pending %s)" % (name, d["incomplete"], d["pending"]))
            for l, o in d["obligations"].items():
                a = obl.setdefault(l, [0, 0, 0, 0])
                for i in range(4):
                    a[i] += o[i]
            for r, n in d["reach"].items():
                reach[u["harness"] + "/" + r] = reach.get(u["harness"] + "/" + r, 0) + n
            funcs.update(d["functions"])
            for x in d["undecided"]:
                undecided.append(dict(x, unit=name))
            for x in d["cex"]:
                cexs.append((u, c, x))
            for x in d["witnesses"]:
                wits.append((u, c, x))
            units_ev.append({"unit": name, "paths": d["paths"], "queries": d["queries"], "wall_s": round(d["_t"], 1),
                             "complete": d["complete"]})
            if verbose:
                print("  %-24s complete=%s paths=%d q=%d unsat=%d sat=%d unk=%d solver=%.1fs wall=%.1fs und=%d cex=%d" % (
                    name, d["complete"], d["paths"], d["queries"], d["unsat"], d["sat"], d["unknown"], d["solver_s"], d["_t"],
                    len(d["undecided"]), len(d["cex"])))
        for u in P["units"]:
            if STOP.is_set():
                break
            for r in u.get("must_reach", []):
                if not only and not reach.get(u["harness"] + "/" + r):
                    notes.append("VACUOUS %s: '%s' never reached with a witness" % (u["harness"], r))
        if stopped:
            notes.append("%d cases not run: a counterexample was already reproduced" % stopped)
        # ---- replay counterexamples against the natively compiled code
        tried, nrep = {}, 0
        unrep = []
        for u, c, x in cexs:
            k = (u["harness"], tuple(u.get("defs", ())), x["label"])
            st = tried.setdefault(k, [0, False])
            if STOP.is_set() and len(viol) >= 3:
                break
            if st[1] or st[0] >= 12:
                continue
            st[0] += 1
            san = 1 if x["label"].startswith("crash:") else 0
            try:
                exe = B.native(u["harness"], san, tuple(u.get("defs", ())))
            except RuntimeError as e:
                notes.append("INCONCLUSIVE native build: " + str(e)[:800])
                break
            rc, out, err = run_native(exe, x["values"], c)
            what = reproduced(rc, out, err, x["label"])
            if not what:
                unrep.append("%s:%d %s" % (u["harness"], c, x["label"]))
                continue
            st[1] = True
            kf = [f for f in load_known(pid) if f.get("harness") == u["harness"] and f.get("label") == x["label"]]
            if kf:
                if kf[0] not in known_hit:
                    known_hit.append(kf[0])
                continue
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.txt" % (pid, nrep))
            nrep += 1
            with open(path, "w") as f:
                f.write("# property %s\n# harness %s\n# defs %s\n# case %d\n# label %s\n# shows %s\n# at %s\n" % (
                    pid, u["harness"], " ".join(u.get("defs", ())), c, x["label"], what, x.get("where", "")))
                for l in out.splitlines():
                    if l.startswith("VP-INFO"):
                        f.write("# %s\n" % l)
                f.write("# replay with: python3 /verif/check.py --replay %s\n" % path)
                for k2, v in x["values"].items():
                    f.write("%s %s\n" % (k2, v))
            viol.append({"label": x["label"], "harness": u["harness"], "case": c, "shows": what, "replay": path})
        # ---- validate path witnesses against the native build
        validated, mismatch = 0, []
        limit = P.get("validate", {}).get(tier, 40 if tier == "quick" else 150)
        step = max(1, len(wits) // max(limit, 1))
        sample = wits[::step][:limit]

        def val(w):
            u, c, x = w
            exe = B.native(u["harness"], 0, tuple(u.get("defs", ())))
            rc, out, err = run_native(exe, x["values"], c)
            obs = [l.split(" ", 2)[1:] for l in out.splitlines() if l.startswith("VP-OBS ")]

            def norm(v):
                t, _, r = v.partition(":")
                r = r.split(":")[0]
                if t == "f32" and int(r, 16) & 0x7fffffff > 0x7f800000:
                    return "nan"
                if t == "f64" and int(r, 16) & 0x7fffffffffffffff > 0x7ff0000000000000:
                    return "nan"
                return (t if t[0] == "f" else "i") + r
            a = [(n, norm(v)) for n, v in obs]
            b = [(n, norm(v)) for n, v in x["observed"]]
            if "--zero-sign-agnostic" in u.get("flags", ()):
                z = lambda l: [(n, {"f80000000": "f00000000", "f3280000000": "f3200000000"}.get(v, v)) for n, v in l]
                a = [(n, v.replace("f3280000000", "f3200000000").replace("f648000000000000000", "f640000000000000000")) for n, v in a]
                b = [(n, v.replace("f3280000000", "f3200000000").replace("f648000000000000000", "f640000000000000000")) for n, v in b]
            return a == b and rc in (0, 10), (u["harness"], c, a, b, rc, x["values"])
        try:
            if sample:
                B.prebuild(B.native, [(w[0]["harness"], 0, tuple(w[0].get("defs", ()))) for w in sample])
                with cf.ThreadPoolExecutor(8) as ex:
                    for ok, info in ex.map(val, sample):
                        if ok:
                            validated += 1
                        else:
                            mismatch.append(info)
        except RuntimeError as e:
            notes.append("INCONCLUSIVE native build: " + str(e)[:800])
        if mismatch:
            notes.append("MISMATCH symbolic/native on %d of %d path witnesses, e.g. %s" % (len(mismatch), len(sample), str(mismatch[0])[:1500]))
        if unrep:
            notes.append("NOT-REPRODUCED counterexamples natively: %s" % "; ".join(sorted(set(unrep))[:10]))
        # ---- evidence
        nob = sum(o[0] for o in obl.values())
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
            "coverage": {
                "states": totals["paths"], "transitions": totals["instructions"],
                "traces_validated_against_impl": validated,
                "samples": [{"unit": "%s:%d" % (w[0]["harness"], w[1]), "values": dict(list(w[2]["values"].items())[:12])} for w in sample[:3]],
                "rule": "states = completed symbolic paths (each a set of inputs), transitions = IR instructions executed symbolically; traces = path witnesses re-run natively with identical observations",
                "forks": totals["forks"],
                "functions_encoded": sorted(f for f in funcs if "ink::" in f or "Validate" in f)[:400],
                "bounds": P.get("bounds", {}).get(tier, P.get("bounds", {}).get("quick", "")),
                "outside_bounds": P.get("outside", ""),
                "queries": totals["queries"], "queries_unsat": totals["unsat"], "queries_sat": totals["sat"],
                "queries_unknown": totals["unknown"], "solver_s": round(totals["solver_s"], 2),
                "obligations_by_label": {k: {"total": v[0], "by_rewriting": v[1], "by_z3": v[2], "failed": v[3]} for k, v in sorted(obl.items())},
                "obligations": nob, "discharged": sum(o[1] + o[2] for o in obl.values()),
                "undecided": undecided[:40], "reached": reach, "units": units_ev, "notes": notes,
            },
            "wall_s": round(time.time() - t0, 1),
            "assumptions": P.get("assumptions", []),
            "violations": len(viol),
        }
        if not only:
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s [%s] paths=%d obligations=%d (rewriting %d, z3 %d, failed %d) undecided=%d queries=%d unsat=%d sat=%d unknown=%d solver=%.1fs validated=%d/%d wall=%.1fs" % (
            pid, tier, totals["paths"], nob, sum(o[1] for o in obl.values()), sum(o[2] for o in obl.values()),
            sum(o[3] for o in obl.values()), sum(x.get("count", 1) for x in undecided), totals["queries"], totals["unsat"], totals["sat"],
            totals["unknown"], totals["solver_s"], validated, len(sample), time.time() - t0))
        for n in notes:
            print("  note: " + n)
        for x in undecided[:6]:
            print("  undecided %s %s x%s: %s" % (x["unit"], x["label"], x.get("count"), x["why"][:200]))
        for k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        for v in viol:
            print("  violated: %s (%s case %d): %s" % (v["label"], v["harness"], v["case"], v["shows"]))
        for v in viol:
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    meta, vals = {}, {}
    for l in open(path):
        if l.startswith("# "):
            k, _, v = l[2:].strip().partition(" ")
            meta.setdefault(k, v)
        elif l.strip():
            k, v = l.split(None, 1)
            vals[k] = v.strip()
    work = tempfile.mkdtemp(prefix="inkvp_replay_")
    try:
        B = Build(work)
        exe = B.native(meta["harness"], 1 if meta["label"].startswith("crash:") else 0, tuple(meta.get("defs", "").split()))
        rc, out, err = run_native(exe, vals, int(meta["case"]))
        print("harness %s case %s label %s\nexit %s" % (meta["harness"], meta["case"], meta["label"], rc))
        print("".join(l + "\n" for l in out.splitlines() if not l.startswith("VP-OBS")), end="")
        print(err[-1500:])
        w = reproduced(rc, out, err, meta["label"])
        print("REPRODUCED: " + w if w else "not reproduced")
        return 1 if w else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        build_engine()
        return 0
    if a.replay:
        return replay(a.replay)
    try:
        return check(a.prop, a.tier, a.only, a.v)
    except Exception as e:  # no verdict is not an alarm; say so and leave it in the evidence
        print("INCONCLUSIVE %s: %s" % (a.prop, str(e)[:3000]))
        ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": PROPS.get(a.prop, {}).get("level", "model_checking"),
              "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "notes": [str(e)[:3000]]},
              "wall_s": 0, "violations": 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
        return 0


if __name__ == "__main__":
    sys.exit(main())
