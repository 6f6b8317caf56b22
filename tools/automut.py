#!/usr/bin/env python3
"""Development aid: operator mutants of one file; prints those no check catches.
usage: automut.py FILE SEED COUNT PROP..."""
import os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"),
       (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"velocity", "acceleration"), (r"tilt", "pressure"), (r"start", "end"), (r"DEL", "")]
def main():
    f, seed, count, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    src = open("/repo/" + f).read().split("\n")
    cand = []
    for i, l in enumerate(src):
        s = l.split("//")[0]
        if not s.strip() or s.strip().startswith(("#", "namespace", "using", "*")) or "StrFormat" in s or "Substitute" in s: continue
        for a, b in OPS:
            if a == "DEL":
                if re.match(r"^\s+[\w.\[\]\->()*]+( [-+*/]?= .*|\(.*\));$", s): cand.append((i, ""))
                continue
            for m in re.finditer(a, s):
                if "<" in a + b and ("template" in s or "std::" in s and "<" in s and " < " not in s): continue
                cand.append((i, s[:m.start()] + b + s[m.end():]))
    random.Random(seed).shuffle(cand)
    w = tempfile.mkdtemp(prefix="am.", dir="/tmp"); n = caught = nc = 0
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
    for i, new in cand:
        if n >= count: break
        t = list(src); t[i] = new
        open(w + "/" + f, "w").write("\n".join(t))
        cc = [x for x in [f] if x.endswith(".cc")] or ["ink_stroke_modeler/stroke_modeler.cc"]
        if subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I" + V + "/shim", "-I" + w, w + "/" + cc[0]], capture_output=True).returncode: continue
        n += 1
        hit = None
        for p in props:
            r = subprocess.run(["timeout", "400", "python3", V + "/check.py", p], env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
            if r.returncode == 1: hit = p; break
            if r.returncode: hit = "rc%d" % r.returncode; break
        if hit: caught += 1
        print(("caught %s " % hit if hit else "SURVIVED ") + "%s:%d  %s  ->  %s" % (os.path.basename(f), i + 1, src[i].strip()[:90], new.strip()[:90]), flush=True)
    print("done", f, "caught", caught, "of", n, flush=True)
    shutil.rmtree(w)
main()
