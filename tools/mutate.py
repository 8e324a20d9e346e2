#!/usr/bin/env python3
"""mutate.py PROP [--n N] [--seed S]: changes lines of /repo/src that the property's check executes symbolically, one at a
   time (on a private bind mount, never in /repo itself), and reports the changes the check does not notice."""
import sys, os, re, random, subprocess, tempfile, shutil, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
arg = lambda k, d: int(sys.argv[sys.argv.index(k) + 1]) if k in sys.argv else d
N, S = arg("--n", 12), arg("--seed", 1)
only = sys.argv[sys.argv.index("--file") + 1] if "--file" in sys.argv else None
COV = "/tmp/cov"
os.makedirs(COV, exist_ok=True)
cov = f"{COV}/{pid}"
if not os.path.exists(cov) or "--recov" in sys.argv:
    subprocess.run(["python3", V + "/check.py", pid], env=dict(os.environ, SYMEX_LINES=cov + ".part"), capture_output=True)
    ls = set()
    for f in glob.glob(cov + ".part.*"):
        ls |= set(open(f).read().split("\n"))
        os.remove(f)
    open(cov, "w").write("\n".join(sorted(l for l in ls if l.startswith("src/"))))
sys.path.insert(0, V)
from props import PROPS
files = PROPS[pid]["files"]
lines = {}
for l in open(cov).read().split("\n"):
    if ":" not in l: continue
    f, n = l.rsplit(":", 1)
    f = os.path.normpath(f)
    if any(f == x or f.startswith(x.rstrip("/") + "/") for x in files) and (not only or only in f):
        lines.setdefault(f, set()).add(int(n))
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r" < ", " <= "), (r" <= ", " < "),
       (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"\[i\]", "[j]"), (r"\[j\]", "[i]"), (r"\bi \+ 1\b", "i"), (r"\bsin\b|\bSIN\b", "cos"), (r"\bcos\b|\bCOS\b", "sin"),
       (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"), (r"\b0\b(?!\.)", "1"), (r"\b3\b(?!\.)", "2"), (r"\b0\.5\b", "0.6"), (r"\b1\.0\b", "1.1"), (r"\b2\.0\b", "2.1"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"\bpos\(", "vel("), (r"\bif \((?!constexpr)(.*)\) \{", r"if (!(\1)) {"), (r"-(?=[a-z])", ""), (r"^(\s*)([a-zA-Z_.\[\]>(-]+.*);\s*$", None)]
cands = []
for f, ns in lines.items():
    src = open("/repo/" + f).read().split("\n")
    for n in ns:
        if n < 1 or n > len(src): continue
        t = src[n - 1]
        if t.strip().startswith(("//", "*", "/*", "#", "template", "using")): continue
        for pat, rep in OPS:
            if rep is None:
                if re.match(r"^\s*(return|using|auto|const|double|Scalar|size_t|int|constexpr|Vector|[A-Z][A-Za-z]* [a-z]|static|typename|else|break|continue)", t) or "{" in t or "}" in t: continue
                if re.match(pat, t): cands.append((f, n, re.sub(r"\S.*", ";", t, count=1)))
                continue
            for m in re.finditer(pat, t):
                if "template" in t or "for (auto" in t: continue
                nt = t[:m.start()] + m.expand(rep) + t[m.end():]
                if nt != t: cands.append((f, n, nt))
random.Random(S * 1000 + int(pid[1:])).shuffle(cands)
print(f"{pid}: {len(cands)} candidate changes on {sum(map(len, lines.values()))} lines of {list(lines)}", flush=True)
done = killed = 0
seen = set()
for f, n, nt in cands:
    if done >= N: break
    if (f, n) in seen: continue
    seen.add((f, n))
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/src", d + "/src"])
    p = d + "/" + f
    src = open(p).read().split("\n")
    old = src[n - 1]
    src[n - 1] = nt
    open(p, "w").write("\n".join(src))
    os.makedirs(d + "/build")
    try:
        r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {d}/src /repo/src && cd {V} && exec nice -n 10 python3 check.py {pid}"], capture_output=True, text=True, env=dict(os.environ, VERIF_FAILFAST="1"), timeout=1200)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 99, ""
    shutil.rmtree(d)
    if "cannot compile" in out: continue
    done += 1
    if rc == 1: killed += 1
    else: print(f"  {'SURVIVED' if rc == 0 else 'NO-ANSWER rc=%d' % rc} {f}:{n}\n     - {old.strip()}\n     + {nt.strip()}" + ("" if rc == 0 else "\n     " + out.strip()[-300:]), flush=True)
print(f"{pid}: {killed}/{done} noticed", flush=True)
