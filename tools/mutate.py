#!/usr/bin/env python3
"""mutate.py PROP [-j N] [-n MAX]: mutation test of a check. Mutates, one at a time, the source lines the proof executed, in private copies of /repo and /verif, and lists the mutants the check accepts."""
import sys, os, re, json, subprocess, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
prop = sys.argv[1]; J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4; MAX = int(sys.argv[sys.argv.index("-n") + 1]) if "-n" in sys.argv else 10**9
T = tempfile.mkdtemp(prefix=f"mut_{prop}_")
def vcopy(i):
    d = f"{T}/v{i}"; os.makedirs(d); 
    for x in ("dv", "props", "cfg", "check", "known_findings.json", "replay"):
        if os.path.exists(f"/verif/{x}"): subprocess.run(["cp", "-a", f"/verif/{x}", d])
    subprocess.run(["git", "clone", "-q", "/repo", f"{T}/r{i}"]); return i
for i in range(J): vcopy(i)
cov = f"{T}/cov.json"
def check(i, **env):
    e = dict(os.environ, DV_REPO=f"{T}/r{i}", DV_NOREPLAY="1", **env)
    try: r = subprocess.run(["./check", prop], cwd=f"{T}/v{i}", env=e, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired: return 2, "timeout"
    return r.returncode, r.stdout + r.stderr
rc, out = check(0, DV_COV=cov)
assert rc == 0, out
lines = {}
for f, l in json.load(open(cov)):
    if os.path.exists(f"/repo/src/{f}"): lines.setdefault(f, set()).add(l)
SUB = [(r"(?<![\+\-=<>!*/&|(,eE])\+(?![\+=])", "-"), (r"(?<![\+\-=<>!*/&|(,eEn])-(?![-=>])", "+"), (r"(?<=[\w\)\]] )\*(?= ?[\w\(])", "+"), (r" \* ", " / "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=\w*])", "<="), (r"(?<![>\-])>(?![>=(\w:,*&])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\.conj\(\)", ""), (r"_real\b", "_imag"), (r"_imag\b", "_real"), (r"\.real\(\)", ".imag()"), (r"\.imag\(\)", ".real()"), (r"\bi\b(?=\])", "i+1"), (r"\+\+", "--"), (r"(?<=return )", "!"), (r"(?<=if )\(", "(!"), (r"(?<=if)\(", "(!")]
muts = []
for f, ls in lines.items():
    src = open(f"/repo/src/{f}").read().split("\n")
    for l in sorted(ls):
        t = src[l - 1]; code = t.split("//")[0]
        if code.strip().startswith(("*", "/*", "#")): continue
        seen = set()
        for pat, rep in SUB:
            for m in re.finditer(pat, code):
                n = code[:m.start()] + rep + code[m.end():]
                if n not in seen: seen.add(n); muts.append((f, l, t, n))
        s = code.strip()
        if s.endswith(";") and not re.match(r"(return|break|continue|throw|delete)\b", s) and not re.match(r"(const )?[\w:<>]+\s*[\*&]?\s+[\*&]?\w+\s*(=|;|\()", s) and s.count("(") == s.count(")"): muts.append((f, l, t, ";"))
random.Random(1).shuffle(muts); muts = muts[:MAX]
free = list(range(J)); stats = dict(killed=0, compile=0, survived=0)
def job(m):
    f, l, t, n = m; i = free.pop(); p = f"{T}/r{i}/src/{f}"
    try:
        s = open(p).read(); a = s.split("\n"); a[l - 1] = n; open(p, "w").write("\n".join(a))
        rc, out = check(i); open(p, "w").write(s)
        if rc == 1: k = "compile" if "extraction :: extract" in out else "killed"
        else: k = "survived"
        stats[k] += 1
        if k == "survived": print(f"SURVIVED rc={rc} {f}:{l}\n   - {t.strip()}\n   + {n.strip()}", flush=True)
    finally: free.append(i)
with ThreadPoolExecutor(J) as ex: list(ex.map(job, muts))
print(prop, len(muts), "mutants", stats, flush=True)
shutil.rmtree(T)
