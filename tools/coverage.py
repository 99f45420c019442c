#!/usr/bin/env python3
"""Which lines of /repo do the workloads of the checks reach? (a development aid; no check uses it)

    coverage.py OUTDIR [FRACTION] [ID...]    writes OUTDIR/uncovered.txt and a table to stdout
"""
import concurrent.futures as cf, glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

out = os.path.abspath(sys.argv[1])
frac = float(sys.argv[2]) if len(sys.argv) > 2 else 1
ids = sys.argv[3:] or list(CHECKS)
os.makedirs(out, exist_ok=True)
FLAGS = ["-std=c++20", "-include", f"{HERE}/shim/prelude.h", "-g1", "-pthread", "-DSIMFIL_WITH_MODEL_JSON", "-DFMT_HEADER_ONLY", "-w", "-O1",
         "-fprofile-instr-generate", "-fcoverage-mapping", f"-I{REPO}/include", f"-I{HERE}/shim", f"-I{HERE}/harness"]
pool = cf.ThreadPoolExecutor(8)


def cc(src):
    o = f"{out}/{src.replace('/', '_')}.o"
    subprocess.run(["clang++", *FLAGS, "-c", src, "-o", o], check=True)
    return o


srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True), key=os.path.getsize, reverse=True)
lib = {s: pool.submit(cc, s) for s in srcs}
repl = pool.submit(cc, f"{REPO}/repl/repl.cpp")
har = {}
for c in ids:
    for st in CHECKS[c]["stages"]:
        har.setdefault(st["src"], pool.submit(cc, f"{HERE}/harness/{st['src']}"))
libo = [j.result() for j in lib.values()]
subprocess.run(["clang++", *FLAGS, *libo, repl.result(), "-o", f"{out}/repl"], check=True)
exes = [f"{out}/repl"]
jobs = []
for c in ids:
    for st in CHECKS[c]["stages"]:
        exe = f"{out}/{st['src'][:-4]}"
        if exe not in exes:
            subprocess.run(["clang++", *FLAGS, har[st["src"]].result(), *libo, "-o", exe], check=True)
            exes.append(exe)
        n = max(8, int(st["cases"][0] * frac))
        for k in range(8):
            jobs.append((exe, c, k, n, st))


def run(j):
    exe, c, k, n, st = j
    name = f"{out}/{os.path.basename(exe)}-{k}"
    env = dict(os.environ, LLVM_PROFILE_FILE=name + "-%p.profraw", VERIF_SCRATCH=name + "-scratch", VERIF_REPL=f"{out}/repl", LC_ALL="C.UTF-8")
    with open(name + ".err", "wb") as e:
        p = subprocess.run([exe, "--seed", "1", "--shard", str(k), "--shards", "8", "--cases", str(n), "--first", "0", "--out", name], env=env, stdout=e, stderr=e, cwd=out, timeout=1500)
    if p.returncode:
        print("exit", p.returncode, exe, k, flush=True)


list(pool.map(run, jobs))
subprocess.run(["llvm-profdata", "merge", "-o", f"{out}/all.profdata", *glob.glob(f"{out}/*.profraw")], check=True)
objs = [exes[0]] + [a for e in exes[1:] for a in ("-object", e)]
keep = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/include/**/*.h", recursive=True) + [f"{REPO}/repl/repl.cpp"])
print(subprocess.run(["llvm-cov", "report", *objs, f"-instr-profile={out}/all.profdata", *keep], capture_output=True, text=True).stdout)
t = subprocess.run(["llvm-cov", "show", *objs, f"-instr-profile={out}/all.profdata", "-show-instantiations=0", *keep], capture_output=True, text=True).stdout
open(f"{out}/show.txt", "w").write(t)
f, res = "", []
for l in t.splitlines():
    if l.startswith("/") and l.endswith(":"):
        f = l
    p = l.split("|")
    if len(p) > 2 and p[1].strip() == "0":
        res.append(f"{os.path.relpath(f[:-1], REPO)}:{p[0].strip()}: {'|'.join(p[2:])}")
open(f"{out}/uncovered.txt", "w").write("\n".join(res) + "\n")
