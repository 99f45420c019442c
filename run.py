#!/usr/bin/env python3
"""Builds and runs the monitor(s) of one property against /repo's working tree.

    run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

exit 0: the property held on everything explored (KNOWN-FINDING lines possible)
exit 1: 'VIOLATION property=<id> replay=<path>' was printed
exit 2: the check itself failed (build error, harness error)
exit 3: the run did not observe what it is required to observe
"""
import argparse, concurrent.futures as cf, glob, json, mmap, os, re, shutil, signal, struct
import subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

JOBS = 8
BASE = ["-std=c++20", "-include", f"{HERE}/shim/prelude.h", "-g1", "-fno-omit-frame-pointer", "-pthread",
        "-DSIMFIL_WITH_MODEL_JSON", "-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS",
        "-ftrivial-auto-var-init=pattern", "-Wno-everything",
        f"-I{REPO}/include", f"-I{HERE}/shim", f"-I{HERE}/harness"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
}
# Another build of the same sources, see Build.variants
VARIANT = ["-include", f"{HERE}/shim/prelude.h", "-pthread", "-DSIMFIL_WITH_MODEL_JSON", "-DFMT_HEADER_ONLY", "-w",
           f"-I{REPO}/include", f"-I{HERE}/shim", f"-I{HERE}/harness"]
# Quick checks are built for every change: leave out what costs most and finds least (bad pointers trap anyway).
QUICK = ["-fno-sanitize=vptr,null,alignment,object-size"]
ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:"
                    "detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "TSAN_OPTIONS": f"halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:suppressions={HERE}/harness/tsan.supp",
}


def die(msg, code=2):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(code)


class Build:
    def __init__(self, dir):
        self.dir = dir
        self.objs = {}
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.ccache = shutil.which("ccache")
        self.env = dict(os.environ, CCACHE_DIR=f"{HERE}/build/ccache", CCACHE_MAXSIZE="2G", CCACHE_NOCPP2="",
                        LC_ALL="C.UTF-8")
        self.env.pop("CCACHE_NOCPP2")

    def compile(self, src, san, extra, cxx=None):
        key = (src, san, tuple(extra), cxx)
        if key not in self.objs:
            name = f"{len(self.objs)}-{os.path.basename(src)}-{san}.o"
            self.objs[key] = self.pool.submit(self._compile, src, san, extra, os.path.join(self.dir, name), cxx)
        return self.objs[key]

    def _compile(self, src, san, extra, out, cxx):
        cmd = [cxx, *VARIANT, *extra, "-c", src, "-o", out] if cxx else ["clang++", *BASE, *SAN[san], *extra, "-c", src, "-o", out]
        if self.ccache:
            cmd.insert(0, self.ccache)
        p = subprocess.run(cmd, env=self.env, capture_output=True, text=True)
        return out, p.returncode, p.stderr

    def jobs(self, stage):
        san = stage.get("san", "asan")
        extra = stage.get("flags", [])
        if stage.get("lib") == "token":
            srcs = [f"{REPO}/src/token.cpp", f"{REPO}/src/exception-handler.cpp"]
        else:
            srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True), key=os.path.getsize, reverse=True)
        first = self.compile(srcs[0], san, extra)  # biggest first
        harness = self.compile(f"{HERE}/harness/{stage['src']}", san, extra)
        jobs = [harness, first] + [self.compile(s, san, extra) for s in srcs[1:]]
        for cxx, *flags in stage.get("variants", []):
            for s in [srcs[0], f"{HERE}/harness/{stage['src']}"] + srcs[1:]:
                self.compile(s, "plain", extra + flags, cxx)
        return jobs

    def variants(self, stage, exe):
        """The same sources built by other compilers or in other ways: <exe>-v0, <exe>-v1, ..."""
        srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)) + [f"{HERE}/harness/{stage['src']}"]
        for n, (cxx, *flags) in enumerate(stage.get("variants", [])):
            outs = []
            for s in srcs:
                out, rc, err = self.compile(s, "plain", stage.get("flags", []) + flags, cxx).result()
                if rc:
                    die(f"build failed:\n{err[:6000]}")
                outs.append(out)
            self.link([cxx, "-pthread", *outs, "-o", f"{exe}-v{n}"])

    def stage(self, stage):
        san = stage.get("san", "asan")
        extra = stage.get("flags", [])
        jobs = self.jobs(stage)
        repl = []
        if stage.get("repl"):
            repl = [self.compile(f"{REPO}/repl/repl.cpp", san, extra)]
        outs = []
        for j in jobs + repl:
            out, rc, err = j.result()
            if rc:
                die(f"build failed:\n{err[:6000]}")
            outs.append(out)
        exe = os.path.join(self.dir, stage["src"].replace(".cpp", "") + "-" + san)
        ld = ["clang++", *SAN[san], "-pthread", *stage.get("ldflags", [])]
        n = len(outs) - len(repl)
        self.link(ld + outs[:n] + ["-o", exe])
        if repl:
            self.link(ld + outs[1:] + ["-o", exe + "-repl"])
        self.variants(stage, exe)
        if stage.get("prepare"):
            p = subprocess.run(stage["prepare"], shell=True, cwd=self.dir, capture_output=True, text=True)
            if p.returncode:
                die(f"preparation failed: {p.stderr[:2000]}")
        return exe

    def link(self, cmd):
        p = subprocess.run(cmd, env=self.env, capture_output=True, text=True)
        if p.returncode:
            die(f"link failed:\n{p.stderr[:6000]}")


def read_cur(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        idx, done = struct.unpack_from("QQ", b)
        text = b[16:].split(b"\0", 1)[0].decode("utf-8", "backslashreplace")
        return idx, done, text
    except Exception:
        return 0, 0, ""


def crash_summary(rc, err):
    lines = err.splitlines()
    keep = [l.strip() for l in lines if re.search(
        r"SHIM-CONTRACT|runtime error|ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|SUMMARY|terminate called|what\(\)|Assertion|HARNESS|MONITOR|MEMORY", l)]
    frames = [l.strip() for l in lines if re.match(r"\s*#\d+ ", l)][:12]
    sig = f"signal {-rc}" if rc < 0 else f"exit {rc}"
    return f"{sig}: " + " | ".join(keep[:6] + frames)[:3000]


def crash_key(err):
    m = re.search(r"SHIM-CONTRACT: ([^\n]*)", err)
    if m:
        return "crash:contract"
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        return f"crash:{m.group(2)}"
    if "\nMEMORY: " in err:
        return "crash:memory"
    if "runtime error" in err:
        return "crash:undefined-behavior"
    return "crash:abort"


MEMORY_MB = 2500  # no workload needs a fifth of it
MEMORY_RC = 250


def memory(pid):
    try:
        with open(f"/proc/{pid}/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, ValueError, IndexError):
        return 0


class Shard:
    peak = 0

    def __init__(self, exe, stage, args, k, n, cases, seed, thorough, dir, label):
        self.exe, self.stage, self.k, self.n, self.cases, self.seed = exe, stage, k, n, cases, seed
        self.thorough, self.dir, self.label = thorough, dir, label
        self.first = 0
        self.run_no = 0
        self.crashes = []
        self.stats = []
        self.slow = 0
        self.error = None
        self.hang = stage.get("hang_s", 60)

    def cmd(self, only=None):
        out = f"{self.dir}/{self.label}-s{self.k}-r{self.run_no}"
        c = [self.exe, "--seed", str(self.seed), "--shard", str(self.k), "--shards", str(self.n),
             "--cases", str(self.cases), "--first", str(self.first), "--out", out]
        if self.thorough:
            c.append("--thorough")
        if only is not None:
            c += ["--only", str(only)]
        return c, out

    def spawn(self, only=None):
        c, out = self.cmd(only)
        self.run_no += 1
        err = open(out + ".err", "wb")
        env = dict(os.environ, **ENV, LC_ALL="C.UTF-8", VERIF_SCRATCH=f"{self.dir}/scratch-{self.label}-{self.k}",
                   VERIF_REPL=self.exe + "-repl")
        return subprocess.Popen(c, stdout=err, stderr=err, env=env, start_new_session=True, cwd=self.dir), out

    def wait(self, p, out, limit):
        """limit: seconds without progress."""
        last, t0 = None, time.time()
        while True:
            try:
                return p.wait(timeout=0.2)
            except subprocess.TimeoutExpired:
                pass
            rss = memory(p.pid)
            Shard.peak = max(Shard.peak, rss)
            if rss > MEMORY_MB:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                with open(out + ".err", "a") as f:
                    f.write(f"\nMEMORY: more than {MEMORY_MB} MB in use\n")
                return MEMORY_RC
            idx, done, _ = read_cur(out + ".cur")
            if (idx, done) != last:
                last, t0 = (idx, done), time.time()
            elif time.time() - t0 > limit:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return None

    def run(self):
        while True:
            p, out = self.spawn()
            rc = self.wait(p, out, self.hang)
            err = open(out + ".err", errors="replace").read()
            idx, done, text = read_cur(out + ".cur")
            if rc == 0 and os.path.exists(out + ".stats"):
                self.collect(out)
                return
            if rc == 2 and "HARNESS" in err:
                self.error = err[:3000]
                return
            if rc is None:
                # No progress. Slow machine, or does this one case not end?
                p, o2 = self.spawn(only=idx)
                rc2 = self.wait(p, o2, 2 * self.hang)
                if rc2 is None:
                    self.crashes.append({"key": "hang", "what": f"no result within {2 * self.hang} s", "index": idx, "input": text})
                    return  # the next ones would take as long
                elif rc2 != 0:
                    e2 = open(o2 + ".err", errors="replace").read()
                    self.crashes.append({"key": crash_key(e2), "what": crash_summary(rc2, e2), "index": idx, "input": text})
                else:
                    self.slow += 1
                    self.collect(o2)
            else:
                self.crashes.append({"key": crash_key(err), "what": crash_summary(rc, err), "index": idx, "input": text})
            if len(self.crashes) >= 3 or self.slow > 3:
                return
            self.first = idx + 1

    def collect(self, out):
        s = json.load(open(out + ".stats"))
        h = b""
        if os.path.exists(out + ".hashes"):
            h = open(out + ".hashes", "rb").read()
        s["hashes"] = h
        self.stats.append(s)


def known_findings():
    r = []
    path = f"{HERE}/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the toolchain is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    if tier == "quick":
        SAN["asan"] = SAN["asan"] + QUICK
    if a.selftest:
        for tool in ("clang++",):
            if not shutil.which(tool):
                die(f"{tool} is missing")
        print("toolchain ok;", len(CHECKS), "checks")
        return 0
    if a.id not in CHECKS:
        die(f"no such check: {a.id}")
    check = CHECKS[a.id]
    t0 = time.time()
    work = f"{HERE}/build/{a.id}-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    try:
        return run_check(a, check, tier, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run_check(a, check, tier, work, t0):
    b = Build(work)
    if a.replay:
        r = json.load(open(a.replay))
        st = check["stages"][r["stage"]]
        exe = b.stage(st)
        env = dict(os.environ, **ENV, LC_ALL="C.UTF-8", VERIF_SCRATCH=f"{work}/scratch", VERIF_REPL=exe + "-repl")
        cmd = [exe, "--seed", str(r["seed"]), "--only", str(r["index"]), "--cases", str(r["cases"]), "-v"]
        if r["tier"] == "thorough":
            cmd.append("--thorough")
        p = subprocess.run(cmd, env=env, cwd=work)
        print("replay exit code", p.returncode)
        return 1 if p.returncode else 0

    counters, samples, hashes, viol, evals = {}, [], set(), [], 0
    slow, build_s = 0, 0.0
    for st in check["stages"]:
        b.jobs(st)
    for si, st in enumerate(check["stages"]):
        tb = time.time()
        exe = b.stage(st)
        build_s += time.time() - tb
        cases = int(st["cases"][0 if tier == "quick" else 1] * a.scale) or 1
        n = min(st.get("shards", JOBS), cases)
        shards = [Shard(exe, st, [], k, n, cases, a.seed, tier == "thorough", work, f"st{si}") for k in range(n)]
        with cf.ThreadPoolExecutor(n) as pool:
            list(pool.map(lambda s: s.run(), shards))
        for s in shards:
            if s.error:
                die(f"harness failed: {s.error}")
            slow += s.slow
            for c in s.crashes:
                viol.append(dict(c, stage=si, cases=cases))
            for s_ in s.stats:
                evals += s_["evaluations"]
                for k, v in s_["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += s_["samples"][:1]
                for i in range(0, len(s_["hashes"]), 8):
                    hashes.add((si, s_["hashes"][i:i + 8]))
                for v in s_["violations"]:
                    viol.append(dict(v, stage=si, cases=cases))

    known, new = [], []
    kf = known_findings()
    for v in viol:
        k = next((x for x in kf if x[0] == a.id and x[1] == v["key"]), None)
        (known if k else new).append((v, k))
    for line in sorted({f"KNOWN-FINDING: property={a.id} {k[2]}" for _, k in known}):
        print(line)

    short = [f"{k}: {counters.get(k, 0)} < {v}" for k, v in check.get("require", {}).items()
             if counters.get(k, 0) < v * min(1.0, a.scale)]
    ev = {
        "property": a.id, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": check["rule"],
            "samples": samples[:8] or ["(none: every case failed)"],
            "observed": dict(sorted(counters.items())),
            "required_observations": check.get("require", {}),
            "sanitizers": sorted({st.get("san", "asan") for st in check["stages"]}),
            "slow_cases": slow, "build_s": round(build_s, 1),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if check.get("exhaustive_note"):
        ev["coverage"]["exhaustive_part"] = check["exhaustive_note"]
    json.dump(ev, open(f"{HERE}/evidence/{a.id}.json", "w"), indent=1)

    if new:
        for n, (v, _) in enumerate(new[:10]):
            path = f"{HERE}/evidence/{a.id}-replay-{n}.json"
            json.dump(dict(v, property=a.id, seed=a.seed, tier=tier), open(path, "w"), indent=1)
            if n == 0:
                print(f"VIOLATION property={a.id} replay={path}")
            print(f"  [{v['key']}] case {v['index']} input: {v['input'][:400]}\n    {v['what'][:1200]}")
        return 1
    if short:
        die("required observations missing: " + "; ".join(short), 3)
    print(f"OK property={a.id} evaluations={evals} distinct={len(hashes)} peak={Shard.peak}MB wall={time.time() - t0:.1f}s "
          f"(build {build_s:.1f}s) observed={json.dumps(dict(sorted(counters.items())))[:800]}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
