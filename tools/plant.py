#!/usr/bin/env python3
"""Turns a description of a planted bug into seeded/<id>/ and confirms it in a scratch copy of /repo.

    plant.py FILE.py...     each file defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, kind, demo)]

kind "token": the demo is linked with token.cpp and exception-handler.cpp only; "lib": with the whole library
(stand-ins for sfl and bitsery are copied next to the demo); "repl": builds the repl, demo is a shell fragment.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''#!/bin/bash
# exit 0: the property holds for the sources in the current directory
set -u
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
'''
TOKEN = HEAD + '''g++ -std=c++20 -O1 %FLAGS% -I"$R/include" "$H/demo.cpp" "$R/src/token.cpp" "$R/src/exception-handler.cpp" -o "$T/demo" -pthread || exit 3
timeout 60 "$T/demo"
'''
LIB = HEAD + '''F="-std=c++20 -O1 %FLAGS% -w -DSIMFIL_WITH_MODEL_JSON -DFMT_HEADER_ONLY -include $H/shim/prelude.h -I$R/include -I$H/shim"
for f in "$R"/src/*.cpp "$R"/src/model/*.cpp "$H"/demo.cpp; do
  g++ $F -c "$f" -o "$T/$(basename "$f").o" &
done
wait
g++ %FLAGS% "$T"/*.o -o "$T/demo" -pthread || exit 3
cd "$T"
timeout 120 "$T/demo"
'''
REPL = HEAD + '''F="-std=c++20 -O1 %FLAGS% -w -DSIMFIL_WITH_MODEL_JSON -DFMT_HEADER_ONLY -include $H/shim/prelude.h -I$R/include -I$H/shim"
for f in "$R"/src/*.cpp "$R"/src/model/*.cpp "$R"/repl/repl.cpp; do
  g++ $F -c "$f" -o "$T/$(basename "$f").o" &
done
wait
g++ %FLAGS% "$T"/*.o -o "$T/repl" -pthread || exit 3
cd "$T"
# Prints the results of the queries and commands read from stdin.
results() { timeout 60 ./repl "$@" | sed -n '/Result:/,/Expression:/p' | grep '^  ' ; }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def tests_pass(copy):
    """The stable tests, from the scratch copy."""
    with tempfile.TemporaryDirectory() as t:
        srcs = [f"{copy}/test/token.cpp", f"{copy}/src/token.cpp", f"{copy}/src/exception-handler.cpp"]
        r = sh(["g++", "-std=c++20", "-w", f"-I{copy}/include", *srcs, "-o", f"{t}/t", "-lCatch2Main", "-lCatch2"])
        if r.returncode:
            return "does not build: " + r.stderr[-1500:]
        r = sh([f"{t}/t"])
        return "" if r.returncode == 0 else "tests fail: " + r.stdout[-1500:]


def upstream_pass(copy):
    """The rest of the upstream tests, which the pinned build cannot run (information only)."""
    with tempfile.TemporaryDirectory() as t:
        flags = ["-std=c++20", "-w", "-O1", "-DSIMFIL_WITH_MODEL_JSON", "-DFMT_HEADER_ONLY", "-include", f"{HERE}/shim/prelude.h", f"-I{copy}/include", f"-I{HERE}/shim"]
        srcs = [f"{copy}/test/{n}.cpp" for n in ("arena", "complex", "simfil", "token", "performance")]
        srcs += [os.path.join(d, f) for d in (f"{copy}/src", f"{copy}/src/model") for f in os.listdir(d) if f.endswith(".cpp")]
        ps = [subprocess.Popen(["ccache", "clang++", *flags, "-c", s, "-o", f"{t}/{i}.o"], stderr=subprocess.DEVNULL) for i, s in enumerate(srcs)]
        if any([p.wait() for p in ps]):
            return "does not build"
        r = sh(["clang++", *[f"{t}/{i}.o" for i in range(len(srcs))], "-o", f"{t}/t", "-lCatch2Main", "-lCatch2"])
        if r.returncode:
            return "does not link: " + r.stderr[-300:]
        r = sh([f"{t}/t", "~*erformance*"])
        return "pass" if r.returncode == 0 else "fail: " + r.stdout.strip().splitlines()[-2]


def plant(b):
    copy = tempfile.mkdtemp(prefix="plant-")
    out = f"{HERE}/seeded/{b['id']}"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        for file, old, new in [(e if len(e) == 3 else (b["file"], *e)) for e in b["edits"]]:
            s = open(f"{copy}/{file}").read()
            if s.count(old) != 1:
                return f"'{old[:60]}' occurs {s.count(old)} times in {file}"
            open(f"{copy}/{file}", "w").write(s.replace(old, new))
        patch = sh(["git", "-C", copy, "diff"]).stdout
        e = tests_pass(copy)
        if e:
            return e
        d = tempfile.mkdtemp(prefix="plant-demo-")
        tmpl = {"token": TOKEN, "lib": LIB, "repl": REPL}[b["kind"]].replace("%FLAGS%", b.get("flags", ""))
        if b["kind"] == "repl":
            tmpl += b["demo"].lstrip()
        else:
            open(f"{d}/demo.cpp", "w").write(b["demo"].lstrip())
        open(f"{d}/demo.sh", "w").write(tmpl)
        if b["kind"] != "token":
            shutil.copytree(f"{HERE}/shim", f"{d}/shim")
        good = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
        if good.returncode:
            return f"demo fails on the unchanged tree ({good.returncode}): {good.stdout[-800:]} {good.stderr[-1500:]}"
        bad = sh(["bash", f"{d}/demo.sh"], cwd=copy)
        if bad.returncode in (0, 3):
            return f"demo exits {bad.returncode} with the change: {bad.stdout[-500:]} {bad.stderr[-1500:]}"
        up = upstream_pass(copy)
        open(f"{d}/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(d, out)
        os.chmod(out, 0o755)
        os.chmod(f"{out}/demo.sh", 0o755)
        # Does the check catch it?
        r = sh(["python3", f"{HERE}/run.py", b["property"]], env=dict(os.environ, VERIF_REPO=copy))
        got = {0: "MISSED", 1: "caught"}.get(r.returncode, f"check exits {r.returncode}")
        line = (r.stdout.strip().splitlines() or [""])
        return f"ok; {got}; upstream suite: {up}; {(line[1] if len(line) > 1 else line[0])[:160]}"
    finally:
        shutil.rmtree(copy, ignore_errors=True)


for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        print(b["id"], b["property"], plant(b), flush=True)
