#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a specification file, confirming each planted bug in a scratch copy (see DESIGN.md).

usage: seed.py SPEC.py [--check] [--seeds 1,2] [ID...]
SPEC.py defines BUGS = {id: dict(prop=, needs=, what=, edits=[(file, old, new)...], demo=C++ source, flags=extra)}.
Scratch copy: $SEED_REPO (default /tmp/bugrepo), whose build and test scripts lie in $SEED_VP (default /tmp/bugvp).
"""
import json, os, subprocess, sys, runpy
REPO = os.environ.get("SEED_REPO", "/tmp/bugrepo")
VP = os.environ.get("SEED_VP", "/tmp/bugvp")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = """#!/bin/bash
# Compiles demo.cpp with the sources in the current directory and runs it: 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g -O0 %s -DCOIL_CONFIG_CATCH_EXCEPTIONS=%d -Iinclude src/*.cpp "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 98
timeout 120 "$tmp/demo"
"""

REJECT_SH = """#!/bin/bash
# demo.cpp must compile, wrong.cpp must not.
here=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -fsyntax-only -Iinclude "$here/demo.cpp" || exit 99
if g++ -std=c++17 -fsyntax-only -Iinclude "$here/wrong.cpp" 2>/dev/null; then
    echo "wrong.cpp compiles" >&2
    exit 1
fi
exit 0
"""

PRELUDE = """#include "coil/Coil.h"
#include "coil/StdLibCompat.h"

#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>

#define CHECK(x)                                                   \\
    do                                                             \\
    {                                                              \\
        if (!(x))                                                  \\
        {                                                          \\
            fprintf(stderr, "line %d: wrong: %s\\n", __LINE__, #x); \\
            exit(1);                                               \\
        }                                                          \\
    } while (0)

static std::string str(coil::StringView v)
{
    return std::string(v.data(), v.length());
}
"""

def sh(cmd, cwd=REPO, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)

def main():
    args = sys.argv[1:]
    check = "--check" in args
    seeds = "1"
    if "--seeds" in args:
        i = args.index("--seeds"); seeds = args[i + 1]; del args[i:i + 2]
    args = [a for a in args if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    ids = args[1:] or list(bugs)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for bug in ids:
        b = bugs[bug]
        sh("git checkout -q -- .")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bug, "EDIT DOES NOT MATCH", f, s.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        patch = sh("git diff").stdout
        r = sh(f"bash {VP}/build.sh")
        if r.returncode:
            print(bug, "DOES NOT BUILD", (r.stdout + r.stderr)[-1500:]); continue
        sh(f"bash {VP}/test.sh {VP}/out.json")
        passed = set(json.load(open(f"{VP}/out.json"))["passed"])
        failed = [t for t in stable if t not in passed]
        if failed:
            print(bug, "TESTS FAIL", len(failed), failed[:6]); continue
        d = os.path.join(HERE, "seeded", bug)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(PRELUDE + "\n" + b["demo"].strip() + "\n")
        if "wrong" in b:
            open(d + "/wrong.cpp", "w").write(PRELUDE + "\n" + b["wrong"].strip() + "\n")
        open(d + "/demo.sh", "w").write(REJECT_SH if "wrong" in b else DEMO_SH % (b.get("flags", ""), b.get("catch", 1)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        bad = sh(f"bash {d}/demo.sh")
        good = sh(f"bash {d}/demo.sh", cwd=os.environ.get("SEED_CLEAN", "/repo"))
        if good.returncode or not bad.returncode or bad.returncode == 99 or (bad.returncode == 98) != b.get("compile", False):
            print(bug, "DEMO WRONG clean", good.returncode, (good.stdout + good.stderr)[-800:], "patched", bad.returncode, (bad.stdout+bad.stderr)[-800:])
            continue
        print(bug, "valid", "(" + (bad.stderr.strip().splitlines() or ["rc %d" % bad.returncode])[0][:100] + ")", flush=True)
        if check:
            for seed in seeds.split(","):
                r = sh(f"COIL_REPO={REPO} timeout 900 python3 check.py {b['prop']} --seed {seed}", cwd=HERE)
                lines = [l for l in r.stdout.splitlines() if l.strip()]
                print("   ", b["prop"], "CAUGHT" if r.returncode == 1 and any("VIOLATION" in l for l in lines) else "MISSED rc %d" % r.returncode, " | ".join(lines[-3:])[:300], flush=True)
        sh("git checkout -q -- .")

main()
