#!/usr/bin/env python3
"""Store a planted bug: seed_add.py SPEC.py
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++
source of demo.cc, or None) or DEMO_SH (whole script)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
ORIG = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds for the case in demo.cc
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
repo=$(pwd)
g++ -std=gnu++17 -O1 -w -I"$repo/_build/inc" "$here/demo.cc" -o "$d/demo" \\
    -L"$repo/_build" -lusml -Wl,-rpath,"$repo/_build" -lnetcdf_c++4 -lnetcdf \\
    -lboost_system -pthread || exit 3
cd "$d" && timeout 250 ./demo
"""
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"]).strip()
    d = os.path.join(ROOT, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in s["EDITS"]:
            p = os.path.join(REPO, f); t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        for f, a, b in s["EDITS"]:  # lines of the original repository only
            t = subprocess.check_output(["git", "-C", "/repo", "show", ORIG + ":" + f], text=True)
            gone = [l for l in a.split("\n") if l.strip() and l not in b.split("\n")]
            if any(l not in t for l in gone): print(s["ID"], "changes lines that are not original:", [l for l in gone if l not in t])
        diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    if s.get("DEMO"):
        open(d + "/demo.cc", "w").write(s["DEMO"].lstrip("\n"))
    for n, t in s.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(s.get("DEMO_SH", DEMO_SH))
    os.chmod(d + "/demo.sh", 0o755)
    print("stored", s["ID"])
