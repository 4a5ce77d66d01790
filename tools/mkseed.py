#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a JSON spec on stdin {needs, breaks, edits:[[file, old, new], ...], demo: C++ text or {file: text}, sh?}
and writes /verif/seeded/ID."""
import json, os, subprocess, sys, tempfile
def mk(id, prop, needs, breaks, edits, demo, flags="", sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = ""
    w = tempfile.mkdtemp(prefix="mkseed.")
    for f in sorted(set(e[0] for e in edits)):
        s = o = open("/repo/" + f).read()
        for (g, old, new) in edits:
            if g == f:
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
        for side, t in (("a", o), ("b", s)):
            p = os.path.join(w, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
        diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or """#!/bin/bash
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -DCURRENT_CI -w -O0 -pthread %s -I. -I"$H" "$H/demo.cc" -o "$D/demo" || exit 3
cd "$D" && timeout 120 ./demo
""" % flags)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seed", id)
