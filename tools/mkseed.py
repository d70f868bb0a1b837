#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMO_CPP_FILE [more: FILE OLD NEW]... : creates /verif/seeded/ID
(patch by replacing text in /repo's HEAD version of FILE; the demo is compiled against ./include)."""
import difflib, json, os, subprocess, sys, stat
NFIX = int(subprocess.check_output(['git','-C','/repo','rev-list','--count','HEAD'],text=True)) - 1
def make(id, prop, edits, needs, breaks, demo, flags=""):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in edits:
        src = files.get(f, (None, None))[1] or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode()
        orig = files[f][0] if f in files else src
        assert src.count(old) == 1, (id, f, src.count(old), old)
        files[f] = (orig, src.replace(old, new))
        base = set(subprocess.check_output(["git", "-C", "/repo", "show", "HEAD~%d:%s" % (NFIX, f)], text=True).splitlines())
        for l in difflib.ndiff(old.splitlines(), new.splitlines()):
            if l.startswith("- ") and l[2:] and not any(l[2:].strip() in b for b in base):
                print(id, "NOT ORIGINAL:", l)
    for f, (o, n) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(o.split("\n") and [x + "\n" for x in o.split("\n")[:-1]] + ([o.split("\n")[-1]] if o.split("\n")[-1] else []), [x + "\n" for x in n.split("\n")[:-1]] + ([n.split("\n")[-1]] if n.split("\n")[-1] else []), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", newline="").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: behaves as stated; non-zero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all %s -Iinclude "$D/demo.cpp" -o "$T/demo" >"$T/log" 2>&1 || { cat "$T/log"; exit 98; }
cd "$T" && timeout 60 ./demo
""" % flags)
    os.chmod(d + "/demo.sh", 0o755)
