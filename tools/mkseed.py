#!/usr/bin/env python3
"""mkseed.py SPEC.py : plant bugs.  SPEC.py defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)] where demo is C code
(or a .c body); the patch is made by replacing `old` by `new` once in /repo/liboptv/src/<file>, in a scratch copy of the file."""
import sys, os, json, subprocess, tempfile
src = sys.argv[1]; ns = {}
exec(open(src).read(), ns)
SH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -fsanitize=address -fno-omit-frame-pointer -I liboptv/include -o "$T/demo" "$D/demo.c" liboptv/src/*.c -lm || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 ./demo > out.txt; r=$?
tail -5 out.txt
exit $r
'''
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/w"], check=True)
        for f, o, n in edits:
            p = t + "/w/liboptv/src/" + f
            x = open(p, newline="").read()
            if "\r\n" in x: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            assert x.count(o) == 1, (s["id"], f, x.count(o), o)
            open(p, "w", newline="").write(x.replace(o, n))
        diff = subprocess.run(["git", "-C", t + "/w", "diff"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)

    open(d + "/demo.c", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(s.get("sh", SH)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"], "ok")
