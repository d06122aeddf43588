#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS [nth] [FILE OLD NEW nth]... : make seeded/ID/patch.diff + meta.json
(the demonstration is written by hand beside it)"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, f, old, new, needs, breaks = sys.argv[1:8]
rest = sys.argv[8:]
edits = [(f, old, new, int(rest[0]) if rest else 1)]
rest = rest[1:]
while rest:
    edits.append((rest[0], rest[1], rest[2], int(rest[3])))
    rest = rest[4:]
T = "/tmp/mkseed.%d" % os.getpid()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", T, "HEAD"])
try:
    for f, old, new, n in edits:
        p = os.path.join(T, f)
        s = open(p).read()
        i = -1
        for k in range(n):
            i = s.find(old, i + 1)
            if i < 0:
                sys.exit("pattern not found: " + old)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    d = subprocess.check_output(["git", "-C", T, "diff"], text=True)
    S = os.path.join(V, "seeded", id)
    os.makedirs(S, exist_ok=True)
    open(os.path.join(S, "patch.diff"), "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(S, "meta.json"), "w"), indent=1)
    print(d)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", T])
