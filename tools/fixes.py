#!/usr/bin/env python3
"""Lists the fix: commits of /repo (hash by subject) with the property each belongs to; rewrites the fixed entries of known_findings.jsonl."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.split("\n")
out = []
kf = os.path.join(ROOT, "known_findings.jsonl")
for l in open(kf):
    if l.strip():
        d = json.loads(l)
        if d.get("status") != "fixed": out.append(l.rstrip("\n"))
miss = []
for l in reversed(log):
    if "\tfix: " not in l: continue
    h, s = l.split("\t", 1); s = s[5:]
    if s not in M: miss.append((h, s)); continue
    pr, what = M[s]
    out.append(json.dumps({"status": "fixed", "property": pr, "commit": h, "entry": "fixed: property=%s %s %s" % (pr, h, what)}))
open(kf, "w").write("\n".join(out) + "\n" if out else "")
if miss: print("no entry in fixes.json for:"); [print(" ", *m) for m in miss]
print(len(out), "entries")
