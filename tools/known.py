#!/usr/bin/env python3
"""Rewrites the replay files of the open known findings from a fresh search (after a change of a world's choices)."""
import json, os, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build as B, check as C
for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
    if k.get("status") != "open":
        continue
    path = os.path.join(V, k["replay"])
    r = json.load(open(path))
    exe = B.build(r["variant"])
    tmp = tempfile.mkdtemp()
    C.ENV["HBSIM_TMP"] = tmp
    for s in range(0, 400000, 1000):
        p = C.Proc(exe, ["batch", r["world"], str(s), "1000"], r["opts"], 120)
        if p.viol and p.viol[2] == k["class"]:
            break
    else:
        print("NOT FOUND", k["what"]); continue
    C.Proc(exe, ["trace", r["world"], str(p.viol[0]), tmp + "/rec"], r["opts"], 120)
    best, mv = C.Minimiser(exe, r["world"], tuple(r["opts"]), k["class"], 120, tmp).minimise(C.parse_rec(tmp + "/rec")[0], time.time() + 40)
    r.update({"seed": p.viol[0], "choices": best, "class": mv[2], "message": mv[3]})
    json.dump(r, open(path, "w"))
    print("ok", len(best), mv[3])
