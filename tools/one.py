#!/usr/bin/env python3
"""Run single harness entries on the last built IR and print a summary (development aid)."""
import json, subprocess, sys, os, concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ll, args = sys.argv[1], sys.argv[2:]
def one(a):
    # a = entry[,k=v...][@extra flags separated by +]
    a, _, fl = a.partition("@")
    e, *ps = a.split(",")
    out = "/tmp/one-%s.json" % a.replace(",", "_").replace("=", "")
    if os.path.exists(out): os.unlink(out)
    c = [R + "/engine/target/release/llsym", "--ll", R + "/build/%s.ll" % ll, "--entry", e, "--out", out, "--max-secs", os.environ.get("SECS", "120")]
    for p in ps: c += ["--param", p]
    if fl: c += fl.split("+")
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        d = json.load(open(out))
    except Exception as x:
        return a + " FAILED " + r.stdout.decode()[-1500:]
    s = d["solver"]
    t = "%s wall=%.1f paths=%d steps=%d q=%d sat=%d unsat=%d unk=%d cut=%d guided=%d lem=%d st=%.1f max=%.1f out=%s cov=%s" % (a, d["wall_s"], d["paths"], d["steps"], s["queries"], s["sat"], s["unsat"], s["unknown"], s["cut_unsat"], s["guided"], s["lemmas"], s["time_s"], s["max_time_s"], d["outcomes"], d["covers"])
    for k, v in d["inconclusive"].items(): t += "\n   INCON %s (%d)" % (k, v)
    for v in d["violations"]: t += "\n   VIOL %s %s" % (v["kind"], v["msg"]) + ("\n      %s" % v["inputs"] if os.environ.get("IN") else "")
    return t
with cf.ThreadPoolExecutor(7) as ex:
    for x in ex.map(one, args): print(x[:2500], flush=True)
