#!/usr/bin/env python3
"""Developer loop: dev.py PROP N [BASE] [filter k=v ...] - runs N seeds over 8 processes, prints violations by class and maxima."""
import json, subprocess, sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
prop, n = sys.argv[1], int(sys.argv[2])
base = sys.argv[3] if len(sys.argv) > 3 else "1"
V = build.VERIF
chk = json.load(open(V + "/sim/checks.json"))
har = chk.get(prop, {}).get("harness") or os.environ.get("HARNESS", "h_vio")
b = build.build([har], quiet=True)[har]
ps = [subprocess.Popen([b, "batch", prop, base, str(i), str((n + 7 - i) // 8), "8"], stdout=open(f"/tmp/dev.{os.getpid()}.{i}", "w")) for i in range(8)]
mx, st, cls, rows, nt, states = {}, collections.Counter(), collections.defaultdict(list), 0, 0, set()
for i, p in enumerate(ps):
    p.wait()
    f = f"/tmp/dev.{os.getpid()}.{i}"
    lines = open(f).read().splitlines()
    os.remove(f)
    for l in lines:
        try: r = json.loads(l)
        except Exception: print("??", l[:300]); continue
        rows += 1; nt += r["nontrivial"]; states |= set(r["states"])
        for k, v in r["max"].items():
            if k not in mx or v > mx[k][0]: mx[k] = (v, r["seed"])
        for k, v in r["stats"].items(): st[k] += v
        if r["viol"]: cls[r["cls"]].append((r["seed"], r["msg"]))
print(rows, "runs", nt, "nontrivial", len(states), "states", dict(st))
for k, v in sorted(mx.items()): print("  max", k, v)
for k, v in sorted(cls.items()):
    print("VIOL", k, len(v))
    for s in v[:int(os.environ.get("SHOW", "4"))]: print("    ", s[0], s[1][:300])
