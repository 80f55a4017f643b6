#!/usr/bin/env python3
"""Lists statements of gm that no check reached in a sample of its runs. usage: unreached.py [RUNS]"""
import json, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
B = "/verif/.build/"
frac = float(sys.argv[1]) if len(sys.argv) > 1 else 0.1
S = json.load(open(B + "ov/sites.json"))["sites"]
runs = dict(C01=600, C02=1500, C03=800, C04=3000, C05=600, C06=3000, C07=2000, C08=20000, C09=3000, C10=2000, C11=2000, C12=2000, C13=30000, C14=60000)
jobs = []
for p, n in runs.items():
    step = n // 8
    jobs += [(p, i, i + step) for i in range(0, n, step)]
hit = {}
def f(j):
    r = subprocess.run([B + "gmsim", "worker", j[0], "quick", "1", str(j[1]), str(j[2]), "0"], capture_output=True, text=True)
    for l in r.stdout.split("\n"):
        if '"sites"' in l:
            return j[0], json.loads(l)["sites"]
    return j[0], []
with ThreadPoolExecutor(8) as ex:
    for p, s in ex.map(f, jobs):
        for x in s:
            hit.setdefault(x, set()).add(p)
un = [s for s in S if s["id"] not in hit]
print(len(S), "statements,", len(un), "not reached")
for s in un:
    print(s["pos"], s["func"])
