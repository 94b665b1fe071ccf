"""Shares the quick budget of each check among its families: reads the times in evidence/, writes vlib/effort.json."""
import glob, json, math, os
TOTAL, MOST, LONGEST = 220, 5, 20      # seconds of processor per check, largest factor, seconds of one process
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, 'vlib', 'effort.json')
old = json.load(open(path)) if os.path.exists(path) else {}
out = {}
for e in sorted(glob.glob(os.path.join(here, 'evidence', 'C*.json'))):
    d = json.load(open(e))
    # seconds of each family with factor 1 (a second goes in starting a process)
    t = {r['family']: max((r['wall_s'] - 0.5) / old.get(f"{d['property']}.{r['family']}", [1])[0], 0.05)
         for r in d['coverage']['families'] if r['evaluations'] > 1}
    lo, hi = 0.0, 1000.0                # every family gets the same time, within its limits
    for _ in range(60):
        share = (lo + hi) / 2
        if sum(v * min(MOST, max(1, share / v)) for v in t.values()) > TOTAL:
            hi = share
        else:
            lo = share
    for f, v in t.items():
        k = round(min(MOST, max(1, lo / v)), 1)
        out[f"{d['property']}.{f}"] = [k, min(8, math.ceil(v * k / LONGEST)), round(v * k, 1)]
json.dump(out, open(path, 'w'), indent=0, sort_keys=True)
