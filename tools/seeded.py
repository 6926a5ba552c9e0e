#!/usr/bin/env python3
"""Runs checks against the planted bugs in seeded/ (not used by any check).

  seeded.py catch [-a] [IDS...]   apply each bug to /repo, run its property's quick check (-a: all
                                  session/message/queue checks), undo it; results in seeded/RESULTS.json
  seeded.py table                 rewrites the table at the end of DESIGN.md from the results
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, RES = f"{V}/seeded", f"{V}/seeded/RESULTS.json"

def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def ids():
    return sorted(d for d in os.listdir(S) if os.path.isfile(f"{S}/{d}/patch.diff"))

def meta(i):
    return json.load(open(f"{S}/{i}/meta.json"))

def load():
    return json.load(open(RES)) if os.path.exists(RES) else {}

def catch(want, everything):
    props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
    for i in want or ids():
        if sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout.strip():
            sys.exit("/repo is not clean")
        if sh("git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff").returncode:
            print(i, "DOES NOT APPLY"); continue
        own = meta(i)["property"]
        try:
            for p in ([own] + [q for q in props if q not in (own, "U01")] if everything else [own]):
                r = sh("python3", f"{V}/check.py", p, "quick", env={**os.environ, "VERIF_SEED": "1"})
                hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                v = load(); v.setdefault(i, {})[p] = "caught" if hit else "quiet" if r.returncode == 0 else "broken"
                json.dump(v, open(RES, "w"), indent=1, sort_keys=True)
                if p == own or hit:
                    print(i, p, v[i][p], next((l for l in r.stdout.splitlines() if not l.startswith("VIOL")), "")[:150] if hit else r.stdout[-400:] if r.returncode != 0 else "", flush=True)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")

def table():
    v = load()
    rows = ["| planted bug | property | needs | own check | also caught by |", "|---|---|---|---|---|"]
    for i in ids():
        m, r = meta(i), v.get(i, {})
        also = " ".join(sorted(p for p, x in r.items() if x == "caught" and p != m["property"]))
        rows.append(f"| {i} | {m['property']} | {m['needs']} | {r.get(m['property'], '?')} | {also or '-'} |")
    f = f"{V}/DESIGN.md"; t = open(f).read()
    a, b = "<!-- planted bugs -->", "<!-- end planted bugs -->"
    assert a in t and b in t
    t = t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
    open(f, "w").write(t)

if sys.argv[1] == "catch":
    a = [x for x in sys.argv[2:] if x != "-a"]
    catch(a, "-a" in sys.argv)
elif sys.argv[1] == "table":
    table()
