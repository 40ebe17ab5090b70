#!/usr/bin/env python3
"""Prints a table of what the last run of each check covered, from evidence/*.json."""
import glob, json
print("| id | tier | evaluations | distinct non-trivial | exhaustive | seconds |\n|---|---|---:|---:|---|---:|")
for f in sorted(glob.glob("evidence/C*.json")):
    d = json.load(open(f))
    c = d["coverage"]
    print(f"| {f[9:12]} | {d.get('tier','')} | {c['evaluations']:,} | {c['distinct_nontrivial']:,} | {'yes' if c.get('exhaustive') else ''} | {round(d.get('seconds') or d.get('duration_s') or d.get('wall_s') or 0)} |")
