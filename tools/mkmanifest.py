#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property with a monitor in harness/."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
NOTES = json.load(open(os.path.join(here, 'notes.json')))
NA = {}
props = [json.loads(l) for l in open(os.path.join(verif, 'properties.jsonl'))]
src = ''.join(open(os.path.join(verif, 'harness', f)).read() for f in sorted(os.listdir(os.path.join(verif, 'harness'))) if f.endswith('.go'))
have = set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"', src))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "runtime monitoring: reference-model monitor over generated workloads"),
            "level": "exploration",
            "level_note": n.get("note", "Held on the executions produced; says nothing about inputs the workload never drives."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no monitor yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks were needed in /repo: every monitor observes the exported API, the ledgers it returns, the standard logger and the commands' output.",
}
json.dump(m, open(os.path.join(verif, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(verif, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
