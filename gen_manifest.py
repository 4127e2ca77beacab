#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, subprocess, checks
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
hooks=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' hook: ' in l]
m=dict(version=1,setup_cmd='python3 run.py setup',
  hooks=dict(guard='GTL_VERIF',enable='-DGTL_VERIF',source_commits=hooks),
  checks=[dict(property=p,quick_cmd=f'python3 run.py {p} --tier quick',thorough_cmd=f'python3 run.py {p} --tier thorough',
     technique=checks.CHECKS[p].get('technique','contract-based deductive verification: harness contracts on code extracted from /repo on every run (clang IR -> C), obligations discharged by CBMC'),
     level=checks.CHECKS[p].get('level','proof'),level_note=checks.CHECKS[p].get('note','')) for p in props if p in checks.CHECKS],
  not_applicable=[dict(property=p,reason=checks.NA.get(p,'check not built yet')) for p in props if p not in checks.CHECKS])
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
