#!/usr/bin/env python3
"""Writes MANIFEST.json. Every property registered in dst/harness is claimed."""
import json, re, glob
here = __file__.rsplit('/tools/', 1)[0]
claimed = set()
for f in glob.glob(here + '/dst/harness/*.go'):
    claimed |= set(re.findall(r'register\(&Prop\{ID: "(C\d\d)"', open(f).read()))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults; real packages of /repo on simulated scheduler, clock and network; oracles over every history; minimised, exactly replaying failures',
            'level': 'exploration',
            'level_note': 'Seeded random exploration: it covers the runs it made (counts, faults and distinct interleavings are in the evidence), not all executions. Preemption is between statements; the memcached peers are byte-level models compared with memcached 1.6.24.',
        })
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
open(here + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
