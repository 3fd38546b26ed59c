#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection'
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
    P[-1]['_'] = (note, technique, claimed, reason)


exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: v for k, v in p.items() if k != '_'}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    note, tech, claimed, reason = p['_']
    if claimed:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 sim/check.py %s' % p['id'], 'thorough_cmd': 'python3 sim/check.py %s --thorough' % p['id'],
                       'technique': DST + ': ' + tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': reason})
json.dump({'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are link-time (libysim, preloaded: threads, OpenMP runtime, clocks, file I/O; an mpi.h/mpi4py of our own) plus compiler instrumentation of memory accesses. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks')
