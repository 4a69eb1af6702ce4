#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the list of claimed checks (harness/checks/Cxx.py) and properties.jsonl."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'harness', 'checks', i + '.py')
    if os.path.exists(f):
        doc = open(f).read()
        m = re.match(r'"""(.*?)"""', doc, re.S)
        note = ' '.join(m.group(1).split()) if m else 'TLC checks the design exhaustively within the bounds of its cfg; every recorded execution of the real code is judged by the same specification.'
        checks.append(dict(property=i, quick_cmd=f'python3 harness/check.py {i} quick', thorough_cmd=f'python3 harness/check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique='TLA+ specification model-checked with TLC; conformance of recorded executions of the real code decided by TLC',
                           level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction; not claimed yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the public Python API, real MPI runs and the output files expose the abstract state.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
