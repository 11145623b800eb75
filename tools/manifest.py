#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from the table below and the scenario registry"""
import importlib, json, os, pkgutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
from pyai import harness as H, lint as L
for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module('checks.' + m.name)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
AI = 'abstract interpretation of the parsed sources (exact transfer functions over finite-table, bit-provenance and affine domains, trace partitioning, no solver)'
NA = {
    'C50': 'Quantifies over every corrupted byte string; the decoders deliberately let many builtin exceptions (IndexError, StopIteration, UnicodeDecodeError, KeyError) escape and an exact exception-effect analysis needs run-time values of lengths and indices that no sound static bound in reach provides. C29, C41 and C43 decide the parts that are static.',
    'C51': 'The package has no locks, threads or documented thread-safety contract; the codec registry and instances are plain shared objects, so a static lock or ownership analysis has nothing to check against.',
    'C52': 'Asymptotic time needs amortised cost bounds of list.pop(0), string concatenation and re-reading previews over run-time lengths; no sound static bound in reach. C41 decides progress of each loop instead.',
}
out = []
na = []
for p in props:
    i = p['id']
    sc = [s for s in H.REG if s.prop == i]
    ls = [l for l in L.REG if l.prop == i]
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not sc and not ls:
        na.append({'property': i, 'reason': 'check not yet registered (work in progress)'})
        continue
    tech = []
    if sc:
        tech.append(AI)
    if ls:
        tech.append('syntax-tree / control-flow lint: ' + ', '.join(l.name for l in ls))
    out.append({
        'property': i,
        'quick_cmd': 'python3 run.py %s --tier quick' % i,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
        'technique': '; '.join(tech),
        'level': 'other',
        'level_note': 'Static analysis: every obligation is decided on the syntax tree of /repo parsed on this run for the '
                      'whole abstract input subspaces listed in the evidence (message lengths and element counts are '
                      'enumerated up to the bounds of DESIGN.md, contents are unrestricted). Subspaces the analysis cannot '
                      'decide are listed as undecided and raise no alarm.',
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': out, 'not_applicable': na,
     'notes': 'One entry point, run.py; see DESIGN.md. No hooks are needed in /repo (pure source analysis).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'claimed', len(na), 'not claimed')
