#!/usr/bin/env python3
"""regenerates DESIGN.md: the hand-written text below, plus per property the rules registered in checks/ and the
planted bugs kept in seeded/ (documentation only; no check runs this)"""
import importlib, json, os, pkgutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
from pyai import harness as H, lint as L
for m in pkgutil.iter_modules(checks.__path__):
    importlib.import_module('checks.' + m.name)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    j = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    seeds.setdefault(j['property'], []).append((d, j))
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'design_notes.py')).read())
out = [HEAD.strip(), '']
out += ['## Per property', '']
for p in props:
    i = p['id']
    out += ['### %s — %s' % (i, p['title']), '']
    if i in DECLINED:
        out += ['*Not applicable.* ' + DECLINED[i], '']
        continue
    n = NOTES[i]
    out += ['- *Oracle.* ' + n['oracle'], '- *Bounds.* ' + n['bounds']]
    if n.get('scope'):
        out += ['- *Left out.* ' + n['scope']]
    sc = [s for s in H.REG if s.prop == i]
    ls = [l for l in L.REG if l.prop == i]
    for s in sc:
        q, th = len(s.insts('quick')), len(s.insts('thorough'))
        out += ['- rule `%s`: %s (%s).' % (s.name, s.rule, '%d / %d input spaces' % (q, th) if th != q else '%d input space%s' % (q, 's' if q > 1 else ''))]
    for l in ls:
        out += ['- lint `%s`: %s.' % (l.name, l.rule)]
    if i in seeds:
        out += ['- *Planted bugs caught:* ' + '; '.join('`%s` (%s)' % (d, j['what_it_breaks']) for d, j in seeds[i]) + '.']
    out += ['']
out += [TAIL.strip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'lines')
