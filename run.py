#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only NAME]   decide one property from /repo's current sources."""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pyai import frontend, harness as H, lint as L   # noqa: E402
import checks                                          # noqa: E402


def load_checks():
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module('checks.' + m.name)


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=C00 key=<key> :: what fails
                head, _, what = line[6:].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                d['what'] = what.strip()
                out.append(d)
    return out


def vkey(v):
    return (v.get('key') or '%s/%s' % (v['scenario'], v['label'])).replace(' ', '_')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    budget = float(os.environ.get('VERIF_BUDGET') or (150 if a.tier == 'quick' else 780))
    try:
        asts = frontend.load()
    except frontend.SourceError as e:
        print('ERROR property=%s cannot analyse the sources: %s' % (a.prop, e))
        return 2
    load_checks()
    only = a.only.split(',') if a.only else None
    res = H.run_all(a.prop, a.tier, budget, asts, only=only)
    lres = L.run_all(a.prop, a.tier, asts, only=only)
    if not res and not lres:
        print('ERROR property=%s has no checks' % a.prop)
        return 2
    gone = [r['gone'] for r in res if r.get('gone')]
    viol = [v for r in res for v in r['viol']] + [v for r in lres for v in r['viol']]
    und = [(r['scenario'], r['inst'], u) for r in res for u in r['und']] + \
          [(r['scenario'], '', u) for r in lres for u in r['und']]
    paths = sum(r['paths'] for r in res)
    obl = sum(r['obl'] for r in res) + sum(r['obl'] for r in lres)
    funcs = sorted(set(f for r in res for f in r['funcs']) | set(f for r in lres for f in r['funcs']))
    kn = [k for k in known() if k['property'] == a.prop]
    fresh, old = [], {}
    for v in viol:
        for k in kn:
            if vkey(v) == k['key']:
                old.setdefault(k['key'], (k, []))[1].append(v)
                break
        else:
            fresh.append(v)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + '-'):
            os.unlink(os.path.join(rdir, f))
    for key, (k, vs) in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    per = {}
    for r in res + lres:
        p = per.setdefault(r['scenario'], {'rule': r.get('rule') or next((s.rule for s in H.REG if s.name == r['scenario']), ''),
                                           'subspaces': 0, 'traces': 0, 'obligations': 0, 'undecided': 0, 'violations': 0,
                                           'abstract_branch_decisions': 0})
        p['subspaces'] += 1
        p['traces'] += r['paths']
        p['obligations'] += r['obl']
        p['undecided'] += len(r['und'])
        p['violations'] += len(r['viol'])
        p['abstract_branch_decisions'] += r.get('dec', 0)
    discharged = obl - len(viol) - len(und)
    samples = [{'scenario': r['scenario'], 'input_space': r['inst'], 'traces': r['paths'], 'obligations': r['obl']}
               for r in (res + lres)[:: max(1, len(res + lres) // 8)][:8]]
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': 'Abstract interpretation of the syntax trees of /repo (parsed on this run, never executed): each '
                             'scenario propagates an abstract input space through the package; every feasible abstract branch '
                             'splits it; on every resulting trace the result must have the same transfer function as the '
                             'oracle. Structural rules enumerate program constructs. Undecided subspaces are listed and '
                             'raise no alarm.',
              'input_subspaces': len(res), 'abstract_traces': paths, 'obligations': obl,
              'discharged': max(0, discharged), 'undecided': len(und), 'violations_known': sum(len(v[1]) for v in old.values()),
              'functions_analysed': funcs, 'functions_analysed_count': len(funcs),
              'rules': per, 'samples': samples,
              'undecided_list': ['%s %s: %s' % u for u in und[:40]],
              'shared_state_writes': sorted(set(tuple(x) for r in res for x in r.get('shared', [])))[:20]},
          'assumptions': ['Python 2 semantics as modelled in pyai/ (validated at development time by interpreting the 64 '
                          'existing unit tests)', 'files other than those of the package behave as the file model says'],
          'violations': len(fresh), 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    if a.v:
        for k, p in per.items():
            print('  %-40s subspaces=%d traces=%d obl=%d und=%d viol=%d' % (
                k, p['subspaces'], p['traces'], p['obligations'], p['undecided'], p['violations']))
        for u in und[:30]:
            print('  UNDECIDED %s %s: %s' % u)
        slow = sorted(res, key=lambda r: -r['wall'])[:4]
        for r in slow:
            print('  slow %s %s %.1fs paths=%d' % (r['scenario'], r['inst'][:60], r['wall'], r['paths']))
    shown = {}
    for v in fresh:
        k = vkey(v)
        shown[k] = shown.get(k, 0) + 1
        if shown[k] > 2 or len(shown) > 12:
            continue
        rp = os.path.join(rdir, '%s-%d.json' % (a.prop, len(os.listdir(rdir))))
        v = dict(v, property=a.prop, tier=a.tier)
        json.dump(v, open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (a.prop, os.path.relpath(rp, HERE)))
        print('  rule: %s\n  case: %s %s\n  %s: %s' % (v['rule'], v['scenario'], v['instance'], v['label'], v['message']))
        if v.get('inputs'):
            print('  input: %s' % json.dumps(v['inputs'], default=str)[:800])
        if v.get('construct'):
            print('  at: %s' % v['construct'])
    if fresh:
        return 1
    if gone:
        print('ERROR property=%s entry point gone: %s' % (a.prop, gone[0]))
        return 2
    if obl == 0 or discharged <= 0:
        print('ERROR property=%s nothing could be decided (%d undecided): %s' % (a.prop, len(und), und[:2]))
        return 2
    print('OK property=%s traces=%d obligations=%d undecided=%d wall=%.1fs' % (a.prop, paths, obl, len(und), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
