"""Structural rules over the syntax trees (registered per property)."""
import time

REG = []


class Lint:
    def __init__(self, prop, name, rule, fn):
        self.prop, self.name, self.rule, self.fn = prop, name, rule, fn


def lint(prop, name, rule):
    def deco(fn):
        REG.append(Lint(prop, name, rule, fn))
        return fn
    return deco


class Report:
    def __init__(self, l):
        self.l = l
        self.obl = 0
        self.viol = []
        self.und = []
        self.funcs = set()

    def holds(self, n=1):
        self.obl += n

    def func(self, f):
        self.funcs.add(f)

    def bad(self, label, construct, msg, key=None, path=None):
        self.obl += 1
        self.viol.append({'scenario': self.l.name, 'rule': self.l.rule, 'instance': '', 'label': label, 'message': msg,
                          'construct': construct, 'call_path': path or [], 'inputs': {}, 'branch_trail': [],
                          'key': key})

    def undecided(self, why):
        self.obl += 1
        self.und.append(why)


def run_all(prop, tier, asts, only=None):
    out = []
    for l in REG:
        if l.prop != prop or (only and not any(o in l.name for o in only)):
            continue
        r = Report(l)
        t = time.time()
        try:
            l.fn(r, asts, tier)
        except Exception as e:       # an analysis error is never an alarm
            import os
            import traceback
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            r.undecided('analysis error %s: %s' % (type(e).__name__, e))
        out.append({'scenario': l.name, 'inst': '', 'rule': l.rule, 'paths': 0, 'obl': r.obl, 'viol': r.viol,
                    'und': r.und, 'funcs': sorted(r.funcs), 'wall': time.time() - t})
    return out
