"""Trace-partitioned abstract interpretation: scenario exploration, comparison with oracles, verdicts, evidence.

A scenario describes an abstract input space (atoms with value sets), an entry point of the package and the expected
abstract result.  The interpreter propagates the abstract input through /repo's current syntax trees; every abstract
branch splits the trace.  For each trace the result's transfer function must be equal to the oracle's.
"""
import datetime
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import dom as D
from . import frontend, interp
from .dom import AInt, Cond, Unmodelled, Budget, Infeasible
from .values import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stop(Exception):
    pass


class Found(Exception):
    def __init__(self, label, msg, witness, where=None):
        self.label, self.msg, self.witness, self.where = label, msg, witness, where


class Undecided(Exception):
    pass


class AnchorGone(Exception):
    """a public entry point named by the property no longer exists"""


class R:
    """outcome of an abstract call: ok / value or exception"""

    def __init__(self, v=None, exc=None, where=None):
        self.v, self.exc, self.where = v, exc, where

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is None:
            return 'returned %r' % (self.v,)
        return 'raised %s%r at %s' % (self.exc.cls.name, self.exc.attrs.get('args'), (self.where or ['?'])[-1])


def conc(v, w):
    """concrete rendering of an abstract value under witness w"""
    def n(x):
        if type(x) in (AInt, Cond):
            try:
                return x.ev(Full(w))
            except Exception:
                return '?'
        return x
    t = type(v)
    if t in (AInt, Cond):
        return n(v)
    if t is S:
        its = []
        for x in v.items:
            if type(x) is Seg:
                its.append('<%s>' % x)
                continue
            x = n(x)
            its.append(chr(x) if isinstance(x, int) and 0 <= x < 0x110000 else '?')
        s = ''.join(its)
        return ("u" if v.uni else "") + (ascii(s) if len(s) < 400 else ascii(s[:400]) + '...(%d)' % len(s))
    if t in (AList, AArray):
        return [conc(x, w) for x in v.items]
    if t in (tuple, list):
        return [conc(x, w) for x in v]
    if t is ADict:
        return {str(conc(k, w)): conc(x, w) for k, x in v.d.values()}
    if t is dict:
        return {str(k): conc(x, w) for k, x in v.items()}
    if t is ATimedelta:
        return 'timedelta(us=%s)' % n(v.us)
    if t is ADatetime:
        return 'datetime(%s)+%sus' % (tuple(n(x) for x in v.f), n(v.off))
    if t is AReal:
        return '%s/%s' % (n(v.num), n(v.den))
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return repr(v)


class Full(dict):
    def __missing__(self, a):
        return D.ctx().dom[a].min()


def find_witness():
    """an assignment of the path's atoms satisfying the path conditions, or None"""
    C = D.ctx()
    if not C.constraints:
        return {}
    at = []
    for c, r in C.constraints:
        for a in c.atoms:
            if a not in at:
                at.append(a)
    for s in D._corners(at, C.dom):
        if D.constraints_ok(s, ()):
            return s
    return D.solve({}, [40000])


class E:
    """the environment a scenario works in"""

    def __init__(self, I, tier='quick'):
        self.I = I
        self.tier = tier
        self.obl = 0
        self.shown = []
        self.notes = []

    # --- inputs
    def atom(self, name, lo, hi=None):
        d = lo if hi is None else (lo, hi)
        v = D.ctx().atom(name, d)
        self.shown.append((name, v))
        return v

    def atoms(self, name, n, lo, hi=None):
        return [self.atom('%s%d' % (name, i), lo, hi) for i in range(n)]

    def show(self, name, v):
        self.shown.append((name, v))
        return v

    def case(self, label, options):
        """non-deterministic choice between enumerated options"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        o = options[D.ctx().choose(len(options), 'case ' + label)]
        self.shown.append((label, o))
        return o

    # --- access to the package
    def mod(self, name):
        try:
            return self.I.import_module(name)
        except ARaise as e:
            raise AnchorGone('module %s cannot be imported: %s' % (name, e))

    def get(self, path):
        m, _, n = path.rpartition('.')
        m = self.mod(m)
        if n not in m.ns:
            raise AnchorGone(path)
        return m.ns[n]

    def run(self, f, *args, **kw):
        """abstract call -> R"""
        I = self.I
        depth = len(I.stack)
        try:
            return R(I.call(f, list(args), kw))
        except ARaise as e:
            del I.stack[depth:]
            return R(exc=e.exc, where=e.where)

    def ok(self, f, *args, **kw):
        """abstract call that must not raise"""
        r = self.run(f, *args, **kw)
        if not r.ok:
            self.bad('unexpected-exception', '%s where a result is required' % r, where=r.where)
        return r.v

    def attr(self, o, name):
        return self.plain(self.ok(Builtin('getattr', lambda I, a, kw: I.getattr(a[0], a[1])), o, name))

    def plain(self, v):
        """an instance of a subclass of tuple (a named tuple) is the tuple of its items"""
        if type(v) is AObj and any(c.name == 'tuple' for c in v.cls.mro):
            return tuple(self.ok(self.I.builtins['list'], v).items)
        return v

    def rattr(self, o, name):
        return self.run(Builtin('getattr', lambda I, a, kw: I.getattr(a[0], a[1])), o, name)

    def set(self, o, name, v):
        return self.ok(Builtin('setattr', lambda I, a, kw: I.setattr(a[0], a[1], a[2])), o, name, v)

    def rset(self, o, name, v):
        return self.run(Builtin('setattr', lambda I, a, kw: I.setattr(a[0], a[1], a[2])), o, name, v)

    def m(self, o, name, *args, **kw):
        return self.ok(Builtin(name, lambda I, a, k: I.call(I.getattr(o, name), a, k)), *args, **kw)

    def rm(self, o, name, *args, **kw):
        return self.run(Builtin(name, lambda I, a, k: I.call(I.getattr(o, name), a, k)), *args, **kw)

    def item(self, o, k):
        return self.ok(Builtin('getitem', lambda I, a, kw: I.getitem(a[0], a[1])), o, k)

    def isexc(self, r, *names):
        """r raised one of the named exceptions (or a subclass)"""
        return r.exc is not None and any(c.name in names for c in r.exc.cls.mro)

    # --- verdicts
    def bad(self, label, msg, witness=None, where=None):
        if witness is None:
            witness = find_witness()
            if witness is None:
                raise Undecided('%s: %s (no assignment shown to satisfy the path conditions)' % (label, msg))
        if D.ctx().on_opaque():
            raise Undecided('%s: %s (on text that is not modelled)' % (label, msg))
        if D.ctx().imprecise:
            raise Undecided('%s: %s (imprecise: %s)' % (label, msg, D.ctx().imprecise[0]))
        raise Found(label, msg, witness, where)

    def und(self, why):
        raise Undecided(why)

    def same(self, label, got, want):
        """the abstract value `got` must equal `want` for every assignment of the atoms on this trace"""
        v, msg, w = self.cmp(got, want)
        if v is True:
            return True
        if v is False:
            self.bad(label, msg, w)
        raise Undecided('%s: %s' % (label, msg))

    def isstr(self, label, got, uni=None):
        if type(got) is not S or (uni is not None and got.uni != uni):
            self.bad(label, 'expected a %s, got %r' % ('unicode string' if uni else 'byte string' if uni is False else 'string', got))

    def cond(self, label, c, msg):
        """abstract condition must hold on the whole trace"""
        if isinstance(c, AInt):
            c = D.nonzero(c)
        self.obl += 1
        if c is True:
            return
        if c is False:
            self.bad(label, msg)
        v, w = D.same(c.as_int() if c.kind == 'set' else c, True)
        if v is True:
            return
        if v is False:
            self.bad(label, msg, w)
        raise Undecided('%s: %s: %s' % (label, msg, w))

    def raises(self, label, r, *names):
        self.obl += 1
        if r.ok:
            self.bad(label, 'expected %s, but the call returned %s' % ('/'.join(names), short(r.v)))
        if not self.isexc(r, *names):
            self.bad(label, 'expected %s, but the call %r' % ('/'.join(names), r), where=r.where)

    def cmp(self, a, e):
        """-> (True/False/None, message, witness)"""
        T = type(e)
        if a is e and T is not AInt:
            self.obl += 1
            return True, None, None
        if T in (bool, int, float, AInt, Cond):
            if type(a) is AReal and type(a.den) is int:
                if T in (int, AInt):
                    a2 = a.num
                    e = D.mul(e, a.den)
                    a = a2
                    T = type(e)
            if type(a) not in (bool, int, float, AInt, Cond):
                return False, 'got %s where a number %s is required' % (short(a), short(e)), None
            self.obl += 1
            v, w = D.same(a, e)
            if v is True:
                return True, None, None
            if v is False:
                return False, 'got %s, required %s' % (short(a, w), short(e, w)), w
            return None, 'equality of %s and %s: %s' % (short(a), short(e), w), None
        if T is S:
            if type(a) is not S:
                return False, 'got %s where the string %s is required' % (short(a), short(e)), None
            if any(type(x) is Seg for x in a.items + e.items):
                self.obl += 1
                if self.I.items_same(a.items, e.items):
                    return True, None, None
                r = self.ends_differ(a.items, e.items, 'character', a, e)
                if r:
                    return r
                return None, 'strings with runs of unknown length differ in form: %s / %s' % (short(a), short(e)), None
            if len(a.items) != len(e.items):
                return False, 'got %d characters %s where %d are required: %s' % (
                    len(a.items), short(a), len(e.items), short(e)), None
            if a.uni != e.uni:
                for x, y in zip(a.items, e.items):
                    c = D.compare('<', y, 128)
                    if c is not True:
                        return False, 'got %s string %s where %s is required' % (
                            'unicode' if a.uni else 'byte', short(a), short(e)), None
            return self.seq(a.items, e.items, 'character', a, e)
        if T in (list, AList, AArray):
            ei = e if T is list else e.items
            if type(a) is AArray:
                ai = a.items
            elif type(a) is AList:
                ai = a.items
            else:
                return False, 'got %s where the list %s is required' % (short(a), short(e)), None
            if any(type(x) is Seg for x in list(ai) + list(ei)):
                if self.I.items_same(ai, ei):
                    return True, None, None
                r = self.ends_differ(ai, ei, 'item', a, e)
                if r:
                    return r
                return None, 'lists of unknown length differ in form', None
            if len(ai) != len(ei):
                return False, 'got %d items %s where %d are required: %s' % (len(ai), short(a), len(ei), short(e)), None
            return self.seq(ai, ei, 'item', a, e)
        if T is tuple:
            a = self.plain(a)
            if type(a) is not tuple or len(a) != len(e):
                return False, 'got %s where the tuple %s is required' % (short(a), short(e)), None
            return self.seq(a, e, 'element', a, e)
        if T in (dict, ADict):
            if type(a) is not ADict:
                return False, 'got %s where a dictionary is required' % short(a), None
            pairs = list(e.d.values()) if T is ADict else \
                [(us(k) if isinstance(k, str) else k, v) for k, v in e.items()]
            if len(pairs) != len(a.d):
                return False, 'got keys %s, required %s' % (
                    sorted(str(conc(k, {})) for k, v in a.d.values()), sorted(str(conc(k, {})) for k, v in pairs)), None
            for k, v in pairs:
                g = self.I.dget(a, k)
                if g is MISSING:
                    return False, 'key %s missing' % short(k), None
                r = self.cmp(g, v)
                if r[0] is not True:
                    return r[0], '[%s]: %s' % (short(k), r[1]), r[2]
            return True, None, None
        if T is ATimedelta:
            if type(a) is not ATimedelta:
                return False, 'got %s where a duration is required' % short(a), None
            return self.cmp(a.us, e.us)
        if T is ADatetime:
            if type(a) is not ADatetime:
                return False, 'got %s where a date is required' % short(a), None
            if (a.tz is None) != (e.tz is None):
                return False, 'got %s date, required %s' % (
                    'naive' if a.tz is None else 'aware', 'naive' if e.tz is None else 'aware'), None
            cands = []
            for x, y in list(zip(a.f, e.f)) + [(a.off, e.off)]:
                self.obl += 1
                v, w = D.same(x, y)
                if v is not True:
                    cands.append((v, w))
            if not cands:
                return True, None, None
            for v, w in cands:
                if v is False:
                    ca, ce = self.hostdate(a, w), self.hostdate(e, w)
                    if ca is not None and ce is not None and ca != ce:
                        return False, 'got %s, required %s' % (ca, ce), w
            return None, 'dates differ in form: %r / %r' % (a, e), None
        if T is AEpoch:
            if type(a) is not AEpoch or a.local != e.local:
                return False, 'got %s where utcfromtimestamp(%s) is required' % (short(a), e.secs), None
            return self.cmp(a.secs, e.secs)
        if e is None:
            self.obl += 1
            if a is None:
                return True, None, None
            return False, 'got %s where None is required' % short(a), None
        if callable(e):
            return e(a)
        raise Unmodelled('oracle value %r' % (e,))

    def hostdate(self, d, w):
        try:
            w = Full(w)
            f = [D.ev(x, w) for x in d.f]
            return datetime.datetime(*f) + datetime.timedelta(microseconds=D.ev(d.off, w))
        except Exception:
            return None

    def ends_differ(self, xs, ys, what, a, e):
        """two sequences with runs of unknown length: one whose fixed beginning never equals the beginning required"""
        for i, (x, y) in enumerate(zip(xs, ys)):
            if type(x) is Seg or type(y) is Seg:
                break
            r = self.cmp(x, y)
            if r[0] is False:
                return False, '%s %d: %s (got %s, required %s)' % (what, i, r[1], short(a, r[2]), short(e, r[2])), r[2]
        if not any(type(y) is Seg for y in ys) and sum(type(x) is not Seg for x in xs) > len(ys):
            return False, 'got more than the %d %ss required: %s / %s' % (len(ys), what, short(a), short(e)), None
        if not any(type(x) is Seg for x in xs) and sum(type(y) is not Seg for y in ys) > len(xs):
            return False, 'got %d %ss %s where at least %d are required' % (
                len(xs), what, short(a), sum(type(y) is not Seg for y in ys)), None
        return None

    def seq(self, xs, ys, what, a, e):
        und = None
        for i, (x, y) in enumerate(zip(xs, ys)):
            r = self.cmp(x, y)
            if r[0] is False:
                w = r[2]
                return False, '%s %d: %s (got %s, required %s)' % (what, i, r[1], short(a, w), short(e, w)), w
            if r[0] is None:
                und = (None, '%s %d: %s' % (what, i, r[1]), None)
        return und or (True, None, None)


def short(v, w=None, n=300):
    try:
        t = str(conc(v, w)) if w is not None else repr(v)
    except Exception as e:
        t = '<%s>' % type(v).__name__
    return t if len(t) <= n else t[:n] + '...'


# ----------------------------------------------------------------------------------------------------- exploration
class Scenario:
    def __init__(self, prop, name, fn, insts, rule, fresh=False):
        self.prop, self.name, self.fn, self.insts, self.rule, self.fresh = prop, name, fn, insts, rule, fresh


REG = []
STRIDE = {}          # property -> every how many of the thorough subspaces the quick tier takes too (1: all; absent: none)


def scenario(prop, name, rule, quick=None, thorough=None, fresh=False):
    """register fn(E, inst); instances may be lists or callables of no arguments"""
    def deco(fn):
        def insts(tier):
            q = quick() if callable(quick) else quick
            t = thorough() if callable(thorough) else thorough
            q = [None] if q is None else list(q)
            if t is None:
                return q
            seen = {repr(x) for x in q}
            t = [x for x in t if repr(x) not in seen]
            if tier == 'quick':
                k = STRIDE.get(prop, 0)
                t = t[k // 2::k] if k else []
            return q + t
        REG.append(Scenario(prop, name, fn, insts, rule, fresh))
        return fn
    return deco


def new_world(I):
    I.reset_world()
    I.gen_threads = []
    C = D.Ctx()
    D.set_ctx(C)
    for m in sorted(I.asts):
        I.import_module(m)
    I.freeze_all()
    I.dirty = False
    I.stack = []


def explore(I, sc, inst, tier, maxpaths, deadline, todo=None, piece=None):
    """-> dict(paths, obl, violations[], undecided[], rest: subspaces left when the piece of time ran out)"""
    res = {'scenario': sc.name, 'inst': short_inst(inst), 'paths': 0, 'obl': 0, 'viol': [], 'und': [], 'dec': 0}
    todo = [[]] if todo is None else todo
    start = time.time()
    while todo:
        if piece and time.time() > start + piece and time.time() < deadline:
            res['rest'] = todo
            break
        if res['paths'] >= maxpaths:
            res['und'].append('path budget of %d exhausted with %d subspaces left' % (maxpaths, len(todo)))
            break
        if time.time() > deadline:
            res['und'].append('time budget exhausted with %d subspaces left' % len(todo))
            break
        pre = todo.pop()
        if I.dirty or not I.modules or sc.fresh:
            new_world(I)
        C = D.Ctx(pre)
        C.where = I.where
        D.set_ctx(C)
        I.stack = []
        I.deadline = min(deadline, time.time() + 5 * piece) if piece else deadline
        I.vfs = {}
        I.fslog = []
        I.open_files = []
        I.faults = 0
        I.internal, I.deep = [], None
        I.maxsteps, I.maxiter = interp.MAXSTEPS, 20000
        I.summ = None
        e = E(I, tier)
        try:
            sc.fn(e, inst)
        except Infeasible:
            pass
        except Stop:
            pass
        except Found as f:
            res['viol'].append(describe(sc, inst, e, f))
        except Undecided as u:
            res['und'].append(str(u)[:400])
        except (Unmodelled, Budget) as u:
            if type(u) is Budget and I.deadline < deadline and time.time() > I.deadline:
                I.dirty = True
                todo.insert(0, pre)                 # come back to it when everything else has had its turn
                res['rest'] = todo
                break
            res['und'].append('%s: %s at %s' % (type(u).__name__, str(u)[:300], ' < '.join(reversed(I.trace()[-3:]))))
        except ARaise as x:
            res['und'].append('exception escaped the scenario: %s' % str(x)[:400])
        except AnchorGone:
            raise
        except RecursionError:
            res['und'].append('recursion limit')
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
                print('STACK', I.trace())
            tb = traceback.extract_tb(sys.exc_info()[2])
            res['und'].append('analysis error %s: %s (%s)' % (type(x).__name__, str(x)[:200],
                                                             ' < '.join('%s:%s' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:][::-1])))
        finally:
            I.kill_gens()
        if any(ev[0] == 'mutate-shared' for ev in C.events):
            res.setdefault('shared', set()).update((ev[1], ev[2]) for ev in C.events if ev[0] == 'mutate-shared')
        res['paths'] += 1
        res['obl'] += e.obl
        res['dec'] += len(C.dec)
        for i in range(len(C.dec) - 1, len(pre) - 1, -1):
            v, n = C.dec[i][0], C.dec[i][1]
            for k in range(n - 1, v, -1):
                todo.append([d[0] for d in C.dec[:i]] + [k])
        # DFS order: alternatives of the deepest decision first
        if len(res['viol']) >= 3:
            res['und'].append('stopped after three violations in this subspace')
            break
    if 'shared' in res:
        res['shared'] = sorted(map(list, res['shared']), key=str)
    return res


def short_inst(i):
    t = repr(i)
    return t if len(t) < 160 else t[:160] + '...'


def describe(sc, inst, e, f):
    w = f.witness or {}
    C = D.ctx()
    trail = []
    for v, n, lab, where in C.dec:
        trail.append('%s: %s -> %s' % (where or 'input', str(lab)[:120],
                                       ('true' if v == 0 else 'false') if n == 2 and isinstance(lab, Cond) else v))
    return {'scenario': sc.name, 'rule': sc.rule, 'instance': short_inst(inst), 'label': f.label, 'message': f.msg[:1500],
            'inputs': {k: conc(v, w) for k, v in e.shown[:80]},
            'construct': (f.where or [None])[-1], 'call_path': f.where or [],
            'branch_trail': trail[-60:], 'functions': None}


_W = {}


def _init(asts):
    _W['I'] = interp.Interp(asts)


def _task(a):
    k, i, inst, tier, maxpaths, deadline, todo, piece = a
    I = _W['I']
    sc = REG[k]
    t = time.time()
    I.called = {}
    try:
        r = explore(I, sc, inst, tier, maxpaths, deadline, todo, piece)
    except AnchorGone as g:
        r = {'scenario': sc.name, 'inst': short_inst(inst), 'paths': 0, 'obl': 0, 'viol': [], 'und': [], 'dec': 0,
             'gone': str(g)}
    r['wall'] = time.time() - t
    r['funcs'] = sorted('%s:%s' % q for q in I.called)
    r['idx'] = (k, i)
    return r


def merge(a, b):
    """result of exploring an instance, and that of going on with it"""
    if a is None:
        return b
    for f in ('paths', 'obl', 'viol', 'und', 'dec', 'wall'):
        b[f] = a[f] + b[f]
    b['funcs'] = sorted(set(a['funcs']) | set(b['funcs']))
    if 'shared' in a or 'shared' in b:
        b['shared'] = [list(x) for x in sorted({tuple(x) for x in a.get('shared', []) + b.get('shared', [])}, key=str)]
    return b


GRACE = 25          # seconds to go on collecting after the first violation


def run_all(prop, tier, budget, asts, only=None, maxpaths=None, procs=None):
    """every instance gets a short piece of time first, those that need more go on in later rounds"""
    maxpaths = maxpaths or (4000 if tier == 'quick' else 40000)
    deadline = time.time() + budget
    todo = []
    for k, sc in enumerate(REG):
        if sc.prop != prop and prop != '*':
            continue
        if only and not any(o in sc.name for o in only):
            continue
        for i, inst in enumerate(sc.insts(tier)):
            todo.append((k, i, inst, None))
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    done = {}
    first = None
    single = procs == 1 or len(todo) == 1
    piece = max(0.5, 0.4 * budget * procs / max(1, len(todo)))
    inst_of = {(k, i): inst for k, i, inst, _ in todo}
    pool = None
    if single:
        _init(asts)
    elif todo:
        pool = multiprocessing.get_context('fork').Pool(min(procs, len(todo)), _init, (asts,))
    try:
        stop = False
        while todo and not stop:
            args = []
            for k, i, inst, rest in todo:
                n = maxpaths - (done[k, i]['paths'] if (k, i) in done else 0)
                args.append((k, i, inst, tier, n, deadline, rest, None if single and len(todo) == 1 else piece))
            chunk = max(1, min(8, len(args) // (procs * 6) or 1)) if todo[0][3] is None else 1
            todo = []
            for r in (map(_task, args) if single else pool.imap_unordered(_task, args, chunk)):
                rest = r.pop('rest', None)
                r = done[r['idx']] = merge(done.get(r['idx']), r)
                if len(r['viol']) >= 3:
                    rest = None
                if rest:
                    todo.append(r['idx'] + (inst_of[r['idx']], rest))
                if r['viol'] and first is None:
                    first = time.time()
                if sum(len(x['viol']) for x in done.values()) > 150 or first and time.time() > first + GRACE:
                    r['und'].append('analysis stopped early: violations were found')
                    stop = True
                    break
            piece *= 3
    finally:
        if pool:
            pool.terminate()
    out = list(done.values())
    out.sort(key=lambda r: r['idx'])
    return out
