"""Abstract Python-2 values."""
from . import dom as D
from .dom import AInt, Cond, Unmodelled


class S:
    """String of abstract characters; items are ints, AInt codes or Seg (a run of unknown length)."""
    __slots__ = ('items', 'uni', '_c')

    def __init__(self, items, uni=False):
        self.items = tuple(items)
        self.uni = uni
        self._c = None

    def conc(self):
        if self._c is None:
            self._c = all(type(x) is int for x in self.items)
        return self._c

    def text(self):
        if not self.conc():
            raise Unmodelled('abstract string used where its text is needed: %r' % self)
        return ''.join(map(chr, self.items))

    def __repr__(self):
        out = []
        for x in self.items:
            if type(x) is int:
                c = chr(x)
                out.append(c if 32 <= x < 127 else '\\x%02x' % x)
            else:
                out.append('{%s}' % (x,))
        return ('u' if self.uni else '') + '"' + ''.join(out) + '"'


def st(t):
    return S(tuple(ord(c) for c in t), False)


def us(t):
    return S(tuple(ord(c) for c in t), True)


class Base:
    """A sequence of unknown length n over element domain dom; elem is the generic element."""

    def __init__(self, name, length, elem, uni=False):
        self.name = name
        self.length = length
        self.elem = elem      # AInt atom standing for an arbitrary element
        self.uni = uni

    def __repr__(self):
        return self.name


class Seg:
    """Element-wise image of a Base: for each element e of base, in order, the items of `elems` (over base.elem)."""
    __slots__ = ('base', 'elems')

    def __init__(self, base, elems):
        self.base = base
        self.elems = tuple(elems)

    def __repr__(self):
        return '%s*[%s]' % (self.base.name, ' '.join(map(str, self.elems)))

    def key(self):
        return ('seg', id(self.base), tuple(x.key() if isinstance(x, (AInt,)) else repr(x) for x in self.elems))


class Opaque:
    """A value about which nothing is known."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown: %s>' % self.why


class Obj:
    __slots__ = ('frozen',)


class AList(Obj):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)
        self.frozen = None

    def __repr__(self):
        return 'list%r' % (self.items,)


class ASet(Obj):
    __slots__ = ('d', 'const', 'nabs')

    def __init__(self, const=False):
        self.d = {}
        self.nabs = 0
        self.frozen = None
        self.const = const


class ADict(Obj):
    __slots__ = ('d', 'nabs', 'owner')

    def __init__(self):
        self.d = {}
        self.nabs = 0
        self.frozen = None
        self.owner = None  # the instance whose __dict__ this is

    def __repr__(self):
        return 'dict{%s}' % ', '.join('%r: %r' % (k, v) for k, v in self.d.values())


class AArray(Obj):
    __slots__ = ('tc', 'items')

    def __init__(self, tc, items=()):
        self.tc = tc
        self.items = list(items)
        self.frozen = None

    def __repr__(self):
        return "array(%s, %r)" % (self.tc, self.items)


class AClass(Obj):
    __slots__ = ('name', 'bases', 'ns', 'mro', 'ctor', 'module', 'builtin', 'old')

    def __init__(self, name, bases, ns=None, ctor=None, module=None, builtin=True):
        self.name = name
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.ctor = ctor
        self.module = module
        self.builtin = builtin
        self.frozen = None
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unmodelled('inconsistent class hierarchy')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        return any(name in c.ns for c in self.mro)

    def __repr__(self):
        return '<class %s>' % self.name


class AObj(Obj):
    __slots__ = ('cls', 'attrs', 'host')

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.frozen = None
        self.host = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class AFunc(Obj):
    __slots__ = ('node', 'mod', 'defaults', 'closure', 'name', 'qual', 'info', 'attrs', 'cls')

    def __init__(self, node, mod, defaults, closure, name, qual, info):
        self.node = node
        self.mod = mod
        self.defaults = defaults
        self.closure = closure
        self.name = name
        self.qual = qual
        self.info = info
        self.attrs = {}
        self.frozen = None
        self.cls = None

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    __slots__ = ('fn', 'self_', 'cls')

    def __init__(self, fn, self_, cls=None):
        self.fn = fn
        self.self_ = self_
        self.cls = cls

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class Unbound:
    __slots__ = ('fn', 'cls')

    def __init__(self, fn, cls):
        self.fn = fn
        self.cls = cls


class Builtin:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f      # f(I, args, kw)

    def __repr__(self):
        return '<builtin %s>' % self.name


class StaticM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Prop:
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class AModule(Obj):
    __slots__ = ('name', 'ns', 'path', 'future_div')

    def __init__(self, name, ns=None, path=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.path = path
        self.frozen = None
        self.future_div = False

    def __repr__(self):
        return '<module %s>' % self.name


class Iter:
    """Host iterator: nxt() returns a value or raises StopIter."""
    __slots__ = ('nxt', 'kind', 'resume')

    def __init__(self, nxt, kind='iterator', resume=None):
        self.nxt = nxt
        self.kind = kind
        self.resume = resume        # generators: resume(sent value, exception to raise at the yield)


class StopIter(Exception):
    pass


class XRange:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def host(self):
        return range(self.start, self.stop, self.step)


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ATimedelta:
    """duration in microseconds (AInt or int)"""
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    def __repr__(self):
        return 'timedelta(us=%s)' % (self.us,)


class ADatetime:
    """base calendar fields (y,m,d,H,M,S,us) plus an exact offset in microseconds not yet folded into the fields"""
    __slots__ = ('f', 'off', 'tz')

    def __init__(self, f, off=0, tz=None):
        self.f = tuple(f)
        self.off = off
        self.tz = tz

    def __repr__(self):
        return 'datetime(%s, off=%s, tz=%r)' % (self.f, self.off, self.tz)


class AEpoch:
    """datetime.utcfromtimestamp(secs) of an abstract integer"""
    __slots__ = ('secs', 'local')

    def __init__(self, secs, local=False):
        self.secs = secs
        self.local = local

    def __repr__(self):
        return 'utcfromtimestamp(%s)' % (self.secs,)


class AReal:
    """exact quotient num/den of an abstract integer by a positive integer, of Python type float"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __repr__(self):
        return '%s/%s.0' % (self.num, self.den)


class ARaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def __str__(self):
        return '%s%r at %s' % (self.exc.cls.name, self.exc.attrs.get('args'), self.where)


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()
