"""Numeric abstract domains and the path context.

An abstract integer is an exact transfer function of the path's atoms (unknown inputs), held in whichever of three
canonical forms applies: a finite table over one small-domain atom, a vector of bit provenances (each bit is 0, 1 or
bit i of an atom), or an affine form whose terms are atoms and floor-quotients.  Every atom carries an integer-set
domain which branches refine (value-set partitioning).  No solver is involved: comparisons are decided by set algebra
on atom domains, by interval bounds or by form equality; what none of these decides is reported as undecided.
"""
from bisect import bisect_right
from math import gcd

TABLIM = 4096
JOINT = 1 << 16


class Unmodelled(Exception):
    """The analysis met a construct it has no model for: this trace is undecided."""


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


class RSet:
    __slots__ = ('iv',)

    def __init__(self, iv):
        self.iv = tuple(iv)

    @staticmethod
    def of(lo, hi):
        return RSet(((lo, hi),)) if lo <= hi else RSet(())

    @staticmethod
    def vals(it):
        out = []
        for v in sorted(set(it)):
            if out and out[-1][1] == v - 1:
                out[-1][1] = v
            else:
                out.append([v, v])
        return RSet((a, b) for a, b in out)

    def __bool__(self):
        return bool(self.iv)

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def min(self):
        return self.iv[0][0]

    def max(self):
        return self.iv[-1][1]

    def __contains__(self, v):
        for a, b in self.iv:
            if a <= v <= b:
                return True
        return False

    def __iter__(self):
        for a, b in self.iv:
            yield from range(a, b + 1)

    def __and__(self, o):
        out = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo, hi = max(A[i][0], B[j][0]), min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return RSet(out)

    def __sub__(self, o):
        out = []
        for a, b in self.iv:
            cur = a
            for c, d in o.iv:
                if d < cur or c > b:
                    continue
                if c > cur:
                    out.append((cur, c - 1))
                cur = max(cur, d + 1)
                if cur > b:
                    break
            if cur <= b:
                out.append((cur, b))
        return RSet(out)

    def __or__(self, o):
        ivs = sorted(self.iv + o.iv)
        out = []
        for a, b in ivs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return RSet(out)

    def __eq__(self, o):
        return isinstance(o, RSet) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __repr__(self):
        return '{' + ','.join('%s' % a if a == b else '%s..%s' % (a, b) for a, b in self.iv[:8]) + \
            (',...' if len(self.iv) > 8 else '') + '}'


class Atom:
    __slots__ = ('id', 'name', 'dom0', 'width')

    def __init__(self, id, name, dom):
        self.id = id
        self.name = name
        self.dom0 = dom
        self.width = dom.max().bit_length() if dom.min() >= 0 else None

    def __repr__(self):
        return self.name


class Ctx:
    """One abstract trace: decision prefix, atom domains, relational constraints, events."""

    def __init__(self, prefix=(), max_dec=100000):
        self.prefix = list(prefix)
        self.dec = []          # (chosen, n, label)
        self.dom = {}
        self.natoms = 0
        self.constraints = []  # (Cond, bool)
        self.decided = {}
        self.events = []
        self.imprecise = []
        self.opaque = []       # (value, domain) of numbers standing for text that is not modelled
        self.numtext = []      # (characters, number): decimal texts made so far
        self.steps = 0
        self.where = None      # callable giving the current source construct
        self.max_dec = max_dec

    def on_opaque(self):
        """the path taken depends on text that is not modelled"""
        used = {a for c, _ in self.constraints for a in c.atoms}
        return any(v.atoms[0] in used or self.dom[v.atoms[0]] != d for v, d in self.opaque)

    def atom(self, name, dom):
        if isinstance(dom, tuple):
            dom = RSet.of(*dom)
        elif not isinstance(dom, RSet):
            dom = RSet.vals(dom)
        if dom.size() == 1:
            return dom.min()
        a = Atom(self.natoms, name, dom)
        self.natoms += 1
        self.dom[a] = dom
        return AInt('atom', a, None, (a,))

    def choose(self, n, label=None):
        k = len(self.dec)
        if k >= self.max_dec:
            raise Budget('too many decisions on one trace')
        v = self.prefix[k] if k < len(self.prefix) else 0
        self.dec.append((v, n, label, self.where() if self.where else None))
        return v

    def refine(self, atom, s):
        d = self.dom[atom] & s
        if not d:
            raise Infeasible()
        self.dom[atom] = d

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c.kind == 'set':
            d = self.dom[c.a]
            t = d & c.b
            if not t:
                return False
            f = d - c.b
            if not f:
                return True
            v = self.choose(2, c)
            if v == 0:
                self.dom[c.a] = t
                return True
            self.dom[c.a] = f
            return False
        if c.kind == 'not':
            return not self.branch(c.a)
        if c.kind == 'and':
            for x in c.a:
                if not self.branch(x):
                    return False
            return True
        if c.kind == 'or':
            for x in c.a:
                if self.branch(x):
                    return True
            return False
        c2 = c.resolve()
        if isinstance(c2, bool):
            return c2
        if c2 is not c:
            return self.branch(c2)
        k = c.key()
        if k in self.decided:
            return self.decided[k]
        v = self.choose(2, c)
        r = (v == 0)
        self.decided[k] = r
        self.constraints.append((c, r))
        return r

    def concretize(self, x, label='value'):
        """Partition the trace by the value of x (small image only)."""
        if not isinstance(x, AInt):
            if isinstance(x, Cond):
                return self.branch(x)
            return x
        for a in x.atoms:
            if self.dom[a].size() > TABLIM:
                if x.kind != 'atom':
                    lo, hi = rng(x)
                    if hi - lo <= 600:
                        v = lo
                        for v in range(lo, hi + 1):
                            if v == hi or self.branch(compare('==', x, v)):
                                return v
                raise Unmodelled('cannot enumerate %s' % x)
        if len(x.atoms) == 1:
            a = x.atoms[0]
            t = tabof(x, a)
            img = {}
            for v in self.dom[a]:
                img.setdefault(t[v], []).append(v)
            keys = list(img)
            if len(keys) == 1:
                return keys[0]
            if len(keys) > 600:
                raise Unmodelled('too many values to enumerate: %s' % x)
            k = keys[self.choose(len(keys), label)]
            self.dom[a] = RSet.vals(img[k])
            return k
        for a in x.atoms:
            d = list(self.dom[a])
            if len(d) > 1:
                if len(d) > 300:
                    raise Unmodelled('cannot enumerate %s' % x)
                v = d[self.choose(len(d), label)]
                self.dom[a] = RSet.of(v, v)
        return x.ev({a: self.dom[a].min() for a in x.atoms})


CUR = Ctx()


def ctx():
    return CUR


def set_ctx(c):
    global CUR
    CUR = c


FN = {
    'mul': lambda a, b: a * b,
    'and': lambda a, b: a & b,
    'or': lambda a, b: a | b,
    'xor': lambda a, b: a ^ b,
    'shr': lambda a, b: a >> b,
    'shl': lambda a, b: a << b,
    'fdiv': lambda a, b: a // b,
    'mod': lambda a, b: a % b,
    'pow': lambda a, b: a ** b,
    'neg': lambda a: -a,
    'inv': lambda a: ~a,
    'abs': lambda a: abs(a),
}


def bitval(x, v):
    """value of the bit with provenance x = (atom, i) (bit i of the atom) or (atom, RSet) (membership), when atom == v"""
    i = x[1]
    if type(i) is int:
        return (v >> i) & 1
    return 1 if v in i else 0


def bitkey(i):
    return i if type(i) is int else i.iv


def hexcode(n, up):
    return (48 + n) if n < 10 else ((55 if up else 87) + n)


class AInt:
    __slots__ = ('kind', 'a', 'b', 'atoms', '_tab', '_bits', '_lin', '_key', 'isf')

    def __init__(self, kind, a, b, atoms):
        self.kind = kind
        self.a = a
        self.b = b
        self.atoms = atoms
        self._tab = None
        self._bits = False
        self._lin = None
        self._key = None
        self.isf = False

    def key(self):
        k = self._key
        if k is None:
            K = self.kind
            if K == 'atom':
                k = ('A', self.a.id)
            elif K == 'tab':
                k = ('T', self.a.id, tuple(sorted(self.b.items())))
            elif K == 'bits':
                k = ('B',) + tuple(x if isinstance(x, int) else (x[0].id, bitkey(x[1])) for x in self.a)
            elif K == 'lin':
                k = ('L', tuple((t.key(), c) for t, c in self.a), self.b)
            elif K == 'fd':
                k = ('F', self.a.key(), self.b)
            elif K == 'hex':
                k = ('H', self.a.key(), self.b)
            else:
                k = ('f', self.a, tuple(x.key() if isinstance(x, AInt) else x for x in self.b))
            self._key = k
        return k

    def ev(self, s):
        K = self.kind
        if K == 'atom':
            return s[self.a]
        if K == 'tab':
            return self.b[s[self.a]]
        if K == 'bits':
            r = 0
            for i, x in enumerate(self.a):
                if x == 1:
                    r |= 1 << i
                elif x != 0 and bitval(x, s[x[0]]):
                    r |= 1 << i
            return r
        if K == 'lin':
            r = self.b
            for t, c in self.a:
                r += c * t.ev(s)
            return r
        if K == 'fd':
            return self.a.ev(s) // self.b
        if K == 'hex':
            return hexcode(self.a.ev(s), self.b)
        return FN[self.a](*[x.ev(s) if isinstance(x, AInt) else x for x in self.b])

    def __repr__(self):
        K = self.kind
        if K == 'atom':
            return self.a.name
        if K == 'tab':
            it = list(self.b.items())
            return 'f(%s)[%s%s]' % (self.a.name, ','.join('%s:%s' % x for x in it[:4]), '..' if len(it) > 4 else '')
        if K == 'bits':
            return 'bits<' + ' '.join(str(x) if isinstance(x, int) else '%s.%s' % (x[0].name, x[1])
                                      for x in reversed(self.a)) + '>'
        if K == 'lin':
            return '(' + '+'.join(('%s*%s' % (c, t) if c != 1 else '%s' % t) for t, c in self.a) + '%+d)' % self.b
        if K == 'fd':
            return '(%s//%d)' % (self.a, self.b)
        if K == 'hex':
            return 'hex(%s)' % self.a
        return '%s%s' % (self.a, self.b)

    def __bool__(self):
        raise TypeError('AInt truth value used by host code')

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


def num(x):
    return not isinstance(x, (AInt, Cond))


def as_num(x):
    """Cond used as a number."""
    if isinstance(x, Cond):
        return x.as_int()
    return x


def atoms_of(*xs):
    out = ()
    for x in xs:
        if isinstance(x, (AInt, Cond)):
            if not out:
                out = x.atoms
            elif x.atoms != out:
                out = out + tuple(a for a in x.atoms if a not in out)
    return out


def tabof(x, atom):
    """dict value->number of x over (a superset of) atom's current domain."""
    if not isinstance(x, AInt):
        return None
    if x.kind == 'tab':
        return x.b
    d = CUR.dom[atom]
    t = x._tab
    if t is None:
        s = {}
        t = {}
        for v in d:
            s[atom] = v
            t[v] = x.ev(s)
        x._tab = t
    return t


def from_map(atom, m):
    """Canonical abstract number/bool for a pointwise map over atom's current domain."""
    vals = list(m.values())
    v0 = vals[0]
    if all(v == v0 and type(v) is type(v0) for v in vals):
        return v0
    if all(type(v) is bool for v in vals):
        return Cond('set', atom, RSet.vals(k for k, v in m.items() if v), (atom,))
    if any(isinstance(v, float) for v in vals):
        r = AInt('tab', atom, m, (atom,))
        r.isf = True
        return r
    if all(v == k for k, v in m.items()):
        r = AInt('atom', atom, None, (atom,))
        return r
    return AInt('tab', atom, m, (atom,))


def pw(f, *xs):
    """Pointwise application when all operands depend on one small atom; else None."""
    at = atoms_of(*xs)
    if len(at) != 1:
        return None
    a = at[0]
    d = CUR.dom[a]
    if d.size() > TABLIM:
        return None
    ts = [tabof(x, a) if isinstance(x, AInt) else (x.tabof(a) if isinstance(x, Cond) else None) for x in xs]
    m = {}
    if len(xs) == 1:
        t = ts[0]
        for v in d:
            m[v] = f(t[v])
    elif len(xs) == 2:
        t, u = ts
        x, y = xs
        if t is None:
            for v in d:
                m[v] = f(x, u[v])
        elif u is None:
            for v in d:
                m[v] = f(t[v], y)
        else:
            for v in d:
                m[v] = f(t[v], u[v])
    else:
        for v in d:
            m[v] = f(*[(t[v] if t is not None else x) for t, x in zip(ts, xs)])
    return from_map(a, m)


def from_bits(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    if all(isinstance(b, int) for b in bits):
        return sum(b << i for i, b in enumerate(bits))
    b0 = bits[0]
    if not isinstance(b0, int) and b0[1] == 0:
        a = b0[0]
        if a.width == len(bits) and all(not isinstance(b, int) and b[0] is a and b[1] == i for i, b in enumerate(bits)):
            return AInt('atom', a, None, (a,))
    at = []
    for b in bits:
        if not isinstance(b, int) and b[0] not in at:
            at.append(b[0])
    r = AInt('bits', tuple(bits), None, tuple(at))
    r._bits = tuple(bits)
    if len(at) == 1 and CUR.dom[at[0]].size() <= TABLIM:
        t = tabof(r, at[0])
        vals = set(t[v] for v in CUR.dom[at[0]])
        if len(vals) == 1:
            return vals.pop()
    return r


def bitsof(x):
    """tuple of bit provenances (LSB first) or None."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if x < 0:
            return None
        return tuple((x >> i) & 1 for i in range(x.bit_length()))
    if not isinstance(x, AInt):
        return None
    b = x._bits
    if b is not False:
        return b
    b = None
    K = x.kind
    if K == 'atom':
        if x.a.width is not None:
            b = tuple((x.a, i) for i in range(x.a.width))
    elif K == 'bits':
        b = x.a
    elif K == 'hex':
        b = None
    if b is None and not x.isf and len(x.atoms) == 1 and CUR.dom[x.atoms[0]].size() <= TABLIM and \
            x.atoms[0].width is not None:
        a = x.atoms[0]
        t = tabof(x, a)
        d = list(CUR.dom[a])
        vals = [t[v] for v in d]
        if all(isinstance(v, int) and v >= 0 for v in vals):
            w = max(vals).bit_length()
            cols = {}
            for i in range(a.width):
                cols.setdefault(tuple((v >> i) & 1 for v in d), i)
            out = []
            n = len(d)
            for j in range(w):
                col = tuple((v >> j) & 1 for v in vals)
                sm = sum(col)
                if sm == 0:
                    out.append(0)
                elif sm == n:
                    out.append(1)
                elif col in cols:
                    out.append((a, cols[col]))
                else:
                    out.append((a, RSet.vals(v for v, o in zip(d, col) if o)))
            b = tuple(out)
    if b is None and K == 'lin' and len(x.atoms) > 1:
        acc = bitsof(x.b)
        if acc is not None:
            for t, c in x.a:
                tb = bitsof(t)
                if tb is None or c <= 0 or c & (c - 1):
                    acc = None
                    break
                tb = (0,) * (c.bit_length() - 1) + tb
                acc = disjoint_or(acc, tb)
                if acc is None:
                    break
        b = acc
    x._bits = b
    return b


def disjoint_or(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = list(a)
    for i, y in enumerate(b):
        if y == 0:
            continue
        if out[i] == 0:
            out[i] = y
        else:
            return None
    return tuple(out)


def linof(x):
    """(dict key -> (term, coef), const)"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return {}, x
    l = x._lin
    if l is not None:
        return l
    K = x.kind
    if K == 'lin':
        l = ({t.key(): (t, c) for t, c in x.a}, x.b)
    elif K == 'bits' or K == 'tab':
        l = None
        if not x.isf and len(x.atoms) == 1 and CUR.dom[x.atoms[0]].size() <= TABLIM:
            a = x.atoms[0]
            t = tabof(x, a)
            d = list(CUR.dom[a])
            if len(d) >= 2:
                dv = t[d[1]] - t[d[0]]
                dx = d[1] - d[0]
                if dv % dx == 0 and dv:
                    c = dv // dx
                    k = t[d[0]] - c * d[0]
                    if all(t[v] == c * v + k for v in d):
                        at = AInt('atom', a, None, (a,))
                        l = ({at.key(): (at, c)}, k)
        if l is None and K == 'bits':
            # low zeros then full atom
            n = 0
            bits = x.a
            while bits[n] == 0:
                n += 1
            f = from_bits(bits[n:]) if n else None
            if n and isinstance(f, AInt):
                l = ({f.key(): (f, 1 << n)}, 0)
        if l is None:
            l = ({x.key(): (x, 1)}, 0)
    else:
        l = ({x.key(): (x, 1)}, 0)
    x._lin = l
    return l


def mklin(d, k):
    items = [(t, c) for t, c in d.values() if c != 0]
    if not items:
        return k
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    items.sort(key=lambda tc: repr(tc[0].key()))
    at = atoms_of(*[t for t, c in items])
    r = AInt('lin', tuple(items), k, at)
    r._lin = ({t.key(): (t, c) for t, c in items}, k)
    if len(at) == 1 and CUR.dom[at[0]].size() <= TABLIM:
        t = tabof(r, at[0])
        d0 = CUR.dom[at[0]]
        v0 = t[d0.min()]
        if all(t[v] == v0 for v in d0):
            return v0
    return r


def isreal(x):
    return isinstance(x, float) or (isinstance(x, AInt) and x.isf)


def add(a, b):
    a, b = as_num(a), as_num(b)
    if num(a) and num(b):
        return a + b
    if num(a) and type(a) is int and a == 0:
        return b
    if num(b) and type(b) is int and b == 0:
        return a
    r = pw(lambda x, y: x + y, a, b)
    if r is not None:
        return r
    if isreal(a) or isreal(b):
        raise Unmodelled('float addition on abstract values')
    ba, bb = bitsof(a), bitsof(b)
    if ba is not None and bb is not None:
        o = disjoint_or(ba, bb)
        if o is not None:
            return from_bits(o)
    d, k = linof(a)
    d2, k2 = linof(b)
    d = dict(d)
    for key, (t, c) in d2.items():
        if key in d:
            d[key] = (t, d[key][1] + c)
        else:
            d[key] = (t, c)
    # recombine  c*(x//m) + rest :  x%m is represented as x - m*(x//m), nothing to do
    return mklin(d, k + k2)


def neg(a):
    return mul(a, -1)


def sub(a, b):
    a, b = as_num(a), as_num(b)
    if num(a) and num(b):
        return a - b
    r = pw(lambda x, y: x - y, a, b)
    if r is not None:
        return r
    return add(a, neg(b))


def mul(a, b):
    a, b = as_num(a), as_num(b)
    if num(a) and num(b):
        return a * b
    r = pw(lambda x, y: x * y, a, b)
    if r is not None:
        return r
    if num(a):
        a, b = b, a
    if num(b):
        if isinstance(b, float) or isreal(a):
            raise Unmodelled('float multiplication on abstract values')
        b = int(b)
        if b == 0:
            return 0
        if b == 1:
            return a
        if b > 0 and b & (b - 1) == 0:
            bb = bitsof(a)
            if bb is not None and not (a.kind == 'atom' and len(bb) > 20):
                return from_bits((0,) * (b.bit_length() - 1) + bb)
        d, k = linof(a)
        return mklin({key: (t, c * b) for key, (t, c) in d.items()}, k * b)
    return AInt('fn', 'mul', (a, b), atoms_of(a, b))


def rng(x):
    if isinstance(x, bool):
        return int(x), int(x)
    if not isinstance(x, AInt):
        return x, x
    K = x.kind
    if K == 'atom':
        d = CUR.dom[x.a]
        return d.min(), d.max()
    if len(x.atoms) == 1 and CUR.dom[x.atoms[0]].size() <= TABLIM:
        t = tabof(x, x.atoms[0])
        vs = [t[v] for v in CUR.dom[x.atoms[0]]]
        return min(vs), max(vs)
    if K == 'bits':
        lo = hi = 0
        i, n = 0, len(x.a)
        while i < n:
            b = x.a[i]
            if b == 1:
                lo |= 1 << i
                hi |= 1 << i
            elif b != 0:
                at, w = b[0], b[0].width
                if b[1] == 0 and w and i + w <= n and all(
                        x.a[i + j] not in (0, 1) and x.a[i + j][0] is at and x.a[i + j][1] == j for j in range(1, w)):
                    d = CUR.dom[at]                 # the whole atom at this position
                    lo |= d.min() << i
                    hi |= d.max() << i
                    i += w
                    continue
                hi |= 1 << i
            i += 1
        return lo, hi
    if K == 'lin':
        lo = hi = x.b
        for t, c in x.a:
            l, h = rng(t)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        # x - m*(x//m)  == x % m
        for i, (t, c) in enumerate(x.a):
            if t.kind == 'fd' and c == -t.b and len(x.a) == 1 + len(linof(t.a)[0]):
                d, k = linof(t.a)
                if all(key in x._lin[0] and x._lin[0][key][1] == d[key][1] for key in d):
                    # = (t.a % m) + (x.b - k)
                    lo = max(lo, x.b - k)
                    hi = min(hi, t.b - 1 + x.b - k)
        return lo, hi
    if K == 'fd':
        l, h = rng(x.a)
        return l // x.b, h // x.b
    if K == 'hex':
        return (48, 70 if x.b else 102)
    if x.a in ('and',):
        return 0, 1 << 70
    return -(1 << 80), 1 << 80


def floordiv(a, c):
    a, c = as_num(a), as_num(c)
    if num(a) and num(c):
        return a // c
    r = pw(lambda x, y: x // y, a, c)
    if r is not None:
        return r
    if isreal(a) or isreal(c):
        raise Unmodelled('float division')
    if not num(c):
        return AInt('fn', 'fdiv', (a, c), atoms_of(a, c))
    if c < 0:
        return floordiv(neg(a), -c)
    if c == 1:
        return a
    if c & (c - 1) == 0:
        bb = bitsof(a)
        if bb is not None:
            return from_bits(bb[c.bit_length() - 1:])
    d, k = linof(a)
    out, rest = {}, {}
    for key, (t, co) in d.items():
        if co % c == 0:
            out[key] = (t, co // c)
        else:
            q = co // c if abs(co) > c else 0
            if q:
                out[key] = (t, q)
            rest[key] = (t, co - q * c)
    ko, kr = k // c, k % c
    if not rest:
        return mklin(out, ko)
    g = c
    for t, co in rest.values():
        g = gcd(g, co)
    if g > 1:
        rest = {key: (t, co // g) for key, (t, co) in rest.items()}
        kr //= g
        c //= g
    q = None
    if len(rest) == 1:
        (t, co), = rest.values()
        if co == 1 and t.kind == 'fd':
            q = floordiv(add(t.a, kr * t.b), c * t.b)
    if q is None:
        inner = mklin(rest, kr)
        lo, hi = rng(inner)
        if lo // c == hi // c:
            q = lo // c
        else:
            q = AInt('fd', inner, c, inner.atoms)
    return add(mklin(out, ko), q)


def mod(a, c):
    a, c = as_num(a), as_num(c)
    if num(a) and num(c):
        return a % c
    r = pw(lambda x, y: x % y, a, c)
    if r is not None:
        return r
    if isreal(a) or isreal(c):
        raise Unmodelled('float modulo')
    if not num(c):
        return AInt('fn', 'mod', (a, c), atoms_of(a, c))
    if c > 0 and c & (c - 1) == 0:
        bb = bitsof(a)
        if bb is not None:
            return from_bits(bb[:c.bit_length() - 1])
    lo, hi = rng(a)
    if 0 <= lo and hi < c:
        return a
    return sub(a, mul(floordiv(a, c), c))


def _bitop(name, f, bf, a, b):
    a, b = as_num(a), as_num(b)
    if num(a) and num(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return f(a, b)
        return f(a, b)
    r = pw(f, a, b)
    if r is not None:
        return r
    if name == 'and' and (num(a) or num(b)):
        # masks may be negative or wide
        if num(a):
            a, b = b, a
        ba = bitsof(a)
        if ba is not None:
            return from_bits(tuple(x if (b >> i) & 1 else 0 for i, x in enumerate(ba)))
        if b >= 0 and (b & (b + 1)) == 0:
            return mod(a, b + 1)
    ba, bb = bitsof(a), bitsof(b)
    if ba is not None and bb is not None:
        n = max(len(ba), len(bb))
        out = []
        for i in range(n):
            x = ba[i] if i < len(ba) else 0
            y = bb[i] if i < len(bb) else 0
            z = bf(x, y)
            if z is None:
                break
            out.append(z)
        else:
            return from_bits(out)
    return AInt('fn', name, (a, b), atoms_of(a, b))


def _band(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    return x if x == y else None


def _bor(x, y):
    if x == 1 or y == 1:
        return 1
    if x == 0:
        return y
    if y == 0:
        return x
    return x if x == y else None


def _bxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y:
        return 0
    return None


def band(a, b):
    return _bitop('and', lambda x, y: x & y, _band, a, b)


def bor(a, b):
    return _bitop('or', lambda x, y: x | y, _bor, a, b)


def bxor(a, b):
    return _bitop('xor', lambda x, y: x ^ y, _bxor, a, b)


def shl(a, n):
    a, n = as_num(a), as_num(n)
    if num(n):
        if num(a):
            return a << n
        return mul(a, 1 << n)
    r = pw(lambda x, y: x << y, a, n)
    if r is not None:
        return r
    return AInt('fn', 'shl', (a, n), atoms_of(a, n))


def shr(a, n):
    a, n = as_num(a), as_num(n)
    if num(n):
        if num(a):
            return a >> n
        return floordiv(a, 1 << n)
    r = pw(lambda x, y: x >> y, a, n)
    if r is not None:
        return r
    return AInt('fn', 'shr', (a, n), atoms_of(a, n))


def inv(a):
    return sub(-1, a)


def fn(name, *args):
    if all(num(x) for x in args):
        return FN[name](*args)
    r = pw(FN[name], *args)
    if r is not None:
        return r
    return AInt('fn', name, args, atoms_of(*args))


def hexc(nib, up):
    """char code of the hex digit for a nibble value"""
    if num(nib):
        return hexcode(nib, up)
    lo, hi = rng(nib)
    if hi <= 9:
        return add(nib, 48)
    return AInt('hex', nib, up, nib.atoms)


class Cond:
    """Abstract boolean."""
    __slots__ = ('kind', 'a', 'b', 'c', 'atoms', '_key')

    def __init__(self, kind, a, b, atoms, c=None):
        self.kind = kind
        self.a = a
        self.b = b
        self.c = c
        self.atoms = atoms
        self._key = None

    def key(self):
        if self._key is None:
            if self.kind == 'set':
                self._key = ('s', self.a.id, self.b.iv)
            elif self.kind == 'op':
                self._key = ('o', self.a) + tuple(x.key() if isinstance(x, AInt) else x for x in (self.b, self.c))
            elif self.kind == 'not':
                self._key = ('n', self.a.key())
            else:
                self._key = (self.kind,) + tuple(x.key() for x in self.a)
        return self._key

    def ev(self, s):
        if self.kind == 'set':
            return s[self.a] in self.b
        if self.kind == 'op':
            x, y = [v.ev(s) if isinstance(v, AInt) else v for v in (self.b, self.c)]
            return CMP[self.a](x, y)
        if self.kind == 'not':
            return not self.a.ev(s)
        if self.kind == 'and':
            return all(c.ev(s) for c in self.a)
        return any(c.ev(s) for c in self.a)

    def tabof(self, atom):
        s = {}
        out = {}
        for v in CUR.dom[atom]:
            s[atom] = v
            out[v] = self.ev(s)
        return out

    def as_int(self):
        if self.kind == 'set' and CUR.dom[self.a].size() <= TABLIM:
            return from_map(self.a, {v: int(v in self.b) for v in CUR.dom[self.a]})
        return int(CUR.branch(self))

    def resolve(self):
        """Re-evaluate against the current atom domains."""
        if self.kind == 'op':
            r = compare(self.a, self.b, self.c)
            if isinstance(r, Cond) and r.kind == 'op' and r.key() == self.key():
                return self
            return r
        if self.kind in ('and', 'or'):
            rs = []
            for c in self.a:
                r = c if c.kind == 'set' else c.resolve()
                if isinstance(r, Cond) and r.kind == 'set':
                    d = CUR.dom[r.a]
                    if not (d & r.b):
                        r = False
                    elif not (d - r.b):
                        r = True
                if r is True:
                    if self.kind == 'or':
                        return True
                    continue
                if r is False:
                    if self.kind == 'and':
                        return False
                    continue
                rs.append(r)
            if not rs:
                return self.kind == 'and'
            if len(rs) == 1:
                return rs[0]
            if len(rs) == len(self.a):
                return self
            return Cond(self.kind, tuple(rs), None, atoms_of(*rs))
        return self

    def __bool__(self):
        raise TypeError('Cond truth value used by host code')

    def __repr__(self):
        if self.kind == 'set':
            return '%s in %s' % (self.a.name, self.b)
        if self.kind == 'op':
            return '%s %s %s' % (self.b, self.a, self.c)
        if self.kind == 'not':
            return 'not (%s)' % self.a
        return (' %s ' % self.kind).join('(%s)' % c for c in self.a)


CMP = {
    '==': lambda x, y: x == y,
    '!=': lambda x, y: x != y,
    '<': lambda x, y: x < y,
    '<=': lambda x, y: x <= y,
    '>': lambda x, y: x > y,
    '>=': lambda x, y: x >= y,
}


def mono(x):
    """+1 nondecreasing, -1 nonincreasing, 0 const, None unknown, in its single atom."""
    if num(x):
        return 0
    K = x.kind
    if K == 'atom':
        return 1
    if K == 'fd':
        return mono(x.a)
    if K == 'lin':
        s = 0
        for t, c in x.a:
            m = mono(t)
            if m is None:
                return None
            m = m if c > 0 else -m
            if m == 0:
                continue
            if s == 0:
                s = m
            elif s != m:
                return None
        return s
    if K == 'bits':
        # top slice of one atom
        b0 = x.a[0]
        if isinstance(b0, int):
            return None
        a = b0[0]
        if type(b0[1]) is int and \
                all(not isinstance(b, int) and b[0] is a and b[1] == b0[1] + i for i, b in enumerate(x.a)) and \
                x.a[-1][1] == a.width - 1:
            return 1
    return None


def _thresh(d, atom, lo, hi, want):
    """smallest v in [lo,hi+1] with want(d(v)) for a monotone predicate false..true"""
    s = {}
    while lo <= hi:
        m = (lo + hi) // 2
        s[atom] = m
        if want(d.ev(s)):
            hi = m - 1
        else:
            lo = m + 1
    return lo


def _rngdecide(op, ra, rb):
    lo, hi = ra[0] - rb[1], ra[1] - rb[0]
    if op == '<':
        return True if hi < 0 else False if lo >= 0 else None
    if op == '<=':
        return True if hi <= 0 else False if lo > 0 else None
    if op == '>':
        return True if lo > 0 else False if hi <= 0 else None
    if op == '>=':
        return True if lo >= 0 else False if hi < 0 else None
    if lo > 0 or hi < 0:
        return op == '!='
    return None


def compare(op, a, b):
    a, b = as_num(a), as_num(b)
    if num(a) and num(b):
        return CMP[op](a, b)
    at = atoms_of(a, b)
    if len(at) == 1:
        atom = at[0]
        dom = CUR.dom[atom]
        if dom.size() <= TABLIM:
            return pw(CMP[op], a, b)
        r = _rngdecide(op, rng(a), rng(b))
        if r is not None:
            return r
        d = sub(a, b)
        if num(d):
            return CMP[op](d, 0)
        m = mono(d)
        if m:
            lo, hi = dom.min(), dom.max()
            if m > 0:
                p0 = _thresh(d, atom, lo, hi, lambda v: v >= 0)
                p1 = _thresh(d, atom, lo, hi, lambda v: v > 0)
                neg_, zero, pos = RSet.of(lo, p0 - 1), RSet.of(p0, p1 - 1), RSet.of(p1, hi)
            else:
                p0 = _thresh(d, atom, lo, hi, lambda v: v <= 0)
                p1 = _thresh(d, atom, lo, hi, lambda v: v < 0)
                pos, zero, neg_ = RSet.of(lo, p0 - 1), RSet.of(p0, p1 - 1), RSet.of(p1, hi)
            ts = {'==': zero, '!=': neg_ | pos, '<': neg_, '<=': neg_ | zero, '>': pos, '>=': pos | zero}[op] & dom
        elif dom.size() <= 200000:
            s = {}
            f = CMP[op]
            tv = []
            for v in dom:
                s[atom] = v
                if f(d.ev(s), 0):
                    tv.append(v)
            ts = RSet.vals(tv)
        else:
            return _ivdecide(op, a, b, at)
        if not ts:
            return False
        if ts == dom:
            return True
        return Cond('set', atom, ts, (atom,))
    return _ivdecide(op, a, b, at)


def _ivdecide(op, a, b, at):
    if op in ('==', '!='):
        ba, bb = bitsof(a), bitsof(b)
        if ba is not None and bb is not None:
            diff = False
            for i in range(max(len(ba), len(bb))):
                x = ba[i] if i < len(ba) else 0
                y = bb[i] if i < len(bb) else 0
                if x != y:
                    diff = True
                    if isinstance(x, int) and isinstance(y, int):
                        return op == '!='
            if not diff:
                return op == '=='
            if num(a) or num(b):
                # conjunction of per-atom bit constraints: exact for small atoms
                v, x = (a, b) if num(a) else (b, a)
                xb = ba if x is a else bb
                need = {}
                for i in range(len(xb)):
                    if not isinstance(xb[i], int):
                        need.setdefault(xb[i][0], []).append((xb[i][1], (v >> i) & 1))
                if v.bit_length() > len(xb):
                    return op == '!='
                if all(CUR.dom[z].size() <= JOINT for z in need):
                    cs = []
                    for z, rq in need.items():
                        ok = RSet.vals(q for q in CUR.dom[z] if all(bitval((z, i), q) == r for i, r in rq))
                        if not ok:
                            return op == '!='
                        if ok != CUR.dom[z]:
                            cs.append(Cond('set', z, ok, (z,)))
                    if not cs:
                        return op == '=='
                    c = cs[0] if len(cs) == 1 else Cond('and', tuple(cs), None, tuple(x.a for x in cs))
                    return c if op == '==' else cnot(c)
    d = sub(a, b)
    if num(d):
        return CMP[op](d, 0)
    lo, hi = rng(d)
    if op == '==' and (lo > 0 or hi < 0):
        return False
    if op == '!=' and (lo > 0 or hi < 0):
        return True
    if op == '<':
        if hi < 0:
            return True
        if lo >= 0:
            return False
    if op == '<=':
        if hi <= 0:
            return True
        if lo > 0:
            return False
    if op == '>':
        if lo > 0:
            return True
        if hi <= 0:
            return False
    if op == '>=':
        if lo >= 0:
            return True
        if hi < 0:
            return False
    return Cond('op', op, a, at, b)


def cnot(c):
    if isinstance(c, bool):
        return not c
    if c.kind == 'set':
        return Cond('set', c.a, CUR.dom[c.a] - c.b, c.atoms)
    if c.kind == 'op':
        op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[c.a]
        return Cond('op', op, c.b, c.atoms, c.c)
    if c.kind == 'not':
        return c.a
    return Cond('not', c, None, c.atoms)


def nonzero(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, AInt):
        return compare('!=', x, 0)
    return x != 0


# ---------------------------------------------------------------- equality of abstract results
def bit_same(x, y):
    if x == y:
        return True
    ats = [z[0] for z in (x, y) if not isinstance(z, int)]
    if not ats or (len(ats) == 2 and ats[0] is not ats[1]):
        return False
    d = CUR.dom[ats[0]]
    if d.size() > TABLIM:
        return False
    return all((x if isinstance(x, int) else bitval(x, v)) == (y if isinstance(y, int) else bitval(y, v)) for v in d)


def _corners(atoms, dom):
    """A small deterministic family of assignments used only to exhibit a difference already shown in form."""
    base = [{a: dom[a].min() for a in atoms}, {a: dom[a].max() for a in atoms}]
    for s in base:
        yield dict(s)
    for a in atoms:
        d = dom[a]
        cand = set()
        for lo, hi in d.iv[:16] + d.iv[-16:]:
            cand.update((lo, hi))
        if a.width:
            for i in range(min(a.width, 72)):
                for v in (1 << i, d.max() ^ (1 << i) if d.max() >= 0 else 0, (1 << i) | d.min()):
                    cand.add(v)
        if d.size() <= 300:
            cand.update(d)
        else:
            span = d.max() - d.min()
            for i in range(1, 40):
                cand.add(d.min() + span * i // 40)
                cand.add(d.min() + span * i // 40 + i)
        for v in sorted(cand):
            if v in d:
                for s in base:
                    s2 = dict(s)
                    s2[a] = v
                    yield s2
    # pseudo-mixed assignments
    seed = 12345
    for _ in range(200):
        s = {}
        for a in atoms:
            d = dom[a]
            seed = (seed * 1103515245 + 12345) & 0x7fffffff
            n = d.size()
            k = (seed * 65537 + (seed >> 7)) % n
            for lo, hi in d.iv:
                if k <= hi - lo:
                    s[a] = lo + k
                    break
                k -= hi - lo + 1
        yield s


def ev(x, s):
    return x.ev(s) if isinstance(x, (AInt, Cond)) else x


def constraints_ok(s, extra_atoms):
    for c, r in CUR.constraints:
        if any(a not in s for a in c.atoms):
            return None
        if c.ev(s) != r:
            return False
    return True


def full_assign(s):
    """extend s over the atoms of path constraints"""
    s = dict(s)
    for c, r in CUR.constraints:
        for a in c.atoms:
            if a not in s:
                s[a] = CUR.dom[a].min()
    return s


def samples(d, rnd):
    if d.size() <= 48:
        return list(d)
    lo, hi = d.min(), d.max()
    vs = {lo, hi}
    while len(vs) < 24:
        v = rnd.randint(lo, hi)
        if v in d:
            vs.add(v)
        elif d.size() * 50 < hi - lo:
            break
    return sorted(vs)


def solve(s, fuel):
    """s extended over the atoms of the path constraints so that they hold, found by local search; or None"""
    cons = CUR.constraints
    base = full_assign(s)
    if constraints_ok(base, ()):
        return base
    free = [a for c, r in cons for a in c.atoms if a not in s]
    free = list(dict.fromkeys(free))
    if not free:
        return None
    import random
    rnd = random.Random(7)
    vals = {a: samples(CUR.dom[a], rnd) for a in free}

    def broken(t):
        fuel[0] -= len(cons)
        return sum(1 for c, r in cons if c.ev(t) != r)
    starts = [base, {**base, **{a: CUR.dom[a].max() for a in free}}]
    for k in range(12):
        t = starts[k] if k < 2 else {**base, **{a: rnd.choice(vals[a]) for a in free}}
        n = broken(t)
        for step in range(8):
            if not n:
                return t
            best = None
            bad = [c for c, r in cons if c.ev(t) != r]
            for a in dict.fromkeys(x for c in bad for x in c.atoms if x in vals):
                for v in vals[a]:
                    if fuel[0] <= 0:
                        return None
                    m = broken({**t, a: v})
                    if m < n and (best is None or m < best[0]):
                        best = m, a, v
                        if m == 0:
                            return {**t, a: v}
            if best is None:
                break
            n, a, v = best
            t = {**t, a: v}
    return None


def same(a, b):
    """(True, None) | (False, witness) | (None, reason): do a and b agree for every value of the atoms on this trace?"""
    if num(a) and num(b):
        if a == b and isinstance(a, float) == isinstance(b, float):
            return True, None
        return (True, None) if a == b else (False, {})
    if isinstance(a, (AInt, Cond)) and isinstance(b, (AInt, Cond)) and type(a) is type(b) and a.key() == b.key():
        return True, None
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, (AInt, Cond)) and not isinstance(x, (int, float)):
            return False, {}
    at = atoms_of(a, b)
    joint = 1
    for z in at:
        joint *= CUR.dom[z].size()
        if joint > JOINT:
            break
    cons_atoms = set(z for c, r in CUR.constraints for z in c.atoms)

    def wit(s):
        if cons_atoms:
            return solve(s, fuel)
        return s
    fuel = [20000]
    if joint <= JOINT:
        lost = False
        doms = [list(CUR.dom[z]) for z in at]
        idx = [0] * len(at)
        s = {}
        import itertools
        for combo in itertools.product(*doms):
            s = dict(zip(at, combo))
            if ev(a, s) != ev(b, s):
                w = wit(s)
                if w is not None:
                    return False, w
                lost = True
        if lost:
            return None, 'differs only on assignments excluded by (or not shown to satisfy) relational path conditions'
        return True, None
    ia, ib = as_num(a) if isinstance(a, AInt) or num(a) else None, as_num(b) if isinstance(b, AInt) or num(b) else None
    if ia is not None and ib is not None:
        ba, bb = bitsof(ia), bitsof(ib)
        if ba is not None and bb is not None:
            n = max(len(ba), len(bb))
            if all(bit_same(x, y) for x, y in
                   zip(tuple(ba) + (0,) * (n - len(ba)), tuple(bb) + (0,) * (n - len(bb)))):
                return True, None
        if ia is not None and not isreal(ia) and not isreal(ib):
            try:
                d = sub(ia, ib)
                if num(d):
                    return (True, None) if d == 0 else (False, wit({z: CUR.dom[z].min() for z in at}) or {})
                if rng(d) == (0, 0):
                    return True, None
            except Unmodelled:
                pass
    for s in _corners(at, CUR.dom):
        if ev(a, s) != ev(b, s):
            w = wit(s)
            if w is not None:
                return False, w
    return None, 'forms differ but no distinguishing assignment found'
