"""Abstract models of the Python-2 builtins and of the library modules the package uses."""
import importlib
import decimal
import math as hmath
import mimetypes as hmime
import posixpath
import sys as hsys
import datetime as hdt
from . import dom as D
from . import frontend
from .dom import AInt, Cond, Unmodelled, compare, num
from .values import *

NUMT = (int, bool, float, AInt, Cond)

EXC_TREE = [
    ('BaseException', None), ('Exception', 'BaseException'), ('SystemExit', 'BaseException'),
    ('KeyboardInterrupt', 'BaseException'), ('GeneratorExit', 'BaseException'),
    ('StopIteration', 'Exception'), ('StandardError', 'Exception'), ('Warning', 'Exception'),
    ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
    ('ArithmeticError', 'StandardError'), ('OverflowError', 'ArithmeticError'),
    ('ZeroDivisionError', 'ArithmeticError'), ('FloatingPointError', 'ArithmeticError'),
    ('AssertionError', 'StandardError'), ('AttributeError', 'StandardError'),
    ('EnvironmentError', 'StandardError'), ('IOError', 'EnvironmentError'), ('OSError', 'EnvironmentError'),
    ('EOFError', 'StandardError'), ('ImportError', 'StandardError'), ('LookupError', 'StandardError'),
    ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('MemoryError', 'StandardError'),
    ('NameError', 'StandardError'), ('UnboundLocalError', 'NameError'), ('RuntimeError', 'StandardError'),
    ('NotImplementedError', 'RuntimeError'), ('SyntaxError', 'StandardError'), ('SystemError', 'StandardError'),
    ('TypeError', 'StandardError'), ('ValueError', 'StandardError'), ('UnicodeError', 'ValueError'),
    ('UnicodeDecodeError', 'UnicodeError'), ('UnicodeEncodeError', 'UnicodeError'),
    ('ReferenceError', 'StandardError'), ('BufferError', 'StandardError'),
]


def opaque_str(why, uni=False):
    C = D.ctx()
    n = C.atom('len(%s)' % why, (0, 4000))
    e = C.atom('char(%s)' % why, (0, 255))
    C.opaque += [(n, C.dom[n.atoms[0]]), (e, C.dom[e.atoms[0]])]
    return S((Seg(Base(why, n, e, uni), (e,)),), uni)


def has_seg(items):
    return any(type(x) is Seg for x in items)


# ---------------------------------------------------------------- conversions
def py_str(I, v):
    """str(v) -> S"""
    t = type(v)
    if t is S:
        if v.uni:
            C = D.ctx()
            for x in v.items:
                if type(x) is int:
                    if x > 127:
                        I.err('UnicodeEncodeError', "'ascii' codec can't encode character")
                elif type(x) is Seg:
                    raise Unmodelled('str() of unknown unicode')
                elif not C.branch(compare('<', x, 128)):
                    I.err('UnicodeEncodeError', "'ascii' codec can't encode character")
            return S(v.items, False)
        return v
    if t is AArray and v.tc == 'y':
        return S(v.items)
    if t is ADatetime:
        return dt_iso(I, v, ' ')
    if t is AObj:
        m = v.cls.find('__str__') or v.cls.find('__repr__')
        if m is not None:
            return I.call(I.bind_attr(m, v, v.cls), [])
        if I.types['BaseException'] in v.cls.mro:
            a = v.attrs.get('args', ())
            if not isinstance(a, tuple):
                return opaque_str('exception text')
            if len(a) == 0:
                return st('')
            if len(a) == 1:
                if v.cls.name == 'KeyError':
                    return py_repr(I, a[0])
                return py_str(I, a[0])
            return py_repr(I, a)
        return opaque_str('<%s instance>' % v.cls.name)
    return py_repr(I, v)


def num_text(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if v == int(v) and abs(v) < 1e16:
        return '%.1f' % v
    return '%.12g' % v


def int_str(I, v, fmt):
    """format an AInt/Cond with a host function of its value"""
    at = v.atoms
    if len(at) == 1 and D.ctx().dom[at[0]].size() <= D.TABLIM:
        a = at[0]
        t = D.tabof(v, a) if isinstance(v, AInt) else v.tabof(a)
        return I.from_objmap(a, {x: st(fmt(t[x])) for x in D.ctx().dom[a]})
    if fmt is num_text and isinstance(v, AInt):
        r = int_digits(v)
        if r is not None:
            return S(r)
    return opaque_str('text of %s' % v)


def int_digits(v):
    """decimal digits of a natural number, one path for each number of digits; None where that is too many"""
    C = D.ctx()
    lo, hi = D.rng(v)
    if lo is None or hi is None or lo < 0 or len(str(hi)) > 12 or len(str(hi)) - len(str(lo)) > 4:
        return None
    for w in range(len(str(lo)), len(str(hi))):
        if C.branch(compare('<', v, 10 ** w)):
            return digits(v, w)
    return digits(v, len(str(hi)))


def py_repr(I, v):
    t = type(v)
    if v is None:
        return st('None')
    if t in (bool, int, float):
        return st(num_text(v))
    if t is AInt or t is Cond:
        return int_str(I, v, num_text)
    if t is S:
        if v.conc():
            tx = v.text()
            if all(32 <= ord(c) < 127 and c not in "'\\" for c in tx):
                return st(('u' if v.uni else '') + "'" + tx + "'")
            r = repr(tx)
            return st(('u' if v.uni else '') + r)
        return opaque_str('repr of string')
    if t is tuple or t is AList:
        items = v if t is tuple else v.items
        if has_seg(items):
            return opaque_str('repr')
        out = []
        for i, x in enumerate(items):
            if i:
                out += [44, 32]
            out += py_repr(I, x).items
        if t is tuple:
            return S([40] + out + ([44] if len(items) == 1 else []) + [41])
        return S([91] + out + [93])
    if t is AObj and v.cls.find('__repr__') is not None:
        return I.call(I.bind_attr(v.cls.find('__repr__'), v, v.cls), [])
    if t is ADict:
        out = [123]
        for i, (k, x) in enumerate(v.d.values()):
            if i:
                out += [44, 32]
            out += list(py_repr(I, k).items) + [58, 32] + list(py_repr(I, x).items)
        return S(out + [125])
    if t is AObj and v.host is None and v.cls.find('__repr__') is None and I.types['BaseException'] in v.cls.mro:
        return I.binop('Add', st(v.cls.name), py_repr(I, v.attrs.get('args', ())))
    return opaque_str('repr of %s' % (I.typename(v) if not isinstance(v, Opaque) else 'unknown'))


def to_unicode(I, v):
    if type(v) is S:
        return I.to_uni(v)
    if type(v) is AObj:
        m = v.cls.find('__unicode__')
        if m is not None:
            return I.call(I.bind_attr(m, v, v.cls), [])
    s = py_str(I, v)
    return S(s.items, True)


# ---------------------------------------------------------------- % formatting
def str_format(I, f, args):
    if not f.conc():
        if has_seg(f.items) or any(type(x) is not int and (37 in _image(x)) for x in f.items):
            raise Unmodelled('abstract format string')
    uni = f.uni
    out = []
    items = f.items
    i = 0
    if isinstance(args, tuple):
        pos = list(args)
    else:
        pos = [args]
    single = not isinstance(args, tuple)
    used = 0
    n = len(items)
    while i < n:
        c = items[i]
        if c != 37 or type(c) is not int:
            out.append(c)
            i += 1
            continue
        i += 1
        key = None
        if i < n and items[i] == 40:
            j = i
            while items[j] != 41:
                j += 1
            key = ''.join(map(chr, items[i + 1:j]))
            i = j + 1
        flags = ''
        while i < n and type(items[i]) is int and chr(items[i]) in '#0- +':
            flags += chr(items[i])
            i += 1
        width = ''
        star = False
        if i < n and items[i] == 42:
            star = True
            i += 1
        while i < n and 48 <= items[i] <= 57:
            width += chr(items[i])
            i += 1
        prec = None
        if i < n and items[i] == 46:
            i += 1
            prec = ''
            while i < n and 48 <= items[i] <= 57:
                prec += chr(items[i])
                i += 1
        while i < n and items[i] in (104, 108, 76):
            i += 1
        if i >= n:
            I.err('ValueError', 'incomplete format')
        ch = chr(items[i])
        i += 1
        if ch == '%':
            out.append(37)
            continue
        if star:
            if used >= len(pos):
                I.err('TypeError', 'not enough arguments for format string')
            width = str(I.index(pos[used]))
            used += 1
        if key is not None:
            if type(args) is not ADict:
                I.err('TypeError', 'format requires a mapping')
            v = I.getitem(args, st(key))
        else:
            if used >= len(pos):
                I.err('TypeError', 'not enough arguments for format string')
            v = pos[used]
            used += 1
        s = fmt_one(I, ch, v, flags, width, prec)
        if s.uni and not uni:
            uni = True
        out.extend(s.items)
    if used < len(pos) and not (single and (type(args) is ADict or (used == 0 and type(args) in (ADict,)))):
        I.err('TypeError', 'not all arguments converted during string formatting')
    if uni and not f.uni:
        I.to_uni(f)
    return S(out, uni)


def _image(x):
    if type(x) is int:
        return (x,)
    if len(x.atoms) == 1 and D.ctx().dom[x.atoms[0]].size() <= D.TABLIM:
        t = D.tabof(x, x.atoms[0])
        return set(t[v] for v in D.ctx().dom[x.atoms[0]])
    lo, hi = D.rng(x)
    if hi - lo < 100000:
        return range(lo, hi + 1)
    return range(0, 65536)


def fmt_one(I, ch, v, flags, width, prec):
    if ch in 'sr':
        if ch == 's':
            s = v if type(v) is S else (py_str(I, v) if type(v) is not Opaque else opaque_str('unknown'))
        else:
            s = py_repr(I, v)
        if prec:
            s = I.getitem(s, SliceV(None, int(prec), None))
        return pad(I, s, width, flags)
    if ch == 'c':
        if type(v) is S:
            s = v
        elif type(v) in NUMT:
            s = S((v if type(v) is int else D.as_num(v),))
        else:
            I.err('TypeError', '%c requires int or char')
        return pad(I, s, width, flags)
    if ch in 'diuxXo':
        if type(v) in (S, tuple, AList, ADict, AArray) or v is None or type(v) is AObj:
            if type(v) is AObj and v.cls.find('__int__') is not None:
                v = I.call(v.cls.find('__int__'), [v])
            else:
                I.err('TypeError', '%%%s format: a number is required, not %s' % (ch, I.typename(v)))
        if type(v) is Opaque:
            return opaque_str('number')
        if ch in 'xXo' and (isinstance(v, float) or type(v) is AReal or (type(v) is AInt and v.isf)):
            v = to_int(I, v)
        if type(v) is AReal:
            v = to_int(I, v)
        spec = '%' + flags + width + (('.' + prec) if prec is not None else '') + ('d' if ch in 'iu' else ch)
        if type(v) in (int, bool, float):
            return st(spec % int(v))
        v = D.as_num(v)
        if type(v) in (int, bool):
            return st(spec % int(v))
        if ch in 'xX' and flags in ('', '0') and prec is None:
            w = int(width) if width else 0
            r = hex_digits(v, ch == 'X', w if flags else 0)
            if r is not None:
                return S([48 if flags else 32] * (w - len(r)) + r)
        if len(v.atoms) == 1 and D.ctx().dom[v.atoms[0]].size() <= D.TABLIM:
            return int_str(I, v, lambda x: spec % int(x))
        if ch in 'diu' and prec is None:
            lo, hi = D.rng(v)
            w = int(width) if width else 0
            if lo >= 0 and '0' in flags and len(str(hi)) <= w <= 6:
                return S([D.add(48, D.mod(D.floordiv(v, 10 ** k), 10)) for k in range(w - 1, -1, -1)])
            if flags in ('', '0', '-'):
                r = int_digits(v)
                if r is not None:
                    n = max(0, w - len(r))
                    return S(r + [32] * n if flags == '-' else [48 if flags else 32] * n + r)
        return opaque_str('formatted %s' % (v,))
    if ch in 'feEgG':
        if type(v) in (int, bool, float):
            return st(('%' + flags + width + (('.' + prec) if prec is not None else '') + ch) % v)
        if type(v) is AInt and len(v.atoms) == 1 and D.ctx().dom[v.atoms[0]].size() <= D.TABLIM:
            spec = '%' + flags + width + (('.' + prec) if prec is not None else '') + ch
            return int_str(I, v, lambda x: spec % x)
        if type(v) in (AInt, Cond, AReal):
            return opaque_str('float text')
        I.err('TypeError', 'float argument required')
    I.err('ValueError', 'unsupported format character %r' % ch)


def hex_digits(v, upper=False, least=0):
    """hexadecimal digits of a natural number (at least so many), one path for each number of digits; None: too many"""
    lo, hi = D.rng(v)
    if lo is None or hi is None or lo < 0 or hi >= 1 << 256 or (D.bitsof(v) is None and len(v.atoms) != 1):
        return None
    a, b = [max(1, least, (x.bit_length() + 3) // 4) for x in (lo, hi)]
    if b - a > 12:
        return None
    for n in range(a, b + 1):
        if n == b or D.ctx().branch(compare('==', D.shr(v, 4 * n), 0)):
            return [D.hexc(D.band(D.shr(v, 4 * k), 15), upper) for k in range(n - 1, -1, -1)]


def pad(I, s, width, flags):
    if not width:
        return s
    if has_seg(s.items):
        raise Unmodelled('padding of unknown text')
    n = int(width) - len(s.items)
    if n <= 0:
        return s
    if '-' in flags:
        return S(s.items + (32,) * n, s.uni)
    return S((32,) * n + s.items, s.uni)


def new_format(I, f, args, kw):
    """str.format subset"""
    if not f.conc():
        raise Unmodelled('abstract format string')
    import string
    out = []
    uni = f.uni
    auto = 0
    try:
        parsed = list(string.Formatter().parse(f.text()))
    except ValueError as e:
        I.err('ValueError', str(e))
    for lit, field, spec, conv in parsed:
        out += [ord(c) for c in lit]
        if field is None:
            continue
        import re
        m = re.match(r'^([^.\[]*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            name = str(auto)
            auto += 1
        if name.isdigit():
            if int(name) >= len(args):
                I.err('IndexError', 'tuple index out of range')
            v = args[int(name)]
        else:
            if name not in kw:
                I.err('KeyError', name)
            v = kw[name]
        for a, b in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = I.getattr(v, a) if a else I.getitem(v, int(b) if b.isdigit() else st(b))
        if conv == 'r':
            v = py_repr(I, v)
        elif conv == 's':
            v = py_str(I, v)
        if spec and '{' in spec:
            if '{}' in spec:
                raise Unmodelled('format spec %s' % spec)
            spec = new_format(I, st(spec), args, kw)
            if not spec.conc():
                raise Unmodelled('abstract format spec')
            spec = spec.text()
        mm = re.match(r'^(?:(.)?([<>=^]))?([+\- ]?)(#?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z%]?)$', spec or '')
        if not mm:
            raise Unmodelled('format spec %s' % spec)
        fill, al, sign, alt, zero, width, prec, ty = mm.groups()
        if ty == '':
            ty = 'd' if type(v) in (int, AInt) else 's'
        if fill == '0' and al == '>' and ty in 'dxX':
            zero, al, fill = '0', None, None
        late = None
        if al == '=':
            if fill not in (None, '0'):
                raise Unmodelled('format spec %s' % spec)
            zero, al, width = '0' if fill else zero, None, width
        elif al is not None and (fill not in (None, ' ') or al == '^' or al == '<' and ty != 's' or ty == 'b'):
            if not (al == '>' and zero):
                late, width, al, zero = (al, fill or ' ', int(width or 0)), '', None, ''
        if ty in 'dxXofg':
            s = fmt_one(I, ty, v, ('0' if zero else '') + sign + alt, width, prec)
        elif ty == 's':
            s = v if type(v) is S else py_str(I, v)
            if al == '>' or (not al and type(v) not in (S,)):
                s = pad(I, s, width, '')
            else:
                s = pad(I, s, width, '-')
        elif ty == 'b' and not al and not sign and not alt and prec is None and type(v) in NUMT:
            s = b_bin(I, [v], {})
            s = I.getitem(s, SliceV(2, None, None))
            s = STR['zfill' if zero else 'rjust'](I, s, [int(width or 0)], {})
        else:
            raise Unmodelled('format spec %s' % spec)
        if late is not None:
            if has_seg(s.items):
                raise Unmodelled('padding of unknown text')
            n = max(0, late[2] - len(s.items))
            left = {'<': 0, '>': n, '^': n // 2}[late[0]]
            s = S((ord(late[1]),) * left + tuple(s.items) + (ord(late[1]),) * (n - left), s.uni)
        if s.uni and not uni:
            s = py_str(I, s)
        out.extend(s.items)
    return S(out, uni)


# ---------------------------------------------------------------- numbers
def to_int(I, v, base=None):
    t = type(v)
    if t is S:
        return parse_int(I, v, 10 if base is None else I.index(base))
    if base is not None:
        I.err('TypeError', "int() can't convert non-string with explicit base")
    if t in (int, bool):
        return int(v)
    if t is float:
        return int(v)
    if t is Cond:
        return v.as_int()
    if t is AInt:
        if v.isf:
            r = D.pw(int, v)
            if r is None:
                raise Unmodelled('int of abstract float')
            return r
        return v
    if t is AReal:
        if v.den == 1:
            return v.num
        if D.ctx().branch(compare('>=', v.num, 0)):
            return D.floordiv(v.num, v.den)
        return D.neg(D.floordiv(D.neg(v.num), v.den))
    if t is AObj and v.cls.find('__int__') is not None:
        return I.call(v.cls.find('__int__'), [v])
    if t is Opaque:
        raise Unmodelled('int of unknown')
    I.err('TypeError', "int() argument must be a string or a number, not '%s'" % I.typename(v))


def digit_val(c, base):
    if 48 <= c <= 57:
        d = c - 48
    elif 97 <= c <= 122:
        d = c - 87
    elif 65 <= c <= 90:
        d = c - 55
    else:
        return -1
    return d if d < base else -1


def parse_int(I, s, base):
    C = D.ctx()
    if has_seg(s.items):
        raise Unmodelled('int() of text of unknown length')
    items = list(s.items)
    if all(type(x) is int for x in items):
        tx = ''.join(map(chr, items))
        if '_' in tx or (any(ord(c) > 127 for c in tx) and not s.uni):
            I.err('ValueError', 'invalid literal for int() with base %d: %r' % (base, tx))
        try:
            return int(tx, base) if base != 0 else int(tx, 0)
        except ValueError:
            I.err('ValueError', 'invalid literal for int() with base %d: %r' % (base, tx))
    if base == 10:
        for dg, v in C.numtext:
            if len(dg) == len(items) and I.items_same(dg, items):
                return v
    blank = (9, 10, 11, 12, 13, 32)

    def among(x, vals):
        if type(x) is int:
            return x in vals
        if x.kind == 'hex':
            return False
        at = x.atoms
        if len(at) != 1 or C.dom[at[0]].size() > D.JOINT:
            raise Unmodelled('int() of wide characters')
        hit = [q for q in C.dom[at[0]] if x.ev({at[0]: q}) in vals]
        return bool(hit) and C.branch(Cond('set', at[0], D.RSet.vals(hit), (at[0],)))
    while items and among(items[0], blank):
        items.pop(0)
    while items and among(items[-1], blank):
        items.pop()
    sign = 1
    if items and among(items[0], (43, 45)):
        sign = -1 if among(items[0], (45,)) else 1
        items.pop(0)
    if base == 16 and len(items) > 2 and items[0] == 48 and type(items[1]) is int and items[1] in (120, 88):
        items = items[2:]
    total = 0
    for x in items:
        if type(x) is int:
            d = digit_val(x, base)
            if d < 0:
                # could still be rejected only; abstract neighbours cannot rescue an invalid digit
                I.err('ValueError', 'invalid literal for int()')
        elif x.kind == 'hex':
            if base < 16:
                if not C.branch(compare('<', x.a, base)):
                    I.err('ValueError', 'invalid literal for int()')
            d = x.a
        else:
            at = x.atoms
            if len(at) != 1 or C.dom[at[0]].size() > D.JOINT:
                raise Unmodelled('int() of wide characters')
            a = at[0]
            tt = {}
            ok, bad = [], []
            ss = {}
            for v in C.dom[a]:
                ss[a] = v
                c = x.ev(ss)
                d = digit_val(c, base)
                tt[v] = d
                if d >= 0:
                    ok.append(v)
                else:
                    bad.append(v)
                    if c > 127 and s.uni:
                        # a non-ASCII blank or digit could be accepted here
                        if not C.branch(Cond('set', a, C.dom[a] - D.RSet.vals(
                                q for q in C.dom[a] if x.ev({a: q}) > 127), (a,))):
                            raise Unmodelled('int() of text with non-ASCII blanks or digits')
                        break
            tt = {}
            ok = []
            for v in C.dom[a]:
                ss[a] = v
                d = digit_val(x.ev(ss), base)
                tt[v] = d
                if d >= 0:
                    ok.append(v)
            if not ok:
                I.err('ValueError', 'invalid literal for int()')
            if not C.branch(Cond('set', a, D.RSet.vals(ok), (a,))):
                I.err('ValueError', 'invalid literal for int()')
            d = D.from_map(a, {v: tt[v] for v in C.dom[a]})
        total = D.add(D.mul(total, base), d)
    if not items:
        I.err('ValueError', 'invalid literal for int()')
    return total if sign == 1 else D.neg(total)


def to_float(I, v):
    t = type(v)
    if t in (int, bool, float):
        return float(v)
    if t is AReal:
        return v
    if t is Cond:
        v = v.as_int()
        return to_float(I, v)
    if t is AInt:
        if v.isf:
            return v
        r = D.pw(float, v)
        if r is not None:
            return r
        return AReal(v, 1)
    if t is S:
        try:
            return float(v.text())
        except ValueError:
            I.err('ValueError', 'could not convert string to float')
    I.err('TypeError', 'float() argument must be a string or a number')


def b_ord(I, a, kw):
    s = a[0]
    if type(s) is not S:
        I.err('TypeError', 'ord() expected string of length 1, but %s found' % I.typename(s))
    if has_seg(s.items):
        raise Unmodelled('ord of text of unknown length')
    if len(s.items) != 1:
        I.err('TypeError', 'ord() expected a character, but string of length %d found' % len(s.items))
    return s.items[0]


def b_chr(I, a, kw, lim=256, uni=False, nm='chr'):
    v = a[0]
    if type(v) in (bool, float):
        v = int(v)
    if type(v) is Cond:
        v = v.as_int()
    if type(v) is AReal:
        I.err('TypeError', 'integer argument expected, got float')
    if type(v) is int:
        if not 0 <= v < lim:
            I.err('ValueError', '%s() arg not in range(%d)' % (nm, lim))
        return S((v,), uni)
    if type(v) is AInt:
        if v.isf:
            I.err('TypeError', 'integer argument expected, got float')
        C = D.ctx()
        if not C.branch(compare('>=', v, 0)) or not C.branch(compare('<', v, lim)):
            I.err('ValueError', '%s() arg not in range(%d)' % (nm, lim))
        return S((v,), uni)
    if type(v) is Opaque:
        raise Unmodelled('chr of unknown')
    I.err('TypeError', 'an integer is required')


def b_len(I, a, kw):
    v = a[0]
    t = type(v)
    if t is S:
        return I.seqlen(v.items)
    if t is tuple:
        return I.seqlen(v)
    if t is AList or t is AArray:
        return I.seqlen(v.items)
    if t is ADict or t is ASet:
        return len(v.d)
    if t is XRange:
        return len(v.host())
    if t is AObj:
        m = v.cls.find('__len__')
        if m is not None:
            return I.call(I.bind_attr(m, v, v.cls), [])
    if t is Opaque:
        raise Unmodelled('len of unknown')
    I.err('TypeError', "object of type '%s' has no len()" % I.typename(v))


def b_range(I, a, kw):
    v = [I.index(to_idx(I, x)) for x in a]
    if len(v) == 3 and v[2] == 0:
        I.err('ValueError', 'range() arg 3 must not be zero')
    r = range(*v)
    if len(r) > 200000:
        raise Unmodelled('huge range')
    return AList(list(r))


def to_idx(I, x):
    if type(x) in (int, bool, AInt, Cond):
        return x
    if isinstance(x, float):
        I.err('TypeError', 'integer argument expected, got float')
    I.err('TypeError', 'an integer is required')


def b_xrange(I, a, kw):
    v = [I.index(to_idx(I, x)) for x in a]
    if len(v) == 1:
        return XRange(0, v[0], 1)
    if len(v) == 2:
        return XRange(v[0], v[1], 1)
    if v[2] == 0:
        I.err('ValueError', 'xrange() arg 3 must not be zero')
    return XRange(*v)


def mapped(I, f, seqs):
    if len(seqs) == 1:
        s = seqs[0]
        t = type(s)
        if t in (S, tuple, AList, AArray):
            items = s if t is tuple else s.items
            if has_seg(items):
                out = []
                for x in items:
                    if type(x) is Seg:
                        els = [S((e,), s.uni) if t is S else e for e in x.elems]
                        res = [I.call(f, [e]) if f is not None else e for e in els]
                        rs = []
                        for r in res:
                            if type(r) in (int, AInt):
                                rs.append(r)
                            else:
                                rs.append(r)
                        out.append(Seg(x.base, rs))
                    else:
                        e = S((x,), s.uni) if t is S else x
                        out.append(I.call(f, [e]) if f is not None else e)
                return AList(out)
        return AList([I.call(f, [x]) if f is not None else x for x in I.iterate(s)])
    ls = [list(I.iterate(s)) for s in seqs]
    n = max(map(len, ls))
    out = []
    for i in range(n):
        args = [l[i] if i < len(l) else None for l in ls]
        out.append(I.call(f, args) if f is not None else tuple(args))
    return AList(out)


def b_filter(I, a, kw):
    f, s = a
    out = [x for x in I.iterate(s) if I.test(x if f is None else I.call(f, [x]))]
    if type(s) is S:
        return S([x.items[0] for x in out], s.uni)
    if type(s) is tuple:
        return tuple(out)
    return AList(out)


def b_reduce(I, a, kw):
    it = I.iterate(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        acc = MISSING
        for x in it:
            acc = x
            break
        if acc is MISSING:
            I.err('TypeError', 'reduce() of empty sequence with no initial value')
    for x in it:
        acc = I.call(a[0], [acc, x])
    return acc


def b_sum(I, a, kw):
    acc = a[1] if len(a) > 1 else 0
    if type(acc) is S:
        I.err('TypeError', "sum() can't sum strings")
    for x in I.iterate(a[0]):
        acc = I.binop('Add', acc, x)
    return acc


def minmax(op):
    def f(I, a, kw):
        xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not xs:
            I.err('ValueError', '%s() arg is an empty sequence' % ('min' if op == '<' else 'max'))
        key = kw.get('key')
        best = xs[0]
        bk = I.call(key, [best]) if key is not None else best
        for x in xs[1:]:
            k = I.call(key, [x]) if key is not None else x
            if D.ctx().branch(I.order(op, k, bk)):
                best, bk = x, k
        return best
    return f


def do_sort(I, items, kw):
    key = kw.get('key')
    cmpf = kw.get('cmp')
    rev = I.test(kw.get('reverse', False))
    import functools
    keyed = [(I.call(key, [x]) if key is not None else x, x) for x in items]

    def c(p, q):
        if cmpf is not None:
            r = I.call(cmpf, [p[0], q[0]])
            r = D.ctx().concretize(r)
            return r
        if D.ctx().branch(I.order('<', p[0], q[0])):
            return -1
        if D.ctx().branch(I.order('<', q[0], p[0])):
            return 1
        return 0
    if has_seg(items):
        raise Unmodelled('sort of a sequence of unknown length')
    keyed.sort(key=functools.cmp_to_key(c), reverse=rev)
    return [x for k, x in keyed]


def b_sorted(I, a, kw):
    kw = dict(kw)
    if len(a) > 1:
        kw['cmp'] = a[1]
    return AList(do_sort(I, list(I.iterate(a[0])), kw))


def b_isinstance(I, a, kw):
    return I.isinst(a[0], a[1])


def b_issubclass(I, a, kw):
    if isinstance(a[1], tuple):
        return any(x in a[0].mro for x in a[1])
    return a[1] in a[0].mro


def b_hasattr(I, a, kw):
    try:
        n = attr_name(I, a[1])
        I.getattr(a[0], n)
        return True
    except ARaise as e:
        if I.isinst(e.exc, I.exc_classes['Exception']):
            I.handled(e.exc)
            return False
        raise


def attr_name(I, s):
    if type(s) is not S:
        I.err('TypeError', 'attribute name must be string')
    return conc_text(I, s)


def conc_text(I, s):
    """concrete text of s, partitioning the trace over its possible values when abstract"""
    if s.conc():
        return s.text()
    if has_seg(s.items):
        raise Unmodelled('text of unknown length used as a name')
    return ''.join(chr(x if type(x) is int else D.ctx().concretize(x, 'char')) for x in s.items)


def b_getattr(I, a, kw):
    n = attr_name(I, a[1])
    if len(a) > 2:
        try:
            return I.getattr(a[0], n)
        except ARaise as e:
            if I.isinst(e.exc, I.exc_classes['AttributeError']):
                I.handled(e.exc)
                return a[2]
            raise
    return I.getattr(a[0], n)


def b_super(I, a, kw):
    o = AObj(I.types['super'])
    o.host = ('super', a[0], a[1] if len(a) > 1 else None)
    return o


def b_zip(I, a, kw):
    if not a:
        return AList()
    its = [I.iter(x) for x in a]
    out = []
    while True:
        row = []
        for it in its:
            try:
                row.append(I.next(it))
            except StopIter:
                return AList(out)
        out.append(tuple(row))


def b_enumerate(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    it = I.iter(a[0])

    def g():
        i = start
        while True:
            try:
                x = I.next(it)
            except StopIter:
                return
            yield (i, x)
            i = I.binop('Add', i, 1)
    return I.host_iter(g())


def b_reversed(I, a, kw):
    v = a[0]
    if type(v) is AObj and v.cls.find('__reversed__') is not None:
        return I.call(v.cls.find('__reversed__'), [v])
    if type(v) in (ADict, ASet, Iter):
        I.err('TypeError', 'argument to reversed() must be a sequence')
    return I.host_iter(iter(list(I.iterate(v))[::-1]))


def b_iter(I, a, kw):
    if len(a) == 2:
        f, sent = a

        def g():
            while True:
                v = I.call(f, [])
                if D.ctx().branch(I.eq(v, sent)):
                    return
                yield v
        return I.host_iter(g())
    return I.iter(a[0])


def b_next(I, a, kw):
    try:
        return I.next(a[0])
    except StopIter:
        if len(a) > 1:
            return a[1]
        I.err('StopIteration', '')


def b_any(I, a, kw):
    for x in I.iterate(a[0]):
        if I.test(x):
            return True
    return False


def b_all(I, a, kw):
    for x in I.iterate(a[0]):
        if not I.test(x):
            return False
    return True


def b_abs(I, a, kw):
    v = a[0]
    if type(v) in (int, bool, float):
        return abs(v)
    if type(v) is AInt:
        lo, hi = D.rng(v)
        if lo >= 0:
            return v
        r = D.pw(abs, v)
        if r is not None:
            return r
        if D.ctx().branch(compare('>=', v, 0)):
            return v
        return D.neg(v)
    if type(v) is ATimedelta:
        return ATimedelta(b_abs(I, [v.us], {}))
    I.err('TypeError', 'bad operand type for abs()')


def b_divmod(I, a, kw):
    x, y = a
    if type(x) is ATimedelta or type(y) is ATimedelta:
        I.err('TypeError', 'unsupported operand type(s) for divmod()')
    return (I.binop('FloorDiv', x, y), I.binop('Mod', x, y))


def b_pow(I, a, kw):
    r = I.binop('Pow', a[0], a[1])
    if len(a) > 2:
        r = I.binop('Mod', r, a[2])
    return r


def b_oct(I, a, kw):
    v = a[0]
    if type(v) in (AInt, Cond) and D.ctx().branch(I.eq(v, 0)) or type(v) in (int, bool) and v == 0:
        return st('0')
    return b_hex(I, a, kw, '0%o')


def b_round(I, a, kw):
    v = a[0]
    nd = a[1] if len(a) > 1 else 0

    def rd(x):
        return float(decimal.Decimal(x).quantize(decimal.Decimal(10) ** -nd, decimal.ROUND_HALF_UP))
    if type(v) in (int, bool, float):
        return float(rd(v))
    if type(v) is AInt:
        r = D.pw(lambda x: float(rd(x)), v)
        if r is not None:
            return r
        if nd == 0:
            return to_float(I, v)
    if type(v) in (S, AList, tuple, ADict, AArray) or v is None:
        I.err('TypeError', 'a float is required')
    raise Unmodelled('round of abstract value')


def b_hex(I, a, kw, spec='0x%x'):
    v = a[0]
    if type(v) in (int, bool):
        return st(spec % v if v >= 0 else '-' + spec % -v)
    if type(v) is AInt:
        r = hex_digits(v) if spec == '0x%x' and not (len(v.atoms) == 1 and D.ctx().dom[v.atoms[0]].size() <= D.TABLIM) else None
        if r is not None:
            return S([48, 120] + r)
        return int_str(I, v, lambda x: spec % x if x >= 0 else '-' + spec % -x)
    I.err('TypeError', "hex() argument can't be converted to hex")


def b_bin(I, a, kw):
    v = a[0]
    if type(v) in (int, bool):
        return st(bin(v))
    if type(v) is AInt:
        return int_str(I, v, bin)
    I.err('TypeError', 'bin')


def b_open(I, a, kw):
    mode = a[1] if len(a) > 1 else kw.get('mode', st('r'))
    return fs_open(I, a[0], mode.text())


def b_setattr(I, a, kw):
    I.setattr(a[0], attr_name(I, a[1]), a[2])


def b_delattr(I, a, kw):
    o = a[0]
    n = attr_name(I, a[1])
    if type(o) is AObj and n in o.attrs:
        I.mut(o)
        del o.attrs[n]
    else:
        I.err('AttributeError', n)


def b_cmp(I, a, kw):
    C = D.ctx()
    if C.branch(I.eq(a[0], a[1])):
        return 0
    return -1 if C.branch(I.order('<', a[0], a[1])) else 1


def b_property(I, a, kw):
    a = list(a) + [None] * (4 - len(a))
    return Prop(kw.get('fget', a[0]), kw.get('fset', a[1]), kw.get('fdel', a[2]))


def b_callable(I, a, kw):
    v = a[0]
    if type(v) in (AFunc, Builtin, Bound, Unbound, AClass):
        return True
    return type(v) is AObj and v.cls.find('__call__') is not None


def b_hash(I, a, kw):
    raise Unmodelled('hash()')


# ---------------------------------------------------------------- type constructors
def ctor_list(I, c, a, kw):
    if not a:
        return AList()
    v = a[0]
    if type(v) in (S, tuple, AList, AArray):
        items = v if type(v) is tuple else v.items
        if has_seg(items):
            return AList([x if type(x) is Seg and type(v) is not S else
                          (S((x,), v.uni) if type(v) is S and type(x) is not Seg else
                           (Seg(x.base, [S((e,), v.uni) for e in x.elems]) if type(v) is S else x)) for x in items])
    return AList(list(I.iterate(v)))


def ctor_tuple(I, c, a, kw):
    if not a:
        return ()
    if type(a[0]) is tuple:
        return a[0]
    return tuple(ctor_list(I, c, a, kw).items)


def ctor_str(I, c, a, kw):
    if not a:
        return st('')
    return py_str(I, a[0]) if type(a[0]) is not Opaque else opaque_str('unknown')


def ctor_unicode(I, c, a, kw):
    if not a:
        return us('')
    if len(a) > 1 or 'encoding' in kw:
        enc = a[1] if len(a) > 1 else kw['encoding']
        return codec(I, a[0], enc, a[2] if len(a) > 2 else kw.get('errors'), False)
    return to_unicode(I, a[0])


def ctor_int(I, c, a, kw):
    if not a:
        return 0
    return to_int(I, a[0], a[1] if len(a) > 1 else kw.get('base'))


def ctor_float(I, c, a, kw):
    return to_float(I, a[0]) if a else 0.0


def ctor_bool(I, c, a, kw):
    return I.truth(a[0]) if a else False


def ctor_dict(I, c, a, kw):
    d = ADict()
    if a:
        dict_update(I, d, a[0])
    for k, v in kw.items():
        I.dset(d, st(k), v)
    return d


def dict_update(I, d, o):
    if type(o) is ADict:
        for k, v in list(o.d.values()):
            I.dset(d, k, v)
    elif type(o) is AObj and o.cls.find('keys') is not None:
        for k in I.iterate(I.call(I.getattr(o, 'keys'), [])):
            I.dset(d, k, I.getitem(o, k))
    else:
        for x in I.iterate(o):
            kv = list(I.iterate(x))
            if len(kv) != 2:
                I.err('ValueError', 'dictionary update sequence element has length %d; 2 is required' % len(kv))
            I.dset(d, kv[0], kv[1])


def set_add(I, s, v):
    I.mut(s)
    h = I.hkey(v)
    if h is None and v is not None:
        if set_find(I, s, v) is MISSING:
            s.nabs += 1
            s.d[('abs', s.nabs, id(v))] = v
        return
    if s.nabs and set_find(I, s, v) is not MISSING:
        return
    s.d.setdefault(h, v)


def set_find(I, s, v):
    """the key under which the set holds an element equal to v, or MISSING"""
    h = I.hkey(v)
    if (h is not None or v is None) and not s.nabs:
        return h if h in s.d else MISSING
    for k, x in s.d.items():
        if D.ctx().branch(I.eq(x, v)):
            return k
    return MISSING


def ctor_set(const):
    def f(I, c, a, kw):
        s = ASet(const)
        if a:
            for x in I.iterate(a[0]):
                set_add(I, s, x)
        return s
    return f


def ctor_type(I, c, a, kw):
    if len(a) == 1:
        return I.type_of(a[0])
    ns = {k.text(): v for k, v in a[2].d.values()}
    return AClass(a[0].text(), list(a[1]), ns, None, None, builtin=False)


def ctor_exc(I, c, a, kw):
    o = AObj(c)
    o.attrs['args'] = tuple(a)
    o.attrs['message'] = a[0] if len(a) == 1 else st('')
    if I.exc_classes['EnvironmentError'] in c.mro and len(a) >= 2:
        o.attrs['errno'] = a[0]
        o.attrs['strerror'] = a[1]
    init = c.find('__init__')
    if type(init) is AFunc:
        I.call(init, [o] + list(a), kw)
    return o


def ctor_array(I, c, a, kw):
    tc = a[0].text()
    arr = AArray(tc)
    if len(a) > 1:
        v = a[1]
        if type(v) is S:
            if tc == 'c':
                arr.items = [S((x,)) for x in v.items]
            elif tc in 'Bb':
                if v.uni:
                    v = py_str(I, v)
                arr.items = list(v.items)
            else:
                raise Unmodelled('array of %s from string' % tc)
        elif type(v) is AArray:
            arr.items = list(v.items)
        else:
            arr_extend(I, arr, v)
    return arr


def arr_check(I, arr, v):
    if arr.tc == 'c':
        return v
    if arr.tc not in 'BbHhIiLly':
        raise Unmodelled('array typecode')
    if arr.tc == 'y' and type(v) is S and not v.uni and len(v.items) == 1:
        return v.items[0]
    if type(v) in (bool,):
        v = int(v)
    if type(v) is Cond:
        v = v.as_int()
    bad = ('ValueError', 'byte must be in range(0, 256)') if arr.tc == 'y' else \
        ('OverflowError', 'value out of range for array')
    lim = {'B': (0, 255), 'y': (0, 255), 'b': (-128, 127), 'H': (0, 65535), 'h': (-32768, 32767), 'I': (0, 2**32 - 1),
           'i': (-2**31, 2**31 - 1), 'L': (0, 2**64 - 1), 'l': (-2**63, 2**63 - 1)}[arr.tc]
    if type(v) is int:
        if not lim[0] <= v <= lim[1]:
            I.err(*bad)
        return v
    if type(v) is AInt and not v.isf:
        C = D.ctx()
        if not C.branch(compare('>=', v, lim[0])) or not C.branch(compare('<=', v, lim[1])):
            I.err(*bad)
        return v
    if type(v) is Seg:
        return v
    if type(v) is Opaque:
        raise Unmodelled('unknown array element')
    I.err('TypeError', 'an integer is required')


def arr_extend(I, arr, v):
    if arr.tc == 'y' and type(v) is S:
        items = octets(I, v)
        I.mut(arr)
        arr.items.extend(items)
        return
    if type(v) is AArray:
        if v.tc != arr.tc and 'y' not in (v.tc, arr.tc):
            I.err('TypeError', 'can only extend with array of same kind')
        items = list(v.items)
        I.mut(arr)
        arr.items.extend(items)
        return
    if type(v) in (AList, tuple):
        items = v.items if type(v) is AList else v
        if has_seg(items):
            I.mut(arr)
            for x in items:
                if type(x) is Seg:
                    for e in x.elems:
                        arr_check(I, arr, e)
                arr.items.append(x if type(x) is Seg else arr_check(I, arr, x))
            return
    for x in I.iterate(v):
        x = arr_check(I, arr, x)
        I.mut(arr)
        arr.items.append(x)


# ---------------------------------------------------------------- strings
def str_find(I, s, sub, lo=0, hi=None, rev=False):
    """index of first occurrence or None"""
    C = D.ctx()
    if has_seg(s.items) or has_seg(sub.items):
        if not s.items:
            return None
        return seg_find(I, s, sub)
    n, m = len(s.items), len(sub.items)
    lo, hi, _ = slice(lo, hi).indices(n)
    rg = range(lo, hi - m + 1)
    for i in (reversed(rg) if rev else rg):
        c = I.str_eq(S(s.items[i:i + m], s.uni), sub)
        if C.branch(c):
            return i
    return None


def seg_find(I, s, sub):
    """search in a string with runs of unknown length: only decidable when run elements can never match"""
    C = D.ctx()
    if len(sub.items) != 1 or type(sub.items[0]) is not int:
        raise Unmodelled('search in text of unknown length')
    ch = sub.items[0]
    for i, x in enumerate(s.items):
        if type(x) is Seg:
            for e in x.elems:
                if type(e) is int and e == ch:
                    raise Unmodelled('search in text of unknown length')
                if type(e) is AInt:
                    c = compare('==', e, ch)
                    if c is not False:
                        raise Unmodelled('search in text of unknown length')
        else:
            c = compare('==', x, ch)
            if C.branch(c):
                raise Unmodelled('position in text of unknown length')
    return None


def bounds(I, a, n):
    lo = I.index(a[0]) if len(a) > 0 and a[0] is not None else 0
    hi = I.index(a[1]) if len(a) > 1 and a[1] is not None else None
    return lo, hi


def coerce2(I, s, o):
    if type(o) is not S:
        I.err('TypeError', 'expected a character buffer object')
    if s.uni != o.uni:
        return I.to_uni(s), I.to_uni(o)
    return s, o


def m_find(I, s, a, kw):
    s, o = coerce2(I, s, a[0])
    r = str_find(I, s, o, *bounds(I, a[1:], 0))
    return -1 if r is None else r


def m_rfind(I, s, a, kw):
    s, o = coerce2(I, s, a[0])
    lo, hi = bounds(I, a[1:], 0)
    r = str_find(I, s, o, lo, hi, True)
    return -1 if r is None else r


def m_index(I, s, a, kw):
    r = m_find(I, s, a, kw)
    if r == -1:
        I.err('ValueError', 'substring not found')
    return r


def m_count(I, s, a, kw):
    s, o = coerce2(I, s, a[0])
    if has_seg(s.items):
        seg_find(I, s, o)
        return 0
    n = 0
    pos, hi = bounds(I, a[1:], 0)
    if pos < 0:
        pos = max(0, pos + len(s.items))
    while pos <= len(s.items):
        r = str_find(I, s, o, pos, hi)
        if r is None:
            return n
        n += 1
        pos = r + max(1, len(o.items))
    return n


def m_replace(I, s, a, kw):
    s, o = coerce2(I, s, a[0])
    s, w = coerce2(I, s, a[1])
    mx = I.index(a[2]) if len(a) > 2 else -1
    C = D.ctx()
    if has_seg(s.items):
        if str_find(I, s, o) is None:
            return s
    out = []
    i = 0
    m = len(o.items)
    items = s.items
    if m == 0:
        raise Unmodelled('replace of empty string')
    while i < len(items):
        if mx != 0 and i + m <= len(items) and C.branch(I.str_eq(S(items[i:i + m], s.uni), o)):
            out.extend(w.items)
            i += m
            mx -= 1
        else:
            out.append(items[i])
            i += 1
    return S(out, s.uni)


WS = (9, 10, 11, 12, 13, 32)


def is_ws(x, uni):
    if type(x) is int:
        return x in WS or (uni and x in (0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0, 0x2028, 0x2029, 0x3000))
    r = compare_in(x, WS + ((0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0, 0x2028, 0x2029, 0x3000) if uni else ()))
    return r


def compare_in(x, vals):
    if type(x) is int:
        return x in vals
    C = D.ctx()
    if len(x.atoms) == 1:
        a = x.atoms[0]
        if x.kind == 'atom':
            ts = D.RSet.vals(v for v in vals if v in C.dom[a])
        elif C.dom[a].size() <= D.JOINT:
            vs = set(vals)
            ts = D.RSet.vals(v for v in C.dom[a] if x.ev({a: v}) in vs)
        else:
            raise Unmodelled('wide membership')
        if not ts:
            return False
        if not (C.dom[a] - ts):
            return True
        return Cond('set', a, ts, (a,))
    for v in vals:
        if C.branch(compare('==', x, v)):
            return True
    return False


def m_split(I, s, a, kw):
    C = D.ctx()
    sep = a[0] if a else None
    mx = I.index(a[1]) if len(a) > 1 else -1
    if has_seg(s.items):
        if sep is not None and str_find(I, s, sep) is None:
            return AList([s])
        raise Unmodelled('split of text of unknown length')
    out = []
    cur = []
    if sep is None:
        inword = False
        items = s.items
        i = 0
        while i < len(items):
            if C.branch(is_ws(items[i], s.uni)):
                if inword:
                    out.append(S(cur, s.uni))
                    cur = []
                    inword = False
            else:
                if not inword and mx >= 0 and len(out) >= mx:
                    rest = list(items[i:])
                    while rest and C.branch(is_ws(rest[-1], s.uni)):
                        rest.pop()
                    out.append(S(rest, s.uni))
                    return AList(out)
                inword = True
                cur.append(items[i])
            i += 1
        if inword:
            out.append(S(cur, s.uni))
        return AList(out)
    s, sep = coerce2(I, s, sep)
    m = len(sep.items)
    if m == 0:
        I.err('ValueError', 'empty separator')
    i = 0
    items = s.items
    while i < len(items):
        if mx != 0 and i + m <= len(items) and C.branch(I.str_eq(S(items[i:i + m], s.uni), sep)):
            out.append(S(cur, s.uni))
            cur = []
            i += m
            mx -= 1
        else:
            cur.append(items[i])
            i += 1
    out.append(S(cur, s.uni))
    return AList(out)


def m_partition(I, s, a, kw):
    s, sep = coerce2(I, s, a[0])
    r = str_find(I, s, sep)
    if r is None:
        return (s, S((), s.uni), S((), s.uni))
    return (S(s.items[:r], s.uni), sep, S(s.items[r + len(sep.items):], s.uni))


def m_rpartition(I, s, a, kw):
    s, sep = coerce2(I, s, a[0])
    r = str_find(I, s, sep, 0, None, True)
    if r is None:
        return (S((), s.uni), S((), s.uni), s)
    return (S(s.items[:r], s.uni), sep, S(s.items[r + len(sep.items):], s.uni))


def stripper(left, right):
    def f(I, s, a, kw):
        C = D.ctx()
        items = list(s.items)
        chars = a[0].items if a and a[0] is not None else None
        if chars is not None and any(type(c) is not int for c in chars):
            raise Unmodelled('strip of abstract characters')

        def test(x):
            if type(x) is Seg:
                for e in x.elems:
                    c = is_ws(e, s.uni) if chars is None else compare_in(e, chars)
                    if c is not False:
                        raise Unmodelled('strip of text of unknown length')
                return False
            return C.branch(is_ws(x, s.uni) if chars is None else compare_in(x, chars))
        if left:
            while items and test(items[0]):
                items.pop(0)
        if right:
            while items and test(items[-1]):
                items.pop()
        return S(items, s.uni)
    return f


def m_join(I, s, a, kw):
    v = a[0]
    out = []
    uni = s.uni
    t = type(v)
    if t in (AList, tuple) and has_seg(v.items if t is AList else v):
        items = v.items if t is AList else v
        if s.items:
            raise Unmodelled('join of unknown number of items with a separator')
        for x in items:
            if type(x) is Seg:
                el = []
                for e in x.elems:
                    if type(e) is not S:
                        I.err('TypeError', 'sequence item: expected string, %s found' % I.typename(e))
                    uni = uni or e.uni
                    el.extend(e.items)
                out.append(Seg(x.base, el))
            else:
                uni = uni or x.uni
                out.extend(x.items)
        return S(out, uni)
    parts = list(I.iterate(v))
    for i, x in enumerate(parts):
        if type(x) is not S:
            if type(x) is Opaque:
                raise Unmodelled('join of unknown value')
            I.err('TypeError', 'sequence item %d: expected string, %s found' % (i, I.typename(x)))
        uni = uni or x.uni
    for i, x in enumerate(parts):
        if i:
            out.extend((I.to_uni(s) if uni else s).items)
        out.extend((I.to_uni(x) if uni and not x.uni else x).items)
    return S(out, uni)


def casemap(up):
    def one(I, x, uni):
        if type(x) is int:
            if x < 128:
                c = chr(x)
                return ord(c.upper() if up else c.lower())
            if uni:
                c = chr(x)
                d = c.upper() if up else c.lower()
                return ord(d) if len(d) == 1 else x
            return x
        if type(x) is Seg:
            return Seg(x.base, [one(I, e, uni) for e in x.elems])
        if x.kind == 'hex':
            return D.hexc(x.a, up)
        f = lambda v: one(I, v, uni)
        if len(x.atoms) == 1:
            dom = D.ctx().dom[x.atoms[0]]
            if dom.size() <= D.TABLIM:
                return D.pw(f, x)
            # split the wide character domain at the ASCII letters
            rngs = D.RSet.of(97, 122) if up else D.RSet.of(65, 90)
            if not uni:
                if D.ctx().branch(D.Cond('set', x.atoms[0], rngs, x.atoms)) if x.kind == 'atom' else False:
                    return D.pw(f, x)
                return x
        lo, hi = D.rng(x)
        if up and hi < 97 or not up and (lo > 90 and hi < 128 or hi < 65):
            return x
        raise Unmodelled('case mapping of abstract character')

    def f(I, s, a, kw):
        return S([one(I, x, s.uni) for x in s.items], s.uni)
    return f


def classpred(name):
    pred = {'isdigit': lambda c: 48 <= c <= 57,
            'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
            'isalnum': lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
            'isspace': lambda c: c in WS,
            'isupper': lambda c: 65 <= c <= 90,
            'islower': lambda c: 97 <= c <= 122}[name]

    def f(I, s, a, kw):
        C = D.ctx()
        if has_seg(s.items):
            raise Unmodelled(name)
        if not s.items:
            return False
        if name in ('isupper', 'islower'):
            if s.conc():
                return getattr(s.text(), name)()
            raise Unmodelled(name)
        for x in s.items:
            if type(x) is int:
                if x > 127 and s.uni:
                    if not getattr(chr(x), name)():
                        return False
                elif not pred(x):
                    return False
                continue
            if s.uni and D.rng(x)[1] > 127:
                if not C.branch(compare('<', x, 128)):
                    raise Unmodelled('%s of non-ASCII character' % name)
            if x.kind == 'hex':
                if name == 'isdigit':
                    if not C.branch(compare('<=', x.a, 9)):
                        return False
                    continue
                if name == 'isalpha':
                    if not C.branch(compare('>', x.a, 9)):
                        return False
                    continue
                if name == 'isalnum':
                    continue
            c = compare_in(x, [v for v in range(128) if pred(v)])
            if not C.branch(c):
                return False
        return True
    return f


def m_rsplit(I, s, a, kw):
    if a[0] is None:
        raise Unmodelled('rsplit at blanks')
    out = []
    n = I.index(a[1])
    while n != 0:
        i = str_find(I, s, a[0], 0, None, True)
        if i is None:
            break
        out.insert(0, I.getitem(s, SliceV(i + len(a[0].items), None, None)))
        s = I.getitem(s, SliceV(None, i, None))
        n -= 1
    out.insert(0, s)
    return AList(out)


def m_startswith(I, s, a, kw):
    p = a[0]
    lo, hi = bounds(I, a[1:], 0)
    if isinstance(p, tuple):
        return any(D.ctx().branch(m_startswith(I, s, [x] + list(a[1:]), kw)) for x in p)
    s, p = coerce2(I, s, p)
    items = s.items[lo:hi] if (lo or hi is not None) else s.items
    n = len(p.items)
    if has_seg(items[:n]):
        raise Unmodelled('startswith on unknown text')
    if len(items) < n:
        return False
    return I.str_eq(S(items[:n], s.uni), p)


def m_endswith(I, s, a, kw):
    p = a[0]
    if isinstance(p, tuple):
        return any(D.ctx().branch(m_endswith(I, s, [x] + list(a[1:]), kw)) for x in p)
    s, p = coerce2(I, s, p)
    lo, hi = bounds(I, a[1:], 0)
    items = s.items[lo:hi] if (lo or hi is not None) else s.items
    n = len(p.items)
    if n == 0:
        return True
    if has_seg(items[-n:]) or len(items) != len(s.items) and has_seg(s.items):
        raise Unmodelled('endswith on unknown text')
    if len(items) < n:
        return False
    return I.str_eq(S(items[-n:], s.uni), p)


def justify(kind):
    def f(I, s, a, kw):
        w = I.index(a[0])
        fill = a[1].items[0] if len(a) > 1 else (48 if kind == 'zfill' else 32)
        if has_seg(s.items):
            raise Unmodelled('padding of unknown text')
        n = w - len(s.items)
        if n <= 0:
            return s
        if kind == 'ljust':
            return S(s.items + (fill,) * n, s.uni)
        if kind == 'center':
            l = n // 2 + (n & w & 1)
            return S((fill,) * l + s.items + (fill,) * (n - l), s.uni)
        if kind == 'zfill' and s.items and type(s.items[0]) is int and s.items[0] in (43, 45):
            return S(s.items[:1] + (48,) * n + s.items[1:], s.uni)
        return S((fill,) * n + s.items, s.uni)
    return f


def m_splitlines(I, s, a, kw):
    if s.conc():
        return AList([S([ord(c) for c in x], s.uni) for x in s.text().splitlines()])
    raise Unmodelled('splitlines')


def m_translate(I, s, a, kw):
    if s.uni:
        if type(a[0]) is not ADict or has_seg(s.items):
            raise Unmodelled('unicode.translate')
        out = []
        for x in s.items:
            v = I.dget(a[0], x)
            if v is MISSING:
                out.append(x)
            elif type(v) is S:
                out += v.items
            elif v is not None:
                out.append(v)
        return S(out, True)
    tab = a[0]
    dele = a[1].items if len(a) > 1 else ()
    out = []
    for x in s.items:
        if dele and D.ctx().branch(compare_in(x, dele)):
            continue
        if tab is None:
            out.append(x)
        elif type(x) is int:
            out.append(tab.items[x])
        else:
            r = D.pw(lambda v: tab.items[v], x)
            if r is None:
                raise Unmodelled('translate')
            out.append(r)
    return S(out)


def m_expand(I, s, a, kw):
    raise Unmodelled('str method')


def m_title(I, s, a, kw):
    return S([ord(c) for c in s.text().title()], s.uni)


def m_capitalize(I, s, a, kw):
    return S([ord(c) for c in s.text().capitalize()], s.uni)


# ---------------------------------------------------------------- codecs
def codec(I, s, enc, errors, encode):
    C = D.ctx()
    name = enc.text() if enc is not None else 'ascii'
    err = errors if errors is not None else st('strict')
    low = name.lower().replace('_', '-')
    std = {'ascii': 'ascii', 'us-ascii': 'ascii', 'utf-8': 'utf8', 'utf8': 'utf8', 'latin1': 'latin1',
           'latin-1': 'latin1', 'iso-8859-1': 'latin1', 'iso8859-1': 'latin1', 'utf-16-be': 'utf16be', 'utf-16be': 'utf16be',
           'utf-16-le': 'utf16le', 'utf-16le': 'utf16le', 'utf-16': 'utf16', 'utf16': 'utf16',
           'hex': 'hex', 'hex-codec': 'hex'}.get(low)
    if std is None:
        nm = name.lower().replace(' ', '-')
        for f in I.codecs_search:
            r = I.call(f, [st(nm)])
            if r is not None:
                fn = I.getattr(r, 'encode' if encode else 'decode')
                if type(r) is tuple:
                    fn = r[0 if encode else 1]
                res = I.call(fn, [s, err])
                if type(res) is not tuple or len(res) != 2:
                    I.err('TypeError', 'encoder must return a tuple (object,integer)')
                return res[0]
        if low.startswith(('utf', 'iso', 'cp', 'windows', 'mac', 'koi', 'big5', 'gb', 'euc', 'shift', 'base64', 'zlib',
                           'rot', 'idna', 'punycode', 'unicode', 'raw', 'string', 'quopri', 'bz2', 'uu')):
            raise Unmodelled('codec %s' % name)
        I.err('LookupError', 'unknown encoding: %s' % name)
    if type(s) is not S:
        I.err('TypeError', 'codec argument must be a string')
    e = err.text()
    if std == 'utf16':
        # as the library under the tests does it: big endian, with a byte order mark
        if encode:
            r = codec(I, s, st('utf-16-be'), err, True)
            return S((0xfe, 0xff) + tuple(r.items)) if r.items else r
        std = 'utf16be'
        if len(s.items) >= 2 and not has_seg(s.items[:2]):
            if C.branch(I.str_eq(S(s.items[:2]), S((0xfe, 0xff)))):
                s = S(s.items[2:])
            elif C.branch(I.str_eq(S(s.items[:2]), S((0xff, 0xfe)))):
                s, std = S(s.items[2:]), 'utf16le'
    if std == 'hex':
        if encode:
            return hexlify(I, s)
        return unhexlify(I, s)
    if encode:
        if not s.uni:
            s = I.to_uni(s)
        out = []
        for x in s.items:
            if type(x) is Seg:
                if std == 'utf16be':
                    el = []
                    for q in x.elems:
                        el += [D.shr(q, 8), D.band(q, 255)]
                    out.append(Seg(x.base, el))
                    continue
                lim = 256 if std == 'latin1' else 128
                if all(D.rng(q)[1] < lim for q in x.elems):
                    out.append(x)
                    continue
                raise Unmodelled('encoding of unknown text')
            if std in ('ascii', 'latin1'):
                lim = 128 if std == 'ascii' else 256
                if C.branch(compare('<', x, lim)):
                    out.append(x)
                elif e == 'strict':
                    I.err('UnicodeEncodeError', "'%s' codec can't encode character" % std)
                elif e == 'replace':
                    out.append(63)
                elif e == 'ignore':
                    pass
                else:
                    I.err('LookupError', 'unknown error handler name')
            elif std == 'utf16be':
                if not C.branch(compare('<', x, 0x10000)):
                    raise Unmodelled('non-BMP')
                out += [D.shr(x, 8), D.band(x, 255)]
            elif std == 'utf16le':
                out += [D.band(x, 255), D.shr(x, 8)]
            else:
                if C.branch(compare('<', x, 0x80)):
                    out.append(x)
                elif C.branch(compare('<', x, 0x800)):
                    out += [D.bor(0xc0, D.shr(x, 6)), D.bor(0x80, D.band(x, 63))]
                else:
                    out += [D.bor(0xe0, D.shr(x, 12)), D.bor(0x80, D.band(D.shr(x, 6), 63)), D.bor(0x80, D.band(x, 63))]
        return S(out, False)
    if s.uni:
        s = py_str(I, s)
    out = []
    if std in ('ascii', 'latin1'):
        for x in s.items:
            if type(x) is Seg:
                if std == 'latin1' or all(D.rng(q)[1] < 128 for q in x.elems):
                    out.append(x)
                    continue
                raise Unmodelled('decoding of unknown bytes')
            if std == 'latin1' or C.branch(compare('<', x, 128)):
                out.append(x)
            elif e == 'strict':
                I.err('UnicodeDecodeError', "'ascii' codec can't decode byte")
            elif e == 'replace':
                out.append(0xfffd)
            elif e == 'ignore':
                pass
        return S(out, True)
    if has_seg(s.items):
        raise Unmodelled('decoding of unknown bytes')
    if std in ('utf16be', 'utf16le'):
        it = list(s.items)
        if len(it) % 2:
            if e == 'strict':
                I.err('UnicodeDecodeError', 'truncated data')
            it = it[:-1] + [None]
            raise Unmodelled('truncated utf-16')
        for i in range(0, len(it), 2):
            hi, lo = (it[i], it[i + 1]) if std == 'utf16be' else (it[i + 1], it[i])
            v = D.bor(D.shl(hi, 8), lo)
            if C.branch(surrogate(v)):
                raise Unmodelled('surrogates in utf-16')
            out.append(v)
        return S(out, True)
    if s.conc():
        try:
            return S([ord(c) for c in bytes(s.items).decode('utf-8', e)], True)
        except UnicodeDecodeError:
            I.err('UnicodeDecodeError', 'utf8')
    it = list(s.items)
    i = 0
    while i < len(it):
        x = it[i]
        i += 1
        if C.branch(compare('<', x, 128)):
            out.append(x)
            continue
        if e != 'strict':
            raise Unmodelled('utf-8 decoding of abstract bytes')
        if C.branch(compare('<', x, 0xc2)):
            I.err('UnicodeDecodeError', 'utf8')
        n = 1 if C.branch(compare('<', x, 0xe0)) else 2
        if n == 2 and not C.branch(compare('<', x, 0xf0)):
            raise Unmodelled('utf-8 decoding of abstract bytes')
        v = D.band(x, 31 if n == 1 else 15)
        for j in range(n):
            if i >= len(it) or not C.branch(compare('>=', it[i], 0x80)) or not C.branch(compare('<', it[i], 0xc0)):
                I.err('UnicodeDecodeError', 'utf8')
            if j == 0 and n == 2:
                if C.branch(compare('==', x, 0xe0)) and not C.branch(compare('>=', it[i], 0xa0)):
                    I.err('UnicodeDecodeError', 'utf8')
                if C.branch(compare('==', x, 0xed)) and C.branch(compare('>=', it[i], 0xa0)):
                    raise Unmodelled('surrogates in utf-8')
            v = D.bor(D.shl(v, 6), D.band(it[i], 63))
            i += 1
        out.append(v)
    return S(out, True)


def surrogate(v):
    if type(v) is int:
        return 0xd800 <= v < 0xe000
    a = compare('>=', v, 0xd800)
    if not D.ctx().branch(a):
        return False
    return compare('<', v, 0xe000)


def hexlify(I, s):
    if type(s) is AArray:
        s = S(s.items)
    if s.uni:
        s = py_str(I, s)
    out = []

    def h(x):
        return [D.hexc(D.shr(x, 4), False), D.hexc(D.band(x, 15), False)]
    for x in s.items:
        if type(x) is Seg:
            el = []
            for e in x.elems:
                el += h(e)
            out.append(Seg(x.base, el))
        else:
            out += h(x)
    return S(out)


def unhexlify(I, s):
    if s.uni:
        s = py_str(I, s)
    if has_seg(s.items):
        raise Unmodelled('unhexlify of unknown text')
    if len(s.items) % 2:
        I.err('TypeError', 'Odd-length string')
    out = []
    for i in range(0, len(s.items), 2):
        pr = S(s.items[i:i + 2])
        for x in pr.items:
            if type(x) is int and digit_val(x, 16) < 0:
                I.err('TypeError', 'Non-hexadecimal digit found')
        out.append(parse_int(I, pr, 16))
    return S(out)


def m_encode(I, s, a, kw):
    return codec(I, s, a[0] if a else kw.get('encoding'), a[1] if len(a) > 1 else kw.get('errors'), True)


def m_decode(I, s, a, kw):
    return codec(I, s, a[0] if a else kw.get('encoding'), a[1] if len(a) > 1 else kw.get('errors'), False)


STR = {
    'find': m_find, 'rfind': m_rfind, 'index': m_index, 'count': m_count, 'replace': m_replace, 'split': m_split,
    'rsplit': lambda I, s, a, kw: m_split(I, s, a, kw) if len(a) < 2 else m_rsplit(I, s, a, kw),
    'strip': stripper(True, True), 'lstrip': stripper(True, False), 'rstrip': stripper(False, True),
    'join': m_join, 'upper': casemap(True), 'lower': casemap(False), 'startswith': m_startswith,
    'endswith': m_endswith, 'ljust': justify('ljust'), 'rjust': justify('rjust'), 'zfill': justify('zfill'),
    'center': justify('center'),
    'encode': m_encode, 'decode': m_decode, 'partition': m_partition, 'rpartition': m_rpartition,
    'splitlines': m_splitlines, 'translate': m_translate, 'title': m_title, 'capitalize': m_capitalize,
    'format': lambda I, s, a, kw: new_format(I, s, a, kw),
    '__len__': lambda I, s, a, kw: b_len(I, [s], {}),
    '__getitem__': lambda I, s, a, kw: I.getitem(s, a[0]),
    '__contains__': lambda I, s, a, kw: I.contains(s, a[0]),
    '__add__': lambda I, s, a, kw: I.binop('Add', s, a[0]),
    '__mod__': lambda I, s, a, kw: I.binop('Mod', s, a[0]),
    '__eq__': lambda I, s, a, kw: I.eq(s, a[0]),
}
for _n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower'):
    STR[_n] = classpred(_n)


# ---------------------------------------------------------------- containers
def l_append(I, o, a, kw):
    I.mut(o)
    o.items.append(a[0])


def l_extend(I, o, a, kw):
    v = a[0]
    if type(v) in (AList, tuple, AArray):
        items = list(v if type(v) is tuple else v.items)
    elif type(v) is S and has_seg(v.items):
        items = ctor_list(I, None, [v], {}).items
    else:
        items = list(I.iterate(v))
    I.mut(o)
    o.items.extend(items)


def l_insert(I, o, a, kw):
    i = I.index(a[0])
    I.mut(o)
    v = a[1]
    if type(o) is AArray:
        v = arr_check(I, o, v)
    if has_seg(o.items) and i != 0:
        if has_seg(o.items[:i] if i >= 0 else o.items):
            raise Unmodelled('insert into sequence of unknown length')
    o.items.insert(i, v)


def l_pop(I, o, a, kw):
    i = I.index(a[0]) if a else -1
    I.mut(o)
    if has_seg(o.items):
        k = i if i >= 0 else len(o.items) + i
        rest = o.items[:k + 1] if i >= 0 else o.items[k:]
        if has_seg(rest):
            raise Unmodelled('pop from a sequence of unknown length')
    try:
        return o.items.pop(i)
    except IndexError:
        I.err('IndexError', 'pop from empty list' if not o.items else 'pop index out of range')


def l_remove(I, o, a, kw):
    for i, x in enumerate(o.items):
        if D.ctx().branch(I.eq(x, a[0])):
            I.mut(o)
            del o.items[i]
            return
    I.err('ValueError', 'list.remove(x): x not in list')


def l_index(I, o, a, kw):
    items = o if type(o) is tuple else o.items
    lo = I.index(a[1]) if len(a) > 1 else 0
    for i in range(lo, len(items)):
        if D.ctx().branch(I.eq(items[i], a[0])):
            return i
    I.err('ValueError', 'x not in list')


def l_count(I, o, a, kw):
    items = o if type(o) is tuple else o.items
    return sum(1 for x in items if D.ctx().branch(I.eq(x, a[0])))


def l_sort(I, o, a, kw):
    kw = dict(kw)
    for k, v in zip(('cmp', 'key', 'reverse'), a):
        if v is not None:
            kw[k] = v
    I.mut(o)
    o.items[:] = do_sort(I, list(o.items), kw)


def l_reverse(I, o, a, kw):
    I.mut(o)
    if has_seg(o.items):
        raise Unmodelled('reverse of unknown sequence')
    o.items.reverse()


LIST = {
    'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
    'count': l_count, 'sort': l_sort, 'reverse': l_reverse,
    '__len__': lambda I, o, a, kw: b_len(I, [o], {}),
    '__iter__': lambda I, o, a, kw: I.iter(o),
    '__getitem__': lambda I, o, a, kw: I.getitem(o, a[0]),
    '__contains__': lambda I, o, a, kw: I.contains(o, a[0]),
}
TUPLE = {'index': l_index, 'count': l_count, '__len__': LIST['__len__'], '__iter__': LIST['__iter__'],
         '__getitem__': LIST['__getitem__'], '__contains__': LIST['__contains__']}


def octets(I, v):
    """the octets of a byte string, an ASCII unicode string or an array of octets"""
    if type(v) is S and v.uni:
        I.err('TypeError', "can't concat unicode to bytearray")
    return list(v.items)


def ba_meth(name):
    """methods that byte arrays share with byte strings"""
    def f(I, o, a, kw):
        def plain(x):
            return S(x.items) if type(x) is AArray and x.tc == 'y' else x
        r = STR[name](I, S(o.items), [plain(x) for x in a], kw)

        def wrap(x):
            if type(x) is S and not x.uni and name not in ('decode', 'encode'):
                return AArray('y', x.items)
            if type(x) is AList:
                return AList([wrap(y) for y in x.items])
            if type(x) is tuple:
                return tuple(wrap(y) for y in x)
            return x
        return wrap(r)
    return f


def a_tostring(I, o, a, kw):
    if o.tc == 'c':
        return S([x.items[0] for x in o.items])
    if o.tc in 'Bb':
        return S(o.items)
    raise Unmodelled('array.tostring')


def a_fromstring(I, o, a, kw):
    v = a[0]
    if type(v) is AArray:
        v = S(v.items)
    if v.uni:
        v = py_str(I, v)
    if o.tc not in 'Bb':
        raise Unmodelled('array.fromstring')
    I.mut(o)
    o.items.extend(v.items)


def a_append(I, o, a, kw):
    v = arr_check(I, o, a[0])
    I.mut(o)
    o.items.append(v)


def a_extend(I, o, a, kw):
    arr_extend(I, o, a[0])


def a_fromlist(I, o, a, kw):
    arr_extend(I, o, a[0])


def a_tofile(I, o, a, kw):
    file_write(I, a[0], S(o.items))


def a_fromfile(I, o, a, kw):
    f, n = a
    s = file_read(I, f, n)
    ln = I.seqlen(s.items)
    I.mut(o)
    o.items.extend(s.items)
    if D.ctx().branch(compare('<', ln, n)):
        I.err('EOFError', 'not enough items in file')


ARRAY = dict(LIST)
ARRAY.pop('sort')
ARRAY.update({'tostring': a_tostring, 'fromstring': a_fromstring, 'append': a_append, 'extend': a_extend,
              'fromlist': a_fromlist, 'tolist': lambda I, o, a, kw: AList(list(o.items)), 'tofile': a_tofile,
              'fromfile': a_fromfile, 'write': lambda I, o, a, kw: a_tofile(I, o, a, kw)})
BARRAY = {k: v for k, v in ARRAY.items() if k not in ('tostring', 'fromstring', 'fromlist', 'tolist', 'tofile', 'fromfile', 'index', 'count', 'write')}
BARRAY.update({k: ba_meth(k) for k in (
    'find', 'rfind', 'index', 'rindex', 'count', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'join', 'upper', 'lower',
    'startswith', 'endswith', 'ljust', 'rjust', 'zfill', 'center', 'decode', 'partition', 'rpartition', 'splitlines',
    'translate', 'replace') if k in STR})


def d_get(I, o, a, kw):
    v = I.dget(o, a[0])
    return v if v is not MISSING else (a[1] if len(a) > 1 else None)


def d_setdefault(I, o, a, kw):
    v = I.dget(o, a[0])
    if v is MISSING:
        v = a[1] if len(a) > 1 else None
        I.dset(o, a[0], v)
    return v


def d_pop(I, o, a, kw):
    v = I.ddel(o, a[0])
    if v is MISSING:
        if len(a) > 1:
            return a[1]
        I.err('KeyError', a[0])
    return v


def d_update(I, o, a, kw):
    if a:
        dict_update(I, o, a[0])
    for k, v in kw.items():
        I.dset(o, st(k), v)


def d_copy(I, o, a, kw):
    d = ADict()
    d.d = {h: list(e) for h, e in o.d.items()}
    d.nabs = o.nabs
    return d


def d_clear(I, o, a, kw):
    I.mut(o)
    o.d.clear()
    o.nabs = 0
    if o.owner is not None:
        I.mut(o.owner)
        o.owner.attrs.clear()


def d_popitem(I, o, a, kw):
    I.mut(o)
    if not o.d:
        I.err('KeyError', 'popitem(): dictionary is empty')
    h = next(iter(o.d))
    if o.owner is not None:
        raise Unmodelled('instance dictionary')
    return tuple(o.d.pop(h))


def d_fromkeys(I, o, a, kw):
    d = ADict()
    for k in I.iterate(a[0]):
        I.dset(d, k, a[1] if len(a) > 1 else None)
    return d


DICT = {
    'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'update': d_update, 'copy': d_copy, 'clear': d_clear,
    'popitem': d_popitem,
    'keys': lambda I, o, a, kw: AList([e[0] for e in o.d.values()]),
    'values': lambda I, o, a, kw: AList([e[1] for e in o.d.values()]),
    'items': lambda I, o, a, kw: AList([tuple(e) for e in o.d.values()]),
    'iterkeys': lambda I, o, a, kw: I.host_iter(I.iterate(o)),
    'itervalues': lambda I, o, a, kw: I.host_iter(iter([e[1] for e in o.d.values()])),
    'iteritems': lambda I, o, a, kw: I.host_iter(iter([tuple(e) for e in o.d.values()])),
    'viewkeys': lambda I, o, a, kw: AList([e[0] for e in o.d.values()]),
    'has_key': lambda I, o, a, kw: I.contains(o, a[0]),
    'fromkeys': d_fromkeys,
    '__contains__': lambda I, o, a, kw: I.contains(o, a[0]),
    '__getitem__': lambda I, o, a, kw: I.getitem(o, a[0]),
    '__setitem__': lambda I, o, a, kw: I.setitem(o, a[0], a[1]),
    '__len__': lambda I, o, a, kw: len(o.d),
    '__iter__': lambda I, o, a, kw: I.iter(o),
}


def set_of(I, v, const=False):
    return ctor_set(const)(I, None, [v], {})


def s_op(f):
    def g(I, o, a, kw):
        b = [x if type(x) is ASet else set_of(I, x) for x in a]
        r = ASet(o.const)
        cur = dict(o.d)
        if o.nabs or any(x.nabs for x in b):
            return s_op_abs(I, f, o, b, r)
        for x in b:
            cur = f(cur, x.d)
        r.d = cur
        return r
    return g


def s_op_abs(I, f, o, b, r):
    """set operation where some elements are symbolic: give equal elements one key, then combine by key"""
    reps = []

    def keyed(s):
        out = {}
        for x in s.d.values():
            for i, y in enumerate(reps):
                if D.ctx().branch(I.eq(x, y)):
                    break
            else:
                i = len(reps)
                reps.append(x)
            out[i] = x
        return out
    cur = keyed(o)
    for x in b:
        cur = f(cur, keyed(x))
    for x in cur.values():
        h = I.hkey(x)
        if h is None and x is not None:
            r.nabs += 1
            h = ('abs', r.nabs, id(x))
        r.d[h] = x
    return r


s_union = s_op(lambda x, y: {**x, **{k: v for k, v in y.items() if k not in x}})
s_inter = s_op(lambda x, y: {k: v for k, v in x.items() if k in y})
s_diff = s_op(lambda x, y: {k: v for k, v in x.items() if k not in y})
s_sym = s_op(lambda x, y: {**{k: v for k, v in x.items() if k not in y}, **{k: v for k, v in y.items() if k not in x}})


def s_update(I, o, a, kw):
    for x in a:
        for v in I.iterate(x):
            set_add(I, o, v)


def s_discard(I, o, a, kw):
    I.mut(o)
    h = set_find(I, o, a[0])
    if h is MISSING:
        return h
    if isinstance(h, tuple) and h and h[0] == 'abs':
        o.nabs -= 1
    return o.d.pop(h)


def s_remove(I, o, a, kw):
    if s_discard(I, o, a, kw) is MISSING:
        I.err('KeyError', a[0])


def s_pop(I, o, a, kw):
    I.mut(o)
    if not o.d:
        I.err('KeyError', 'pop from an empty set')
    raise Unmodelled('set.pop order')


def s_le(I, x, y):
    return all(set_find(I, y, v) is not MISSING for v in list(x.d.values()))


def s_clear(I, o):
    I.mut(o)
    o.d.clear()
    o.nabs = 0


SET = {'add': lambda I, o, a, kw: set_add(I, o, a[0]), 'discard': lambda I, o, a, kw: (s_discard(I, o, a, kw), None)[1],
       'remove': s_remove, 'update': s_update, 'union': s_union, 'intersection': s_inter, 'difference': s_diff,
       'symmetric_difference': s_sym, 'pop': s_pop,
       'copy': lambda I, o, a, kw: set_of(I, o, o.const),
       'issubset': lambda I, o, a, kw: s_le(I, o, set_of(I, a[0])),
       'issuperset': lambda I, o, a, kw: s_le(I, set_of(I, a[0]), o),
       'isdisjoint': lambda I, o, a, kw: not s_inter(I, o, [a[0]], {}).d,
       'clear': lambda I, o, a, kw: s_clear(I, o),
       '__len__': lambda I, o, a, kw: len(o.d), '__contains__': lambda I, o, a, kw: I.contains(o, a[0])}


def set_binop(I, op, a, b):
    f = {'BitOr': s_union, 'BitAnd': s_inter, 'Sub': s_diff, 'BitXor': s_sym}.get(op)
    return f(I, a, [b], {}) if f else MISSING


def bit_length(o):
    if type(o) in (int, bool):
        return int(o).bit_length()
    r = D.pw(lambda v: v.bit_length(), o)
    return unm('bit_length') if r is None else r


INTM = {
    'bit_length': lambda I, o, a, kw: bit_length(o),
    '__int__': lambda I, o, a, kw: o,
    '__add__': lambda I, o, a, kw: I.binop('Add', o, a[0]),
}


def unm(why):
    raise Unmodelled(why)


# ---------------------------------------------------------------- datetime
US = 1000000
DAYUS = 86400 * US


def ctor_timedelta(I, c, a, kw):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    mul = [DAYUS, US, 1, 1000, 60 * US, 3600 * US, 7 * DAYUS]
    tot = 0
    d = dict(zip(names, a))
    d.update(kw)
    for k, v in d.items():
        if k not in names:
            I.err('TypeError', "'%s' is an invalid keyword argument for this function" % k)
        m = mul[names.index(k)]
        if type(v) is AReal:
            if v.den != 1 and m % v.den:
                raise Unmodelled('fractional timedelta')
            tot = D.add(tot, D.mul(v.num, m // v.den))
            continue
        if isinstance(v, float):
            x = v * m
            tot = D.add(tot, int(round(x)))
            continue
        if type(v) is AInt and v.isf:
            r = D.pw(lambda q: int(round(q * m)), v)
            if r is None:
                raise Unmodelled('fractional timedelta')
            tot = D.add(tot, r)
            continue
        if type(v) not in NUMT:
            I.err('TypeError', 'unsupported type for timedelta %s component: %s' % (k, I.typename(v)))
        tot = D.add(tot, D.mul(v, m))
    return ATimedelta(tot)


def dt_host(d):
    return hdt.datetime(*d.f) + hdt.timedelta(microseconds=d.off)


def dt_norm(d):
    if num(d.off) and d.off and all(num(x) for x in d.f):
        h = dt_host(d)
        return ADatetime((h.year, h.month, h.day, h.hour, h.minute, h.second, h.microsecond), 0, d.tz)
    return d


def dt_carry(I, d):
    """days the offset of a date moves it by (less than a day): -1, 0 or 1"""
    C = D.ctx()
    unit, f = 60 * US, D.add(D.mul(d.f[3], 60), d.f[4])
    r = D.mod(d.off, unit)
    if not (num(r) and r == 0):
        raise Unmodelled('field of shifted datetime')
    t = D.add(f, D.floordiv(d.off, unit))
    lo, hi = D.rng(t)
    if lo < -1440 or hi >= 2880:
        raise Unmodelled('field of shifted datetime')
    if C.branch(compare('<', t, 0)):
        return -1, D.add(t, 1440)
    if C.branch(compare('>=', t, 1440)):
        return 1, D.sub(t, 1440)
    return 0, t


def dt_year_carry(I, d, k):
    C = D.ctx()
    if k == 1:
        return 1 if C.branch(compare('==', d.f[1], 12)) and C.branch(compare('==', d.f[2], 31)) else 0
    if k == -1:
        return -1 if C.branch(compare('==', d.f[1], 1)) and C.branch(compare('==', d.f[2], 1)) else 0
    return 0


def dt_shifted_field(I, d, name):
    k, mins = dt_carry(I, d)
    if name in ('second', 'microsecond'):
        return d.f[5 if name == 'second' else 6]
    if name == 'hour':
        return D.floordiv(mins, 60)
    if name == 'minute':
        return D.mod(mins, 60)
    if name == 'year':
        return D.add(d.f[0], dt_year_carry(I, d, k))
    if k == 0:
        return d.f[1 if name == 'month' else 2]
    C = D.ctx()
    inside = C.branch(compare('>', d.f[2], 1)) if k < 0 else C.branch(compare('<', d.f[2], 28))
    if not inside:
        raise Unmodelled('field of shifted datetime')
    return d.f[1] if name == 'month' else D.add(d.f[2], k)


def dt_replace_shifted(I, d, new, tz):
    """replace() on fields plus an offset"""
    f = list(d.f)
    k = dt_carry(I, d)[0] if new else 0
    for n in ('second', 'microsecond'):
        if n in new:  # whole minutes of offset leave these as they are
            f[5 if n == 'second' else 6] = new.pop(n)
    if 'year' in new and set(new) == {'year'}:
        f[0] = D.sub(new.pop('year'), dt_year_carry(I, d, k))
        if not D.ctx().branch(compare('>=', f[0], 1)):
            raise Unmodelled('replace on shifted datetime')
    elif k == 0 and 'hour' not in new and 'minute' not in new:
        for n in ('year', 'month', 'day'):
            if n in new:
                f[('year', 'month', 'day').index(n)] = new.pop(n)
    if new:
        raise Unmodelled('replace on shifted datetime')
    check_date(I, f)
    return ADatetime(f, d.off, tz)


def ctor_datetime(I, c, a, kw):
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']
    d = dict(zip(names, a))
    d.update(kw)
    f = [d.get(k, 0) for k in names[:7]]
    if any(k not in d for k in names[:3]):
        I.err('TypeError', 'Required argument missing')
    for x in f:
        if type(x) not in (int, bool, AInt):
            I.err('TypeError', 'an integer is required')
    check_date(I, f)
    return ADatetime(f, 0, d.get('tzinfo'))


def check_date(I, f):
    C = D.ctx()
    lims = [(1, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59), (0, 999999)]
    for x, (lo, hi) in zip(f, lims):
        if not C.branch(compare('>=', x, lo)) or not C.branch(compare('<=', x, hi)):
            I.err('ValueError', 'date/time component out of range')
    if not C.branch(compare('<=', f[2], 28)):
        # month lengths
        if C.branch(compare('==', f[2], 31)):
            if not C.branch(compare_in(f[1], (1, 3, 5, 7, 8, 10, 12))):
                I.err('ValueError', 'day is out of range for month')
        elif C.branch(compare('==', f[2], 30)):
            if C.branch(compare('==', f[1], 2)):
                I.err('ValueError', 'day is out of range for month')
        else:
            if C.branch(compare('==', f[1], 2)):
                y = f[0]
                leap = C.branch(compare('==', D.mod(y, 4), 0)) and (
                    not C.branch(compare('==', D.mod(y, 100), 0)) or C.branch(compare('==', D.mod(y, 400), 0)))
                if not leap:
                    I.err('ValueError', 'day is out of range for month')


def dt_strptime(I, a, kw):
    s, fmt = a
    if type(s) is not S or type(fmt) is not S:
        I.err('TypeError', 'strptime() argument must be string')
    C = D.ctx()
    if has_seg(s.items):
        raise Unmodelled('strptime of unknown text')
    ft = fmt.text()
    items = list(s.items)
    pos = 0
    f = {'Y': 1900, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0, 'us': 0}
    i = 0

    def bad():
        I.err('ValueError', 'time data does not match format')

    def digit(x):
        if type(x) is int:
            return x - 48 if 48 <= x <= 57 else None
        if x.kind == 'hex':
            if C.branch(compare('<=', x.a, 9)):
                return x.a
            return None
        c = compare_in(x, range(48, 58))
        if C.branch(c):
            return D.sub(x, 48)
        return None
    while i < len(ft):
        ch = ft[i]
        if ch == '%':
            i += 1
            d = ft[i]
            i += 1
            if d == '%':
                if pos >= len(items) or items[pos] != 37:
                    bad()
                pos += 1
                continue
            w = {'y': 2, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'Y': 4, 'f': 6, 'I': 2, 'j': 3}.get(d)
            if w is None or d in 'Ij':
                raise Unmodelled('strptime directive %' + d)
            v = 0
            n = 0
            while n < w and pos < len(items):
                dg = digit(items[pos])
                if dg is None:
                    break
                nv = D.add(D.mul(v, 10), dg)
                if d in 'mdHMS' and n == 1:
                    hi = {'m': 12, 'd': 31, 'H': 23, 'M': 59, 'S': 61}[d]
                    if not C.branch(compare('<=', nv, hi)):
                        break   # regex alternation falls back to one digit
                v = nv
                n += 1
                pos += 1
            if n == 0 or (d in 'yY' and n < w):
                bad()
            if d == 'y':
                v = D.add(v, 1900) if not C.branch(compare('<=', v, 68)) else D.add(v, 2000)
                f['Y'] = v
            elif d == 'f':
                f['us'] = D.mul(v, 10 ** (6 - n))
            else:
                if d in 'md' and C.branch(compare('==', v, 0)):
                    bad()
                f[d] = v
            continue
        if ch in ' \t\n':
            # whitespace in the format matches one or more blanks
            n = 0
            while pos < len(items) and type(items[pos]) is int and items[pos] in WS:
                pos += 1
                n += 1
            if not n:
                if pos < len(items) and type(items[pos]) is not int and C.branch(is_ws(items[pos], False)):
                    raise Unmodelled('abstract blank')
                bad()
            i += 1
            continue
        if pos >= len(items):
            bad()
        x = items[pos]
        if type(x) is int:
            if chr(x).lower() != ch.lower():
                bad()
        elif not C.branch(compare('==', x, ord(ch))):
            bad()
        pos += 1
        i += 1
    if pos < len(items):
        bad()
    fl = [f[k] for k in ('Y', 'm', 'd', 'H', 'M', 'S', 'us')]
    check_date(I, fl)
    return ADatetime(fl)


def digits(v, w):
    """w decimal digit character codes of v"""
    if num(v):
        return [ord(c) for c in '%0*d' % (w, v)][-w:] if w else []
    r = [D.add(48, D.mod(D.floordiv(v, 10 ** k), 10)) for k in range(w - 1, -1, -1)]
    lo, hi = D.rng(v)
    if lo is not None and hi is not None and 0 <= lo and hi < 10 ** w:
        D.ctx().numtext.append((r, v))
    return r


def dt_offset(I, d):
    """utcoffset in us or None"""
    if d.tz is None:
        return None
    r = I.call(I.getattr(d.tz, 'utcoffset'), [d])
    if r is None:
        return None
    if type(r) is not ATimedelta:
        I.err('TypeError', 'tzinfo.utcoffset() must return None or a timedelta instance')
    return r.us


def dt_iso(I, d, sep):
    d = dt_norm(d)
    if type(d) is not ADatetime or d.f[6] != 0 or d.tz is not None:
        raise Unmodelled('isoformat')
    return dt_strftime(I, d, st('%Y-%m-%d' + sep + '%H:%M:%S'))


def dt_strftime(I, d, fmt):
    d = dt_norm(d)
    C = D.ctx()
    if type(d) is not ADatetime or not (num(d.off) and d.off == 0):
        raise Unmodelled('strftime of shifted datetime')
    out = []
    ft = fmt.text()
    Y, m, dd, H, M, Sx, us_ = d.f
    if not C.branch(compare('>=', Y, 1900)):
        I.err('ValueError', 'year is before 1900')
    i = 0
    while i < len(ft):
        c = ft[i]
        i += 1
        if c != '%':
            out.append(ord(c))
            continue
        k = ft[i]
        i += 1
        if k == 'y':
            out += digits(D.mod(Y, 100), 2)
        elif k == 'Y':
            out += digits(Y, 4)
        elif k in 'mdHMS':
            out += digits({'m': m, 'd': dd, 'H': H, 'M': M, 'S': Sx}[k], 2)
        elif k == 'f':
            out += digits(us_, 6)
        elif k == '%':
            out.append(37)
        elif k == 'z':
            o = dt_offset(I, d)
            if o is not None:
                mins = D.floordiv(o, 60 * US)
                if C.branch(compare('<', mins, 0)):
                    out.append(45)
                    mins = D.neg(mins)
                else:
                    out.append(43)
                out += digits(D.floordiv(mins, 60), 2) + digits(D.mod(mins, 60), 2)
        elif k == 'Z':
            if d.tz is not None:
                n = I.call(I.getattr(d.tz, 'tzname'), [d])
                if n is not None:
                    out += n.items
        else:
            raise Unmodelled('strftime directive %' + k)
    return S(out)


def dt_binop(I, op, a, b):
    ta, tb = type(a), type(b)
    TD = ATimedelta
    if op == 'Add':
        if ta is TD and tb is TD:
            return TD(D.add(a.us, b.us))
        if tb is ADatetime and ta is TD:
            a, b, ta, tb = b, a, tb, ta
        if ta is ADatetime and tb is TD:
            return dt_norm(ADatetime(a.f, D.add(a.off, b.us), a.tz))
        if ta is AEpoch and tb is TD:
            raise Unmodelled('shifted epoch date')
        return MISSING
    if op == 'Sub':
        if ta is TD and tb is TD:
            return TD(D.sub(a.us, b.us))
        if ta is ADatetime and tb is TD:
            return dt_norm(ADatetime(a.f, D.sub(a.off, b.us), a.tz))
        if ta is ADatetime and tb is ADatetime:
            if all(num(x) for x in a.f + b.f):
                d = hdt.datetime(*a.f) - hdt.datetime(*b.f)
                base = (d.days * 86400 + d.seconds) * US + d.microseconds
                return TD(D.add(base, D.sub(a.off, b.off)))
            raise Unmodelled('datetime difference')
        if ta is AEpoch and not a.local and tb is ADatetime and b.tz is None and all(num(x) for x in b.f):
            d = hdt.datetime(*b.f) - hdt.datetime(1970, 1, 1)
            base = (d.days * 86400 + d.seconds) * US + d.microseconds
            return TD(D.sub(D.mul(a.secs, US), D.add(base, b.off)))
        return MISSING
    if op == 'Mult':
        if tb is TD:
            a, b, ta, tb = b, a, tb, ta
        if ta is TD and tb in (int, bool, AInt):
            return TD(D.mul(a.us, b))
        return MISSING
    if op in ('Div', 'FloorDiv'):
        if ta is TD and tb in (int, AInt):
            return TD(D.floordiv(a.us, b))
        return MISSING
    return MISSING


def td_attr(I, o, name):
    if name == 'days':
        return D.floordiv(o.us, DAYUS)
    if name == 'seconds':
        return D.mod(D.floordiv(o.us, US), 86400)
    if name == 'microseconds':
        return D.mod(o.us, US)
    if name == 'total_seconds':
        def f(I, a, kw):
            if num(o.us):
                return o.us / 1e6
            q = D.floordiv(o.us, US)
            if D.same(D.mul(q, US), o.us)[0] is True:
                return AReal(q, 1)
            return AReal(o.us, US)
        return Builtin('total_seconds', f)
    return MISSING


def dt_attr(I, o, name):
    if name == 'tzinfo':
        return o.tz
    if name == 'strftime':
        return Builtin('strftime', lambda I, a, kw: dt_strftime(I, o, a[0]))
    if name == 'utcoffset':
        def uo(I, a, kw):
            r = dt_offset(I, o)
            return None if r is None else ATimedelta(r)
        return Builtin('utcoffset', uo)
    if name == 'replace':
        def rep(I, a, kw):
            d = dt_norm(o)
            f = list(d.f)
            names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
            tz = d.tz
            new = dict(zip(names + ['tzinfo'], a))
            new.update(kw)
            if 'tzinfo' in new:
                tz = new.pop('tzinfo')
            if not (num(d.off) and d.off == 0):
                return dt_replace_shifted(I, d, new, tz)
            for k, v in new.items():
                f[names.index(k)] = v
            check_date(I, f)
            return ADatetime(f, 0, tz)
        return Builtin('replace', rep)
    names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
    if name in names:
        d = dt_norm(o)
        if num(d.off) and d.off == 0:
            return d.f[names.index(name)]
        return dt_shifted_field(I, d, name)
    if name == 'isoformat':
        return Builtin(name, lambda I, a, kw: dt_iso(I, o, a[0].text() if a else 'T'))
    if name in ('timetuple', 'utctimetuple'):
        return Builtin(name, lambda I, a, kw: time_tuple(I, o, name))
    if name in ('date', 'time', 'weekday', 'toordinal', 'astimezone', 'ctime', 'dst', 'tzname'):
        raise Unmodelled('datetime.' + name)
    return MISSING


def epoch(I, a, kw, local=False):
    v = a[0]
    if type(v) in (int, bool, float):
        try:
            h = hdt.datetime(1970, 1, 1) + hdt.timedelta(seconds=v)
        except OverflowError:
            I.err('ValueError', 'timestamp out of range for platform time_t')
        if local:
            raise Unmodelled('local time')
        return ADatetime((h.year, h.month, h.day, h.hour, h.minute, h.second, h.microsecond))
    if type(v) is AInt:
        if not D.ctx().branch(compare('<=', v, 253402300799)):
            I.err('ValueError', 'timestamp out of range for platform time_t')
        return AEpoch(v, local)
    if type(v) is AReal:
        if v.den == 1:
            return AEpoch(v.num, local)
    raise Unmodelled('utcfromtimestamp')


def time_tuple(I, d, name):
    """struct_time of a date; the date itself is kept as its meaning"""
    if name == 'timetuple' and type(d) is ADatetime and d.tz is not None:
        d = ADatetime(d.f, d.off)
    o = AObj(I.types['struct_time'])
    o.host = {'kind': 'struct_time', 'date': d, 'utc': name != 'timetuple'}
    return o


def timegm(I, a, kw):
    v = a[0]
    if type(v) is AObj and isinstance(v.host, dict) and v.host.get('kind') == 'struct_time':
        d = v.host['date']
        if type(d) is AEpoch and not d.local:
            return d.secs
        if type(d) is ADatetime and all(num(x) for x in d.f):
            h = hdt.datetime(*d.f[:6]) - hdt.datetime(1970, 1, 1)
            off = d.off
            if d.tz is not None:
                o = dt_offset(I, d)
                if o is not None:
                    off = D.sub(off, o)
            # a struct_time has no microseconds
            return D.floordiv(D.add((h.days * 86400 + h.seconds) * US + d.f[6], off), US)
    elif type(v) is tuple and len(v) >= 6 and all(num(x) for x in v):
        import calendar
        return calendar.timegm(tuple(v[:6]) + (0, 0, 0))
    raise Unmodelled('timegm')


STRUCT_TIME = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst')


def struct_time_item(I, o, k):
    if type(k) is SliceV:
        lo, hi, step = slice(*[x if x is None else I.index(x) for x in (k.lo, k.hi, k.step)]).indices(9)
        return tuple(struct_time_item(I, o, i) for i in range(lo, hi, step))
    k = I.index(k)
    if not -9 <= k < 9:
        I.err('IndexError', 'index out of range: %d' % k)
    k %= 9
    d = o.host['date']
    if type(d) is ADatetime:
        if d.tz is not None:
            sh = dt_offset(I, d)
            d = dt_norm(ADatetime(d.f, d.off if sh is None else D.sub(d.off, sh)))
            if type(d) is not ADatetime:
                raise Unmodelled('struct_time field')
        if k == 8:
            return 0 if o.host['utc'] else -1
        if k < 6:
            return dt_attr(I, d, ['year', 'month', 'day', 'hour', 'minute', 'second'][k])
        f = [struct_time_item(I, o, i) for i in range(6)]
        if all(type(x) is int for x in f):
            h = hdt.datetime(*f).timetuple()
            return h[k]
    raise Unmodelled('struct_time field')


# ---------------------------------------------------------------- files
def object_delattr(I, o, n):
    if type(o) is not AObj or n.text() not in o.attrs:
        I.err('AttributeError', n.text())
    I.mut(o)
    del o.attrs[n.text()]


def exc_info(I, a, kw):
    for f in reversed(I.stack):
        if f.excs:
            e = f.excs[-1].exc
            return (e.cls, e, Opaque('traceback'))
    return (None, None, None)


def path_text(I, p):
    if type(p) is not S:
        I.err('TypeError', 'coercing to Unicode: need string or buffer, %s found' % I.typename(p))
    return conc_text(I, p)


def fs_fault(I, op, path):
    """crash point: where the scenario asks for it, the operation may fail"""
    if I.faults and D.ctx().choose(2, '%s of %s fails' % (op, path)):
        I.faults -= 1
        I.fslog.append(('fault', path, op, I.where()))
        e = I.exc('IOError', None)
        e.exc.attrs['args'] = (5, st('Input/output error'))
        e.exc.attrs['errno'] = 5
        raise e


def fs_open(I, p, mode):
    path = path_text(I, p)
    fs_fault(I, 'open', path)
    I.fslog.append(('open', path, mode, I.where()))
    if mode[0] == 'r':
        if path not in I.vfs:
            e = I.exc('IOError', None)
            e.exc.attrs['args'] = (2, st('No such file or directory'))
            e.exc.attrs['errno'] = 2
            raise e
    elif mode[0] == 'w':
        I.vfs[path] = {'data': []}
    else:
        I.vfs.setdefault(path, {'data': []})
    o = AObj(I.types['file'])
    o.host = {'kind': 'file', 'path': path, 'mode': mode, 'pos': 0, 'closed': False, 'opened_at': I.where()}
    I.open_files.append(o)
    return o


def file_chk(I, f):
    if type(f) is not AObj or not isinstance(f.host, dict) or f.host.get('kind') != 'file':
        raise Unmodelled('file-like object')
    if f.host['closed']:
        I.err('ValueError', 'I/O operation on closed file')
    return f.host


def file_read(I, f, n=None):
    h = file_chk(I, f)
    if h['mode'][0] != 'r' and '+' not in h['mode']:
        I.err('IOError', 'File not open for reading')
    fs_fault(I, 'read', h['path'])
    data = I.vfs[h['path']]['data'][h['pos']:]
    I.fslog.append(('read', h['path'], h['mode'], I.where()))
    if n is None or (type(n) is int and n < 0):
        out = data
    elif type(n) is int and not has_seg(data[:n]):
        out = data[:n]
    else:
        if D.same(I.seqlen(data), n)[0] is True:
            out = data
        else:
            out = I.slice_items(data, SliceV(0, n, None))
    h['pos'] += len(out)
    return S(out)


def file_write(I, f, s):
    h = file_chk(I, f)
    if h['mode'][0] == 'r' and '+' not in h['mode']:
        I.err('IOError', 'File not open for writing')
    if type(s) is AArray:
        s = S(s.items)
    if type(s) is not S:
        I.err('TypeError', 'expected a character buffer object')
    fs_fault(I, 'write', h['path'])
    I.fslog.append(('write', h['path'], h['mode'], I.where()))
    I.vfs[h['path']]['data'].extend(s.items)


def file_attr(I, o, name):
    h = o.host
    if name == 'read':
        return Builtin(name, lambda I, a, kw: file_read(I, o, a[0] if a else None))
    if name == 'write':
        return Builtin(name, lambda I, a, kw: file_write(I, o, a[0]))
    if name == 'writelines':
        def wl(I, a, kw):
            for x in I.iterate(a[0]):
                file_write(I, o, x)
        return Builtin(name, wl)
    if name in ('close', '__exit__'):
        def cl(I, a, kw):
            h['closed'] = True
            I.fslog.append(('close', h['path'], h['mode'], I.where()))
            return None
        return Builtin(name, cl)
    if name == '__enter__':
        return Builtin(name, lambda I, a, kw: o)
    if name == 'flush':
        return Builtin(name, lambda I, a, kw: None)
    if name == 'closed':
        return h['closed']
    if name == 'name':
        return st(h['path'])
    if name == 'mode':
        return st(h['mode'])
    if name in ('readlines', 'readline', 'seek', 'tell', 'fileno', 'readinto', 'truncate', 'next', '__iter__'):
        raise Unmodelled('file.' + name)
    return MISSING


# ---------------------------------------------------------------- minidom
class Node:
    def __init__(self, kind, tag=None):
        self.kind = kind
        self.tag = tag
        self.attrs = {}
        self.children = []
        self.parent = None
        self.data = None

    def snapshot(self):
        return (self.kind, self.tag, dict(self.attrs), [c.snapshot() for c in self.children], self.data)


def mk_node(I, n):
    w = getattr(n, 'wrap', None)
    if w is None:
        w = AObj(I.types['xmlnode'])
        w.host = n
        n.wrap = w
    return w


def node_arg(I, v):
    if type(v) is AObj and isinstance(v.host, Node):
        return v.host
    I.err('AttributeError', "'%s' object has no attribute 'nodeType'" % I.typename(v))


def xml_attr(I, o, name):
    n = o.host

    def bi(f):
        return Builtin(name, f)
    if name == 'createElement':
        def f(I, a, kw):
            if type(a[0]) is not S:
                I.err('TypeError', 'tag name')
            return mk_node(I, Node('elem', a[0]))
        return bi(f)
    if name in ('createTextNode', 'createComment'):
        def f(I, a, kw):
            x = Node('text')
            if type(a[0]) is not S:
                I.err('TypeError', 'node contents must be a string')
            x.data = a[0]
            return mk_node(I, x)
        return bi(f)
    if name == 'createDocument':
        def f(I, a, kw):
            d = Node('doc')
            if a[1] is not None:
                e = Node('elem', a[1])
                e.parent = d
                d.children.append(e)
            return mk_node(I, d)
        return bi(f)
    if name == 'documentElement':
        for c in n.children:
            if c.kind == 'elem':
                return mk_node(I, c)
        return None
    if name == 'setAttribute':
        def f(I, a, kw):
            if type(a[0]) is not S:
                I.err('TypeError', 'attribute name')
            n.attrs[conc_text(I, a[0])] = a[1]
        return bi(f)
    if name == 'getAttribute':
        return bi(lambda I, a, kw: n.attrs.get(conc_text(I, a[0]), st('')))
    if name == 'hasAttribute':
        return bi(lambda I, a, kw: conc_text(I, a[0]) in n.attrs)
    if name == 'removeAttribute':
        return bi(lambda I, a, kw: (n.attrs.pop(conc_text(I, a[0]), None), None)[1])
    if name in ('appendChild', 'insertBefore'):
        def f(I, a, kw):
            c = node_arg(I, a[0])
            if c.parent is not None:
                c.parent.children.remove(c)
            if name == 'insertBefore' and a[1] is not None:
                n.children.insert(n.children.index(node_arg(I, a[1])), c)
            else:
                n.children.append(c)
            c.parent = n
            return a[0]
        return bi(f)
    if name == 'removeChild':
        def f(I, a, kw):
            c = node_arg(I, a[0])
            if c not in n.children:
                I.err('ValueError', 'not a child')
            n.children.remove(c)
            c.parent = None
            return a[0]
        return bi(f)
    if name in ('childNodes',):
        return AList([mk_node(I, c) for c in n.children])
    if name in ('tagName', 'nodeName'):
        return n.tag
    if name in ('firstChild', 'lastChild'):
        return mk_node(I, n.children[0 if name == 'firstChild' else -1]) if n.children else None
    if name == 'parentNode':
        return mk_node(I, n.parent) if n.parent else None
    if name in ('toprettyxml', 'toxml'):
        def f(I, a, kw):
            pretty = name == 'toprettyxml'
            ind = kw.get('indent', a[0] if a and pretty else st('\t' if pretty else ''))
            nl = kw.get('newl', a[1] if len(a) > 1 and pretty else st('\n' if pretty else ''))
            if kw.get('encoding') is not None or (a and not pretty) or len(a) > 2:
                raise Unmodelled('xml encoding')
            out = []
            uni = [False]

            def put(t):
                out.extend(map(ord, t))

            def esc(v):
                if type(v) is not S:
                    I.err('AttributeError', "'%s' object has no attribute 'replace'" % I.typename(v))
                if v.uni:
                    uni[0] = True
                for x in v.items:
                    if type(x) is Seg:
                        raise Unmodelled('xml attribute of unknown length')
                    for ch, rep in (('&', '&amp;'), ('<', '&lt;'), ('"', '&quot;'), ('>', '&gt;')):
                        if D.ctx().branch(compare('==', x, ord(ch))):
                            put(rep)
                            break
                    else:
                        out.append(x)

            def w(x, lead):
                if x.kind == 'text':
                    out.extend(lead)
                    esc(x.data)
                    out.extend(nl.items)
                    return
                if x.kind == 'doc':
                    put('<?xml version="1.0" ?>')
                    out.extend(nl.items)
                    for c in x.children:
                        w(c, lead)
                    return
                out.extend(lead)
                put('<')
                out.extend(x.tag.items)
                for k in sorted(x.attrs):
                    put(' ' + k + '="')
                    # Python 2.7's _write_data writes nothing for a false value
                    if type(x.attrs[k]) is S or I.test(x.attrs[k]):
                        esc(x.attrs[k])
                    put('"')
                if x.children:
                    put('>')
                    if len(x.children) == 1 and x.children[0].kind == 'text':
                        esc(x.children[0].data)
                    else:
                        out.extend(nl.items)
                        for c in x.children:
                            w(c, lead + list(ind.items))
                        out.extend(lead)
                    put('</')
                    out.extend(x.tag.items)
                    put('>')
                else:
                    put('/>')
                out.extend(nl.items)
            w(n, [])
            # minidom joins pieces with the unicode ones promoting the result
            return S(out, uni[0])
        return bi(f)
    if name in ('getElementsByTagName', 'setAttributeNS', 'cloneNode', 'writexml', 'attributes', 'replaceChild',
                'normalize', 'unlink', 'ownerDocument', 'nodeType', 'data', 'hasChildNodes', 'createElementNS'):
        raise Unmodelled('minidom ' + name)
    return MISSING


# ---------------------------------------------------------------- regular expressions
class Rx:
    def __init__(self, pat, flags, text):
        self.p = pat
        self.flags = flags
        self.text = text


def rx_compile(I, a, kw):
    import re
    from re import _parser
    p = a[0]
    if type(p) is AObj and isinstance(p.host, Rx):
        return p
    fl = a[1] if len(a) > 1 else kw.get('flags', 0)
    fl = D.ctx().concretize(fl)
    t = p.text()
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sp = _parser.parse(t, fl | re.ASCII if not p.uni else fl)
    except re.error as e:
        raise Unmodelled('regex %s: %s' % (t, e))
    o = AObj(I.types['SRE_Pattern'])
    o.host = Rx(sp, fl, t)
    return o


def rx_char(I, op, av, x, flags):
    """does char code x match the atom? branches"""
    import re
    from re import _constants as K
    C = D.ctx()
    if op is K.LITERAL:
        if flags & re.IGNORECASE:
            c = chr(av)
            return C.branch(compare_in(x, sorted(set([av, ord(c.lower()), ord(c.upper())]))))
        return C.branch(compare('==', x, av))
    if op is K.NOT_LITERAL:
        return not C.branch(compare('==', x, av))
    if op is K.ANY:
        if flags & re.DOTALL:
            return True
        return not C.branch(compare('==', x, 10))
    if op is K.IN:
        neg = False
        vals = set()
        for o, v in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                vals.add(v)
            elif o is K.RANGE:
                vals.update(range(v[0], v[1] + 1))
            elif o is K.CATEGORY:
                vals.update(cat_vals(v))
            else:
                raise Unmodelled('regex class')
        if flags & re.IGNORECASE:
            vals |= set(ord(chr(v).lower()) for v in vals if v < 128) | set(ord(chr(v).upper()) for v in vals if v < 128)
        r = C.branch(compare_in(x, sorted(vals)))
        return (not r) if neg else r
    raise Unmodelled('regex op %s' % op)


def cat_vals(v):
    from re import _constants as K
    dg = set(range(48, 58))
    wd = dg | set(range(65, 91)) | set(range(97, 123)) | {95}
    sp = {9, 10, 11, 12, 13, 32}
    if v is K.CATEGORY_DIGIT:
        return dg
    if v is K.CATEGORY_WORD:
        return wd
    if v is K.CATEGORY_SPACE:
        return sp
    full = set(range(0, 65536))
    if v is K.CATEGORY_NOT_DIGIT:
        return full - dg
    if v is K.CATEGORY_NOT_WORD:
        return full - wd
    if v is K.CATEGORY_NOT_SPACE:
        return full - sp
    raise Unmodelled('regex category')


def rx_match_at(I, rx, items, start):
    """backtracking matcher; character tests branch (and are then fixed on the trace)"""
    import re
    from re import _constants as K
    flags = rx.p.state.flags | rx.flags
    n = len(items)
    C = D.ctx()

    def m(seq, i, pos, groups, k):
        if i == len(seq):
            return k(pos, groups)
        op, av = seq[i]
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if pos < n and rx_char(I, op, av, items[pos], flags):
                return m(seq, i + 1, pos + 1, groups, k)
            return None
        if op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = pos == 0 or (av is K.AT_BEGINNING and flags & re.MULTILINE and C.branch(compare('==', items[pos - 1], 10)))
            elif av is K.AT_END:
                ok = pos == n or (pos == n - 1 and C.branch(compare('==', items[pos], 10))) or \
                    (flags & re.MULTILINE and C.branch(compare('==', items[pos], 10)))
            elif av is K.AT_END_STRING:
                ok = pos == n
            else:
                raise Unmodelled('regex anchor')
            return m(seq, i + 1, pos, groups, k) if ok else None
        if op is K.SUBPATTERN:
            g, _, _, sub = av
            st0 = pos

            def k2(p, gr):
                gr2 = dict(gr)
                if g is not None:
                    gr2[g] = (st0, p)
                return m(seq, i + 1, p, gr2, k)
            return m(list(sub), 0, pos, groups, k2)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if hi is K.MAXREPEAT:
                hi = n + 1

            def rep(cnt, p, gr):
                def more():
                    if cnt < hi:
                        return m(sub, 0, p, gr, lambda q, g2: rep(cnt + 1, q, g2) if q > p or cnt < lo else None)
                    return None

                def done():
                    if cnt >= lo:
                        return m(seq, i + 1, p, gr, k)
                    return None
                if op is K.MAX_REPEAT:
                    r = more()
                    return r if r is not None else done()
                r = done()
                return r if r is not None else more()
            return rep(0, pos, groups)
        if op is K.BRANCH:
            for alt in av[1]:
                r = m(list(alt) + list(seq[i + 1:]), 0, pos, groups, k)
                if r is not None:
                    return r
            return None
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unmodelled('lookbehind')
            r = m(list(sub), 0, pos, groups, lambda p, g: (p, g))
            if (r is not None) == (op is K.ASSERT):
                return m(seq, i + 1, pos, groups, k)
            return None
        raise Unmodelled('regex op %s' % op)
    return m(list(rx.p), 0, start, {}, lambda p, g: (p, g))


def rx_mobj(I, rx, s, start, end, groups):
    o = AObj(I.types['SRE_Match'])
    o.host = ('match', rx, s, start, end, groups)
    return o


def rx_op(I, rxo, name, a):
    rx = rxo.host
    s = a[0] if name != 'sub' else a[1]
    if type(s) is not S:
        I.err('TypeError', 'expected string or buffer')
    if has_seg(s.items):
        raise Unmodelled('regex on text of unknown length')
    items = s.items
    if name in ('match', 'search'):
        rg = [0] if name == 'match' else range(len(items) + 1)
        for p in rg:
            r = rx_match_at(I, rx, items, p)
            if r is not None:
                return rx_mobj(I, rx, s, p, r[0], r[1])
        return None
    out = []
    pos = 0
    last = 0
    spans = []
    while pos <= len(items):
        r = rx_match_at(I, rx, items, pos)
        if r is None:
            pos += 1
            continue
        spans.append((pos, r[0], r[1]))
        pos = r[0] if r[0] > pos else pos + 1
    if name == 'findall':
        res = []
        ng = rx.p.state.groups - 1
        for b, e, g in spans:
            if ng == 0:
                res.append(S(items[b:e], s.uni))
            elif ng == 1:
                x = g.get(1, (0, 0))
                res.append(S(items[x[0]:x[1]], s.uni))
            else:
                res.append(tuple(S(items[g.get(i, (0, 0))[0]:g.get(i, (0, 0))[1]], s.uni) for i in range(1, ng + 1)))
        return AList(res)
    if name == 'finditer':
        return I.iter(AList([rx_mobj(I, rx, s, b, e, g) for b, e, g in spans]))
    if name == 'split':
        for b, e, g in spans:
            if e == b:
                continue
            if len(a) > 1 and a[1] and len(out) >= a[1] * rx.p.state.groups:
                break
            out.append(S(items[last:b], s.uni))
            for k in range(1, rx.p.state.groups):
                out.append(S(items[g[k][0]:g[k][1]], s.uni) if g.get(k) is not None else None)
            last = e
        out.append(S(items[last:], s.uni))
        return AList(out)
    if name == 'sub':
        rep = a[0]
        cnt = a[2] if len(a) > 2 else 0
        done = 0
        for b, e, g in spans:
            if b == e and b == last and done:
                continue  # no empty match right after a match
            done += 1
            if cnt and done > cnt:
                break
            out += items[last:b]
            if type(rep) is S:
                out += rx_template(I, rx, rep, items, b, e, g)
            else:
                out += I.call(rep, [rx_mobj(I, rx, s, b, e, g)]).items
            last = e
        out += items[last:]
        return S(out, s.uni)
    raise Unmodelled('regex ' + name)


def rx_template(I, rx, rep, items, b, e, g):
    if 92 not in rep.items:
        return rep.items
    if not rep.conc():
        raise Unmodelled('regex template')
    import re
    out = []
    t = rep.text()
    i = 0
    while i < len(t):
        if t[i] != '\\':
            out.append(ord(t[i]))
            i += 1
            continue
        m = re.match(r'\\(?:([1-9]\d?)|g<(\w+)>|([nrt\\]))', t[i:])
        if not m:
            raise Unmodelled('regex template')
        i += m.end()
        if m.group(3):
            out.append({'n': 10, 'r': 13, 't': 9, '\\': 92}[m.group(3)])
            continue
        k = m.group(1) or m.group(2)
        if not k.isdigit():
            if k not in rx.p.state.groupdict:
                I.err('IndexError', 'unknown group name')
            k = rx.p.state.groupdict[k]
        k = int(k)
        if k >= rx.p.state.groups:
            I.err('error', 'invalid group reference') if 'error' in I.exc_classes else I.err('ValueError', 'invalid group')
        sp = (b, e) if k == 0 else g.get(k)
        if sp is None:
            I.err('ValueError', 'unmatched group')
        out += items[sp[0]:sp[1]]
    return out


def match_attr(I, o, name):
    _, rx, s, b, e, g = o.host

    def span(k):
        if type(k) is S:
            nm = k.text()
            if nm not in rx.p.state.groupdict:
                I.err('IndexError', 'no such group')
            k = rx.p.state.groupdict[nm]
        if k == 0:
            return (b, e)
        if k >= rx.p.state.groups:
            I.err('IndexError', 'no such group')
        return g.get(k)

    def get(k):
        sp = span(k)
        return None if sp is None else S(s.items[sp[0]:sp[1]], s.uni)
    if name == 'group':
        return Builtin(name, lambda I, a, kw: get(0) if not a else (get(a[0]) if len(a) == 1 else tuple(get(x) for x in a)))
    if name == 'groups':
        return Builtin(name, lambda I, a, kw: tuple(get(i) for i in range(1, rx.p.state.groups)))
    if name == 'groupdict':
        def f(I, a, kw):
            d = ADict()
            for k in rx.p.state.groupdict:
                I.dset(d, st(k), get(st(k)))
            return d
        return Builtin(name, f)
    if name == 'string':
        return s
    if name == 'expand':
        return Builtin(name, lambda I, a, kw: S(rx_template(I, rx, a[0], s.items, b, e, g), s.uni))
    if name == 'lastindex':
        raise Unmodelled('match.lastindex')
    if name in ('start', 'end', 'span'):
        def f(I, a, kw):
            sp = span(a[0] if a else 0)
            if sp is None:
                sp = (-1, -1)
            return sp[0] if name == 'start' else sp[1] if name == 'end' else sp
        return Builtin(name, f)
    return MISSING


# ---------------------------------------------------------------- attribute entry points
def host_attr(I, o, name):
    h = o.host
    if isinstance(h, Node):
        return xml_attr(I, o, name)
    if isinstance(h, Rx):
        if name in ('match', 'search', 'findall', 'finditer', 'split', 'sub'):
            return Builtin(name, lambda I, a, kw: rx_op(I, o, name, list(a) + [kw[k] for k in ('count', 'maxsplit') if k in kw]))
        if name == 'pattern':
            return st(h.text)
        return MISSING
    if isinstance(h, tuple) and h[0] == 'match':
        return match_attr(I, o, name)
    if isinstance(h, tuple) and h[0] == 'super':
        _, cls, obj = h
        oc = obj.cls if type(obj) is AObj else obj
        mro = oc.mro
        i = mro.index(cls)
        for c in mro[i + 1:]:
            if name in c.ns:
                return I.bind_attr(c.ns[name], obj, oc)
        if name == '__init__':
            return Builtin('__init__', lambda I, a, kw: None)
        return MISSING
    if isinstance(h, dict):
        if h['kind'] == 'file':
            return file_attr(I, o, name)
        if h['kind'] == 'stat':
            if name == 'st_size':
                return h['size']
            raise Unmodelled('stat.' + name)
        if h['kind'] == 'struct_time' and name in STRUCT_TIME:
            return struct_time_item(I, o, STRUCT_TIME.index(name))
        if h['kind'] == 'sink':
            return Builtin(name, lambda I, a, kw: None)
        if h['kind'] == 'ns':
            if name in h['ns']:
                return h['ns'][name]
    return MISSING


def host_iter(I, o):
    if isinstance(o.host, dict) and o.host['kind'] == 'file':
        raise Unmodelled('iteration over file lines')
    if isinstance(o.host, dict) and o.host['kind'] == 'struct_time':
        return I.host_iter(iter([struct_time_item(I, o, k) for k in range(9)]))
    return None


def value_attr(I, o, name):
    t = type(o)
    if t is ATimedelta:
        return td_attr(I, o, name)
    if t is ADatetime:
        return dt_attr(I, o, name)
    if t is AEpoch:
        if name in ('timetuple', 'utctimetuple'):
            return Builtin(name, lambda I, a, kw: time_tuple(I, o, name))
        if name == 'tzinfo':
            return None
        if name == 'utcoffset':
            return Builtin(name, lambda I, a, kw: None)
        if not hasattr(hdt.datetime, name):
            return MISSING
        raise Unmodelled('attribute of abstract date')
    if t is Iter and name == 'next':
        return Builtin('next', b_iter_next(o))
    if t is Iter and name == '__iter__':
        return Builtin('__iter__', lambda I, a, kw: o)
    if t is Iter and o.resume is not None and name in ('close', 'send', 'throw'):
        return Builtin(name, {'send': gen_send, 'throw': gen_throw, 'close': gen_close}[name](o))
    if t is AArray:
        if name in ('itemsize', 'typecode') and o.tc == 'y':
            return MISSING
        if name == 'itemsize':
            return {'B': 1, 'b': 1, 'c': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 8, 'l': 8}[o.tc]
        if name == 'typecode':
            return st(o.tc)
    return MISSING


def gen_send(o):
    def f(I, a, kw):
        try:
            return o.resume(a[0], None)
        except StopIter:
            I.err('StopIteration')
    return f


def gen_exc(I, a):
    if type(a[0]) is AClass:
        if len(a) > 1 and type(a[1]) is AObj:
            return ARaise(a[1], I.where())
        return ARaise(I.call(a[0], [] if len(a) < 2 or a[1] is None else list(a[1]) if type(a[1]) is tuple else [a[1]]), I.where())
    return ARaise(a[0], I.where())


def gen_throw(o):
    def f(I, a, kw):
        try:
            return o.resume(None, gen_exc(I, a))
        except StopIter:
            I.err('StopIteration')
    return f


def gen_close(o):
    def f(I, a, kw):
        try:
            o.resume(None, ARaise(I.call(I.exc_classes['GeneratorExit'], []), I.where()))
        except StopIter:
            return None
        except ARaise as e:
            if I.isinst(e.exc, I.exc_classes['GeneratorExit']) or I.isinst(e.exc, I.exc_classes['StopIteration']):
                return None
            raise
        I.err('RuntimeError', 'generator ignored GeneratorExit')
    return f


def b_iter_next(o):
    def f(I, a, kw):
        try:
            return o.nxt()
        except StopIter:
            I.err('StopIteration', None)
    return f


# ---------------------------------------------------------------- struct
def st_parse(I, fmt):
    if fmt and fmt[0] in '<>!=@':
        order = fmt[0]
        fmt = fmt[1:]
    else:
        order = '@'
    out = []
    n = ''
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        if c == ' ':
            continue
        k = int(n) if n else 1
        n = ''
        if c == 's':
            out.append(('s', k))
        elif c in 'BbHhIiLlQqcx':
            out += [(c, 1)] * k
        else:
            raise Unmodelled('struct format %s' % c)
    size = {'B': 1, 'b': 1, 'c': 1, 'x': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}
    if order in '@' and any(c in 'HhIiLlQq' for c, _ in out):
        if len(out) > 1:
            raise Unmodelled('native struct alignment')
    return order in '>!', [(c, k, (k if c == 's' else size[c])) for c, k in out]


def struct_pack(I, a, kw):
    be, f = st_parse(I, a[0].text())
    vals = list(a[1:])
    out = []
    C = D.ctx()
    for c, k, sz in f:
        if c == 'x':
            out.append(0)
            continue
        if not vals:
            I.err('TypeError', 'pack requires more arguments')
        v = vals.pop(0)
        if c == 's':
            it = list(v.items)[:k]
            out += it + [0] * (k - len(it))
            continue
        if c == 'c':
            out.append(v.items[0])
            continue
        if type(v) not in (int, bool, AInt):
            I.err('TypeError', 'integer argument expected')
        lo, hi = (0, (1 << 8 * sz) - 1) if c.isupper() else (-(1 << 8 * sz - 1), (1 << 8 * sz - 1) - 1)
        if not C.branch(compare('>=', v, lo)) or not C.branch(compare('<=', v, hi)):
            e = I.exc_classes.get('struct.error')
            I.err('struct.error', 'argument out of range')
        if c.islower() and not (num(v) and v >= 0):
            v = D.band(v, (1 << 8 * sz) - 1)
        bs = [D.band(D.shr(v, 8 * j), 255) for j in range(sz)]
        out += bs[::-1] if be else bs
    if vals:
        I.err('struct.error', 'too many arguments')
    return S(out)


def struct_unpack(I, a, kw):
    be, f = st_parse(I, a[0].text())
    s = a[1]
    items = list(s.items)
    if has_seg(items):
        raise Unmodelled('unpack of unknown bytes')
    need = sum(sz for c, k, sz in f)
    if need != len(items):
        I.err('struct.error', 'unpack requires a string argument of length %d' % need)
    out = []
    p = 0
    for c, k, sz in f:
        ch = items[p:p + sz]
        p += sz
        if c == 'x':
            continue
        if c == 's':
            out.append(S(ch))
            continue
        if c == 'c':
            out.append(S(ch))
            continue
        if be:
            ch = ch[::-1]
        v = 0
        for j, x in enumerate(ch):
            v = D.add(v, D.mul(x, 1 << 8 * j))
        if c.islower():
            if not D.ctx().branch(compare('<', v, 1 << (8 * sz - 1))):
                v = D.sub(v, 1 << 8 * sz)
        out.append(v)
    return tuple(out)


# ---------------------------------------------------------------- misc modules
def deep(I, v, memo):
    t = type(v)
    if id(v) in memo:
        return memo[id(v)]
    if t is AList:
        r = AList()
        memo[id(v)] = r
        r.items = [deep(I, x, memo) for x in v.items]
        return r
    if t is AArray:
        return AArray(v.tc, v.items)
    if t is ADict:
        r = ADict()
        memo[id(v)] = r
        r.d = {h: [deep(I, e[0], memo), deep(I, e[1], memo)] for h, e in v.d.items()}
        r.nabs = v.nabs
        return r
    if t is tuple:
        return tuple(deep(I, x, memo) for x in v)
    if t is AObj and v.host is None:
        r = AObj(v.cls)
        memo[id(v)] = r
        r.attrs = {k: deep(I, x, memo) for k, x in v.attrs.items()}
        return r
    if t is ASet:
        r = ASet(v.const)
        r.d = dict(v.d)
        r.nabs = v.nabs
        return r
    if t in (AObj,):
        raise Unmodelled('deepcopy')
    return v


def shallow(I, a, kw):
    v = a[0]
    t = type(v)
    if t is AList:
        return AList(v.items)
    if t is AArray:
        return AArray(v.tc, v.items)
    if t is ADict:
        return d_copy(I, v, [], {})
    if t is ASet:
        return set_of(I, v, v.const)
    if t is AObj and v.host is None:
        r = AObj(v.cls)
        r.attrs = dict(v.attrs)
        return r
    return v


def m_floor(I, a, kw):
    v = a[0]
    if type(v) in (int, bool, float):
        return float(hmath.floor(v))
    if type(v) is AReal:
        return AReal(D.floordiv(v.num, v.den), 1)
    if type(v) is AInt:
        if v.isf:
            r = D.pw(lambda x: float(hmath.floor(x)), v)
            if r is None:
                raise Unmodelled('floor')
            return r
        return AReal(v, 1)
    if type(v) is Cond:
        return AReal(v.as_int(), 1)
    I.err('TypeError', 'a float is required')


def m_ceil(I, a, kw):
    v = a[0]
    if type(v) in (int, bool, float):
        return float(hmath.ceil(v))
    if type(v) is AReal:
        return AReal(D.neg(D.floordiv(D.neg(v.num), v.den)), 1)
    if type(v) is AInt:
        if v.isf:
            r = D.pw(lambda x: float(hmath.ceil(x)), v)
            return unm('ceil') if r is None else r
        return AReal(v, 1)
    I.err('TypeError', 'a float is required')


def m_fmod(I, a, kw):
    raise Unmodelled('math')


def rnd_int(I, a, kw):
    lo, hi = I.index(a[0]), I.index(a[1])
    return D.ctx().atom('random', (lo, hi))


def rnd_range(I, a, kw):
    v = [I.index(x) for x in a]
    r = range(*v)
    if not r:
        I.err('ValueError', 'empty range for randrange()')
    return D.ctx().atom('random', D.RSet.vals(r) if r.step != 1 else (r[0], r[-1]))


def rnd_choice(I, a, kw):
    v = a[0]
    items = list(I.iterate(v))
    if not items:
        I.err('IndexError', 'list index out of range')
    x = D.ctx().atom('random', (0, len(items) - 1))
    return I.getitem(AList(items), x)


BI = {
    'ord': b_ord, 'chr': b_chr, 'unichr': lambda I, a, kw: b_chr(I, a, kw, 0x110000, True, 'unichr'),
    'len': b_len, 'range': b_range,
    'map': lambda I, a, kw: mapped(I, a[0], a[1:]), 'filter': b_filter, 'reduce': b_reduce, 'sum': b_sum,
    'min': minmax('<'), 'max': minmax('>'), 'sorted': b_sorted, 'isinstance': b_isinstance,
    'issubclass': b_issubclass, 'hasattr': b_hasattr, 'getattr': b_getattr, 'super': b_super, 'zip': b_zip,
    'enumerate': b_enumerate, 'reversed': b_reversed, 'iter': b_iter, 'next': b_next, 'any': b_any, 'all': b_all,
    'abs': b_abs, 'divmod': b_divmod, 'pow': b_pow, 'round': b_round, 'hex': b_hex,
    'oct': lambda I, a, kw: b_oct(I, a, kw), 'bin': b_bin, 'open': b_open, 'setattr': b_setattr,
    'delattr': b_delattr, 'cmp': b_cmp, 'callable': b_callable, 'hash': b_hash,
    'repr': lambda I, a, kw: py_repr(I, a[0]), 'id': lambda I, a, kw: D.ctx().atom('id', (1, 1 << 40)),
    'intern': lambda I, a, kw: a[0], **{k: (lambda k: lambda I, a, kw: unm(k))(k) for k in ('locals', 'globals', 'vars', 'dir', 'eval')},
    'execfile': lambda I, a, kw: unm('execfile'), 'apply': lambda I, a, kw: I.call(a[0], list(I.iterate(a[1])) if len(a) > 1 else []),
    'slice': lambda I, a, kw: SliceV(*([None] + a + [None] if len(a) == 1 else a + [None] * (3 - len(a)))),
    'format': lambda I, a, kw: new_format(I, st('{0:%s}' % (a[1].text() if len(a) > 1 else '')), [a[0]], {}),
    **{k: (lambda k: lambda I, a, kw: unm(k))(k) for k in ('raw_input', 'input', 'exit')}, 'memoryview': lambda I, a, kw: unm('memoryview'), 'buffer': lambda I, a, kw: a[0],
    'coerce': lambda I, a, kw: (a[0], a[1]),
}


def install(I):
    T = I.types
    obj = AClass('object', [], {})
    T['object'] = obj
    obj.ctor = None
    obj.ns['__init__'] = Builtin('__init__', lambda I, a, kw: None)

    def cls(name, base='object', ctor=None, ns=None):
        c = AClass(name, [T[base]] if base else [], ns or {}, ctor)
        T[name] = c
        return c

    def meths(tab):
        def wrap(nm, f):
            return Builtin(nm, lambda I, a, kw: f(I, a[0], a[1:], kw))
        return {k: wrap(k, f) for k, f in tab.items()}
    cls('type', 'object', ctor_type)
    cls('NoneType')
    cls('int', 'object', ctor_int, meths(INTM))
    cls('long', 'object', ctor_int, meths(INTM))
    cls('bool', 'int', ctor_bool)
    cls('float', 'object', ctor_float, {'is_integer': Builtin('is_integer', lambda I, a, kw: float(a[0]) == int(a[0]))})
    cls('basestring')
    cls('str', 'basestring', ctor_str, meths(STR))
    cls('unicode', 'basestring', ctor_unicode, meths(STR))
    cls('tuple', 'object', ctor_tuple, meths(TUPLE))
    cls('list', 'object', ctor_list, meths(LIST))
    cls('dict', 'object', ctor_dict, meths(DICT))
    T['object'].ns.setdefault('__setattr__', Builtin('__setattr__', lambda I, a, kw: (
        I.mut(a[0]), a[0].attrs.__setitem__(a[1].text(), a[2]), None)[2]))
    T['object'].ns.setdefault('__delattr__', Builtin('__delattr__', lambda I, a, kw: object_delattr(I, a[0], a[1])))
    T['object'].ns.setdefault('__new__', Builtin('__new__', lambda I, a, kw: AObj(a[0])))
    T['dict'].ns['fromkeys'] = StaticM(Builtin('fromkeys', lambda I, a, kw: d_fromkeys(I, None, a, kw)))
    cls('set', 'object', ctor_set(False), meths(SET))
    cls('frozenset', 'object', ctor_set(True), meths(SET))
    cls('array', 'object', ctor_array, meths(ARRAY))
    cls('bytearray', 'object', lambda I, c, a, kw: bytearray_ctor(I, a), meths(BARRAY))
    cls('xrange', 'object', lambda I, c, a, kw: b_xrange(I, a, kw))
    cls('slice')
    cls('module')
    cls('function')
    cls('instancemethod')
    cls('builtin_function_or_method')
    cls('generator')
    cls('super')
    cls('property', 'object', lambda I, c, a, kw: b_property(I, a, kw))
    cls('staticmethod', 'object', lambda I, c, a, kw: StaticM(a[0]))
    cls('classmethod', 'object', lambda I, c, a, kw: ClassM(a[0]))
    cls('file', 'object', lambda I, c, a, kw: b_open(I, a, kw))
    cls('xmlnode')
    cls('SRE_Pattern')
    cls('SRE_Match')
    cls('stat_result')
    cls('struct_time')
    cls('hostobj')
    cls('timedelta', 'object', ctor_timedelta)
    cls('date')
    cls('datetime', 'date', ctor_datetime)
    cls('tzinfo')
    T['struct_time'].ns['__getitem__'] = Builtin('__getitem__', lambda I, a, kw: struct_time_item(I, a[0], a[1]))
    T['stat_result'].ns['__getitem__'] = Builtin('__getitem__', lambda I, a, kw: stat_item(I, a[0], a[1]))
    D_ = T['datetime'].ns
    D_['strptime'] = StaticM(Builtin('strptime', lambda I, a, kw: dt_strptime(I, a, kw)))
    D_['utcfromtimestamp'] = StaticM(Builtin('utcfromtimestamp', lambda I, a, kw: epoch(I, a, kw)))
    D_['fromtimestamp'] = StaticM(Builtin('fromtimestamp', lambda I, a, kw: epoch(I, a, kw, True)))
    D_['now'] = StaticM(Builtin('now', lambda I, a, kw: unm('current time')))
    D_['utcnow'] = StaticM(Builtin('utcnow', lambda I, a, kw: unm('current time')))
    D_['strftime'] = Builtin('strftime', lambda I, a, kw: dt_strftime(I, a[0], a[1]))
    D_['combine'] = StaticM(Builtin('combine', lambda I, a, kw: unm('datetime.combine')))
    for n, b in EXC_TREE:
        c = AClass(n, [T[b] if b else obj], {}, ctor_exc)
        T[n] = c
        I.exc_classes[n] = c
    T['BaseException'].ns['__init__'] = Builtin('__init__', exc_init)
    c = AClass('error', [T['Exception']], {}, ctor_exc)
    I.exc_classes['struct.error'] = c
    B = I.builtins
    for k, f in BI.items():
        B[k] = Builtin(k, f)
    for k in ('object', 'type', 'int', 'long', 'bool', 'float', 'basestring', 'str', 'unicode', 'tuple', 'list',
              'dict', 'set', 'frozenset', 'xrange', 'property', 'staticmethod', 'classmethod', 'file', 'bytearray'):
        B[k] = T[k]
    B['bytes'] = T['str']
    for n, b in EXC_TREE:
        B[n] = T[n]
    B['True'] = True
    B['False'] = False
    B['None'] = None
    B['NotImplemented'] = Opaque('NotImplemented')
    B['Ellipsis'] = Opaque('Ellipsis')
    B['__debug__'] = True
    I.open_files = []
    I.faults = 0


def exc_init(I, a, kw):
    o = a[0]
    o.attrs['args'] = tuple(a[1:])
    o.attrs['message'] = a[1] if len(a) == 2 else st('')


def bytearray_ctor(I, a):
    arr = AArray('y')
    if a:
        v = a[0]
        if type(v) in (int, bool):
            if v < 0:
                I.err('ValueError', 'negative count')
            arr.items = [0] * int(v)
        elif type(v) is S:
            if v.uni:
                if len(a) < 2:
                    I.err('TypeError', 'unicode argument without an encoding')
                v = codec(I, v, a[1], a[2] if len(a) > 2 else None, True)
            arr.items = list(v.items)
        elif type(v) is AArray:
            for x in v.items:
                arr.items.append(arr_check(I, arr, x))
        elif type(v) is AInt and not v.isf:
            arr.items = [0] * D.ctx().concretize(v)
        else:
            arr_extend(I, arr, v)
    return arr


def stat_item(I, o, k):
    if k == 6:
        return o.host['size']
    raise Unmodelled('stat field')


def os_stat(I, a, kw):
    p = path_text(I, a[0])
    if p not in I.vfs:
        e = I.exc('OSError', None)
        e.exc.attrs['args'] = (2, st('No such file or directory'))
        raise e
    o = AObj(I.types['stat_result'])
    I.fslog.append(('stat', p, '', I.where()))
    o.host = {'kind': 'stat', 'size': I.seqlen(I.vfs[p]['data'])}
    return o


def hostns(I, kind='sink', **ns):
    o = AObj(I.types['hostobj'])
    o.host = {'kind': kind, 'ns': ns}
    return o


PY2_MODULES = set('''StringIO cStringIO Queue ConfigParser HTMLParser urllib2 urlparse cPickle thread commands sets md5
sha __builtin__ exceptions new'''.split())


def type_has(I, o, name):
    """does the library's own type have an attribute of that name (one this analysis has no model of)?"""
    X = frontend.EXTERNAL
    if type(o) is AModule or type(o) is AClass and not o.builtin:
        return False
    c = o if type(o) is AClass else o.cls if type(o) is AObj else I.type_of(o)
    for k in c.mro:
        if k.builtin and k.name != 'object':
            for m in ('__builtin__', 'datetime', 'array', 'collections'):
                if name in X.get('%s.%s' % (m, k.name), ()):
                    return True
    return False


def ext_has(mod, name):
    if mod in frontend.EXTERNAL:
        return name in frontend.EXTERNAL[mod]
    try:
        m = importlib.import_module(mod)
        return hasattr(m, name)
    except Exception:
        return mod in PY2_MODULES


def ext_module(I, name):
    if name in I.ext:
        return I.ext[name]
    T = I.types

    def bi(d):
        return {k: (Builtin(k, f) if callable(f) and not isinstance(f, (AClass, Builtin)) else f) for k, f in d.items()}
    ns = None
    if name == 'array':
        ns = {'array': T['array'], 'ArrayType': T['array']}
    elif name == 'datetime':
        ns = {k: T[k] for k in ('timedelta', 'datetime', 'tzinfo', 'date')}
    elif name == 'codecs':
        def reg(I, a, kw):
            I.codecs_search.append(a[0])

        def ci(I, c, a, kw):
            o = AObj(c)
            names = ['encode', 'decode', 'streamreader', 'streamwriter', 'incrementalencoder', 'incrementaldecoder', 'name']
            for k in names:
                o.attrs[k] = None
            for k, v in list(zip(names, a)) + list(kw.items()):
                o.attrs[k] = v
            return o
        c = AClass('CodecInfo', [T['object']], {}, ci)

        def lookup(I, a, kw):
            for f in I.codecs_search:
                r = I.call(f, [a[0]])
                if r is not None:
                    return r
            I.err('LookupError', 'unknown encoding')
        ns = bi({'register': reg, 'lookup': lookup,
                 'encode': lambda I, a, kw: codec(I, a[0], a[1], a[2] if len(a) > 2 else None, True),
                 'decode': lambda I, a, kw: codec(I, a[0], a[1], a[2] if len(a) > 2 else None, False)})
        ns['CodecInfo'] = c
        ns['Codec'] = AClass('Codec', [T['object']])
    elif name == 'sys':
        ns = bi({'exc_info': exc_info, 'exit': lambda I, a, kw: I.err('SystemExit', '')})
        ns.update({'version_info': (2, 7, 3, st('final'), 0), 'maxint': 2**31 - 1, 'maxunicode': 0x10ffff,
                   'version': st('2.7.3'), 'platform': st('linux2'), 'byteorder': st('little'), 'hexversion': 0x020703f0,
                   'stdout': hostns(I), 'stderr': hostns(I), 'maxsize': 2**63 - 1, 'argv': AList()})
    elif name == 'traceback':
        ns = bi({k: (lambda I, a, kw: None) for k in ('print_exc', 'print_stack')})
        ns['format_exc'] = Builtin('format_exc', lambda I, a, kw: opaque_str('traceback'))
    elif name == 'math':
        def hostm(k):
            def f(I, a, kw):
                if not all(type(x) in (int, float, bool) for x in a):
                    raise Unmodelled('math.' + k)
                try:
                    r = getattr(hmath, k)(*a)
                except ValueError:
                    I.err('ValueError', 'math domain error')
                return float(r) if type(r) is int else r
            return f
        ns = bi({k: hostm(k) for k in ('sqrt', 'log', 'log10', 'pow', 'fabs', 'modf', 'exp')})
        ns.update(bi({'floor': m_floor, 'ceil': m_ceil, 'fmod': m_fmod}))
        ns['pi'] = hmath.pi
        ns['e'] = hmath.e
    elif name == 're':
        ns = bi({'compile': rx_compile})
        for k in ('match', 'search', 'findall', 'finditer', 'split'):
            ns[k] = Builtin(k, (lambda k: lambda I, a, kw: rx_op(I, rx_compile(I, [a[0]] + (a[2:3] if k != 'split' else []), kw), k, a[1:2] if k != 'split' else a[1:3]))(k))
        ns['sub'] = Builtin('sub', lambda I, a, kw: rx_op(
            I, rx_compile(I, [a[0]] + a[4:5], {k: v for k, v in kw.items() if k == 'flags'}), 'sub',
            list(a[1:4]) + ([kw['count']] if 'count' in kw else [])))
        import re as hre
        for k in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL'):
            ns[k] = int(getattr(hre, k))
        ns['U'] = ns['UNICODE'] = ns['X'] = 0
        ns['error'] = AClass('error', [T['Exception']], {}, ctor_exc)
        ns['escape'] = Builtin('escape', lambda I, a, kw: st(hre.escape(a[0].text())))
    elif name == 'os':
        ns = bi({'stat': os_stat, 'getpid': lambda I, a, kw: D.ctx().atom('pid', (1, 65535)),
                 'remove': fs_remove, 'unlink': fs_remove, 'rename': fs_rename, 'fsync': lambda I, a, kw: None})
        ns['sep'] = st('/')
        ns['linesep'] = st('\n')
        ns['error'] = T['OSError']
        ns['path'] = ext_module(I, 'os.path')
        ns['environ'] = ADict()
    elif name == 'os.path' or name == 'posixpath':
        def pf(f):
            return lambda I, a, kw: st(f(*[path_text(I, x) for x in a]))
        ns = bi({'isfile': lambda I, a, kw: path_text(I, a[0]) in I.vfs,
                 'exists': lambda I, a, kw: path_text(I, a[0]) in I.vfs,
                 'isdir': lambda I, a, kw: False,
                 'getsize': lambda I, a, kw: os_stat(I, a, kw).host['size'],
                 'basename': pf(posixpath.basename), 'dirname': pf(posixpath.dirname), 'join': pf(posixpath.join),
                 'abspath': pf(lambda p: posixpath.normpath(posixpath.join('/cwd', p))), 'normpath': pf(posixpath.normpath),
                 'realpath': pf(lambda p: posixpath.normpath(posixpath.join('/cwd', p))),
                 'split': lambda I, a, kw: tuple(st(x) for x in posixpath.split(path_text(I, a[0]))),
                 'splitext': lambda I, a, kw: tuple(st(x) for x in posixpath.splitext(path_text(I, a[0])))})
        ns['sep'] = st('/')
    elif name == 'random':
        ns = bi({'randint': rnd_int, 'randrange': rnd_range, 'choice': rnd_choice, 'seed': lambda I, a, kw: None,
                 'getrandbits': lambda I, a, kw: D.ctx().atom('random', (0, (1 << I.index(a[0])) - 1)),
                 'random': lambda I, a, kw: unm('random.random')})
    elif name == 'calendar':
        ns = bi({'timegm': timegm})
    elif name == 'mimetypes':
        def gt(I, a, kw):
            mt = hmime.MimeTypes(filenames=(), strict=True)
            t, e = mt.guess_type(path_text(I, a[0]))
            return (st(t) if t else None, st(e) if e else None)
        ns = bi({'guess_type': gt, 'guess_extension': lambda I, a, kw: unm('guess_extension'),
                 'init': lambda I, a, kw: None, 'add_type': lambda I, a, kw: unm('add_type')})
    elif name == 'xml' or name == 'xml.dom':
        ns = {}
        if name == 'xml':
            ns['dom'] = ext_module(I, 'xml.dom')
        else:
            ns['minidom'] = ext_module(I, 'xml.dom.minidom')
    elif name == 'xml.dom.minidom':
        ns = bi({'getDOMImplementation': lambda I, a, kw: mk_node(I, Node('impl'))})

        def newdoc(I, c, a, kw):
            return mk_node(I, Node('doc'))
        ns['Document'] = AClass('Document', [T['object']], {}, newdoc)
    elif name == 'struct':
        ns = bi({'pack': struct_pack, 'unpack': struct_unpack,
                 'calcsize': lambda I, a, kw: sum(s for _, _, s in st_parse(I, a[0].text())[1])})
        ns['error'] = I.exc_classes['struct.error']
    elif name == 'binascii':
        ns = bi({'hexlify': lambda I, a, kw: hexlify(I, a[0]), 'b2a_hex': lambda I, a, kw: hexlify(I, a[0]),
                 'unhexlify': lambda I, a, kw: unhexlify(I, a[0]), 'a2b_hex': lambda I, a, kw: unhexlify(I, a[0])})
        ns['Error'] = I.exc_classes['ValueError']
    elif name == 'itertools':
        def chain(I, a, kw):
            def g():
                for x in a:
                    yield from I.iterate(x)
            return I.host_iter(g())

        def chain_from(I, a, kw):
            def g():
                for x in I.iterate(a[0]):
                    yield from I.iterate(x)
            return I.host_iter(g())

        def islice(I, a, kw):
            v = [None if x is None else I.index(x) for x in a[1:]]
            it = I.iter(a[0])
            lo, hi, stp = slice(*v).start or 0, slice(*v).stop, slice(*v).step or 1

            def g():
                i = 0
                nxt_i = lo
                while hi is None or i < hi:
                    try:
                        x = I.next(it)
                    except StopIter:
                        return
                    if i == nxt_i:
                        nxt_i += stp
                        yield x
                    i += 1
            return I.host_iter(g())

        def izip(I, a, kw):
            its = [I.iter(x) for x in a]

            def g():
                while its:
                    row = []
                    for it in its:
                        try:
                            row.append(I.next(it))
                        except StopIter:
                            return
                    yield tuple(row)
            return I.host_iter(g())

        def imap(I, a, kw):
            def g():
                for row in I.iterate(izip(I, a[1:], {})):
                    yield I.call(a[0], list(row))
            return I.host_iter(g())

        def takewhile(I, a, kw):
            def g():
                it = I.iter(a[1])
                while True:
                    try:
                        x = I.next(it)
                    except StopIter:
                        return
                    if not I.test(I.call(a[0], [x])):
                        return
                    yield x
            return I.host_iter(g())

        def dropwhile(I, a, kw):
            def g():
                drop = True
                for x in I.iterate(a[1]):
                    if drop and I.test(I.call(a[0], [x])):
                        continue
                    drop = False
                    yield x
            return I.host_iter(g())

        def count(I, a, kw):
            def g():
                i = a[0] if a else 0
                s = a[1] if len(a) > 1 else 1
                while True:
                    yield i
                    i = I.binop('Add', i, s)
            return I.host_iter(g())

        def repeat(I, a, kw):
            def g():
                if len(a) > 1:
                    for _ in range(I.index(a[1])):
                        yield a[0]
                else:
                    while True:
                        yield a[0]
            return I.host_iter(g())

        def cycle(I, a, kw):
            xs = list(I.iterate(a[0]))

            def g():
                while xs:
                    yield from xs
            return I.host_iter(g())

        def ifilter(I, a, kw):
            def g():
                for x in I.iterate(a[1]):
                    if I.test(x if a[0] is None else I.call(a[0], [x])):
                        yield x
            return I.host_iter(g())

        def izip_longest(I, a, kw):
            ls = [list(I.iterate(x)) for x in a]
            n = max(map(len, ls)) if ls else 0
            fv = kw.get('fillvalue')
            return I.host_iter(iter([tuple(l[i] if i < len(l) else fv for l in ls) for i in range(n)]))

        def starmap(I, a, kw):
            def g():
                for x in I.iterate(a[1]):
                    yield I.call(a[0], list(I.iterate(x)))
            return I.host_iter(g())

        def tee(I, a, kw):
            xs = list(I.iterate(a[0]))
            n = a[1] if len(a) > 1 else 2
            return tuple(I.host_iter(iter(list(xs))) for _ in range(n))
        ns = bi({'islice': islice, 'izip': izip, 'imap': imap, 'takewhile': takewhile, 'dropwhile': dropwhile,
                 'count': count, 'repeat': repeat, 'cycle': cycle, 'ifilter': ifilter, 'izip_longest': izip_longest,
                 'starmap': starmap, 'tee': tee})
        o = AClass('chain', [T['object']], {'from_iterable': StaticM(Builtin('from_iterable', chain_from))},
                   lambda I, c, a, kw: chain(I, a, kw))
        ns['chain'] = o
    elif name == 'operator':
        def bop(op):
            return lambda I, a, kw: I.binop(op, a[0], a[1])

        def itemgetter(I, a, kw):
            ks = a
            return Builtin('itemgetter', lambda I, b, kw: I.getitem(b[0], ks[0]) if len(ks) == 1 else
                           tuple(I.getitem(b[0], k) for k in ks))

        def attrgetter(I, a, kw):
            def one(o, name):
                for k in name.text().split('.'):
                    o = I.getattr(o, k)
                return o
            return Builtin('attrgetter', lambda I, b, kw: one(b[0], a[0]) if len(a) == 1 else tuple(one(b[0], k) for k in a))

        def methodcaller(I, a, kw):
            return Builtin('methodcaller', lambda I, b, kw2: I.call(I.getattr(b[0], a[0].text()), list(a[1:]), kw))
        ns = bi({'add': bop('Add'), 'sub': bop('Sub'), 'mul': bop('Mult'), 'or_': bop('BitOr'), 'and_': bop('BitAnd'),
                 'xor': bop('BitXor'), 'lshift': bop('LShift'), 'rshift': bop('RShift'), 'concat': bop('Add'),
                 'iadd': lambda I, a, kw: I.binop('Add', a[0], a[1], True), 'mod': bop('Mod'), 'floordiv': bop('FloorDiv'),
                 'itemgetter': itemgetter, 'attrgetter': attrgetter, 'methodcaller': methodcaller,
                 'eq': lambda I, a, kw: I.eq(a[0], a[1]), 'getitem': lambda I, a, kw: I.getitem(a[0], a[1]),
                 'contains': lambda I, a, kw: I.contains(a[0], a[1]), 'not_': lambda I, a, kw: D.cnot(I.truth(a[0]))})
    elif name == 'functools':
        def partial(I, a, kw):
            return Builtin('partial', lambda I, b, kw2: I.call(a[0], list(a[1:]) + list(b), dict(kw, **kw2)))
        ns = bi({'partial': partial, 'reduce': b_reduce,
                 'wraps': lambda I, a, kw: Builtin('wraps', lambda I, b, kw: b[0]),
                 'cmp_to_key': lambda I, a, kw: unm('cmp_to_key'),
                 'update_wrapper': lambda I, a, kw: a[0]})
    elif name == 'copy':
        ns = bi({'copy': shallow, 'deepcopy': lambda I, a, kw: deep(I, a[0], {})})
    elif name == 'string':
        import string as hs
        ns = {k: st(getattr(hs, k)) for k in ('digits', 'hexdigits', 'ascii_letters', 'ascii_lowercase',
                                              'ascii_uppercase', 'punctuation', 'printable', 'whitespace', 'octdigits')}
        ns['letters'] = ns['ascii_letters']
        ns['uppercase'] = ns['ascii_uppercase']
        ns['lowercase'] = ns['ascii_lowercase']
        ns['maketrans'] = Builtin('maketrans', lambda I, a, kw: maketrans(a))
        ns['join'] = Builtin('join', lambda I, a, kw: m_join(I, a[1] if len(a) > 1 else st(' '), [a[0]], {}))
    elif name == 'types':
        ns = {'IntType': T['int'], 'LongType': T['long'], 'StringType': T['str'], 'UnicodeType': T['unicode'],
              'ListType': T['list'], 'TupleType': T['tuple'], 'DictType': T['dict'], 'NoneType': T['NoneType'],
              'StringTypes': (T['str'], T['unicode']), 'FunctionType': T['function'], 'BooleanType': T['bool'],
              'FloatType': T['float'], 'GeneratorType': T['generator']}
    elif name == 'collections':
        od = AClass('OrderedDict', [T['dict']], {}, ctor_dict)
        ns = {'OrderedDict': od, 'Iterable': Opaque('Iterable')}

        def deque(I, c, a, kw):
            if len(a) > 1 and a[1] is not None or kw:
                raise Unmodelled('deque of limited length')
            return ctor_list(I, c, a[:1], {})
        ns['deque'] = AClass('deque', [T['list']], {}, deque)
        T['list'].ns.setdefault('popleft', Builtin('popleft', lambda I, a, kw: l_pop(I, a[0], [0], {})))
        T['list'].ns.setdefault('appendleft', Builtin('appendleft', lambda I, a, kw: l_insert(I, a[0], [0, a[1]], {})))
    elif name == '__builtin__':
        ns = dict(I.builtins)
    elif name == 'exceptions':
        ns = dict(I.exc_classes)
    elif name == 'warnings':
        ns = bi({'warn': lambda I, a, kw: None})
    elif name == 'logging':
        lg = hostns(I)
        ns = bi({'getLogger': lambda I, a, kw: hostns(I)})
        for k in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'basicConfig'):
            ns[k] = Builtin(k, lambda I, a, kw: None)
    elif name == 'contextlib':
        ns = {}
    elif name in PY2_MODULES or name.split('.')[0] in hsys.stdlib_module_names:
        ns = {}
    if ns is None:
        return None
    m = AModule(name, ns, None)
    I.ext[name] = m
    return m


def maketrans(a):
    t = list(range(256))
    for x, y in zip(a[0].items, a[1].items):
        t[x] = y
    return S(t)


def fs_remove(I, a, kw):
    p = path_text(I, a[0])
    I.fslog.append(('remove', p, '', I.where()))
    if p not in I.vfs:
        I.err('OSError', 'No such file')
    del I.vfs[p]


def fs_rename(I, a, kw):
    p, q = path_text(I, a[0]), path_text(I, a[1])
    I.fslog.append(('rename', p, q, I.where()))
    if p not in I.vfs:
        I.err('OSError', 'No such file')
    I.vfs[q] = I.vfs.pop(p)
