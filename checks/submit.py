"""C03..C13: SMS-SUBMIT encoding."""
from itertools import product
from pyai import dom as D
from pyai.harness import scenario, AnchorGone
from pyai.values import S, st, us, AList, AInt, ATimedelta, ADatetime
from . import oracle as O

IDENT = [c for c, s in O.REG.items() if c == s]           # characters whose septet is their code
DIGIT = D.RSet.of(48, 57)
SEC = 1000000
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR
WEEK = 7 * DAY


# ------------------------------------------------------------------------------------------------ helpers
def mk(e, number, text, **kw):
    o = e.ok(e.get('messaging.sms.SmsSubmit'), number, text)
    for k, v in kw.items():
        e.set(o, k, v)
    return o


NUM = st('+34666123456')
NUMADDR = [11, 0x91, 0x43, 0x66, 0x16, 0x32, 0x54, 0xf6]


def pdus(e, o):
    r = e.m(o, 'to_pdu')
    if type(r) is not AList:
        e.bad('to_pdu result', 'to_pdu returned %r, a list is required' % (r,))
    return [(e.attr(p, 'pdu'), e.attr(p, 'length'), e.attr(p, 'cnt'), e.attr(p, 'seq')) for p in r.items]


def addr(items, digits_len):
    """address octets of a number given as character codes; digits_len: length octet counts digits (else octets)"""
    t = 0x81
    if items and type(items[0]) is int and items[0] == 43:
        t = 0x91
        items = items[1:]
    nib = [D.band(c, 15) for c in items]
    octs = O.swap(nib)
    return [len(nib) if digits_len else len(octs) + 1, t] + octs


def number(e, n, plus, name='d'):
    return ([43] if plus else []) + [e.atom('%s%d' % (name, i), DIGIT) for i in range(n)]


def ident_text(e, n, wild=None, wdom=None):
    out = []
    for i in range(n):
        if wild is not None and i == wild:
            out.append(e.atom('wild%d' % i, wdom))
        else:
            out.append(e.atom('ch%d' % i, IDENT))
    return out


def septets(chars, classes=None):
    return [O.septet(c) for c in chars]


def gsm_ud(seps):
    return [len(seps)] + O.pack7(seps)


def pack7mix(seps, fill=0, head=()):
    """like oracle.pack7 but by octet arithmetic, for septets without bit provenance"""
    out = []
    n = len(seps)
    total = fill + 7 * n
    for j in range((total + 7) // 8):
        acc = 0
        for i in range(n):
            lo = fill + 7 * i - 8 * j
            if lo <= -7 or lo >= 8:
                continue
            v = D.shl(seps[i], lo) if lo >= 0 else D.shr(seps[i], -lo)
            acc = D.bor(acc, D.band(v, 255))
        out.append(acc)
    return out


def udh(ref, total, seq):
    return [5, 0, 3, ref, total, seq]


def part_gsm(seps, ref, total, seq):
    """user data of one concatenated GSM part: 7 header septets, one fill bit, text"""
    body = udh(ref, total, seq)
    try:
        rest = O.pack7(seps, 1)
    except (TypeError, AssertionError):
        rest = pack7mix(seps, 1)
    return [7 + len(seps)] + body + rest


def part_ucs2(chars, ref, total, seq):
    d = udh(ref, total, seq) + ucs2(chars)
    return [len(d)] + d


def part_8(chars, ref, total, seq):
    d = udh(ref, total, seq) + list(chars)
    return [len(d)] + d


def ucs2(chars):
    out = []
    for c in chars:
        out += [D.shr(c, 8), D.band(c, 255)]
    return out


def head(first, ref, adr=NUMADDR, pid=0, dcs=0, vp=(), smsc=(0,)):
    return list(smsc) + [first, ref] + list(adr) + [pid, dcs] + list(vp)


def check_pdu(e, got, octets, smsc_len=1, cnt=1, seq=1):
    pdu, length, c, s = got
    e.isstr('pdu', pdu)
    e.same('pdu', pdu, S(O.hexs(octets)))
    e.same('advertised length', length, len(octets) - smsc_len)
    e.same('part count', c, cnt)
    e.same('part sequence', s, seq)


def base(e):
    return dict(ref=e.atom('ref', 0, 255))


# ------------------------------------------------------------------------------------------------ C03 packing
def c03_quick():
    out = [(n, None) for n in range(0, 161)]
    for n in list(range(1, 17)) + [24, 80, 152, 153, 159, 160]:
        ps = range(n) if n <= 16 else (0, 6, 7, 8, n // 2, n - 2, n - 1)
        out += [(n, p) for p in ps]
    return out


def c03_thorough():
    return [(n, None) for n in range(0, 161)] + [(n, p) for n in range(1, 161) for p in range(n) if n <= 40 or p % 8 == n % 8 or p > n - 4]


@scenario('C03', 'pack-single', 'bit b of septet i is bit 7i+b of the octet stream, unused bits zero, length octet = septets',
          c03_quick, c03_thorough)
def pack_single(e, inst):
    n, w = inst
    chars = ident_text(e, n, w, O.REGSET)
    b = base(e)
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), 1)
    seps = [O.septet(c) for c in chars]
    ud = O.pack7(seps) if w is None else pack7mix(seps)
    check_pdu(e, got[0], head(1, b['ref']) + [n] + ud)


@scenario('C03', 'pack-udh', 'with a 6-octet header: header octets, one fill bit, septets; length counts 7 + septets',
          lambda: [(161 + k, None) for k in range(0, 146, 5)] + [(155 + k, p) for k in range(6, 16) for p in (152, 153, 154 + k)],
          lambda: [(161 + k, None) for k in range(0, 146)] + [(155 + k, p) for k in range(6, 30) for p in range(k % 8, 155 + k, 8)])
def pack_udh(e, inst):
    n, w = inst
    chars = ident_text(e, n, w, O.REGSET)
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    parts = [chars[i:i + 153] for i in range(0, n, 153)]
    e.same('number of PDUs', len(got), len(parts))
    for i, (g, p) in enumerate(zip(got, parts)):
        seps = [O.septet(c) for c in p]
        if w is not None and i == w // 153:
            ud = [7 + len(seps)] + udh(b['rand_id'], len(parts), i + 1) + pack7mix(seps, 1)
        else:
            ud = part_gsm(seps, b['rand_id'], len(parts), i + 1)
        check_pdu(e, g, head(0x41, b['ref']) + ud, 1, len(parts), i + 1)


# ------------------------------------------------------------------------------------------------ C05 8-bit, UCS-2
@scenario('C05', 'ucs2', 'UCS-2: length octet counts bytes, two big-endian bytes per BMP character; header first when multipart',
          lambda: [(n, True) for n in range(0, 71)] + [(n, False) for n in (0, 1, 2, 70)] + [(n, True) for n in (71, 72, 134, 135, 140, 201, 202)],
          lambda: [(n, f) for n in range(0, 210) for f in (True, False) if f or n <= 70])
def ucs2_(e, inst):
    n, allbmp = inst
    dom = O.BMP if allbmp else O.BADSET
    chars = [e.atom('ch%d' % i, dom) for i in range(n)]
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    if allbmp or not n:
        b['fmt'] = 0x08
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    parts = [chars] if n <= 70 else [chars[i:i + 67] for i in range(0, n, 67)]
    e.same('number of PDUs', len(got), len(parts))
    for i, (g, p) in enumerate(zip(got, parts)):
        if len(parts) == 1:
            check_pdu(e, g, head(1, b['ref'], dcs=8) + [2 * n] + ucs2(p))
        else:
            check_pdu(e, g, head(0x41, b['ref'], dcs=8) + part_ucs2(p, b['rand_id'], len(parts), i + 1), 1, len(parts), i + 1)


@scenario('C05', 'eight-bit', '8-bit: length octet then every byte unchanged; header first and counted when multipart',
          lambda: [(n, u) for n in list(range(0, 20)) + [69, 70, 71, 133, 134, 135, 138, 139, 140] for u in (True, False)] +
          [(n, u) for n in (141, 142, 268, 269, 280) for u in (True, False)],
          lambda: [(n, u) for n in range(0, 141) for u in (True, False)] +
          [(n, u) for n in range(141, 415, 3) for u in (True, False)])
def eight(e, inst):
    n, uni = inst
    dom = D.RSet.of(0, 255)
    chars = [e.atom('byte%d' % i, dom) for i in range(n)]
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    b['fmt'] = 0x04
    o = mk(e, NUM, S(chars, uni), **b)
    got = pdus(e, o)
    parts = [chars] if n <= 140 else [chars[i:i + 134] for i in range(0, n, 134)]
    e.same('number of PDUs', len(got), len(parts))
    for i, (g, p) in enumerate(zip(got, parts)):
        if len(parts) == 1:
            check_pdu(e, g, head(1, b['ref'], dcs=4) + [n] + p)
        else:
            check_pdu(e, g, head(0x41, b['ref'], dcs=4) + part_8(p, b['rand_id'], len(parts), i + 1), 1, len(parts), i + 1)


# ------------------------------------------------------------------------------------------------ C06 layout
def dateatoms(e, **kw):
    y = e.atom('year', 2000, 2099)
    mo = e.atom('month', 1, 12)
    d = e.atom('day', 1, 28)
    h = e.atom('hour', 0, 23)
    mi = e.atom('minute', 0, 59)
    s = e.atom('second', 0, 59)
    return (y, mo, d, h, mi, s)


def bcd(v):
    """swapped BCD octet of a number 0..99"""
    return D.pw(lambda x: (x % 10) << 4 | x // 10, v) if isinstance(v, AInt) else (v % 10) << 4 | v // 10


def vp_abs(f, quarters=0, neg=False):
    z = bcd(quarters)
    if neg:
        z = D.bor(z, 0x08)
    return [bcd(D.mod(f[0], 100))] + [bcd(x) for x in f[1:6]] + [z]


@scenario('C06', 'layout', 'field order, flags and advertised length for every combination of settings',
          lambda: list(product((0, 1, 2), ('none', 'rel', 'abs'), (False, True), (None, 0, 1, 2, 3), ('gsm', '8bit', 'ucs2'), (1, 2))),
          lambda: list(product((0, 1, 2, 3), ('none', 'rel', 'abs'), (False, True), (None, 0, 1, 2, 3), ('gsm', '8bit', 'ucs2'), (1, 2, 3))))
def layout(e, inst):
    smsc, val, status, klass, fmt, nparts = inst
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    b['pid'] = e.atom('pid', 0, 255)
    b['request_status'] = status
    first = 1
    sm = [0]
    if smsc:
        n = number(e, {1: 9, 2: 6, 3: 11}[smsc], smsc != 2, 's')
        b['csca'] = S(n)
        sm = addr(n, False)
    if val == 'rel':
        k = e.atom('steps', 0, 143)
        b['validity'] = ATimedelta(D.mul(D.add(k, 1), 5 * MIN))
        vp = [k]
        first |= 0x10
    elif val == 'abs':
        f = dateatoms(e)
        b['validity'] = ADatetime(f + (0,))
        vp = vp_abs(f)
        first |= 0x18
    else:
        vp = []
    if status:
        first |= 0x20
    if nparts > 1:
        first |= 0x40
    dcs = {'gsm': 0, '8bit': 4, 'ucs2': 8}[fmt]
    b['fmt'] = dcs
    if klass is not None:
        b['klass'] = klass
        dcs |= 0x10 | klass
    full = {'gsm': 153, '8bit': 134, 'ucs2': 67}[fmt]
    n = 5 if nparts == 1 else full * (nparts - 1) + 20
    dom = {'gsm': IDENT, '8bit': D.RSet.of(0, 255), 'ucs2': O.BMP}[fmt]
    chars = [e.atom('ch%d' % i, dom) if i % 16 == 0 or n < 10 else 97 + i % 26 for i in range(n)]
    num = number(e, 9, True)
    o = mk(e, S(num), S(chars, True), **b)
    got = pdus(e, o)
    parts = [chars[i:i + full] for i in range(0, n, full)]
    e.same('number of PDUs', len(got), nparts)
    for i, (g, p) in enumerate(zip(got, parts)):
        if nparts == 1:
            ud = {'gsm': lambda: gsm_ud(p), '8bit': lambda: [len(p)] + p, 'ucs2': lambda: [2 * len(p)] + ucs2(p)}[fmt]()
        else:
            ud = {'gsm': part_gsm, '8bit': part_8, 'ucs2': part_ucs2}[fmt](p, b['rand_id'], nparts, i + 1)
        check_pdu(e, g, head(first, b['ref'], addr(num, True), b['pid'], dcs, vp, sm) + ud, len(sm), nparts, i + 1)


# ------------------------------------------------------------------------------------------------ C07 addresses
@scenario('C07', 'destination', 'destination: digit count, type, swapped semi-octets, 0xF filler',
          lambda: [(n, p, u) for n in range(3, 21) for p in (False, True) for u in (False, True)])
def dest(e, inst):
    n, plus, uni = inst
    num = number(e, n, plus)
    b = base(e)
    o = mk(e, S(num, uni), us('hi'), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), 1)
    check_pdu(e, got[0], head(1, b['ref'], addr(num, True)) + gsm_ud([104, 105]))
    e.same('number attribute', e.attr(o, 'number'), S(num, uni))


@scenario('C07', 'service-centre', 'SMSC: octet count including the type octet, type, swapped semi-octets; 00 without one',
          lambda: [(n, p, u) for n in range(3, 21) for p in (False, True) for u in (False, True)] + ['none', 'empty'])
def smsc(e, inst):
    b = base(e)
    if inst in ('none', 'empty'):
        b['csca'] = None if inst == 'none' else st('')
        sm = [0]
    else:
        n, plus, uni = inst
        num = number(e, n, plus)
        b['csca'] = S(num, uni)
        sm = addr(num, False)
    o = mk(e, NUM, us('hi'), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), 1)
    check_pdu(e, got[0], head(1, b['ref'], smsc=sm) + gsm_ud([104, 105]), len(sm))
    if inst not in ('none', 'empty'):
        e.same('csca attribute', e.attr(o, 'csca'), S(num, uni))


# ------------------------------------------------------------------------------------------------ C08 alphabet, DCS, limits
def c08():
    out = []
    for n in (1, 2, 3):
        out += [(n, p, k) for p in range(n) for k in 'reb']
    for n in (69, 70, 71, 158, 159, 160, 161):
        out += [(n, p, k) for p in sorted({0, 1, n // 2, 66, 67, n - 2, n - 1} & set(range(n))) for k in 'reb']
    return out


@scenario('C08', 'choice', 'GSM iff every character is in the alphabet, else UCS-2; single PDU iff it fits; DCS = alphabet + class',
          lambda: [x + (None,) for x in c08()] + [(2, 1, k, c) for k in 'reb' for c in range(4)] +
          [(n, p, k, None) for n in (2, 69, 70, 71) for p in (0, n - 1) for k in ('be', 'br', 'bb')] +
          [(n, p, k, None) for n in (158, 159, 160) for p in (0, n - 1) for k in ('er', 'ee')],
          lambda: [(n, p, k, None) for n in list(range(1, 10)) + list(range(66, 74)) + list(range(150, 165)) for p in range(n) for k in 'reb'] +
          [(n, n - 1, k, c) for n in (1, 70, 71, 160, 161) for k in 'reb' for c in range(4)] +
          [(n, p, a + c, None) for n in (2, 3, 68, 69, 70, 71, 72, 156, 157, 158, 159, 160) for p in (0, n // 2, n - 1) for a in 'reb' for c in 'reb'])
def choice(e, inst):
    n, p, k, klass = inst
    sets = {'r': O.REGSET, 'e': O.EXTSET, 'b': O.BADSET}
    chars = [97 + i % 26 for i in range(n)]
    chars[p] = w = e.atom('wild', sets[k[0]])
    if n > 1:
        chars[0 if p else 1] = e.atom('ch', IDENT)
    w2 = None
    if len(k) > 1:
        chars[0 if p else n - 1] = w2 = e.atom('wild2', sets[k[1]])
    ext = [x for x, y in zip((w, w2), k) if y == 'e']
    k = 'b' if 'b' in k else k
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    dcs = 8 if k == 'b' else 0
    if klass is not None:
        b['klass'] = klass
        dcs |= 0x10 | klass
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    if k == 'b':
        single = n <= 70
        fit = [len(chars[i:i + 67]) for i in range(0, n, 67)]
    else:
        size = n + len(ext)
        single = size <= 160
    if single:
        e.same('number of PDUs', len(got), 1)
    else:
        e.cond('number of PDUs', len(got) > 1, 'a text over the single-part limit (%d characters, kind %s) gave %d PDU(s)' % (n, k, len(got)))
    if single:
        if k == 'b':
            ud = [2 * n] + ucs2(chars)
        else:
            seps = []
            for c in chars:
                if any(c is x for x in ext):
                    seps += [0x1b, O.extseptet(c)]
                else:
                    seps.append(O.septet(c))
            ud = [len(seps)] + pack7mix(seps)
        check_pdu(e, got[0], head(1, b['ref'], dcs=dcs) + ud)
    else:
        for g in got:
            e.same('DCS octet', S(g[0].items[24:26]), S(O.hexs([dcs])))


@scenario('C08', 'explicit-format', 'an explicit format is honoured; any other value raises ValueError',
          lambda: ['bad', (0, 160), (0, 161), (4, 140), (4, 141), (8, 70), (8, 71)])
def explicit(e, inst):
    if inst == 'bad':
        f = e.atom('fmt', D.RSet.of(-300, 300) - D.RSet.vals((0, 4, 8)))
        c = e.atom('ch', O.REGSET)
        for klass in (None, 1):
            o = mk(e, NUM, S([c], True), fmt=f)
            if klass is not None:
                e.set(o, 'klass', klass)
            r = e.rm(o, 'to_pdu')
            e.raises('unsupported format', r, 'ValueError')
        return
    f, n = inst
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    dom = {0: IDENT, 4: D.RSet.of(0, 127), 8: D.RSet.of(0, 0xd7ff) | D.RSet.of(0xe000, 0xffff)}[f]
    chars = [e.atom('ch%d' % i, dom if i in (1, n - 1) else IDENT) if i < 4 or i > n - 4 else 98 for i in range(n)]
    o = mk(e, NUM, S(chars, True), fmt=f, **b)
    got = pdus(e, o)
    lim = {0: 160, 4: 140, 8: 70}[f]
    e.same('number of PDUs', len(got), 1 if n <= lim else 2)
    for g in got:
        e.same('DCS octet', S(g[0].items[24:26]), S(O.hexs([f])))


# ------------------------------------------------------------------------------------------------ C09 multipart
def greedy(seps, isesc, size):
    parts, i = [], 0
    n = len(seps)
    while i < n:
        j = min(i + size, n)
        if j < n and isesc[j - 1]:
            j -= 1
        parts.append(seps[i:j])
        i = j
    return parts


def c09_quick():
    out = [('gsm', n, ()) for n in (161, 162, 305, 306, 307, 459, 460, 612, 613)]
    for b in range(149, 156):
        out.append(('gsm', 200, (b,)))
        out.append(('gsm', 320, (b, b + 152)))
        out.append(('gsm', 320, (b, b + 1, b + 153)))
    out += [('gsm', 320, (x,)) for x in range(302, 309)] + [('gsm', 165, (164,)), ('gsm', 159, (158, 0)), ('gsm', 153, tuple(range(80, 153)))]
    out += [('gsm', n, tuple(range(n))) for n in (81, 90, 153, 160)]
    out += [('ucs2', n, ()) for n in (71, 133, 134, 135, 201, 202, 268)]
    out += [('8bit', n, ()) for n in (141, 267, 268, 269, 402, 403)]
    return out


def c09_thorough():
    out = [('gsm', n, ()) for n in list(range(161, 480, 3)) + [612, 613, 918]]
    for n in (200, 320, 470):
        out += [('gsm', n, (b,)) for b in range(n - 1)]
        out += [('gsm', n, (b, b + 1)) for b in range(140, min(n - 2, 320))]
        out += [('gsm', n, (b, c)) for b in range(148, 158) for c in range(298, 312) if c < n]
    out += [('gsm', n, tuple(range(n))) for n in range(81, 240, 7)]
    out += [('ucs2', n, ()) for n in range(71, 340, 2)]
    out += [('8bit', n, ()) for n in range(141, 680, 9)]
    return out


@scenario('C09', 'partition', 'parts carry the text exactly once in order, are full, never split an escape pair, and are '
          'numbered i of n with one reference', c09_quick, c09_thorough)
def partition(e, inst):
    kind, n, esc = inst
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    if kind == 'gsm':
        chars, seps, isesc = [], [], []
        for i in range(n):
            if i in esc:
                c = e.atom('ext%d' % i, O.EXTSET) if len(esc) < 6 else 0x20ac
                chars.append(c)
                seps += [0x1b, O.extseptet(c)]
                isesc += [True, False]
            else:
                c = e.atom('ch%d' % i, IDENT) if n < 620 and len(esc) < 6 else 97 + i % 26
                chars.append(c)
                seps.append(c)
                isesc.append(False)
        parts = greedy(seps, isesc, 153)
        dcs, mkp = 0, lambda p, r, t, s: [7 + len(p)] + udh(r, t, s) + pack7mix(p, 1)
    elif kind == 'ucs2':
        chars = [e.atom('ch%d' % i, O.BMP) for i in range(n)]
        b['fmt'] = 8
        parts = [chars[i:i + 67] for i in range(0, n, 67)]
        dcs, mkp = 8, part_ucs2
    else:
        chars = [e.atom('ch%d' % i, D.RSet.of(0, 255)) for i in range(n)]
        b['fmt'] = 4
        parts = [chars[i:i + 134] for i in range(0, n, 134)]
        dcs, mkp = 4, part_8
    if len(parts) == 1 or (kind == 'gsm' and len(seps) <= 160):
        e.notes.append('single')
        return
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), len(parts))
    for i, (g, p) in enumerate(zip(got, parts)):
        check_pdu(e, g, head(0x41, b['ref'], dcs=dcs) + mkp(p, b['rand_id'], len(parts), i + 1), 1, len(parts), i + 1)


def c09_many(tier):
    cnt = {'gsm': (9, 10, 15, 16, 17, 31, 32, 33, 64, 99, 100, 127, 128, 129, 200, 254, 255)}
    cnt['8bit'] = cnt['ucs2'] = cnt['gsm']
    if tier:
        cnt = {k: range(3, 256, 3 if k == 'gsm' else 2) for k in cnt}
    return [(k, t, f) for k in cnt for t in cnt[k] for f in ((0, 1) if t < 40 else (t % 2,))]


@scenario('C09', 'many-parts', 'the same for up to 255 parts', lambda: c09_many(0), lambda: c09_many(1))
def many_parts(e, inst):
    kind, total, full = inst
    size = {'gsm': 153, 'ucs2': 67, '8bit': 134}[kind]
    n = size * total - (0 if full else size - 1)
    chars = [97 + (i * 7 + i // 26) % 26 for i in range(n)]
    dom = {'gsm': IDENT, 'ucs2': O.BMP, '8bit': D.RSet.of(0, 255)}[kind]
    for i in sorted({0, size - 1, size, n // 2, n - size, n - 1}):
        chars[i] = e.atom('ch%d' % i, dom)
    b = base(e)
    b['rand_id'] = e.atom('cref', 0, 255)
    dcs = b['fmt'] = {'gsm': 0, 'ucs2': 8, '8bit': 4}[kind]
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), total)
    mkp = {'gsm': part_gsm, 'ucs2': part_ucs2, '8bit': part_8}[kind]
    for i, g in enumerate(got):
        check_pdu(e, g, head(0x41, b['ref'], dcs=dcs) + mkp(chars[i * size:(i + 1) * size], b['rand_id'], total, i + 1), 1, total, i + 1)


@scenario('C09', 'automatic-reference', 'all parts of a message carry the same concatenation reference',
          lambda: [('gsm', 161), ('gsm', 480), ('ucs2', 150), ('8bit', 300)])
def autoref(e, inst):
    kind, n = inst
    chars = [97 + i % 26 for i in range(n)]
    chars[3] = e.atom('ch', IDENT)
    b = base(e)
    b['fmt'] = {'gsm': 0, 'ucs2': 8, '8bit': 4}[kind]
    o = mk(e, NUM, S(chars, True), **b)
    got = pdus(e, o)
    # SMSC 1, first 1, ref 1, address 8, PID 1, DCS 1, UDL 1, then 05 00 03 ref total seq
    refs = [S(g[0].items[2 * 17:2 * 18]) for g in got]
    for i, g in enumerate(got):
        e.same('concatenation header', S(g[0].items[2 * 14:2 * 17]), st('050003'))
        e.same('concatenation reference', refs[i], refs[0])
        e.same('concatenation count and number', S(g[0].items[2 * 18:2 * 20]), S(O.hexs([len(got), i + 1])))


# ------------------------------------------------------------------------------------------------ C10 relative validity
REGIONS = [
    ('below', -WEEK, 5 * MIN - 1, None),
    ('5min', 5 * MIN, 12 * HOUR, lambda d: D.add(D.floordiv(d, 5 * MIN), -1)),
    ('30min', 12 * HOUR + 1, 24 * HOUR, lambda d: D.add(D.floordiv(D.add(d, -12 * HOUR), 30 * MIN), 143)),
    ('days', 24 * HOUR + 1, 30 * DAY, lambda d: D.add(D.floordiv(d, DAY), 166)),
    ('weeks', 30 * DAY + 1, 63 * WEEK, lambda d: D.add(D.floordiv(d, WEEK), 192)),
    ('above', 63 * WEEK + 1, 400 * WEEK, None),
]


@scenario('C10', 'relative', 'the code is the largest whose period does not exceed the duration', lambda: [r[0] for r in REGIONS])
def relative(e, name):
    f = e.get('messaging.utils.timedelta_to_relative_validity')
    _, lo, hi, want = next(r for r in REGIONS if r[0] == name)
    d = e.atom('microseconds', lo, hi)
    r = e.run(f, ATimedelta(d))
    if want is None:
        e.raises('out-of-range duration', r, 'ValueError')
        return
    if not r.ok:
        e.bad('duration rejected', repr(r), where=r.where)
    e.same('validity code', r.v, want(d))


@scenario('C10', 'relative-in-pdu', 'the validity octet of the PDU is that code and out-of-range durations raise ValueError',
          lambda: [r[0] for r in REGIONS])
def relative_pdu(e, name):
    _, lo, hi, want = next(r for r in REGIONS if r[0] == name)
    # whole 5-minute steps keep the octet a function of one small atom
    q = e.atom('duration/5min', lo // (5 * MIN), hi // (5 * MIN))
    if name in ('days', 'weeks'):
        unit = DAY if name == 'days' else WEEK
        q = e.atom('units', (lo + unit) // unit, hi // unit)
        d = D.mul(q, unit)
    else:
        if name in ('30min', 'above'):
            q = e.atom('steps', lo // (5 * MIN) + 1, min(hi // (5 * MIN), lo // (5 * MIN) + 3000))
        elif name == 'below':
            q = e.atom('steps', -2000, 0)
        d = D.mul(q, 5 * MIN)
    b = base(e)
    o = mk(e, NUM, us('hi'), validity=ATimedelta(d), **b)
    r = e.rm(o, 'to_pdu')
    if want is None:
        e.raises('out-of-range duration', r, 'ValueError')
        return
    if not r.ok:
        e.bad('duration rejected', repr(r), where=r.where)
    got = [(e.attr(p, 'pdu'), e.attr(p, 'length'), e.attr(p, 'cnt'), e.attr(p, 'seq')) for p in r.v.items]
    e.same('number of PDUs', len(got), 1)
    check_pdu(e, got[0], head(0x11, b['ref'], vp=[want(d)]) + gsm_ud([104, 105]))


# ------------------------------------------------------------------------------------------------ C11 absolute validity
def tzobj(e, quarters, neg):
    cls = e.get('messaging.utils.FixedOffset')
    m = D.mul(quarters, 15)
    if neg:
        m = D.neg(m)
    return e.ok(cls, m, st('zone'))


@scenario('C11', 'absolute', 'seven octets: swapped BCD local time, then zone quarters with the sign bit',
          lambda: [(z, d) for z in ('naive', '+', '-') for d in ('low', 'high', 'leap')])
def absolute(e, inst):
    z, dd = inst
    f = e.get('messaging.utils.datetime_to_absolute_validity')
    fl = list(dateatoms(e))
    if dd == 'high':
        fl[1] = e.atom('longmonth', [1, 3, 5, 7, 8, 10, 12])
        fl[2] = e.atom('lateday', 29, 31)
    elif dd == 'leap':
        fl[0], fl[1], fl[2] = e.atom('leapyear', range(2000, 2100, 4)), 2, 29
    q = 0
    tz = None
    if z != 'naive':
        q = e.atom('quarters', 0 if z == '+' else 1, 95)
        tz = tzobj(e, q, z == '-')
    got = e.ok(f, ADatetime(tuple(fl) + (0,), 0, tz))
    e.same('absolute validity', got, vp_abs(fl, q, z == '-'))


@scenario('C11', 'absolute-in-pdu', 'the PDU carries those seven octets', lambda: ['naive', '+', '-'])
def absolute_pdu(e, z):
    fl = dateatoms(e)
    q, tz = 0, None
    if z != 'naive':
        q = e.atom('quarters', 0 if z == '+' else 1, 95)
        tz = tzobj(e, q, z == '-')
    b = base(e)
    o = mk(e, NUM, us('hi'), validity=ADatetime(fl + (0,), 0, tz), **b)
    got = pdus(e, o)
    e.same('number of PDUs', len(got), 1)
    check_pdu(e, got[0], head(0x19, b['ref'], vp=vp_abs(fl, q, z == '-')) + gsm_ud([104, 105]))


@scenario('C11', 'from_timezone', 'an offset parsed from "+hhmm"/"-hhmm" is exactly that signed offset; empty is zero',
          lambda: ['', '+', '-'])
def fromtz(e, sign):
    cls = e.get('messaging.utils.FixedOffset')
    if not sign:
        o = e.m(cls, 'from_timezone', st(''), st('n'))
        want = 0
    else:
        h1 = e.atom('h1', 0, 1) if e.case('hours', ['00-19', '20-23']) == '00-19' else 2
        h2 = e.atom('h2', 0, 9) if type(h1) is not int else e.atom('h2b', 0, 3)
        m1 = e.atom('m1', 0, 5)
        m2 = e.atom('m2', 0, 9)
        s = S([ord(sign)] + [D.add(48, x) for x in (h1, h2, m1, m2)])
        o = e.m(cls, 'from_timezone', s, st('n'))
        mins = D.add(D.mul(D.add(D.mul(h1, 10), h2), 60), D.add(D.mul(m1, 10), m2))
        want = D.mul(mins, MIN if sign == '+' else -MIN)
    e.same('offset', e.m(o, 'utcoffset', None), ATimedelta(want))


@scenario('C11', 'fixed-offset', 'a fixed offset reports the minutes or duration it was given, and its name', lambda: ['minutes', 'delta'])
def fixedoff(e, how):
    cls = e.get('messaging.utils.FixedOffset')
    m = e.atom('minutes', -1439, 1439)
    o = e.ok(cls, m if how == 'minutes' else ATimedelta(D.mul(m, MIN)), st('zone'))
    e.same('utcoffset', e.m(o, 'utcoffset', None), ATimedelta(D.mul(m, MIN)))
    e.same('tzname', e.m(o, 'tzname', None), st('zone'))


# ------------------------------------------------------------------------------------------------ C12 validation
def c12num():
    out = []
    for attr in ('number', 'csca'):
        for n in range(0, 24):
            for p in ([None] if n == 0 else [None] + list(range(n))):
                out.append((attr, n, p))
    return out


@scenario('C12', 'number', 'accepted iff empty/None or optional "+" and 3..20 digits, else ValueError and no change',
          lambda: c12num())
def num(e, inst):
    attr, n, p = inst
    items = [e.atom('d%d' % i, DIGIT) for i in range(n)]
    uni = True
    o = mk(e, NUM, us('hi'))
    e.set(o, 'csca', st('+1234'))
    old = e.attr(o, attr)
    kind = 'digit'
    if p is not None:
        kind = e.case('kind', ['plus', 'other'])
        if kind == 'plus':
            items[p] = 43
        else:
            items[p] = e.atom('wild', O.BMP - DIGIT - D.RSet.of(43, 43))
    v = S(items, uni)
    if n == 0:
        okv = True
    elif kind == 'digit':
        okv = 3 <= n <= 20
    elif kind == 'plus':
        okv = p == 0 and 3 <= n - 1 <= 20
    else:
        okv = False
    r = e.rset(o, attr, v)
    if okv:
        if not r.ok:
            e.bad('valid value rejected', repr(r), where=r.where)
        e.same('stored value', e.attr(o, attr), v)
    else:
        e.raises('invalid value', r, 'ValueError')
        e.same('value after rejection', e.attr(o, attr), old)
        if attr == 'number':
            e.raises('invalid number in constructor', e.run(e.get('messaging.sms.SmsSubmit'), v, us('x')), 'ValueError')


@scenario('C12', 'number-none', 'None is accepted', lambda: ['number', 'csca'])
def numnone(e, attr):
    o = mk(e, NUM, us('hi'))
    e.set(o, attr, None)
    e.same('stored value', e.attr(o, attr), None)


@scenario('C12', 'class', 'accepted iff an int in 0..3; else ValueError / TypeError and no change',
          lambda: [(prev, k) for prev in (None, 2) for k in ('in', 'below', 'above', 'str', 'none', 'float', 'list')])
def klass(e, inst):
    prev, k = inst
    o = mk(e, NUM, us('hi'))
    if prev is not None:
        e.set(o, 'klass', prev)
    v = {'in': lambda: e.atom('class', 0, 3), 'below': lambda: e.atom('class', -70000, -1),
         'above': lambda: e.atom('class', 4, 70000), 'str': lambda: st('1'), 'none': lambda: None,
         'float': lambda: 1.0, 'list': lambda: AList([1])}[k]()
    r = e.rset(o, 'klass', v)
    if k == 'in':
        if not r.ok:
            e.bad('valid class rejected', repr(r), where=r.where)
        e.same('stored class', e.attr(o, 'klass'), v)
    else:
        e.raises('invalid class', r, 'ValueError' if k in ('below', 'above') else 'TypeError')
        e.same('class after rejection', e.attr(o, 'klass'), prev)


@scenario('C12', 'validity', 'accepted iff None, a duration or a datetime; else TypeError and no change',
          lambda: [(prev, k) for prev in ('none', 'delta') for k in ('none', 'delta', 'date', 'int', 'str', 'list', 'bool')])
def valid(e, inst):
    prev, k = inst
    o = mk(e, NUM, us('hi'))
    pv = None
    if prev == 'delta':
        pv = ATimedelta(e.atom('prev', 0, 10 ** 12))
        e.set(o, 'validity', pv)
    v = {'none': lambda: None, 'delta': lambda: ATimedelta(e.atom('us', -10 ** 12, 10 ** 14)),
         'date': lambda: ADatetime(dateatoms(e) + (0,)), 'int': lambda: e.atom('int', -5000, 5000),
         'str': lambda: st('1d'), 'list': lambda: AList([]), 'bool': lambda: False}[k]()
    r = e.rset(o, 'validity', v)
    if k in ('none', 'delta', 'date'):
        if not r.ok:
            e.bad('valid validity rejected', repr(r), where=r.where)
        e.same('stored validity', e.attr(o, 'validity'), v)
    else:
        e.raises('invalid validity', r, 'TypeError')
        e.same('validity after rejection', e.attr(o, 'validity'), pv)


# ------------------------------------------------------------------------------------------------ C13 histories
SETTINGS = ('text-gsm', 'text-ucs2', 'text-long', 'number', 'csca', 'klass', 'validity', 'status', 'pid', 'ref', 'fmt8', 'fmtnone')
MORE = ('text-many', 'text-ucs2-many', 'text-empty', 'validity-absolute', 'validity-zone', 'validity-none', 'csca-none', 'csca-empty', 'status-off', 'randid',
        'text-escape', 'number-local')
KEY = {'text-gsm': 'text', 'text-ucs2': 'text', 'text-long': 'text', 'text-many': 'text', 'text-ucs2-many': 'text', 'text-empty': 'text', 'text-escape': 'text',
       'validity-absolute': 'validity', 'validity-zone': 'validity', 'validity-none': 'validity', 'csca-none': 'csca', 'csca-empty': 'csca', 'status': 'request_status',
       'status-off': 'request_status', 'randid': 'rand_id', 'fmt8': 'fmt', 'fmtnone': 'fmt', 'number-local': 'number'}


def apply_setting(e, o, s, tag):
    if s == 'text-gsm':
        e.set(o, 'text', S([e.atom(tag + 'g%d' % i, IDENT) for i in range(3)], True))
    elif s == 'text-ucs2':
        e.set(o, 'text', S([e.atom(tag + 'u%d' % i, O.BADSET) for i in range(2)], True))
    elif s == 'text-long':
        e.set(o, 'text', S([97 + i % 26 for i in range(170)] + [e.atom(tag + 'l', IDENT)], True))
    elif s == 'number':
        e.set(o, 'number', S(number(e, 5, False, tag + 'n')))
    elif s == 'csca':
        e.set(o, 'csca', S(number(e, 6, True, tag + 'c')))
    elif s == 'klass':
        e.set(o, 'klass', e.atom(tag + 'k', 0, 3))
    elif s == 'validity':
        e.set(o, 'validity', ATimedelta(D.mul(D.add(e.atom(tag + 'v', 0, 143), 1), 5 * MIN)))
    elif s == 'status':
        e.set(o, 'request_status', True)
    elif s == 'pid':
        e.set(o, 'pid', e.atom(tag + 'p', 0, 255))
    elif s == 'ref':
        e.set(o, 'ref', e.atom(tag + 'r', 0, 255))
    elif s == 'fmt8':
        e.set(o, 'fmt', 8)
    elif s == 'fmtnone':
        e.set(o, 'fmt', None)
    elif s == 'text-many':
        e.set(o, 'text', S([97 + i % 26 for i in range(805)] + [e.atom(tag + 'm', IDENT)], True))
    elif s == 'text-ucs2-many':
        e.set(o, 'text', S([0x4e00 + i for i in range(402)] + [e.atom(tag + 'm', O.BADSET)], True))
    elif s == 'text-empty':
        e.set(o, 'text', us(''))
    elif s == 'text-escape':
        e.set(o, 'text', S([97] * 152 + [e.atom(tag + 'x', O.EXTSET)] + [98] * 160 + [e.atom(tag + 'y', O.EXTSET)], True))
    elif s in ('validity-absolute', 'validity-zone'):
        zone = None if s == 'validity-absolute' else e.ok(e.get('messaging.utils.FixedOffset'), -210, st('x'))
        e.set(o, 'validity', ADatetime([2026, 11, 19, 21, 4, 5, e.atom(tag + 'us', 0, 999999)], 0, zone))
    elif s in ('validity-none', 'csca-none'):
        e.set(o, KEY[s], None)
    elif s == 'csca-empty':
        e.set(o, 'csca', st(''))
    elif s == 'status-off':
        e.set(o, 'request_status', False)
    elif s == 'randid':
        e.set(o, 'rand_id', e.atom(tag + 'i', 0, 255))
    elif s == 'number-local':
        e.set(o, 'number', st('600'))


PLAIN = ('text', 'number', 'csca', 'klass', 'validity', 'request_status', 'pid', 'ref', 'fmt', 'rand_id')


def values(o, e):
    return {a: e.attr(o, a) for a in PLAIN}


def cmp_values(e, label, o, want, skip=()):
    for a in PLAIN:
        if a not in skip and a in want:
            e.same('%s: %s' % (label, a), e.attr(o, a), want[a])


def fresh_like(e, o, settings):
    """a new object carrying the user-visible settings"""
    n = e.ok(e.get('messaging.sms.SmsSubmit'), settings['number'], settings['text'])
    for a in ('csca', 'validity', 'request_status', 'pid', 'ref', 'fmt', 'rand_id'):
        if settings.get(a) is not None:
            e.set(n, a, settings[a])
    if settings['klass'] is not None:
        e.set(n, 'klass', settings['klass'])
    return n


def same_pdus(e, label, a, b):
    e.same(label + ': number of PDUs', len(a), len(b))
    for x, y in zip(a, b):
        for i in range(4):
            e.same(label, x[i], y[i])


def c13_quick():
    return [(s,) for s in SETTINGS + MORE] + list(product(SETTINGS[:3] + ('fmt8', 'fmtnone', 'klass', 'ref', 'validity'), repeat=2)) + \
        [(a, b) for a in MORE for b in SETTINGS[:6] + ('validity',)] + [(b, a) for a in MORE for b in SETTINGS[:6] + ('validity',)]


@scenario('C13', 'repeat-and-change', 'encoding alters no setting; a repeated encoding and one after changes equal a fresh object\'s',
          c13_quick, lambda: [(s,) for s in SETTINGS] + list(product(SETTINGS + MORE, repeat=2)) + list(product(SETTINGS[:3] + ('fmt8', 'fmtnone', 'klass'), repeat=3)))
def history(e, seq):
    user = dict(number=NUM, text=S([e.atom('g%d' % i, IDENT) for i in range(3)], True), csca=None, klass=None, validity=None,
                request_status=False, pid=0, ref=e.atom('ref', 0, 255), fmt=None, rand_id=e.atom('cref', 0, 255))
    o = mk(e, user['number'], user['text'], ref=user['ref'], rand_id=user['rand_id'])
    skip = ('fmt',)
    first = pdus(e, o)
    cmp_values(e, 'after encoding', o, user, skip)
    same_pdus(e, 'repeated encoding', pdus(e, o), first)
    for i, s in enumerate(seq):
        apply_setting(e, o, s, 's%d' % i)
        key = KEY.get(s, s)
        user[key] = e.attr(o, key)
        got = pdus(e, o)
        cmp_values(e, 'after encoding', o, user, skip)
        n = fresh_like(e, o, user)
        same_pdus(e, 'encoding after %s' % s, got, pdus(e, n))
        same_pdus(e, 'repeated encoding after %s' % s, pdus(e, o), got)


# long messages one after the other, with the settings that could matter; the reference of the message is set, so each takes one automatic reference
KEPT = [('kept', 6, k, n, sets) for k, ns in (('gsm', (161, 320, 805, 1600)), ('ucs2', (71, 140, 402, 1000)), ('8bit', (141, 300, 805, 1600)))
        for n in ns for sets in ((), ('status',), ('validity', 'csca'), ('validity-absolute', 'klass', 'status'))] + [('kept', 256, 'gsm', 161, ())]


@scenario('C13', 'references', 'automatic references of one object are distinct for 255 messages; objects do not influence one another',
          lambda: [('one', 20), ('two', 20), ('long', 12), ('one', 260)] + KEPT, lambda: [('one', 20), ('two', 20), ('one', 260), ('two', 260), ('long', 130)])
def refs(e, inst):
    if inst[0] == 'kept':
        return kept(e, inst)
    how, n = inst
    text = S([e.atom('ch', IDENT), 97], True)
    if how == 'long':
        text = S([97] * 170, True)
    a = mk(e, NUM, text)
    b = mk(e, NUM, text) if how == 'two' else None

    def refof(o):
        e.set(o, 'ref', None)
        r = e.m(o, 'to_pdu')
        out = [S(e.attr(r.items[0], 'pdu').items[4:6]).text()]
        if how == 'long':
            out.append(S(e.attr(r.items[0], 'pdu').items[2 * 17:2 * 18]).text())
        return out
    seen, others = [], []
    for i in range(n):
        seen += refof(a)
        if b is not None and i % 3 == 0:
            others += refof(b)
    e.obl += len(seen)
    win = 255
    for i in range(0, len(seen), win):
        w = seen[i:i + win]
        if len(set(w)) != len(w):
            d = next(x for j, x in enumerate(w) if x in w[:j])
            e.bad('automatic reference repeated', 'reference %s was used twice within %d messages of one object' % (d, len(w)))
    if b is not None:
        c = mk(e, NUM, text)
        alone = []
        for i in range(len(others)):
            alone += refof(c)
        e.same('references of a second object', [st(x) for x in others and others], lambda got: (True, None, None))
        if others != alone:
            e.bad('objects influence one another', 'references of a second object %s differ from those of a lone object %s' % (others[:5], alone[:5]))


def kept(e, inst):
    _, times, kind, n, sets = inst
    o = mk(e, NUM, S([{'ucs2': 0x4e00, 'gsm': 97, '8bit': 97}[kind]] * n, kind != '8bit'), ref=9)
    if kind == '8bit':
        e.set(o, 'fmt', 4)
    for i, s in enumerate(sets):
        apply_setting(e, o, s, 's%d' % i)
    want = values(o, e)
    seen = []
    for i in range(times):
        r = pdus(e, o)
        cmp_values(e, 'after encoding', o, want, ('fmt',))
        t = r[0][0]
        if len(r) < 2:
            e.bad('to_pdu', 'one PDU')
        # the reference is the fourth octet of the header 05 00 03
        w = list(t.items)
        pos = None
        for j in range(0, len(w) - 12, 2):
            if w[j:j + 6] == [48, 53, 48, 48, 48, 51] and pos is None and j >= 2 * 11:
                pos = j
        if pos is None:
            e.und('no header found in %r' % (t,))
        ref = S(w[pos + 6:pos + 8]).text()
        if ref is None:
            e.und('abstract reference')
        if ref in seen[-254:]:
            e.bad('automatic reference repeated', 'reference %s was used again after %d messages of one object' % (ref, i))
        seen.append(ref)
        e.obl += 1
