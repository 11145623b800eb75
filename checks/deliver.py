"""C04, C14..C19: unpacking, SMS-DELIVER, user-data header, status report."""
from itertools import permutations, product
from pyai import dom as D
from pyai.harness import scenario
from pyai.values import S, st, us, AList, AArray, AInt, ATimedelta, ADatetime
from . import oracle as O
from .submit import IDENT, DIGIT, pack7mix, bcd

MIN = 60 * 1000000
IDSEP = D.RSet.vals(IDENT)            # septets that equal their character code
SEPT = D.RSet.of(0, 127) - D.RSet.of(0x1b, 0x1b)
OCT = D.RSet.of(0, 255)


def unsept(s):
    return O.table(s, O.UNREG)


def unext(s):
    return O.table(s, O.UNEXT)


def hexl(octets, up=True):
    out = []
    for o in octets:
        for n in (D.shr(o, 4), D.band(o, 15)):
            out.append(ord(('0123456789ABCDEF' if up else '0123456789abcdef')[n]) if type(n) is int else D.hexc(n, up))
    return S(out)


def digs(e, n, name):
    return [e.atom('%s%d' % (name, i), 0, 9) for i in range(n)]


def digtext(ds, plus=False):
    return S(([43] if plus else []) + [D.add(48, d) for d in ds])


DATE = (0x01, 0x20, 0x30, 0x40, 0x50, 0x60)       # 10/02/03 04:05:06
ADATE = (2010, 2, 3, 4, 5, 6, 0)


class Msg:
    """a DELIVER PDU under construction"""

    def __init__(self, **kw):
        self.smsc = [0]
        self.first = 0x04
        self.sender = [9, 0x81] + O.swap([1, 2, 3, 4, 5, 6, 7, 8, 9])
        self.pid = 0
        self.dcs = 0
        self.date = list(DATE)
        self.tz = 0
        self.ud = [0]
        self.__dict__.update(kw)

    def octets(self):
        return list(self.smsc) + [self.first] + list(self.sender) + [self.pid, self.dcs] + list(self.date) + [self.tz] + list(self.ud)


def decode(e, m, strict=True):
    return e.ok(e.get('messaging.sms.SmsDeliver'), hexl(m.octets() if isinstance(m, Msg) else m))


def chars(e, label, got, want):
    """text comparison by code points, whatever the string type"""
    if type(got) is not S:
        e.bad(label, 'expected text, got %r' % (got,))
    e.same(label, AList(list(got.items)), list(want))


# ------------------------------------------------------------------------------------------------ C04
@scenario('C04', 'direct', 'septet i is bits 7i..7i+6 of the octet stream; both unpackers agree',
          lambda: [(n, f) for n in range(0, 141) for f in ('unpack_msg', 'unpack_msg2')] + [(n, f) for n in (141, 147, 154, 161, 180) for f in ('unpack_msg', 'unpack_msg2')],
          lambda: [(n, f) for n in range(0, 400) for f in ('unpack_msg', 'unpack_msg2')])
def unpack(e, inst):
    n, f = inst
    ns = e.mod('messaging.utils').ns
    if f not in ns:
        e.und('no function messaging.utils.%s' % f)
    o = e.atoms('octet', n, OCT)
    r = e.ok(ns[f], hexl(o) if f == 'unpack_msg' else AArray('B', list(o)))
    items = r.items if type(r) in (S, AList) else None
    if items is None:
        e.bad('result', 'septets expected, got %r' % (r,))
    want = O.unpack7(o)[:160]
    # the octet stream may end with a partial septet, which an unpacker may or may not report
    full = 8 * n // 7 if n < 140 else 160
    if len(items) < min(full, 160) or len(items) > 160:
        e.bad('septet count', '%d septets from %d octets, at least %d and at most 160 required' % (len(items), n, min(full, 160)))
    e.same('septets', AList(list(items[:len(want)])), want[:len(items)])


@scenario('C04', 'through-deliver', 'a GSM DELIVER text of n septets is septet i = bits 7i..7i+6 of the user data',
          lambda: [(n, None) for n in range(0, 161)] + [(n, p) for n in (1, 7, 8, 9, 15, 16, 17, 159, 160) for p in sorted({0, 6, 7, 8, n - 2, n - 1}) if 0 <= p < n],
          lambda: [(n, None) for n in range(0, 161)] + [(n, p) for n in range(1, 161) for p in range(n) if n < 33 or p % 7 == n % 7 or p > n - 3])
def unpack_deliver(e, inst):
    n, p = inst
    seps = [e.atom('septet%d' % i, SEPT if i == p else IDSEP) for i in range(n)]
    o = decode(e, Msg(ud=[n] + O.pack7(seps)))
    chars(e, 'text', e.attr(o, 'text'), [unsept(s) for s in seps])


# ------------------------------------------------------------------------------------------------ C14
def intl(e, plus):
    """an address type octet whose type-of-number field is (not) international, alphanumeric excluded"""
    if plus:
        return e.atom('type', D.RSet.vals(t for t in range(256) if (t >> 4) & 7 == 1))
    return e.atom('type', D.RSet.vals(t for t in range(256) if (t >> 4) & 7 not in (1, 5)))


@scenario('C14', 'service-centre', 'SMSC number: swapped digits without filler, "+" iff international; None when absent',
          lambda: [None] + [(n, p) for n in range(1, 21) for p in (False, True)])
def d_smsc(e, inst):
    if inst is None:
        m, want = Msg(smsc=[0]), None
    else:
        n, plus = inst
        d = digs(e, n, 'd')
        oc = O.swap(d)
        m, want = Msg(smsc=[len(oc) + 1, intl(e, plus)] + oc), digtext(d, plus)
    o = decode(e, m)
    if want is None:
        e.same('csca', e.attr(o, 'csca'), None)
    else:
        chars(e, 'csca', e.attr(o, 'csca'), want.items)
    chars(e, 'number', e.attr(o, 'number'), st('123456789').items)
    e.same('date', e.attr(o, 'date'), ADatetime(ADATE))


@scenario('C14', 'sender', 'sender number: swapped digits without filler, "+" iff international',
          lambda: [(n, p) for n in range(1, 21) for p in (False, True)])
def d_sender(e, inst):
    n, plus = inst
    d = digs(e, n, 'd')
    m = Msg(sender=[n, intl(e, plus)] + O.swap(d), pid=e.atom('pid', OCT))
    o = decode(e, m)
    chars(e, 'number', e.attr(o, 'number'), digtext(d, plus).items)
    e.same('pid', e.attr(o, 'pid'), m.pid)
    e.same('date', e.attr(o, 'date'), ADatetime(ADATE))


@scenario('C14', 'alphanumeric-sender', 'an alphanumeric sender is exactly the characters its length covers',
          lambda: [(n, p) for n in range(1, 12) for p in range(n)] + [(n, ('ext', p)) for n in range(2, 12) for p in range(n - 1)])
def d_alpha(e, inst):
    n, p = inst
    t = e.atom('type', D.RSet.vals(t for t in range(256) if (t >> 4) & 7 == 5))
    seps, want = [], []
    i = 0
    while i < n:
        if isinstance(p, tuple) and p[1] == i:
            x = e.atom('ext', D.RSet.vals(O.UNEXT))
            seps += [0x1b, x]
            want.append(unext(x))
            i += 2
            continue
        s = e.atom('septet%d' % i, SEPT if i == p else IDSEP)
        seps.append(s)
        want.append(unsept(s))
        i += 1
    m = Msg(sender=[(7 * n + 3) // 4, t] + O.pack7(seps))
    o = decode(e, m)
    chars(e, 'number', e.attr(o, 'number'), want)
    e.same('date', e.attr(o, 'date'), ADatetime(ADATE))


@scenario('C14', 'pid-dcs-alphabet', 'PID and DCS as carried; alphabet follows DCS bits 2-3',
          lambda: ['gsm', '8bit', 'ucs2'])
def d_dcs(e, inst):
    v, fmt = {'gsm': (0, 0), '8bit': (4, 4), 'ucs2': (8, 8)}[inst]
    dcs = e.atom('dcs', D.RSet.vals(x for x in range(256) if x & 0x0c == v))
    mms = e.atom('first', D.RSet.vals(x for x in range(256) if x & 0x43 == 0))
    m = Msg(pid=e.atom('pid', OCT), dcs=dcs, first=mms, ud=[2] + {0: O.pack7([104, 105]), 4: [104, 105], 8: [0x20, 0xac]}[v])
    o = decode(e, m)
    e.same('pid', e.attr(o, 'pid'), m.pid)
    e.same('dcs', e.attr(o, 'dcs'), dcs)
    e.same('fmt', e.attr(o, 'fmt'), fmt)
    chars(e, 'text', e.attr(o, 'text'), [0x20ac] if v == 8 else [104, 105])
    d = e.attr(o, 'data')
    for k in ('pid', 'dcs', 'fmt', 'number', 'csca', 'text', 'date'):
        e.same('data[%s]' % k, e.item(d, st(k)), e.attr(o, k))


# ------------------------------------------------------------------------------------------------ C15
def dates(tag, e, years=None):
    """atoms of a class of valid dates: (fields, year digits octet)"""
    if tag == 'long':
        mo, d = e.atom('month', D.RSet.vals((1, 3, 5, 7, 8, 10, 12))), e.atom('day', 1, 31)
    elif tag == 'short':
        mo, d = e.atom('month', D.RSet.vals((4, 6, 9, 11))), e.atom('day', 1, 30)
    elif tag == 'feb':
        mo, d = 2, e.atom('day', 1, 28)
    else:
        mo, d = 2, 29
    y = e.atom('yy', D.RSet.vals(range(0, 100, 4)) if tag == 'leap' else D.RSet.of(0, 99))
    h, mi, s = e.atom('hour', 0, 23), e.atom('minute', 0, 59), e.atom('second', 0, 59)
    year = D.pw(lambda v: 2000 + v if v <= 68 else 1900 + v, y)
    return (year, mo, d, h, mi, s, 0), [bcd(x) for x in (y, mo, d, h, mi, s)]


@scenario('C15', 'utc', 'the date is the local timestamp minus the zone offset, for every date and zone octet',
          ['long', 'short', 'feb', 'leap'])
def d_date(e, inst):
    f, oc = dates(inst, e)
    zone = {}
    for sign in (0, 1):
        for q in range(80):
            zone[(q % 10) << 4 | sign << 3 | q // 10] = (-q if sign else q)
    tz = e.atom('zone octet', D.RSet.vals(zone))
    o = decode(e, Msg(date=oc, tz=tz))
    off = D.pw(lambda z: -15 * zone[z] * MIN, tz)
    e.same('date', e.attr(o, 'date'), ADatetime(f, off))


# ------------------------------------------------------------------------------------------------ C16
def header(e, n, tag='h'):
    """a user-data header of n octets (after its length octet) made of unknown elements with unknown content"""
    out = []
    left = n
    k = 0
    while left:
        ln = min(left - 2, 9)
        if left - 2 - ln == 1:
            ln -= 1
        out += [0x70 + k, ln] + [e.atom('%s%d_%d' % (tag, k, i), OCT) for i in range(ln)]
        left -= ln + 2
        k += 1
    return out


def d_gsm_q():
    out = []
    for n in list(range(0, 20)) + [40, 79, 80, 81, 100, 152, 153, 159, 160]:
        out.append((0, n, None))
    for h in list(range(2, 16)) + [20, 21, 22]:
        hs = ((h + 1) * 8 + 6) // 7
        for n in (0, 1, 2, 5, 6, 7, 8, 9, 160 - hs - 1, 160 - hs):
            out.append((h, n, None))
            if n and n < 10:
                out.append((h, n, n - 1))
                out.append((h, n, 0))
    for n in (2, 7, 8, 9, 160):
        for p in sorted({0, n // 2 - 1, n - 2}):
            out.append((0, n, ('ext', p)))
    for h in (5, 6):
        for n in (2, 8, 150):
            for p in sorted({0, n // 2 - 1, n - 2}):
                out.append((h, n, ('ext', p)))
    return out


def d_gsm_t():
    out = []
    for h in [0] + list(range(2, 40)):
        hs = ((h + 1) * 8 + 6) // 7 if h else 0
        for n in range(0, 161 - hs):
            if n < 20 or n % 5 == h % 5 or n > 155 - hs:
                out.append((h, n, None))
                if n > 1:
                    out.append((h, n, n - 1))
                    out.append((h, n, ('ext', n // 2 - 1)))
                    out.append((h, n, ('ext', n - 2)))
    return out


@scenario('C16', 'gsm', 'GSM text: the septets after the header and its fill bits, exactly as many as the length octet says',
          d_gsm_q, d_gsm_t)
def d_gsm(e, inst):
    h, n, p = inst
    seps, want = [], []
    i = 0
    while i < n:
        if isinstance(p, tuple) and i == p[1]:
            x = e.atom('ext', D.RSet.vals(O.UNEXT))
            seps += [0x1b, x]
            want.append(unext(x))
            i += 2
            continue
        s = e.atom('septet%d' % i, SEPT if i == p else IDSEP)
        seps.append(s)
        want.append(unsept(s))
        i += 1
    if h:
        hd = [h] + header(e, h)
        hb = 8 * len(hd)
        hs = (hb + 6) // 7
        ud = [hs + n] + hd + O.pack7(seps, 7 * hs - hb)
        o = decode(e, Msg(first=0x44, ud=ud))
    else:
        o = decode(e, Msg(ud=[n] + O.pack7(seps)))
    chars(e, 'text', e.attr(o, 'text'), want)


@scenario('C16', 'eight-bit', '8-bit text: exactly the bytes after the header',
          lambda: [(h, n) for h in (0, 2, 3, 5, 6, 9, 12) for n in (0, 1, 2, 3, 7, 8, 50, 140 - (h + 1 if h else 0))],
          lambda: [(h, n) for h in [0] + list(range(2, 30)) for n in range(0, 141 - (h + 1 if h else 0), 1 if h < 7 else 7)])
def d_8(e, inst):
    h, n = inst
    by = e.atoms('byte', n, OCT)
    hd = ([h] + header(e, h)) if h else []
    o = decode(e, Msg(first=0x44 if h else 4, dcs=4, ud=[len(hd) + n] + hd + by))
    chars(e, 'text', e.attr(o, 'text'), by)


@scenario('C16', 'ucs2', 'UCS-2 text: the big-endian character codes after the header',
          lambda: [(h, n) for h in (0, 2, 3, 5, 6, 9, 12) for n in (0, 1, 2, 3, 30, (140 - (h + 1 if h else 0)) // 2)],
          lambda: [(h, n) for h in [0] + list(range(2, 30)) for n in range(0, 1 + (140 - (h + 1 if h else 0)) // 2, 1 if h < 7 else 5)])
def d_ucs2(e, inst):
    h, n = inst
    by = e.atoms('byte', 2 * n, OCT)
    hd = ([h] + header(e, h)) if h else []
    o = decode(e, Msg(first=0x44 if h else 4, dcs=8, ud=[len(hd) + 2 * n] + hd + by))
    chars(e, 'text', e.attr(o, 'text'), [D.bor(D.shl(by[2 * i], 8), by[2 * i + 1]) for i in range(n)])


# ------------------------------------------------------------------------------------------------ C17
def element(e, kind, k):
    a = lambda s: e.atom('%s%d_%s' % (kind, k, s), OCT)
    if kind == 'concat8':
        d = [a('ref'), a('cnt'), a('seq')]
        return 0, d, ('concat', d[0], d[1], d[2], True)
    if kind == 'concat16':
        d = [a('ref1'), a('ref0'), a('cnt'), a('seq')]
        return 8, d, ('concat', D.bor(D.shl(d[0], 8), d[1]), d[2], d[3], False)
    if kind == 'port8':
        d = [a('dst'), a('org')]
        return 4, d, ('ports', d[0], d[1], None, True)
    if kind == 'port16':
        d = [a('dst1'), a('dst0'), a('org1'), a('org0')]
        return 5, d, ('ports', D.bor(D.shl(d[0], 8), d[1]), D.bor(D.shl(d[2], 8), d[3]), None, False)
    iei, ln = kind
    return iei, [a(str(i)) for i in range(ln)], None


def c17_q():
    out = []
    for iei in range(256):
        if iei not in (0, 4, 5, 8):
            out.append([(iei, iei % 4)])
    for ks in (['concat8'], ['concat16'], ['port8'], ['port16'], ['concat8', 'port8'], ['concat8', 'port16'],
               ['concat16', 'port8'], ['concat16', 'port16'], ['concat8', (1, 2), 'port16'], ['concat16', (0x24, 1), 'port8'],
               [(0x0a, 4), (0x20, 1), 'concat8'], [(0x70, 0), 'concat16', (6, 1)], []):
        for p in permutations(ks):
            out.append(list(p))
    for ln in list(range(5, 18)) + list(range(24, 138, 7)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 133, 134, 137]:
        out += [[(0x70, ln)], [(0x24, ln), 'concat8']]
    return out


def c17_t():
    return [[(i, ln)] + w for ln in range(138) for i in (0x70, 0x01, 0x25, 0xdf) for w in ([], ['concat8'], ['port16'], [(0x71, 1)])]


def udh_check(e, u, elems):
    want = {}
    concat = ports = None
    for iei, d, sp in elems:
        want[iei] = d
        if sp and sp[0] == 'concat':
            concat = sp
        if sp and sp[0] == 'ports':
            ports = sp
    hd = e.attr(u, 'headers')
    e.same('headers', hd, {k: list(v) for k, v in want.items()})
    c = e.attr(u, 'concat')
    if concat is None:
        e.same('concat', c, None)
    else:
        if c is None:
            e.bad('concat', 'concatenation element not reported')
        for name, v in zip(('ref', 'cnt', 'seq', 'eight_bits'), concat[1:]):
            e.same('concat.' + name, e.attr(c, name), v)
    p = e.attr(u, 'ports')
    if ports is None:
        e.same('ports', p, None)
    else:
        if p is None:
            e.bad('ports', 'port element not reported')
        for name, v in zip(('dest_port', 'orig_port', 'eight_bits'), (ports[1], ports[2], ports[4])):
            e.same('ports.' + name, e.attr(p, name), v)


@scenario('C17', 'elements', 'every element stored under its identifier; concat and ports decoded; unknown ones skipped', c17_q, c17_t)
def d_udh(e, inst):
    elems = [element(e, k, i) for i, k in enumerate(inst)]
    oc = []
    for iei, d, sp in elems:
        oc += [iei, len(d)] + d
    cls = e.get('messaging.sms.udh.UserDataHeader')
    u = e.m(cls, 'from_bytes', AArray('B', list(oc)))
    udh_check(e, u, elems)


@scenario('C17', 'in-message', 'the header of a DELIVER is parsed from exactly its octets',
          lambda: [(ks, dcs) for dcs in (0, 4, 8) for ks in (['concat8'], ['concat16'], ['port16', 'concat8'], ['concat16', (0x21, 2), 'port8'])])
def d_udh_msg(e, inst):
    ks, dcs = inst
    elems = [element(e, k, i) for i, k in enumerate(ks)]
    oc = []
    for iei, d, sp in elems:
        oc += [iei, len(d)] + d
    hd = [len(oc)] + oc
    body = [0, 104, 0, 105] if dcs == 8 else [104, 105]
    if dcs == 0:
        hs = (8 * len(hd) + 6) // 7
        ud = [hs + 2] + hd + O.pack7([104, 105], 7 * hs - 8 * len(hd))
    else:
        ud = [len(hd) + len(body)] + hd + body
    first = e.atom('first', D.RSet.vals(x for x in range(256) if x & 0x43 == 0x40))
    o = decode(e, Msg(first=first, dcs=dcs, ud=ud))
    udh_check(e, e.attr(o, 'udh'), elems)
    chars(e, 'text', e.attr(o, 'text'), [104, 105])
    cc = [sp for i, d, sp in elems if sp and sp[0] == 'concat'][0]
    d = e.attr(o, 'data')
    for k, v in zip(('ref', 'cnt', 'seq'), cc[1:]):
        e.same('data[%s]' % k, e.item(d, st(k)), v)


@scenario('C17', 'no-header', 'without the header indicator the user data has no header',
          lambda: [0, 4, 8])
def d_noudh(e, inst):
    first = e.atom('first', D.RSet.vals(x for x in range(256) if x & 0x43 == 0))
    body = {0: [2] + O.pack7([104, 105]), 4: [2, 104, 105], 8: [4, 0, 104, 0, 105]}[inst]
    o = decode(e, Msg(first=first, dcs=inst, ud=body))
    e.same('udh', e.attr(o, 'udh'), None)


# ------------------------------------------------------------------------------------------------ C18
def sr_octets(e, ref, recip, typ, scts, ztz, dt, dtz, status, smsc=(0,), first=0x06):
    out = list(smsc) + [first, ref, len(recip), typ] + O.swap(recip)
    if scts is not None:
        out += list(scts) + [ztz]
        if dt is not None:
            out += list(dt) + [dtz]
            if status is not None:
                out.append(status)
    return out


def tstext(f):
    y, mo, d, h, mi, s = f[:6]
    out = []
    for i, v in enumerate((y, mo, d, h, mi, s)):
        if i:
            out.append([0, 47, 47, 32, 58, 58][i])
        v = D.mod(v, 100)
        out += [D.add(48, D.floordiv(v, 10)), D.add(48, D.mod(v, 10))]
    return out


@scenario('C18', 'valid', 'reference, recipient, both timestamps and status exactly as carried; name and text by status',
          lambda: [(n, p, a, b, s) for (n, p, a, b) in [(9, False, 'feb', 'leap'), (11, True, 'leap', 'feb'), (6, True, 'feb', 'feb'),
                                        (3, False, 'short', 'leap'), (1, False, 'leap', 'long'), (20, True, 'feb', 'leap')] +
                   [(n, n % 3 == 0, 'feb', 'leap') for n in range(0, 25) if n not in (1, 3, 6, 9, 11, 20)]
                   for s in ('ok', 'stored', 'other', 'missing')])
def sr_valid(e, inst):
    n, plus, da, db, s = inst
    ref = e.atom('ref', OCT)
    d = digs(e, n, 'r')
    f1, o1 = dates(da, _Named(e, 'scts '))
    f2, o2 = dates(db, _Named(e, 'dt '))
    z1, z2 = e.atom('zone1', OCT), e.atom('zone2', OCT)
    stat = {'ok': 0, 'stored': 0x30, 'missing': None}.get(s, Ellipsis)
    if stat is Ellipsis:
        stat = e.atom('status', OCT - D.RSet.vals((0, 0x30)))
    first = e.atom('first', D.RSet.vals(x for x in range(256) if x & 3 == 2))
    smsc, want = ([0], None) if n == 9 else ([5, 0x91] + O.swap([4, 4, 1, 2, 3, 4, 5]), st('+4412345'))
    o = decode(e, sr_octets(e, ref, d, intl(e, plus), o1, z1, o2, z2, stat, smsc, first))
    if want is None:
        e.same('csca', e.attr(o, 'csca'), None)
    else:
        chars(e, 'csca', e.attr(o, 'csca'), want.items)
    sr = e.attr(o, 'sr')
    rec = digtext(d, plus)
    chars(e, 'sr recipient', e.item(sr, st('recipient')), rec.items)
    e.same('sr scts', e.item(sr, st('scts')), ADatetime(f1))
    e.same('sr dt', e.item(sr, st('dt')), ADatetime(f2))
    e.same('sr status', e.item(sr, st('status')), stat)
    e.same('date', e.attr(o, 'date'), ADatetime(f1))
    name = {'ok': 'SR-OK', 'stored': 'SR-STORED'}.get(s, 'SR-UNKNOWN')
    chars(e, 'number', e.attr(o, 'number'), [ord(c) for c in name])
    u = e.attr(o, 'udh')
    c = e.attr(u, 'concat')
    e.same('reference', e.attr(c, 'ref'), ref)
    e.same('count', e.attr(c, 'cnt'), 0)
    e.same('sequence', e.attr(c, 'seq'), 0)
    data = e.attr(o, 'data')
    e.same('data ref', e.item(data, st('ref')), ref)
    e.same('data date', e.item(data, st('date')), ADatetime(f1))
    for k in ('number', 'text', 'csca'):
        e.same('data ' + k, e.item(data, st(k)), e.attr(o, k))
    e.same('data sr', e.item(data, st('sr')), sr)
    tail = tstext(f2) if s in ('ok', 'missing') else []
    chars(e, 'text', e.attr(o, 'text'), list(rec.items) + [124] + tstext(f1) + [124] + tail)


class _Named:
    def __init__(self, e, pre):
        self.e, self.pre = e, pre

    def atom(self, name, *a):
        return self.e.atom(self.pre + name, *a)


@scenario('C18', 'undecodable', 'an undecodable timestamp gives None and no error; the other fields are still decoded',
          lambda: [(w, s) for w in ('scts-month', 'scts-digits', 'scts-day', 'dt-month', 'dt-digits', 'dt-hour', 'both', 'no-dt', 'short-dt', 'no-dates') for s in ('ok', 'other')])
def sr_bad(e, inst):
    w, s = inst
    ref = e.atom('ref', OCT)
    d = digs(e, 9, 'r')
    stat = 0 if s == 'ok' else e.atom('status', OCT - D.RSet.vals((0, 0x30)))
    good = list(DATE)

    def broken(which):
        b = list(good)
        if which == 'month':
            b[1] = bcd(e.atom('badmonth', D.RSet.vals([0] + list(range(13, 100)))))
        elif which == 'digits':
            b[0] = e.atom('badyear', D.RSet.vals(x for x in range(256) if x & 15 > 9 or x >> 4 > 9))
        elif which == 'day':
            b[2] = bcd(e.atom('badday', D.RSet.vals([0] + list(range(32, 100)))))
        elif which == 'hour':
            b[3] = bcd(e.atom('badhour', 24, 99))
        return b
    z = e.atom('zone', OCT)
    scts, dt = good, good
    w1 = w2 = ADatetime(ADATE)
    if w == 'no-dates':
        scts = None
        w1 = w2 = None
    elif w == 'no-dt':
        dt = None
        w2 = None
    elif w == 'short-dt':
        dt = None
        w2 = None
    elif w == 'both':
        scts, dt = broken('month'), broken('digits')
        w1 = w2 = None
    elif w.startswith('scts'):
        scts = broken(w[5:])
        w1 = None
    else:
        dt = broken(w[3:])
        w2 = None
    oc = sr_octets(e, ref, d, 0x91, scts, z, dt, z, stat)
    if w == 'short-dt':
        oc += [e.atom('x0', OCT), e.atom('x1', OCT), e.atom('x2', OCT)]
    o = decode(e, oc)
    sr = e.attr(o, 'sr')
    chars(e, 'sr recipient', e.item(sr, st('recipient')), digtext(d, True).items)
    e.same('sr scts', e.item(sr, st('scts')), w1)
    e.same('sr dt', e.item(sr, st('dt')), w2)
    missing = w in ('no-dates', 'no-dt', 'short-dt')
    e.same('sr status', e.item(sr, st('status')), None if missing else stat)
    e.same('reference', e.attr(e.attr(e.attr(o, 'udh'), 'concat'), 'ref'), ref)
    chars(e, 'number', e.attr(o, 'number'), [ord(c) for c in ('SR-UNKNOWN' if missing or s != 'ok' else 'SR-OK')])
    # an undecodable time is not shown; the discharge time is shown iff the status is 0 or missing
    tail = tstext(ADATE) if w2 is not None and s == 'ok' else []
    chars(e, 'text', e.attr(o, 'text'), list(digtext(d, True).items) + [124] + (tstext(ADATE) if w1 is not None else []) + [124] + tail)


# ------------------------------------------------------------------------------------------------ C19
def kinds():
    return ['gsm', 'gsm-udh', '8bit', 'ucs2', 'alpha', 'ports', 'status', 'status-missing', 'status-bad', 'smsc']


def build(e, kind, tag):
    a = lambda n, d=OCT: e.atom('%s %s' % (tag, n), d)
    if kind == 'gsm':
        return Msg(pid=a('pid'), ud=[2] + O.pack7([a('s0', IDSEP), a('s1', IDSEP)])).octets()
    if kind == 'gsm-udh':
        return Msg(first=0x44, ud=[9, 5, 0, 3, a('ref'), a('cnt'), a('seq')] + O.pack7([a('s0', IDSEP), a('s1', IDSEP)], 1)).octets()
    if kind == '8bit':
        return Msg(dcs=4, ud=[2, a('b0'), a('b1')]).octets()
    if kind == 'ucs2':
        return Msg(dcs=8, ud=[2, a('b0'), a('b1')]).octets()
    if kind == 'alpha':
        return Msg(sender=[11, 0xd0] + O.pack7([a('c%d' % i, IDSEP) for i in range(6)]), ud=[0]).octets()
    if kind == 'ports':
        return Msg(first=0x44, dcs=4, ud=[8, 6, 5, 4, a('p0'), a('p1'), a('p2'), a('p3'), a('b0')]).octets()
    if kind == 'smsc':
        return Msg(smsc=[4, 0x91] + O.swap([3, 4, a('d', D.RSet.of(0, 9)), 6, 7, 8]), ud=[0]).octets()
    r = [6, 0, 4, 1, a('r', D.RSet.of(0, 9)), 5, 6, 7, 8]
    if kind == 'status':
        return sr_octets(e, a('ref'), r, 0x91, DATE, 0, DATE, 0, a('status', OCT - D.RSet.vals((0, 0x30))))
    if kind == 'status-missing':
        return sr_octets(e, a('ref'), r, 0x81, DATE, 0, DATE, 0, None)
    return sr_octets(e, a('ref'), r, 0x81, [0xff] * 6, 0, [0xff] * 6, 0, 0)


ATTRS = ('csca', 'number', 'text', 'fmt', 'dcs', 'pid', 'type', 'date', 'mtype', 'sr', 'pdu')


def same_as_fresh(e, o, fresh, skip=()):
    for k in ATTRS:
        if k in skip:
            continue
        r, w = e.rattr(o, k), e.rattr(fresh, k)
        if w.ok:
            if not r.ok:
                e.bad('attribute ' + k, 'missing after assigning another PDU')
            e.same('attribute ' + k, r.v, w.v)
    u, w = e.attr(o, 'udh'), e.attr(fresh, 'udh')
    if w is None:
        if u is not None:
            e.bad('attribute udh', 'header of the previous message is still there: %r' % (u,))
    else:
        if u is None:
            e.bad('attribute udh', 'header missing')
        e.same('udh.headers', e.attr(u, 'headers'), e.attr(w, 'headers'))
        for part, names in (('concat', ('ref', 'cnt', 'seq', 'eight_bits')), ('ports', ('dest_port', 'orig_port', 'eight_bits'))):
            cu, cw = e.attr(u, part), e.attr(w, part)
            if (cu is None) != (cw is None):
                e.bad('udh.' + part, 'got %r, a fresh object has %r' % (cu, cw))
            if cw is not None:
                for nme in names:
                    e.same('udh.%s.%s' % (part, nme), e.attr(cu, nme), e.attr(cw, nme))
    e.same('data', e.attr(o, 'data'), e.attr(fresh, 'data'))


@scenario('C19', 'reassign', 'assigning another PDU gives exactly the attributes of a fresh object',
          lambda: [(x, y) for x in kinds() for y in kinds()])
def reassign(e, inst):
    x, y = inst
    px, py = build(e, x, 'first'), build(e, y, 'second')
    o = decode(e, px)
    fresh = decode(e, py)
    e.set(o, 'pdu', hexl(py))
    same_as_fresh(e, o, fresh)


@scenario('C19', 'reassign-twice', 'so does assigning a third one, also when the third is the first again',
          lambda: [(x, y, z) for x in kinds() for y in ('gsm-udh', 'ports', 'status', 'status-bad', 'alpha') for z in ('8bit', 'gsm', x)])
def reassign2(e, inst):
    x, y, z = inst
    px, py = build(e, x, 'first'), build(e, y, 'second')
    pz = px if z == x else build(e, z, 'third')
    o = decode(e, px)
    e.set(o, 'pdu', hexl(py))
    e.set(o, 'pdu', hexl(pz))
    same_as_fresh(e, o, decode(e, pz))


@scenario('C19', 'after-rejection', 'a rejected assignment has no effect on the decoding of the next PDU',
          lambda: [(x, why, y) for x in ('gsm', 'gsm-udh', 'ports', 'ucs2', 'alpha', 'status', 'smsc')
                   for why in ('odd', 'submit', 'truncated', 'nothex') for y in ('gsm', '8bit', 'gsm-udh', 'status', 'status-bad', 'ucs2')])
def after_rejection(e, inst):
    x, why, y = inst
    px, py = build(e, x, 'first'), build(e, y, 'second')
    o = decode(e, px)
    if why == 'odd':
        p = S(list(hexl(build(e, 'ports', 'rejected')).items) + [D.hexc(e.atom('extra', 0, 15), True)])
    elif why == 'submit':
        p = hexl(Msg(first=0x41, ud=[2] + O.pack7([104, 105])).octets())
    elif why == 'truncated':
        p = S(list(hexl(build(e, 'gsm-udh', 'rejected')).items)[:-14])
    else:
        p = S(list(hexl(build(e, 'ports', 'rejected')).items[:-1]) + [103])
    # the same PDU is rejected each time
    for rep in (1, 2, 3):
        r = e.rset(o, 'pdu', p)
        if why in ('odd', 'submit'):
            e.raises('assignment %d of a rejected PDU' % rep, r, 'ValueError')
        elif rep == 1:
            r1 = r
        elif r.ok != r1.ok:
            e.bad('assignment %d of a rejected PDU' % rep, '%r where the first assignment %r' % (r, r1), where=r.where or r1.where)
    e.set(o, 'pdu', hexl(py))
    same_as_fresh(e, o, decode(e, py))


@scenario('C19', 'reassign-nonstrict', 'a non-strict object stays non-strict, a strict one strict, whatever was assigned',
          lambda: [(x, ox, y, oy, s) for x in ('gsm', '8bit', 'status') for y in ('gsm', 'ports', 'alpha', 'status')
                   for ox in (0, 1) for oy in (0, 1) for s in (False, True) if not (s and ox)])
def reassign_nonstrict(e, inst):
    x, ox, y, oy, strict = inst
    px, py = build(e, x, 'first'), build(e, y, 'second')
    ex, ey = [D.hexc(e.atom('extra%d' % i, 0, 15), True) for i in (1, 2)]
    o = e.ok(e.get('messaging.sms.SmsDeliver'), S(list(hexl(px).items) + [ex] * ox), strict=strict)
    for rep in (1, 2):
        r = e.rset(o, 'pdu', S(list(hexl(py).items) + [ey] * oy))
        if strict and oy:
            e.raises('odd length', r, 'ValueError')
        elif not r.ok:
            e.bad('assignment', 'assigning to a %s object %r' % ('strict' if strict else 'non-strict', r), where=r.where)
        else:
            same_as_fresh(e, o, decode(e, py), ('pdu',))


@scenario('C19', 'odd-length', 'an odd number of hex digits raises ValueError, or is ignored in non-strict mode',
          lambda: [(k, s) for k in kinds() for s in (True, False)])
def odd(e, inst):
    k, strict = inst
    p = build(e, k, 'm')
    extra = D.hexc(e.atom('extra', 0, 15), True)
    txt = S(list(hexl(p).items) + [extra])
    cls = e.get('messaging.sms.SmsDeliver')
    if strict:
        e.raises('odd length', e.run(cls, txt), 'ValueError')
        return
    o = e.ok(cls, txt, strict=False)
    f = decode(e, p)
    for a in ATTRS[:-1]:
        w = e.rattr(f, a)
        if w.ok:
            e.same('attribute ' + a, e.attr(o, a), w.v)


@scenario('C19', 'even-nonstrict', 'non-strict mode does not alter an even-length PDU', lambda: kinds())
def even(e, inst):
    p = build(e, inst, 'm')
    o = e.ok(e.get('messaging.sms.SmsDeliver'), hexl(p, False), strict=False)
    f = decode(e, p)
    for a in ATTRS[:-1]:
        w = e.rattr(f, a)
        if w.ok:
            e.same('attribute ' + a, e.attr(o, a), w.v)


@scenario('C19', 'submit-type', 'a SUBMIT-type PDU raises ValueError', lambda: [None, 3])
def submit_type(e, inst):
    m = Msg(first=e.atom('first', D.RSet.vals(x for x in range(256) if x & 3 == 1)), ud=[2] + O.pack7([104, 105]))
    if inst:
        m.smsc = [inst, 0x91, 0x43, 0x66]
    e.raises('submit', e.run(e.get('messaging.sms.SmsDeliver'), hexl(m.octets())), 'ValueError')
