"""C42, C45: what is encoded decodes to what was encoded (SMS user data; MMS messages)."""
import itertools

from pyai import dom as D
from pyai.harness import scenario
from pyai.values import S, st, us, AList, AArray, AInt, ADict, MISSING
from . import oracle as O
from . import submit as SU
from . import message as M
from .deliver import DATE, hexl, chars
from .mms import text, mkdict
from .wsp import OCT

# ------------------------------------------------------------------------------------------------ C42
HEAD = 2 * (1 + 1 + 1 + 8)          # no service centre, first octet, reference, address of NUM


def conc(items):
    return ''.join(map(chr, items)) if all(type(x) is int for x in items) else None


def deliver_of(e, pdu, klass):
    """the DELIVER in which the network hands on what this SUBMIT (no validity) carries"""
    if type(pdu) is not S or len(pdu.items) < HEAD + 6:
        e.bad('pdu', 'not a PDU: %r' % (pdu,))
    first = conc(pdu.items[2:4])
    if first not in ('01', '41'):
        e.bad('pdu', 'first octet %r' % (first,))
    rest = list(pdu.items[HEAD:])                      # PID, DCS, user data
    head = hexl([0, 0x44 if first == '41' else 4, 11, 0x91] + O.swap([3, 4, 6, 6, 6, 1, 2, 3, 4, 5, 6]))
    date = hexl(list(DATE) + [0])
    t = S(list(head.items) + rest[:4] + list(date.items) + rest[4:])
    return e.ok(e.get('messaging.sms.SmsDeliver'), t)


def c42_q():
    out = [('gsm', n, None) for n in list(range(0, 33)) + [63, 64, 65, 79, 80, 81, 119, 120, 121, 127, 128, 151, 152, 153, 154, 159, 160, 161, 200, 305, 306, 307, 312, 613]]
    out += [('gsm', n, (k, p)) for n in (1, 7, 8, 160, 161, 170) for k in 're' for p in sorted({0, 1, 6, 7, 8, n // 2, 150, 151, 152, 153, 154, n - 2, n - 1}) if 0 <= p < n]
    out += [('ucs2', n, None) for n in list(range(1, 20)) + [66, 67, 68, 69, 70, 71, 72, 133, 134, 135, 201, 202]]
    out += [('mixed', n, p) for n in (1, 2, 8, 70, 71, 100) for p in sorted({0, 66, 67, n - 1}) if p < n]
    out += [('8bit', n, None) for n in list(range(0, 20)) + [100, 133, 134, 135, 139, 140, 141, 142, 267, 268, 269]]
    return out


def c42_t():
    out = [('gsm', n, None) for n in range(0, 620)]
    out += [('gsm', n, (k, p)) for n in list(range(1, 20)) + [159, 160, 161, 320] for k in 're' for p in range(n)]
    out += [('ucs2', n, None) for n in range(1, 300)] + [('mixed', n, p) for n in range(1, 80) for p in (0, n // 2, n - 1)]
    out += [('8bit', n, None) for n in range(0, 420)]
    return out


@scenario('C42', 'text', 'the parts of a message, handed on by the network, carry its text and say which part of which message they are',
          c42_q, c42_t)
def rt_text(e, inst):
    kind, n, p = inst
    dom = {'gsm': SU.IDENT, 'ucs2': O.BADSET, 'mixed': SU.IDENT, '8bit': D.RSet.of(0, 255)}[kind]
    cs = [e.atom('ch%d' % i, dom) for i in range(n)]
    if kind == 'mixed':
        cs[p] = e.atom('wild', O.BADSET)
    elif p:
        cs[p[1]] = e.atom('wild', O.REGSET if p[0] == 'r' else O.EXTSET)
    cref = e.atom('cref', 0, 255)
    o = SU.mk(e, SU.NUM, S(cs, True), ref=e.atom('ref', 0, 255), rand_id=cref, **({'fmt': 4} if kind == '8bit' else {}))
    got = SU.pdus(e, o)
    if not got:
        e.bad('to_pdu', 'no PDU')
    out = []
    for i, g in enumerate(got):
        d = deliver_of(e, g[0], None)
        t = e.attr(d, 'text')
        if type(t) is not S:
            e.bad('text of part %d' % (i + 1), 'not a text: %r' % (t,))
        out += list(t.items)
        u = e.attr(d, 'udh')
        if len(got) == 1:
            e.same('header of a single message', u, None)
        else:
            c = e.attr(u, 'concat') if u is not None else None
            if c is None:
                e.bad('part %d' % (i + 1), 'no concatenation header is decoded')
            for k, w in (('ref', cref), ('cnt', len(got)), ('seq', i + 1)):
                if w is not None:
                    e.same('part %d: %s' % (i + 1, k), e.attr(c, k), w)
            if i == 0:
                ref0 = e.attr(c, 'ref')
            else:
                e.same('reference of part %d' % (i + 1), e.attr(c, 'ref'), ref0)
        e.same('part %d: count reported by to_pdu' % (i + 1), g[2], len(got))
        e.same('part %d: number reported by to_pdu' % (i + 1), g[3], i + 1)
    chars(e, 'text', S(out, True), cs)


# ------------------------------------------------------------------------------------------------ C45
HSET = ['To', 'Cc', 'Bcc', 'From', 'Subject', 'Priority', 'Delivery-Report', 'Read-Reply', 'Date', 'Message-Size', 'X-Thing', 'Response-Text', 'Message-ID', 'Content-Location']
# parts with a header that is none of the well-known ones, though its name may differ in case alone
NAMED = ['named ' + n for n in ('content-location', 'CONTENT-LOCATION', 'Content-location', 'content-id', 'CONTENT-ID', 'Content-Id', 'date', 'ETAG',
                                'x-note', 'X-NOTE', 'X-Mms-Note', 'Content', 'Content-Note', 'abc', 'a')]
BODY = ['none', 'text', 'data', 'array', 'params', 'headers', 'file', 'page', 'pages', 'page+text', 'many']


def c45_q():
    out = [((h,), b) for h in HSET for b in ('none', 'headers', 'page')]
    out += [((h,), 'none') for h in M.VARIANTS]
    out += [((), b) for b in NAMED]
    out += [(hs, b) for hs in (('To', 'From', 'Subject'), ('To', 'Cc', 'Bcc', 'Date', 'Priority', 'X-Thing'), ()) for b in BODY]
    return out


def c45_t():
    return [(hs, b) for n in (1, 2) for hs in itertools.combinations(HSET, n) for b in BODY]


@scenario('C45', 'messages', 'decoding what a message was encoded to gives its headers, content type and parts', c45_q, c45_t)
def rt_mms(e, inst):
    hs, b = inst
    m = M.new(e, 'MMSMessage')
    tid = S(text(e, 5, 'tid'))
    M.put(e, m, 'Transaction-Id', tid)
    want = [(st('Transaction-Id'), tid)]
    for h in hs:
        v, _ = M.hval(e, h)
        M.put(e, m, M.hname(h), v)
        want.append((st(M.hname(h)), v))
    # the octets of the parts, in the order of emission
    if b == 'page' or b == 'page+text':
        p, _ = M.page(e, ('image', 'audio', 'text'), 'p')
        e.m(m, 'add_page', p)
    if b == 'pages':
        for i, k in enumerate((('image', 'text'), ('audio',), ('text',))):
            p, _ = M.page(e, k, 'p%d' % i)
            e.m(m, 'add_page', p)
    if b == 'many':
        for i, k in enumerate(('text', 'headers', 'params', 'array', 'data', 'file')):
            e.m(m, 'add_data_part', M.attachment(e, k, 'x%d' % i, 2 + i)[0])
    elif b == 'page+text':
        e.m(m, 'add_data_part', M.attachment(e, 'text', 'x', 3)[0])
    elif b not in ('none', 'page', 'pages'):
        e.m(m, 'add_data_part', M.attachment(e, b, 'x', 3)[0])
    enc = e.m(m, 'encode')
    if type(enc) is not AArray:
        e.bad('encoding', 'not an array: %r' % (enc,))
    d = e.m(M.cls(e, 'MMSMessage'), 'from_data', AArray('B', list(enc.items)))
    dh = M.hdrs(e, d)
    for k, v in want:
        g = e.I.dget(dh, k)
        if g is MISSING:
            e.bad('header %s' % conc(k.items), 'the decoded message has no such header')
        e.same('header %s' % conc(k.items), g, v)
    e.same('content type', e.attr(d, 'content_type'), e.attr(m, 'content_type'))
    mt = e.I.dget(dh, st('Message-Type'))
    e.same('message type', mt, st('m-send-req' if {'To', 'Cc', 'Bcc'} & {M.hname(h) for h in hs} else 'm-retrieve-conf'))
    e.same('version', e.I.dget(dh, st('MMS-Version')), st('1.0'))
    base = {conc(k.items) for k, _ in M.hdrs(e, M.new(e, 'MMSMessage')).d.values()}
    for k, v in dh.d.values():
        if type(k) is S and conc(k.items) not in base | {M.hname(h) for h in hs} | {'Content-Type', 'Message-Type', 'MMS-Version', 'Transaction-Id'}:
            e.bad('extra header', 'header %s was decoded' % (k,))
    paged = b in ('page', 'pages', 'page+text')
    a = list(e.attr(m, 'data_parts').items)[1 if paged else 0:]
    c = list(e.attr(d, 'data_parts').items)
    if len(c) != len(a) + 1:
        e.bad('number of parts', '%d parts decoded where a presentation and %d parts were encoded' % (len(c), len(a)))
    e.same('presentation content type', e.attr(c[0], 'content_type'), st('application/smil'))
    chars(e, 'presentation', e.attr(c[0], 'data'), e.m(m, 'smil').items)
    same_parts(e, '', a, c[1:], True)
    # what was decoded is encoded again: its own presentation is added, the parts it has stay
    again = e.m(M.cls(e, 'MMSMessage'), 'from_data', AArray('B', list(e.m(d, 'encode').items)))
    f = list(e.attr(again, 'data_parts').items)
    if len(f) < len(c):
        e.bad('number of parts after a second round', '%d and %d' % (len(f), len(c)))
    same_parts(e, 'second round: ', a, f[len(f) - len(a):], False)
    e.same('second round: content type', e.attr(again, 'content_type'), e.attr(d, 'content_type'))
    for k, v in want:
        g = e.I.dget(M.hdrs(e, again), k)
        if g is MISSING:
            e.bad('second round: header %s' % conc(k.items), 'the decoded message has no such header')
        e.same('second round: header %s' % conc(k.items), g, v)


def same_parts(e, pre, a, c, exact):
    for i, (x, y) in enumerate(zip(a, c)):
        lab = pre + 'part %d ' % i
        e.same(lab + 'content type', e.attr(y, 'content_type'), e.attr(x, 'content_type'))
        ty = e.I.dget(M.hdrs(e, x), st('Content-Type'))
        e.same(lab + 'content type header', e.I.dget(M.hdrs(e, y), st('Content-Type')), ty)
        e.same(lab + 'parameters', e.attr(y, 'content_type_parameters'), ty[1])
        chars(e, lab + 'data', e.attr(y, 'data'), e.attr(x, 'data').items)
        e.same(lab + 'length', e.m(y, '__len__'), e.m(x, '__len__'))
        hx, hy = M.hdrs(e, x), M.hdrs(e, y)
        if exact and len(hx.d) != len(hy.d):
            e.bad(lab + 'headers', 'decoded %s, encoded %s' % ([k for k, _ in hy.d.values()], [k for k, _ in hx.d.values()]))
        for k, v in hx.d.values():
            if conc(k.items) == 'Content-Type':
                continue
            g = e.I.dget(hy, k)
            if g is MISSING:
                e.bad(lab + 'headers', 'header %s is missing' % (k,))
            if conc(k.items) != 'Content-ID':          # written as a quoted string: the mark is not part of the value
                e.same(lab + 'header %s' % conc(k.items), g, v)
