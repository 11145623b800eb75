"""C31..C39, C44: MMS messages, their pages and parts, SMIL, files, WAP pushes."""
import itertools

from pyai import dom as D
from pyai.harness import scenario
from pyai.values import S, st, us, AList, AArray, AInt, ADict, AObj, AEpoch, Seg, MISSING, Builtin
from . import oracle as O
from .wsp import (OCT, ASCII, TOKSET, octets_of, be, uv_octets, CONTENT_TYPES, HEADER_NAMES, MMS_FIELDS, upto, func, dec_cls, stream, rest)
from .mms import text, anyperm, mkdict, ENUM, ALNUM, vl

MIXED, RELATED = 'application/vnd.wap.multipart.mixed', 'application/vnd.wap.multipart.related'
XMLSAFE = ASCII - D.RSet.vals([38, 60, 62, 34])      # text that SMIL holds without escaping
MSGT = {v: k for k, v in ENUM['message_type_value'].items()}


def cls(e, name):
    return e.get('messaging.mms.message.' + name)


def new(e, name, *a):
    return e.ok(cls(e, name), *a)


def hdrs(e, m):
    h = e.attr(m, 'headers')
    if type(h) is not ADict:
        e.und('headers are not kept in a dictionary')
    return h


def put(e, m, k, v):
    e.I.setitem(hdrs(e, m), st(k), v)


def drop(e, m, k):
    e.m(hdrs(e, m), 'pop', st(k), None)


def ctoct(name, params=()):
    """octets of a content type; params: encoded parameters"""
    mo = [0x80 | CONTENT_TYPES.index(name)] if name in CONTENT_TYPES else [ord(c) for c in name] + [0]
    if not params:
        return [(mo, [])]
    n = len(mo) + sum(len(p) for p in params)
    return [(O.value_length(n) + mo, list(params))]


def wsphdr(name, val):
    """octets of a text-valued part header"""
    known = upto(HEADER_NAMES, '1.2')
    no = [0x80 | known.index(name)] if name in known else [ord(c) for c in name] + [0]
    return no + list(val) + [0]


def chars(v):
    return [ord(c) for c in v] if isinstance(v, str) else list(v)


# ------------------------------------------------------------------------------------------------ C31
FIELD_OF = {v: k for k, v in MMS_FIELDS.items()}
ENUMS = {
    'Priority': ['Low', 'Normal', 'High'], 'Sender-Visibility': ['Hide', 'Show'],
    'Message-Class': ['Personal', 'Advertisement', 'Informational', 'Auto'],
    'Response-Status': ['Ok', 'Error-unspecified', 'Error-service-denied', 'Error-message-format-corrupt', 'Error-sending-address-unresolved',
                        'Error-message-not-found', 'Error-network-problem', 'Error-content-not-accepted', 'Error-unsupported-message'],
    'Status': ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised'],
}


TOKC = D.RSet.of(48, 57) | D.RSet.of(65, 90) | D.RSet.of(97, 122) | D.RSet.vals((33, 45, 46, 95, 126))


def hname(name):
    """name of the header of a variant"""
    return name.split(':')[0]


def hval(e, name):
    """-> value, octets of an MMS header with a value of a typical kind; a variant is written Name:kind"""
    name, _, kind = name.partition(':')
    f = [0x80 | FIELD_OF[name]] if name in FIELD_OF else None
    if name in ('To', 'Cc', 'Bcc', 'Subject', 'Message-ID', 'Content-Location', 'Response-Text'):
        n = {'To': 3, 'Cc': 2, 'Bcc': 1}.get(name, 4)
        n = {'empty': 0, 'one': 1, 'long': 45, 'huge': 300}.get(kind, n)
        c = text(e, min(n, 6), 'c' + name)
        c += [97] * (n - len(c))
        return S(c), f + c + [0]
    if name == 'From' and kind == 'insert':
        return st(''), f + [1, 129]
    if name == 'From':
        n = {'one': 1, 'thirty': 28, 'long': 45, 'huge': 300}.get(kind, 5)
        c = text(e, min(n, 5), 'cFrom')
        c += [98] * (n - len(c))
        return S(c), f + O.value_length(n + 2) + [128] + c + [0]
    if name in ENUMS:
        if kind == 'token':
            c = text(e, 3, 'c' + name, TOKC, TOKC)
            return S(c), f + c + [0]
        v = e.case(name, ENUMS[name] if kind == 'all' else ENUMS[name][::2])
        return st(v), f + [128 + ENUMS[name].index(v)]
    if name in ('Delivery-Report', 'Read-Reply', 'Report-Allowed'):
        v = (name != 'Read-Reply') != (kind == 'other')
        return v, f + [128 if v else 129]
    if name == 'Date':
        n = {'one': 1, 'three': 3, 'five': 5}.get(kind, 4)
        o = [e.atom('date0', 1, 255 if n != 5 else 57)] + [e.atom('date%d' % i, OCT) for i in range(1, n)]
        return AEpoch(be(o)), f + [n] + o
    if name == 'Message-Size':
        n = {'one': 1, 'three': 3, 'four': 4}.get(kind, 2)
        o = [e.atom('size0', 1, 255)] + [e.atom('size%d' % i, OCT) for i in range(1, n)]
        return be(o), f + [n] + o
    if name in ('Expiry', 'Delivery-Time'):
        if kind == 'abs':
            o = [e.atom('t%s0' % name, 1, 255)] + [e.atom('t%s%d' % (name, i), OCT) for i in range(1, 4)]
            v, w = be(o), [128, 4] + o
            v = AEpoch(v) if name == 'Expiry' else (st('absolute'), v)
        elif kind == 'short':
            v = e.atom('t' + name, 0, 127)
            w = [129, D.bor(v, 128)]
            v = v if name == 'Expiry' else (st('relative'), v)
        else:
            o = [e.atom('t%s0' % name, 1, 255)] + [e.atom('t%s%d' % (name, i), OCT) for i in range(1, 3)]
            v, w = be(o), [129, 3] + o
            v = v if name == 'Expiry' else (st('relative'), v)
        return v, f + [len(w)] + w
    n = {'empty': 0, 'one': 1, 'long': 60}.get(kind, 3)
    c = text(e, min(n, 5), 'c' + name)
    c += [99] * (n - len(c))
    return S(c), [ord(x) for x in name] + [0] + c + [0]


# variants of headers beyond those of OTHERS
VARIANTS = ['Subject:empty', 'Subject:one', 'Subject:long', 'Subject:huge', 'To:empty', 'To:long', 'Cc:empty', 'Bcc:long', 'Content-Location:empty', 'Content-Location:long',
            'Response-Text:empty', 'Response-Text:long', 'Message-ID:empty', 'Message-ID:huge', 'From:one', 'From:thirty', 'From:long', 'From:huge',
            'Priority:all', 'Sender-Visibility', 'Message-Class', 'Message-Class:all', 'Message-Class:token', 'Response-Status:all', 'Status:all',
            'Delivery-Report:other', 'Read-Reply:other', 'Report-Allowed', 'Report-Allowed:other', 'Date:one', 'Date:three', 'Date:five', 'Message-Size:one', 'Message-Size:three',
            'Message-Size:four', 'Expiry', 'Expiry:abs', 'Expiry:short', 'Delivery-Time', 'Delivery-Time:abs', 'Delivery-Time:short',
            'x-abc', 'X-ABC', 'abc', 'q9', 'Q', 'SUBJECT', 'subject', 'x-mms-version', 'X-Mms-Status', 'X-Mms-', 'Message-type', 'X-Thing:empty', 'abc:empty', 'x-abc:long', 'X-Subject',
            'X-Mms-Priority', 'X-WAP-Note', 'Subject-X', 'Re']


def header_section(e, m, pre, segs, ct=MIXED, cpar=(), body=None):
    """encoded message = pre + header segments in any order + content type + body"""
    enc = octets_of(e, 'encoded message', e.m(m, 'encode'))
    got = list(enc.items)
    pre = list(pre)
    co, cp = ctoct(ct, cpar)[0]
    mid = sum(len(s) for s in segs)
    n = len(pre) + mid + 1 + len(co) + sum(len(p) for p in cp)
    if len(got) < n:
        e.bad('header section', '%d octets where the header section alone needs %d: %s' % (len(got), n, got[:80]))
    a, b = len(pre), len(pre) + mid
    e.same('first three headers', AList(got[:a]), pre)
    if segs:
        anyperm(e, 'other headers', AList(got[a:b]), [], segs)
    anyperm(e, 'content type last', AList(got[b:n]), [0x84] + co, cp)
    return got[n:]


TRIO = ('Message-Type', 'Transaction-Id', 'MMS-Version')
XNAME = {'Message-Type': 'X-Mms-Message-Type', 'Transaction-Id': 'X-Mms-Transaction-Id', 'MMS-Version': 'X-Mms-Version'}


def trio(e, m, forms, mtype='m-notifyresp-ind'):
    """set the mandatory headers; -> octets of the first three headers"""
    out = []
    for name, f in zip(TRIO, forms):
        def val(plain):
            if name == 'Message-Type':
                return st(mtype), [0x8c, MSGT[mtype]]
            if name == 'Transaction-Id':
                c = text(e, 4, 'tid' if plain else 'xtid')
                return S(c), [0x98] + c + [0]
            ma = e.atom('major' if plain else 'xmajor', 1, 7)
            mi = e.atom('minor' if plain else 'xminor', 0, 9)
            return S([D.add(ma, 48), 46, D.add(mi, 48)]), [0x8d, D.bor(D.bor(D.shl(ma, 4), mi), 128)]
        if f == 'absent':
            drop(e, m, name)
            if name == 'Message-Type':
                out.append([0x8c, MSGT['m-retrieve-conf']])
            elif name == 'Transaction-Id':
                out.append(None)
            else:
                out.append([0x8d, 0x90])
        elif f == 'default':
            out.append({'Message-Type': [0x8c, MSGT['m-send-req']], 'Transaction-Id': [0x98, 49, 50, 51, 52, 0],
                        'MMS-Version': [0x8d, 0x90]}[name])
        elif f == 'plain':
            v, o = val(True)
            put(e, m, name, v)
            out.append(o)
        elif f == 'x':
            drop(e, m, name)
            v, o = val(False)
            put(e, m, XNAME[name], v)
            out.append(o)
        else:
            # both: the X-Mms- one wins
            if name != 'Message-Type':
                put(e, m, name, val(True)[0])
            else:
                put(e, m, name, st('m-delivery-ind'))
            v, o = val(False)
            put(e, m, XNAME[name], v)
            out.append(o)
    return out


FORMS = ['absent', 'plain', 'x', 'both']


def check_trio(e, m, out, segs, **kw):
    if out[1] is not None:
        return header_section(e, m, [x for o in out for x in o], segs, **kw)
    enc = octets_of(e, 'encoded message', e.m(m, 'encode'))
    got = list(enc.items)
    a = len(out[0])
    e.same('message type first', AList(got[:a]), out[0])
    if len(got) < a + 6:
        e.bad('transaction id', 'the encoding ends in the headers: %s' % got)
    e.same('transaction id second', AList([got[a], got[a + 5]]), [0x98, 0])
    for i in range(1, 5):
        e.cond('random transaction id has four digits', D.compare('<=', 49 if i == 1 else 48, got[a + i]),
               'character %d of the transaction id %s is not a digit' % (i, got[a + 1:a + 5]))
        e.cond('random transaction id has four digits', D.compare('<=', got[a + i], 57),
               'character %d of the transaction id %s is not a digit' % (i, got[a + 1:a + 5]))
    got2 = AArray('B', got[a + 6:])
    m2 = Fixed(got2)
    return header_section(e, m2, out[2], segs, **kw)


class Fixed:
    """stand-in for a message whose encoding is already known"""

    def __init__(self, v):
        self.v = v


_hs = header_section


def header_section(e, m, *a, **kw):
    if isinstance(m, Fixed):
        class P:
            pass
        p = P()
        p.__dict__.update(ok=e.ok, same=e.same, bad=e.bad, cmp=e.cmp, und=e.und)
        p.m = lambda o, name: o.v
        return _hs(p, m, *a, **kw)
    return _hs(e, m, *a, **kw)


@scenario('C31', 'mandatory-headers', 'type, transaction id and version come first, from the X-Mms- header, else the plain one, else the default',
          lambda: list(itertools.product(FORMS, FORMS, FORMS)))
def h31_trio(e, forms):
    m = new(e, 'MMSMessage')
    out = trio(e, m, forms)
    v, o = hval(e, 'To')
    put(e, m, 'To', v)
    check_trio(e, m, out, [o])


@scenario('C31', 'message-type', 'm-send-req without a destination is m-retrieve-conf; otherwise the declared type is kept',
          lambda: [(t, f, d) for t in sorted(MSGT) for f in ('plain', 'x', 'both') for d in range(8)] + [('m-send-req', 'default', d) for d in range(8)])
def h31_type(e, inst):
    t, f, d = inst
    m = new(e, 'MMSMessage')
    out = trio(e, m, (f, 'plain', 'plain'), t)
    segs = []
    for i, h in enumerate(('To', 'Cc', 'Bcc')):
        if d >> i & 1:
            # a header that is there with an empty value is there
            v, o = hval(e, h + (':empty' if f in ('x', 'default') else ''))
            put(e, m, h, v)
            segs.append(o)
    if t == 'm-send-req' and d == 0:
        out[0] = [0x8c, MSGT['m-retrieve-conf']]
    check_trio(e, m, out, segs)


OTHERS = ['Subject', 'From', 'Priority', 'Delivery-Report', 'Date', 'Message-Size', 'Read-Reply', 'X-Thing', 'X-Mms-Other', 'Message-ID']


@scenario('C31', 'other-headers', 'every other header occurs exactly once between the first three and the content type',
          lambda: [()] + [(h,) for h in OTHERS] + [('Subject', 'From'), ('From', 'Priority', 'X-Thing'), ('Date', 'To', 'Subject', 'Read-Reply'),
                                                   ('X-Mms-Other', 'Bcc', 'Message-Size')] + [(h,) for h in VARIANTS + ['From:insert']] +
          [('Subject', 'Subject-X', 'subject'), ('x-abc', 'X-ABC', 'abc'), ('Expiry', 'Delivery-Time', 'Date'), ('To', 'Cc', 'Bcc', 'From'),
           ('Subject:empty', 'Date', 'X-Thing:empty', 'Read-Reply')],
          lambda: [()] + [(h,) for h in OTHERS] + list(itertools.permutations(OTHERS, 2)) + list(itertools.combinations(OTHERS + ['To', 'Cc'], 3)) +
          [hs for hs in itertools.product(OTHERS, VARIANTS) if hname(hs[0]) != hname(hs[1])])
def h31_other(e, hs):
    m = new(e, 'MMSMessage')
    # the order of insertion must not matter
    first = e.case('inserted', ['after the mandatory headers', 'before them'])
    out = None
    if first == 'before them':
        for h in TRIO + ('Content-Type',):
            drop(e, m, h)
    else:
        out = trio(e, m, ('plain',) * 3)
    segs = []
    for h in hs:
        v, o = hval(e, h)
        put(e, m, hname(h), v)
        segs.append(o)
    if out is None:
        put(e, m, 'Content-Type', (st(MIXED), ADict()))
        out = trio(e, m, ('plain',) * 3)
    check_trio(e, m, out, segs)


@scenario('C31', 'content-type-last', 'the content type, with its parameters, is the last header whatever it is and whenever it was set',
          lambda: [(c, p, o) for c in (MIXED, RELATED, 'text/plain', 'application/x-thing') for p in (0, 1, 2) for o in ('first', 'last')])
def h31_ct(e, inst):
    c, np, order = inst
    m = new(e, 'MMSMessage')
    pars, enc = [], []
    if np:
        t = text(e, 6, 'start')
        pars.append((st('Start'), S(t)))
        enc.append([0x8a] + t + [0])
    if np > 1:
        t = text(e, 8, 'type')
        pars.append((st('Type'), S(t)))
        enc.append([0x89] + t + [0])
    out = None
    if order == 'first':
        for h in TRIO:
            drop(e, m, h)
    else:
        drop(e, m, 'Content-Type')
        out = trio(e, m, ('plain',) * 3)
    put(e, m, 'Content-Type', (st(c), mkdict(e, pars)))
    if out is None:
        out = trio(e, m, ('plain',) * 3)
    v, o = hval(e, 'To')
    put(e, m, 'To', v)
    check_trio(e, m, out, [o], ct=c, cpar=enc)


# ------------------------------------------------------------------------------------------------ C32, C44
def bytestext(e, n, name, lo=0, hi=255):
    return [e.atom('%s%d' % (name, i), lo, hi) if i < 40 or i > n - 3 else (7 * i) % 256 if hi == 255 else 97 for i in range(n)]


def mkfile(e, path, n, name=None):
    d = bytestext(e, n, name or path)
    e.I.vfs[path] = {'data': list(d)}
    return d


EXT = {'img.jpg': 'image/jpeg', 'img.gif': 'image/gif', 'img.png': 'image/png', 'pic.wbmp': 'application/octet-stream', 'a.zzz': 'application/octet-stream', 'noext': 'application/octet-stream',
       'note.txt': 'text/plain', 'page.html': 'text/html', 'snd.wav': 'audio/x-wav', 'a.txt.gif': 'image/gif', 'b.gif.txt': 'text/plain', 'c.jpg.zzz': 'application/octet-stream',
       'IMG.JPG': 'image/jpeg', '.gif': 'application/octet-stream', 'd.tar.gz': 'application/x-tar', 'e f.gif': 'image/gif'}


def page(e, kinds, tag='', n=3):
    """-> (page, [(content type octets, header octets, data)])"""
    p = new(e, 'MMSMessagePage')
    parts = {}
    for k in kinds:
        if k == 'image':
            d = mkfile(e, '/in/%spic.jpg' % tag, n, tag + 'i')
            e.m(p, 'add_image', st('/in/%spic.jpg' % tag))
            parts[k] = ([0x80 | CONTENT_TYPES.index('image/jpeg')], [wsphdr('Content-Location', chars(tag + 'pic.jpg'))], d)
        elif k == 'audio':
            d = mkfile(e, '/in/%ssnd.xyz' % tag, n + 1, tag + 'a')
            e.m(p, 'add_audio', st('/in/%ssnd.xyz' % tag))
            parts[k] = (chars('application/octet-stream') + [0], [wsphdr('Content-Location', chars(tag + 'snd.xyz'))], d)
        else:
            d = text(e, n, tag + 't', XMLSAFE, XMLSAFE)
            e.m(p, 'add_text', S(d))
            parts[k] = ([0x80 | CONTENT_TYPES.index('text/plain')], [], d)
    return p, [parts[k] for k in ('image', 'audio', 'text') if k in parts]


def attachment(e, kind, tag, n):
    p = new(e, 'DataPart')
    if kind == 'text':
        d = bytestext(e, n, tag)
        e.m(p, 'set_text', S(d))
        return p, ([0x80 | CONTENT_TYPES.index('text/plain')], [], d)
    if kind == 'data':
        d = bytestext(e, n, tag)
        e.m(p, 'set_data', S(d), st('x/y'))
        return p, (chars('x/y') + [0], [], d)
    if kind == 'array':
        d = bytestext(e, n, tag)
        e.m(p, 'set_data', AArray('B', list(d)), st('image/gif'))
        return p, ([0x80 | CONTENT_TYPES.index('image/gif')], [], d)
    if kind == 'params':
        d = bytestext(e, n, tag)
        nm = text(e, 5, tag + 'name')
        e.m(p, 'set_data', S(d), st('image/png'), mkdict(e, [(st('Name'), S(nm))]))
        return p, ([8, 0x80 | CONTENT_TYPES.index('image/png'), 0x85] + nm + [0], [], d)
    if kind == 'headers':
        d = bytestext(e, n, tag)
        e.m(p, 'set_data', S(d), st('image/png'))
        a, b = text(e, 3, tag + 'h'), text(e, 4, tag + 'g')
        put(e, p, 'Content-Location', S(a))
        put(e, p, 'X-Note', S(b))
        return p, ([0x80 | CONTENT_TYPES.index('image/png')], [wsphdr('Content-Location', a), wsphdr('X-Note', b)], d)
    if kind.startswith('named '):
        d = bytestext(e, n, tag)
        e.m(p, 'set_data', S(d), st('image/png'))
        a, nm = text(e, 3, tag + 'h'), kind[6:]
        put(e, p, nm, S(a))
        return p, ([0x80 | CONTENT_TYPES.index('image/png')], [chars(nm) + [0] + a + [0]], d)
    if kind == 'file':
        d = mkfile(e, '/in/%s.txt' % tag, n, tag)
        e.m(p, 'from_file', st('/in/%s.txt' % tag))
        return p, ([0x80 | CONTENT_TYPES.index('text/plain')], [wsphdr('Content-Location', chars(tag + '.txt'))], d)
    if kind.startswith('bighdr'):
        d = bytestext(e, n, tag)
        e.m(p, 'set_data', S(d), st('image/png'))
        h = int(kind[6:])
        a = text(e, 2, tag + 'h') + [97] * (h - 4)
        put(e, p, 'Content-Location', S(a))
        return p, ([0x80 | CONTENT_TYPES.index('image/png')], [wsphdr('Content-Location', a)], d)
    raise AssertionError(kind)


def seglen(x):
    return sum(len(s) for s in x)


def frame(e, label, got, pos, want):
    """one body entry at pos; -> position after it"""
    ct, hs, d = want
    h = len(ct) + seglen(hs)
    pre = O.uintvar(h) + O.uintvar(len(d)) + list(ct)
    if len(got) < pos + len(pre) + seglen(hs) + len(d):
        e.bad(label, '%d octets left where this part needs %d: %s' % (len(got) - pos, len(pre) + seglen(hs) + len(d), got[pos:pos + 60]))
    a = pos + len(pre)
    e.same(label + ' lengths and type', AList(got[pos:a]), pre)
    if hs:
        anyperm(e, label + ' headers', AList(got[a:a + seglen(hs)]), [], hs)
    b = a + seglen(hs)
    e.same(label + ' data', AList(got[b:b + len(d)]), list(d))
    return b + len(d)


def body(e, m, parts, label='body'):
    """encoded body of a message whose headers are the default ones"""
    smil = e.m(m, 'smil')
    if type(smil) is not S:
        e.bad('smil', 'not a text: %r' % (smil,))
    ct = e.attr(m, 'content_type')
    got = header_section(e, m, [0x8c, MSGT['m-retrieve-conf'], 0x98, 49, 50, 51, 52, 0, 0x8d, 0x90], [], ct=e.I_text(ct) if hasattr(e, 'I_text') else ''.join(map(chr, ct.items)))
    sm = (chars('application/smil') + [0], [wsphdr('Content-ID', chars('<0000>'))], smil.items)
    n = 1 + len(parts)
    un = O.uintvar(n)
    e.same('number of parts', AList(got[:len(un)]), un)
    pos = len(un)
    for i, p in enumerate([sm] + parts):
        pos = frame(e, 'part %d' % i, got, pos, p)
    if pos != len(got):
        e.bad('end of body', '%d octets follow the last part' % (len(got) - pos))


KINDS = [(), ('image',), ('audio',), ('text',), ('image', 'text'), ('image', 'audio'), ('audio', 'text'), ('image', 'audio', 'text')]
ATT = ['text', 'data', 'array', 'params', 'headers', 'file']


@scenario('C32', 'pages', 'number of parts, then SMIL and every page item framed by its own lengths',
          lambda: [(k,) for k in KINDS] + [(a, b) for a in KINDS[1:] for b in (KINDS[3], KINDS[7])],
          lambda: [(k,) for k in KINDS] + [(a, b) for a in KINDS for b in KINDS] + [(KINDS[7],) * 3, (KINDS[4], (), KINDS[5])])
def b32_pages(e, pages):
    m = new(e, 'MMSMessage')
    parts = []
    for i, k in enumerate(pages):
        p, w = page(e, k, 'p%d' % i)
        e.m(m, 'add_page', p)
        parts += w
    body(e, m, parts)


@scenario('C32', 'item-order', 'page items are emitted image, audio, text whatever order they were added in',
          lambda: list(itertools.permutations(('image', 'audio', 'text'))))
def b32_order(e, ks):
    m = new(e, 'MMSMessage')
    p, w = page(e, ks, 'p')
    e.m(m, 'add_page', p)
    body(e, m, w)


@scenario('C32', 'attachments', 'attached parts follow the pages, in order, with their own headers and data',
          lambda: [((), (a,)) for a in ATT] + [(('image', 'text'), (a,)) for a in ATT] + [((), (a, b)) for a in ATT for b in ('data', 'headers')],
          lambda: [(k, (a,)) for k in KINDS for a in ATT] + [((), (a, b)) for a in ATT for b in ATT] + [(('text',), (a, b, 'text')) for a in ATT for b in ATT])
def b32_att(e, inst):
    ks, att = inst
    m = new(e, 'MMSMessage')
    parts = []
    if ks:
        p, w = page(e, ks, 'p')
        e.m(m, 'add_page', p)
        parts += w
    for i, a in enumerate(att):
        p, w = attachment(e, a, 'x%d' % i, 3 + i)
        e.m(m, 'add_data_part', p)
        parts.append(w)
    body(e, m, parts)


LENS = [0, 1, 2, 10, 126, 127, 128, 129, 200, 255, 256, 257, 300]


@scenario('C32', 'data-lengths', 'the data length is exact and data is emitted unchanged on both sides of each length-octet boundary',
          lambda: [(k, n) for k in ('text', 'data', 'array', 'file') for n in LENS + [511, 512, 1000, 4096, 16383, 16384, 16385]] + [('data', n) for n in (32768, 65535, 65536, 70000)],
          lambda: [(k, n) for k in ('text', 'data', 'array', 'file') for n in list(range(0, 300)) + [1000, 16383, 16384, 16385]])
def b32_len(e, inst):
    k, n = inst
    e.I.maxiter = max(e.I.maxiter, 2 * n)
    m = new(e, 'MMSMessage')
    p, w = attachment(e, k, 'x', n)
    e.m(m, 'add_data_part', p)
    body(e, m, [w])


@scenario('C32', 'header-lengths', 'the headers length counts content type and headers, on both sides of each length-octet boundary',
          lambda: [8, 20, 30, 31, 32, 60] + list(range(120, 132)) + [200, 253, 254, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 6000], lambda: list(range(8, 300)) + [5000, 17000])
def b32_hlen(e, n):
    e.I.maxiter = max(e.I.maxiter, 2 * n)
    m = new(e, 'MMSMessage')
    p, w = attachment(e, 'bighdr%d' % n, 'x', 2)
    e.m(m, 'add_data_part', p)
    body(e, m, [w])


@scenario('C32', 'many-parts', 'the number of parts is exact beyond one octet', lambda: [5, 9, 17, 126, 127, 128, 200], lambda: [5, 50, 126, 127, 128, 129, 255, 256, 300])
def b32_many(e, n):
    m = new(e, 'MMSMessage')
    parts = []
    for i in range(n):
        p = new(e, 'DataPart')
        e.m(p, 'set_data', S([e.atom('x', OCT)] if i == n - 1 else [65]), st('x/y'))
        parts.append((chars('x/y') + [0], [], [e.shown[-1][1]] if i == n - 1 else [65]))
        e.m(m, 'add_data_part', p)
    body(e, m, parts)


# ------------------------------------------------------------------------------------------------ C33
def dhdr(e, name):
    """-> key, octets, value of a decoded header"""
    if name == 'Message-Type':
        t = e.case('type', ['m-send-req', 'm-retrieve-conf', 'm-notification-ind'])
        return name, [0x8c, MSGT[t]], st(t)
    if name == 'Transaction-Id':
        c = text(e, 5, 'tid')
        return name, [0x98] + c + [0], S(c)
    if name == 'MMS-Version':
        mi = e.atom('minor', 0, 9)
        return name, [0x8d, D.bor(mi, 0x90)], S([49, 46, D.add(mi, 48)])
    v, o = hval(e, name)
    return hname(name), o, v


def dpart(e, i, kind, n):
    """-> octets, content type, params, headers, data"""
    d = bytestext(e, n, 'd%d_' % i)
    tag = 'q%d' % i
    pars, hs = [], []
    if kind == 'plain':
        ct = 'text/plain'
        co = [0x83]
    elif kind == 'other':
        ct = 'x/thing'
        co = chars(ct) + [0]
    elif kind == 'params':
        ct = 'image/jpeg'
        nm = text(e, 4, tag + 'n', ALNUM)
        pars = [(st('Name'), S(nm))]
        co = [1 + 1 + 5, 0x80 | CONTENT_TYPES.index(ct), 0x85] + nm + [0]
    elif kind == 'charset':
        ct = 'text/plain'
        pars = [(st('Charset'), st('utf-8'))]
        co = [3, 0x83, 0x81, 0xea]
    elif kind == 'headers':
        ct = 'image/gif'
        a, b = text(e, 3, tag + 'h', ALNUM), text(e, 4, tag + 'g', ALNUM)
        co = [0x80 | CONTENT_TYPES.index(ct)]
        hs = [(st('Content-Location'), S(a), wsphdr('Content-Location', a)), (st('X-Note'), S(b), wsphdr('X-Note', b))]
    elif kind.startswith('cid'):
        ct = 'image/gif'
        a, b = [60] + text(e, 3, tag + 'i', ALNUM) + [62], text(e, 4, tag + 'l', ALNUM)
        co = [0x80 | CONTENT_TYPES.index(ct)]
        hs = [(st('Content-ID'), S(a), {'cid': [0xc0, 34] + a + [0], 'cidtext': [0xc0] + a + [0],
                                        'cidname': chars('Content-ID') + [0] + a + [0]}[kind]),
              (st('Content-Location'), S(b), wsphdr('Content-Location', b))]
    elif kind.startswith('big'):
        ct = 'image/gif'
        h = int(kind[3:])
        co = [0x80 | CONTENT_TYPES.index(ct)]
        a = text(e, 2, tag + 'h', ALNUM) + [97] * (h - 5)
        hs = [(st('X'), S(a), wsphdr('X', a))]
    ho = [x for h in hs for x in h[2]]
    o = O.uintvar(len(co) + len(ho)) + O.uintvar(n) + co + ho + d
    return o, st(ct), pars, hs, d


def check_parts(e, m, want):
    ps = e.attr(m, 'data_parts')
    if type(ps) is not AList:
        e.bad('parts', 'data_parts is not a list: %r' % (ps,))
    if len(ps.items) != len(want):
        e.bad('number of parts', '%d parts decoded where %d are carried' % (len(ps.items), len(want)))
    for i, (p, w) in enumerate(zip(ps.items, want)):
        o, ct, pars, hs, d = w
        lab = 'part %d ' % i
        e.same(lab + 'data', e.attr(p, 'data'), S(list(d)))
        e.same(lab + 'length', e.m(p, '__len__'), len(d))
        e.same(lab + 'content type', e.attr(p, 'content_type'), ct)
        e.same(lab + 'headers', hdrs(e, p), mkdict(e, [(st('Content-Type'), (ct, mkdict(e, pars)))] + [(h[0], h[1]) for h in hs]))
        e.same(lab + 'content type parameters', e.attr(p, 'content_type_parameters'), mkdict(e, pars))


def check_headers(e, m, want, ct=None):
    h = hdrs(e, m)
    keys = set()
    for k, o, v in want:
        g = e.I.dget(h, st(k))
        if g is MISSING:
            e.bad('header ' + k, 'header %s is not among the decoded headers' % k)
        e.same('header ' + k, g, v)
        keys.add(k)
    if ct is not None:
        g = e.I.dget(h, st('Content-Type'))
        if g is MISSING:
            e.bad('content type', 'the message has no content type')
        e.same('content type', g, ct)
    base = hdrs(e, new(e, 'MMSMessage'))
    for k, v in h.d.values():
        if type(k) is S and any(list(k.items) == chars(x) for x in keys | {'Content-Type'}):
            continue
        if e.I.dget(base, k) is MISSING:
            e.bad('extra header', 'header %s was decoded although the message does not carry it' % (k,))


def load(e, octets):
    how = e.case('entry', ['MMSMessage.from_data', 'MMSDecoder.decode_data'])
    a = AArray('B', list(octets))
    if how.startswith('MMSM'):
        return e.m(cls(e, 'MMSMessage'), 'from_data', a)
    return e.m(e.ok(dec_cls(e, True)), 'decode_data', a)


HSETS = [('Message-Type', 'Transaction-Id', 'MMS-Version'), ('Message-Type', 'Transaction-Id', 'MMS-Version', 'From', 'To', 'Subject', 'Date'),
         ('MMS-Version', 'Subject', 'Message-Type', 'X-Thing', 'Transaction-Id'), ('Message-Type', 'Priority', 'Message-Size', 'Delivery-Report', 'Cc')]
CTS = {'mixed': ([0x84, 0xa3], (MIXED, [])), 'related': ([0x84, 0xb3], (RELATED, []))}


def msgct(e, k):
    if k in CTS:
        o, (n, p) = CTS[k]
        return o, (st(n), mkdict(e, p))
    c = text(e, 5, 'start', ALNUM)
    return [0x84, 8, 0xb3, 0x8a] + c + [0], (st(RELATED), mkdict(e, [(st('Start'), S(c))]))


@scenario('C33', 'headers', 'every header in the data is decoded to its value, in any order; the parts that follow are complete',
          lambda: [(i, c, n) for i in range(len(HSETS)) for c in ('mixed', 'related', 'params') for n in (0, 1)],
          lambda: [(i, c, n) for i in range(len(HSETS)) for c in ('mixed', 'related', 'params') for n in (0, 1, 2, 3)])
def d33_hdr(e, inst):
    i, c, n = inst
    hs = [dhdr(e, h) for h in HSETS[i]]
    co, cv = msgct(e, c)
    parts = [dpart(e, j, 'headers', 3) for j in range(n)]
    m = load(e, [x for h in hs for x in h[1]] + co + O.uintvar(n) + [x for p in parts for x in p[0]])
    check_headers(e, m, hs, cv)
    check_parts(e, m, parts)


@scenario('C33', 'each-header', 'each header is decoded wherever it stands',
          lambda: [(h, w) for h in OTHERS + ['To', 'Cc', 'Bcc', 'Content-Location', 'Response-Text'] + VARIANTS for w in ('first', 'middle', 'last')])
def d33_each(e, inst):
    h, w = inst
    names = {'first': [h, 'Message-Type', 'Transaction-Id'], 'middle': ['Message-Type', h, 'MMS-Version'], 'last': ['Message-Type', 'MMS-Version', h]}[w]
    hs = [dhdr(e, x) for x in names]
    co, cv = msgct(e, 'mixed')
    parts = [dpart(e, 0, 'plain', 2)]
    m = load(e, [x for q in hs for x in q[1]] + co + [1] + parts[0][0])
    check_headers(e, m, hs, cv)
    check_parts(e, m, parts)


@scenario('C33', 'headers-only', 'a message of headers only has those headers and no parts', lambda: [(i, b) for i in range(len(HSETS)) for b in ('none', 'content-type')])
def d33_only(e, inst):
    i, b = inst
    hs = [dhdr(e, h) for h in HSETS[i]]
    co, cv = msgct(e, 'mixed') if b != 'none' else ([], None)
    m = load(e, [x for h in hs for x in h[1]] + co)
    check_headers(e, m, hs, cv)
    check_parts(e, m, [])


PKINDS = ['plain', 'other', 'params', 'charset', 'headers', 'cid', 'cidtext', 'cidname']


@scenario('C33', 'parts', 'each part has its own content type, parameters, headers and payload',
          lambda: [(k,) for k in PKINDS] + [(a, b) for a in PKINDS for b in PKINDS] + [('headers', 'plain', 'params')],
          lambda: [(k,) for k in PKINDS] + [(a, b) for a in PKINDS for b in PKINDS] + [(a, b, c) for a in PKINDS for b in PKINDS for c in PKINDS])
def d33_parts(e, ks):
    parts = [dpart(e, i, k, 2 + i) for i, k in enumerate(ks)]
    co, cv = msgct(e, 'related')
    m = load(e, [0x8c, 0x84] + co + O.uintvar(len(ks)) + [x for p in parts for x in p[0]])
    check_headers(e, m, [('Message-Type', None, st('m-retrieve-conf'))], cv)
    check_parts(e, m, parts)


@scenario('C33', 'payload-lengths', 'a payload has exactly its stated length, and the next part starts right after it',
          lambda: LENS + [511, 512, 1000, 4096, 16383, 16384, 16385, 65535, 65536, 70000], lambda: list(range(0, 270)) + [1000, 16383, 16384])
def d33_len(e, n):
    e.I.maxiter = max(e.I.maxiter, 2 * n)
    parts = [dpart(e, 0, 'plain', n), dpart(e, 1, 'headers', 2)]
    m = load(e, [0x8c, 0x84, 0x84, 0xa3, 2] + [x for p in parts for x in p[0]])
    check_parts(e, m, parts)


@scenario('C33', 'header-lengths', 'part headers end exactly at their stated length', lambda: [8, 10, 20, 29, 30, 31, 32, 33, 60, 64, 100] + list(range(120, 136)) + [200, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 6000], lambda: list(range(8, 270)) + [5000, 17000])
def d33_hlen(e, n):
    e.I.maxiter = max(e.I.maxiter, 2 * n)
    parts = [dpart(e, 0, 'big%d' % n, 3), dpart(e, 1, 'plain', 2)]
    m = load(e, [0x8c, 0x84, 0x84, 0xa3, 2] + [x for p in parts for x in p[0]])
    check_parts(e, m, parts)


@scenario('C33', 'many-parts', 'as many parts are decoded as are carried, beyond one octet of count', lambda: [3, 9, 17, 127, 128, 130, 260], lambda: [5, 50, 126, 129, 255, 256, 300])
def d33_many(e, n):
    parts = [dpart(e, 0, 'headers', 3)]
    for i in range(1, n - 1):
        d = [(i * 3 + j) % 256 for j in range(i % 3)]
        ct = ['text/plain', 'x/y'][i % 2]
        co = [0x83] if i % 2 == 0 else chars(ct) + [0]
        parts.append((O.uintvar(len(co)) + O.uintvar(len(d)) + co + d, st(ct), [], [], d))
    parts.append(dpart(e, 1, 'params', 2))
    m = load(e, [0x8c, 0x84, 0x84, 0xa3] + O.uintvar(n) + [x for p in parts for x in p[0]])
    check_parts(e, m, parts)


@scenario('C33', 'decoder-reuse', 'a decoder used again decodes the second message alone', lambda: ['same', 'other'] + [
    (a, b) for a in ('parts', 'headers', 'content-type', 'no-parts', 'broken') for b in ('parts', 'headers', 'no-parts')])
def d33_reuse(e, w):
    d = e.ok(dec_cls(e, True))
    if type(w) is tuple:
        return d33_reused(e, d, w)
    a, b = dpart(e, 0, 'headers', 2), dpart(e, 1, 'plain', 3)
    c = text(e, 4, 'subj')
    first = e.m(d, 'decode_data', AArray('B', [0x8c, 0x84, 0x96] + c + [0, 0x84, 0xa3, 1] + a[0]))
    if w == 'other':
        d = e.ok(dec_cls(e, True))
    second = e.m(d, 'decode_data', AArray('B', [0x8c, 0x80, 0x84, 0xb3, 1] + b[0]))
    check_headers(e, second, [('Message-Type', None, st('m-send-req'))], (st(RELATED), {}))
    check_parts(e, second, [b])
    check_headers(e, first, [('Message-Type', None, st('m-retrieve-conf')), ('Subject', None, S(c))], (st(MIXED), {}))
    check_parts(e, first, [a])


def d33_reused(e, d, w):
    c = text(e, 4, 'subj')
    a, b = dpart(e, 0, 'headers', 2), dpart(e, 1, 'plain', 3)
    tail = {'parts': [0x84, 0xa3, 1] + a[0], 'headers': [], 'content-type': [0x84, 0xa3], 'no-parts': [0x84, 0xa3, 0], 'broken': [0x84, 0xa3, 2] + a[0]}
    first = [0x8c, 0x84, 0x85, 1, e.atom('date', 1, 255), 0x96] + c + [0]
    if w[0] == 'broken':
        # cut off in the middle: whatever that gives, the next message is not concerned
        e.rm(d, 'decode_data', AArray('B', first + tail['broken']))
        one = None
    else:
        one = e.m(d, 'decode_data', AArray('B', first + tail[w[0]]))
    tail['parts'] = [0x84, 0xb3, 1] + b[0]
    f = text(e, 3, 'from')
    two = e.m(d, 'decode_data', AArray('B', [0x8c, 0x80, 0x97] + f + [0] + tail[w[1]]))
    ct = {'parts': (st(RELATED), {}), 'headers': None, 'no-parts': (st(MIXED), {})}[w[1]]
    check_headers(e, two, [('Message-Type', None, st('m-send-req')), ('To', None, S(f))], ct)
    check_parts(e, two, [b] if w[1] == 'parts' else [])
    if one is not None:
        h = hdrs(e, one)
        e.same('subject of the first message', e.I.dget(h, st('Subject')), S(c))
        e.same('addressee of the first message', e.I.dget(h, st('To')) is MISSING, True)
        check_parts(e, one, [a] if w[0] == 'parts' else [])


# ------------------------------------------------------------------------------------------------ C34
def snap(v):
    """structural copy of an abstract value (objects by identity of their class and attributes)"""
    t = type(v)
    if t is AList:
        return AList([snap(x) for x in v.items])
    if t is AArray:
        return AArray(v.tc if hasattr(v, 'tc') else 'B', list(v.items))
    if t is ADict:
        d = ADict()
        d.d = {k: (a, snap(b)) for k, (a, b) in v.d.items()}
        return d
    if t is tuple:
        return tuple(snap(x) for x in v)
    return v


def state(e, m):
    """observable state of a message"""
    out = [('headers', snap(hdrs(e, m)))]
    for i, p in enumerate(e.attr(m, 'pages').items):
        for k in ('image', 'audio', 'text'):
            v = e.attr(p, k)
            out.append(('page %d %s' % (i, k), v))
            if v is not None:
                out.append(('page %d %s headers' % (i, k), snap(hdrs(e, v[0]))))
                out.append(('page %d %s data' % (i, k), e.attr(v[0], 'data')))
        out.append(('page %d duration' % i, e.attr(p, 'duration')))
    ps = e.attr(m, 'data_parts')
    att = ps.items[-1:] if not e.attr(m, 'pages').items else []
    out.append(('number of parts', len(ps.items)))
    for i, p in enumerate(att):
        out.append(('attachment headers', snap(hdrs(e, p))))
        out.append(('attachment data', e.attr(p, 'data')))
    return out


def samestate(e, a, b, what):
    if len(a) != len(b):
        e.bad('state after ' + what, 'the message had %d observable items and has %d now' % (len(a), len(b)))
    for (n, x), (n2, y) in zip(a, b):
        if n != n2:
            e.bad('state after ' + what, 'item %s became %s' % (n, n2))
        if type(x) is tuple and x and type(x[0]) is AObj:
            if type(y) is not tuple or len(x) != len(y) or x[0] is not y[0]:
                e.bad('state after ' + what, '%s was replaced' % n)
            for u, v in zip(x[1:], y[1:]):
                e.same('%s after %s' % (n, what), v, u)
        else:
            e.same('%s after %s' % (n, what), y, x)


def build(e, kind, tag=''):
    m = new(e, 'MMSMessage')
    c = text(e, 4, tag + 'to')
    if kind != 'bare':
        put(e, m, 'To', S(c))
    if kind == 'nodest':
        drop(e, m, 'To')
    if kind == 'x':
        put(e, m, 'X-Mms-Message-Type', st('m-notifyresp-ind'))
        put(e, m, 'X-Mms-Transaction-Id', S(text(e, 3, tag + 'tid')))
        put(e, m, 'X-Mms-Version', st('1.1'))
    if kind == 'defaults':
        drop(e, m, 'MMS-Version')
        drop(e, m, 'Message-Type')
    if kind == 'ctparams':
        put(e, m, 'Content-Type', (st(RELATED), mkdict(e, [(st('Start'), S(text(e, 3, tag + 'start')))])))
    if kind in ('pages', 'both'):
        p, _ = page(e, ('image', 'audio', 'text'), tag + 'p')
        e.m(m, 'add_page', p)
    if kind == 'timed':
        d = mkfile(e, '/in/%spic.jpg' % tag, 2)
        p = new(e, 'MMSMessagePage')
        e.m(p, 'add_image', st('/in/%spic.jpg' % tag), 100, 9000)
        e.m(p, 'add_text', st('hi'), 200, 8000)
        e.m(m, 'add_page', p)
    if kind in ('attached', 'both'):
        p, _ = attachment(e, 'headers', tag + 'x', 3)
        e.m(m, 'add_data_part', p)
    if kind == 'array':
        p, _ = attachment(e, 'array', tag + 'x', 3)
        e.m(m, 'add_data_part', p)
    if kind == 'cid':
        p, _ = attachment(e, 'params', tag + 'x', 3)
        for n, v in (('Content-ID', '<%s>'), ('Content-Location', '%s.png'), ('Content-Disposition', '%s'), ('X-Note', '%s')):
            put(e, p, n, st(v % tag))
        e.m(m, 'add_data_part', p)
    if kind == 'params':
        p, _ = attachment(e, 'params', tag + 'x', 3)
        e.m(m, 'add_data_part', p)
    return m


BK = ['bare', 'dest', 'nodest', 'x', 'defaults', 'ctparams', 'pages', 'timed', 'attached', 'both', 'array', 'params', 'cid']


@scenario('C34', 'repeatable', 'encoding leaves the message as it was, and encoding it again gives the same octets',
          lambda: [(k, w) for k in BK for w in ('encode', 'encoder', 'smil', 'data_parts')])
def r34(e, inst):
    k, w = inst
    m = build(e, k)
    if k == 'array':
        # reading array data turns it into a string once; that is the state to keep
        pass
    before = state(e, m)
    enc = e.ok(e.get('messaging.mms.mms_pdu.MMSEncoder')) if w == 'encoder' else None

    def go():
        if enc is not None:
            return octets_of(e, 'encoding', e.m(enc, 'encode', m))
        return octets_of(e, 'encoding', e.m(m, 'encode'))
    a = go()
    first = list(a.items)
    samestate(e, before, state(e, m), 'encoding')
    if w == 'smil':
        e.m(m, 'smil')
    if w == 'data_parts':
        e.attr(m, 'data_parts')
    b = go()
    e.same('second encoding', AList(list(b.items)), first)
    e.same('first result afterwards', AList(list(a.items)), first)
    c = go()
    e.same('third encoding', AList(list(c.items)), first)
    samestate(e, before, state(e, m), 'encoding three times')


@scenario('C34', 'independent', 'encoding one message in between another changes neither, with one encoder or two',
          lambda: [(a, b, w) for a in ('dest', 'pages', 'attached', 'nodest') for b in BK for w in ('own', 'shared')],
          lambda: [(a, b, w) for a in BK for b in BK for w in ('own', 'shared')])
def i34(e, inst):
    a, b, w = inst
    m, n = build(e, a, 'm'), build(e, b, 'n')
    E = e.get('messaging.mms.mms_pdu.MMSEncoder')
    enc = e.ok(E)

    def go(x):
        return AList(list(octets_of(e, 'encoding', e.m(enc if w == 'shared' else e.ok(E), 'encode', x)).items))
    sm, sn = state(e, m), state(e, n)
    x = go(m)
    y = go(n)
    e.same('first message again', go(m), x)
    e.same('second message again', go(n), y)
    samestate(e, sm, state(e, m), 'encoding both')
    samestate(e, sn, state(e, n), 'encoding both')


@scenario('C34', 'settings-between', 'after a change of a header or an added part the encoding is that of a new message so set up', lambda: ['header', 'part', 'page', 'remove'])
def s34(e, w):
    m = build(e, 'dest')
    e.m(m, 'encode')
    n = new(e, 'MMSMessage')
    put(e, n, 'To', e.I.dget(hdrs(e, m), st('To')))
    if w == 'header':
        c = S(text(e, 3, 'tid'))
        for x in (m, n):
            put(e, x, 'Transaction-Id', c)
    elif w == 'remove':
        for x in (m, n):
            drop(e, x, 'To')
    elif w == 'part':
        p, _ = attachment(e, 'data', 'x', 2)
        for x in (m, n):
            e.m(x, 'add_data_part', p)
    else:
        p, _ = page(e, ('text',), 'p')
        for x in (m, n):
            e.m(x, 'add_page', p)
    e.same('encoding after the change', AList(list(e.m(m, 'encode').items)), list(e.m(n, 'encode').items))


# ------------------------------------------------------------------------------------------------ C35
class XmlError(Exception):
    pass


ENT = {'amp': 38, 'lt': 60, 'gt': 62, 'quot': 34, 'apos': 39}


def c_can(c, x):
    lo, hi = D.rng(c)
    if not lo <= x <= hi:
        return False
    r = D.compare('==', c, x)
    return r is not False


def parse_xml(items):
    """abstract text -> (tag, {attr: items}, [children]); symbolic characters may occur in attribute values only"""
    pos = 0
    n = len(items)

    def at(i):
        return items[i] if i < n else None

    def ws(i):
        while type(at(i)) is int and at(i) in (32, 9, 10, 13):
            i += 1
        return i

    def lit(i, t):
        if i + len(t) > n or [x if type(x) is int else None for x in items[i:i + len(t)]] != [ord(c) for c in t]:
            raise XmlError('expected %r at %d, found %r' % (t, i, ''.join(chr(x) if type(x) is int else '?' for x in items[i:i + 30])))
        return i + len(t)

    def name(i):
        j = i
        while type(at(j)) is int and (chr(at(j)).isalnum() or at(j) in (45, 95, 58, 46)):
            j += 1
        if i == j:
            raise XmlError('name expected at %d' % i)
        return ''.join(map(chr, items[i:j])), j

    def elem(i):
        i = lit(i, '<')
        tag, i = name(i)
        attrs = {}
        while True:
            i = ws(i)
            if at(i) == 47:
                return (tag, attrs, []), lit(i, '/>')
            if at(i) == 62:
                i += 1
                break
            k, i = name(i)
            i = lit(ws(i), '=')
            i = ws(i)
            q = at(i)
            if q not in (34, 39):
                raise XmlError('quote expected')
            i += 1
            v = []
            while True:
                c = at(i)
                if c is None:
                    raise XmlError('attribute value does not end')
                if type(c) is int and c == q:
                    break
                if type(c) is AInt and any(c_can(c, x) for x in (q, 60, 38)):
                    raise XmlError('a character of attribute %s may be markup' % k)
                if c == 60:
                    raise XmlError('< in the value of attribute %s' % k)
                if c == 38:
                    j = i + 1
                    e_ = ''
                    while type(at(j)) is int and at(j) != 59 and j - i < 10:
                        e_ += chr(at(j))
                        j += 1
                    if at(j) != 59 or e_ not in ENT:
                        raise XmlError('bare & in the value of attribute %s' % k)
                    v.append(ENT[e_])
                    i = j + 1
                    continue
                v.append(c)
                i += 1
            i += 1
            if k in attrs:
                raise XmlError('attribute %s twice' % k)
            attrs[k] = v
        kids = []
        while True:
            i = ws(i)
            if at(i) == 60 and at(i + 1) == 47:
                i = lit(i, '</')
                t, i = name(i)
                if t != tag:
                    raise XmlError('</%s> closes <%s>' % (t, tag))
                return (tag, attrs, kids), lit(ws(i), '>')
            if at(i) == 60:
                k, i = elem(i)
                kids.append(k)
            else:
                raise XmlError('text outside attributes at %d: %r' % (i, items[i:i + 20]))
    i = ws(0)
    if n - i > 5 and items[i:i + 5] == chars('<?xml'):
        while at(i) != 62:
            i += 1
        i = ws(i + 1)
    r, i = elem(i)
    if ws(i) != n:
        raise XmlError('text after the document')
    return r


def smil(e, m):
    t = e.m(m, 'smil')
    e.isstr('smil', t)
    try:
        return parse_xml(list(t.items))
    except XmlError as x:
        e.bad('well-formed SMIL', str(x))


def attr_is(e, label, node, name, want):
    if want is None:
        if name in node[1]:
            e.bad(label, '<%s> has a %s attribute: %r' % (node[0], name, S(node[1][name])))
        return
    if name not in node[1]:
        e.bad(label, '<%s> has no %s attribute' % (node[0], name))
    e.same(label, S(node[1][name]), want if type(want) is S else st(want))


def dec(v):
    """decimal text of an abstract non-negative number of known digit count, or a constant"""
    if type(v) is int:
        return st(str(v))
    lo, hi = D.rng(v)
    assert len(str(lo)) == len(str(hi)) and lo >= 0, v
    k = len(str(lo))
    return S([D.add(D.mod(D.floordiv(v, 10 ** i), 10), 48) for i in range(k - 1, -1, -1)])


def check_head(e, root, metas, w, h):
    if root[0] != 'smil':
        e.bad('document', 'the document element is <%s>' % root[0])
    if [k[0] for k in root[2]] != ['head', 'body']:
        e.bad('document', 'the document has %s' % [k[0] for k in root[2]])
    head = root[2][0]
    ms = [k for k in head[2] if k[0] == 'meta']
    ls = [k for k in head[2] if k[0] == 'layout']
    if len(ls) != 1 or len(ms) + 1 != len(head[2]):
        e.bad('head', 'the head has %s' % [k[0] for k in head[2]])
    if len(ms) != len(metas):
        e.bad('metas', '%d metas where %d were set' % (len(ms), len(metas)))
    for k, v in metas.items():
        c = [x for x in ms if k in x[1]]
        if len(c) != 1:
            e.bad('metas', 'meta %s occurs %d times' % (k, len(c)))
        e.same('meta ' + k, S(c[0][1][k]), v)
    lay = ls[0][2]
    rl = [k for k in lay if k[0] == 'root-layout']
    rg = [k for k in lay if k[0] == 'region']
    if len(rl) != 1 or len(rl) + len(rg) != len(lay):
        e.bad('layout', 'the layout has %s' % [k[0] for k in lay])
    attr_is(e, 'message width', rl[0], 'width', w)
    attr_is(e, 'message height', rl[0], 'height', h)
    want = {'Image': ('0', '0', '176', '144'), 'Text': ('176', '144', '176', '76')}
    got = {}
    for r in rg:
        if 'id' in r[1] and all(type(x) is int for x in r[1]['id']):
            got[''.join(map(chr, r[1]['id']))] = r
    if len(rg) != 2 or set(got) != set(want):
        e.bad('regions', 'the regions are %s' % sorted(got))
    for k, r in got.items():
        for a, v in zip(('left', 'top', 'width', 'height'), want[k]):
            attr_is(e, 'region ' + k, r, a, v)


def check_par(e, i, par, dur, items):
    """items: {tag: (src, region, begin, end)}"""
    if par[0] != 'par':
        e.bad('page %d' % i, 'the body has <%s>' % par[0])
    attr_is(e, 'duration of page %d' % i, par, 'duration', dur)
    if sorted(k[0] for k in par[2]) != sorted(items):
        e.bad('elements of page %d' % i, 'page has %s where %s are required' % (sorted(k[0] for k in par[2]), sorted(items)))
    for k in par[2]:
        src, region, begin, end = items[k[0]]
        lab = '%s of page %d' % (k[0], i)
        attr_is(e, 'source of ' + lab, k, 'src', src)
        attr_is(e, 'region of ' + lab, k, 'region', region)
        attr_is(e, 'begin of ' + lab, k, 'begin', begin)
        attr_is(e, 'end of ' + lab, k, 'end', end)


REGION = {'image': 'Image', 'text': 'Text', 'audio': None}
TAG = {'image': 'img', 'text': 'text', 'audio': 'audio'}


def add(e, p, kind, tag, begin=0, end=0, kw='pos'):
    if kind == 'text':
        c = text(e, 4, tag + 't', ALNUM, ALNUM)
        args, src = [S(c)], S(c)
    else:
        path = '/in/%s.%s' % (tag + kind, 'jpg' if kind == 'image' else 'amr')
        mkfile(e, path, 2)
        args, src = [st(path)], st(path[4:])
    e.m(p, 'add_' + kind, *(args + [begin, end]))
    return src


@scenario('C35', 'pages', 'one par per page, in order, holding exactly the items of the page',
          lambda: [()] + [(k,) for k in KINDS] + [(a, b) for a in KINDS for b in KINDS] + [(KINDS[1], KINDS[2], KINDS[3]), (KINDS[7], (), KINDS[4])],
          lambda: [()] + [(k,) for k in KINDS] + [(a, b) for a in KINDS for b in KINDS] + [(a, b, c) for a in KINDS for b in KINDS for c in KINDS])
def s35_pages(e, pages):
    m = new(e, 'MMSMessage')
    want = []
    for i, ks in enumerate(pages):
        p = new(e, 'MMSMessagePage')
        it = {}
        for k in ks:
            it[TAG[k]] = (add(e, p, k, 'p%d' % i), REGION[k], None, None)
        dur = '4000'
        if i != 1:
            d = e.atom('duration%d' % i, 1000, 9999)
            e.m(p, 'set_duration', d)
            dur = dec(d)
        e.m(m, 'add_page', p)
        want.append((dur, it))
    r = smil(e, m)
    check_head(e, r, {}, '176', '220')
    b = r[2][1]
    if len(b[2]) != len(want):
        e.bad('body', '%d pages in the body where the message has %d' % (len(b[2]), len(want)))
    for i, (d, it) in enumerate(want):
        check_par(e, i, b[2][i], d, it)


TIMES = {'neg': (-50, -1), '0': 0, '1': 1, 'pos1': (2, 9), 'pos3': (100, 999), 'dur-1': 3999, 'dur': 4000, 'dur+1': 4001, 'past': (4002, 9999), 'past5': (10000, 99999)}


def tval(e, name, c):
    v = TIMES[c]
    return v if type(v) is int else e.atom(name, *v)


def order_ok(b, n):
    """end (class n) is not positive or surely not before begin (class b)"""
    r = lambda c: (TIMES[c], TIMES[c]) if type(TIMES[c]) is int else TIMES[c]
    return r(n)[1] <= 0 or r(b)[1] <= r(n)[0]


@scenario('C35', 'timing', 'begin and end are present iff either is positive; end never exceeds the duration of the page',
          lambda: [(k, b, n) for k in ('image', 'text', 'audio') for b in TIMES for n in TIMES if order_ok(b, n)])
def s35_time(e, inst):
    k, bc, nc = inst
    b, n = tval(e, 'begin', bc), tval(e, 'end', nc)
    m = new(e, 'MMSMessage')
    p = new(e, 'MMSMessagePage')
    src = add(e, p, k, 'x', b, n)
    e.m(m, 'add_page', p)
    pos = lambda c: c not in ('neg', '0')
    wb = wn = None
    if pos(bc) or pos(nc):
        lim = 4000 if nc in ('dur+1', 'past', 'past5') else n
        if bc == 'neg' or nc == 'neg':
            wb, wn = b, lim
        else:
            wb, wn = dec(b), dec(lim)
    r = smil(e, m)
    par = r[2][1][2]
    if len(par) != 1:
        e.bad('body', '%d pages' % len(par))
    el = par[0][2]
    if len(el) != 1 or el[0][0] != TAG[k]:
        e.bad('elements', 'page has %s' % [x[0] for x in el])
    if wb is not None and (bc == 'neg' or nc == 'neg'):
        for a in ('begin', 'end'):
            if a not in el[0][1]:
                e.bad('timing', 'no %s although one of the times is positive' % a)
        if bc != 'neg':
            attr_is(e, 'begin', el[0], 'begin', dec(b))
        if nc != 'neg':
            attr_is(e, 'end', el[0], 'end', dec(lim))
        return
    check_par(e, 0, par[0], '4000', {TAG[k]: (src, REGION[k], wb, wn)})


@scenario('C35', 'duration-limit', 'the limit is the duration of the page itself, also when set after the item was added',
          lambda: [(k, w) for k in ('image', 'text', 'audio') for w in ('before', 'after', 'two pages')])
def s35_dur(e, inst):
    k, w = inst
    d = e.atom('duration', 100, 999)
    m = new(e, 'MMSMessage')
    p = new(e, 'MMSMessagePage')
    if w == 'before':
        e.m(p, 'set_duration', d)
    src = add(e, p, k, 'x', 5, 2000)
    if w != 'before':
        e.m(p, 'set_duration', d)
    e.m(m, 'add_page', p)
    want = [(dec(d), (src, REGION[k], '5', dec(d)))]
    if w == 'two pages':
        p = new(e, 'MMSMessagePage')
        src = add(e, p, k, 'y', 5, 2000)
        e.m(m, 'add_page', p)
        want.append(('4000', (src, REGION[k], '5', '2000')))
    b = smil(e, m)[2][1][2]
    if len(b) != len(want):
        e.bad('body', '%d pages' % len(b))
    for i, (dd, it) in enumerate(want):
        check_par(e, i, b[i], dd, {TAG[k]: it})


@scenario('C35', 'source', 'the source of an image or sound is its content location, else its content id, else its data; of a text, its data',
          lambda: [(k, w) for k in ('image', 'audio') for w in ('location', 'both', 'id', 'data')] + [('text', 'data'), ('text', 'location')])
def s35_src(e, inst):
    k, w = inst
    m = new(e, 'MMSMessage')
    p = new(e, 'MMSMessagePage')
    if k != 'text':
        mkfile(e, '/in/a.jpg', 0)
        d = text(e, 3, 'data', ALNUM, ALNUM)
        e.I.vfs['/in/a.jpg'] = {'data': list(d)}
        e.m(p, 'add_' + k, st('/in/a.jpg'))
    else:
        d = text(e, 3, 'data', ALNUM, ALNUM)
        e.m(p, 'add_text', S(d))
    part = e.attr(p, k)[0]
    loc, cid = text(e, 4, 'loc', ALNUM, ALNUM), text(e, 3, 'id', ALNUM, ALNUM)
    if w in ('location', 'both'):
        put(e, part, 'Content-Location', S(loc))
    else:
        drop(e, part, 'Content-Location')
    if w in ('both', 'id'):
        put(e, part, 'Content-ID', S(cid))
    e.m(m, 'add_page', p)
    src = S(d) if k == 'text' else S({'location': loc, 'both': loc, 'id': cid, 'data': d}[w])
    par = smil(e, m)[2][1][2]
    if len(par) != 1:
        e.bad('body', '%d pages' % len(par))
    check_par(e, 0, par[0], '4000', {TAG[k]: (src, REGION[k], None, None)})


@scenario('C35', 'markup-characters', 'markup characters of a text are escaped, so the SMIL stays well-formed and the text is recovered',
          lambda: ['&', '<', '>', '"', "'", 'a&b<c>d"e', '&amp;', '<text/>', ']]>', 'x="1"'])
def s35_esc(e, t):
    m = new(e, 'MMSMessage')
    p = new(e, 'MMSMessagePage')
    e.m(p, 'add_text', st(t))
    e.m(m, 'add_page', p)
    par = smil(e, m)[2][1][2]
    check_par(e, 0, par[0], '4000', {'text': (st(t), 'Text', None, None)})


@scenario('C35', 'size', 'the layout carries the width and height of the message', lambda: [(3, 2), (3, 4), (1, 3)])
def s35_size(e, inst):
    a, b = inst
    m = new(e, 'MMSMessage')
    w, h = e.atom('width', 10 ** (a - 1), 10 ** a - 1), e.atom('height', 10 ** (b - 1), 10 ** b - 1)
    e.set(m, 'width', w)
    e.set(m, 'height', h)
    check_head(e, smil(e, m), {}, dec(w), dec(h))


@scenario('C35', 'default-duration', 'a page lasts 4 seconds unless set')
def s35_def(e, _):
    e.same('default duration', e.attr(new(e, 'MMSMessagePage'), 'duration'), 4000)


# ------------------------------------------------------------------------------------------------ C36
def full_page(e):
    mkfile(e, '/in/old.jpg', 1, 'old')
    p = new(e, 'MMSMessagePage')
    e.m(p, 'add_image', st('/in/old.jpg'), 1, 2)
    e.m(p, 'add_audio', st('/in/old.jpg'), 3, 4)
    e.m(p, 'add_text', st('old'), 5, 6)
    e.m(p, 'set_duration', 77)
    return p


def page_state(e, p):
    return [(k, e.attr(p, k)) for k in ('image', 'audio', 'text', 'duration')]


def untouched(e, p, before, what):
    for (k, x), (_, y) in zip(before, page_state(e, p)):
        if x is y:
            continue
        if type(x) is tuple and type(y) is tuple and len(x) == len(y) and x[0] is y[0]:
            for u, v in zip(x[1:], y[1:]):
                e.same('%s after %s' % (k, what), v, u)
        elif type(x) in (int, AInt) and type(y) in (int, AInt):
            e.same('%s after %s' % (k, what), y, x)
        else:
            e.bad('page after ' + what, 'the %s was changed by a refused call' % k)


def arg0(e, kind, ok=True):
    if kind == 'text':
        return S(text(e, 3, 'text'))
    mkfile(e, '/in/new.jpg', 2)
    return st('/in/new.jpg')


WRONG = {'none': None, 'int': 5, 'list': AList([1]), 'float': 1.5, 'str': st('5'), 'tuple': (1, 2), 'unicode': us('abc'), 'dict': ADict()}
ADD = ['image', 'audio', 'text']


@scenario('C36', 'wrong-name', 'a name or text that is no str is a TypeError and changes nothing',
          lambda: [(k, w) for k in ADD for w in ('none', 'int', 'list', 'float', 'tuple', 'unicode', 'dict')])
def p36_name(e, inst):
    k, w = inst
    p = e.case('page', ['new', 'used'])
    p = new(e, 'MMSMessagePage') if p == 'new' else full_page(e)
    before = page_state(e, p)
    e.raises('%s of type %s' % (k, w), e.rm(p, 'add_' + k, WRONG[w], *([1, 2] if e.case('times', [0, 1]) else [])), 'TypeError')
    untouched(e, p, before, 'a wrong name')


@scenario('C36', 'wrong-time', 'a time that is no integer is a TypeError and changes nothing',
          lambda: [(k, w, i) for k in ADD for w in ('none', 'list', 'float', 'str', 'tuple', 'unicode', 'dict') for i in (0, 1)])
def p36_time(e, inst):
    k, w, i = inst
    p = e.case('page', ['new', 'used'])
    p = new(e, 'MMSMessagePage') if p == 'new' else full_page(e)
    before = page_state(e, p)
    a = arg0(e, k)
    v = e.atom('other', 0, 10)
    e.raises('%s time of type %s' % (k, w), e.rm(p, 'add_' + k, a, *([WRONG[w], v] if i == 0 else [v, WRONG[w]])), 'TypeError')
    untouched(e, p, before, 'a wrong time')
    e.raises('%s time of type %s' % (k, w), e.rm(p, 'add_' + k, a, **({'time_begin': WRONG[w]} if i == 0 else {'time_end': WRONG[w]})), 'TypeError')
    untouched(e, p, before, 'a wrong time')


@scenario('C36', 'missing-file', 'a name that is no existing file is an OSError and changes nothing', lambda: ['image', 'audio'])
def p36_file(e, k):
    p = e.case('page', ['new', 'used'])
    p = new(e, 'MMSMessagePage') if p == 'new' else full_page(e)
    before = page_state(e, p)
    e.raises('missing file', e.rm(p, 'add_' + k, st('/in/none.jpg')), 'OSError')
    untouched(e, p, before, 'a missing file')


ORDER = [((1, 9), (10, 99)), (5, 5), (0, 1), ((-9, -1), 1), ((1, 99), 0), ((1, 99), (-9, -1)), (0, 0), ((-9, 0), (-9, 0)), (7, (7, 99999)), ((0, 10000), 10000)]
BADORDER = [((10, 99), (1, 9)), (2, 1), (6, (1, 5)), ((8, 100000), 7), (5000, 4999)]


def pair(e, o):
    return [x if type(x) is int else e.atom(n, *x) for n, x in zip(('begin', 'end'), o)]


@scenario('C36', 'end-before-begin', 'a positive end before begin is a ValueError and changes nothing', lambda: [(k, i) for k in ADD for i in range(len(BADORDER))])
def p36_ord(e, inst):
    k, i = inst
    p = e.case('page', ['new', 'used'])
    p = new(e, 'MMSMessagePage') if p == 'new' else full_page(e)
    before = page_state(e, p)
    b, n = pair(e, BADORDER[i])
    e.raises('end before begin', e.rm(p, 'add_' + k, arg0(e, k), b, n), 'ValueError')
    untouched(e, p, before, 'an end before begin')


@scenario('C36', 'accepted', 'accepted times and content are stored unchanged and nothing else changes', lambda: [(k, i) for k in ADD for i in range(len(ORDER))])
def p36_ok(e, inst):
    k, i = inst
    w = e.case('page', ['new', 'used'])
    p = new(e, 'MMSMessagePage') if w == 'new' else full_page(e)
    before = [(a, b) for a, b in page_state(e, p) if a != k]
    b, n = pair(e, ORDER[i])
    a = arg0(e, k)
    if e.case('content', ['some', 'none']) == 'none':
        if k == 'text':
            a = st('')
        else:
            e.I.vfs['/in/new.jpg'] = {'data': []}
    how = e.case('call', ['positional', 'keywords'])
    if how == 'positional':
        e.m(p, 'add_' + k, a, b, n)
    else:
        e.m(p, 'add_' + k, a, time_end=n, time_begin=b)
    v = e.attr(p, k)
    if type(v) is not tuple or len(v) != 3:
        e.bad('stored', 'the %s of the page is %r' % (k, v))
    e.same('begin', v[1], b)
    e.same('end', v[2], n)
    e.same('content', e.attr(v[0], 'data'), S(list(e.I.vfs['/in/new.jpg']['data'])) if k != 'text' else a)
    after = [(x, y) for x, y in page_state(e, p) if x != k]
    for (x, u), (_, v) in zip(before, after):
        if u is not v and not (type(u) is tuple and type(v) is tuple and len(u) == len(v) and all(x is y for x, y in zip(u, v))):
            if type(u) is int:
                e.same(x, v, u)
            else:
                e.bad('other items', 'adding a %s changed the %s' % (k, x))


@scenario('C36', 'default-times', 'times default to 0', lambda: ADD)
def p36_def(e, k):
    p = new(e, 'MMSMessagePage')
    e.m(p, 'add_' + k, arg0(e, k))
    v = e.attr(p, k)
    e.same('begin', v[1], 0)
    e.same('end', v[2], 0)


@scenario('C36', 'duration', 'a duration must be a positive int; anything else is refused and the old one stays',
          lambda: ['ok', 'one', 'zero', 'negative', 'none', 'list', 'float', 'str', 'tuple', 'unicode'])
def p36_dur(e, k):
    p = full_page(e)
    before = page_state(e, p)
    if k in ('ok', 'one'):
        d = 1 if k == 'one' else e.atom('duration', 1, 10 ** 7)
        e.m(p, 'set_duration', d)
        e.same('duration', e.attr(p, 'duration'), d)
        return
    if k in ('zero', 'negative'):
        e.raises('duration %s' % k, e.rm(p, 'set_duration', 0 if k == 'zero' else e.atom('duration', -10 ** 6, -1)), 'ValueError')
    else:
        e.raises('duration %s' % k, e.rm(p, 'set_duration', WRONG[k]), 'TypeError')
    untouched(e, p, before, 'a refused duration')


# ------------------------------------------------------------------------------------------------ C37
OPS = ['file', 'file2', 'again', 'data', 'empty', 'array', 'params', 'text', 'type', 'read', 'header', 'ctpars']


@scenario('C37', 'sequences', 'after any sequence of settings and reads the part has exactly the latest content, type and length',
          lambda: [s for n in (0, 1, 2, 3, 4) for s in itertools.product(OPS, repeat=n)],
          lambda: [s for n in (0, 1, 2, 3, 4, 5) for s in itertools.product(OPS, repeat=n)])
def q37(e, ops):
    p = new(e, 'DataPart')
    want = {'headers': {'Content-Type': ('application/octet-stream', {})}, 'data': []}
    for i, op in enumerate(ops):
        if op in ('file', 'file2', 'again'):
            # 'again': one name whose contents change in between
            path = {'file': '/in/a%d.jpg' % i, 'file2': '/in/sub/b%d' % i, 'again': '/in/same.jpg'}[op]
            d = mkfile(e, path, 2 + i, 'f%d' % i)
            e.m(p, 'from_file', st(path))
            want = {'headers': {'Content-Location': st(path.rpartition('/')[2]),
                                'Content-Type': ('application/octet-stream' if op == 'file2' else 'image/jpeg', {})}, 'data': d}
        elif op in ('data', 'array', 'params'):
            d = [e.atom('d%d_%d' % (i, j), OCT) for j in range(1 + i)]
            v = AArray('B', list(d)) if op == 'array' else S(d)
            if op == 'params':
                c = S(text(e, 2, 'n%d' % i))
                e.m(p, 'set_data', v, st('x/t%d' % i), mkdict(e, [(st('Name'), c)]))
                want = {'headers': {'Content-Type': ('x/t%d' % i, {'Name': c})}, 'data': d}
            else:
                e.m(p, 'set_data', v, st('x/t%d' % i))
                want = {'headers': {'Content-Type': ('x/t%d' % i, {})}, 'data': d}
        elif op == 'empty':
            e.m(p, 'set_data', st(''), st('x/e%d' % i))
            want = {'headers': {'Content-Type': ('x/e%d' % i, {})}, 'data': []}
        elif op == 'text':
            d = bytestext(e, i + 2, 't%d_' % i)
            e.m(p, 'set_text', S(d))
            want = {'headers': {'Content-Type': ('text/plain', {})}, 'data': d}
        elif op == 'type':
            e.set(p, 'content_type', st('y/%d' % i))
            want['headers']['Content-Type'] = ('y/%d' % i, {})
        elif op == 'ctpars':
            # as the decoder leaves it
            e.set(p, 'content_type_parameters', mkdict(e, [(st('Old'), st('o%d' % i))]))
        elif op == 'read':
            e.same('data read', e.attr(p, 'data'), S(want['data']))
        else:
            put(e, p, 'X-Note', st('n%d' % i))
            want['headers']['X-Note'] = st('n%d' % i)
    order = e.case('read', ['length first', 'data first'])
    L = e.ok(e.I.builtins['len'], p) if hasattr(e.I, 'builtins') and 'len' in e.I.builtins else e.m(p, '__len__')
    e.same('length', L, len(want['data']))
    data = e.attr(p, 'data')
    e.isstr('data', data)
    e.same('data', data, S(want['data']))
    e.same('length after reading', e.m(p, '__len__'), len(want['data']))
    ct, pars = want['headers']['Content-Type']
    e.same('content type', e.attr(p, 'content_type'), st(ct))
    w = {k: v for k, v in want['headers'].items() if k != 'Content-Type'}
    e.same('headers', hdrs(e, p), mkdict(e, [(st(k), v) for k, v in w.items()] + [(st('Content-Type'), (st(ct), mkdict(e, [(st(k), v) for k, v in pars.items()])))]))


@scenario('C37', 'file-type', 'a file gives its bytes, base name and guessed type', lambda: sorted(EXT))
def q37_ext(e, f):
    d = mkfile(e, '/some/dir/' + f, 5)
    how = e.case('loaded by', ['constructor', 'from_file'])
    if how == 'constructor':
        p = new(e, 'DataPart', st('/some/dir/' + f))
    else:
        p = new(e, 'DataPart')
        e.m(p, 'from_file', st('/some/dir/' + f))
    import mimetypes
    t = mimetypes.MimeTypes(filenames=(), strict=True).guess_type('/some/dir/' + f)[0] or 'application/octet-stream'
    e.same('headers', hdrs(e, p), {'Content-Location': st(f), 'Content-Type': (st(t), {})})
    e.same('data', e.attr(p, 'data'), S(d))
    e.same('length', e.m(p, '__len__'), 5)


@scenario('C37', 'independent', 'two parts never share headers, parameters or data')
def q37_two(e, _):
    a, b = new(e, 'DataPart'), new(e, 'DataPart')
    put(e, a, 'X-Note', st('a'))
    e.same('headers of the other part', hdrs(e, b), {'Content-Type': (st('application/octet-stream'), {})})
    e.m(a, 'set_data', st('one'), st('x/y'))
    e.m(b, 'set_data', st('two'), st('x/z'))
    e.I.setitem(e.item(hdrs(e, a), st('Content-Type'))[1], st('Name'), st('n'))
    e.same('parameters of the other part', hdrs(e, b), {'Content-Type': (st('x/z'), {})})
    c = new(e, 'DataPart')
    e.m(c, 'set_data', st('3'), st('x/z'))
    e.same('parameters of a later part', hdrs(e, c), {'Content-Type': (st('x/z'), {})})
    e.same('data', e.attr(a, 'data'), st('one'))


# ------------------------------------------------------------------------------------------------ C38
def closed(e):
    for f in e.I.open_files:
        if not f.host['closed']:
            e.bad('file left open', 'the file opened at %s is not closed when the call ends' % f.host['opened_at'], where=[f.host['opened_at']])


def modes(e):
    for ev in e.I.fslog:
        if ev[0] == 'open' and 'b' not in ev[2]:
            e.bad('binary mode', 'file opened in mode %r at %s' % (ev[2], ev[3]), where=[ev[3]])


def message_octets(e, n):
    part = dpart(e, 0, 'headers', n)
    return [0x8c, 0x84, 0x84, 0xa3, 1] + part[0], part


# a little over the usual buffer and field sizes
BIG = [257, 1025, 4097, 16385, 65537, 131073]
READERS = ['MMSMessage.from_file', 'MMSDecoder.decode_file', 'DataPart.data', 'DataPart.len', 'page image', 'page audio', 'encode']


@scenario('C38', 'reading', 'the whole file is read in binary mode and closed, whichever operation fails',
          lambda: [(r, f) for r in READERS for f in (0, 1)] + [(r, 0, n) for r in READERS for n in BIG],
          lambda: [(r, f) for r in READERS for f in (0, 1)] + [(r, 0, n) for r in READERS for n in BIG + [300000]])
def f38_read(e, inst):
    r, faults = inst[:2]
    n = e.case('length', [0, 1, 5, 140]) if len(inst) == 2 else inst[2]
    I = e.I
    I.maxiter = max(I.maxiter, 2 * n)
    if r.startswith('MMS'):
        octets, part = message_octets(e, n)
        I.vfs['/in/m.mms'] = {'data': list(octets)}
        if r == 'MMSMessage.from_file':
            f, a = lambda: e.rm(cls(e, 'MMSMessage'), 'from_file', st('/in/m.mms')), None
        else:
            d = e.ok(dec_cls(e, True))
            f = lambda: e.rm(d, 'decode_file', st('/in/m.mms'))
    else:
        d = mkfile(e, '/in/x.jpg', n)
        if r.startswith('DataPart'):
            p = new(e, 'DataPart', st('/in/x.jpg'))
            f = (lambda: e.rattr(p, 'data')) if r == 'DataPart.data' else (lambda: e.rm(p, '__len__'))
        elif r.startswith('page'):
            g = new(e, 'MMSMessagePage')
            e.m(g, 'add_' + r[5:], st('/in/x.jpg'))
            f = lambda: e.rattr(e.attr(g, r[5:])[0], 'data')
        else:
            m = new(e, 'MMSMessage')
            p = new(e, 'DataPart', st('/in/x.jpg'))
            e.m(m, 'add_data_part', p)
            f = lambda: e.rm(m, 'encode')
    I.faults = faults
    out = f()
    failed = I.faults < faults
    I.faults = 0
    closed(e)
    modes(e)
    if failed and r != 'encode':
        e.raises('failed read', out, 'IOError', 'OSError', 'EOFError')
        return
    if not out.ok:
        if failed:
            return
        e.bad('reading', '%s' % out, where=out.where)
    if r.startswith('MMS'):
        check_parts(e, out.v, [part])
    elif r == 'DataPart.len':
        e.same('length', out.v, n)
    elif r != 'encode':
        e.same('file content', out.v, S(d))
    e.same('file on disk', AList(list(I.vfs['/in/m.mms' if r.startswith('MMS') else '/in/x.jpg']['data'])), list(octets if r.startswith('MMS') else d))


@scenario('C38', 'writing', 'exactly the encoded octets are written, in binary mode, and the file is closed, whichever operation fails',
          lambda: [(k, old, f) for k in ('dest', 'attached', 'pages', 'params') for old in (0, 1) for f in (0, 1)])
def f38_write(e, inst):
    k, old, faults = inst
    I = e.I
    m = build(e, k)
    enc = e.m(m, 'encode')
    want = list(octets_of(e, 'encoding', enc).items)
    if old:
        I.vfs['/out/m.mms'] = {'data': chars('old content')}
    I.open_files = []
    I.fslog = []
    I.faults = faults
    out = e.rm(m, 'to_file', st('/out/m.mms'))
    failed = I.faults < faults
    I.faults = 0
    closed(e)
    modes(e)
    if failed:
        return
    if not out.ok:
        e.bad('writing', '%s' % out, where=out.where)
    if '/out/m.mms' not in I.vfs:
        e.bad('writing', 'no file was written')
    e.same('file content', AList(list(I.vfs['/out/m.mms']['data'])), want)
    for pth in I.vfs:
        if pth.startswith('/out/') and pth != '/out/m.mms':
            e.bad('other files', 'the file %s was left behind' % pth)


@scenario('C38', 'failed-encoding', 'when encoding fails the error is reported and the target file is as it was',
          lambda: [(w, old) for w in ('bad header', 'missing file', 'bad version', 'bad part header', 'bad content type', 'unreadable') for old in (0, 1)])
def f38_fail(e, inst):
    w, old = inst
    I = e.I
    m = build(e, 'attached')
    if w == 'bad header':
        put(e, m, 'Priority', st('Urgent'))
    elif w == 'bad version':
        put(e, m, 'MMS-Version', None)
    elif w == 'bad part header':
        p = new(e, 'DataPart')
        e.m(p, 'set_data', st('abc'), st('x/y'))
        put(e, p, 'Content-Location', None)
        e.m(m, 'add_data_part', p)
    elif w == 'bad content type':
        put(e, m, 'Content-Type', None)
    else:
        mkfile(e, '/in/gone.jpg', 2)
        p = new(e, 'DataPart', st('/in/gone.jpg'))
        e.m(m, 'add_data_part', p)
        if w == 'missing file':
            del I.vfs['/in/gone.jpg']
    if old:
        I.vfs['/out/m.mms'] = {'data': chars('old content')}
    I.open_files = []
    if w == 'unreadable':
        I.faults = 1
    out = e.rm(m, 'to_file', st('/out/m.mms'))
    if w == 'unreadable':
        bad = [ev for ev in I.fslog if ev[0] == 'fault']
        if not bad or bad[0][1] != '/in/gone.jpg':
            # nothing failed, or the target itself did
            closed(e)
            return
    I.faults = 0
    if out.ok:
        e.bad('failed encoding', 'to_file succeeded although the message cannot be encoded')
    closed(e)
    if old:
        if '/out/m.mms' not in I.vfs:
            e.bad('failed encoding', 'the existing file was removed')
        e.same('existing file after a failed encoding', AList(list(I.vfs['/out/m.mms']['data'])), chars('old content'))
    elif '/out/m.mms' in I.vfs:
        e.bad('failed encoding', 'a file of %d octets was created' % len(I.vfs['/out/m.mms']['data']))


@scenario('C38', 'missing-file', 'loading from a file that does not exist fails with the error of the system and opens nothing',
          lambda: ['MMSMessage.from_file', 'MMSDecoder.decode_file', 'DataPart', 'DataPart.from_file'])
def f38_missing(e, r):
    if r == 'MMSMessage.from_file':
        out = e.rm(cls(e, 'MMSMessage'), 'from_file', st('/in/none'))
    elif r == 'MMSDecoder.decode_file':
        out = e.rm(e.ok(dec_cls(e, True)), 'decode_file', st('/in/none'))
    elif r == 'DataPart':
        out = e.run(cls(e, 'DataPart'), st('/in/none'))
    else:
        out = e.rm(new(e, 'DataPart'), 'from_file', st('/in/none'))
    e.raises('missing file', out, 'OSError', 'IOError')
    closed(e)


# ------------------------------------------------------------------------------------------------ C39
def wap(e, name):
    return e.get('messaging.sms.wap.' + name)


@scenario('C39', 'recognised', 'a byte string is a WAP push iff its second octet is 6', lambda: list(range(0, 6)) + [40])
def w39_is(e, n):
    o = [e.atom('octet%d' % i, OCT) for i in range(n)]
    if n > 1:
        k = e.case('second octet', ['6', 'other'])
        o[1] = 6 if k == '6' else e.atom('second', OCT - D.RSet.of(6, 6))
    r = e.ok(wap(e, 'is_a_wap_push_notification'), S(o))
    e.cond('recognised', r if n > 1 and k == '6' else D.cnot(r) if not isinstance(r, bool) else not r, 'is_a_wap_push_notification returned %r for %r' % (r, o[:2]))


@scenario('C39', 'wrong-type', 'anything but a str is a TypeError', lambda: ['none', 'int', 'list', 'float', 'tuple', 'dict', 'unicode', 'array'])
def w39_type(e, w):
    v = AArray('B', [1, 6, 0]) if w == 'array' else WRONG[w]
    e.raises('type', e.run(wap(e, 'is_a_wap_push_notification'), v), 'TypeError')


PUSHL = [0, 1, 3, 34, 126, 127, 128, 129, 255, 256, 300]


@scenario('C39', 'extraction', 'the octets after the three fixed ones and the header decode as they would on their own',
          lambda: [(n, p) for n in PUSHL for p in ('notification', 'message')],
          lambda: [(n, p) for n in list(range(0, 300)) + [1000, 16383, 16384] for p in ('notification', 'message')])
def w39_ext(e, inst):
    n, k = inst
    hd = [e.atom('h%d' % i, OCT) for i in range(min(n, 20))] + [0x84, 0x8c, 3][:max(0, n - 20)] + [65] * max(0, n - 23)
    t = e.atom('transaction', OCT)
    frm, loc = text(e, 4, 'from'), text(e, 6, 'loc')
    tid = text(e, 3, 'tid')
    if k == 'notification':
        hs = [('Message-Type', [0x8c, 0x82], st('m-notification-ind')), ('Transaction-Id', [0x98] + tid + [0], S(tid)), ('MMS-Version', [0x8d, 0x90], st('1.0')),
              ('From', [0x89, 6, 0x80] + frm + [0], S(frm)), ('Content-Location', [0x83] + loc + [0], S(loc))]
        body, parts, ct = [], [], None
    else:
        hs = [('Message-Type', [0x8c, 0x84], st('m-retrieve-conf')), ('From', [0x89, 6, 0x80] + frm + [0], S(frm))]
        parts = [dpart(e, 0, 'headers', 3)]
        body, ct = [0x84, 0xa3, 1] + parts[0][0], (st(MIXED), {})
    push = [t, 6] + O.uintvar(n) + hd + [x for h in hs for x in h[1]] + body
    m = e.ok(wap(e, 'extract_push_notification'), S(push))
    check_headers(e, m, hs, ct)
    check_parts(e, m, parts)
    r = e.ok(wap(e, 'is_mms_notification'), m)
    e.cond('notification', r if k == 'notification' else D.cnot(r) if not isinstance(r, bool) else not r, 'is_mms_notification returned %r' % (r,))


@scenario('C39', 'mms-notification', 'an MMS notification carries both From and Content-Location', lambda: [(f, c) for f in (None, 0, 1, 3) for c in (None, 0, 1, 3)])
def w39_not(e, inst):
    f, c = inst
    m = new(e, 'MMSMessage')
    other = e.case('other headers', ['none', 'some', 'content type'])
    if other == 'some':
        for h in ('from', 'To', 'X-From', 'Subject'):
            put(e, m, h, st('x'))
        drop(e, m, 'Message-Type')
    elif other == 'content type':
        put(e, m, 'Content-Type', (st('x/y'), ADict()))
    if f is not None:
        put(e, m, 'From', S(text(e, f, 'from')))
    if c is not None:
        put(e, m, 'Content-Location', S(text(e, c, 'loc')))
    f, c = f is not None, c is not None
    r = e.ok(wap(e, 'is_mms_notification'), m)
    e.same('notification', r, bool(f and c))


# ------------------------------------------------------------------------------------------------ C44
@scenario('C44', 'page-parts', 'the parts of a page are its image, audio and text, in that order', lambda: [p for n in range(4) for p in itertools.permutations(('image', 'audio', 'text'), n)])
def l44_page(e, ks):
    p, _ = page(e, ks, 'p')
    e.same('number of parts', e.m(p, 'number_of_parts'), len(ks))
    got = e.attr(p, 'data_parts')
    want = [e.attr(p, k)[0] for k in ('image', 'audio', 'text') if k in ks]
    ident(e, 'parts of the page', got, want)
    # replacing an item does not add one
    if ks:
        old = e.attr(p, ks[0])
        if ks[0] == 'text':
            e.m(p, 'add_text', st('again'))
        else:
            mkfile(e, '/in/again.jpg', 1)
            e.m(p, 'add_' + ks[0], st('/in/again.jpg'))
        e.same('number of parts', e.m(p, 'number_of_parts'), len(ks))
        ident(e, 'parts of the page', e.attr(p, 'data_parts'), [e.attr(p, k)[0] for k in ('image', 'audio', 'text') if k in ks])
        if e.attr(p, ks[0])[0] is old[0]:
            e.bad('replaced item', 'the old part is still there')


def ident(e, label, got, want):
    if type(got) is not AList:
        e.bad(label, 'not a list: %r' % (got,))
    if len(got.items) != len(want):
        e.bad(label, '%d listed where there are %d' % (len(got.items), len(want)))
    for i, (a, b) in enumerate(zip(got.items, want)):
        if a is not b:
            e.bad(label, 'item %d is another object' % i)
        e.obl += 1


@scenario('C44', 'message-parts', 'the parts of a message are SMIL, page parts in page order, then attached parts in order of addition',
          lambda: [(p, a) for p in [()] + [(k,) for k in KINDS] + [(KINDS[3], KINDS[7]), (KINDS[4], (), KINDS[2]), (KINDS[7], KINDS[6], KINDS[5], KINDS[1])] for a in (0, 1, 2, 3)],
          lambda: [(p, a) for n in (0, 1, 2) for p in itertools.product(KINDS, repeat=n) for a in (0, 1, 2, 3)])
def l44_msg(e, inst):
    pages, natt = inst
    m = new(e, 'MMSMessage')
    want, pobj = [], []
    atts = []
    for i in range(max(len(pages), natt)):
        # pages and attachments are added alternately
        if i < natt:
            a, _ = attachment(e, 'data', 'x%d' % i, 2)
            e.m(m, 'add_data_part', a)
            atts.append(a)
        if i < len(pages):
            p, _ = page(e, pages[i], 'p%d' % i)
            e.m(m, 'add_page', p)
            pobj.append(p)
            want += [e.attr(p, k)[0] for k in ('image', 'audio', 'text') if k in pages[i]]
    want += atts
    ident(e, 'pages', e.attr(m, 'pages'), pobj)
    got = e.attr(m, 'data_parts')
    if pages:
        if type(got) is not AList or not got.items:
            e.bad('parts', 'data_parts is %r' % (got,))
        sm = got.items[0]
        e.same('type of the first part', e.attr(sm, 'content_type'), st('application/smil'))
        e.same('SMIL part', e.attr(sm, 'data'), e.m(m, 'smil'))
        got = AList(list(got.items[1:]))
    ident(e, 'parts', got, want)
    e.same('content type', e.attr(m, 'content_type'), st(RELATED if pages else MIXED))
    # asking again lists them again
    again = e.attr(m, 'data_parts')
    if len(again.items) != len(want) + (1 if pages else 0):
        e.bad('listed twice', '%d parts listed the second time' % len(again.items))
    ident(e, 'pages', e.attr(m, 'pages'), pobj)


@scenario('C44', 'equal-items', 'a page or part that equals another, or is the same object, is listed as often as it was added',
          lambda: [(w, n) for w in ('page', 'empty page', 'equal page', 'part', 'equal part', 'alternating parts') for n in (2, 3)])
def l44_equal(e, inst):
    w, n = inst
    m = new(e, 'MMSMessage')
    objs = []
    for i in range(n):
        if w == 'part' and i or w == 'alternating parts' and i > 1:
            objs.append(objs[0])
        elif w in ('part', 'equal part', 'alternating parts'):
            o = new(e, 'DataPart')
            e.m(o, 'set_data', st('same'), st('x/y'))
            objs.append(o)
        elif w in ('page', 'empty page') and i:
            objs.append(objs[0])
        else:
            o = new(e, 'MMSMessagePage')
            if w != 'empty page':
                e.m(o, 'add_text', st('same'))
            objs.append(o)
        e.m(m, 'add_page' if w.endswith('page') else 'add_data_part', objs[-1])
    got = e.attr(m, 'data_parts')
    if type(got) is not AList:
        e.bad('parts', 'data_parts is %r' % (got,))
    if w.endswith('page'):
        ident(e, 'pages', e.attr(m, 'pages'), objs)
        ident(e, 'parts', AList(list(got.items[1:])), [e.attr(o, 'text')[0] for o in objs if w != 'empty page'])
    else:
        ident(e, 'parts', got, objs)


@scenario('C44', 'many', 'the same for many pages and parts', lambda: [(3, 0), (5, 3), (12, 1), (40, 40), (0, 130), (130, 0), (0, 300), (300, 0)])
def l44_many(e, inst):
    np, na = inst
    m = new(e, 'MMSMessage')
    pobj, want, atts = [], [], []
    for i in range(max(np, na)):
        if i < np:
            p = new(e, 'MMSMessagePage')
            if i % 3 != 1:
                e.m(p, 'add_text', st('t%d' % i))
                want.append(e.attr(p, 'text')[0])
            pobj.append(p)
            e.m(m, 'add_page', p)
        if i < na:
            o = new(e, 'DataPart')
            e.m(o, 'set_data', st('d%d' % i), st('x/y'))
            atts.append(o)
            e.m(m, 'add_data_part', o)
    ident(e, 'pages', e.attr(m, 'pages'), pobj)
    got = e.attr(m, 'data_parts')
    if type(got) is not AList:
        e.bad('parts', 'data_parts is %r' % (got,))
    ident(e, 'parts', AList(list(got.items[1 if np else 0:])), want + atts)


@scenario('C44', 'content-type', 'adding a page makes the content type multipart/related, keeping the parameters of one that already is', lambda: ['mixed', 'related', 'other'])
def l44_ct(e, k):
    m = new(e, 'MMSMessage')
    c = S(text(e, 3, 'start'))
    if k == 'related':
        put(e, m, 'Content-Type', (st(RELATED), mkdict(e, [(st('Start'), c)])))
    elif k == 'other':
        put(e, m, 'Content-Type', (st('x/y'), mkdict(e, [(st('Start'), c)])))
    e.m(m, 'add_page', new(e, 'MMSMessagePage'))
    e.same('content type', e.attr(m, 'content_type'), st(RELATED))
    if k == 'related':
        e.same('parameters', e.item(hdrs(e, m), st('Content-Type'))[1], mkdict(e, [(st('Start'), c)]))
