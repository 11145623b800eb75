"""C40: no operation changes the outcome of a later one, arguments stay as they were, results belong to the caller."""
import itertools

from pyai import dom as D
from pyai.harness import scenario, new_world, Found, R
from pyai.values import S, st, us, AList, AArray, AInt, ADict, AObj, AClass, AFunc, ATimedelta, ADatetime, AEpoch, Seg, ARaise
from . import oracle as O
from . import deliver as DL
from . import message as M
from . import submit as SU
from .mms import text, mkdict, tok
from .wsp import OCT, ASCII, stream, dec_cls, enc_cls, func, CONTENT_TYPES

DAY = SU.DAY


# ------------------------------------------------------------------------------------------------ machinery
def memo(e):
    """atoms by name: an operation done twice with one tag has the same inputs"""
    if hasattr(e, 'memo'):
        return
    e.memo = {}
    real = e.atom

    def atom(name, lo, hi=None):
        if name not in e.memo:
            e.memo[name] = real(name, lo, hi)
        return e.memo[name]
    e.atom = atom


def fresh(e):
    """the package as right after import, on the same trace"""
    C = D.ctx()
    new_world(e.I)
    D.set_ctx(C)
    e.I.vfs, e.I.fslog, e.I.open_files, e.I.faults = {}, [], [], 0


class O_:
    """snapshot of an object"""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return '<%s %s>' % (self.cls, sorted(self.attrs))


class D_:
    """snapshot of a dictionary"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __repr__(self):
        return 'dict%r' % ([p[0] for p in self.pairs],)


def snap(v, seen=None):
    """structural copy: containers, tuples and the public attributes of objects"""
    seen = seen or {}
    t = type(v)
    if t is AList:
        return AList([snap(x, seen) for x in v.items])
    if t is AArray:
        return AArray('B', list(v.items))
    if t is ADict:
        return D_([(k, snap(x, seen)) for k, x in v.d.values()])
    if t in (tuple, list):
        return tuple(snap(x, seen) for x in v)
    if t is AObj:
        if id(v) in seen:
            return 'cycle'
        seen = dict(seen)
        seen[id(v)] = 1
        return O_(v.cls.name, {k: snap(x, seen) for k, x in v.attrs.items() if not k.startswith('_')})
    if t is R:
        if v.ok:
            return snap(v.v)
        return ('raised', v.exc.cls.name)
    if t is AClass:
        return 'class ' + v.name
    if t is AFunc:
        return 'function'
    return v


def eq(e, label, got, want):
    t = type(want)
    if t is O_:
        if type(got) is not O_ or got.cls != want.cls:
            e.bad(label, 'got %r, %r without the earlier call' % (got, want))
        if set(got.attrs) != set(want.attrs):
            e.bad(label, 'attributes %s, %s without the earlier call' % (sorted(got.attrs), sorted(want.attrs)))
        for k in want.attrs:
            eq(e, label + '.' + k, got.attrs[k], want.attrs[k])
    elif t is D_:
        if type(got) is not D_ or len(got.pairs) != len(want.pairs):
            e.bad(label, 'got %r, %r without the earlier call' % (got, want))
        for k, w in want.pairs:
            hit = [g for k2, g in got.pairs if e.cmp(k2, k)[0] is True]
            if len(hit) != 1:
                e.bad(label, 'key %r is missing after the earlier call: %r' % (k, got))
            eq(e, '%s[%r]' % (label, k), hit[0], w)
    elif t in (AList, tuple):
        gi = got.items if type(got) is AList else got
        wi = want.items if t is AList else want
        if type(got) is not t or len(gi) != len(wi):
            e.bad(label, 'got %r, %r without the earlier call' % (got, want))
        for i, (g, w) in enumerate(zip(gi, wi)):
            eq(e, '%s[%d]' % (label, i), g, w)
    elif isinstance(want, str):
        if got != want:
            e.bad(label, 'got %r, %r without the earlier call' % (got, want))
    else:
        e.same(label, got, want)


def scribble(e, v, seen=None):
    """what a caller may do to a result it was given: change every list, array and dictionary in it"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    t = type(v)
    if t in (tuple, list):
        for x in v:
            scribble(e, x, seen)
    elif t is R:
        if v.ok:
            scribble(e, v.v, seen)
    elif t is AList:
        for x in list(v.items):
            scribble(e, x, seen)
        if v.items:
            e.rm(v, 'pop', 0)
        e.rm(v, 'append', st('scribble'))
        e.rm(v, 'reverse')
    elif t is AArray:
        for i in range(min(2, len(v.items))):
            e.I.setitem(v, i, 0x55)
        e.rm(v, 'append', 0x55)
    elif t is ADict:
        for k, x in list(v.d.values()):
            scribble(e, x, seen)
        for k, x in list(v.d.values())[:3]:
            e.I.setitem(v, k, st('scribble'))
        for k, x in list(v.d.values())[3:5]:
            e.rm(v, 'pop', k, None)
        e.I.setitem(v, st('scribble'), st('scribble'))
    elif t is AObj and v.cls.name in OWN:
        for k, x in list(v.attrs.items()):
            if not k.startswith('_'):
                scribble(e, x, seen)


OWN = {'MMSMessage', 'MMSMessagePage', 'DataPart', 'UserDataHeader', 'ConcatReference', 'PortAddress', 'SmsDeliver', 'SmsSubmit', 'Pdu'}

# ------------------------------------------------------------------------------------------------ operations
OPS = {}


def op(name):
    def deco(fn):
        OPS[name] = fn
        return fn
    return deco


def submit(name, n, cset, **kw):
    @op('submit ' + name)
    def f(e, t):
        kw2 = {k: v(e, t) if callable(v) else v for k, v in kw.items()}
        num = S([43] + [e.atom('%s number%d' % (t, i), SU.DIGIT) for i in range(9)])
        txt = S([e.atom('%s text%d' % (t, i), cset) if i < 12 else 65 for i in range(n)], uni=True)
        o = SU.mk(e, num, txt)
        for k, v in sorted(kw2.items()):
            e.set(o, k, v)
        r = e.m(o, 'to_pdu')
        return [(e.attr(p, 'pdu'), e.attr(p, 'length'), e.attr(p, 'cnt'), e.attr(p, 'seq')) for p in r.items], r, o
    return f


IDENT = D.RSet.vals(SU.IDENT)
BMP = D.RSet.of(0x4e00, 0x9fff)
submit('gsm', 5, IDENT, ref=0)
submit('multipart', 170, IDENT, ref=0, rand_id=lambda e, t: e.atom(t + ' rand', 0, 255))
submit('ucs2', 4, BMP, ref=0, request_status=True)
submit('ucs2 multipart', 80, BMP, ref=3, rand_id=7)
submit('class and csca', 3, IDENT, ref=0, klass=1, csca=lambda e, t: S([43] + [e.atom('%s csca%d' % (t, i), SU.DIGIT) for i in range(8)]))
submit('relative', 3, IDENT, ref=9, validity=lambda e, t: ATimedelta(D.mul(e.atom(t + ' days', 3, 29), DAY)))


@op('submit absolute')
def sub_abs(e, t):
    f = [e.case('', [2011]), e.atom(t + ' month', 1, 9), e.atom(t + ' day', 10, 28), e.atom(t + ' hour', 0, 23), e.atom(t + ' min', 0, 59), 7, 0]
    tz = e.ok(e.get('messaging.utils.FixedOffset'), 60, st('x'))
    o = SU.mk(e, st('12345'), us('hi'), ref=0, validity=ADatetime(f, 0, tz))
    r = e.m(o, 'to_pdu')
    return [e.attr(p, 'pdu') for p in r.items], r, o


@op('submit refused')
def sub_bad(e, t):
    o = SU.mk(e, st('12345'), us('hi'), ref=0)
    rs = [e.rset(o, 'number', st('12x')), e.rset(o, 'klass', 9), e.rset(o, 'csca', st('+1a')), e.rset(o, 'validity', st('soon'))]
    r = e.m(o, 'to_pdu')
    return rs, [e.attr(p, 'pdu') for p in r.items]


def mkdeliver(kind):
    @op('deliver ' + kind)
    def f(e, t):
        o = e.ok(e.get('messaging.sms.SmsDeliver'), DL.hexl(DL.build(e, kind, t)))
        return [e.rattr(o, k) for k in DL.ATTRS], e.attr(o, 'udh'), e.attr(o, 'data'), o


for _k in DL.kinds():
    mkdeliver(_k)


@op('deliver refused')
def del_bad(e, t):
    return [e.run(e.get('messaging.sms.SmsDeliver'), DL.hexl([0, 0x01, 0, 0])), e.run(e.get('messaging.sms.SmsDeliver'), st('123'))]


@op('user data header')
def ud(e, t):
    d = [0, 3] + [e.atom('%s u%d' % (t, i), OCT) for i in range(3)] + [5, 4] + [e.atom('%s p%d' % (t, i), OCT) for i in range(4)] + [0x24, 1, 1]
    c = e.get('messaging.sms.udh.UserDataHeader')
    return e.m(c, 'from_bytes', AArray('B', d)), e.m(c, 'from_status_report_ref', e.atom(t + ' ref', OCT))


def lib(fn):
    return lambda e: e.get('messaging.sms.gsm0338.' + fn)


@op('gsm codec')
def codec(e, t):
    s = S([e.atom('%s c%d' % (t, i), IDENT) for i in range(3)] + [0x20ac], uni=True)
    b = S([e.atom('%s b%d' % (t, i), IDENT) for i in range(3)] + [0x1b, 0x65])
    enc, dec, isg = e.get('messaging.sms.gsm0338.encode'), e.get('messaging.sms.gsm0338.decode'), e.get('messaging.sms.gsm0338.is_gsm_text')
    bad = us('a\u4e00b')
    return ([e.ok(enc, s), e.ok(dec, b), e.ok(isg, s), e.ok(isg, bad)],
            [e.run(enc, bad), e.run(enc, bad, st('replace')), e.run(enc, bad, st('ignore'))])


@op('offsets')
def offs(e, t):
    F = e.get('messaging.utils.FixedOffset')
    o = e.ok(F, e.atom(t + ' minutes', 0, 600), st('zone'))
    return e.m(o, 'utcoffset', None), e.m(o, 'dst', None), e.m(o, 'tzname', None)


@op('header tables')
def ht(e, t):
    f, g = e.get('messaging.mms.wsp_pdu.get_header_field_names'), e.get('messaging.mms.wsp_pdu.get_well_known_parameters')
    return [e.ok(f)] + [e.ok(f, st(v)) for v in ('1.1', '1.4')], [e.ok(g)] + [e.ok(g, st(v)) for v in ('1.1', '1.4')]


def wsp(name, mk, mms=False):
    @op(name)
    def f(e, t):
        out = []
        for fn, args in mk(e, t):
            c = (dec_cls if fn.startswith('decode') else enc_cls)(e, mms)
            a = [stream(e, list(args) + [0xaa, 0xbb])] if fn.startswith('decode') else list(args)
            out.append(e.run(func(e, c, fn), *a))
            if fn.startswith('decode'):
                out.append(e.rm(a[0], 'next'))
        return (out,)


wsp('wsp integers', lambda e, t: [
    ('decode_uint_var', [e.atom(t + ' hi', 129, 255), e.atom(t + ' lo', 0, 127)]), ('encode_uint_var', [e.atom(t + ' v', 128, 16383)]),
    ('decode_long_integer', [2, e.atom(t + ' l0', 1, 255), e.atom(t + ' l1', OCT)]), ('encode_short_integer', [e.atom(t + ' s', 0, 127)]),
    ('encode_long_integer', [e.atom(t + ' n', 256, 65535)]), ('decode_short_integer', [e.atom(t + ' si', 128, 255)]),
    ('decode_short_integer', [3]), ('encode_integer_value', [e.atom(t + ' iv', 0, 127)]), ('decode_value_length', [31, e.atom(t + ' vl', 31, 127)])])
wsp('wsp text', lambda e, t: [
    ('decode_text_string', text(e, 3, t + 'a') + [0]), ('encode_text_string', [S(text(e, 3, t + 'b'))]), ('decode_version_value', [0x92]),
    ('encode_version_value', [st('1.3')]), ('decode_token_text', [65, 66, 0]), ('encode_token_text', [S([e.atom(t + ' tk', D.RSet.of(97, 122))])]),
    ('decode_quoted_string', [34, e.atom(t + ' q', ASCII), 0])])
wsp('content type', lambda e, t: [
    ('decode_content_type_value', [0x83]), ('decode_content_type_value', [5, 0x83, 0x85, 97, e.atom(t + ' n', ASCII), 0]),
    ('decode_content_type_value', text(e, 4, t + 'm') + [0]),
    ('encode_content_type_value', [st('text/plain'), mkdict(e, [(st('Name'), S(text(e, 3, t + 'p')))])]),
    ('encode_content_type_value', [st('text/html'), ADict()]), ('decode_content_type_value', [0xff]),
    ('decode_content_type_value', [7, 0x83, 0x81, 0xea, 0x82, 0x95, 97, 0])])
wsp('charset and media', lambda e, t: [
    ('decode_well_known_charset', [0x84]), ('encode_well_known_charset', [st('utf-8')]), ('decode_accept_value', [0x84]),
    ('decode_constrained_media', [0x85]), ('encode_accept_value', [st('image/gif')]), ('decode_q_value', [e.atom(t + ' q', 1, 100)]),
    ('encode_parameter', [st('Type'), S(text(e, 3, t + 'ty'))]), ('decode_parameter', [0x88, 0x83]), ('decode_pragma_value', [0x80]),
    ('encode_parameter', [st('Nonesuch'), 5])])
wsp('wsp headers', lambda e, t: [
    ('decode_header', [0x80, 0x84]), ('decode_header', [0x8e] + text(e, 3, t + 'h') + [0]), ('encode_header', [st('Content-Location'), S(text(e, 3, t + 'i'))]),
    ('decode_header', [88, 45, 97, 0, e.atom(t + ' x', ASCII), 0]), ('encode_header', [st('X-Other'), st('v')]), ('decode_field_name', [0x8f]),
    ('encode_field_name', [st('Accept')]), ('decode_header', [0xff, 1])])
wsp('mms headers', lambda e, t: [
    ('decode_header', [0x8f, e.case('', [128])]), ('decode_header', [0x96] + text(e, 3, t + 's') + [0]), ('encode_header', [st('Subject'), S(text(e, 3, t + 'su'))]),
    ('decode_header', [0x89, 5, 0x80] + text(e, 3, t + 'f') + [0]), ('encode_header', [st('From'), S(text(e, 2, t + 'fr'))]),
    ('decode_header', [0x88, 4, 0x81, 2, e.atom(t + ' e0', 1, 255), e.atom(t + ' e1', OCT)]), ('encode_header', [st('Priority'), st('High')]),
    ('encode_header', [st('Message-Type'), st('m-delivery-ind')]), ('encode_header', [st('Delivery-Report'), True]), ('decode_header', [0x8a, 0x81]),
    ('decode_header', [0x92, 0xff]), ('encode_header', [st('X-Foo'), st('bar')])], mms=True)


def message_result(e, m):
    return [M.hdrs(e, m)] + [(e.attr(p, 'headers'), e.attr(p, 'data'), e.attr(p, 'content_type')) for p in e.attr(m, 'data_parts').items] + [m]


def mkmms(kind):
    @op('mms ' + kind)
    def f(e, t):
        m = M.build(e, kind, t.replace(' ', ''))
        M.put(e, m, 'Transaction-Id', st('77'))
        enc = e.m(m, 'encode')
        return enc, e.m(m, 'smil') if kind in ('pages', 'timed') else None, message_result(e, m)


for _k in ('bare', 'dest', 'x', 'ctparams', 'pages', 'timed', 'attached', 'params', 'array'):
    mkmms(_k)


@op('mms decode')
def mdec(e, t):
    frm = text(e, 4, t + 'from')
    part = [1, 3, 0x83] + [e.atom('%s d%d' % (t, i), OCT) for i in range(3)]
    hd = [3, 0x83, 0x81, 0xea, 0x8e] + text(e, 5, t + 'loc') + [0]
    part2 = [len(hd), 2] + hd + [e.atom('%s x%d' % (t, i), OCT) for i in range(2)]
    body = [0x8c, 0x84, 0x8d, 0x90, 0x89, 6, 0x80] + frm + [0, 0x84, 7, 0xb3, 0x8a] + text(e, 4, t + 'st') + [0, 2]
    m = e.m(e.get('messaging.mms.message.MMSMessage'), 'from_data', AArray('B', body + part + part2))
    return message_result(e, m)


@op('mms refused')
def mbad(e, t):
    c = e.get('messaging.mms.message.MMSMessage')
    m = e.ok(c)
    M.put(e, m, 'Content-Type', (st('text/plain'), mkdict(e, [(st('Nonesuch'), None)])))
    p = e.ok(e.get('messaging.mms.message.DataPart'))
    pg = e.ok(e.get('messaging.mms.message.MMSMessagePage'))
    return [e.rm(c, 'from_data', AArray('B', [0x8c, 0x84, 0xff, 1])), e.rm(m, 'encode'), e.rm(pg, 'add_text', 5), e.rm(pg, 'add_image', st('/none')), e.attr(pg, 'text')]


@op('new objects')
def newobj(e, t):
    m, p, pg = (e.ok(e.get('messaging.mms.message.' + n)) for n in ('MMSMessage', 'DataPart', 'MMSMessagePage'))
    e.m(p, 'set_data', S(text(e, 3, t + 'd')), st('x/y'))
    q = e.ok(e.get('messaging.mms.message.DataPart'))
    e.set(q, 'content_type', st('a/b'))
    return m, p, pg, q, e.attr(m, 'data_parts'), e.attr(m, 'pages'), e.attr(q, 'data'), e.ok(e.get('messaging.mms.message.DataPart'))


@op('wap push')
def wappush(e, t):
    frm, loc = text(e, 3, t + 'wf'), text(e, 4, t + 'wl')
    s = S([e.atom(t + ' tid', OCT), 6, 2, 1, 2, 0x8c, 0x82, 0x98, 49, 0, 0x8d, 0x90, 0x89, 5, 0x80] + frm + [0, 0x83] + loc + [0])
    m = e.ok(M.wap(e, 'extract_push_notification'), s)
    return e.ok(M.wap(e, 'is_a_wap_push_notification'), s), e.ok(M.wap(e, 'is_mms_notification'), m), message_result(e, m)


# ------------------------------------------------------------------------------------------------ scenarios
def first(e, name, tag):
    """the operation on its own; when that already fails there is nothing to compare"""
    memo(e)
    try:
        return OPS[name](e, tag)
    except Found as f:
        e.und('%s alone: %s' % (name, f.msg[:200]))


def earlier(e, name, tag):
    try:
        r = OPS[name](e, tag)
    except Found:
        return None
    scribble(e, r)
    return r


@scenario('C40', 'after-everything', 'after every other operation, whose results the caller has changed, an operation gives what it gives in a new process',
          lambda: [(b, w) for b in sorted(OPS) for w in ('forwards', 'backwards')])
def c40_all(e, inst):
    b, w = inst
    names = sorted(OPS)
    alone = snap(first(e, b, 'in'))
    fresh(e)
    for a in names if w == 'forwards' else names[::-1]:
        earlier(e, a, 'before')
    eq(e, b, snap(OPS[b](e, 'in')), alone)


@scenario('C40', 'repeated', 'an operation repeated with other inputs, then with the same, gives what it gives in a new process',
          lambda: sorted(OPS))
def c40_rep(e, b):
    alone = snap(first(e, b, 'in'))
    earlier(e, b, 'other')
    eq(e, b, snap(OPS[b](e, 'in')), alone)
    earlier(e, b, 'in')
    eq(e, b, snap(OPS[b](e, 'in')), alone)
    fresh(e)
    earlier(e, b, 'other')
    eq(e, b, snap(OPS[b](e, 'in')), alone)


@scenario('C40', 'pairs', 'an operation after another one, whose result the caller has changed, gives what it gives in a new process',
          lambda: [(a, b) for a in sorted(OPS) for b in sorted(OPS) if a != b and a.split()[0] == b.split()[0]],
          lambda: [(a, b) for a in sorted(OPS) for b in sorted(OPS) if a != b])
def c40_pair(e, inst):
    a, b = inst
    alone = snap(first(e, b, 'in'))
    fresh(e)
    earlier(e, a, 'before')
    eq(e, b, snap(OPS[b](e, 'in')), alone)


ARGS = {}


def arg(name):
    def deco(fn):
        ARGS[name] = fn
        return fn
    return deco


@arg('UserDataHeader.from_bytes')
def a1(e):
    v = AArray('B', [0, 3] + [e.atom('o%d' % i, OCT) for i in range(3)] + [8, 4] + [e.atom('p%d' % i, OCT) for i in range(4)])
    return [v], lambda: e.rm(e.get('messaging.sms.udh.UserDataHeader'), 'from_bytes', v)


@arg('utils.swap')
def a2(e):
    v = AList([e.atom('o%d' % i, OCT) for i in range(6)])
    return [v], lambda: e.run(e.get('messaging.utils.swap'), v)


@arg('utils.unpack_msg2')
def a3(e):
    v = AArray('B', [e.atom('o%d' % i, OCT) for i in range(7)])
    return [v], lambda: e.run(e.get('messaging.utils.unpack_msg2'), v)


def mmsdata(e):
    return AArray('B', [0x8c, 0x84, 0x8d, 0x90, 0x89, 6, 0x80] + text(e, 4, 'from') + [0, 0x84, 0xa3, 1, 1, 3, 0x83] + [e.atom('d%d' % i, OCT) for i in range(3)])


@arg('MMSMessage.from_data')
def a4(e):
    v = mmsdata(e)
    return [v], lambda: e.rm(e.get('messaging.mms.message.MMSMessage'), 'from_data', v)


@arg('MMSDecoder.decode_data')
def a5(e):
    v = mmsdata(e)
    return [v], lambda: e.rm(e.ok(dec_cls(e, True)), 'decode_data', v)


@arg('MMSDecoder.decode_data twice')
def a5b(e):
    v = mmsdata(e)
    d = e.ok(dec_cls(e, True))
    return [v], lambda: (e.rm(d, 'decode_data', v), e.rm(d, 'decode_data', v))


@arg('PreviewIterator')
def a6(e):
    v = AArray('B', [e.atom('o%d' % i, OCT) for i in range(4)])

    def go():
        it = e.ok(e.get('messaging.mms.iterator.PreviewIterator'), v)
        e.rm(it, 'preview'), e.rm(it, 'next'), e.rm(it, 'preview'), e.rm(it, 'reset_preview'), e.rm(it, 'next')
    return [v], go


def pdict(e):
    return mkdict(e, [(st('Name'), S(text(e, 3, 'name'))), (st('Charset'), st('utf-8')), (st('Type'), S(text(e, 2, 'type'))), (st('other'), 5)])


@arg('Encoder.encode_content_type_value')
def a7(e):
    v = pdict(e)
    return [v], lambda: e.run(func(e, enc_cls(e), 'encode_content_type_value'), st('text/plain'), v)


@arg('MMSEncoder.encode_content_type_value')
def a7b(e):
    v = pdict(e)
    return [v], lambda: e.run(func(e, enc_cls(e, True), 'encode_content_type_value'), st('x/y'), v)


@arg('DataPart.set_data with an array')
def a8(e):
    v = AArray('B', [e.atom('o%d' % i, OCT) for i in range(4)])
    d = pdict(e)

    def go():
        p = e.ok(M.cls(e, 'DataPart'))
        e.rm(p, 'set_data', v, st('x/y'), d)
        e.rattr(p, 'data'), e.rm(p, '__len__')
        e.rset(p, 'content_type', st('a/b'))
        e.rm(p, 'set_text', st('new'))
    return [v, d], go


@arg('a part with parameters in a message')
def a9(e):
    v = AArray('B', [e.atom('o%d' % i, OCT) for i in range(4)])
    d = pdict(e)

    def go():
        p = e.ok(M.cls(e, 'DataPart'))
        e.rm(p, 'set_data', v, st('x/y'), d)
        m = e.ok(M.cls(e, 'MMSMessage'))
        e.rm(m, 'add_data_part', p)
        e.rm(m, 'encode')
        e.rm(m, 'encode')
        e.rattr(m, 'data_parts')
    return [v, d], go


@arg('content type of a message')
def a10(e):
    d = pdict(e)

    def go():
        m = e.ok(M.cls(e, 'MMSMessage'))
        M.put(e, m, 'Content-Type', (st(M.RELATED), d))
        pg, _ = M.page(e, ('text',), 'a')
        e.rm(m, 'add_page', pg)
        e.rm(m, 'encode')
        e.rm(m, 'smil')
    return [d], go


@arg('headers given by the caller')
def a11(e):
    h = mkdict(e, [(st('To'), S(text(e, 3, 'to'))), (st('X-Mms-Message-Type'), st('m-send-req')), (st('Content-Type'), (st(M.MIXED), ADict()))])

    def go():
        m = e.ok(M.cls(e, 'MMSMessage'))
        e.rset(m, 'headers', h)
        e.rm(m, 'encode')
        e.rm(m, 'encode')
    return [h], go


@scenario('C40', 'arguments', 'lists, arrays and dictionaries given by the caller are as before after the call', lambda: sorted(ARGS))
def c40_args(e, name):
    memo(e)
    vs, go = ARGS[name](e)
    before = [snap(v) for v in vs]
    go()
    for i, (v, b) in enumerate(zip(vs, before)):
        eq(e, 'argument of ' + name, snap(v), b)


# ------------------------------------------------------------------------------------------------ results
OUT = {}


def out(name):
    def deco(fn):
        OUT[name] = fn
        return fn
    return deco


def listed(kind):
    @out('parts of a message: ' + kind)
    def f(e):
        m = M.build(e, kind)
        return lambda: e.attr(m, 'data_parts'), lambda: (e.m(m, 'encode'), e.attr(m, 'headers'))


for _k in ('bare', 'attached', 'params', 'cid', 'pages', 'both'):
    listed(_k)


@out('parts of a page')
def h_page(e):
    pg, _ = M.page(e, ('image', 'audio', 'text'), 'a')
    return lambda: e.attr(pg, 'data_parts'), lambda: e.m(pg, 'number_of_parts')


@out('encoded message')
def h_enc(e):
    m = M.build(e, 'both')
    return lambda: e.m(m, 'encode'), lambda: e.m(m, 'encode')


@out('encoded message by one encoder')
def h_enc2(e):
    m = M.build(e, 'params')
    c = e.ok(e.get('messaging.mms.mms_pdu.MMSEncoder'))
    return lambda: e.m(c, 'encode', m), lambda: e.m(c, 'encode', m)


@out('PDUs of a message')
def h_pdu(e):
    o = SU.mk(e, st('+3461234'), S([e.atom('c%d' % i, IDENT) for i in range(4)] + [97] * 180, True), ref=e.atom('ref', 0, 255), rand_id=e.atom('cref', 0, 255))

    def look():
        r = e.m(o, 'to_pdu')
        return [(e.attr(p, 'pdu'), e.attr(p, 'length'), e.attr(p, 'cnt'), e.attr(p, 'seq')) for p in r.items]
    return lambda: e.m(o, 'to_pdu'), look


def swapped(n):
    @out('encoded octets: ' + n)
    def f(e):
        c = enc_cls(e)
        a = {'uint_var': 300, 'long_integer': 70000, 'text_string': st('abc'), 'content_type_value': st('image/gif'), 'version_value': st('1.2'),
             'well_known_charset': st('utf-8'), 'no_value': None}[n]
        fn = func(e, c, 'encode_' + n)
        args = () if n == 'no_value' else (a, ADict()) if n == 'content_type_value' else (a,)
        return lambda: e.ok(fn, *args), lambda: e.ok(fn, *args)


for _k in ('uint_var', 'long_integer', 'text_string', 'content_type_value', 'version_value', 'well_known_charset'):
    swapped(_k)


@out('header names')
def h_names(e):
    f = e.get('messaging.mms.wsp_pdu.get_header_field_names')
    return lambda: e.ok(f), lambda: e.ok(f, st('1.1'))


@out('well-known parameters')
def h_params(e):
    f = e.get('messaging.mms.wsp_pdu.get_well_known_parameters')
    return lambda: e.ok(f), lambda: e.ok(f, st('1.3'))


@scenario('C40', 'handed-out', 'a list or table that was handed out can be changed by the caller: what is handed out later is as before',
          lambda: sorted(OUT))
def c40_out(e, name):
    memo(e)
    get, look = OUT[name](e)
    r = get()
    before, seen = snap(r), snap(look())
    for how in ('append', 'pop', 'reverse', 'clear'):
        if type(r) is ADict:
            e.I.setitem(r, st('scribble'), st('scribble'))
            for k, x in list(r.d.values())[:3 if how != 'clear' else None]:
                e.rm(r, 'pop', k, None)
        elif how == 'append':
            e.rm(r, 'append', st('scribble') if type(r) is AList else 0x55)
        elif how == 'clear':
            while r.items:
                e.m(r, 'pop')
        elif how != 'pop' or r.items:
            e.rm(r, how)
        eq(e, '%s after the caller changed an earlier result (%s)' % (name, how), snap(look()), seen)
        r = get()
        eq(e, '%s after the caller changed an earlier result (%s)' % (name, how), snap(r), before)
