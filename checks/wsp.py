"""C20..C24, C28, C29: WSP primitives, tables and the previewing iterator."""
from pyai import dom as D
from pyai.harness import scenario, R
from pyai.values import S, st, us, AList, AArray, AInt, Builtin, MISSING
from pyai.lib import digits
from . import oracle as O

OCT = D.RSet.of(0, 255)
ASCII = D.RSet.of(32, 126)
CHAR = D.RSet.of(1, 255)
SEPARATORS = [ord(c) for c in '()<>@,;:\\"/[]?={} \t']
TOKSET = D.RSet.of(32, 126) - D.RSet.vals(SEPARATORS)     # characters an encoder may use in a token
TOKDEC = D.RSet.of(32, 255) - D.RSet.vals(SEPARATORS)     # characters a decoder keeps in a token


def stream(e, octets, kind='list'):
    """a PreviewIterator over the octets"""
    P = e.get('messaging.mms.iterator.PreviewIterator')
    return e.ok(P, AArray('B', list(octets)) if kind == 'array' else AList(list(octets)))


def func(e, cls, name):
    """class attribute holding a codec function; undecided when the tree has no such function"""
    r = e.rattr(cls, name)
    if not r.ok:
        e.und('%s is not part of this tree' % name)
    return r.v


def dec_cls(e, mms=False):
    return e.get('messaging.mms.mms_pdu.MMSDecoder' if mms else 'messaging.mms.wsp_pdu.Decoder')


def enc_cls(e, mms=False):
    return e.get('messaging.mms.mms_pdu.MMSEncoder' if mms else 'messaging.mms.wsp_pdu.Encoder')


def rest(e, it, tail, label='octets consumed'):
    """exactly `tail` remains to be read from it, and previewing starts at its first item"""
    if tail:
        r = e.rm(it, 'preview')
        if not r.ok:
            e.bad(label, 'preview after decoding: %s although %d octets remain' % (r, len(tail)), where=r.where)
        e.same(label + ' (preview)', r.v, tail[0])
    for i, t in enumerate(tail):
        r = e.rm(it, 'next')
        if not r.ok:
            e.bad(label, 'reading on after decoding: %s although octet %d of the rest remains' % (r, i), where=r.where)
        e.same(label, r.v, t)
    r = e.rm(it, 'next')
    if r.ok:
        e.bad(label, 'octet %r left after the %d that follow the value' % (r.v, len(tail)))


def decodes(e, name, octets, want, mms=False, ntail=2, kind='list', label=None, args=()):
    """decode_<name>(octets + tail) = want, leaving the tail"""
    f = func(e, dec_cls(e, mms), 'decode_' + name)
    tail = [e.atom('after%d' % i, OCT) for i in range(ntail)]
    it = stream(e, list(octets) + tail, kind)
    v = e.ok(f, it, *args)
    if callable(want):
        want(v)
    else:
        same_val(e, label or name, v, want)
    rest(e, it, tail)
    return v


def same_val(e, label, got, want):
    if type(want) is S:
        if type(got) is not S:
            e.bad(label, 'expected the text %r, got %r' % (want, got))
        e.same(label, AList(list(got.items)), list(want.items))
    else:
        e.same(label, got, want)


def rejects(e, name, octets, mms=False, exc='DecodeError', untouched=True, tail=1):
    """decode_<name> raises DecodeError on octets; the iterator is as before"""
    f = func(e, dec_cls(e, mms), 'decode_' + name)
    oc = list(octets) + [e.atom('after%d' % i, OCT) for i in range(tail)]
    it = stream(e, oc)
    r = e.run(f, it)
    e.raises('%s rejects' % name, r, exc)
    if untouched:
        rest(e, it, oc, 'octets left in place after rejection')


def octets_of(e, label, v):
    if type(v) not in (AList, AArray):
        e.bad(label, 'a sequence of octets is required, got %r' % (v,))
    for x in v.items:
        if type(x) not in (int, AInt):
            e.bad(label, 'item %r of the encoding is not an octet' % (x,))
    return v


def encodes(e, name, args, want, mms=False, label=None):
    f = func(e, enc_cls(e, mms), 'encode_' + name)
    v = e.ok(f, *args)
    octets_of(e, label or name, v)
    e.same(label or name, AList(list(v.items)), list(want))


# ------------------------------------------------------------------------------------------------ C20
def uv_value(digs):
    v = 0
    for d in digs:
        v = D.bor(D.shl(v, 7), d)
    return v


def uv_octets(digs):
    return [D.bor(d, 0x80) for d in digs[:-1]] + [digs[-1]]


def uv_digits(e, n):
    return [e.atom('digit0', 1 if n > 1 else 0, 127)] + [e.atom('digit%d' % i, 0, 127) for i in range(1, n)]


@scenario('C20', 'encode', 'uintvar of n base-128 digits is those digits, continuation bit on all but the last',
          lambda: range(1, 6), lambda: range(1, 21))
def uv_enc(e, n):
    d = uv_digits(e, n)
    encodes(e, 'uint_var', [uv_value(d)], uv_octets(d))


@scenario('C20', 'decode', 'n base-128 digits decode to their value and nothing more is consumed',
          lambda: [(n, k) for n in range(1, 6) for k in ('list', 'array')], lambda: [(n, k) for n in range(1, 21) for k in ('list', 'array')])
def uv_dec(e, inst):
    n, kind = inst
    d = uv_digits(e, n)
    decodes(e, 'uint_var', uv_octets(d), uv_value(d), kind=kind)


@scenario('C20', 'boundaries', 'encoding is right on both sides of each digit boundary', lambda: [1, 2, 3, 4, 5], lambda: range(1, 21))
def uv_bound(e, n):
    for v in (128 ** n - 1, 128 ** n, 128 ** n + 1, 128 ** n + 128, 0, 1):
        encodes(e, 'uint_var', [v], O.uintvar(v))
        decodes(e, 'uint_var', O.uintvar(v), v, ntail=1)


# ------------------------------------------------------------------------------------------------ C21
@scenario('C21', 'uint8', 'uint8 is one octet, both ways')
def u8(e, _):
    o = e.atom('octet', OCT)
    decodes(e, 'uint_8', [o], o)
    encodes(e, 'uint_8', [o], [o])


@scenario('C21', 'short-integer', 'values 0..127 are one octet with the top bit set; others are refused')
def shortint(e, _):
    c = e.case('direction', ['enc', 'dec', 'enc-high', 'enc-low', 'dec-bad', 'byte', 'byte-bad'])
    v = e.atom('value', 0, 127)
    if c == 'enc':
        encodes(e, 'short_integer', [v], [D.bor(v, 128)])
    elif c == 'dec':
        decodes(e, 'short_integer', [D.bor(v, 128)], v)
    elif c == 'enc-high':
        e.raises('value above 127', e.run(func(e, enc_cls(e), 'encode_short_integer'), e.atom('big', 128, 2 ** 31 - 1)), 'EncodeError')
    elif c == 'enc-low':
        e.raises('negative value', e.run(func(e, enc_cls(e), 'encode_short_integer'), e.atom('neg', -2 ** 31, -1)), 'EncodeError')
    elif c == 'dec-bad':
        rejects(e, 'short_integer', [v])
    elif c == 'byte':
        e.same('short_integer_from_byte', e.ok(func(e, dec_cls(e), 'decode_short_integer_from_byte'), D.bor(v, 128)), v)
    else:
        e.raises('top bit clear', e.run(func(e, dec_cls(e), 'decode_short_integer_from_byte'), v), 'DecodeError')


def be(octets):
    v = 0
    for o in octets:
        v = D.bor(D.shl(v, 8), o)
    return v


def intoctets(e, n):
    """octets of a positive integer whose minimal big-endian form has n octets"""
    return [e.atom('octet0', 1, 255)] + [e.atom('octet%d' % i, OCT) for i in range(1, n)]


@scenario('C21', 'long-integer-encode', 'big-endian, minimal length, preceded by that length', lambda: range(1, 31))
def longenc(e, n):
    o = intoctets(e, n)
    encodes(e, 'long_integer', [be(o)], [n] + o)


@scenario('C21', 'long-integer-decode', 'big-endian value of the stated number of octets, nothing more is consumed',
          lambda: range(1, 31))
def longdec(e, n):
    o = [e.atom('octet%d' % i, OCT) for i in range(n)]
    decodes(e, 'long_integer', [n] + o, be(o))


@scenario('C21', 'long-integer-refuse', 'a negative number is refused; a first octet above 30 is refused; zero survives')
def longbad(e, _):
    c = e.case('case', ['neg', 'dec', 'zero', 'long'])
    if c == 'neg':
        e.raises('negative value', e.run(func(e, enc_cls(e), 'encode_long_integer'), e.atom('neg', -2 ** 31, -1)), 'EncodeError')
    elif c == 'long':
        f = func(e, enc_cls(e), 'encode_long_integer')
        for n in (2 ** 240, 2 ** 240 + 1, 2 ** 248 - 1, 2 ** 248, 2 ** 2048):
            e.raises('more than 30 octets', e.run(f, n), 'EncodeError')
    elif c == 'dec':
        rejects(e, 'long_integer', [e.atom('first', 31, 255)], untouched=False)
    else:
        v = e.ok(func(e, enc_cls(e), 'encode_long_integer'), 0)
        decodes(e, 'long_integer', list(octets_of(e, 'zero', v).items), 0)


@scenario('C21', 'integer-value', 'short form below 128, long form above; first octet 31 or text is refused',
          lambda: ['short', 'neg', 'bad', 'str'] + [('long', n) for n in range(1, 31)])
def intval(e, c):
    if c == 'short':
        v = e.atom('value', 0, 127)
        encodes(e, 'integer_value', [v], [D.bor(v, 128)])
        decodes(e, 'integer_value', [D.bor(v, 128)], v)
    elif c == 'neg':
        e.raises('negative value', e.run(func(e, enc_cls(e), 'encode_integer_value'), e.atom('neg', -2 ** 31, -1)), 'EncodeError')
    elif c == 'bad':
        rejects(e, 'integer_value', [e.atom('first', 31, 127)], untouched=False)
    elif c == 'str':
        e.raises('not an integer', e.run(func(e, enc_cls(e), 'encode_integer_value'), st('12')), 'EncodeError')
    else:
        n = c[1]
        o = [e.atom('octet0', 128 if n == 1 else 1, 255)] + [e.atom('octet%d' % i, OCT) for i in range(1, n)]
        encodes(e, 'integer_value', [be(o)], [n] + o)
        decodes(e, 'integer_value', [n] + o, be(o))


@scenario('C21', 'short-length', 'octets 0..30 are lengths; others are refused')
def shortlen(e, _):
    c = e.case('case', ['ok', 'high', 'neg', 'dec'])
    if c == 'ok':
        v = e.atom('length', 0, 30)
        encodes(e, 'short_length', [v], [v])
        decodes(e, 'short_length', [v], v)
    elif c == 'high':
        e.raises('above 30', e.run(func(e, enc_cls(e), 'encode_short_length'), e.atom('big', 31, 2 ** 31 - 1)), 'EncodeError')
    elif c == 'neg':
        e.raises('negative', e.run(func(e, enc_cls(e), 'encode_short_length'), e.atom('neg', -2 ** 31, -1)), 'EncodeError')
    else:
        rejects(e, 'short_length', [e.atom('first', 31, 255)])


@scenario('C21', 'value-length', 'one octet up to 30; above, octet 31 and a uintvar; other first octets are refused',
          lambda: ['short', 'bad', 31, 127] + [('uv', n) for n in range(2, 6)], lambda: ['short', 'bad', 31, 127] + [('uv', n) for n in range(2, 20)])
def vallen(e, c):
    if c == 'short':
        v = e.atom('length', 0, 30)
        encodes(e, 'value_length', [v], [v])
        decodes(e, 'value_length', [v], v)
    elif c == 'bad':
        rejects(e, 'value_length', [e.atom('first', 32, 255)])
    elif type(c) is int:
        v = e.atom('length', 31, 127)
        encodes(e, 'value_length', [v], [31, v])
        w = e.atom('any', 0, 127)
        decodes(e, 'value_length', [31, w], w)
    else:
        d = uv_digits(e, c[1])
        encodes(e, 'value_length', [uv_value(d)], [31] + uv_octets(d))
        decodes(e, 'value_length', [31] + uv_octets(d), uv_value(d))


# ------------------------------------------------------------------------------------------------ C22
LENS = list(range(0, 9)) + [31, 40]
LENST = list(range(0, 48)) + [100, 130, 260]


@scenario('C22', 'text-string', 'characters up to the zero octet, which is consumed; a leading 0x7F quote is dropped',
          lambda: [(n, q, k) for n in LENS for q in (False, True) for k in ('list',)] + [(3, False, 'array')],
          lambda: [(n, q, k) for n in LENST for q in (False, True) for k in ('list', 'array')])
def textstr(e, inst):
    n, quote, kind = inst
    c = []
    for i in range(n):
        c.append(e.atom('char%d' % i, CHAR if i or quote else CHAR - D.RSet.of(127, 127)))
    name = e.case('decoder', ['text_string', 'uri_value'])
    decodes(e, name, ([127] if quote else []) + c + [0], S(c), kind=kind)


@scenario('C22', 'quoted-string', 'the leading quote mark is dropped, the zero octet consumed', lambda: LENS, lambda: LENST)
def quoted(e, n):
    c = [e.atom('char%d' % i, CHAR if i else CHAR - D.RSet.of(127, 127)) for i in range(n)]
    name = e.case('decoder', ['quoted_string', 'text_value'])
    decodes(e, name, [34] + c + [0], S(c))


@scenario('C22', 'token-text', 'the characters before the first control or separator octet, which is consumed',
          lambda: [(n, k) for n in LENS if n for k in (0, 1)], lambda: [(n, k) for n in LENST if n for k in (0, 1)])
def token(e, inst):
    n, k = inst
    c = [e.atom('char%d' % i, TOKDEC) for i in range(n)]
    end = 0 if k == 0 else e.atom('terminator', D.RSet.of(0, 31) | D.RSet.vals(SEPARATORS))
    name = e.case('decoder', ['token_text', 'text_value'])
    decodes(e, name, c + [end], S(c))


@scenario('C22', 'no-value', 'a No-value is one zero octet and decodes to the empty text')
def novalue(e, _):
    decodes(e, 'text_value', [0], st(''))
    encodes(e, 'text_value', [st('')], [0])


@scenario('C22', 'extension-media', 'the characters before the zero octet, which is consumed',
          lambda: [n for n in LENS if n], lambda: [n for n in LENST if n])
def extmedia(e, n):
    first = e.case('first', [D.RSet.of(32, 126), D.RSet.of(128, 255)])
    c = [e.atom('char%d' % i, CHAR if i else first) for i in range(n)]
    decodes(e, 'extension_media', c + [0], S(c))
    if first.min() == 32:
        decodes(e, 'constrained_encoding', c + [0], S(c))
        encodes(e, 'constrained_encoding', [S(c)], c + [0])
    encodes(e, 'extension_media', [S(c)], c + [0])


@scenario('C22', 'encode', 'the character codes followed by one zero octet', lambda: LENS, lambda: LENST)
def textenc(e, n):
    name = e.case('encoder', ['text_string', 'token_text', 'text_value'])
    c = [e.atom('char%d' % i, TOKSET if name != 'text_string' else CHAR) for i in range(n)]
    encodes(e, name, [S(c)], c + [0])


@scenario('C22', 'refuse', 'a token with a separator, and a medium starting with a control character, are refused',
          lambda: [('tok', n, p) for n in range(1, 5) for p in range(n)] + [('ext', n, 0) for n in (1, 2, 3)] + [('dectok', 1, 0), ('decext', 1, 0), ('decquo', 1, 0)])
def textbad(e, inst):
    k, n, p = inst
    if k == 'tok':
        c = [e.atom('char%d' % i, TOKSET) for i in range(n)]
        c[p] = e.atom('separator', D.RSet.vals(SEPARATORS))
        e.raises('token with separator', e.run(func(e, enc_cls(e), 'encode_token_text'), S(c)), 'EncodeError')
    elif k == 'ext':
        c = [e.atom('char%d' % i, CHAR) for i in range(n)]
        c[0] = e.atom('control', D.RSet.of(0, 31) | D.RSet.of(127, 127))
        e.raises('medium with control first', e.run(func(e, enc_cls(e), 'encode_extension_media'), S(c)), 'EncodeError')
    elif k == 'dectok':
        rejects(e, 'token_text', [e.atom('first', D.RSet.of(0, 31) | D.RSet.vals(SEPARATORS))])
    elif k == 'decext':
        rejects(e, 'extension_media', [e.atom('first', D.RSet.of(0, 31) | D.RSet.of(127, 127))])
    else:
        rejects(e, 'quoted_string', [e.atom('first', OCT - D.RSet.of(34, 34))])


# ------------------------------------------------------------------------------------------------ C23
def dtext(*xs):
    out = []
    for x in xs:
        out += [ord(c) for c in x] if isinstance(x, str) else [x]
    return S(out)


@scenario('C23', 'packed', 'M.m with M in 1..7, m in 0..14 is one octet 0x80|M<<4|m, both ways',
          lambda: [(M, k) for M in range(1, 8) for k in ('one', 'two', 'none')])
def ver_packed(e, inst):
    M, k = inst
    if k == 'none':
        text, o = st('%d' % M), 0x8f | M << 4
    elif k == 'one':
        m = e.atom('minor', 0, 9)
        text, o = dtext('%d.' % M, D.add(m, 48)), D.add(m, 0x80 | M << 4)
    else:
        m = e.atom('minor', 0, 4)
        text, o = dtext('%d.1' % M, D.add(m, 48)), D.add(m, 0x8a | M << 4)
    encodes(e, 'version_value', [text], [o])
    decodes(e, 'version_value', [o], text)


BADVER = ['0', '0.1', '8', '9.3', '1.15', '7.15', '1.16', '2.99', '1.2.4', '1.2.3.4', '1.', '.1', '1..2', 'a', 'a.b', '1.x', 'x.1',
          '', '.', '10', '10.1', '1.100', '-1', '1.-1', '-1.2', '01', '1.02', '01.2', ' 1', '1 ', '1. 2', '+1', '1.+2', '1.2 ', '1,2',
          '1.2a', '1e1', '0x1', '1.0x2', '1L', '1.2L', 'version', '1.1.', '1.1.1', '1-2', '99999999999', '1.4294967296', '١']


@scenario('C23', 'text', 'any other version string is encoded as text and decodes to itself',
          lambda: [v for v in BADVER if v.isascii()])
def ver_text(e, v):
    o = [ord(c) for c in v] + [0]
    encodes(e, 'version_value', [st(v)], o)
    decodes(e, 'version_value', o, st(v))


@scenario('C23', 'text-general', 'a version string that is not packable is text, whatever its characters',
          lambda: [('word', n) for n in range(1, 6)] + [('dots', n) for n in range(2, 5)] + [('big', n) for n in (1, 2, 3)])
def ver_textgen(e, inst):
    k, n = inst
    if k == 'word':
        c = [e.atom('letter%d' % i, D.RSet.of(97, 122)) for i in range(n)]
    elif k == 'dots':
        c = [D.add(48, e.atom('d0', 0, 9))]
        for i in range(n):
            c += [46, D.add(48, e.atom('d%d' % (i + 1), 0, 9))]
    else:
        c = [e.atom('major', 49, 55), 46] + [e.atom('minor%d' % i, 50 if i == 0 else 48, 57) for i in range(n + 1)]
    encodes(e, 'version_value', [S(c)], c + [0])
    decodes(e, 'version_value', c + [0], S(c))


# ------------------------------------------------------------------------------------------------ C24
CONTENT_TYPES = ['*/*', 'text/*', 'text/html', 'text/plain', 'text/x-hdml', 'text/x-ttml', 'text/x-vCalendar', 'text/x-vCard',
                 'text/vnd.wap.wml', 'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event', 'multipart/*', 'multipart/mixed',
                 'multipart/form-data', 'multipart/byteranges', 'multipart/alternative', 'application/*', 'application/java-vm',
                 'application/x-www-form-urlencoded', 'application/x-hdmlc', 'application/vnd.wap.wmlc',
                 'application/vnd.wap.wmlscriptc', 'application/vnd.wap.wta-eventc', 'application/vnd.wap.uaprof',
                 'application/vnd.wap.wtls-ca-certificate', 'application/vnd.wap.wtls-user-certificate',
                 'application/x-x509-ca-cert', 'application/x-x509-user-cert', 'image/*', 'image/gif', 'image/jpeg', 'image/tiff',
                 'image/png', 'image/vnd.wap.wbmp', 'application/vnd.wap.multipart.*', 'application/vnd.wap.multipart.mixed',
                 'application/vnd.wap.multipart.form-data', 'application/vnd.wap.multipart.byteranges',
                 'application/vnd.wap.multipart.alternative', 'application/xml', 'text/xml', 'application/vnd.wap.wbxml',
                 'application/x-x968-cross-cert', 'application/x-x968-ca-cert', 'application/x-x968-user-cert', 'text/vnd.wap.si',
                 'application/vnd.wap.sic', 'text/vnd.wap.sl', 'application/vnd.wap.slc', 'text/vnd.wap.co',
                 'application/vnd.wap.coc', 'application/vnd.wap.multipart.related', 'application/vnd.wap.sia',
                 'text/vnd.wap.connectivity-xml', 'application/vnd.wap.connectivity-wbxml', 'application/pkcs7-mime',
                 'application/vnd.wap.hashed-certificate', 'application/vnd.wap.signed-certificate',
                 'application/vnd.wap.cert-response', 'application/xhtml+xml', 'application/wml+xml', 'text/css',
                 'application/vnd.wap.mms-message', 'application/vnd.wap.rollover-certificate', 'application/vnd.wap.locc+wbxml',
                 'application/vnd.wap.loc+xml', 'application/vnd.syncml.dm+wbxml', 'application/vnd.syncml.dm+xml',
                 'application/vnd.syncml.notification', 'application/vnd.wap.xhtml+xml', 'application/vnd.wv.csp.cir',
                 'application/vnd.oma.dd+xml', 'application/vnd.oma.drm.message', 'application/vnd.oma.drm.content',
                 'application/vnd.oma.drm.rights+xml', 'application/vnd.oma.drm.rights+wbxml']
CHARSETS = {2026: 'big5', 1000: 'iso-10646-ucs-2', 4: 'iso-8859-1', 5: 'iso-8859-2', 6: 'iso-8859-3', 7: 'iso-8859-4',
            8: 'iso-8859-5', 9: 'iso-8859-6', 10: 'iso-8859-7', 11: 'iso-8859-8', 12: 'iso-8859-9', 17: 'shift_JIS',
            3: 'us-ascii', 106: 'utf-8'}
HEADER_NAMES = {
    '1.1': ['Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Accept-Ranges', 'Age', 'Allow', 'Authorization',
            'Cache-Control', 'Connection', 'Content-Base', 'Content-Encoding', 'Content-Language', 'Content-Length',
            'Content-Location', 'Content-MD5', 'Content-Range', 'Content-Type', 'Date', 'Etag', 'Expires', 'From', 'Host',
            'If-Modified-Since', 'If-Match', 'If-None-Match', 'If-Range', 'If-Unmodified-Since', 'Location', 'Last-Modified',
            'Max-Forwards', 'Pragma', 'Proxy-Authenticate', 'Proxy-Authorization', 'Public', 'Range', 'Referer', 'Retry-After',
            'Server', 'Transfer-Encoding', 'Upgrade', 'User-Agent', 'Vary', 'Via', 'Warning', 'WWW-Authenticate',
            'Content-Disposition'],
    '1.2': ['X-Wap-Application-Id', 'X-Wap-Content-URI', 'X-Wap-Initiator-URI', 'Accept-Application', 'Bearer-Indication',
            'Push-Flag', 'Profile', 'Profile-Diff', 'Profile-Warning'],
    '1.3': ['Expect', 'TE', 'Trailer', 'Accept-Charset', 'Accept-Encoding', 'Cache-Control', 'Content-Range', 'X-Wap-Tod',
            'Content-ID', 'Set-Cookie', 'Cookie', 'Encoding-Version'],
    '1.4': ['Profile-Warning', 'Content-Disposition', 'X-WAP-Security', 'Cache-Control']}
PARAMS = {
    '1.1': {0: 'Q', 1: 'Charset', 2: 'Level', 3: 'Type', 5: 'Name', 6: 'Filename', 7: 'Differences', 8: 'Padding'},
    '1.2': {9: 'Type', 10: 'Start', 11: 'Start-info'},
    '1.3': {12: 'Comment', 13: 'Domain', 14: 'Max-Age', 15: 'Path', 16: 'Secure'},
    '1.4': {17: 'SEC', 18: 'MAC', 19: 'Creation-date', 20: 'Modification-date', 21: 'Read-date', 22: 'Size', 23: 'Name',
            24: 'Filename', 25: 'Start', 26: 'Start-info', 27: 'Comment', 28: 'Domain', 29: 'Path'}}
MMS_FIELDS = {1: 'Bcc', 2: 'Cc', 3: 'Content-Location', 4: 'Content-Type', 5: 'Date', 6: 'Delivery-Report', 7: 'Delivery-Time',
              8: 'Expiry', 9: 'From', 10: 'Message-Class', 11: 'Message-ID', 12: 'Message-Type', 13: 'MMS-Version',
              14: 'Message-Size', 15: 'Priority', 16: 'Read-Reply', 17: 'Report-Allowed', 18: 'Response-Status',
              19: 'Response-Text', 20: 'Sender-Visibility', 21: 'Status', 22: 'Subject', 23: 'To', 24: 'Transaction-Id'}
VERSIONS = ['1.1', '1.2', '1.3', '1.4']


def upto(table, v):
    if type(table['1.1']) is list:
        out = []
        for x in VERSIONS[:VERSIONS.index(v) + 1]:
            out = out + table[x]
        return out
    out = {}
    for x in VERSIONS[:VERSIONS.index(v) + 1]:
        out.update(table[x])
    return out


@scenario('C24', 'content-types', 'each assigned content-type number and name correspond, in every codec that uses the table',
          lambda: range(len(CONTENT_TYPES)))
def t_ctype(e, i):
    name = st(CONTENT_TYPES[i])
    decodes(e, 'constrained_media', [0x80 | i], name)
    decodes(e, 'well_known_media', [0x80 | i], name)
    decodes(e, 'well_known_media', [1, i], name)
    decodes(e, 'media_type', [0x80 | i], name)
    decodes(e, 'content_type_value', [0x80 | i], (name, {}))
    encodes(e, 'constrained_media', [name], [0x80 | i])
    encodes(e, 'media_type', [name], [0x80 | i])


@scenario('C24', 'content-types-outside', 'a content-type number outside the table is a DecodeError')
def t_ctype_out(e, _):
    n = e.atom('number', len(CONTENT_TYPES), 127)
    rejects(e, 'constrained_media', [D.bor(n, 128)], untouched=False)
    rejects(e, 'well_known_media', [D.bor(n, 128)], untouched=False)
    w = e.atom('number2', 128, 255)
    rejects(e, 'well_known_media', [1, w], untouched=False)
    rejects(e, 'well_known_media', [2, e.atom('hi', 1, 255), w], untouched=False)


@scenario('C24', 'charsets', 'each assigned character-set number decodes to its name; 0x80 is any charset')
def t_charset(e, _):
    v = e.case('charset', sorted(CHARSETS) + ['any'])
    if v == 'any':
        decodes(e, 'well_known_charset', [0x80], st('*'))
        return
    name = st(CHARSETS[v])
    if v < 128:
        decodes(e, 'well_known_charset', [0x80 | v], name)
        decodes(e, 'well_known_charset', [1, v], name)
    else:
        decodes(e, 'well_known_charset', [2, v >> 8, v & 255], name)


@scenario('C24', 'charsets-outside', 'an unassigned character-set number is reported as its decimal number',
          lambda: [n for n in range(1, 128) if n not in CHARSETS] + [128, 255, 256, 999, 1001, 2025, 2027, 65535])
def t_charset_out(e, n):
    o = [0x80 | n] if n < 128 else [1, n] if n < 256 else [2, n >> 8, n & 255]
    decodes(e, 'well_known_charset', o, st(str(n)))


@scenario('C24', 'charsets-outside-ranges', 'so is every unassigned number between the assigned ones and above them, up to four octets',
          lambda: [(107, 127), (128, 255), (256, 998), (1001, 2025), (2027, 9999), (10000, 65535), (65536, 99999), (1000000, 9999999), (100000000, 999999999)])
def t_charset_gap(e, inst):
    lo, hi = inst
    n = e.atom('number', lo, hi)
    k = (hi.bit_length() + 7) // 8
    o = [D.bor(n, 128)] if hi < 128 else [k] + [D.band(D.shr(n, 8 * i), 255) for i in range(k - 1, -1, -1)]
    decodes(e, 'well_known_charset', o, S(digits(n, len(str(hi)))))


@scenario('C24', 'header-names', 'each header field number of encoding version 1.2 and its name correspond',
          lambda: range(len(upto(HEADER_NAMES, '1.2'))))
def t_header(e, i):
    name = upto(HEADER_NAMES, '1.2')[i]
    val = st('value')
    oct_val = [ord(c) for c in 'value'] + [0]
    if name == 'Accept':
        val, oct_val = st('text/html'), [0x82]
    elif name == 'Pragma':
        val, oct_val = (st('Cache-control'), st('No-cache')), [0x80]
    decodes(e, 'header', [0x80 | i] + oct_val, (st(name), val))
    decodes(e, 'well_known_header', [0x80 | i] + oct_val, (st(name), val))
    if name != 'Pragma':
        encodes(e, 'header', [st(name), val], [0x80 | i] + oct_val)


@scenario('C24', 'header-names-later', 'numbers of later versions are decoded to their names as well',
          lambda: range(len(upto(HEADER_NAMES, '1.2')), len(upto(HEADER_NAMES, '1.4'))))
def t_header_later(e, i):
    c = [e.atom('c%d' % j, 97, 122) for j in range(3)]
    name = upto(HEADER_NAMES, '1.4')[i]
    decodes(e, 'well_known_header', [0x80 | i] + c + [0], (st(name), S(c)))
    if name == 'Content-ID':
        decodes(e, 'well_known_header', [0x80 | i, 34] + c + [0], (st(name), S(c)))


@scenario('C24', 'header-names-outside', 'a header number outside the table is a DecodeError; another name is spelt out')
def t_header_out(e, _):
    n = e.atom('number', len(upto(HEADER_NAMES, '1.4')), 127)
    rejects(e, 'well_known_header', [D.bor(n, 128), 97, 0], untouched=False)
    name = [e.atom('c%d' % i, 97, 122) for i in range(4)]
    val = [e.atom('v%d' % i, CHAR) for i in range(3)]
    encodes(e, 'header', [S(name), S(val)], name + [0] + val + [0])
    val[0] = e.atom('v', CHAR - D.RSet.of(127, 127))
    decodes(e, 'header', name + [0] + val + [0], (S(name), S(val)))


@scenario('C24', 'header-versions', 'get_header_field_names(v) is the list of fields assigned up to version v', lambda: VERSIONS)
def t_header_ver(e, v):
    f = e.get('messaging.mms.wsp_pdu.get_header_field_names')
    e.same('names', e.ok(f, st(v)), [st(x) for x in upto(HEADER_NAMES, v)])
    if v == '1.2':
        e.same('default names', e.ok(f), [st(x) for x in upto(HEADER_NAMES, v)])
        for bad in ('1.0', '1.5', '1', '2.1', ''):
            e.raises('version %r' % bad, e.run(f, st(bad)), 'ValueError')


def pname(e, label, d, want):
    """parameter table: number -> (name, ...)"""
    if type(d).__name__ != 'ADict':
        e.bad(label, 'a dictionary is required, got %r' % (d,))
    got = {}
    for k, v in d.d.values():
        if type(v) is not tuple or not v or type(v[0]) is not S:
            e.bad(label, 'entry %r of the table is not (name, type)' % (v,))
        got[k] = v[0].text()
    if got != want:
        diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        e.bad(label, 'numbers %s map to %s where %s is assigned' % (diff, [got.get(k) for k in diff], [want.get(k) for k in diff]))
    e.obl += len(want)


@scenario('C24', 'parameters', 'get_well_known_parameters(v) holds exactly the numbers assigned up to version v', lambda: VERSIONS)
def t_param_ver(e, v):
    f = e.get('messaging.mms.wsp_pdu.get_well_known_parameters')
    pname(e, 'parameters', e.ok(f, st(v)), upto(PARAMS, v))
    if v == '1.2':
        pname(e, 'default parameters', e.ok(f), upto(PARAMS, v))
        for bad in ('1.0', '1.5', '1', '2.1', ''):
            e.raises('version %r' % bad, e.run(f, st(bad)), 'ValueError')


@scenario('C24', 'parameter-codes', 'decoding a parameter number gives its name; an unassigned one is a DecodeError',
          lambda: [(v, n) for v in VERSIONS for n in range(0, 34)])
def t_param(e, inst):
    v, n = inst
    f = func(e, dec_cls(e), 'decode_well_known_parameter')
    o = e.atom('after', OCT)
    it = stream(e, [0x80 | n, o])
    r = e.run(f, it, st(v))
    want = upto(PARAMS, v).get(n)
    if want is None:
        e.raises('unassigned parameter', r, 'DecodeError')
    else:
        if not r.ok:
            e.bad('parameter', 'parameter %#x of version %s: %s' % (n, v, r), where=r.where)
        if type(r.v) is not tuple:
            e.bad('parameter', 'a (name, type) pair is required, got %r' % (r.v,))
        same_val(e, 'parameter name', r.v[0], st(want))
        rest(e, it, [o])


@scenario('C24', 'mms-fields', 'each MMS header number and its name correspond', lambda: range(0, 34))
def t_mms(e, n):
    want = MMS_FIELDS.get(n)
    if want is None:
        o = e.atom('after', OCT)
        it = stream(e, [0x80 | n, o])
        e.raises('unassigned field', e.run(func(e, dec_cls(e, True), 'decode_mms_header'), it), 'DecodeError')
    else:
        encodes(e, 'mms_field_name', [st(want)], [0x80 | n], mms=True)
        # the name decoded from the number (values of each type: C26, C27, C33)
        tab = e.mod('messaging.mms.mms_pdu').ns.get('mms_field_names')
        if tab is not None and type(tab).__name__ == 'ADict' and n in [k for k, v in tab.d.values()]:
            e.same('field name', [v for k, v in tab.d.values() if k == n][0][0], st(want))
    if n == 0:
        e.raises('unknown name', e.run(func(e, enc_cls(e, True), 'encode_mms_field_name'), st('Nonsense')), 'EncodeError')


# ------------------------------------------------------------------------------------------------ C28
@scenario('C28', 'operations', 'from every reachable state, each short sequence of operations behaves like a cursor over the items',
          lambda: [(n, c, p) for n in range(0, 5) for c in range(0, n + 1) for p in range(0, c + 1)],
          lambda: [(n, c, p) for n in range(0, 8) for c in range(0, n + 1) for p in range(0, c + 1)])
def it_ops(e, inst):
    """a state is (items left, items read ahead, preview position); reached by previewing c times, resetting and previewing p"""
    n, c, p = inst
    depth = 3 if e.tier == 'quick' else 4
    items = [e.atom('item%d' % i, OCT) for i in range(n)]
    kind = e.case('iterable', ['list', 'array', 'tuple', 'iter'])
    P = e.get('messaging.mms.iterator.PreviewIterator')
    if kind == 'tuple':
        src = tuple(items)
    elif kind == 'array':
        src = AArray('B', list(items))
    else:
        src = AList(list(items))
        if kind == 'iter':
            src = e.ok(Builtin('iter', lambda I, a, kw: I.iter(a[0])), src) if hasattr(e.I, 'iter') else src
    it = e.ok(P, src)
    pos = 0
    pv = 0

    def op(o):
        nonlocal pos, pv
        if o == 'next':
            r = e.rm(it, 'next')
            if pos < n:
                if not r.ok:
                    e.bad('next', 'item %d of %d: %s' % (pos, n, r), where=r.where)
                e.same('next', r.v, items[pos])
                pos += 1
            else:
                e.raises('next at the end', r, 'StopIteration')
            pv = 0
        elif o == 'preview':
            r = e.rm(it, 'preview')
            if pos + pv < n:
                if not r.ok:
                    e.bad('preview', 'item %d of %d: %s' % (pos + pv, n, r), where=r.where)
                e.same('preview', r.v, items[pos + pv])
                pv += 1
            else:
                e.raises('preview at the end', r, 'StopIteration')
        else:
            e.m(it, 'reset_preview')
            pv = 0
    for i in range(c):
        op('preview')
    op('reset')
    for i in range(p):
        op('preview')
    for i in range(depth):
        op(e.case('step%d' % i, ['next', 'preview', 'reset']))
    while pos < n:
        op('next')
    op('next')
    op('preview')


@scenario('C28', 'fresh', 'every short sequence of operations on a new iterator behaves like a cursor over the items',
          lambda: range(0, 4), lambda: range(0, 5))
def it_fresh(e, n):
    depth = 6 if e.tier == 'quick' else 8
    items = [e.atom('item%d' % i, OCT) for i in range(n)]
    it = stream(e, items)
    pos = pv = 0
    for i in range(depth):
        o = e.case('step%d' % i, ['next', 'preview', 'reset'])
        if o == 'reset':
            e.m(it, 'reset_preview')
            pv = 0
            continue
        at = pos if o == 'next' else pos + pv
        r = e.rm(it, o)
        if o == 'next':
            pv = 0
        if at >= n:
            e.raises(o + ' at the end', r, 'StopIteration')
            continue
        if not r.ok:
            e.bad(o, 'item %d of %d: %s' % (at, n, r), where=r.where)
        e.same(o, r.v, items[at])
        if o == 'next':
            pos += 1
        else:
            pv += 1


@scenario('C28', 'any-items', 'the items may be anything, also what counts as false or as nothing, and equal to each other',
          lambda: ['none', 'zero', 'empty', 'false', 'lists', 'equal', 'mixed'])
def it_any(e, w):
    items = {'none': [None, None, 1], 'zero': [0, 0, 0], 'empty': [st(''), st('a'), st('')], 'false': [False, True, False], 'lists': [AList([]), AList([1]), ()],
             'equal': [7, 7, 7, 7], 'mixed': [None, 0, st(''), False, 5]}[w]
    it = stream(e, items)

    def got(what, r, i):
        if not r.ok:
            e.bad(what, 'item %d of %d: %s' % (i, len(items), r), where=r.where)
        if r.v is not items[i] and (items[i] is None or r.v is None or type(r.v) is not type(items[i])):
            e.bad(what, 'item %d is %r, got %r' % (i, items[i], r.v))
        e.same(what, r.v, items[i])
    for i in range(len(items)):
        k = e.case('previewed%d' % i, [0, 1, 2] if len(items) < 5 else [0, 2])
        for j in range(min(k, len(items) - i)):
            got('preview', e.rm(it, 'preview'), i + j)
        if e.case('reset%d' % i, [0, 1]):
            e.m(it, 'reset_preview')
            got('preview after reset', e.rm(it, 'preview'), i)
        got('next', e.rm(it, 'next'), i)
    e.raises('preview at the end', e.rm(it, 'preview'), 'StopIteration')
    e.raises('next at the end', e.rm(it, 'next'), 'StopIteration')


@scenario('C28', 'two-iterators', 'iterators over different or the same data do not affect each other')
def it_two(e, _):
    items = [e.atom('item%d' % i, OCT) for i in range(4)]
    a, b = stream(e, items), stream(e, items)
    e.same('a', e.m(a, 'preview'), items[0])
    e.same('a', e.m(a, 'preview'), items[1])
    e.same('b', e.m(b, 'preview'), items[0])
    e.same('a', e.m(a, 'next'), items[0])
    e.same('b', e.m(b, 'next'), items[0])
    rest(e, a, items[1:], 'items')
    rest(e, b, items[1:], 'items')


@scenario('C28', 'over-iterator', 'an iterator over a partly read iterator yields what that one has left, once',
          lambda: [(n, a, p, k) for n in range(5) for a in range(n + 1) for p in range(n - a + 1) for k in (False, True)])
def it_over(e, inst):
    n, a, p, keep = inst
    items = [e.atom('item%d' % i, OCT) for i in range(n)]
    inner = stream(e, items)
    for i in range(a):
        e.m(inner, 'next')
    for i in range(p):
        e.m(inner, 'preview')
    if not keep:
        e.m(inner, 'reset_preview')
    it = e.ok(e.get('messaging.mms.iterator.PreviewIterator'), inner)
    left = items[a:]
    for i in range(e.case('previewed', [0, 1, 2])):
        r = e.rm(it, 'preview')
        if i < len(left):
            e.same('preview', r.v if r.ok else r, left[i])
        else:
            e.raises('preview at the end', r, 'StopIteration')
    e.m(it, 'reset_preview')
    rest(e, it, left, 'items')


@scenario('C28', 'for-loop', 'iterating a previewed iterator yields every remaining item', lambda: [(n, p) for n in range(5) for p in range(n + 1)])
def it_for(e, inst):
    n, p = inst
    items = [e.atom('item%d' % i, OCT) for i in range(n)]
    it = stream(e, items)
    for i in range(p):
        e.m(it, 'preview')
    L = e.ok(e.I.builtins['list'] if 'list' in getattr(e.I, 'builtins', {}) else Builtin('list', lambda I, a, kw: AList(list(I.iterate(a[0])))), it)
    e.same('items', L, items)


# ------------------------------------------------------------------------------------------------ C29
REJ = {
    'short_integer': (0, D.RSet.of(0, 127)),
    'short_length': (0, D.RSet.of(31, 255)),
    'value_length': (0, D.RSet.of(32, 255)),
    'long_integer': (0, D.RSet.of(31, 255)),
    'integer_value': (0, D.RSet.of(31, 127)),
    'quoted_string': (0, OCT - D.RSet.of(34, 34)),
    'token_text': (0, D.RSet.of(0, 31) | D.RSet.vals(SEPARATORS)),
    'extension_media': (0, D.RSet.of(0, 31) | D.RSet.of(127, 127)),
    'constrained_encoding': (0, D.RSet.of(0, 31) | D.RSet.of(127, 127)),
    'boolean_value': (1, OCT - D.RSet.vals([128, 129])),
    'priority_value': (1, OCT - D.RSet.vals([128, 129, 130])),
    'sender_visibility_value': (1, OCT - D.RSet.vals([128, 129])),
    'mms_header': (1, OCT - D.RSet.vals(0x80 | n for n in MMS_FIELDS)),
}


@scenario('C29', 'reject', 'DecodeError on the first octet leaves that octet and everything after it to be read and previewed',
          lambda: [(n, t) for n in sorted(REJ) for t in (0, 1, 3)])
def reject(e, inst):
    name, t = inst
    mms, dom = REJ[name]
    rejects(e, name, [e.atom('first', dom)], mms=bool(mms), tail=t)


@scenario('C29', 'reject-twice', 'a second decoder tried after a rejection sees the same octets',
          lambda: [(a, b) for a in sorted(REJ) for b in sorted(REJ)])
def reject2(e, inst):
    a, b = inst
    dom = REJ[a][1] & REJ[b][1]
    if not dom:
        e.obl += 1
        return
    f = func(e, dec_cls(e, bool(REJ[a][0])), 'decode_' + a)
    g = func(e, dec_cls(e, bool(REJ[b][0])), 'decode_' + b)
    oc = [e.atom('first', dom), e.atom('after', OCT)]
    it = stream(e, oc)
    e.raises('%s rejects' % a, e.run(f, it), 'DecodeError')
    e.raises('%s rejects' % b, e.run(g, it), 'DecodeError')
    rest(e, it, oc, 'octets left in place after rejection')
