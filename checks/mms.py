"""C25, C26, C27, C30: value codecs of MMS and WSP headers and parameters, content types with parameters."""
import itertools

from pyai import dom as D
from pyai.harness import scenario
from pyai.values import S, st, us, AList, AArray, AInt, AReal, AEpoch, ADatetime, ADict
from pyai.lib import digits
from . import oracle as O
from .wsp import (OCT, ASCII, CHAR, SEPARATORS, TOKSET, stream, func, dec_cls, enc_cls, rest, decodes, rejects, encodes,
                  same_val, octets_of, be, uv_octets, uv_value, uv_digits, CONTENT_TYPES, CHARSETS, HEADER_NAMES, PARAMS, MMS_FIELDS,
                  VERSIONS, upto)

ALNUM = D.RSet.of(48, 57) | D.RSet.of(65, 90) | D.RSet.of(97, 122)


def text(e, n, name='char', first=ASCII, more=ASCII):
    return [e.atom('%s%d' % (name, i), more if i else first) for i in range(n)]


def plain(n):
    """a text-string of n characters"""
    def f(e):
        c = text(e, n)
        return c + [0], S(c)
    return f


def tok(n):
    def f(e):
        c = text(e, n, first=TOKSET, more=TOKSET)
        return c + [0], S(c)
    return f


def quoted(e):
    """a text-value that is no token: it is quoted"""
    c = [e.atom('char0', TOKSET), 32, e.atom('char1', TOKSET)]
    return [34] + c + [0], S(c)


def longint(n):
    def f(e):
        o = [e.atom('octet0', 1, 255 if n != 5 else 57)] + [e.atom('octet%d' % i, OCT) for i in range(1, n)]
        return [n] + o, be(o)
    return f


def shortint(e):
    v = e.atom('value', 0, 127)
    return [D.bor(v, 128)], v


def intlong(n):
    def f(e):
        o = [e.atom('octet0', 128 if n == 1 else 1, 255)] + [e.atom('octet%d' % i, OCT) for i in range(1, n)]
        return [n] + o, be(o)
    return f


def date(n):
    def f(e):
        o, v = longint(n)(e)
        return o, AEpoch(v)
    return f


def const(octets, value):
    return lambda e: (list(octets), st(value) if isinstance(value, str) else value)


def prefixed(token, g, wrap=None):
    """value-length, token octet, value"""
    def f(e):
        o, v = g(e)
        return O.value_length(len(o) + 1) + [token] + o, wrap(v) if wrap else v
    return f


def ver(e):
    ma, mi = e.atom('major', 1, 7), e.atom('minor', 0, 9)
    return [D.bor(D.bor(D.shl(ma, 4), mi), 128)], S([D.add(ma, 48), 46, D.add(mi, 48)])


ENUM = {
    'boolean_value': {128: True, 129: False},
    'message_class_value': {128: 'Personal', 129: 'Advertisement', 130: 'Informational', 131: 'Auto'},
    'message_type_value': {0x80: 'm-send-req', 0x81: 'm-send-conf', 0x82: 'm-notification-ind', 0x83: 'm-notifyresp-ind',
                           0x84: 'm-retrieve-conf', 0x85: 'm-acknowledge-ind', 0x86: 'm-delivery-ind'},
    'priority_value': {128: 'Low', 129: 'Normal', 130: 'High'},
    'sender_visibility_value': {128: 'Hide', 129: 'Show'},
    'response_status_value': {0x80: 'Ok', 0x81: 'Error-unspecified', 0x82: 'Error-service-denied',
                              0x83: 'Error-message-format-corrupt', 0x84: 'Error-sending-address-unresolved',
                              0x85: 'Error-message-not-found', 0x86: 'Error-network-problem', 0x87: 'Error-content-not-accepted',
                              0x88: 'Error-unsupported-message'},
    'status_value': {0x80: 'Expired', 0x81: 'Retrieved', 0x82: 'Rejected', 0x83: 'Deferred', 0x84: 'Unrecognised'},
}


def enum(t):
    return {'%#x' % k: const([k], v) for k, v in ENUM[t].items()}


ADDRESS = {'present': prefixed(128, plain(9)), 'long': prefixed(128, plain(60)), 'insert': const([1, 129], '<not inserted>')}
MMSVAL = {
    'encoded_string_value': {'text0': plain(0), 'text1': plain(1), 'text8': plain(8), 'text40': plain(40)},
    'uri_value': {'text1': plain(1), 'text12': plain(12)},
    'text_string': {'text1': plain(1), 'text12': plain(12)},
    'date_value': {'octets%d' % n: date(n) for n in (1, 2, 3, 4, 5)},
    'delivery_time_value': dict([('abs%d' % n, prefixed(128, longint(n), lambda v: (st('absolute'), v))) for n in (1, 3, 4, 5, 8)] +
                                [('rel%d' % n, prefixed(129, intlong(n), lambda v: (st('relative'), v))) for n in (1, 2, 4, 5)] +
                                [('rel', prefixed(129, shortint, lambda v: (st('relative'), v)))]),
    'expiry_value': dict([('abs%d' % n, prefixed(128, date(n))) for n in (1, 3, 4, 5)] +
                         [('rel%d' % n, prefixed(129, intlong(n))) for n in (1, 2, 4, 6)] + [('rel', prefixed(129, shortint))]),
    'from_value': ADDRESS,
    'version_value': {'version': ver, 'major': lambda e: (lambda m: ([D.bor(D.shl(m, 4), 0x8f)], S([D.add(m, 48)])))(e.atom('major', 1, 7)),
                      'text': const([ord(c) for c in 'draft'] + [0], 'draft')},
    'long_integer': {'octets%d' % n: longint(n) for n in (1, 2, 4, 5, 8)},
}
MMSVAL.update({t: enum(t) for t in ENUM})
MMSVAL['message_class_value']['token'] = tok(5)
MMSTYPE = {1: 'encoded_string_value', 2: 'encoded_string_value', 3: 'uri_value', 5: 'date_value', 6: 'boolean_value',
           7: 'delivery_time_value', 8: 'expiry_value', 9: 'from_value', 10: 'message_class_value', 11: 'text_string',
           12: 'message_type_value', 13: 'version_value', 14: 'long_integer', 15: 'priority_value', 16: 'boolean_value',
           17: 'boolean_value', 18: 'response_status_value', 19: 'encoded_string_value', 20: 'sender_visibility_value',
           21: 'status_value', 22: 'encoded_string_value', 23: 'encoded_string_value', 24: 'text_string'}


def HEADER_NAMES_12():
    return list(upto(HEADER_NAMES, '1.2'))


def PARAMS_12():
    return upto(PARAMS, '1.2')


# ------------------------------------------------------------------------------------------------ C25
@scenario('C25', 'mms-header-decode', 'every MMS header number is decoded by the codec of its own type',
          lambda: [(n, k) for n in sorted(MMSTYPE) for k in sorted(MMSVAL[MMSTYPE[n]])])
def mh_dec(e, inst):
    n, k = inst
    o, v = MMSVAL[MMSTYPE[n]][k](e)
    name = e.case('decoder', ['mms_header', 'header'])
    decodes(e, name, [0x80 | n] + o, (st(MMS_FIELDS[n]), v), mms=True, label='header %s' % MMS_FIELDS[n])


@scenario('C25', 'mms-header-encode', 'every MMS header name is encoded as its number and by the codec of its own type',
          lambda: [(n, k) for n in sorted(MMSTYPE) for k in sorted(MMSVAL[MMSTYPE[n]])
                   if not (MMSTYPE[n] == 'from_value' and k == 'insert')])
def mh_enc(e, inst):
    n, k = inst
    o, v = MMSVAL[MMSTYPE[n]][k](e)
    encodes(e, 'header', [st(MMS_FIELDS[n]), v], [0x80 | n] + o, mms=True, label='header %s' % MMS_FIELDS[n])


@scenario('C25', 'mms-content-type', 'the MMS Content-Type header is coded by the content-type codec, both ways', lambda: [0, 3, 0x23, 0x33])
def mh_ct(e, i):
    decodes(e, 'mms_header', [0x84, 0x80 | i], (st('Content-Type'), (st(CONTENT_TYPES[i]), {})), mms=True)
    nm = text(e, 5, first=ALNUM)
    decodes(e, 'header', [0x84, 3 + 5, 0x80 | i, 0x85] + nm + [0], (st('Content-Type'), (st(CONTENT_TYPES[i]), {'Name': S(nm)})), mms=True)
    encodes(e, 'header', [st('Content-Type'), (st(CONTENT_TYPES[i]), ADict())], [0x84, 0x80 | i], mms=True)
    encodes(e, 'header', [st('Content-Type'), (st(CONTENT_TYPES[i]), mkdict(e, [(st('Name'), S(nm))]))], [0x84, 3 + 5, 0x80 | i, 0x85] + nm + [0], mms=True)


WSPVAL = {'Accept': {'known': const([0x82], 'text/html'), 'spelt': const([ord(c) for c in 'x/y'] + [0], 'x/y')},
          'Pragma': {'no-cache': const([0x80], ('Cache-control', 'No-cache'))}}


@scenario('C25', 'wsp-header', 'every WSP header is coded by the codec of its own type, both ways',
          lambda: [(i, k) for i, h in enumerate(upto(HEADER_NAMES, '1.2')) for k in sorted(WSPVAL.get(h, {'text': 0}))])
def wh(e, inst):
    i, k = inst
    name = upto(HEADER_NAMES, '1.2')[i]
    o, v = WSPVAL.get(name, {'text': plain(6)})[k](e)
    if name == 'Pragma':
        v = tuple(st(x) for x in v)
    decodes(e, 'header', [0x80 | i] + o, (st(name), v), label='header %s' % name)
    # a header with two numbers may be written with either
    nums = [j for j, h in enumerate(upto(HEADER_NAMES, '1.2')) if h == name]
    if len(nums) == 1:
        encodes(e, 'header', [st(name), v], [0x80 | i] + o, label='header %s' % name)


def near(names):
    """names that resemble assigned ones without being one"""
    out = []
    for n in names:
        for x in (n.lower(), n.upper(), n.swapcase(), n + 'x', n[:-1], 'x' + n, n.replace('-', '_'), n.title()):
            if x and x not in names and x not in out:
                out.append(x)
    return out


@scenario('C25', 'resembling-header', 'a header whose name resembles an assigned one is an application header, both ways',
          lambda: [(mms, x) for mms in (False, True) for x in near([n for n in (MMS_FIELDS.values() if mms else HEADER_NAMES_12())])])
def near_header(e, inst):
    mms, name = inst
    if mms and (name in HEADER_NAMES_12() or name.startswith('X-Mms-')) or not mms and name in MMS_FIELDS.values():
        return
    c = text(e, 3)
    encodes(e, 'header', [st(name), S(c)], [ord(x) for x in name] + [0] + c + [0], mms=mms)
    if name[0].isalpha():
        decodes(e, 'header', [ord(x) for x in name] + [0] + c + [0], (st(name), S(c)), mms=mms)


@scenario('C25', 'resembling-parameter', 'a parameter whose name resembles an assigned one is an untyped parameter, both ways',
          lambda: near(sorted(set(PARAMS_12().values()))))
def near_param(e, name):
    v = e.atom('value', 0, 127)
    encodes(e, 'parameter', [st(name), v], [ord(x) for x in name] + [0, D.bor(v, 128)])
    decodes(e, 'parameter', [ord(x) for x in name] + [0, D.bor(v, 128)], (st(name), v))


@scenario('C25', 'other-header', 'an application header is its name and its value as text, both ways', lambda: [(1, 0), (6, 4), (20, 40)])
def ah(e, inst):
    n, m = inst
    nm = [88] + text(e, n, 'name', TOKSET, TOKSET)
    c = text(e, m)
    for mms in (False, True):
        encodes(e, 'header', [S(nm), S(c)], nm + [0] + c + [0], mms=mms)
        decodes(e, 'header', nm + [0] + c + [0], (S(nm), S(c)), mms=mms)


def qval(dec):
    def f(e):
        if dec == 1:
            q = e.atom('hundredths', 0, 99)
            return [D.add(q, 1)], AReal(q, 100)
        q = e.atom('thousandths', D.RSet.of(1, 27))
        return [D.add(q, 100)], AReal(q, 1000)
    return f


def qlong(e):
    q = e.atom('thousandths', 28, 999)
    v = D.add(q, 100)
    return [D.bor(D.shr(v, 7), 128), D.band(v, 127)], AReal(q, 1000)


def setnumber(n, lo, hi):
    """an unassigned character set, n octets: its decimal number"""
    def f(e):
        v = e.atom('number', lo, hi)
        return ([n] + [D.band(D.shr(v, 8 * i), 255) for i in range(n - 1, -1, -1)],
                S(digits(v, len(str(hi)))))
    return f


PARVAL = {
    'q_value': {'0.0': const([1], 0.0), '0.1': const([11], 0.1), '0.99': const([100], 0.99), '0.333': const([0x83, 0x31], 0.333),
                '0.001': const([101], 0.001), '0.027': const([127], 0.027), '0.028': const([0x81, 0], 0.028), '0.999': const([0x88, 0x4b], 0.999)},
    'well_known_charset': dict([(CHARSETS[c], const(([0x80 | c] if c < 128 else [2, c >> 8, c & 255]), CHARSETS[c])) for c in CHARSETS] +
                               [('any', const([128], '*')), ('number', const([2, 1, 0], '256')), ('number7', const([0x87 + 0x30], '55')), ('number2', setnumber(2, 2027, 9999)),
                                ('number4', setnumber(4, 3000000000, 4294967295)), ('number3', setnumber(3, 100000, 999999))]),
    'version_value': MMSVAL['version_value'],
    'integer_value': {'short': shortint, 'long1': intlong(1), 'long2': intlong(2), 'long4': intlong(4), 'long9': intlong(9)},
    'text_string': {'text0': plain(0), 'text1': plain(1), 'text12': plain(12)},
    'field_name': {'known': const([0x80], 'Accept'), 'known2': const([0xb7], 'Profile-Warning'), 'token': lambda e: (lambda c: (c + [0], S(c)))([95] + text(e, 4, 'char', TOKSET, TOKSET))},
    'short_integer': {'short': shortint},
    'constrained_encoding': {'short': shortint, 'text': plain(7)},
    'delta_seconds_value': {'short': shortint, 'long1': intlong(1), 'long3': intlong(3), 'long5': intlong(5)},
    'no_value': {'no': const([0], 0)},
    'text_value': {'token1': tok(1), 'token9': tok(9), 'none': const([0], ''), 'quoted': quoted},
    'date_value': {'octets4': date(4), 'octets3': date(3), 'octets5': date(5)},
}
PARTYPE = {0: 'q_value', 1: 'well_known_charset', 2: 'version_value', 3: 'integer_value', 5: 'text_string', 6: 'text_string',
           7: 'field_name', 8: 'short_integer', 9: 'constrained_encoding', 10: 'text_string', 11: 'text_string',
           12: 'text_string', 13: 'text_string', 14: 'delta_seconds_value', 15: 'text_string', 16: 'no_value',
           17: 'short_integer', 18: 'text_value', 19: 'date_value', 20: 'date_value', 21: 'date_value', 22: 'integer_value'}
PARTYPE.update({n: 'text_value' for n in range(23, 30)})


@scenario('C25', 'parameter-decode', 'every parameter number of version 1.2 is decoded by the codec of its own type',
          lambda: [(n, k) for n in sorted(upto(PARAMS, '1.2')) for k in sorted(PARVAL[PARTYPE[n]])])
def par_dec(e, inst):
    n, k = inst
    o, v = PARVAL[PARTYPE[n]][k](e)
    name = e.case('decoder', ['parameter', 'typed_parameter'])
    pname = upto(PARAMS, '1.2')[n]
    # the number is an integer-value, so its long form is valid as well
    num = e.case('number', [[0x80 | n], [1, n], [3, 0, 0, n]])
    decodes(e, name, num + o, (st(pname), v), label='parameter %s' % pname)


@scenario('C25', 'parameter-type', 'every value type of the parameter table has a working decoder',
          lambda: [(t, k) for t in sorted(PARVAL) for k in sorted(PARVAL[t])])
def par_type(e, inst):
    t, k = inst
    o, v = PARVAL[t][k](e)
    decodes(e, t, o, v)


def number_of(name, v):
    return max(n for n, x in upto(PARAMS, v).items() if x == name)


@scenario('C25', 'parameter-encode', 'every parameter name is encoded as a number of the chosen version and by the codec of that type',
          lambda: [(v, nm, k) for v in VERSIONS for nm in sorted(set(upto(PARAMS, v).values()))
                   for k in sorted(PARVAL[PARTYPE[number_of(nm, v)]])])
def par_enc(e, inst):
    ver_, name, k = inst
    n = number_of(name, ver_)
    o, v = PARVAL[PARTYPE[n]][k](e)
    args = [st(name), v, st(ver_)]
    if ver_ == '1.2' and e.case('version', ['given', 'default']) == 'default':
        args = args[:2]
    encodes(e, 'parameter', args, [0x80 | n] + o, label='parameter %s' % name)


@scenario('C25', 'q-values', 'every quality factor of up to three decimals is encoded and decoded exactly',
          lambda: range(0, 1000, 37), lambda: range(0, 1000))
def qvals(e, q):
    o = O.uintvar(q // 10 + 1 if q % 10 == 0 else q + 100)
    encodes(e, 'q_value', [q / 1000.0], o)
    decodes(e, 'q_value', o, q / 1000.0)


@scenario('C25', 'q-value-refused', 'a quality factor outside 0..0.999 is refused', lambda: [1.0, 1.5, -0.1, 2])
def qbad(e, q):
    e.raises('q', e.run(func(e, enc_cls(e), 'encode_q_value'), q), 'EncodeError')


# ------------------------------------------------------------------------------------------------ C26
@scenario('C26', 'assigned', 'an assigned octet decodes to its value and its value encodes to it',
          lambda: [(t, k) for t in sorted(ENUM) for k in sorted(ENUM[t])])
def en_known(e, inst):
    t, k = inst
    v = ENUM[t][k]
    v = st(v) if isinstance(v, str) else v
    decodes(e, t, [k], v, mms=True)
    encodes(e, t, [v], [k], mms=True)


FALLBACK = {'message_type_value': '<unknown>', 'response_status_value': 'Error-unspecified', 'status_value': 'Unrecognised'}


@scenario('C26', 'unassigned', 'an unassigned octet gives the documented fallback', lambda: sorted(ENUM))
def en_unknown(e, t):
    dom = OCT - D.RSet.vals(ENUM[t])
    if t == 'message_class_value':
        every = D.RSet.vals(x for x in range(33, 256) if x != 127 and x not in SEPARATORS)
        c = text(e, e.case('length', [1, 4]), first=every - D.RSet.vals(ENUM[t]), more=every)
        decodes(e, t, c + [0], S(c), mms=True)
    elif t in FALLBACK:
        decodes(e, t, [e.atom('octet', dom)], st(FALLBACK[t]), mms=True)
    else:
        rejects(e, t, [e.atom('octet', dom)], mms=True)


ENCFALL = {'message_type_value': 0x80, 'status_value': 0x84}


@scenario('C26', 'unknown-name', 'an unknown message type or status name is encoded as the documented default', lambda: sorted(ENCFALL))
def en_name(e, t):
    n = e.case('length', [0, 1, 10, 20])
    encodes(e, t, [S([e.atom('c%d' % i, 48, 57) for i in range(n)])], [ENCFALL[t]], mms=True)


# ------------------------------------------------------------------------------------------------ C27
TL = list(range(0, 6)) + [27, 28, 29, 30, 31, 32, 40, 126, 127, 128, 129, 140]
TLT = list(range(0, 140)) + [255, 256, 300, 520]


def vl(e, n):
    """value-length of n octets, in short or quoted form"""
    forms = (['short'] if n <= 30 else []) + (['quoted'] if True else [])
    f = e.case('length form', forms)
    return [n] if f == 'short' else [31] + O.uintvar(n)


@scenario('C27', 'encoded-string', 'text with or without length and character set decodes to the text, consuming all of it',
          lambda: [(n, c) for n in TL for c in ('plain', 'utf8', 'us-ascii', 'any', 'ucs2', 'big5')],
          lambda: [(n, c) for n in TLT for c in ('plain', 'utf8', 'us-ascii', 'any', 'ucs2', 'big5')])
def encstr(e, inst):
    n, cs = inst
    c = text(e, n)
    o = c + [0]
    if cs != 'plain':
        o = {'utf8': [0xea], 'us-ascii': [0x83], 'any': [0x80], 'ucs2': [2, 0x03, 0xe8], 'big5': [2, 0x07, 0xea]}[cs] + o
        o = vl(e, len(o)) + o
    else:
        encodes(e, 'encoded_string_value', [S(c)], o, mms=True)
    decodes(e, 'encoded_string_value', o, S(c), mms=True)


@scenario('C27', 'from', 'an address decodes to its text, consuming all of it; its encoding has that form',
          lambda: [(n, c) for n in TL for c in ('plain', 'utf8') if n], lambda: [(n, c) for n in TLT for c in ('plain', 'utf8') if n])
def fromv(e, inst):
    n, cs = inst
    c = text(e, n)
    o = c + [0]
    if cs == 'utf8':
        o = vl(e, len(o) + 1) + [0xea] + o
    else:
        encodes(e, 'from_value', [S(c)], O.value_length(len(o) + 1) + [128] + o, mms=True)
    decodes(e, 'from_value', vl(e, len(o) + 1) + [128] + o, S(c), mms=True)


@scenario('C27', 'insert-address', 'the insert-address token stands for a missing address, both ways')
def insaddr(e, _):
    decodes(e, 'from_value', vl(e, 1) + [129], st('<not inserted>'), mms=True)
    encodes(e, 'from_value', [st('')], [1, 129], mms=True)
    encodes(e, 'from_value', [], [1, 129], mms=True)


@scenario('C27', 'time', 'expiry and delivery time decode to the carried date or number of seconds, consuming all of it; encoding is the inverse',
          lambda: [(t, r, n) for t in ('expiry_value', 'delivery_time_value') for r in ('abs', 'rel') for n in range(0, 6)],
          lambda: [(t, r, n) for t in ('expiry_value', 'delivery_time_value') for r in ('abs', 'rel') for n in range(0, 8 if r == 'rel' else 6)])
def timev(e, inst):
    t, r, n = inst
    if n == 0:
        # no octets at all stand for the epoch itself
        o, v = shortint(e) if r == 'rel' else ([0], 0)
    else:
        o, v = (intlong if r == 'rel' else longint)(n)(e)
    if t == 'delivery_time_value':
        v = (st('absolute' if r == 'abs' else 'relative'), v)
    elif r == 'abs':
        v = AEpoch(v) if n else ADatetime((1970, 1, 1, 0, 0, 0, 0))
    o = [128 if r == 'abs' else 129] + o
    encodes(e, t, [v], O.value_length(len(o)) + o, mms=True)
    decodes(e, t, vl(e, len(o)) + o, v, mms=True)


@scenario('C27', 'relative-long-form', 'a small number of seconds in long-integer form decodes as well', lambda: ['expiry_value', 'delivery_time_value'])
def timelong(e, t):
    n = e.case('octets', [1, 2, 3])
    o = [e.atom('octet%d' % i, OCT) for i in range(n)]
    v = be(o)
    if t == 'delivery_time_value':
        v = (st('relative'), v)
    decodes(e, t, vl(e, n + 2) + [129, n] + o, v, mms=True)


@scenario('C27', 'time-token', 'an unknown time token is a DecodeError', lambda: ['expiry_value', 'delivery_time_value'])
def timetok(e, t):
    rejects(e, t, [3, e.atom('token', OCT - D.RSet.of(128, 129)), 1, e.atom('octet', OCT)], mms=True, untouched=False)


@scenario('C27', 'dates', 'a date of a known calendar day is its number of seconds since 1970', lambda: [
    (0, (1970, 1, 1, 0, 0, 0)), (951782400, (2000, 2, 29, 0, 0, 0)), (1262304000, (2010, 1, 1, 0, 0, 0)), (2147483647, (2038, 1, 19, 3, 14, 7)),
    (2147483648, (2038, 1, 19, 3, 14, 8)), (4102444800, (2100, 1, 1, 0, 0, 0)), (4294967296, (2106, 2, 7, 6, 28, 16)), (253402300799, (9999, 12, 31, 23, 59, 59)),
    (1230768000 - 1, (2008, 12, 31, 23, 59, 59))])
def dates(e, inst):
    s, f = inst
    o = [int(b) for b in s.to_bytes(max(1, (s.bit_length() + 7) // 8), 'big')]
    d = ADatetime(f + (0,))
    decodes(e, 'date_value', [len(o)] + o, d)
    if s:
        encodes(e, 'date_value', [d], [len(o)] + o)


# ------------------------------------------------------------------------------------------------ C30
def anyperm(e, label, got, pre, segs, post=()):
    """got is pre + the segments in some order + post"""
    first = None
    open_ = None
    for p in itertools.permutations(segs):
        want = list(pre) + [x for s in p for x in s] + list(post)
        v, msg, w = e.cmp(AList(list(got.items)), want)
        if v is True:
            return
        if v is None:
            open_ = msg
        elif first is None:
            first = (msg, w)
    if open_:
        e.und('%s: %s' % (label, open_))
    e.bad(label, first[0], first[1])


def near_media(i):
    n = CONTENT_TYPES[i]
    return [x for x in (n.lower(), n.upper(), n.title(), n + 's', n[:-1], 'x-' + n, n.replace('/', '/x-'), n.split('/')[0], n.split('/')[0] + '/*')
            if x and x not in CONTENT_TYPES and x[0].isalpha()]


@scenario('C30', 'no-parameters', 'a content type without parameters is one short integer or zero-terminated text, both ways',
          lambda: list(range(len(CONTENT_TYPES))) + [('other', n) for n in (1, 2, 8, 29, 30, 31, 60)] +
          [('near', x) for i in range(len(CONTENT_TYPES)) for x in near_media(i)],
          lambda: list(range(len(CONTENT_TYPES))) + [('other', n) for n in range(1, 140)])
def ct_plain(e, i):
    if type(i) is tuple and i[0] == 'near':
        name = st(i[1])
        o = [ord(x) for x in i[1]] + [0]
    elif type(i) is int:
        o, name = [0x80 | i], st(CONTENT_TYPES[i])
    else:
        c = [120] + text(e, i[1])
        o, name = c + [0], S(c)
    encodes(e, 'content_type_value', [name, ADict()], o)
    decodes(e, 'content_type_value', o, (name, {}))


def mkdict(e, pairs):
    d = ADict()
    for k, v in pairs:
        e.I.setitem(d, k, v)
    return d


def param(e, kind, i, more=False):
    """-> (name, value, octets)"""
    tag = chr(97 + i)
    if kind in ('Name', 'Filename', 'Start', 'Start-info', 'Type'):
        n = {'Name': 5, 'Filename': 6, 'Start': 10, 'Start-info': 11, 'Type': 9}[kind]
        c = text(e, 6, 'p%s' % tag)
        return st(kind), S(c), [0x80 | n] + c + [0]
    if kind == 'Charset':
        k = e.case('charset', [3, 0x6a, 0x7ea])
        return st(kind), st(CHARSETS[k]), [0x81] + ([0x80 | k] if k < 128 else [2, k >> 8, k & 255])
    if kind == 'Level':
        ma, mi = e.atom('major', 1, 7), e.atom('minor', 0, 9)
        return st(kind), S([D.add(ma, 48), 46, D.add(mi, 48)]), [0x82, D.bor(D.bor(D.shl(ma, 4), mi), 128)]
    if kind == 'Padding':
        v = e.atom('padding', 0, 127)
        return st(kind), v, [0x88, D.bor(v, 128)]
    nm = [ord('x'), 97 + i] + text(e, 2, 'n%s' % tag, TOKSET, TOKSET)
    if kind.startswith('name '):
        c = text(e, 2, 'v%s' % tag, TOKSET, TOKSET)
        return st(kind[5:]), S(c), [ord(x) for x in kind[5:]] + [0] + c + [0]
    if kind == 'short':
        v = e.atom('v%s' % tag, 0, 127)
        return S(nm), v, nm + [0, D.bor(v, 128)]
    if kind.startswith('long'):
        n = int(kind[4:])
        o = [e.atom('v%s%d' % (tag, j), (128 if n == 1 else 1) if j == 0 else 0, 255) for j in range(n)]
        return S(nm), be(o), nm + [0, n] + o
    if kind.startswith('token'):
        c = text(e, int(kind[5:]), 'v%s' % tag, TOKSET, TOKSET)
        return S(nm), S(c), nm + [0] + c + [0]
    if kind.startswith('text'):
        # not a token: a quote mark goes first
        sep = e.atom('s%s' % tag, D.RSet.vals(c for c in SEPARATORS if c >= 32)) if i == 0 and not more else 32 if i == 0 else 64
        c = [e.atom('v%s' % tag, TOKSET)] + [sep] + text(e, int(kind[4:]), 'w%s' % tag, TOKSET, TOKSET)
        return S(nm), S(c), nm + [0, 34] + c + [0]
    if kind.startswith('anytext'):
        c = [e.atom('v%s' % tag, TOKSET), 32] + text(e, int(kind[7:]), 'w%s' % tag)
        return S(nm), S(c), nm + [0, 34] + c + [0]
    raise AssertionError(kind)


PK = ['Name', 'Filename', 'Start', 'Start-info', 'Type', 'Charset', 'Level', 'Padding', 'short', 'long1', 'long2', 'long4', 'long8', 'token1', 'token5', 'text1', 'text4']
MEDIA = ['known', 'other', 'long', 'capitals']


def media(e, m, some=True):
    if m == 'known':
        i = e.case('media', [0, 3, 0x23, 0x33, 0x4b]) if some else 0x33
        return st(CONTENT_TYPES[i]), [0x80 | i]
    if m == 'capitals':
        c = [ord(x) for x in e.case('media', ['Text/Plain', 'IMAGE/GIF', 'text/plain2', 'text/plai', 'image/'])]
        return S(c), c + [0]
    c = [120] + text(e, 4 if m == 'other' else 40, 'm')
    return S(c), c + [0]


def ctcase(e, m, kinds):
    name, mo = media(e, m, len(kinds) < 2)
    ps = [param(e, k, i, len(kinds) > 1) for i, k in enumerate(kinds)]
    n = len(mo) + sum(len(p[2]) for p in ps)
    d = mkdict(e, [(p[0], p[1]) for p in ps])
    f = func(e, enc_cls(e), 'encode_content_type_value')
    got = octets_of(e, 'content type', e.ok(f, name, d))
    anyperm(e, 'content type', got, O.value_length(n) + mo, [p[2] for p in ps])
    decodes(e, 'content_type_value', vl(e, n) + mo + [x for p in ps for x in p[2]],
            (name, mkdict(e, [(p[0], p[1]) for p in ps])), label='content type')


@scenario('C30', 'one-parameter', 'value-length, media type, parameter; decodes back to the same type and parameter',
          lambda: [(m, k) for m in MEDIA for k in PK + ['anytext1']] + [('known', 'text%d' % n) for n in range(14, 28)] +
          [('known', 'token%d' % n) for n in (118, 119, 120, 121, 122, 123, 140, 250)],
          lambda: [(m, k) for m in MEDIA for k in PK] + [('known', '%s%d' % (k, n)) for n in range(1, 130) for k in ('text', 'token')] + [('known', 'anytext2')])
def ct_one(e, inst):
    ctcase(e, inst[0], [inst[1]])


@scenario('C30', 'two-parameters', 'value-length, media type, parameters; decodes back to the same type and parameters',
          lambda: [('known', a, b) for a in PK for b in PK if a != b or a[0].islower()] + [(m, 'Name', 'token5') for m in MEDIA] +
          [('known', 'name ' + a, 'name ' + b) for a, b in (('Zz', 'zz'), ('zz', 'Zz'), ('zzz', 'zz'), ('ZZ', 'Zz'), ('z-z', 'z_z'))] + [('known', 'Name', 'name name'), ('known', 'name TYPE', 'Type')],
          lambda: [(m, a, b) for m in MEDIA for a in PK for b in PK if a != b or a[0].islower()])
def ct_two(e, inst):
    ctcase(e, inst[0], inst[1:])


@scenario('C30', 'three-parameters', 'value-length, media type, parameters; decodes back to the same type and parameters',
          lambda: [('known', 'Name', 'Type', 'Start'), ('known', 'Charset', 'Name', 'token5'), ('other', 'short', 'long2', 'text4'), ('long', 'Type', 'Start', 'text1')])
def ct_three(e, inst):
    ctcase(e, inst[0], inst[1:])


@scenario('C30', 'general-form-alone', 'a content type in general form without parameters decodes to the type alone, consuming exactly its length',
          lambda: ['known', 'known1', 'other', 'long'])
def ct_gen(e, m):
    if m == 'known1':
        i = e.case('media', [0, 3, 0x23, 0x4b])
        name, mo = st(CONTENT_TYPES[i]), [1, i]
    else:
        name, mo = media(e, m)
    decodes(e, 'content_type_value', vl(e, len(mo)) + mo, (name, {}), ntail=e.case('octets after', [0, 1, 3]))


@scenario('C30', 'accept', 'an Accept value in general form gives its media type and consumes exactly its length, whatever its parameters',
          lambda: [(m, p) for m in ('known', 'other') for p in ('none', 'q', 'typed', 'untyped', 'q+typed')])
def accept(e, inst):
    m, p = inst
    name, mo = media(e, m)
    o = list(mo)
    if p in ('typed', 'q+typed'):
        o += [0x85] + text(e, 3) + [0]
    if p == 'untyped':
        o += [120, 0, e.atom('value', 128, 255)]
    if p in ('q', 'q+typed'):
        o += [0x80, e.atom('q', 1, 100)]
    decodes(e, 'accept_value', vl(e, len(o)) + o, name, ntail=e.case('octets after', [0, 1, 3]))


@scenario('C30', 'accept-encode', 'an Accept value without parameters is encoded as constrained media', lambda: [0, 2, 0x1e, 'other'])
def accept_enc(e, i):
    if i == 'other':
        c = [120] + text(e, 6)
        encodes(e, 'accept_value', [S(c)], c + [0])
    else:
        encodes(e, 'accept_value', [st(CONTENT_TYPES[i])], [0x80 | i])


@scenario('C30', 'pragma', 'a Pragma value is no-cache or a length and one parameter, both ways', lambda: ['no-cache'] + PK)
def pragma(e, k):
    if k == 'no-cache':
        o, v = [0x80], (st('Cache-control'), st('No-cache'))
    else:
        nm, val, po = param(e, k, 0)
        o, v = O.value_length(len(po)) + po, (nm, val)
    decodes(e, 'pragma_value', o, v)
    encodes(e, 'pragma_value', [v], o)
