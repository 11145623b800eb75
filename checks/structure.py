"""C41, C43: termination, and names, attributes and calls that resolve on every path."""
from pyai import dom as D
from pyai.dom import Budget
from pyai.harness import scenario
from pyai.values import S, st, us, AList, AArray, AInt, ADict, AObj, ATimedelta, ADatetime, AClass
from . import oracle as O
from . import deliver as DL
from . import message as M
from . import submit as SU
from .effects import OPS, memo
from .mms import text, mkdict
from .wsp import OCT, ASCII, stream, dec_cls, enc_cls, CONTENT_TYPES

STEPS = 400000
LOOPS = 6000

# ------------------------------------------------------------------------------------------------ inputs
CORPUS = {}


def corpus(name, quick, thorough=None):
    def deco(fn):
        CORPUS[name] = (fn, quick, thorough or quick)
        return fn
    return deco


DEC = ['uint_8', 'uint_var', 'short_integer', 'long_integer', 'text_string', 'quoted_string', 'token_text', 'extension_media', 'constrained_encoding',
       'short_length', 'value_length', 'integer_value', 'content_type_value', 'well_known_media', 'media_type', 'constrained_media',
       'content_general_form', 'parameter', 'typed_parameter', 'untyped_parameter', 'untyped_value', 'well_known_parameter', 'typed_value',
       'compact_value', 'field_name', 'date_value', 'delta_seconds_value', 'q_value', 'version_value', 'uri_value', 'text_value', 'no_value',
       'accept_value', 'pragma_value', 'well_known_charset', 'well_known_header', 'application_header', 'header']
MDEC = ['header', 'mms_header', 'encoded_string_value', 'boolean_value', 'delivery_time_value', 'from_value', 'message_class_value', 'message_type_value',
        'priority_value', 'sender_visibility_value', 'response_status_value', 'status_value', 'expiry_value']
ENC = ['uint_8', 'uint_var', 'text_string', 'short_integer', 'long_integer', 'version_value', 'media_type', 'token_text', 'field_name', 'integer_value',
       'date_value', 'delta_seconds_value', 'q_value', 'well_known_charset', 'uri_value', 'text_value', 'no_value', 'constrained_media',
       'constrained_encoding', 'extension_media', 'value_length', 'short_length', 'accept_value']
MENC = ['from_value', 'encoded_string_value', 'message_type_value', 'boolean_value', 'message_class_value', 'priority_value',
        'sender_visibility_value', 'response_status_value', 'status_value', 'mms_field_name']


def octs(e, n, tag='octet'):
    return [e.atom('%s%d' % (tag, i), OCT) for i in range(n)]


def static(e, cls, name):
    r = e.rattr(cls, name)
    return r.v if r.ok else None


@corpus('WSP decoder', lambda: [(m, f, n) for m, fs in ((0, DEC), (1, MDEC)) for f in fs for n in (0, 1, 2)],
        lambda: [(m, f, n) for m, fs in ((0, DEC), (1, MDEC)) for f in fs for n in (0, 1, 2, 3)])
def k_dec(e, inst):
    m, f, n = inst
    fn = static(e, dec_cls(e, bool(m)), 'decode_' + f)
    if fn is not None:
        e.run(fn, stream(e, octs(e, n)))


PREFIX = {'content_type_value': [[5, 0x83], [4, 0x83, 0x85], [31, 3, 0x83], [6, 0x83, 65, 0], [5, 97, 0, 0x81], [3, 2, 1]],
          'header': [[0x80, 4, 0x83], [65, 0], [0x8b, 5]], 'parameter': [[0x80], [0x87], [0x81, 1], [65, 0], [2, 1]],
          'accept_value': [[5, 0x83], [4, 0x83, 0x80]], 'value_length': [[31, 0x80], [31, 0xff, 0xff]], 'long_integer': [[2], [30], [4, 1]],
          'pragma_value': [[5, 0x85], [3, 65, 0]]}
MPREFIX = {'header': [[0x84, 5, 0x83], [0x89, 4, 0x80], [0x89, 2, 0x81], [0x88, 4, 0x80, 2], [0x87, 3, 0x81], [0x96, 4, 0xea], [0x96, 31, 5], [0x8a], [0x8d], [65, 0]],
           'from_value': [[4, 0x80], [31, 4, 0x80]], 'encoded_string_value': [[5, 0xea], [3, 0x83]], 'expiry_value': [[3, 0x81], [4, 0x80, 2]],
           'delivery_time_value': [[3, 0x81], [4, 0x80, 2]]}


@corpus('WSP decoder behind a prefix', lambda: [(m, f, p, n) for m, d in ((0, PREFIX), (1, MPREFIX)) for f in sorted(d) for p in range(len(d[f])) for n in (0, 1, 2)],
        lambda: [(m, f, p, n) for m, d in ((0, PREFIX), (1, MPREFIX)) for f in sorted(d) for p in range(len(d[f])) for n in (0, 1, 2, 3)])
def k_pre(e, inst):
    m, f, p, n = inst
    fn = static(e, dec_cls(e, bool(m)), 'decode_' + f)
    if fn is not None:
        e.run(fn, stream(e, list((MPREFIX if m else PREFIX)[f][p]) + octs(e, n)))


NUMS = [(0, 0), (1, 9), (10, 99), (100, 127), (128, 255), (256, 999), (1000, 9999), (1 << 31, (1 << 31) + 4000), (-300, -100)]
STRS = ['', 'a', 'text/plain', 'x/y', '1.3', '1', '9.99', 'a.b', 'utf-8', 'no such', 'Low', 'no-cache', 'To', '\x80\xff', 'a b', '"', '*']


@corpus('WSP encoder', lambda: [(m, f, k, i) for m, fs in ((0, ENC), (1, MENC)) for f in fs for k, l in (('n', NUMS), ('s', STRS), ('b', [True, False]), ('q', [0.5, 0.001, 0.0, 1.0])) for i in range(len(l))])
def k_enc(e, inst):
    m, f, k, i = inst
    fn = static(e, enc_cls(e, bool(m)), 'encode_' + f)
    if fn is None or (f in ('uint_8', 'uint_var', 'value_length') and k == 'n' and NUMS[i][0] < 0):
        return
    v = e.atom('value', *NUMS[i]) if k == 'n' else st(STRS[i]) if k == 's' else [True, False][i] if k == 'b' else [0.5, 0.001, 0.0, 1.0][i]
    e.run(fn, v)


HV = ['text', 'number', 'true', 'tuple', 'none', 'date']


@corpus('header encoder', lambda: [(m, n, v) for m, l in ((0, HDRS), (1, MHDRS)) for n in l for v in HV])
def k_henc(e, inst):
    m, n, v = inst
    x = {'text': st('abc'), 'number': e.atom('value', 1000, 5000), 'true': True, 'tuple': (st('Type'), st('abc')), 'none': None, 'date': (st('relative'), e.atom('seconds', 1000, 9999))}[v]
    if n == 'Content-Type' and v in ('text', 'true', 'none', 'number'):
        x = (st('text/plain'), ADict())
    e.rm(enc_cls(e, bool(m)), 'encode_header', st(n), x)


HDRS = M.upto(M.HEADER_NAMES, '1.2') + ['X-Other']
MHDRS = [v for v in M.MMS_FIELDS.values()] + ['X-Other']
PARS = ['Q', 'Charset', 'Level', 'Type', 'Name', 'Filename', 'Differences', 'Padding', 'Start', 'Start-info', 'Comment', 'Domain', 'Max-Age', 'Path', 'Secure', 'SEC', 'MAC', 'Read-date', 'Size', 'no-such']


@corpus('parameter encoder', lambda: [(n, v, w) for n in PARS for v in HV for w in ('1.1', '1.2', '1.4')])
def k_penc(e, inst):
    n, v, w = inst
    x = {'text': st('abc'), 'number': e.atom('value', 1000, 5000), 'true': True, 'tuple': (st('Type'), st('abc')), 'none': None, 'date': 0.25}[v]
    e.rm(enc_cls(e), 'encode_parameter', st(n), x, st(w))
    if w == '1.2':
        e.rm(enc_cls(e), 'encode_content_type_value', st('text/plain'), mkdict(e, [(st(n), x)]))


MSGS = {
    'notification': [0x8c, 0x82, 0x98, 49, 50, 0, 0x8d, 0x90, 0x89, 4, 0x80, 43, 49, 0, 0x8a, 0x80, 0x8e, 2, 1, 4, 0x88, 4, 0x81, 2, 7, 8, 0x83, 104, 58, 47, 0],
    'simple': [0x8c, 0x84, 0x8d, 0x90, 0x85, 4, 0x4a, 1, 2, 3, 0x89, 4, 0x80, 43, 49, 0, 0x96, 104, 0, 0x84, 0xa3, 1, 1, 2, 0x83, 104, 105],
    'related': [0x8c, 0x84, 0x84, 8, 0xb3, 0x8a, 60, 49, 62, 0, 0x89, 0x83, 0, 2, 6, 2, 0x83, 0x8e, 97, 46, 98, 0, 104, 105, 10, 1, 3, 0x9e, 0x85, 97, 0, 0xc0, 34, 60, 49, 62, 0, 33],
    'long': [0x8c, 0x84, 0x97, 43, 49, 0, 0x96, 6, 0xea, 104, 195, 169, 33, 0, 0x88, 3, 0x81, 1, 9, 0x87, 3, 0x80, 1, 9, 0x86, 0x80, 88, 45, 97, 0, 98, 0, 0x84, 31, 5, 0x83, 0x81, 0x6a, 1, 1, 0],
}


def variants(n, both=True):
    return [('cut', i) for i in range(n)] + [('octet', i) for i in range(n)] + [('insert', i) for i in range(n + 1)] + [('drop', i) for i in range(n)]


def vary(e, o, v):
    w, i = v
    x = list(o)
    if w == 'cut':
        return x[:i]
    if w == 'octet':
        x[i] = e.atom('changed octet %d' % i, OCT)
    if w == 'insert':
        x.insert(i, e.atom('inserted octet %d' % i, OCT))
    if w == 'drop':
        del x[i]
    return x


def use_message(e, r):
    if not r.ok:
        return
    m = r.v
    e.loose = len(e.I.internal)
    e.rattr(m, 'data_parts'), e.rattr(m, 'content_type'), e.rm(m, 'encode'), e.rm(m, 'smil')
    e.run(M.wap(e, 'is_mms_notification'), m)


@corpus('MMS message', lambda: [(k, v) for k in sorted(MSGS) for v in variants(len(MSGS[k]))])
def k_mms(e, inst):
    k, v = inst
    use_message(e, e.rm(M.cls(e, 'MMSMessage'), 'from_data', AArray('B', vary(e, MSGS[k], v))))


@corpus('short MMS message', lambda: [0, 1, 2], lambda: [0, 1, 2, 3])
def k_short(e, n):
    use_message(e, e.rm(M.cls(e, 'MMSMessage'), 'from_data', AArray('B', octs(e, n))))


@corpus('WAP push', lambda: variants(12))
def k_wap(e, v):
    o = [1, 6, 2, 1, 2] + MSGS['notification']
    r = e.run(M.wap(e, 'extract_push_notification'), S(vary(e, o, v)))
    e.run(M.wap(e, 'is_a_wap_push_notification'), S(vary(e, o, v)))
    use_message(e, r)


DKINDS = {}


def dk(name, m):
    DKINDS[name] = m.octets() if isinstance(m, DL.Msg) else m


dk('gsm', DL.Msg(smsc=[4, 0x91] + O.swap([3, 4, 5, 6, 7, 8]), pid=0, ud=[5] + O.pack7([65, 27, 101, 66, 67])))
dk('gsm-udh', DL.Msg(first=0x44, ud=[9, 5, 0, 3, 7, 2, 1] + O.pack7([65, 66], 1)))
dk('8bit-ports', DL.Msg(first=0x44, dcs=4, ud=[8, 6, 5, 4, 1, 2, 3, 4, 9]))
dk('ucs2', DL.Msg(dcs=8, ud=[4, 0, 65, 0x4e, 0]))
dk('alpha', DL.Msg(sender=[11, 0xd0] + O.pack7([65, 66, 67, 68, 69, 70]), ud=[0]))
dk('udh16', DL.Msg(first=0x44, dcs=8, ud=[9, 6, 8, 4, 1, 2, 2, 1, 0, 65]))


@corpus('DELIVER', lambda: [(k, v, s) for k in sorted(DKINDS) for v in variants(len(DKINDS[k])) for s in (True, False) if s or v[0] == 'cut'],
        lambda: [(k, v, s) for k in sorted(DKINDS) for v in variants(len(DKINDS[k])) for s in (True, False)])
def k_del(e, inst):
    k, v, s = inst
    c = e.get('messaging.sms.SmsDeliver')
    r = e.run(c, DL.hexl(vary(e, DKINDS[k], v)), s)
    if r.ok:
        e.rattr(r.v, 'data')


@corpus('DELIVER of half an octet', lambda: [(k, s) for k in sorted(DKINDS) for s in (True, False)])
def k_half(e, inst):
    k, s = inst
    h = DL.hexl(DKINDS[k])
    c = e.get('messaging.sms.SmsDeliver')
    for i in (1, 3, 7, 21, len(h.items) - 1):
        e.run(c, S(h.items[:i]), s)
    e.run(c, S(h.items + (48,)), s)
    e.run(c, st('xyz!'), s)
    e.run(c, st(''), s)


@corpus('status report', lambda: [v for v in variants(26)])
def k_sr(e, v):
    o = DL.sr_octets(e, 5, [6, 0, 4, 1, 2, 5, 6, 7, 8], 0x91, DL.DATE, 0, DL.DATE, 0, 0)
    x = vary(e, o, v) if v[1] < len(o) else o
    r = e.run(e.get('messaging.sms.SmsDeliver'), DL.hexl(x))
    if r.ok:
        e.rattr(r.v, 'data')


@corpus('user data header', lambda: [(n, l, i) for n in range(0, 7) for l in (0, 1, 2, 4, 9) for i in ('any', 0, 4, 5, 8) if i == 8 or n < (4 if i == 'any' else 6)],
        lambda: [(n, l, i) for n in range(0, 12) for l in (0, 1, 2, 3, 4, 5, 9) for i in ('any', 0, 4, 5, 8)])
def k_udh(e, inst):
    n, l, i = inst
    o = [e.atom('identifier', OCT) if i == 'any' else i, l] + octs(e, n)
    e.rm(e.get('messaging.sms.udh.UserDataHeader'), 'from_bytes', AArray('B', o[:n]))
    if n > 2:
        # a second element of any length
        o[3] = e.atom('second length', 0, n)
        e.rm(e.get('messaging.sms.udh.UserDataHeader'), 'from_bytes', AArray('B', o))


@corpus('GSM codec', lambda: [(f, n, m) for f in ('decode', 'encode') for n in (0, 1, 2, 3) for m in ('strict', 'replace', 'ignore', 'nosuch')])
def k_gsm(e, inst):
    f, n, m = inst
    if f == 'decode':
        v = S([e.atom('octet%d' % i, OCT) for i in range(n)])
    else:
        v = S([e.atom('char%d' % i, 0, 0xffff) for i in range(n)], uni=True)
        e.run(e.get('messaging.sms.gsm0338.is_gsm_text'), v)
    e.run(e.get('messaging.sms.gsm0338.' + f), v, st(m))


SUBT = {'escapes': [0x20ac], 'mixed': [65, 0x20ac], 'plain': [65], 'wide': [0x4e00], 'high': [0xe9], 'astral': [0xd83d, 0xde00], 'esc': [0x1b]}


@corpus('SUBMIT text', lambda: [(k, n, f) for k in sorted(SUBT) for n in (0, 1, 2, 69, 70, 71, 75, 76, 77, 133, 134, 139, 140, 141, 152, 153, 154, 159, 160, 161, 162, 305, 306, 307, 400) for f in (None, 0, 4, 8)],
        lambda: [(k, n, f) for k in sorted(SUBT) for n in range(0, 480) for f in (None, 0, 4, 8)])
def k_sub(e, inst):
    k, n, f = inst
    p = SUBT[k]
    t = S([p[i % len(p)] for i in range(n)], uni=True)
    r = e.run(e.get('messaging.sms.SmsSubmit'), st('+34666'), t)
    if r.ok:
        if f is not None:
            e.rset(r.v, 'fmt', f)
        e.rset(r.v, 'ref', 1)
        e.rm(r.v, 'to_pdu')
        e.rm(r.v, 'to_pdu')


SETV = {'none': None, 'text': st('12'), 'bad': st('+'), 'empty': st(''), 'word': st('abc'), 'int': 3, 'big': 77, 'neg': -1, 'delta': ATimedelta(5 * SU.DAY), 'short': ATimedelta(0),
        'negative': ATimedelta(-1), 'huge': ATimedelta(9999 * SU.DAY), 'date': ADatetime([2011, 5, 6, 7, 8, 9, 0], 0, None), 'float': 1.5, 'true': True, 'list': None, 'uni': us('12345')}


@corpus('SUBMIT setting', lambda: [(a, k) for a in ('number', 'csca', 'validity', 'klass', 'request_status', 'text', 'fmt', 'ref', 'rand_id') for k in sorted(SETV)])
def k_set(e, inst):
    a, k = inst
    o = e.ok(e.get('messaging.sms.SmsSubmit'), st('+34666'), us('hello'))
    v = AList([1]) if k == 'list' else SETV[k]
    e.rset(o, a, v)
    e.rm(o, 'to_pdu')
    e.run(e.get('messaging.sms.SmsSubmit'), v, us('x'))
    e.run(e.get('messaging.sms.SmsSubmit'), st('123'), v)


@corpus('fixed offset', lambda: ['', '+0100', '-0330', '+1', '0', 'abc', '+12', '++', '+aabb', '-00', '1200', '+01:00'])
def k_off(e, t):
    F = e.get('messaging.utils.FixedOffset')
    r = e.rm(F, 'from_timezone', st(t), st('z'))
    if r.ok:
        e.rm(r.v, 'utcoffset', None), e.rm(r.v, 'tzname', None), e.rm(r.v, 'dst', None)


@corpus('message and pages', lambda: M.BK)
def k_build(e, k):
    m = M.build(e, k)
    e.rm(m, 'smil'), e.rm(m, 'encode'), e.rattr(m, 'data_parts')
    e.rm(m, 'to_file', st('/out/x.mms'))
    e.rm(M.cls(e, 'MMSMessage'), 'from_file', st('/out/x.mms'))
    pg = M.new(e, 'MMSMessagePage')
    for v in (None, 5, st('/none'), us('x'), st('a')):
        for f in ('add_text', 'add_image', 'add_audio', 'set_duration'):
            e.rm(pg, f, v)
            e.rm(pg, f, v, 5, 1)
            e.rm(pg, f, v, st('a'), 1)
    e.rm(pg, 'number_of_parts')
    p = M.new(e, 'DataPart')
    e.rm(p, '__len__'), e.rattr(p, 'data'), e.rattr(p, 'content_type')


@corpus('operation', lambda: sorted(OPS))
def k_op(e, name):
    memo(e)
    e.run(__import__('pyai.values').values.Builtin('operation', lambda I, a, kw: opcall(e, name)))


def opcall(e, name):
    from pyai.harness import Found
    try:
        OPS[name](e, 'in')
    except Found:
        pass


# ------------------------------------------------------------------------------------------------ verdicts
STRICT = {'WSP decoder', 'WSP decoder behind a prefix', 'MMS message', 'short MMS message', 'WAP push', 'DELIVER', 'DELIVER of half an octet', 'status report',
          'user data header', 'GSM codec', 'SUBMIT text', 'fixed offset', 'operation'}


def c41(e, name, inst):
    I = e.I
    I.maxsteps, I.maxiter = D.ctx().steps + STEPS, LOOPS
    depth = len(I.stack)
    e.obl += 1
    try:
        CORPUS[name][0](e, inst)
    except Budget as b:
        del I.stack[depth:]
        if len(b.args) > 1:
            e.bad('termination', '%s is not done after %d steps: %s' % (name, STEPS, b.args[0]), where=b.args[1])
        raise
    if I.deep:
        e.bad('termination', '%s calls itself without end' % name, where=I.deep)


def c43(e, name, inst):
    I = e.I
    CORPUS[name][0](e, inst)
    e.obl += 1
    upto = getattr(e, 'loose', len(I.internal)) if name in STRICT else 0
    for i, (x, kind, msg, where) in enumerate(I.internal):
        # a missing method of a plain value is the caller's mistake where the caller may pass anything
        if kind != 'ValueAttribute' or i < upto:
            e.bad('resolution', '%s: %s' % (kind.replace('ValueAttribute', 'AttributeError'), msg), where=where)


for _n in CORPUS:
    scenario('C41', _n, 'the call ends, with a result or an exception, within a number of steps that the input length bounds', CORPUS[_n][1], CORPUS[_n][2])(
        (lambda n: lambda e, inst: c41(e, n, inst))(_n))
    scenario('C43', _n, 'no name, attribute or argument list is found wanting on any path', CORPUS[_n][1], CORPUS[_n][2])(
        (lambda n: lambda e, inst: c43(e, n, inst))(_n))
