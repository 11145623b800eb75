"""C01, C02: the GSM 03.38 codec."""
from itertools import product
from pyai.harness import scenario
from pyai.values import S, st, us
from . import oracle as O

CODEC = st('gsm0338')


def seqs(alpha, lo, hi):
    return [''.join(p) for n in range(lo, hi + 1) for p in product(alpha, repeat=n)]


@scenario('C01', 'encode-assigned', 'encoding maps alphabet characters to the standard septets / escape pairs',
          lambda: seqs('re', 0, 4), lambda: seqs('re', 0, 7))
def enc(e, kinds):
    e.mod('messaging.sms.gsm0338')
    text, want = [], []
    for i, k in enumerate(kinds):
        if k == 'r':
            c = e.atom('ch%d' % i, O.REGSET)
            want.append(O.septet(c))
        else:
            c = e.atom('ch%d' % i, O.EXTSET)
            want += [0x1b, O.extseptet(c)]
        text.append(c)
    for mode in [None] if len(kinds) > 2 else [None, 'strict', 'replace', 'ignore']:
        got = e.m(S(text, True), 'encode', CODEC, *([st(mode)] if mode else []))
        e.same('encoded text', got, S(want))


@scenario('C01', 'decode-assigned', 'decoding maps septets and escape pairs to the standard characters; unassigned or '
          'truncated escapes give U+00A0', lambda: seqs('reut'[:3], 0, 3) + [s + 't' for s in seqs('reu', 0, 2)],
          lambda: seqs('reu', 0, 5) + [s + 't' for s in seqs('reu', 0, 4)])
def dec(e, kinds):
    e.mod('messaging.sms.gsm0338')
    data, want = [], []
    for i, k in enumerate(kinds):
        if k == 'r':
            o = e.atom('oct%d' % i, list(O.UNREG))
            data.append(o)
            want.append(O.table(o, O.UNREG))
        elif k == 'e':
            o = e.atom('oct%d' % i, list(O.UNEXT))
            data += [0x1b, o]
            want.append(O.table(o, O.UNEXT))
        elif k == 'u':
            o = e.atom('oct%d' % i, [x for x in range(256) if x not in O.UNEXT])
            data += [0x1b, o]
            want.append(0xa0)
        else:
            data.append(0x1b)
            want.append(0xa0)
    for mode in [None] if len(kinds) > 2 else [None, 'strict', 'replace', 'ignore']:
        got = e.m(S(data), 'decode', CODEC, *([st(mode)] if mode else []))
        e.isstr('decoded text', got, True)
        e.same('decoded text', got, S(want, True))


@scenario('C02', 'encode-unassigned', 'unassigned characters: strict and unknown modes raise UnicodeError, replace gives '
          'the look-alike or "?", ignore drops',
          lambda: [(k, m) for k in seqs('relb', 1, 3) if set(k) & set('lb')
                   for m in (None, 'strict', 'replace', 'ignore', 'other')],
          lambda: [(k, m) for k in seqs('relb', 1, 4) if set(k) & set('lb')
                   for m in (None, 'strict', 'replace', 'ignore', 'other', 'xmlcharrefreplace', '')])
def encbad(e, inst):
    kinds, mode = inst
    e.mod('messaging.sms.gsm0338')
    text, want = [], []
    for i, k in enumerate(kinds):
        c = e.atom('ch%d' % i, {'r': O.REGSET, 'e': O.EXTSET, 'l': O.LOOKSET, 'b': O.NOLOOK}[k])
        text.append(c)
        if k == 'r':
            want.append(O.septet(c))
        elif k == 'e':
            want += [0x1b, O.extseptet(c)]
        elif mode == 'replace':
            want.append(O.table(c, O.LOOKALIKE) if k == 'l' else 0x3f)
    r = e.rm(S(text, True), 'encode', CODEC, *([st(mode)] if mode is not None else []))
    if mode in ('replace', 'ignore'):
        if not r.ok:
            e.bad('error mode', 'encoding with errors=%r %r' % (mode, r), where=r.where)
        e.same('encoded text', r.v, S(want))
    else:
        e.raises('error mode', r, 'UnicodeError')


@scenario('C02', 'decode-unassigned', 'octets above 0x7F: strict and unknown modes raise UnicodeError, replace gives "?", '
          'ignore drops',
          lambda: [(k, m) for k in seqs('reb', 1, 3) if 'b' in k for m in (None, 'strict', 'replace', 'ignore', 'other')],
          lambda: [(k, m) for k in seqs('reb', 1, 4) if 'b' in k for m in (None, 'strict', 'replace', 'ignore', 'other', '')])
def decbad(e, inst):
    kinds, mode = inst
    e.mod('messaging.sms.gsm0338')
    data, want = [], []
    for i, k in enumerate(kinds):
        if k == 'r':
            o = e.atom('oct%d' % i, list(O.UNREG))
            data.append(o)
            want.append(O.table(o, O.UNREG))
        elif k == 'e':
            o = e.atom('oct%d' % i, list(O.UNEXT))
            data += [0x1b, o]
            want.append(O.table(o, O.UNEXT))
        else:
            data.append(e.atom('oct%d' % i, 128, 255))
            if mode == 'replace':
                want.append(0x3f)
    r = e.rm(S(data), 'decode', CODEC, *([st(mode)] if mode is not None else []))
    if mode in ('replace', 'ignore'):
        if not r.ok:
            e.bad('error mode', 'decoding with errors=%r %r' % (mode, r), where=r.where)
        e.same('decoded text', r.v, S(want, True))
    else:
        e.raises('error mode', r, 'UnicodeError')


@scenario('C02', 'is_gsm_text', 'is_gsm_text is true exactly for texts over the alphabet and never raises',
          lambda: seqs('reb', 0, 4), lambda: seqs('reb', 0, 6))
def isgsm(e, kinds):
    f = e.get('messaging.sms.gsm0338.is_gsm_text')
    text = [e.atom('ch%d' % i, {'r': O.REGSET, 'e': O.EXTSET, 'b': O.BADSET}[k]) for i, k in enumerate(kinds)]
    r = e.run(f, S(text, True))
    if not r.ok:
        e.bad('is_gsm_text raised', repr(r), where=r.where)
    e.same('is_gsm_text', r.v, 'b' not in kinds)


LONG = [10, 100, 140, 153, 159, 160, 161, 306, 459, 460, 612, 1000, 4000]


@scenario('C02', 'is_gsm_text-long', 'every character of a text counts, however long it is', lambda: [(n, k, w) for n in LONG for k in 'reb' for w in ('first', 'middle', 'last')],
          lambda: [(n, k, w) for n in LONG + [8000, 39015, 65536] for k in 'reb' for w in ('first', 'middle', 'last')])
def isgsm_long(e, inst):
    n, k, w = inst
    text = [97] * n
    text[{'first': 0, 'middle': n // 2, 'last': n - 1}[w]] = e.atom('ch', {'r': O.REGSET, 'e': O.EXTSET, 'b': O.BADSET}[k])
    r = e.run(e.get('messaging.sms.gsm0338.is_gsm_text'), S(text, True))
    if not r.ok:
        e.bad('is_gsm_text raised', repr(r), where=r.where)
    e.same('is_gsm_text', r.v, k != 'b')


FIRST = [(op, c) for op in ('replace', 'ignore', 'strict', 'is_gsm') for c in (0xe1, 0xe7, 0x3b1, 0x4e2d, 0xe9, 0x20ac, 0x40, 0xc7)] + \
    [('d-' + m, o) for m in ('replace', 'ignore', 'strict') for o in (0x80, 0xe9, 0x1b, 0)]


@scenario('C02', 'history', 'what was encoded or decoded before, in whatever error mode, changes nothing', FIRST, fresh=True)
def history(e, inst):
    """@C02 the first call is concrete, the second is over every unassigned / assigned character"""
    op, c = inst
    e.mod('messaging.sms.gsm0338')
    f = e.get('messaging.sms.gsm0338.is_gsm_text')
    for rep in (1, 2):
        if op == 'is_gsm':
            r = e.run(f, S([97, c], True))
            if not r.ok:
                e.bad('is_gsm_text raised', repr(r), where=r.where)
        elif op[:2] == 'd-':
            e.rm(S([97, c]), 'decode', CODEC, st(op[2:]))
        else:
            e.rm(S([97, c], True), 'encode', CODEC, st(op))
    b = e.atom('bad', O.BADSET)
    e.same('is_gsm_text', e.ok(f, S([b], True)), False)
    e.raises('strict encode', e.rm(S([b], True), 'encode', CODEC), 'UnicodeError')
    g = e.atom('good', O.REGSET)
    e.same('is_gsm_text', e.ok(f, S([g], True)), True)
    e.same('encoded text', e.m(S([g], True), 'encode', CODEC), S([O.septet(g)]))
    x = e.atom('ext', O.EXTSET)
    e.same('encoded text', e.m(S([x], True), 'encode', CODEC), S([0x1b, O.extseptet(x)]))
    o = e.atom('oct', list(O.UNREG))
    e.same('decoded text', e.m(S([o]), 'decode', CODEC), S([O.table(o, O.UNREG)], True))
    e.raises('strict decode', e.rm(S([e.atom('high', 128, 255)]), 'decode', CODEC), 'UnicodeError')
