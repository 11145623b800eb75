"""Oracles written from the standards (3GPP 23.038, 23.040, WAP-203/209/230), independent of /repo's tables."""
from pyai import dom as D
from pyai.values import S, AInt, st, us

BMP = D.RSet.of(0, 0xffff)

GSM = ('@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r\u00c5\u00e5'
       '\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\x1b\u00c6\u00e6\u00df\u00c9'
       ' !"#\u00a4%&\'()*+,-./0123456789:;<=>?'
       '\u00a1ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c4\u00d6\u00d1\u00dc\u00a7'
       '\u00bfabcdefghijklmnopqrstuvwxyz\u00e4\u00f6\u00f1\u00fc\u00e0')
assert len(GSM) == 128
REG = {ord(c): i for i, c in enumerate(GSM) if i != 0x1b}          # char -> septet
UNREG = {i: ord(c) for i, c in enumerate(GSM) if i != 0x1b}
EXT = {0x0c: 0x0a, ord('^'): 0x14, ord('{'): 0x28, ord('}'): 0x29, ord('\\'): 0x2f, ord('['): 0x3c, ord('~'): 0x3d,
       ord(']'): 0x3e, ord('|'): 0x40, 0x20ac: 0x65}
UNEXT = {v: k for k, v in EXT.items()}
LOOKALIKE = {0xe7: 0x09, 0x391: 0x41, 0x392: 0x42, 0x395: 0x45, 0x397: 0x48, 0x399: 0x49, 0x39a: 0x4b, 0x39c: 0x4d,
             0x39d: 0x4e, 0x39f: 0x4f, 0x3a1: 0x50, 0x3a4: 0x54, 0x3a7: 0x58, 0x3a5: 0x59, 0x396: 0x5a}
REGSET = D.RSet.vals(REG)
EXTSET = D.RSet.vals(EXT)
BADSET = BMP - REGSET - EXTSET
LOOKSET = D.RSet.vals(LOOKALIKE)
NOLOOK = BADSET - LOOKSET


def table(x, m):
    """abstract number mapped through a finite table"""
    return D.pw(lambda v: m[v], x) if isinstance(x, AInt) else m[x]


def septet(x):
    return table(x, REG)


def extseptet(x):
    return table(x, EXT)


def hexs(octets, uni=False):
    """octet list -> upper-case hex text items"""
    out = []
    for o in octets:
        out += [hexd(D.shr(o, 4)), hexd(D.band(o, 15))]
    return out


def hexd(n):
    if type(n) is int:
        return ord('0123456789ABCDEF'[n])
    return D.hexc(n, True)


def pack7(septets, fill=0):
    """bits of the septets after `fill` zero bits, as octets (unused bits zero)"""
    bits = [0] * fill
    for s in septets:
        b = list(D.bitsof(s))
        assert len(b) <= 7, s
        bits += b + [0] * (7 - len(b))
    while len(bits) % 8:
        bits.append(0)
    return [D.from_bits(bits[i:i + 8]) for i in range(0, len(bits), 8)]


def unpack7(octets, n=None, skip=0):
    bits = []
    for o in octets:
        b = list(D.bitsof(o))
        bits += b + [0] * (8 - len(b))
    bits = bits[skip:]
    k = len(bits) // 7 if n is None else n
    return [D.from_bits(bits[7 * i:7 * i + 7]) for i in range(k)]


def swap(digits):
    """semi-octets: list of nibbles -> octets low nibble first, padded with F"""
    d = list(digits)
    if len(d) % 2:
        d.append(15)
    return [D.bor(d[i], D.shl(d[i + 1], 4)) for i in range(0, len(d), 2)]


def uintvar(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7f) | 0x80)
        n >>= 7
    return out


def value_length(n):
    return [n] if n <= 30 else [31] + uintvar(n)
