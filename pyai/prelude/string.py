def upper(s):
    return s.upper()


def lower(s):
    return s.lower()


def strip(s, chars=None):
    return s.strip() if chars is None else s.strip(chars)


def split(s, sep=None, maxsplit=-1):
    return s.split(sep, maxsplit)


def replace(s, old, new, maxreplace=-1):
    return s.replace(old, new, maxreplace)


def find(s, *args):
    return s.find(*args)


def count(s, *args):
    return s.count(*args)


def zfill(x, width):
    return str(x).zfill(width)


def ljust(s, width, *args):
    return s.ljust(width, *args)


def rjust(s, width, *args):
    return s.rjust(width, *args)


def atoi(s, base=10):
    return int(s, base)
