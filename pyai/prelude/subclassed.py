# What the sources' own subclasses of dict, list and tuple inherit: a builtin value held in an attribute
class dict_sub(dict):
    def __init__(self, *args, **kw):
        self._v = {}
        dict_sub.update(self, *args, **kw)

    def _get(self):
        if not hasattr(self, '_v'):
            self._v = {}
        return self._v

    def update(self, *args, **kw):
        v = dict_sub._get(self)
        for a in args:
            v.update(a)
        v.update(kw)

    def __getitem__(self, key):
        v = dict_sub._get(self)
        if key in v:
            return v[key]
        if hasattr(type(self), '__missing__'):
            return self.__missing__(key)
        raise KeyError(key)

    def __setitem__(self, key, value):
        dict_sub._get(self)[key] = value

    def __delitem__(self, key):
        del dict_sub._get(self)[key]

    def __contains__(self, key):
        return key in dict_sub._get(self)

    def __len__(self):
        return len(dict_sub._get(self))

    def __iter__(self):
        return iter(dict_sub._get(self))

    def __eq__(self, other):
        v = other._v if isinstance(other, dict_sub) else other
        return dict_sub._get(self) == v

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return repr(dict_sub._get(self))

    def has_key(self, key):
        return key in dict_sub._get(self)

    def get(self, key, default=None):
        return dict_sub._get(self).get(key, default)

    def setdefault(self, key, default=None):
        return dict_sub._get(self).setdefault(key, default)

    def pop(self, *args):
        return dict_sub._get(self).pop(*args)

    def popitem(self):
        return dict_sub._get(self).popitem()

    def clear(self):
        dict_sub._get(self).clear()

    def copy(self):
        return dict_sub._get(self).copy()

    def keys(self):
        return dict_sub._get(self).keys()

    def values(self):
        return dict_sub._get(self).values()

    def items(self):
        return dict_sub._get(self).items()

    def iterkeys(self):
        return iter(dict_sub._get(self))

    def itervalues(self):
        return dict_sub._get(self).itervalues()

    def iteritems(self):
        return dict_sub._get(self).iteritems()


class seq_sub(object):
    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __contains__(self, x):
        return x in self._v

    def __getitem__(self, i):
        return self._v[i]

    def __getslice__(self, i, j):
        return self._v[i:j]

    def _plain(self, other):
        return other._v if isinstance(other, seq_sub) else other

    def __eq__(self, other):
        return self._v == self._plain(other)

    def __ne__(self, other):
        return not self._v == self._plain(other)

    def __add__(self, other):
        return self._v + self._plain(other)

    def __radd__(self, other):
        return other + self._v

    def __mul__(self, n):
        return self._v * n

    def __repr__(self):
        return repr(self._v)

    def index(self, *args):
        return self._v.index(*args)

    def count(self, x):
        return self._v.count(x)


class list_sub(seq_sub, list):
    def __init__(self, items=()):
        self._v = list(items)

    def __setitem__(self, i, x):
        self._v[i] = x

    def __delitem__(self, i):
        del self._v[i]

    def __iadd__(self, other):
        self._v.extend(other)
        return self

    def append(self, x):
        self._v.append(x)

    def extend(self, items):
        self._v.extend(items)

    def insert(self, i, x):
        self._v.insert(i, x)

    def pop(self, *args):
        return self._v.pop(*args)

    def remove(self, x):
        self._v.remove(x)

    def reverse(self):
        self._v.reverse()

    def sort(self, *args, **kw):
        self._v.sort(*args, **kw)


class tuple_sub(seq_sub, tuple):
    def __new__(cls, items=()):
        self = object.__new__(cls)
        self._v = tuple(items)
        return self

    def __init__(self, *args, **kw):
        pass

    def __hash__(self):
        return hash(self._v)
