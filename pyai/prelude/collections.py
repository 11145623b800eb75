# Python-2 models of library classes, interpreted like the sources under analysis
class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kw):
        dict.__init__(self, *args, **kw)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        self[key] = value = self.default_factory()
        return value

    def copy(self):
        return defaultdict(self.default_factory, self)


class Counter(dict):
    def __init__(self, iterable=None, **kw):
        dict.__init__(self)
        self.update(iterable, **kw)

    def __missing__(self, key):
        return 0

    def update(self, iterable=None, **kw):
        if iterable is not None:
            if isinstance(iterable, dict):
                for key, n in iterable.items():
                    self[key] = self[key] + n
            else:
                for key in iterable:
                    self[key] = self[key] + 1
        for key, n in kw.items():
            self[key] = self[key] + n

    def elements(self):
        return [k for k in self for _ in range(self[k])]


def namedtuple(typename, field_names, verbose=False, rename=False):
    if isinstance(field_names, basestring):
        field_names = field_names.replace(',', ' ').split()
    fields = tuple(field_names)

    class nt(tuple):
        _fields = fields

        def __new__(cls, *args, **kw):
            values = list(args)
            if len(values) > len(fields):
                raise TypeError('too many fields')
            for name in fields[len(values):]:
                if name not in kw:
                    raise TypeError('missing field')
                values.append(kw.pop(name))
            if kw:
                raise TypeError('unexpected field')
            return tuple.__new__(cls, values)

        @classmethod
        def _make(cls, values):
            return tuple.__new__(cls, values)

        def _asdict(self):
            return dict(zip(fields, self))

        def _replace(self, **kw):
            return tuple.__new__(type(self), [kw.pop(n, v) for n, v in zip(fields, self)])

    def getter(i):
        return lambda self: self[i]
    for i, name in enumerate(fields):
        setattr(nt, name, property(getter(i)))
    return nt
