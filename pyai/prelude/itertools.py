def groupby(iterable, key=None):
    groups = []
    for item in iterable:
        k = item if key is None else key(item)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(item)
        else:
            groups.append((k, [item]))
    for k, items in groups:
        yield k, iter(items)


def compress(data, selectors):
    return (d for d, s in zip(data, selectors) if s)


def combinations(iterable, r):
    pool = tuple(iterable)
    if r == 0:
        yield ()
    else:
        for i in range(len(pool)):
            for rest in combinations(pool[i + 1:], r - 1):
                yield (pool[i],) + rest


def permutations(iterable, r=None):
    pool = tuple(iterable)
    if r is None:
        r = len(pool)
    if r == 0:
        yield ()
    else:
        for i in range(len(pool)):
            for rest in permutations(pool[:i] + pool[i + 1:], r - 1):
                yield (pool[i],) + rest


def product(*args, **kw):
    pools = [tuple(a) for a in args] * kw.get('repeat', 1)
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    for p in result:
        yield p


def ifilterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x


def combinations_with_replacement(iterable, r):
    pool = tuple(iterable)
    if r == 0:
        yield ()
    else:
        for i in range(len(pool)):
            for rest in combinations_with_replacement(pool[i:], r - 1):
                yield (pool[i],) + rest
