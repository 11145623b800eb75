# Jython 2.7 script: parse (never execute) Python-2 sources and dump their ASTs as JSON.
# usage: jython dump_ast.py OUT.json FILE...
import sys
import ast
import json


def conv(n):
    if isinstance(n, ast.AST):
        d = {'_t': n.__class__.__name__}
        for f in (n._fields or ()):
            d[f] = conv(getattr(n, f))
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['_l'] = int(ln)
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, unicode):
        return {'_t': '@u', 'c': [ord(c) for c in n]}
    if isinstance(n, str):
        return {'_t': '@b', 'c': [ord(c) for c in n]}
    if isinstance(n, (int, long)):
        return {'_t': '@i', 'v': str(n)}
    if isinstance(n, float):
        return {'_t': '@f', 'v': repr(n)}
    if isinstance(n, complex):
        return {'_t': '@c', 'v': repr(n)}
    if str(n) == 'DictComp':
        # Jython does not expose this one as an ast.AST
        return {'_t': 'DictComp', 'key': conv(inner(n, 'getInternalKey')), 'value': conv(inner(n, 'getInternalValue')),
                'generators': conv(list(inner(n, 'getInternalGenerators'))), '_l': int(inner(n, 'getLineno'))}
    return {'_t': '@op', 'v': str(n)}


def inner(n, name, cache={}):
    from java.lang import Class
    if not cache:
        c = Class.forName('org.python.antlr.ast.DictComp')
        cache.update((m.getName(), m) for m in Class.getMethods(c))
    return cache[name].invoke(n, [])


def external(trees):
    """names in the library modules, and in their classes and submodules, that the sources import"""
    sys.path[:] = [p for p in sys.path if p not in ('', '.') and not p.endswith('pyai')]
    want = set(['__builtin__'])
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                want.update(a.name for a in n.names)
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                want.add(n.module)
    out = {}
    for m in sorted(want):
        if m.split('.')[0] in ('messaging', '__future__'):
            continue
        try:
            o = __import__(m)
            for p in m.split('.')[1:]:
                o = getattr(o, p)
        except Exception:
            continue
        out[m] = dir(o)
        for k in dir(o):
            try:
                v = getattr(o, k)
            except Exception:
                continue
            if isinstance(v, type(sys)) or isinstance(v, type):
                out[m + '.' + k] = dir(v)
    return out


def main():
    out = {}
    trees = []
    for p in sys.argv[2:]:
        src = open(p, 'rb').read()
        try:
            t = ast.parse(src, p)
            trees.append(t)
            out[p] = conv(t)
        except SyntaxError, e:
            out[p] = {'_t': '@syntaxerror', 'msg': str(e)}
    try:
        out['@external'] = external(trees)
    except Exception:
        out['@external'] = {}
    open(sys.argv[1], 'wb').write(json.dumps(out))


main()
