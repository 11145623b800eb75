"""Parse /repo's current Python-2 sources (with Jython's ast module; nothing is executed) into node trees."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


EXTERNAL = {}      # dotted library module or class -> names in it
PRELUDE = {}       # library module -> tree of its model in Python 2 (added to the built-in models)


class SourceError(Exception):
    pass


class N:
    """AST node; attributes are the Python-2 ast fields."""
    __slots__ = ('T', '__dict__')

    def __repr__(self):
        return '<%s@%s>' % (self.T, getattr(self, 'lineno', '?'))


class Lit:
    """string literal"""
    __slots__ = ('codes', 'uni')

    def __init__(self, codes, uni):
        self.codes = tuple(codes)
        self.uni = uni


OPS = {'Add', 'Sub', 'Mult', 'Div', 'Mod', 'Pow', 'LShift', 'RShift', 'BitOr', 'BitXor', 'BitAnd', 'FloorDiv',
       'And', 'Or', 'Invert', 'Not', 'UAdd', 'USub', 'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'Is', 'IsNot', 'In',
       'NotIn', 'Load', 'Store', 'Del', 'AugLoad', 'AugStore', 'Param'}


def conv(d):
    if isinstance(d, dict):
        t = d['_t']
        if t == '@b' or t == '@u':
            return Lit(d['c'], t == '@u')
        if t == '@i':
            return int(d['v'].rstrip('L'))
        if t == '@f':
            return float(d['v'])
        if t == '@c':
            return complex(d['v'])
        if t in OPS:
            return t
        n = N()
        n.T = t
        for k, v in d.items():
            if k == '_t':
                continue
            if k == '_l':
                n.lineno = v
                continue
            v = conv(v)
            if isinstance(v, Lit) and not (t == 'Str' and k == 's'):
                v = ''.join(map(chr, v.codes))
            elif isinstance(v, list):
                v = [''.join(map(chr, x.codes)) if isinstance(x, Lit) else x for x in v]
            setattr(n, k, v)
        return n
    if isinstance(d, list):
        return [conv(x) for x in d]
    return d


def repo_root():
    return os.environ.get('VERIF_REPO', '/repo')


def source_files(root=None):
    root = root or repo_root()
    out = []
    for dp, dn, fn in os.walk(os.path.join(root, 'messaging')):
        dn[:] = sorted(d for d in dn if d not in ('test', 'tests') and not d.startswith('.'))
        for f in sorted(fn):
            if f.endswith('.py'):
                out.append(os.path.join(dp, f))
    return out


def load(root=None, files=None):
    """-> dict modname -> (path, N tree, is_pkg); raises SourceError when a file does not parse."""
    root = root or repo_root()
    files = files or source_files(root)
    if not files:
        raise SourceError('no sources under %s/messaging' % root)
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, 'dump_ast.py'), 'rb').read())
    pre = sorted(os.path.join(HERE, 'prelude', f) for f in os.listdir(os.path.join(HERE, 'prelude')) if f.endswith('.py'))
    for f in files + pre:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    cache = os.environ.get('VERIF_AST_CACHE')
    data = None
    if cache:
        cf = os.path.join(cache, h.hexdigest() + '.json')
        if os.path.exists(cf):
            data = json.load(open(cf))
    if data is None:
        fd, out = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        try:
            env = dict(os.environ)
            for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH'):
                env.pop(k, None)
            r = subprocess.run(['/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true',
                                os.path.join(HERE, 'dump_ast.py'), out] + files + pre,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
            if r.returncode != 0:
                raise SourceError('the parser front end failed: %s' % r.stdout.decode('utf-8', 'replace')[-2000:])
            data = json.load(open(out))
        finally:
            os.unlink(out)
        if cache:
            os.makedirs(cache, exist_ok=True)
            json.dump(data, open(cf, 'w'))
    EXTERNAL.clear()
    EXTERNAL.update({k: set(v) for k, v in data.get('@external', {}).items()})
    PRELUDE.clear()
    PRELUDE.update({os.path.basename(f)[:-3]: conv(data[f]) for f in pre})
    mods = {}
    for f in files:
        t = data[f]
        if t['_t'] == '@syntaxerror':
            raise SourceError('%s does not parse: %s' % (f, t['msg']))
        rel = os.path.relpath(f, root)[:-3].replace(os.sep, '.')
        pkg = rel.endswith('.__init__')
        if pkg:
            rel = rel[:-len('.__init__')]
        mods[rel] = (os.path.relpath(f, root), conv(t), pkg)
    return mods
