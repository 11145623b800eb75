"""C43 and C41: rules over the syntax trees of every function, reached by the corpus or not."""
from pyai import frontend
from pyai.frontend import N
from pyai.lint import lint

# names of Python 2's builtins
BUILTINS = set('''ArithmeticError AssertionError AttributeError BaseException BufferError BytesWarning DeprecationWarning EOFError Ellipsis
EnvironmentError Exception False FloatingPointError FutureWarning GeneratorExit IOError ImportError ImportWarning IndentationError IndexError
KeyError KeyboardInterrupt LookupError MemoryError NameError None NotImplemented NotImplementedError OSError OverflowError
PendingDeprecationWarning ReferenceError RuntimeError RuntimeWarning StandardError StopIteration SyntaxError SyntaxWarning SystemError
SystemExit TabError True TypeError UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError UnicodeTranslateError UnicodeWarning
UserWarning ValueError Warning ZeroDivisionError __debug__ __doc__ __import__ __name__ __package__ __file__ __path__ __builtins__ __builtin__ abs all any apply
basestring bin bool buffer bytearray bytes callable chr classmethod cmp coerce compile complex copyright credits delattr dict dir divmod
enumerate eval execfile exit file filter float format frozenset getattr globals hasattr hash help hex id input int intern isinstance
issubclass iter len license list locals long map max memoryview min next object oct open ord pow print property quit range raw_input reduce
reload repr reversed round set setattr slice sorted staticmethod str sum super tuple type unichr unicode unichr vars xrange zip __metaclass__'''.split())

FUN = ('FunctionDef', 'Lambda')
COMP = ('GeneratorExp', 'SetComp', 'DictComp')


def kids(n):
    for v in n.__dict__.values():
        if isinstance(v, N):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, N):
                    yield x


def walk(n, into=True):
    """nodes of the tree; into=False stays in the scope of n"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in kids(x):
            if into or c.T not in FUN + ('ClassDef',) + COMP:
                todo.append(c)
            elif c.T in ('FunctionDef', 'ClassDef'):
                # names bound here, defaults and decorators evaluated here
                y = N()
                y.T, y.name = 'Bind', c.name
                y.lineno = getattr(c, 'lineno', 0)
                yield y
                todo += list(c.decorator_list) + (list(c.args.defaults) if c.T == 'FunctionDef' else list(c.bases))


def targets(t):
    if t.T == 'Name':
        yield t.id
    elif t.T in ('Tuple', 'List'):
        for x in t.elts:
            for y in targets(x):
                yield y


def bound(body):
    """names a scope binds (body: list of statements)"""
    out, glob = set(), set()
    for s in body:
        # a definition in the body binds its name; what is inside belongs to it
        ns = [s] if s.T in ('FunctionDef', 'ClassDef') else walk(s, False)
        for x in ns:
            if x.T in ('FunctionDef', 'ClassDef', 'Bind'):
                out.add(x.name)
            elif x.T == 'Name' and x.ctx in ('Store', 'Del', 'AugStore', 'Param'):
                out.add(x.id)
            elif x.T in ('Import', 'ImportFrom'):
                for a in x.names:
                    out.add((a.asname or a.name).split('.')[0] if x.T == 'Import' else a.asname or a.name)
            elif x.T == 'ExceptHandler' and isinstance(getattr(x, 'name', None), N):
                out.update(targets(x.name))
            elif x.T == 'Global':
                glob.update(x.names)
    return out - glob, glob


def params(a):
    out = []
    for x in a.args:
        out += list(targets(x))
    for v in (a.vararg, a.kwarg):
        if v:
            out.append(v)
    return out


class Mod:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.names, _ = bound(tree.body)
        self.star = []
        self.imports = {}          # local name -> ('mod', dotted) | ('from', dotted, attr)
        for x in walk(tree):
            if x.T == 'Global':
                self.names.update(x.names)
            if x.T == 'ImportFrom':
                base = self.absolute(x)
                for a in x.names:
                    if a.name == '*':
                        self.star.append(base)
        for x in walk(tree, False):
            if x.T == 'Import':
                for a in x.names:
                    if a.asname or '.' not in a.name:
                        self.imports[a.asname or a.name] = ('mod', a.name)
            elif x.T == 'ImportFrom':
                for a in x.names:
                    self.imports[a.asname or a.name] = ('from', self.absolute(x), a.name)
        self.classes = {c.name: c for c in tree.body if c.T == 'ClassDef'}
        self.funcs = {c.name: c for c in tree.body if c.T == 'FunctionDef'}
        # names bound more than once at module level are not resolved further
        seen = {}
        for s in tree.body:
            for n in bound([s])[0]:
                seen[n] = seen.get(n, 0) + 1
        self.unique = {n for n, k in seen.items() if k == 1}

    def absolute(self, x):
        if not getattr(x, 'level', 0):
            return x.module or ''
        parts = self.name.split('.')
        if not self.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (x.level - 1)]
        return '.'.join(parts + ([x.module] if x.module else []))


class World:
    def __init__(self, asts):
        self.mods = {n: Mod(n, p, t, k) for n, (p, t, k) in asts.items()}
        self.stored = set()        # every attribute name assigned on anything
        self.dynamic = False
        for m in self.mods.values():
            for x in walk(m.tree):
                if x.T == 'Attribute' and x.ctx in ('Store', 'AugStore', 'Del'):
                    self.stored.add(x.attr)
                if x.T == 'Call' and x.func.T == 'Name' and x.func.id == 'setattr':
                    if len(x.args) > 1 and x.args[1].T == 'Str':
                        self.stored.add(''.join(map(chr, x.args[1].s.codes)))
                    else:
                        self.dynamic = True
                if x.T == 'Attribute' and x.attr == '__dict__':
                    self.dynamic = True

    def exports(self, name):
        m = self.mods[name]
        out = set(m.names) | {'__name__', '__doc__', '__file__', '__dict__', '__package__', '__path__'}
        for s in m.star:
            if s in self.mods and s != name:
                out |= self.exports(s)
            elif s not in self.mods:
                return None
        pre = name + '.'
        out |= {k[len(pre):].split('.')[0] for k in self.mods if k.startswith(pre)}
        return out

    def resolve(self, m, name, depth=0):
        """-> ('class', mod, node) / ('func', mod, node) / ('mod', name) / None, for a module-level name bound once"""
        if depth > 8 or name not in m.unique:
            return None
        if name in m.classes:
            return ('class', m, m.classes[name])
        if name in m.funcs:
            return ('func', m, m.funcs[name])
        i = m.imports.get(name)
        if i is None:
            return None
        if i[0] == 'mod':
            return ('mod', i[1]) if i[1] in self.mods else None
        base = i[1]
        if base in self.mods:
            r = self.resolve(self.mods[base], i[2], depth + 1)
            if r:
                return r
            if base + '.' + i[2] in self.mods and i[2] not in self.mods[base].names:
                return ('mod', base + '.' + i[2])
        return None

    def mro(self, m, c, seen=()):
        """-> list of (mod, class node), or None when a base is not resolved; 'object'-like bases are skipped"""
        out = [(m, c)]
        ok = True
        for b in c.bases:
            if b.T == 'Name' and b.id == 'object':
                continue
            r = None
            if b.T == 'Name':
                r = self.resolve(m, b.id)
            elif b.T == 'Attribute' and b.value.T == 'Name':
                q = self.resolve(m, b.value.id)
                if q and q[0] == 'mod':
                    r = self.resolve(self.mods[q[1]], b.attr)
            if r and r[0] == 'class' and r[2] not in seen:
                sub, k = self.mro(r[1], r[2], seen + (c,))
                out += sub
                ok = ok and k
            else:
                ok = False
        return out, ok

    def members(self, m, c):
        """-> (names available on instances, complete?)"""
        mro, ok = self.mro(m, c)
        out = {'__class__', '__dict__', '__doc__', '__module__', '__init__', '__repr__', '__str__', '__hash__', '__eq__', '__ne__', '__reduce__',
               '__setattr__', '__getattribute__', '__delattr__', '__new__', '__sizeof__', '__format__', '__name__', '__bases__', '__mro__', '__subclasses__'}
        for cm, cc in mro:
            b, _ = bound(cc.body)
            out |= b
            if '__getattr__' in b or '__getattribute__' in b or any(x.T == 'Call' for d in cc.decorator_list for x in [d]) or cc.decorator_list:
                ok = False
            if '__metaclass__' in b:
                ok = False
        return out, ok


def scopes(m):
    """yield (qualname, node, chain of enclosing scopes' bound names, class) for each function, lambda, class and the module"""
    def go(node, qual, chain, cls):
        for c in ([node] if False else direct(node)):
            if c.T == 'ClassDef':
                yield (qual + c.name, c, chain, cls)
                for y in go(c, qual + c.name + '.', chain, c if qual == '' else None):
                    yield y
            elif c.T == 'FunctionDef':
                b, g = bound(c.body)
                loc = (b | set(params(c.args))) - g
                yield (qual + c.name, c, chain + [loc], cls)
                for y in go(c, qual + c.name + '.', chain + [loc], cls):
                    yield y
            else:
                if c.T == 'Lambda':
                    loc = set(params(c.args))
                else:
                    loc = set()
                    for x in c.generators:
                        loc.update(targets(x.target))
                yield (qual + '<%s>' % c.T, c, chain + [loc], cls)
                for y in go(c, qual + '<%s>.' % c.T, chain + [loc], cls):
                    yield y
    return go(m.tree, '', [], None)


def direct(node):
    """scopes directly inside node"""
    todo = list(kids(node))
    while todo:
        x = todo.pop(0)
        if x.T in FUN + ('ClassDef',) + COMP:
            yield x
            if x.T in ('FunctionDef', 'ClassDef'):
                for d in list(x.decorator_list) + (list(x.args.defaults) if x.T == 'FunctionDef' else list(x.bases)):
                    for y in direct(wrap(d)):
                        yield y
        else:
            todo = list(kids(x)) + todo


def wrap(x):
    n = N()
    n.T = 'Wrap'
    n.x = x
    return n


def inside(node):
    """expressions and statements evaluated in the scope `node` itself"""
    if node.T == 'Lambda':
        roots = [node.body]
    elif node.T in COMP:
        roots = [v for k, v in node.__dict__.items() if isinstance(v, N)] + [x for g in node.generators for x in kids(g)]
    else:
        roots = node.body
    for r in roots:
        if r.T in FUN + ('ClassDef',) + COMP:
            for d in (list(r.decorator_list) if hasattr(r, 'decorator_list') else []) + (list(r.args.defaults) if r.T in FUN else []):
                for y in walk(d, False):
                    yield y
            continue
        for y in walk(r, False):
            yield y


def guarded(fn_nodes, *names):
    """names probed on purpose: handler of that exception, hasattr or getattr with a default, in this scope"""
    for x in fn_nodes:
        if x.T == 'ExceptHandler' and x.type is not None:
            for y in walk(x.type):
                if y.T == 'Name' and y.id in names:
                    return True
    return False


def where(m, qual, x):
    return '%s:%s %s' % (m.path, getattr(x, 'lineno', '?'), qual)


def allscopes(w, rep):
    for m in w.mods.values():
        top = N()
        top.T, top.body = 'Module', m.tree.body
        yield m, '<module>', top, [], None
        for q, node, chain, cls in scopes(m):
            if node.T == 'FunctionDef':
                rep.func('%s:%s' % (m.path, q))
            yield m, q, node, chain, cls


@lint('C43', 'names', 'every name read is bound in its scope, an enclosing one, the module or the builtins')
def names(rep, asts, tier):
    w = World(asts)
    for m, q, node, chain, cls in allscopes(w, rep):
        exp = w.exports(m.name)
        if exp is None:
            rep.undecided('%s imports * from a module outside the package' % m.path)
            continue
        body = list(inside(node))
        own = bound(node.body)[0] if node.T in ('ClassDef', 'Module') else set()
        ok = exp | BUILTINS | own
        for c in chain:
            ok |= c
        probe = guarded(body, 'NameError', 'UnboundLocalError')
        for x in body:
            if x.T == 'Name' and x.ctx in ('Load', 'AugLoad'):
                if x.id in ok or probe:
                    rep.holds()
                else:
                    rep.bad('name', where(m, q, x), "the name '%s' is bound nowhere" % x.id, key='names/%s.%s/%s' % (m.name, q, x.id))


def external(m, x, local):
    """dotted name of the module or class outside the package that the expression x denotes, when the interpreter that builds the package has it"""
    if x.T == 'Attribute':
        b = external(m, x.value, local)
        return b and b + '.' + x.attr
    if x.T != 'Name' or x.id in local or x.id not in m.unique:
        return None
    i = m.imports.get(x.id)
    if i is None:
        return None
    return i[1] if i[0] == 'mod' else i[1] + '.' + i[2]


@lint('C43', 'library', 'every name taken from a module outside the package exists in that module')
def library(rep, asts, tier):
    w = World(asts)
    ext = frontend.EXTERNAL
    for m, q, node, chain, cls in allscopes(w, rep):
        body = list(inside(node))
        probe = guarded(body, 'ImportError', 'AttributeError') or any(x.T == 'Call' and x.func.T == 'Name' and x.func.id in ('hasattr', 'getattr') for x in body)
        local = set().union(*chain) if chain else set()
        for x in body:
            if x.T == 'ImportFrom' and not getattr(x, 'level', 0) and ext.get(x.module) is not None and x.module not in w.mods:
                for a in x.names:
                    if a.name == '*' or a.name in ext[x.module] or probe or x.module + '.' + a.name in ext:
                        rep.holds()
                    else:
                        rep.bad('library', where(m, q, x), 'module %s has no %s' % (x.module, a.name), key='library/%s/%s' % (m.name, a.name))
            if x.T == 'Attribute' and x.ctx == 'Load':
                b = external(m, x.value, local)
                if b is None or ext.get(b) is None or b in w.mods:
                    continue
                if x.attr in ext[b] or x.attr in w.stored or x.attr.startswith('__') or probe:
                    rep.holds()
                else:
                    rep.bad('library', where(m, q, x), '%s has no %s' % (b, x.attr), key='library/%s.%s/%s' % (m.name, q, x.attr))


@lint('C43', 'imports', 'every name imported from, or looked up in, a module of the package exists there')
def imports(rep, asts, tier):
    w = World(asts)
    for m, q, node, chain, cls in allscopes(w, rep):
        body = list(inside(node))
        probe = guarded(body, 'ImportError', 'AttributeError')
        local = set().union(*chain) if chain else set()
        for x in body:
            if x.T == 'ImportFrom':
                base = m.absolute(x)
                if base not in w.mods:
                    if base.split('.')[0] == 'messaging' and not probe:
                        rep.bad('import', where(m, q, x), 'there is no module %s' % base, key='imports/%s/%s' % (m.name, base))
                    continue
                exp = w.exports(base)
                for a in x.names:
                    if a.name == '*' or exp is None or a.name in exp or probe:
                        rep.holds()
                    else:
                        rep.bad('import', where(m, q, x), '%s has no %s' % (base, a.name), key='imports/%s/%s' % (m.name, a.name))
            elif x.T == 'Import':
                for a in x.names:
                    if a.name.split('.')[0] == 'messaging' and a.name not in w.mods and not probe:
                        rep.bad('import', where(m, q, x), 'there is no module %s' % a.name, key='imports/%s/%s' % (m.name, a.name))
                    else:
                        rep.holds()
            elif x.T == 'Attribute' and x.ctx == 'Load' and x.value.T == 'Name' and x.value.id not in local:
                r = w.resolve(m, x.value.id)
                if r and r[0] == 'mod':
                    exp = w.exports(r[1])
                    if exp is None or x.attr in exp or x.attr in w.stored or probe:
                        rep.holds()
                    else:
                        rep.bad('module attribute', where(m, q, x), '%s has no %s' % (r[1], x.attr), key='imports/%s.%s/%s' % (m.name, q, x.attr))


def selfname(node):
    """(name of the instance or class parameter) of a method"""
    if node.T != 'FunctionDef' or not node.args.args or node.args.args[0].T != 'Name':
        return None
    for d in node.decorator_list:
        if d.T == 'Name' and d.id == 'staticmethod':
            return None
        if not (d.T == 'Name' and d.id in ('property', 'classmethod')) and not (d.T == 'Attribute' and d.attr in ('setter', 'getter', 'deleter')):
            return None
    return node.args.args[0].id


def instances(w, m, node, local_only=True):
    """locals of a function that only ever hold instances of one class of the package -> {name: (mod, class)}"""
    got, other = {}, set()
    if node.T != 'FunctionDef':
        return {}
    for p in params(node.args):
        other.add(p)
    for x in inside(node):
        if x.T == 'Assign' and len(x.targets) == 1 and x.targets[0].T == 'Name' and x.value.T == 'Call':
            f = x.value.func
            r = w.resolve(m, f.id) if f.T == 'Name' else None
            if f.T == 'Attribute' and f.value.T == 'Name':
                z = w.resolve(m, f.value.id)
                r = w.resolve(w.mods[z[1]], f.attr) if z and z[0] == 'mod' else None
            if r and r[0] == 'class':
                n = x.targets[0].id
                if n in got and got[n] != (r[1], r[2]):
                    other.add(n)
                got[n] = (r[1], r[2])
                x.targets[0]._inst = True
    for x in inside(node):
        if x.T == 'Name' and x.ctx in ('Store', 'AugStore', 'Del') and not getattr(x, '_inst', False):
            other.add(x.id)
        if x.T == 'Global':
            other.update(x.names)
        if x.T == 'ExceptHandler' and isinstance(getattr(x, 'name', None), N):
            other.update(targets(x.name))
    inner = set()
    for d in direct(node):
        for x in walk(d):
            if x.T == 'Name' and x.ctx != 'Load':
                inner.add(x.id)
    return {n: c for n, c in got.items() if n not in other and n not in inner}


def holder(w, m, node, cls, x, chain, inst):
    """the class of the package that the expression x is an instance of, or is; -> (mod, class, 'inst'/'class') or None"""
    if x.T != 'Name':
        return None
    if cls is not None and node.T == 'FunctionDef' and x.id == selfname(node) and any(y is node for y in direct(cls)) and not any(
            y.T == 'Name' and y.id == x.id and y.ctx in ('Store', 'AugStore') for y in inside(node)):
        cm = [d.id for d in node.decorator_list if d.T == 'Name']
        return (m, cls, 'class' if 'classmethod' in cm else 'inst')
    if x.id in inst:
        return inst[x.id] + ('inst',)
    if any(x.id in c for c in chain):
        return None
    r = w.resolve(m, x.id)
    if r and r[0] == 'class':
        return (r[1], r[2], 'class')
    return None


def subclasses(w, m, c):
    """members that any subclass in the package adds (a method may rely on its subclasses)"""
    out = set()
    for m2 in w.mods.values():
        for c2 in m2.classes.values():
            mro, _ = w.mro(m2, c2)
            if c2 is not c and any(k is c for _, k in mro):
                out |= bound(c2.body)[0]
    return out


@lint('C43', 'attributes', 'every attribute read from self, a class of the package or an instance just made is a member of the class or assigned somewhere')
def attributes(rep, asts, tier):
    w = World(asts)
    if w.dynamic:
        rep.undecided('the package assigns attributes by computed name')
        return
    cache = {}
    for m, q, node, chain, cls in allscopes(w, rep):
        body = list(inside(node))
        inst = instances(w, m, node)
        probe = guarded(body, 'AttributeError') or any(
            x.T == 'Call' and x.func.T == 'Name' and x.func.id == 'hasattr' for x in body)
        top = node
        for x in body:
            if x.T != 'Attribute' or x.ctx != 'Load':
                continue
            h = holder(w, m, node, cls, x.value, chain, inst)
            if h is None:
                continue
            k = id(h[1])
            if k not in cache:
                mem, ok = w.members(h[0], h[1])
                cache[k] = (mem | subclasses(w, h[0], h[1]), ok)
            mem, ok = cache[k]
            if not ok or probe or x.attr in mem or x.attr in w.stored:
                rep.holds()
            else:
                rep.bad('attribute', where(m, q, x), "%s has no attribute '%s'" % (h[1].name, x.attr), key='attributes/%s.%s/%s' % (m.name, q, x.attr))


def signature(f, drop):
    a = f.args
    names = [x.id if x.T == 'Name' else None for x in a.args][drop:]
    return names, max(0, len(a.args) - len(a.defaults) - drop), len(names), bool(a.vararg), bool(a.kwarg)


def fits(call, sig):
    names, lo, hi, var, kw = sig
    if getattr(call, 'starargs', None) is not None or getattr(call, 'kwargs', None) is not None:
        return None
    n = len(call.args)
    if n > hi and not var:
        return 'passes %d positional arguments where at most %d are accepted' % (n, hi)
    given = set(names[:n])
    for k in call.keywords:
        if k.arg in given:
            return "passes '%s' twice" % k.arg
        if k.arg in names:
            given.add(k.arg)
        elif not kw:
            return "passes an unknown argument '%s'" % k.arg
    miss = [x for x in names[:lo] if x not in given]
    if miss:
        return 'does not pass %s' % ', '.join(map(str, miss))
    return ''


def method(w, m, c, name):
    """-> (function node, number of parameters bound) of a method found by name, or None"""
    mro, ok = w.mro(m, c)
    for cm, cc in mro:
        defs = [x for x in cc.body if x.T == 'FunctionDef' and x.name == name]
        if name in bound(cc.body)[0]:
            if len(defs) != 1 or sum(1 for s in cc.body if name in bound([s])[0]) != 1:
                return None
            return defs[0]
    return None


@lint('C43', 'arguments', 'every call of a function, method or class of the package passes arguments its signature accepts')
def arguments(rep, asts, tier):
    w = World(asts)
    assigned = w.stored
    for m, q, node, chain, cls in allscopes(w, rep):
        body = list(inside(node))
        inst = instances(w, m, node)
        if guarded(body, 'TypeError') and False:
            continue
        for x in body:
            if x.T != 'Call':
                continue
            f, sig, what = x.func, None, None
            target = None
            if f.T == 'Name' and not any(f.id in c for c in chain):
                target = w.resolve(m, f.id)
            elif f.T == 'Attribute' and f.value.T == 'Name':
                h = holder(w, m, node, cls, f.value, chain, inst)
                if h and f.attr not in assigned:
                    fn = method(w, h[0], h[1], f.attr)
                    if fn is not None:
                        dec = [d.id if d.T == 'Name' else '?' for d in fn.decorator_list]
                        if dec == ['staticmethod']:
                            sig = signature(fn, 0)
                        elif dec == ['classmethod']:
                            sig = signature(fn, 1)
                        elif dec == []:
                            sig = signature(fn, 1 if h[2] == 'inst' else 0)
                        what = '%s.%s' % (h[1].name, f.attr)
                elif not any(f.value.id in c for c in chain):
                    r = w.resolve(m, f.value.id)
                    if r and r[0] == 'mod':
                        target = w.resolve(w.mods[r[1]], f.attr)
            if target and target[0] == 'func' and not target[2].decorator_list:
                sig, what = signature(target[2], 0), target[2].name
            elif target and target[0] == 'class':
                mro, ok = w.mro(target[1], target[2])
                what = target[2].name
                if ok and not target[2].decorator_list and not any('__new__' in bound(c.body)[0] or '__metaclass__' in bound(c.body)[0] for _, c in mro):
                    ini = method(w, target[1], target[2], '__init__')
                    if ini is not None and not ini.decorator_list:
                        sig = signature(ini, 1)
                    elif ini is None and not any('__init__' in bound(c.body)[0] for _, c in mro):
                        sig = ([], 0, 0, False, False)
            if sig is None:
                continue
            r = fits(x, sig)
            if r:
                rep.bad('call', where(m, q, x), 'the call of %s %s' % (what, r), key='arguments/%s.%s/%s' % (m.name, q, what))
            else:
                rep.holds()


# ------------------------------------------------------------------------------------------------ definite assignment
class Flow:
    """forward analysis: which locals are assigned on some / on every path; state = (may, must) sets or None when unreachable"""

    def __init__(self, loc, report):
        self.loc, self.report = loc, report

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return (a[0] | b[0], a[1] & b[1])

    def use(self, n, st_):
        """reads in an expression (comprehension and lambda bodies are separate scopes)"""
        if n is None or st_ is None:
            return
        for x in walk(n, False) if n.T not in FUN + COMP else []:
            if x.T == 'Name' and x.ctx in ('Load', 'AugLoad') and x.id in self.loc:
                self.report(x, x.id not in st_[0], x.id not in st_[1])
        # list comprehensions bind in this scope: handled by treating their targets as assigned
    def assign(self, names_, st_):
        if st_ is None:
            return None
        names_ = set(names_) & self.loc
        return (st_[0] | names_, st_[1] | names_)

    def expr(self, n, st_):
        if n is None or st_ is None:
            return st_
        lc = set()
        for x in walk(n, False) if n.T not in FUN + COMP else []:
            if x.T == 'comprehension' or x.T == 'ListComp':
                for g in getattr(x, 'generators', []):
                    lc.update(targets(g.target))
        s2 = (st_[0] | lc, st_[1] | lc)
        self.use(n, s2)
        return (st_[0] | (lc & self.loc), st_[1])

    def block(self, body, st_):
        for s in body:
            st_ = self.stmt(s, st_)
        return st_

    def stmt(self, s, st_):
        if st_ is None:
            return None
        T = s.T
        if self.exc:
            self.exc[-1] = self.join(self.exc[-1], st_)
        if T == 'Assign':
            st_ = self.expr(s.value, st_)
            for t in s.targets:
                st_ = self.target(t, st_)
        elif T == 'AugAssign':
            st_ = self.expr(s.value, st_)
            if s.target.T == 'Name' and s.target.id in self.loc:
                self.report(s.target, s.target.id not in st_[0], s.target.id not in st_[1])
            st_ = self.target(s.target, st_)
        elif T in ('Expr', 'Return', 'Print', 'Assert', 'Exec', 'Raise', 'Delete'):
            for k in kids(s):
                if T == 'Delete':
                    if k.T == 'Name':
                        if k.id in self.loc:
                            st_ = (st_[0], st_[1] - {k.id})
                        continue
                st_ = self.expr(k, st_)
            if T in ('Return', 'Raise'):
                return None
        elif T == 'If':
            st_ = self.expr(s.test, st_)
            a, b = self.block(s.body, st_), self.block(s.orelse, st_)
            st_ = self.join(a, b)
        elif T in ('While', 'For'):
            if T == 'For':
                st_ = self.expr(s.iter, st_)
            always = T == 'While' and (s.test.T == 'Num' and s.test.n or s.test.T == 'Name' and s.test.id == 'True')
            self.brk.append(None)
            self.cont.append(None)
            head = st_
            for _ in range(2):
                c = head
                if T == 'While':
                    c = self.expr(s.test, c)
                else:
                    c = self.target(s.target, c)
                out = self.join(self.block(s.body, c), self.cont[-1])
                head = self.join(head, out)
            end = None if always else head
            if T == 'While' and end is not None:
                end = self.expr(s.test, end)
            end = self.block(s.orelse, end)
            st_ = self.join(end, self.brk.pop())
            self.cont.pop()
        elif T == 'Break':
            self.brk[-1] = self.join(self.brk[-1], st_)
            return None
        elif T == 'Continue':
            self.cont[-1] = self.join(self.cont[-1], st_)
            return None
        elif T == 'TryExcept':
            self.exc.append(st_)
            b = self.block(s.body, st_)
            e = self.join(self.exc.pop(), b)
            # an exception may come from anywhere in the body: what was assigned before it is assigned only maybe
            e = (e[0] | (b[0] if b else set()), e[1]) if e else e
            b = self.block(s.orelse, b)
            for h in s.handlers:
                c = e
                if h.type is not None:
                    c = self.expr(h.type, c)
                if isinstance(getattr(h, 'name', None), N):
                    c = self.target(h.name, c)
                b = self.join(b, self.block(h.body, c))
            if self.exc:
                self.exc[-1] = self.join(self.exc[-1], e)
            st_ = b
        elif T == 'TryFinally':
            self.exc.append(st_)
            b = self.block(s.body, st_)
            e = self.join(self.exc.pop(), b)
            if self.exc:
                self.exc[-1] = self.join(self.exc[-1], e)
            self.block(s.finalbody, e)
            st_ = self.block(s.finalbody, b)
        elif T == 'With':
            st_ = self.expr(s.context_expr, st_)
            if s.optional_vars is not None:
                st_ = self.target(s.optional_vars, st_)
            st_ = self.block(s.body, st_)
        elif T == 'FunctionDef':
            st_ = self.assign([s.name], st_)
        elif T == 'ClassDef':
            st_ = self.assign([s.name], st_)
        elif T in ('Import', 'ImportFrom'):
            st_ = self.assign([(a.asname or a.name).split('.')[0] for a in s.names], st_)
        if self.exc and st_ is not None:
            self.exc[-1] = self.join(self.exc[-1], st_)
        return st_

    def target(self, t, st_):
        if t.T == 'Name':
            return self.assign([t.id], st_)
        if t.T in ('Tuple', 'List'):
            for x in t.elts:
                st_ = self.target(x, st_)
            return st_
        return self.expr(t, st_)

    def run(self, node):
        self.brk, self.cont, self.exc = [], [], []
        ps = set(params(node.args)) & self.loc
        self.block(node.body, (ps, ps))


@lint('C43', 'assigned', 'no local is read where no path has assigned it; reads that some syntactic path reaches unassigned are decided by the corpus')
def assigned(rep, asts, tier):
    w = World(asts)
    for m, q, node, chain, cls in allscopes(w, rep):
        if node.T != 'FunctionDef':
            continue
        b, g = bound(node.body)
        loc = (b | set(params(node.args))) - g
        seen = {}

        def note(x, never, maybe):
            k = (x.id, x.lineno)
            o = seen.get(k, (True, False, x))
            seen[k] = (o[0] and never, o[1] or maybe, x)
        Flow(loc, note).run(node)
        for (n, line), (never, maybe, x) in sorted(seen.items()):
            if never:
                rep.bad('unassigned', where(m, q, x), "the local '%s' is read where no path has assigned it" % n, key='assigned/%s.%s/%s' % (m.name, q, n))
            else:
                rep.holds()


# ------------------------------------------------------------------------------------------------ C41
@lint('C41', 'loops', 'a loop without a condition has a way out')
def loops(rep, asts, tier):
    w = World(asts)
    for m, q, node, chain, cls in allscopes(w, rep):
        for x in inside(node):
            if x.T != 'While':
                if x.T == 'For':
                    rep.holds()
                continue
            const = x.test.T == 'Num' and x.test.n or x.test.T == 'Name' and x.test.id == 'True'
            inner = [y for s in x.body for y in walk(s, False)]
            if const and not any(y.T in ('Break', 'Return', 'Raise', 'Yield', 'Call', 'Subscript', 'Attribute', 'Assert', 'BinOp') for y in inner):
                rep.bad('endless', where(m, q, x), 'the loop has no way out', key='loops/%s.%s' % (m.name, q))
                continue
            if not const:
                # the condition reads something the body changes: a name it assigns, or an object it may change through a call
                reads = {y.id for y in walk(x.test, False) if y.T == 'Name'}
                changed = set()
                opaque = False
                for y in inner:
                    if y.T == 'Name' and y.ctx in ('Store', 'AugStore', 'Del'):
                        changed.add(y.id)
                    if y.T in ('Call', 'Yield', 'Delete') or y.T in ('Attribute', 'Subscript') and y.ctx in ('Store', 'AugStore', 'Del'):
                        opaque = True
                out = any(y.T in ('Break', 'Return', 'Raise', 'Subscript', 'BinOp', 'Attribute', 'Assert') for y in inner)
                calls = any(y.T in ('Call', 'Attribute', 'Subscript') for y in walk(x.test, False))
                if not reads & changed and not opaque and not out and not calls:
                    rep.bad('endless', where(m, q, x), 'nothing in the loop changes its condition', key='loops/%s.%s' % (m.name, q))
                    continue
            rep.holds()
