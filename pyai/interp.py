"""Abstract interpreter for the Python-2 syntax tree of the package.

Every operator is the abstract transformer over the domains of dom.py / values.py; branches on abstract conditions
partition the trace.  No code of /repo is executed: function bodies are walked as syntax.
"""
import sys
import threading
import time
from . import dom as D
from . import frontend
from .dom import AInt, Cond, Unmodelled, Budget, compare, num
from .values import *

sys.setrecursionlimit(12000)
threading.stack_size(256 * 1024 * 1024)

MAXSTEPS = 6000000
PROBES = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError')


class FInfo:
    __slots__ = ('locals', 'globals', 'isgen', 'args', 'vararg', 'kwarg', 'tuples')


def scan_names(body, args=None):
    """local names of a function body, Python-2 scoping"""
    loc, glb, gen = set(), set(), [False]

    def target(n):
        if n.T == 'Name':
            loc.add(n.id)
        elif n.T in ('Tuple', 'List'):
            for e in n.elts:
                target(e)

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not hasattr(n, 'T'):
            return
        T = n.T
        if T in ('FunctionDef', 'ClassDef'):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if T == 'FunctionDef':
                walk(n.args.defaults)
            else:
                walk(n.bases)
            return
        if T == 'Lambda':
            walk(n.args.defaults)
            return
        if T in ('GeneratorExp', 'SetComp', 'DictComp'):
            walk(n.generators[0].iter)
            return
        if T == 'Yield':
            gen[0] = True
        if T == 'Global':
            glb.update(n.names)
        if T in ('Import', 'ImportFrom'):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
            return
        if T == 'ExceptHandler' and n.name is not None:
            target(n.name)
        if T == 'Name' and n.ctx in ('Store', 'Del', 'AugStore', 'Param'):
            loc.add(n.id)
        if T in ('Assign',):
            for t in n.targets:
                target(t)
        if T in ('For', 'comprehension', 'AugAssign'):
            target(n.target)
        if T == 'With' and n.optional_vars is not None:
            target(n.optional_vars)
        for k, v in n.__dict__.items():
            if isinstance(v, list) or hasattr(v, 'T'):
                walk(v)
    walk(body)
    return loc - glb, glb, gen[0]


class Frame:
    __slots__ = ('loc', 'names', 'globals', 'mod', 'parent', 'qual', 'line', 'cls', 'isclass', 'gen', 'excs')

    def __init__(self, mod, qual, names, globs, parent=None):
        self.loc = {}
        self.names = names
        self.globals = globs
        self.mod = mod
        self.parent = parent
        self.qual = qual
        self.line = 0
        self.cls = None
        self.isclass = False
        self.gen = None
        self.excs = []


NORMAL = None


class Interp:
    def __init__(self, asts):
        self.asts = asts
        self.deadline = None
        from . import lib
        self.lib = lib
        self.build_dispatch()
        self.reset_world()

    # ------------------------------------------------------------- world
    def reset_world(self):
        self.modules = {}
        self.dirty = False
        self.codecs_search = []
        self.loading = 0
        self.stack = []
        self.infos = getattr(self, 'infos', {})
        self.called = getattr(self, 'called', {})
        self.exc_classes = {}
        self.types = {}
        self.builtins = {}
        self.ext = {}
        self.vfs = {}
        self.fslog = []
        self.internal, self.deep, self.intbits = [], None, 31
        self.maxsteps, self.maxiter = MAXSTEPS, 20000
        self.star = None
        self.summ = None
        self.lib.install(self)

    def freeze_all(self):
        """Mark everything reachable from module level as shared state."""
        seen = set()
        todo = [(m.name, m) for m in self.modules.values()]
        while todo:
            name, v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Obj):
                if v.frozen is None:
                    v.frozen = name
                if isinstance(v, AModule):
                    if v.path is not None:
                        todo += [(v.name + '.' + k, x) for k, x in v.ns.items()]
                elif isinstance(v, AClass):
                    if not v.builtin:
                        todo += [(name + '.' + k, x) for k, x in v.ns.items()]
                elif isinstance(v, AList):
                    todo += [(name, x) for x in v.items]
                elif isinstance(v, ADict):
                    todo += [(name, x[1]) for x in v.d.values()]
                elif isinstance(v, AObj):
                    todo += [(name + '.' + k, x) for k, x in v.attrs.items()]
                elif isinstance(v, AFunc):
                    todo += [(name + ' default', x) for x in v.defaults]
                    if v.closure is not None:
                        todo += [(name + ' closure', x) for x in v.closure.loc.values()]
            elif isinstance(v, tuple):
                todo += [(name, x) for x in v]
            elif isinstance(v, (StaticM, ClassM)):
                todo.append((name, v.fn))
            elif isinstance(v, Prop):
                todo += [(name, x) for x in (v.fget, v.fset, v.fdel)]
            elif isinstance(v, Bound):
                todo += [(name, v.fn), (name, v.self_)]

    def mut(self, o):
        if o.frozen is not None and not self.loading:
            self.dirty = True
            D.ctx().events.append(('mutate-shared', o.frozen, self.where()))
        s = self.summ
        if s is not None:
            s.touch(o)

    def where(self):
        for fr in reversed(self.stack):
            return '%s:%s %s' % (fr.mod.path or fr.mod.name, fr.line, fr.qual)
        return None

    def trace(self):
        return ['%s:%s %s' % (fr.mod.path or fr.mod.name, fr.line, fr.qual) for fr in self.stack]

    # ------------------------------------------------------------- errors
    def exc(self, cname, msg=''):
        c = self.exc_classes[cname]
        o = AObj(c)
        o.attrs['args'] = (st(msg),) if isinstance(msg, str) else ((msg,) if msg is not None else ())
        o.attrs['message'] = o.attrs['args'][0] if o.attrs['args'] else st('')
        return ARaise(o, self.trace())

    def err(self, cname, msg=''):
        raise self.exc(cname, msg)

    def ierr(self, cname, msg):
        """an error that no input may cause: unresolved name or attribute, wrong number of arguments"""
        x = self.exc('AttributeError' if cname == 'ValueAttribute' else cname, msg)
        if self.stack and not self.loading and not (cname == 'TypeError' and self.star == len(self.stack)):
            self.internal.append((x.exc, cname, msg, x.where))
        raise x

    def handled(self, exc):
        """the error was provoked on purpose (explicit handler, hasattr, getattr with a default)"""
        self.internal = [t for t in self.internal if t[0] is not exc]

    # ------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.asts:
            if '.' in name:
                self.import_module(name.rsplit('.', 1)[0])
            path, tree, pkg = self.asts[name]
            m = AModule(name, {}, path)
            m.ns['__name__'] = st(name)
            m.ns['__file__'] = st(path)
            m.ns['__doc__'] = None
            self.modules[name] = m
            fr = Frame(m, '<module>', None, (), None)
            fr.loc = m.ns
            self.stack.append(fr)
            self.loading += 1
            try:
                self.exec_block(tree.body, fr)
            finally:
                self.loading -= 1
                self.stack.pop()
            if '.' in name:
                p, c = name.rsplit('.', 1)
                self.modules[p].ns[c] = m
            return m
        e = self.lib.ext_module(self, name)
        pre = frontend.PRELUDE.get(name)
        if e is not None and pre is not None:
            self.modules[name] = e
            fr = Frame(e, '<module>', None, (), None)
            fr.loc = e.ns
            depth = len(self.stack)
            self.stack.append(fr)
            self.loading += 1
            try:
                self.exec_block(pre.body, fr)
            finally:
                self.loading -= 1
                del self.stack[depth:]
        if e is None:
            self.err('ImportError', 'No module named %s' % name)
        self.modules[name] = e
        if '.' in name:
            p, c = name.rsplit('.', 1)
            self.import_module(p).ns[c] = e
        return e

    def resolve_rel(self, fr, name, level):
        if not level or level < 0:
            # implicit relative import (Python 2)
            mod = fr.mod.name
            pkg = mod if self.asts.get(mod, (None, None, False))[2] else mod.rpartition('.')[0]
            if pkg and name:
                cand = pkg + '.' + name
                if cand in self.asts:
                    return cand
            return name
        mod = fr.mod.name
        pkg = mod if self.asts[mod][2] else mod.rpartition('.')[0]
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + name if name else '')

    # ------------------------------------------------------------- calls
    def info_of(self, node):
        k = id(node)
        i = self.infos.get(k)
        if i is None:
            i = FInfo()
            a = node.args
            body = node.body if node.T == 'FunctionDef' else [node.body]
            loc, glb, gen = scan_names(body)
            i.args = []
            i.tuples = {}
            for n, x in enumerate(a.args):
                if x.T == 'Name':
                    i.args.append(x.id)
                    loc.add(x.id)
                else:
                    nm = '.%d' % n
                    i.args.append(nm)
                    i.tuples[nm] = x

                    def tg(t):
                        if t.T == 'Name':
                            loc.add(t.id)
                        else:
                            for e in t.elts:
                                tg(e)
                    tg(x)
            i.vararg, i.kwarg = a.vararg, a.kwarg
            if a.vararg:
                loc.add(a.vararg)
            if a.kwarg:
                loc.add(a.kwarg)
            i.locals = loc
            i.globals = glb
            i.isgen = gen
            self.infos[k] = i
            self._keep = getattr(self, '_keep', [])
            self._keep.append(node)
        return i

    def bind(self, f, args, kw):
        i = f.info
        loc = {}
        names = i.args
        n = len(names)
        if len(args) > n:
            if not i.vararg:
                self.ierr('TypeError', '%s() takes %d arguments (%d given)' % (f.name, n, len(args)))
            loc[i.vararg] = tuple(args[n:])
            args = args[:n]
        elif i.vararg:
            loc[i.vararg] = ()
        for k, v in zip(names, args):
            loc[k] = v
        extra = None
        if i.kwarg:
            extra = ADict()
            loc[i.kwarg] = extra
        for k, v in kw.items():
            if k in names:
                if k in loc:
                    self.ierr('TypeError', '%s() got multiple values for keyword argument %s' % (f.name, k))
                loc[k] = v
            elif extra is not None:
                self.dset(extra, st(k), v)
            else:
                self.ierr('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        nd = len(f.defaults)
        for j, k in enumerate(names):
            if k not in loc:
                if j >= n - nd:
                    loc[k] = f.defaults[j - (n - nd)]
                else:
                    self.ierr('TypeError', '%s() takes at least %d arguments' % (f.name, n - nd))
        return loc

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        t = type(f)
        if t is AFunc:
            return self.call_func(f, list(args), kw)
        if t is Bound:
            if type(f.fn) is AFunc:
                return self.call_func(f.fn, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if t is Builtin:
            return f.f(self, list(args), kw)
        if t is AClass:
            return self.instantiate(f, list(args), kw)
        if t is Unbound:
            if not args or not self.isinst(args[0], f.cls):
                self.err('TypeError', 'unbound method must be called with %s instance as first argument' % f.cls.name)
            return self.call(f.fn, args, kw)
        if t is AObj:
            m = f.cls.find('__call__')
            if m is not None:
                return self.call(self.bind_attr(m, f, f.cls), args, kw)
            self.err('TypeError', "'%s' object is not callable" % f.cls.name)
        if t is Opaque:
            raise Unmodelled('call of %r' % f)
        self.err('TypeError', "'%s' object is not callable" % self.typename(f))

    def call_func(self, f, args, kw):
        i = f.info
        loc = self.bind(f, args, kw)
        fr = Frame(f.mod, f.qual, i.locals, i.globals, f.closure)
        fr.loc = loc
        fr.cls = f.cls
        if len(self.stack) > 180:
            self.deep = self.deep or self.trace()
            self.err('RuntimeError', 'maximum recursion depth exceeded')
        q = (f.mod.path, f.qual)
        self.called[q] = self.called.get(q, 0) + 1
        for nm, t in i.tuples.items():
            self.assign(t, loc.pop(nm), fr)
        if i.isgen:
            return self.make_gen(f, fr)
        if f.node.T == 'Lambda':
            self.stack.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.stack.pop()
        self.stack.append(fr)
        try:
            r = self.exec_block(f.node.body, fr)
        finally:
            self.stack.pop()
        if r is not None and r[0] == 'ret':
            return r[1]
        return None

    def make_gen(self, f, fr):
        """Generators run as host coroutines (threads, strictly alternating)."""
        st_ = {'state': 'new', 'val': None, 'exc': None, 'dead': False}
        go, done = threading.Semaphore(0), threading.Semaphore(0)
        I = self

        class Kill(BaseException):
            pass

        def emit(v):
            st_['val'] = v
            st_['saved'] = I.stack[st_['base']:]
            del I.stack[st_['base']:]
            done.release()
            go.acquire()
            if st_['dead']:
                raise Kill()
            st_['base'] = len(I.stack)
            I.stack.extend(st_['saved'])
            v, st_['sent'] = st_.get('sent'), None
            x, st_['throw'] = st_.get('throw'), None
            if x is not None:
                raise x
            return v
        fr.gen = emit

        def body():
            go.acquire()
            if st_['dead']:
                return
            try:
                st_['base'] = len(I.stack)
                I.stack.append(fr)
                I.exec_block(f.node.body, fr)
                I.stack.pop()
                st_['state'] = 'end'
            except Kill:
                return
            except BaseException as e:
                del I.stack[st_['base']:]
                st_['exc'] = e
                st_['state'] = 'end'
            done.release()

        def nxt():
            return resume(None, None)

        def resume(sent, exc):
            if st_['state'] == 'end':
                if exc is not None:
                    raise exc
                raise StopIter()
            if st_['state'] == 'new':
                if exc is not None:
                    st_['state'] = 'end'
                    raise exc
                if sent is not None:
                    I.err('TypeError', "can't send non-None value to a just-started generator")
                st_['state'] = 'run'
                t = threading.Thread(target=body, daemon=True)
                threads.append((t, st_, go))
                t.start()
            st_['sent'], st_['throw'] = sent, exc
            go.release()
            done.acquire()
            if st_['state'] == 'end':
                if st_['exc'] is not None:
                    e, st_['exc'] = st_['exc'], None
                    raise e
                raise StopIter()
            return st_['val']
        threads = self.gen_threads = getattr(self, 'gen_threads', [])
        return Iter(nxt, 'generator', resume)

    def kill_gens(self):
        for t, s, go in getattr(self, 'gen_threads', []):
            s['dead'] = True
            go.release()
        self.gen_threads = []

    def sub_base(self, b):
        """the model a class of the sources inherits from in place of dict, list or tuple"""
        if b.builtin and b.name in ('dict', 'list', 'tuple') and b is self.types[b.name]:
            m = self.modules.get('subclassed')
            if m is None:
                pre = frontend.PRELUDE['subclassed']
                m = self.modules['subclassed'] = AModule('subclassed', {'__name__': st('subclassed')}, None)
                fr = Frame(m, '<module>', None, (), None)
                fr.loc = m.ns
                depth = len(self.stack)
                self.stack.append(fr)
                self.loading += 1
                try:
                    self.exec_block(pre.body, fr)
                finally:
                    self.loading -= 1
                    del self.stack[depth:]
            return m.ns[b.name + '_sub']
        return b

    def instantiate(self, c, args, kw):
        for k in c.mro:
            if k.ctor is not None and not (k.builtin and k.name in ('dict', 'list', 'tuple') and not c.builtin):
                return k.ctor(self, c, args, kw)
            if '__new__' in k.ns and not k.builtin:
                fn = k.ns['__new__']
                fn = fn.fn if isinstance(fn, StaticM) else fn
                o = self.call(fn, [c] + args, kw)
                if isinstance(o, AObj) and c in o.cls.mro:
                    init = c.find('__init__')
                    if init is not None:
                        self.call(init, [o] + args, kw)
                return o
        o = AObj(c)
        init = c.find('__init__')
        if init is not None:
            r = self.call(init, [o] + args, kw)
        elif args or kw:
            self.err('TypeError', 'this constructor takes no arguments')
        return o

    # ------------------------------------------------------------- types
    def type_of(self, v):
        T = self.types
        if v is None:
            return T['NoneType']
        t = type(v)
        if t is bool or t is Cond:
            return T['bool']
        if t is int:
            return T['int'] if -(1 << self.intbits) <= v < (1 << self.intbits) else T['long']
        if t is AInt:
            if v.isf:
                return T['float']
            lo, hi = D.rng(v)
            top = 1 << self.intbits
            if (hi is None or hi >= top) and not D.ctx().branch(D.compare('<', v, top)):
                return T['long']
            if (lo is None or lo < -top) and D.ctx().branch(D.compare('<', v, -top)):
                return T['long']
            return T['int']
        if t is float or t is AReal:
            return T['float']
        if t is S:
            return T['unicode'] if v.uni else T['str']
        if t is AObj:
            return v.cls
        if t is AClass:
            return T['type']
        if t is AArray and v.tc == 'y':
            return T['bytearray']
        n = {tuple: 'tuple', AList: 'list', ADict: 'dict', AArray: 'array', ATimedelta: 'timedelta',
             ADatetime: 'datetime', AEpoch: 'datetime', XRange: 'xrange', AFunc: 'function', Bound: 'instancemethod',
             Unbound: 'instancemethod', Builtin: 'builtin_function_or_method', AModule: 'module', Iter: 'generator',
             Prop: 'property', StaticM: 'staticmethod', ClassM: 'classmethod', SliceV: 'slice'}.get(t)
        if t is ASet:
            n = 'frozenset' if v.const else 'set'
        if n is None:
            raise Unmodelled('type of %r' % (v,))
        return T[n]

    def typename(self, v):
        return self.type_of(v).name

    def isinst(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinst(v, x) for x in c)
        if isinstance(v, Opaque):
            raise Unmodelled('isinstance of unknown value')
        if not isinstance(c, AClass):
            self.err('TypeError', 'isinstance() arg 2 must be a class, type, or tuple of classes and types')
        return c in self.type_of(v).mro or c.name == 'object'

    # ------------------------------------------------------------- truth
    def truth(self, v):
        """-> bool or Cond"""
        if v is None:
            return False
        t = type(v)
        if t is bool or t is Cond:
            return v
        if t is int or t is float:
            return v != 0
        if t is AInt:
            return D.nonzero(v)
        if t is AReal:
            return D.nonzero(v.num)
        if t is S:
            return self.nonempty(v.items)
        if t is tuple:
            return self.nonempty(v)
        if t is AList or t is AArray:
            return self.nonempty(v.items)
        if t is ADict or t is ASet:
            return len(v.d) > 0
        if t is AObj:
            m = v.cls.find('__nonzero__')
            if m is not None:
                return self.truth(self.call(m, [v]))
            m = v.cls.find('__len__')
            if m is not None:
                return self.truth(self.call(self.bind_attr(m, v, v.cls), []))
            return True
        if t is ATimedelta:
            return compare('!=', v.us, 0)
        if t is XRange:
            return len(v.host()) > 0
        if t is Opaque:
            raise Unmodelled('branch on %r' % v)
        return True

    def nonempty(self, items):
        n = 0
        segs = []
        for x in items:
            if type(x) is Seg:
                segs.append(x)
            else:
                return True
        if not segs:
            return False
        return compare('>', self.seqlen(items), 0)

    def seqlen(self, items):
        n = 0
        for x in items:
            if type(x) is Seg:
                n = D.add(n, D.mul(x.base.length, len(x.elems)))
            else:
                n = D.add(n, 1)
        return n

    def test(self, v):
        return D.ctx().branch(self.truth(v))

    # ------------------------------------------------------------- attributes
    def bind_attr(self, v, obj, cls):
        t = type(v)
        if t is AFunc or t is Builtin:
            return Bound(v, obj, cls)
        if t is StaticM:
            return v.fn
        if t is ClassM:
            return Bound(v.fn, cls, cls)
        if t is Prop:
            if v.fget is None:
                self.err('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [obj])
        if t is AObj and type(v.cls.find('__get__')) is AFunc:
            return self.call(v.cls.find('__get__'), [v, obj, cls])
        return v

    def getattr(self, o, name, default=MISSING):
        t = type(o)
        if t is AObj:
            if o.host is not None and o.cls.builtin:
                r = self.lib.host_attr(self, o, name)
                if r is not MISSING:
                    return r
            cv = None
            found = False
            for c in o.cls.mro:
                if name in c.ns:
                    cv = c.ns[name]
                    found = True
                    break
            if found and type(cv) is AObj and type(cv.cls.find('__get__')) is AFunc and (
                    name not in o.attrs or cv.cls.find('__set__') is not None):
                return self.call(cv.cls.find('__get__'), [cv, o, o.cls])
            if found and type(cv) is Prop:
                return self.call(cv.fget, [o]) if cv.fget is not None else self.err('AttributeError', name)
            if name in o.attrs:
                return o.attrs[name]
            if found:
                return self.bind_attr(cv, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = ADict()
                for k, v in o.attrs.items():
                    self.dset(d, st(k), v)
                d.owner = o
                return d
            if o.host is not None:
                r = self.lib.host_attr(self, o, name)
                if r is not MISSING:
                    return r
            g = o.cls.find('__getattr__')
            if g is not None:
                return self.call(g, [o, st(name)])
        elif t is AModule:
            if name in o.ns:
                return o.ns[name]
            sub = o.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if o.path is None:
                if default is not MISSING:
                    return default
                if self.lib.ext_has(o.name, name):
                    return Opaque('%s.%s' % (o.name, name))
        elif t is AClass:
            if o.builtin and o.name in ('dict', 'list', 'tuple') and 'subclassed' in self.modules:
                v = self.modules['subclassed'].ns.get(o.name + '_sub')
                v = v and v.find(name)
                if type(v) is AFunc or name == '__new__' and type(v) is StaticM:
                    # dict.__init__(self, ...) in a class of the sources
                    v = v.fn if type(v) is StaticM else v
                    own = o.ns.get(name, default)

                    def disp(I, a, kw, v=v, own=own):
                        x = a[0] if a else None
                        if type(x) is AObj and o in x.cls.mro or name == '__new__' and type(x) is AClass and not x.builtin:
                            return I.call(v, a, kw)
                        if own is MISSING:
                            raise Unmodelled('%s.%s' % (o.name, name))
                        return I.call(own, a, kw)
                    return Builtin(name, disp)
            for c in o.mro:
                if name in c.ns:
                    v = c.ns[name]
                    tv = type(v)
                    if tv is AFunc:
                        return Unbound(v, o)
                    if tv is StaticM:
                        return v.fn
                    if tv is ClassM:
                        return Bound(v.fn, o, o)
                    if tv is AObj and type(v.cls.find('__get__')) is AFunc:
                        return self.call(v.cls.find('__get__'), [v, None, o])
                    return v
            if name == '__name__':
                return st(o.name)
            if name == '__dict__':
                d = ADict()
                for k, v in o.ns.items():
                    self.dset(d, st(k), v)
                return d
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__module__':
                return st(o.module.name if o.module else '__builtin__')
        elif t is AFunc:
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', 'func_name'):
                return st(o.name)
            if name == '__doc__':
                return None
        elif t is Bound:
            if name in ('im_func', '__func__'):
                return o.fn
            if name in ('im_self', '__self__'):
                return o.self_
            if name == '__name__':
                return self.getattr(o.fn, '__name__')
        elif t is Builtin:
            if name == '__name__':
                return st(o.name)
        elif t is Opaque:
            raise Unmodelled('attribute %s of %r' % (name, o))
        elif t is Prop:
            if name in ('setter', 'getter', 'deleter'):
                def mk(I, a, kw):
                    d = {'fget': o.fget, 'fset': o.fset, 'fdel': o.fdel}
                    d['f' + name[:3]] = a[0]
                    return Prop(**d)
                return Builtin(name, mk)
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
        else:
            if name == '__class__':
                return self.type_of(o)
            r = self.lib.value_attr(self, o, name)
            if r is not MISSING:
                return r
            cls = self.type_of(o)
            for c in cls.mro:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o, cls)
        if default is MISSING and self.lib.type_has(self, o, name):
            raise Unmodelled('%s.%s' % (self.typename(o), name))
        if default is not MISSING:
            return default
        pk = isinstance(o, AModule) and o.path or isinstance(o, AClass) and not o.builtin or isinstance(o, AObj) and not o.cls.builtin
        self.ierr('AttributeError' if pk else 'ValueAttribute', "'%s' object has no attribute '%s'" % (
            o.name if isinstance(o, (AModule, AClass)) else self.typename(o), name))

    def setattr(self, o, name, v):
        if isinstance(o, AObj):
            cv = o.cls.find(name)
            if type(cv) is Prop:
                if cv.fset is None:
                    self.err('AttributeError', "can't set attribute")
                self.call(cv.fset, [o, v])
                return
            if type(cv) is AObj and type(cv.cls.find('__set__')) is AFunc:
                self.call(cv.cls.find('__set__'), [cv, o, v])
                return
            if name == '__dict__':
                if type(v) is not ADict or v.nabs or not all(type(k) is S and k.conc() for k, _ in v.d.values()):
                    raise Unmodelled('instance dictionary')
                if v.owner is o:
                    return
                if v.owner is not None or v.frozen is not None:
                    raise Unmodelled('shared instance dictionary')
                self.mut(o)
                o.attrs.clear()
                for k, x in v.d.values():
                    o.attrs[k.text()] = x
                v.owner = o
                return
            sa = o.cls.find('__setattr__')
            if sa is not None and type(sa) is AFunc:
                self.call(sa, [o, st(name), v])
                return
            self.mut(o)
            o.attrs[name] = v
            return
        if isinstance(o, AModule):
            self.mut(o)
            o.ns[name] = v
            return
        if isinstance(o, AClass):
            if o.builtin:
                self.err('TypeError', "can't set attributes of built-in/extension type")
            self.mut(o)
            o.ns[name] = v
            return
        if isinstance(o, AFunc):
            self.mut(o)
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            raise Unmodelled('setattr on unknown value')
        self.err('AttributeError', "'%s' object has no attribute '%s'" % (self.typename(o), name))

    # ------------------------------------------------------------- dict
    def hkey(self, v):
        t = type(v)
        if v is None or t is bool or t is int:
            return v if t is not bool else int(v)
        if t is float:
            return v
        if t is S:
            if v.conc():
                if v.uni and any(c > 127 for c in v.items):
                    return ('u',) + v.items
                return ('s',) + v.items
            return None
        if t is tuple:
            ks = [self.hkey(x) for x in v]
            if any(k is None and x is not None for k, x in zip(ks, v)):
                return None
            return ('t',) + tuple(ks)
        if t in (AList, ADict, AArray) or (t is ASet and not v.const):
            self.err('TypeError', "unhashable type: '%s'" % self.typename(v))
        if t is AInt or t is Cond:
            return None
        if t is AObj:
            m = v.cls.find('__hash__') or v.cls.find('__eq__')
            if m is not None:
                raise Unmodelled('dict key object with custom __eq__')
            return ('o', id(v))
        if t in (AClass, AFunc, Builtin, AModule):
            return ('o', id(v))
        if t is ATimedelta and num(v.us):
            return ('td', v.us)
        raise Unmodelled('dict key %r' % (v,))

    def dget(self, d, k, default=MISSING):
        h = self.hkey(k)
        if (h is not None or k is None) and not d.nabs:
            e = d.d.get(h)
            return e[1] if e is not None else default
        return self.dget_abs(d, k, default)

    def dget_abs(self, d, k, default):
        e = self.dfind(d, k)
        return default if e is None else e

    def dfind(self, d, k):
        """lookup with abstract key or abstract stored keys -> value or None"""
        C = D.ctx()
        if not d.nabs:
            atoms = self.key_atoms(k)
            if atoms is not None and len(atoms) == 1:
                a = atoms[0]
                dom = C.dom[a]
                hits = {}
                if type(k) is S and len(k.items) == 1 and type(k.items[0]) is AInt and k.items[0].kind == 'atom':
                    for h, (kk, vv) in d.d.items():
                        if type(kk) is S and len(kk.items) == 1:
                            c = kk.items[0]
                            if c in dom and (c < 128 or kk.uni == k.uni):
                                hits[c] = vv
                elif type(k) is AInt and k.kind == 'atom':
                    for h, (kk, vv) in d.d.items():
                        if type(kk) in (int, bool) and int(kk) in dom:
                            hits[int(kk)] = vv
                elif dom.size() <= D.JOINT:
                    s = {}
                    for v in dom:
                        s[a] = v
                        e = d.d.get(self.hkey(self.subst(k, s)))
                        if e is not None:
                            hits[v] = e[1]
                else:
                    return self.dfind_seq(d, k)
                if not hits:
                    return None
                hs = D.RSet.vals(hits)
                if not C.branch(Cond('set', a, hs, (a,))):
                    return None
                return self.from_objmap(a, {v: hits[v] for v in C.dom[a]})
        return self.dfind_seq(d, k)

    def dfind_seq(self, d, k):
        C = D.ctx()
        for kk, vv in reversed(list(d.d.values())):
            if C.branch(self.eq(kk, k)):
                return vv
        return None

    def key_atoms(self, k):
        t = type(k)
        if t is AInt or t is Cond:
            return k.atoms
        if t is S:
            if any(type(x) is Seg for x in k.items):
                return None
            return D.atoms_of(*k.items)
        if t is tuple:
            out = ()
            for x in k:
                a = self.key_atoms(x)
                if a is None:
                    return None
                out += tuple(z for z in a if z not in out)
            return out
        return ()

    def subst(self, k, s):
        t = type(k)
        if t is AInt or t is Cond:
            return k.ev(s)
        if t is S:
            return S([x.ev(s) if type(x) is AInt else x for x in k.items], k.uni)
        if t is tuple:
            return tuple(self.subst(x, s) for x in k)
        return k

    def from_objmap(self, a, m):
        """value for a pointwise map atom value -> concrete value; partitions when images differ in kind"""
        C = D.ctx()
        groups = {}
        for v, o in m.items():
            groups.setdefault(self.kindkey(o), []).append(v)
        if len(groups) > 1:
            ks = list(groups)
            k = ks[C.choose(len(ks), 'case')]
            C.dom[a] = D.RSet.vals(groups[k])
            m = {v: m[v] for v in groups[k]}
        first = next(iter(m.values()))
        t = type(first)
        if t in (bool, int, float):
            return D.from_map(a, m)
        if t is S:
            if first.uni:
                pass
            items = []
            for i in range(len(first.items)):
                if any(type(o.items[i]) is not int for o in m.values()):
                    if all(o is first for o in m.values()):
                        return first
                    raise Unmodelled('abstract string in table')
                items.append(D.from_map(a, {v: o.items[i] for v, o in m.items()}))
            return S(items, first.uni)
        if t is tuple:
            return tuple(self.from_objmap(a, {v: o[i] for v, o in m.items()}) for i in range(len(first)))
        return first

    def kindkey(self, o):
        t = type(o)
        if t is bool:
            return 'b'
        if t is int:
            return 'i'
        if t is float:
            return 'f'
        if t is S:
            if not o.conc():
                return ('id', id(o))
            return ('s', o.uni, len(o.items))
        if t is tuple:
            return ('t',) + tuple(self.kindkey(x) for x in o)
        if o is None:
            return 'n'
        return ('id', id(o))

    def dset(self, d, k, v):
        self.mut(d)
        h = self.hkey(k)
        if d.owner is not None:
            if type(k) is not S or not k.conc():
                raise Unmodelled('instance dictionary')
            self.mut(d.owner)
            d.owner.attrs[k.text()] = v
        if h is None and k is not None:
            if d.nabs or d.d:
                for hh, e in list(d.d.items()):
                    if D.ctx().branch(self.eq(e[0], k)):
                        e[1] = v
                        return
            d.nabs += 1
            d.d[('abs', d.nabs, id(k))] = [k, v]
            return
        if d.nabs:
            for hh, e in list(d.d.items()):
                if D.ctx().branch(self.eq(e[0], k)):
                    e[1] = v
                    return
        e = d.d.get(h)
        if e is not None:
            e[1] = v
        else:
            d.d[h] = [k, v]

    def ddel(self, d, k):
        self.mut(d)
        h = self.hkey(k)
        if d.owner is not None:
            if type(k) is not S or not k.conc():
                raise Unmodelled('instance dictionary')
            self.mut(d.owner)
            d.owner.attrs.pop(k.text(), None)
        if (h is None and k is not None) or d.nabs:
            for hh, e in list(d.d.items()):
                if D.ctx().branch(self.eq(e[0], k)):
                    v = e[1]
                    if isinstance(hh, tuple) and hh and hh[0] == 'abs':
                        d.nabs -= 1
                    del d.d[hh]
                    return v
            return MISSING
        e = d.d.pop(h, None)
        return e[1] if e is not None else MISSING

    def contains(self, cont, x):
        """-> bool / Cond"""
        t = type(cont)
        C = D.ctx()
        if t is ADict or t is ASet:
            h = self.hkey(x)
            if (h is not None or x is None) and not getattr(cont, 'nabs', 0):
                return h in cont.d
            if t is ADict and not cont.nabs:
                at = self.key_atoms(x)
                if at is not None and len(at) == 1:
                    return self.member_cond(at[0], x, lambda v: self.hkey(v) in cont.d, [e[0] for e in cont.d.values()])
                return self.dfind(cont, x) is not None
            if t is ASet:
                at = self.key_atoms(x)
                if at is not None and len(at) == 1 and not cont.nabs:
                    return self.member_cond(at[0], x, lambda v: self.hkey(v) in cont.d, list(cont.d.values()))
                for k in cont.d.values():
                    if C.branch(self.eq(k, x)):
                        return True
                return False
            return self.dfind(cont, x) is not None
        if t is S:
            if type(x) is not S:
                self.err('TypeError', "'in <string>' requires string as left operand, not %s" % self.typename(x))
            return self.lib.str_find(self, cont, x, 0, None) is not None
        if t is AArray and cont.tc == 'y' and type(x) is S:
            return self.lib.str_find(self, S(cont.items), x, 0, None) is not None
        if t is tuple or t is AList or t is AArray:
            items = cont if t is tuple else cont.items
            if type(x) is AInt and len(x.atoms) == 1 and all(type(i) in (int, bool) for i in items):
                sset = set(int(i) for i in items)
                return self.member_cond(x.atoms[0], x, lambda v: v in sset, items)
            if type(x) in (int, bool) and all(type(i) in (int, bool) for i in items):
                return int(x) in [int(i) for i in items]
            for i in items:
                if type(i) is Seg:
                    raise Unmodelled('membership test in a sequence of unknown length')
                if i is x or C.branch(self.eq(i, x)):
                    return True
            return False
        if t is XRange:
            if type(x) is AInt:
                r = cont.host()
                if cont.step == 1:
                    c1 = compare('>=', x, r.start)
                    c2 = compare('<', x, r.stop)
                    return self.cand(c1, c2)
                return self.member_cond(x.atoms[0], x, lambda v: v in r, None)
            return type(x) in (int, bool) and int(x) in cont.host()
        if t is AObj:
            m = cont.cls.find('__contains__')
            if m is not None:
                return self.truth(self.call(m, [cont, x]))
        if t is Opaque:
            raise Unmodelled('membership in %r' % cont)
        for i in self.iterate(cont):
            if i is x or C.branch(self.eq(i, x)):
                return True
        return False

    def cand(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        if a.kind == 'set' and b.kind == 'set' and a.a is b.a:
            s = a.b & b.b & D.ctx().dom[a.a]
            if not s:
                return False
            return Cond('set', a.a, s, a.atoms)
        return Cond('and', (a, b), None, D.atoms_of(a, b))

    def member_cond(self, a, x, pred, keys):
        C = D.ctx()
        dom = C.dom[a]
        k = x.items[0] if type(x) is S and len(x.items) == 1 else x
        if type(k) is AInt and k.kind == 'atom' and keys is not None:
            cand = set()
            for q in keys:
                if type(q) is S:
                    if type(x) is S and len(q.items) == 1 and type(q.items[0]) is int and \
                            (q.uni == x.uni or q.items[0] < 128):
                        cand.add(q.items[0])
                elif type(q) in (int, bool) and type(x) is AInt:
                    cand.add(int(q))
            ts = D.RSet.vals(v for v in cand if v in dom)
        elif dom.size() <= D.JOINT:
            s = {}
            tv = []
            for v in dom:
                s[a] = v
                if pred(self.subst(x, s)):
                    tv.append(v)
            ts = D.RSet.vals(tv)
        else:
            raise Unmodelled('membership of a wide value')
        if not ts:
            return False
        if not (dom - ts):
            return True
        return Cond('set', a, ts, (a,))

    # ------------------------------------------------------------- equality
    def eq(self, a, b):
        """-> bool or Cond"""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        na = ta in (int, bool, float, AInt, Cond, AReal)
        nb = tb in (int, bool, float, AInt, Cond, AReal)
        if na and nb:
            return self.numcmp('==', a, b)
        if ta is S and tb is S:
            return self.str_eq(a, b)
        if ta is AObj and a.host is None or tb is AObj and b.host is None:
            for x, y in ((a, b), (b, a)):
                if type(x) is AObj:
                    m = x.cls.find('__eq__')
                    if m is not None:
                        return self.truth(self.call(m, [x, y]))
                    m = x.cls.find('__cmp__')
                    if m is not None:
                        return self.eq(self.call(m, [x, y]), 0)
            return False
        if ta is AArray and tb is S and a.tc == 'y' and not b.uni:
            return self.str_eq(S(a.items), b)
        if tb is AArray and ta is S and b.tc == 'y' and not a.uni:
            return self.str_eq(a, S(b.items))
        if ta is not tb:
            if ta is Opaque or tb is Opaque:
                raise Unmodelled('comparison with unknown value')
            return False
        if ta in (tuple, AList, AArray):
            x = a if ta is tuple else a.items
            y = b if ta is tuple else b.items
            if any(type(i) is Seg for i in x) or any(type(i) is Seg for i in y):
                if self.items_same(x, y):
                    return True
                raise Unmodelled('comparison of sequences of unknown length')
            if len(x) != len(y):
                return False
            cs = []
            for i, j in zip(x, y):
                c = self.eq(i, j)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return self.conj(cs)
        if ta is ADict:
            if len(a.d) != len(b.d):
                return False
            cs = []
            for h, (k, v) in a.d.items():
                w = self.dget(b, k)
                if w is MISSING:
                    return False
                c = self.eq(v, w)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return self.conj(cs)
        if ta is ASet:
            return len(a.d) == len(b.d) and self.lib.s_le(self, a, b)
        if ta is ATimedelta:
            return compare('==', a.us, b.us)
        if ta is ADatetime:
            if a.tz is None and b.tz is None:
                cs = [compare('==', x, y) for x, y in zip(a.f + (a.off,), b.f + (b.off,))]
                if any(c is False for c in cs[:-1]) and not (num(a.off) and num(b.off) and a.off == 0 == b.off):
                    raise Unmodelled('datetime comparison')
                if any(c is False for c in cs):
                    return False
                return self.conj([c for c in cs if c is not True])
            raise Unmodelled('aware datetime comparison')
        if ta is AEpoch:
            return compare('==', a.secs, b.secs)
        if ta is XRange:
            return a.host() == b.host()
        if ta is Bound:
            return a.fn is b.fn and a.self_ is b.self_
        return False

    def items_same(self, x, y):
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if type(i) is Seg and type(j) is Seg:
                if i.base is not j.base or not self.items_same(i.elems, j.elems):
                    return False
            elif type(i) is Seg or type(j) is Seg:
                return False
            elif type(i) in (int, AInt) and type(j) in (int, AInt):
                if D.same(i, j)[0] is not True:
                    return False
            elif i is not j:
                return False
        return True

    def conj(self, cs):
        if not cs:
            return True
        r = cs[0]
        for c in cs[1:]:
            if r.kind == 'set' and c.kind == 'set' and r.a is c.a:
                r = self.cand(r, c)
                if r is False:
                    return False
            else:
                r = None
                break
        if r is not None:
            return r
        return Cond('and', tuple(cs), None, D.atoms_of(*cs))

    def str_eq(self, a, b):
        x, y = a.items, b.items
        if any(type(i) is Seg for i in x) or any(type(i) is Seg for i in y):
            if self.items_same(x, y):
                return True
            if any(type(i) is Seg for i in x) and any(type(i) is Seg for i in y):
                raise Unmodelled('comparison of strings of unknown length')
            lx, ly = self.seqlen(x), self.seqlen(y)
            c = compare('==', lx, ly)
            if not D.ctx().branch(c):
                return False
            if not x or not y:
                return True
            raise Unmodelled('comparison with a string of unknown length')
        if len(x) != len(y):
            return False
        mixed = a.uni != b.uni
        cs = []
        for i, j in zip(x, y):
            if type(i) is int and type(j) is int:
                if i != j:
                    return False
                if mixed and i > 127:
                    return False
                continue
            c = compare('==', i, j)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        if mixed:
            # byte strings with non-ASCII octets never equal unicode strings
            bs = a if not a.uni else b
            for i in bs.items:
                if type(i) is AInt:
                    c = compare('<', i, 128)
                    if c is False:
                        return False
                    if c is not True:
                        cs.append(c)
        return self.conj(cs)

    def numcmp(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta is AReal or tb is AReal:
            if ta is AReal and tb is AReal:
                return compare(op, D.mul(a.num, b.den), D.mul(b.num, a.den))
            if ta is AReal:
                if isinstance(b, float):
                    from fractions import Fraction
                    f = Fraction(b)
                    return compare(op, D.mul(a.num, f.denominator), D.mul(a.den, f.numerator))
                return compare(op, a.num, D.mul(b, a.den))
            return self.numcmp({'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op], b, a)
        return compare(op, a, b)

    def order(self, op, a, b):
        """<, <=, >, >= -> bool or Cond"""
        ta, tb = type(a), type(b)
        N = (int, bool, float, AInt, Cond, AReal)
        if ta in N and tb in N:
            return self.numcmp(op, a, b)
        if ta is S and tb is S:
            return self.seq_order(op, a.items, b.items)
        if ta is tb and ta in (tuple, AList, AArray):
            x = a if ta is tuple else a.items
            y = b if ta is tuple else b.items
            return self.seq_order(op, x, y)
        if ta is ASet and tb is ASet:
            x, y = (a, b) if op in ('<', '<=') else (b, a)
            return self.lib.s_le(self, x, y) and (op in ('<=', '>=') or len(x.d) < len(y.d))
        if ta is ATimedelta and tb is ATimedelta:
            return compare(op, a.us, b.us)
        if ta is ADatetime and tb is ADatetime:
            if all(D.same(x, y)[0] for x, y in zip(a.f, b.f)):
                return compare(op, a.off, b.off)
            if num(a.off) and num(b.off) and all(num(x) for x in a.f + b.f):
                return self.lib.dt_host(a) < self.lib.dt_host(b) if op == '<' else \
                    self.lib.dt_host(a) <= self.lib.dt_host(b) if op == '<=' else \
                    self.lib.dt_host(a) > self.lib.dt_host(b) if op == '>' else \
                    self.lib.dt_host(a) >= self.lib.dt_host(b)
            raise Unmodelled('datetime ordering')
        if ta is AObj or tb is AObj:
            nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
            if ta is AObj:
                m = a.cls.find(nm)
                if m is not None:
                    return self.truth(self.call(m, [a, b]))
                m = a.cls.find('__cmp__')
                if m is not None:
                    return self.order(op, self.call(m, [a, b]), 0)
            raise Unmodelled('ordering of objects')
        if ta in (ATimedelta, ADatetime) or tb in (ATimedelta, ADatetime):
            self.err('TypeError', "can't compare %s to %s" % (self.typename(a), self.typename(b)))
        if ta is Opaque or tb is Opaque:
            raise Unmodelled('ordering of unknown value')
        # Python 2: None < numbers < everything else by type name

        def rank(v, t):
            if v is None:
                return (0, '')
            if t in N:
                return (1, '')
            return (2, self.typename(v))
        ra, rb = rank(a, ta), rank(b, tb)
        if ra == rb:
            raise Unmodelled('ordering of %s' % (ra,))
        return D.CMP[op](ra, rb)

    def seq_order(self, op, x, y):
        C = D.ctx()
        for i, j in zip(x, y):
            if type(i) is Seg or type(j) is Seg:
                raise Unmodelled('ordering of sequences of unknown length')
            if not C.branch(self.eq(i, j)):
                return self.order({'<=': '<', '>=': '>'}.get(op, op), i, j)
        return D.CMP[op](len(x), len(y))

    def cmp1(self, op, a, b):
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            if type(a) is AObj:
                m = a.cls.find('__ne__')
                if m is not None:
                    return self.truth(self.call(m, [a, b]))
            return D.cnot(self.eq(a, b))
        if op == 'Is' or op == 'IsNot':
            r = self.is_(a, b)
            return r if op == 'Is' else D.cnot(r)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return D.cnot(self.contains(b, a))
        return self.order({'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op], a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            if type(a) is Opaque or type(b) is Opaque:
                raise Unmodelled('identity of unknown value')
            return False
        if isinstance(a, bool) or isinstance(b, bool) or type(a) is Cond or type(b) is Cond:
            if type(a) in (bool, Cond) and type(b) in (bool, Cond):
                return self.eq(a, b)
            return False
        if type(a) is int and type(b) is int and -5 <= a <= 256:
            return a == b
        if type(a) in (int, AInt, S, float) and type(b) in (int, AInt, S, float):
            if type(a) is S and type(b) is S and a.conc() and b.conc() and len(a.items) <= 1 and a.uni == b.uni:
                return a.items == b.items
            if type(a) is AInt and type(b) is int or type(b) is AInt and type(a) is int:
                return compare('==', a, b)
            raise Unmodelled('identity of immutable values')
        if type(a) is Bound and type(b) is Bound:
            return False
        return False

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, a, b, inplace=False):
        ta, tb = type(a), type(b)
        N = (int, bool, float, AInt, Cond)
        if ta in N and tb in N:
            return self.arith(op, a, b)
        if ta is AReal or tb is AReal:
            if (ta in N or ta is AReal) and (tb in N or tb is AReal):
                return self.arith_real(op, a, b)
        if inplace and op == 'Add' and ta is AList and tb is AObj and b.cls.find('__iter__') is not None:
            items = list(self.iterate(b))
            self.mut(a)
            a.items.extend(items)
            return a
        if ta is AObj or tb is AObj:
            nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'Mod': 'mod', 'BitOr': 'or',
                  'BitAnd': 'and', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift', 'FloorDiv': 'floordiv',
                  'Pow': 'pow'}[op]
            if ta is AObj:
                if inplace:
                    m = a.cls.find('__i%s__' % nm)
                    if m is not None:
                        return self.call(self.bind_attr(m, a, a.cls), [b])
                m = a.cls.find('__%s__' % nm)
                if m is not None:
                    return self.call(self.bind_attr(m, a, a.cls), [b])
            if tb is AObj and not (ta is S and op == 'Mod'):
                m = b.cls.find('__r%s__' % nm)
                if m is not None:
                    return self.call(self.bind_attr(m, b, b.cls), [a])
        if ta is S:
            if op == 'Mod':
                return self.lib.str_format(self, a, b)
            if op == 'Add' and tb is S:
                return self.str_add(a, b)
            if op == 'Mult' and tb in N:
                n = D.ctx().concretize(b)
                return S(a.items * max(0, n), a.uni)
        if tb is S and ta in N and op == 'Mult':
            return S(b.items * max(0, D.ctx().concretize(a)), b.uni)
        if op == 'Add':
            if ta is tuple and tb is tuple:
                return a + b
            if ta is AList:
                if inplace:
                    items = list(self.iterate(b))
                    self.mut(a)
                    a.items.extend(items)
                    return a
                if tb is AList:
                    return AList(a.items + b.items)
            if ta is AArray and a.tc == 'y' and tb is S or tb is AArray and b.tc == 'y' and ta is S:
                x, y = self.lib.octets(self, a), self.lib.octets(self, b)
                if inplace and ta is AArray:
                    self.mut(a)
                    a.items.extend(y)
                    return a
                return AArray('y', x + y)
            if ta is AArray and tb is AArray:
                if a.tc != b.tc and not (a.tc == 'y' and inplace):
                    self.err('TypeError', 'bad argument type for built-in operation')
                if inplace:
                    self.mut(a)
                    a.items.extend(list(b.items))
                    return a
                return AArray(a.tc, a.items + b.items)
        if op == 'Mult':
            if ta in N:
                a, b, ta, tb = b, a, tb, ta
            if tb in N and ta in (AList, tuple, AArray):
                n = max(0, D.ctx().concretize(b))
                if ta is tuple:
                    return a * n
                if ta is AArray:
                    return AArray(a.tc, a.items * n)
                if inplace:
                    self.mut(a)
                    a.items[:] = a.items * n
                    return a
                return AList(a.items * n)
        if ta in (ADatetime, ATimedelta, AEpoch) or tb in (ADatetime, ATimedelta, AEpoch):
            r = self.lib.dt_binop(self, op, a, b)
            if r is not MISSING:
                return r
        if ta is ASet and tb is ASet:
            r = self.lib.set_binop(self, op, a, b)
            if r is not MISSING:
                return r
        if ta is Opaque or tb is Opaque:
            return Opaque('%s of unknown' % op)
        self.err('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, self.typename(a), self.typename(b)))

    def str_add(self, a, b):
        if a.uni != b.uni:
            a = self.to_uni(a)
            b = self.to_uni(b)
        return S(a.items + b.items, a.uni)

    def to_uni(self, s):
        """implicit ASCII decoding of a byte string"""
        if s.uni:
            return s
        C = D.ctx()
        for x in s.items:
            if type(x) is int:
                if x > 127:
                    self.err('UnicodeDecodeError', "'ascii' codec can't decode byte 0x%02x" % x)
            elif type(x) is Seg:
                for e in x.elems:
                    if type(e) is int and e > 127 or type(e) is AInt and D.rng(e)[1] > 127:
                        raise Unmodelled('implicit decoding of unknown bytes')
            elif not C.branch(compare('<', x, 128)):
                self.err('UnicodeDecodeError', "'ascii' codec can't decode byte")
        return S(s.items, True)

    def arith(self, op, a, b):
        try:
            if type(a) in (int, bool, float) and type(b) in (int, bool, float):
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mult':
                    return a * b
                if op == 'Mod':
                    return a % b
                if op == 'Div':
                    if isinstance(a, float) or isinstance(b, float):
                        return a / b
                    if self.stack and self.stack[-1].mod.future_div:
                        return a / b
                    return a // b
                if op == 'FloorDiv':
                    return a // b
                if op == 'Pow':
                    return a ** b
                if isinstance(a, float) or isinstance(b, float):
                    self.err('TypeError', 'unsupported operand type(s) for %s' % op)
                if op == 'BitAnd':
                    return a & b
                if op == 'BitOr':
                    return a | b
                if op == 'BitXor':
                    return a ^ b
                if op == 'LShift':
                    if b > 100000:
                        raise Unmodelled('huge shift')
                    return a << b
                if op == 'RShift':
                    return a >> b
            a, b = D.as_num(a), D.as_num(b)
            if op == 'Add':
                return D.add(a, b)
            if op == 'Sub':
                return D.sub(a, b)
            if op == 'Mult':
                return D.mul(a, b)
            if op in ('Div', 'FloorDiv', 'Mod'):
                if D.ctx().branch(compare('==', b, 0)):
                    self.err('ZeroDivisionError', 'integer division or modulo by zero')
                fl = D.isreal(a) or D.isreal(b) or (op == 'Div' and self.stack and self.stack[-1].mod.future_div)
                if fl:
                    f = {'Div': lambda x, y: x / y, 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y}[op]
                    r = D.pw(f, a, b)
                    if r is not None:
                        return r
                    if op == 'Div' and not num(a) and num(b) and b == int(b) and b > 0:
                        return AReal(a, int(b))
                    raise Unmodelled('float division of abstract values')
                return D.mod(a, b) if op == 'Mod' else D.floordiv(a, b)
            if op == 'BitAnd':
                return D.band(a, b)
            if op == 'BitOr':
                return D.bor(a, b)
            if op == 'BitXor':
                return D.bxor(a, b)
            if op == 'LShift':
                return D.shl(a, b)
            if op == 'RShift':
                return D.shr(a, b)
            if op == 'Pow':
                return D.fn('pow', a, b)
        except ZeroDivisionError:
            self.err('ZeroDivisionError', 'integer division or modulo by zero')
        except (ValueError, OverflowError) as e:
            if 'negative shift' in str(e):
                self.err('ValueError', 'negative shift count')
            self.err('OverflowError', str(e))
        raise Unmodelled('operator %s' % op)

    def arith_real(self, op, a, b):
        def nd(v):
            if type(v) is AReal:
                return v.num, v.den
            if isinstance(v, float):
                if v == int(v):
                    return int(v), 1
                raise Unmodelled('float constant in exact quotient arithmetic')
            return D.as_num(v), 1
        (n1, d1), (n2, d2) = nd(a), nd(b)
        if op == 'Add':
            return AReal(D.add(D.mul(n1, d2), D.mul(n2, d1)), d1 * d2)
        if op == 'Sub':
            return AReal(D.sub(D.mul(n1, d2), D.mul(n2, d1)), d1 * d2)
        if op == 'Mult':
            return AReal(D.mul(n1, n2), d1 * d2)
        if op == 'Div' and num(n2) and n2 > 0:
            return AReal(D.mul(n1, d2), d1 * n2)
        if op == 'FloorDiv' and num(n2) and n2 > 0:
            return AReal(D.floordiv(D.mul(n1, d2), d1 * n2), 1)
        raise Unmodelled('real arithmetic %s' % op)

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        """host generator over the elements of v"""
        t = type(v)
        if t is S:
            for x in v.items:
                if type(x) is Seg:
                    raise Unmodelled('iteration over a string of unknown length')
                yield S((x,), v.uni)
            return
        if t is tuple:
            for x in v:
                yield x
            return
        if t is AList or t is AArray:
            i = 0
            while i < len(v.items):
                x = v.items[i]
                if type(x) is Seg:
                    raise Unmodelled('iteration over a sequence of unknown length')
                yield x
                i += 1
            return
        if t is ADict or t is ASet:
            n = len(v.d)
            for e in list(v.d.values()):
                yield e[0] if t is ADict else e
                if len(v.d) != n:
                    self.err('RuntimeError', '%s changed size during iteration' % ('dictionary' if t is ADict else 'set'))
            return
        if t is XRange:
            for i in v.host():
                yield i
            return
        it = self.iter(v)
        while True:
            try:
                x = self.next(it)
            except StopIter:
                return
            yield x

    def iter(self, v):
        t = type(v)
        if t is Iter:
            return v
        if t is AObj:
            m = v.cls.find('__iter__')
            if m is not None:
                return self.call(self.bind_attr(m, v, v.cls), [])
            if v.host is not None:
                r = self.lib.host_iter(self, v)
                if r is not None:
                    return r
            if v.cls.find('__getitem__') is not None:
                def g():
                    i = 0
                    while True:
                        try:
                            yield self.call(self.getattr(v, '__getitem__'), [i])
                        except ARaise as e:
                            if self.isinst(e.exc, self.exc_classes['IndexError']):
                                return
                            raise
                        i += 1
                return self.host_iter(g())
            self.err('TypeError', "'%s' object is not iterable" % v.cls.name)
        if t in (S, tuple, AList, AArray, ADict, ASet, XRange):
            return self.host_iter(self.iterate(v))
        if t is Opaque:
            raise Unmodelled('iteration over %r' % v)
        self.err('TypeError', "'%s' object is not iterable" % self.typename(v))

    def host_iter(self, g):
        def nxt():
            for x in g:
                return x
            raise StopIter()
        return Iter(nxt)

    def next(self, it):
        """-> value, raises StopIter"""
        if type(it) is Iter:
            try:
                return it.nxt()
            except StopIter:
                raise
        m = self.getattr(it, 'next', None)
        if m is None:
            self.err('TypeError', '%s object is not an iterator' % self.typename(it))
        try:
            return self.call(m, [])
        except ARaise as e:
            if self.isinst(e.exc, self.exc_classes['StopIteration']):
                raise StopIter()
            raise

    # ------------------------------------------------------------- subscripts
    def index(self, i):
        if type(i) in (int, bool):
            return int(i)
        if type(i) in (AInt, Cond):
            return int(D.ctx().concretize(i, 'index'))
        if type(i) is AObj and i.cls.find('__index__') is not None:
            return self.index(self.call(self.getattr(i, '__index__'), []))
        self.err('TypeError', 'indices must be integers, not %s' % self.typename(i))

    def getitem(self, o, k):
        t = type(o)
        if t is ADict:
            v = self.dget(o, k)
            if v is MISSING:
                self.err('KeyError', k if not isinstance(k, str) else k)
            return v
        if t in (S, tuple, AList, AArray):
            items = o if t is tuple else o.items
            if type(k) is SliceV:
                sub = self.slice_items(items, k)
                if t is S:
                    return S(sub, o.uni)
                if t is tuple:
                    return tuple(sub)
                if t is AArray:
                    return AArray(o.tc, sub)
                return AList(sub)
            if type(k) is AInt and not any(type(x) is Seg for x in items):
                lo, hi = D.rng(k)
                if hi < -len(items) or lo >= len(items) or (hi - lo > 600 and not D.ctx().branch(
                        self.cand(compare('>=', k, -len(items)), compare('<', k, len(items))))):
                    self.err('IndexError', '%s index out of range' % self.typename(o))
            if type(k) is AInt and len(k.atoms) == 1 and len(items) > 3 and not any(type(x) is Seg for x in items):
                r = self.abs_index(o, items, k)
                if r is not MISSING:
                    return r
            i = self.index(k)
            if any(type(x) is Seg for x in items):
                return self.seg_index(o, items, i)
            n = len(items)
            if i < 0:
                i += n
            if i < 0 or i >= n:
                self.err('IndexError', '%s index out of range' % self.typename(o))
            x = items[i]
            return S((x,), o.uni) if t is S else x
        if t is AObj:
            m = o.cls.find('__getitem__')
            if m is not None:
                return self.call(self.bind_attr(m, o, o.cls), [k])
        if t is XRange:
            r = o.host()
            try:
                return r[self.index(k)]
            except IndexError:
                self.err('IndexError', 'xrange object index out of range')
        if t is Opaque:
            return Opaque('item of %s' % o.why)
        self.err('TypeError', "'%s' object has no attribute '__getitem__'" % self.typename(o))

    def abs_index(self, o, items, k):
        """table lookup by an abstract index"""
        C = D.ctx()
        a = k.atoms[0]
        if C.dom[a].size() > D.TABLIM:
            return MISSING
        n = len(items)
        inr = self.cand(compare('>=', k, -n), compare('<', k, n))
        if not C.branch(inr):
            self.err('IndexError', '%s index out of range' % self.typename(o))
        t = D.tabof(k, a)
        m = {v: items[t[v]] for v in C.dom[a]}
        if type(o) is S:
            if any(type(x) is not int for x in m.values()):
                return MISSING
            return S((D.from_map(a, m),), o.uni)
        for x in m.values():
            if type(x) in (AInt, Cond):
                return MISSING
        return self.from_objmap(a, m)

    def seg_index(self, o, items, i):
        if i >= 0:
            for x in items:
                if type(x) is Seg:
                    break
                if i == 0:
                    return S((x,), o.uni) if type(o) is S else x
                i -= 1
        else:
            for x in reversed(items):
                if type(x) is Seg:
                    break
                i += 1
                if i == 0:
                    return S((x,), o.uni) if type(o) is S else x
        raise Unmodelled('index into a sequence of unknown length')

    def slice_items(self, items, k):
        if any(type(x) is Seg for x in items):
            return self.seg_slice(items, k)
        n = len(items)

        def c(v):
            if v is None:
                return None
            if type(v) is AInt:
                lo, hi = D.rng(v)
                if lo >= n:
                    return n
                if hi > n + 600 or hi - lo > 600:
                    if D.ctx().branch(compare('>=', v, n)):
                        return n
            return self.index(v)
        lo, hi, step = c(k.lo), c(k.hi), c(k.step)
        if step == 0:
            self.err('ValueError', 'slice step cannot be zero')
        return list(items[slice(lo, hi, step)])

    def seg_slice(self, items, k):
        lo, hi, step = k.lo, k.hi, k.step
        if step not in (None, 1):
            raise Unmodelled('strided slice of a sequence of unknown length')
        items = list(items)
        if lo is None:
            lo = 0
        # simple cases: drop a known prefix/suffix
        if type(lo) is int and lo >= 0:
            pre = 0
            while pre < len(items) and pre < lo and type(items[pre]) is not Seg:
                pre += 1
            if pre == lo:
                if hi is None:
                    return items[lo:]
                if type(hi) is int and hi >= 0:
                    j = 0
                    while j < len(items) and j < hi and type(items[j]) is not Seg:
                        j += 1
                    if j == hi:
                        return items[lo:hi]
                if type(hi) is int and hi < 0:
                    j = 0
                    while j < -hi and type(items[-1 - j]) is not Seg:
                        j += 1
                    if j == -hi:
                        return items[lo:hi]
                total = self.seqlen(items)
                if D.same(total, hi)[0] is True:
                    return items[lo:]
                # cut at a symbolic boundary
                acc = 0
                for j, x in enumerate(items):
                    if D.same(acc, hi)[0] is True:
                        return items[lo:j]
                    acc = D.add(acc, D.mul(x.base.length, len(x.elems)) if type(x) is Seg else 1)
        if type(lo) is AInt:
            acc = 0
            for j, x in enumerate(items):
                if D.same(acc, lo)[0] is True:
                    if hi is None:
                        return items[j:]
                    acc2 = acc
                    for j2 in range(j, len(items) + 1):
                        if D.same(acc2, hi)[0] is True:
                            return items[j:j2]
                        if j2 < len(items):
                            x = items[j2]
                            acc2 = D.add(acc2, D.mul(x.base.length, len(x.elems)) if type(x) is Seg else 1)
                    break
                acc = D.add(acc, D.mul(x.base.length, len(x.elems)) if type(x) is Seg else 1)
        raise Unmodelled('slice of a sequence of unknown length')

    def setitem(self, o, k, v):
        t = type(o)
        if t is ADict:
            self.dset(o, k, v)
            return
        if t is AList or t is AArray:
            self.mut(o)
            if type(k) is SliceV:
                n = len(o.items)
                sl = slice(*[None if x is None else self.index(x) for x in (k.lo, k.hi, k.step)])
                if t is AArray and o.tc != 'y':
                    if type(v) is not AArray or v.tc != o.tc:
                        self.err('TypeError', 'can only assign array to array slice')
                    vals = list(v.items)
                elif t is AArray:
                    vals = list(self.lib.bytearray_ctor(self, [v]).items)
                else:
                    vals = list(self.iterate(v))
                try:
                    o.items[sl] = vals
                except ValueError as e:
                    self.err('ValueError', str(e))
                return
            i = self.index(k)
            if any(type(x) is Seg for x in o.items):
                if i >= 0 and not any(type(x) is Seg for x in o.items[:i + 1]) and i < len(o.items):
                    o.items[i] = v
                    return
                raise Unmodelled('store into a sequence of unknown length')
            n = len(o.items)
            if i < 0:
                i += n
            if i < 0 or i >= n:
                self.err('IndexError', '%s assignment index out of range' % self.typename(o))
            if t is AArray:
                v = self.lib.arr_check(self, o, v)
            o.items[i] = v
            return
        if t is AObj:
            m = o.cls.find('__setitem__')
            if m is not None:
                self.call(self.bind_attr(m, o, o.cls), [k, v])
                return
        if t is Opaque:
            raise Unmodelled('store into unknown value')
        self.err('TypeError', "'%s' object does not support item assignment" % self.typename(o))

    def delitem(self, o, k):
        t = type(o)
        if t is ADict:
            if self.ddel(o, k) is MISSING:
                self.err('KeyError', k)
            return
        if t is AList or t is AArray:
            self.mut(o)
            if type(k) is SliceV:
                sl = slice(*[None if x is None else self.index(x) for x in (k.lo, k.hi, k.step)])
                del o.items[sl]
                return
            i = self.index(k)
            try:
                del o.items[i]
            except IndexError:
                self.err('IndexError', 'list assignment index out of range')
            return
        if t is AObj:
            m = o.cls.find('__delitem__')
            if m is not None:
                self.call(self.bind_attr(m, o, o.cls), [k])
                return
        self.err('TypeError', "'%s' object doesn't support item deletion" % self.typename(o))

    # ------------------------------------------------------------- dispatch
    def build_dispatch(self):
        self.E = {}
        self.X = {}
        for n in dir(self):
            if n.startswith('e_'):
                self.E[n[2:]] = getattr(self, n)
            elif n.startswith('x_'):
                self.X[n[2:]] = getattr(self, n)

    def ev(self, n, fr):
        try:
            f = self.E[n.T]
        except KeyError:
            raise Unmodelled('expression %s' % n.T)
        return f(n, fr)

    def exec_block(self, body, fr):
        C = D.ctx()
        X = self.X
        for n in body:
            fr.line = n.lineno
            C.steps += 1
            if C.steps > self.maxsteps:
                raise Budget('step budget exceeded at %s' % self.where(), self.trace())
            if C.steps & 1023 == 0 and self.deadline and time.time() > self.deadline:
                raise Budget('time budget exceeded at %s' % self.where())
            f = X.get(n.T)
            if f is None:
                raise Unmodelled('statement %s' % n.T)
            r = f(n, fr)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------- expressions
    def e_Num(self, n, fr):
        return n.n

    def e_Str(self, n, fr):
        s = getattr(n, '_sv', None)
        if s is None:
            s = S(n.s.codes, n.s.uni)
            n._sv = s
        return s

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def lookup(self, name, fr):
        f = fr
        if f.names is None:
            # module or class body
            if name in f.loc:
                return f.loc[name]
            if f.isclass:
                p = f.parent
                while p is not None:
                    if p.names is not None and name in p.names:
                        if name in p.loc:
                            return p.loc[name]
                    p = p.parent
        else:
            if name in f.names:
                try:
                    return f.loc[name]
                except KeyError:
                    self.ierr('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
            if name not in f.globals:
                p = f.parent
                while p is not None:
                    if p.names is not None and not p.isclass and name in p.names:
                        if name in p.loc:
                            return p.loc[name]
                        self.ierr('NameError', "free variable '%s' referenced before assignment" % name)
                    p = p.parent
        g = fr.mod.ns
        if name in g:
            return g[name]
        b = self.builtins
        if name in b:
            return b[name]
        self.ierr('NameError', "name '%s' is not defined" % name)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr(o, self.mangle(n.attr, fr))

    def mangle(self, a, fr):
        if a.startswith('__') and not a.endswith('__'):
            f = fr
            while f is not None:
                if f.cls:
                    return '_%s%s' % (f.cls.lstrip('_'), a)
                f = f.parent
        return a

    def e_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args = [self.ev(a, fr) for a in n.args]
        kw = {}
        for k in n.keywords:
            kw[k.arg] = self.ev(k.value, fr)
        if n.starargs is not None:
            args += list(self.iterate(self.ev(n.starargs, fr)))
        if n.kwargs is not None:
            d = self.ev(n.kwargs, fr)
            for k, v in d.d.values():
                kw[k.text()] = v
        if type(f) is Builtin and f.name in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'execfile'):
            if f.name == 'locals':
                d = ADict()
                for k, v in fr.loc.items():
                    self.dset(d, st(k), v)
                return d
            if f.name != 'super' and (f.name != 'vars' or not args):
                raise Unmodelled(f.name + '()')
        if n.starargs is not None:
            # the number of arguments is data here: a mismatch is the input's error
            self.star = len(self.stack)
            try:
                r = self.call(f, args, kw)
            finally:
                self.star = None
        else:
            r = self.call(f, args, kw)
        fr.line = n.lineno
        return r

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = n.op
        if op == 'Not':
            return D.cnot(self.truth(v))
        t = type(v)
        if t in (int, bool, float):
            if op == 'USub':
                return -v
            if op == 'UAdd':
                return +v
            if op == 'Invert':
                return ~v
        if t is AInt or t is Cond:
            if op == 'USub':
                return D.neg(v)
            if op == 'UAdd':
                return D.as_num(v)
            return D.inv(v)
        if t is ATimedelta and op == 'USub':
            return ATimedelta(D.neg(v.us))
        if t is ATimedelta and op == 'UAdd':
            return v
        if t is AReal and op == 'USub':
            return AReal(D.neg(v.num), v.den)
        if t is Opaque:
            return v
        self.err('TypeError', 'bad operand type for unary %s' % op)

    def e_BoolOp(self, n, fr):
        v = None
        last = len(n.values) - 1
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == last:
                return v
            t = self.test(v)
            if type(v) is Cond:
                v = t
            if n.op == 'And':
                if not t:
                    return v
            elif t:
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        ops = n.ops
        for i, (op, c) in enumerate(zip(ops, n.comparators)):
            b = self.ev(c, fr)
            r = self.cmp1(op, a, b)
            if i == len(ops) - 1:
                return r
            if not D.ctx().branch(r):
                return False
            a = b

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.test(self.ev(n.test, fr)) else n.orelse, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.ev(x, fr) for x in n.elts)

    def e_List(self, n, fr):
        return AList([self.ev(x, fr) for x in n.elts])

    def e_Set(self, n, fr):
        s = ASet()
        for x in n.elts:
            self.lib.set_add(self, s, self.ev(x, fr))
        return s

    def e_Dict(self, n, fr):
        d = ADict()
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, fr)
            self.dset(d, self.ev(k, fr), vv)
        return d

    def e_Repr(self, n, fr):
        return self.lib.py_repr(self, self.ev(n.value, fr))

    def e_Lambda(self, n, fr):
        i = self.info_of(n)
        f = AFunc(n, fr.mod, [self.ev(d, fr) for d in n.args.defaults], fr if fr.names is not None else fr.parent,
                  '<lambda>', fr.qual + '.<lambda>', i)
        return f

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getitem(o, self.ev_slice(n.slice, fr))

    def ev_slice(self, s, fr):
        if s.T == 'Index':
            return self.ev(s.value, fr)
        if s.T == 'Slice':
            return SliceV(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        raise Unmodelled('extended slice')

    def comp(self, gens, fr, emit):
        def rec(i):
            if i == len(gens):
                emit()
                return
            g = gens[i]
            it = self.ev(g.iter, fr)

            def body(x):
                self.assign(g.target, x, fr)
                for c in g.ifs:
                    if not self.test(self.ev(c, fr)):
                        return None
                rec(i + 1)
            self.loop_over(it, body, fr)
        rec(0)

    def e_ListComp(self, n, fr):
        out = AList()

        def emit():
            v = self.ev(n.elt, fr)
            self.mut(out)
            out.items.append(v)
        self.comp(n.generators, fr, emit)
        return out

    def subframe(self, fr, gens, qual):
        loc, glb, gen = set(), set(), False

        def tg(t):
            if t.T == 'Name':
                loc.add(t.id)
            else:
                for e in t.elts:
                    tg(e)
        for g in gens:
            tg(g.target)
        f = Frame(fr.mod, fr.qual + '.' + qual, loc, set(), fr)
        f.line = fr.line
        return f

    def e_GeneratorExp(self, n, fr):
        # evaluated eagerly: observably the same unless the source is consumed elsewhere in between
        out = AList()
        sf = self.subframe(fr, n.generators, '<genexpr>')

        def emit():
            v = self.ev(n.elt, sf)
            self.mut(out)
            out.items.append(v)
        self.stack.append(sf)
        try:
            self.comp(n.generators, sf, emit)
        finally:
            self.stack.pop()
        if any(type(x) is Seg for x in out.items):
            return out
        return Iter(self.iter(out).nxt, 'generator')

    def e_SetComp(self, n, fr):
        out = ASet()
        sf = self.subframe(fr, n.generators, '<setcomp>')
        self.stack.append(sf)
        try:
            self.comp(n.generators, sf, lambda: self.lib.set_add(self, out, self.ev(n.elt, sf)))
        finally:
            self.stack.pop()
        return out

    def e_DictComp(self, n, fr):
        out = ADict()
        sf = self.subframe(fr, n.generators, '<dictcomp>')

        def emit():
            k = self.ev(n.key, sf)
            self.dset(out, k, self.ev(n.value, sf))
        self.stack.append(sf)
        try:
            self.comp(n.generators, sf, emit)
        finally:
            self.stack.pop()
        return out

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        f = fr
        while f.gen is None:
            f = f.parent
            if f is None:
                raise Unmodelled('yield outside generator')
        return f.gen(v)

    # ------------------------------------------------------------- loops
    def loop_over(self, it, body, fr):
        """body(x) -> signal; returns signal. Sequences with runs of unknown length are summarised."""
        t = type(it)
        if t in (S, tuple, AList, AArray):
            items = it if t is tuple else it.items
            if any(type(x) is Seg for x in items):
                for x in list(items):
                    if type(x) is Seg:
                        raise Unmodelled('loop over a run of unknown length')
                    else:
                        r = body(S((x,), it.uni) if t is S else x)
                    if r is not None:
                        if r == 'brk' or r[0] == 'ret':
                            return r
                return None
        for x in self.iterate(it):
            r = body(x)
            if r is not None:
                if r == 'brk' or r[0] == 'ret':
                    return r
        return None

    def x_For(self, n, fr):
        it = self.ev(n.iter, fr)

        def body(x):
            self.assign(n.target, x, fr)
            return self.exec_block(n.body, fr)
        r = self.loop_over(it, body, fr)
        if r == 'brk':
            return None
        if r is not None:
            return r
        if n.orelse:
            return self.exec_block(n.orelse, fr)
        return None

    def x_While(self, n, fr):
        C = D.ctx()
        cnt = 0
        while True:
            fr.line = n.lineno
            if not self.test(self.ev(n.test, fr)):
                break
            cnt += 1
            if cnt > self.maxiter:
                raise Budget('loop at %s does not terminate within %d iterations' % (self.where(), self.maxiter), self.trace())
            r = self.exec_block(n.body, fr)
            if r is not None:
                if r == 'brk':
                    return None
                if r == 'cont':
                    continue
                return r
        if n.orelse:
            return self.exec_block(n.orelse, fr)
        return None

    # ------------------------------------------------------------- statements
    def x_Expr(self, n, fr):
        self.ev(n.value, fr)
        return None

    def x_Pass(self, n, fr):
        return None

    def x_Break(self, n, fr):
        return 'brk'

    def x_Continue(self, n, fr):
        return 'cont'

    def x_Return(self, n, fr):
        return ('ret', self.ev(n.value, fr) if n.value is not None else None)

    def x_Global(self, n, fr):
        return None

    def x_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)
        return None

    def assign(self, t, v, fr):
        T = t.T
        if T == 'Name':
            name = t.id
            if fr.names is None:
                fr.loc[name] = v
                return
            if name in fr.globals:
                self.mut(fr.mod)
                fr.mod.ns[name] = v
                return
            if name in fr.names:
                fr.loc[name] = v
                return
            fr.loc[name] = v
            return
        if T == 'Attribute':
            o = self.ev(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
            return
        if T == 'Subscript':
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
            return
        if T in ('Tuple', 'List'):
            if type(v) is Opaque:
                raise Unmodelled('unpacking of unknown value')
            vals = list(self.iterate(v))
            if len(vals) != len(t.elts):
                self.err('ValueError', 'need %d values to unpack, got %d' % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
            return
        raise Unmodelled('assignment target %s' % T)

    def x_AugAssign(self, n, fr):
        t = n.target
        if t.T == 'Name':
            a = self.lookup(t.id, fr)
            v = self.binop(n.op, a, self.ev(n.value, fr), True)
            self.assign(t, v, fr)
        elif t.T == 'Attribute':
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            a = self.getattr(o, nm)
            self.setattr(o, nm, self.binop(n.op, a, self.ev(n.value, fr), True))
        elif t.T == 'Subscript':
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            a = self.getitem(o, k)
            self.setitem(o, k, self.binop(n.op, a, self.ev(n.value, fr), True))
        else:
            raise Unmodelled('augmented assignment')
        return None

    def x_Delete(self, n, fr):
        for t in n.targets:
            self.delete(t, fr)
        return None

    def delete(self, t, fr):
        if t.T == 'Name':
            if t.id in fr.loc:
                del fr.loc[t.id]
            else:
                self.ierr('NameError', t.id)
        elif t.T == 'Attribute':
            o = self.ev(t.value, fr)
            cv = o.cls.find(t.attr) if isinstance(o, AObj) else None
            if type(cv) is Prop:
                if cv.fdel is None:
                    self.err('AttributeError', "can't delete attribute")
                self.call(cv.fdel, [o])
            elif type(cv) is AObj and type(cv.cls.find('__delete__')) is AFunc:
                self.call(cv.cls.find('__delete__'), [cv, o])
            elif isinstance(o, AObj) and type(o.cls.find('__delattr__')) is AFunc:
                self.call(o.cls.find('__delattr__'), [o, st(t.attr)])
            elif isinstance(o, AClass) and not o.builtin and t.attr in o.ns or isinstance(o, AModule) and t.attr in o.ns:
                self.mut(o)
                del o.ns[t.attr]
            elif isinstance(o, AFunc) and t.attr in o.attrs:
                self.mut(o)
                del o.attrs[t.attr]
            elif isinstance(o, AObj) and t.attr in o.attrs:
                self.mut(o)
                del o.attrs[t.attr]
            else:
                self.err('AttributeError', t.attr)
        elif t.T == 'Subscript':
            o = self.ev(t.value, fr)
            self.delitem(o, self.ev_slice(t.slice, fr))
        elif t.T in ('Tuple', 'List'):
            for e in t.elts:
                self.delete(e, fr)

    def x_If(self, n, fr):
        if self.test(self.ev(n.test, fr)):
            return self.exec_block(n.body, fr)
        if n.orelse:
            return self.exec_block(n.orelse, fr)
        return None

    def x_Assert(self, n, fr):
        if not self.test(self.ev(n.test, fr)):
            self.err('AssertionError', self.ev(n.msg, fr) if n.msg is not None else None)
        return None

    def x_Print(self, n, fr):
        for v in n.values:
            self.ev(v, fr)
        D.ctx().events.append(('print', self.where()))
        return None

    def x_Raise(self, n, fr):
        if n.type is None:
            for f in reversed(self.stack):
                if f.excs:
                    raise f.excs[-1]
            self.err('TypeError', 'exceptions must be old-style classes or derived from BaseException, not NoneType')
        t = self.ev(n.type, fr)
        inst = self.ev(n.inst, fr) if n.inst is not None else None
        if type(t) is AClass:
            if isinstance(inst, AObj) and t in inst.cls.mro:
                e = inst
            elif isinstance(inst, tuple):
                e = self.instantiate(t, list(inst), {})
            elif inst is None and n.inst is None:
                e = self.instantiate(t, [], {})
            else:
                e = self.instantiate(t, [inst], {})
        elif isinstance(t, AObj):
            e = t
        else:
            self.err('TypeError', 'exceptions must be classes or instances, not %s' % self.typename(t))
        if self.types['BaseException'] not in e.cls.mro:
            if e.cls.builtin:
                self.err('TypeError', 'exceptions must be derived from BaseException')
        raise ARaise(e, self.trace())

    def x_TryExcept(self, n, fr):
        depth = len(self.stack)
        try:
            r = self.exec_block(n.body, fr)
        except ARaise as e:
            del self.stack[depth:]
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    c = self.ev(h.type, fr)
                    ok = self.exc_match(e.exc, c)
                if ok:
                    if self.internal and h.type is not None:
                        cs = c if isinstance(c, tuple) else (c,)
                        if any(isinstance(x, AClass) and x.name in PROBES for x in cs):
                            self.handled(e.exc)
                    if h.name is not None:
                        self.assign(h.name, e.exc, fr)
                    fr.excs.append(e)
                    try:
                        return self.exec_block(h.body, fr)
                    finally:
                        fr.excs.pop()
            raise
        except StopIter:
            raise
        if r is None and n.orelse:
            return self.exec_block(n.orelse, fr)
        return r

    def exc_match(self, exc, c):
        if isinstance(c, tuple):
            return any(self.exc_match(exc, x) for x in c)
        if isinstance(c, AClass):
            return c in exc.cls.mro
        if isinstance(c, Opaque):
            raise Unmodelled('except clause with unknown class')
        return False

    def x_TryFinally(self, n, fr):
        depth = len(self.stack)
        try:
            r = self.exec_block(n.body, fr)
        except ARaise:
            del self.stack[depth:]
            r2 = self.exec_block(n.finalbody, fr)
            if r2 is not None:
                return r2
            raise
        r2 = self.exec_block(n.finalbody, fr)
        return r2 if r2 is not None else r

    def x_With(self, n, fr):
        m = self.ev(n.context_expr, fr)
        depth = len(self.stack)
        ex = self.getattr(m, '__exit__')
        v = self.call(self.getattr(m, '__enter__'), [])
        if n.optional_vars is not None:
            self.assign(n.optional_vars, v, fr)
        try:
            r = self.exec_block(n.body, fr)
        except ARaise as e:
            del self.stack[depth:]
            if self.test(self.call(ex, [e.exc.cls, e.exc, None])):
                return None
            raise
        self.call(ex, [None, None, None])
        return r

    def x_Import(self, n, fr):
        for a in n.names:
            name = self.resolve_rel(fr, a.name, 0)
            m = self.import_module(name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.import_module(self.resolve_rel(fr, top, 0)), fr)
        return None

    def assign_name(self, name, v, fr):
        if fr.names is not None and name in fr.globals:
            self.mut(fr.mod)
            fr.mod.ns[name] = v
        else:
            fr.loc[name] = v

    def x_ImportFrom(self, n, fr):
        if n.module == '__future__':
            if any(a.name == 'division' for a in n.names):
                fr.mod.future_div = True
            return None
        name = self.resolve_rel(fr, n.module or '', n.level)
        m = self.import_module(name)
        for a in n.names:
            if a.name == '*':
                allv = m.ns.get('__all__')
                if allv is not None:
                    names = [x.text() for x in allv.items]
                else:
                    names = [k for k in m.ns if not k.startswith('_')]
                for k in names:
                    self.assign_name(k, m.ns[k], fr)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                sub = name + '.' + a.name
                if sub in self.asts or self.lib.ext_module(self, sub) is not None:
                    v = self.import_module(sub)
                elif m.path is None and self.lib.ext_has(name, a.name):
                    v = Opaque(sub)
                else:
                    self.err('ImportError', 'cannot import name %s' % a.name)
            self.assign_name(a.asname or a.name, v, fr)
        return None

    def x_FunctionDef(self, n, fr):
        i = self.info_of(n)
        qual = n.name if fr.qual == '<module>' else fr.qual + '.' + n.name
        clos = fr if fr.names is not None else (fr.parent if fr.isclass else None)
        f = AFunc(n, fr.mod, [self.ev(d, fr) for d in n.args.defaults], clos, n.name, qual, i)
        f.cls = fr.qual.split('.')[-1] if fr.isclass else fr.cls
        v = f
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        self.assign_name(n.name, v, fr)
        return None

    def x_ClassDef(self, n, fr):
        bases = [self.ev(b, fr) for b in n.bases]
        for b in bases:
            if not isinstance(b, AClass):
                raise Unmodelled('class base %r' % (b,))
            if b.builtin and b.name in ('str', 'unicode', 'int', 'long', 'float', 'set', 'frozenset', 'array', 'bytearray',
                                        'type', 'datetime', 'timedelta'):
                raise Unmodelled('subclass of ' + b.name)
        if fr.mod.name != 'subclassed':
            bases = [self.sub_base(b) for b in bases]
        if any(k.T == 'Assign' and any(t.T == 'Name' and t.id == '__metaclass__' for t in k.targets) for k in n.body):
            raise Unmodelled('metaclass')
        qual = n.name if fr.qual == '<module>' else fr.qual + '.' + n.name
        cf = Frame(fr.mod, qual, None, (), fr if fr.names is not None else fr.parent)
        cf.isclass = True
        cf.cls = n.name
        cf.loc = {'__module__': st(fr.mod.name)}
        self.stack.append(cf)
        try:
            self.exec_block(n.body, cf)
        finally:
            self.stack.pop()
        if not bases:
            bases = []
        c = AClass(n.name, bases, cf.loc, None, fr.mod, builtin=False)
        if self.types['object'] not in c.mro:
            c.mro.append(self.types['object'])
        if not self.loading:
            pass
        v = c
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        self.assign_name(n.name, v, fr)
        return None

    def x_Exec(self, n, fr):
        raise Unmodelled('exec statement')
