"""AST interpreter over symbolic values."""
import re, ast, builtins, inspect, sys, types, logging, importlib
import z3
from .core import *
from .core import ABSENT
from . import core
from .ropes import *
from . import ropes

INTERP_PREFIXES = ('mqtt', 'contracts', 'specifications', 'fakes')
MAXSTEPS = 600000


def raise_(cls, *args):
    raise PyRaise(IObj(cls, {'args': tuple(args)}))


# ---------------------------------------------------------------- source index
_modidx = {}


def mod_index(mod_file):
    if mod_file in _modidx:
        return _modidx[mod_file]
    with open(mod_file) as f:
        src = f.read()
    tree = ast.parse(src)
    idx = {}

    def walk(node, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                walk(ch, ch.name)
            elif isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                ln = ch.lineno
                if isinstance(ch, ast.FunctionDef):
                    for d in ch.decorator_list:
                        ln = min(ln, d.lineno)
                    idx[(ch.name, ln)] = (ch, cls)
                else:
                    idx[('<lambda>', ln)] = (ch, cls)
                walk(ch, cls)
            else:
                walk(ch, cls)
    walk(tree, None)
    _modidx[mod_file] = idx
    return idx


def fn_node(f):
    co = f.__code__
    idx = mod_index(co.co_filename)
    r = idx.get((co.co_name, co.co_firstlineno))
    if r is None:
        raise Undecided('no source for %s' % f.__qualname__)
    return r


def interpretable(f):
    m = getattr(f, '__module__', None) or ''
    return m.split('.')[0] in INTERP_PREFIXES


class Frame:
    __slots__ = ('locals', 'globals', 'parent', 'cls', 'fname', 'globalnames', 'modname', 'exc', 'nonlocals', 'assigned', 'line')

    def __init__(self, globals_, parent, cls, fname, modname):
        self.locals = Locals()
        self.globals = globals_
        self.parent = parent
        self.cls = cls
        self.fname = fname
        self.globalnames = set()
        self.nonlocals = set()
        self.modname = modname
        self.exc = []
        self.assigned = None
        self.line = 0


_assigned_cache = {}


def assigned_names(node):
    r = _assigned_cache.get(id(node))
    if r is not None:
        return r[1]
    names = set()
    glob = set()

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                names.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                names.add(ch.id)
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                names.add(ch.name)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    names.add((a.asname or a.name).split('.')[0])
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                glob.update(ch.names)
            walk(ch)
    if isinstance(node, ast.FunctionDef):
        for s in node.body:
            walk(ast.Module(body=[s], type_ignores=[]))
    names -= glob
    _assigned_cache[id(node)] = (node, names)
    return names


NATIVE = (int, float, str, bytes, bool, type(None), complex)


def is_native(v):
    if isinstance(v, NATIVE):
        return True
    if isinstance(v, tuple):
        return all(is_native(x) for x in v)
    return False


class Interp:
    def __init__(self, ctx, engine):
        self.ctx = ctx
        self.engine = engine
        self.objmemo = {}
        self.stack = []

    # ------------------------------------------------------------ helpers
    def conv(self, v):
        """real python value (module global, default) -> interpreter value"""
        if isinstance(v, NATIVE):
            return v
        t = type(v)
        if t in (list, dict, set, tuple, bytearray, frozenset):
            if t is tuple:
                if is_native(v):
                    return v
                return tuple(self.conv(x) for x in v)
            if t is bytearray:
                return bytes(v)
            k = id(v)
            if k in self.objmemo:
                return self.objmemo[k][0]
            if t is list:
                r = IList()
                self.objmemo[k] = (r, v)
                r.items = [self.conv(x) for x in v]
            elif t is dict:
                r = IDict()
                self.objmemo[k] = (r, v)
                r.ents = [(self.conv(a), self.conv(b)) for a, b in v.items()]
            else:
                r = ISet()
                self.objmemo[k] = (r, v)
                r.items = [self.conv(x) for x in v]
            return r
        if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
            return v
        if (t.__module__ or '').split('.')[0] in INTERP_PREFIXES and not getattr(t, '_pydv_native', False):
            k = id(v)
            if k in self.objmemo:
                return self.objmemo[k][0]
            r = IObj(t)
            self.objmemo[k] = (r, v)
            for a, b in vars(v).items():
                r.attrs[a] = self.conv(b)
            return r
        return v

    def set_local(self, fr, name, v):
        self.ctx.log('local', fr.locals, name, fr.locals.get(name, ABSENT))
        fr.locals[name] = v

    def set_items(self, lst, items):
        self.ctx.log('items', lst, None, lst.items)
        lst.items = items

    def set_ents(self, d, ents, rest=None, keep_rest=True):
        self.ctx.log('ents', d, None, (d.ents, d.rest))
        d.ents = ents
        if not keep_rest:
            d.rest = rest

    def set_attr_raw(self, o, name, v):
        self.ctx.log('attr', o, name, o.attrs.get(name, ABSENT))
        o.attrs[name] = v

    def del_attr_raw(self, o, name):
        self.ctx.log('attr', o, name, o.attrs.get(name, ABSENT))
        o.attrs.pop(name, None)

    def use(self, v):
        if isinstance(v, Poison):
            if isinstance(v, Choice):
                for p, x in v.alts[:-1]:
                    if self.ctx.branch(p):
                        return self.use(x)
                return self.use(v.alts[-1][1])
            raise Undecided('use of %s' % v.why)
        return v

    # ------------------------------------------------------------ names
    def load(self, fr, name):
        f = fr
        if name not in fr.globalnames:
            while f is not None:
                if name in f.locals:
                    return self.use(f.locals[name])
                if f.assigned is not None and name in f.assigned and f is fr:
                    raise_(UnboundLocalError, "cannot access local variable '%s' where it is not associated with a value" % name)
                f = f.parent
        key = (id(fr.globals), name)
        if key in self.ctx.overlay:
            return self.ctx.overlay[key]
        if name in fr.globals:
            return self.conv(fr.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise_(NameError, "name '%s' is not defined" % name)

    def mangle(self, fr, name):
        if fr.cls and name.startswith('__') and not name.endswith('__'):
            return '_' + fr.cls.lstrip('_') + name
        return name

    # ------------------------------------------------------------ calls
    def qual(self, f):
        return '%s.%s' % (f.__module__, f.__qualname__)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        f = self.use(f)
        if isinstance(f, IBound):
            return self.call(f.fn, (f.obj,) + tuple(args), kwargs)
        if isinstance(f, IFunc):
            return self.call_node(f, f.node, f.frame, f.frame.globals, f.cls, f.name, args, kwargs,
                                  f.defaults, f.kwdefaults, f.mod)
        if isinstance(f, IModel):
            from .models import call_method
            return call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.FunctionType):
            q = self.qual(f)
            st = self.engine.stubs.get(q)
            if st is not None and q not in self.engine.stub_off:
                r = self.call_stub(q, st, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            if interpretable(f):
                node, cls = fn_node(f)
                self.engine.note_fn(q)
                defaults = tuple(self.conv(d) for d in (f.__defaults__ or ()))
                kwd = {k: self.conv(v) for k, v in (f.__kwdefaults__ or {}).items()}
                if f.__closure__:
                    pf = Frame(f.__globals__, None, cls, q, f.__module__)
                    for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                        pf.locals[nm] = self.conv(cell.cell_contents)
                else:
                    pf = None
                return self.call_node(f, node, pf, f.__globals__, cls, q, args, kwargs, defaults, kwd, f.__module__)
        if isinstance(f, types.MethodType):
            if getattr(f.__self__, '_intrinsic', False):
                return f(*args, **kwargs)
            if interpretable(f.__func__):
                return self.call(f.__func__, (self.conv(f.__self__),) + tuple(args), kwargs)
        if getattr(f, '_intrinsic', False):
            return f(*args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, IObj):
            m = self.class_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(m, (f,) + tuple(args), kwargs)
        from .models import call_builtin
        return call_builtin(self, f, args, kwargs)

    def call_stub(self, q, st, f, args, kwargs):
        self.engine.note_stub(q)
        return st(self, args, kwargs)

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, fname):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kwargs = dict(kwargs)
        n = len(names)
        for i, nm in enumerate(names):
            if i < len(args):
                loc[nm] = args[i]
                if nm in kwargs:
                    raise_(TypeError, '%s() got multiple values for argument %r' % (fname, nm))
            elif nm in kwargs:
                loc[nm] = kwargs.pop(nm)
            else:
                j = i - (n - len(defaults))
                if j >= 0:
                    loc[nm] = defaults[j]
                else:
                    raise_(TypeError, '%s() missing argument %r' % (fname, nm))
        if len(args) > n:
            if a.vararg:
                loc[a.vararg.arg] = tuple(args[n:])
            else:
                raise_(TypeError, '%s() takes %d positional arguments but %d were given' % (fname, n, len(args)))
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise_(TypeError, '%s() missing keyword argument %r' % (fname, x.arg))
        if a.kwarg:
            loc[a.kwarg.arg] = IDict(list(kwargs.items()))
        elif kwargs:
            raise_(TypeError, '%s() got an unexpected keyword argument %r' % (fname, list(kwargs)[0]))
        return loc

    def call_node(self, f, node, parent, globals_, cls, name, args, kwargs, defaults, kwdefaults, mod):
        if len(self.stack) > 180:
            raise_(RecursionError, 'maximum recursion depth exceeded')
        fr = Frame(globals_, parent, cls, name, mod)
        fr.locals = Locals(self.bind_args(node, args, kwargs, defaults, kwdefaults, name))
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(fr, node.body)
            fr.assigned = assigned_names(node)
            try:
                self.exec_block(fr, node.body)
            except RetSig as r:
                return r.v
            return None
        except Undecided as e:
            w = e.__dict__.setdefault('where', [])
            if len(w) < 4:
                w.append('%s:%d' % (name.split('.')[-1], fr.line))
            raise
        finally:
            self.stack.pop()

    def instantiate(self, cls, args, kwargs):
        from .models import construct
        if issubclass(cls, BaseException):
            o = IObj(cls, {'args': tuple(args)})
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType) and interpretable(init):
                self.call(init, (o,) + tuple(args), kwargs)
            return o
        q = '%s.%s' % (cls.__module__, cls.__qualname__)
        if q in self.engine.stubs:
            self.engine.note_stub(q)
            return self.engine.stubs[q](self, args, kwargs)
        if (cls.__module__ or '').split('.')[0] in INTERP_PREFIXES:
            o = IObj(cls)
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, (o,) + tuple(args), kwargs)
            elif args or kwargs:
                raise_(TypeError, '%s() takes no arguments' % cls.__name__)
            return o
        return construct(self, cls, args, kwargs)

    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=ABSENT):
        o = self.use(o)
        if isinstance(o, IObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Maybe):
                    if self.ctx.branch(v.p):
                        return self.use(v.v)
                elif v is not ABSENT:
                    return self.use(v)
            self.abstract(o, name)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return IDict([(k, v) for k, v in o.attrs.items()])
            d = self.class_lookup(o.cls, name)
            if d is not None:
                if isinstance(d, types.FunctionType):
                    return IBound(o, d)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return IBound(o.cls, d.__func__)
                if isinstance(d, property):
                    return self.call(d.fget, (o,))
                if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
                    return IModel(o, name)
                return self.conv(d)
            ga = self.class_lookup(o.cls, '__getattr__')
            if isinstance(ga, types.FunctionType):
                return self.call(ga, (o, name))
            if default is not ABSENT:
                return default
            raise_(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
        if isinstance(o, types.ModuleType):
            key = (id(o.__dict__), name)
            if key in self.ctx.overlay:
                return self.ctx.overlay[key]
            if name in o.__dict__:
                return self.conv(o.__dict__[name])
            try:
                return self.conv(getattr(o, name))
            except AttributeError:
                if default is not ABSENT:
                    return default
                raise_(AttributeError, 'module %s has no attribute %s' % (o.__name__, name))
        if isinstance(o, type):
            key = (id(o), name)
            if key in self.ctx.overlay:
                return self.ctx.overlay[key]
            d = self.class_lookup(o, name)
            if d is None:
                if hasattr(o, name):
                    return getattr(o, name)
                if default is not ABSENT:
                    return default
                raise_(AttributeError, "type object '%s' has no attribute '%s'" % (o.__name__, name))
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return IBound(o, d.__func__)
            if isinstance(d, types.FunctionType):
                return d
            if o in (object, str, bytes, int, dict, list, set, bytearray):
                return getattr(o, name)
            return self.conv(d)
        if isinstance(o, ISuper):
            mro = o.obj.cls.__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return IBound(o.obj, d)
                    return IModel(o.obj, name)
            raise_(AttributeError, name)
        if getattr(o, '_intrinsic', False):
            return getattr(o, name)
        if isinstance(o, logging.Logger):
            return IModel(o, name)
        if isinstance(o, (re.Pattern, re.Match)):
            return IModel(o, name)
        from .models import has_method
        if has_method(o, name):
            return IModel(o, name)
        if default is not ABSENT:
            return default
        if isinstance(o, (SNum, SBool, Rope, IList, IDict, ISet) + NATIVE) or isinstance(o, (tuple, IFunc)):
            if isinstance(o, IFunc) and name == '__name__':
                return o.name
            raise_(AttributeError, "'%s' object has no attribute '%s'" % (type(o).__name__, name))
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)) and hasattr(o, name):
            return getattr(o, name)
        raise Undecided('attribute %s of %r' % (name, type(o)))

    def abstract(self, o, name):
        """an object standing for an arbitrary property set has no readable attributes of its own"""
        if '__props__' in o.attrs and not name.startswith('__') and self.class_lookup(o.cls, name) is None:
            v = o.attrs['__props__']
            if v is not ABSENT and not (isinstance(v, Maybe) and not self.ctx.branch(v.p)):
                raise Undecided('attribute %s of an abstract property set' % name)

    def hasattr(self, o, name):
        """bool or SBool"""
        if isinstance(o, IObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Maybe):
                    if self.class_lookup(o.cls, name) is not None:
                        return True
                    return boolv(v.p)
                if v is not ABSENT:
                    return True
            self.abstract(o, name)
            return self.class_lookup(o.cls, name) is not None or name in ('__class__', '__dict__')
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return False
            raise

    def setattr(self, o, name, v):
        o = self.use(o)
        if isinstance(o, IObj):
            if '__props__' in o.attrs and name not in o.attrs:
                self.abstract(o, name)
            d = self.class_lookup(o.cls, '__setattr__')
            if isinstance(d, types.FunctionType):
                return self.call(d, (o, name, v))
            return self.set_attr_raw(o, name, v)
        if isinstance(o, type):
            self.ctx.overlay_set((id(o), name), v)
            return
        if isinstance(o, types.ModuleType):
            self.ctx.overlay_set((id(o.__dict__), name), v)
            return
        raise Undecided('setattr on %r' % (type(o),))

    def delattr(self, o, name):
        if isinstance(o, IObj):
            d = self.class_lookup(o.cls, '__delattr__')
            if isinstance(d, types.FunctionType):
                return self.call(d, (o, name))
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Maybe):
                    if self.ctx.branch(v.p):
                        return self.del_attr_raw(o, name)
                elif v is not ABSENT:
                    return self.del_attr_raw(o, name)
            raise_(AttributeError, name)
        raise Undecided('delattr on %r' % (type(o),))

    # ------------------------------------------------------------ truth / comparison
    def truth(self, v):
        """python truth value as bool or SBool"""
        v = self.use(v)
        if isinstance(v, SBool):
            return v
        if isinstance(v, SNum):
            return boolv(v.e != 0)
        if isinstance(v, Rope):
            v = norm(v)
            if not isinstance(v, Rope):
                return bool(v)
            return boolv(rlen(v) > 0)
        if isinstance(v, (IList, ISet, IIter)):
            return self.nonempty(v.items)
        if isinstance(v, IDict):
            return self.nonempty(v.ents)
        if isinstance(v, IObj):
            m = self.class_lookup(v.cls, '__bool__')
            if m is not None and isinstance(m, types.FunctionType):
                return self.truth(self.call(m, (v,)))
            m = self.class_lookup(v.cls, '__len__')
            if m is not None and isinstance(m, types.FunctionType):
                return self.truth(self.call(m, (v,)))
            return True
        if isinstance(v, NATIVE) or isinstance(v, (tuple, range)):
            return bool(v)
        if isinstance(v, (type, IFunc, IBound, IModel, types.FunctionType, types.ModuleType)):
            return True
        if v.__class__.__name__ == 'KeysView':
            return self.truth(v.d)
        return bool(v)

    def nonempty(self, items):
        from .loops import Seg, MapSeg, count
        from .loops import flatten, CondItem
        conds = []
        for it in flatten(items):
            if isinstance(it, (Seg, MapSeg)):
                conds.append(count(it) > 0)
            elif isinstance(it, CondItem):
                conds.append(it.p)
            else:
                return True
        if not conds:
            return False
        return boolv(z3.Or(conds))

    def test(self, v):
        t = self.truth(v)
        if isinstance(t, bool):
            return t
        return self.ctx.branch(t.e)

    def eq(self, a, b):
        """a == b as bool or SBool"""
        a, b = self.use(a), self.use(b)
        if a is b and not isinstance(a, float):
            return True
        if is_native(a) and is_native(b):
            return a == b
        na, nb = isinstance(a, (SNum, SBool, bool, int, float)), isinstance(b, (SNum, SBool, bool, int, float))
        if na and nb:
            if isinstance(a, SBool) and isinstance(b, SBool):
                return boolv(a.e == b.e)
            if isinstance(a, SBool) and isinstance(b, bool):
                return boolv(a.e if b else z3.Not(a.e))
            if isinstance(b, SBool) and isinstance(a, bool):
                return boolv(b.e if a else z3.Not(b.e))
            return boolv(zi(a) == zi(b))
        if isinstance(a, IObj) or isinstance(b, IObj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, IObj):
                    m = self.class_lookup(x.cls, '__eq__')
                    if isinstance(m, types.FunctionType):
                        r = self.call(m, (x, y))
                        if r is NotImplemented:
                            continue
                        return self.truth(r)
            return a is b
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if ka != kb:
                return False
            return eq_rope(a, b)
        if ka or kb or na or nb or a is None or b is None:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.eq_items(list(a), list(b))
        if isinstance(a, IList) and isinstance(b, IList):
            return self.eq_items(a.items, b.items)
        if isinstance(a, IList) != isinstance(b, IList):
            return False
        if isinstance(a, IDict) and isinstance(b, IDict):
            from .models import dict_equal
            return dict_equal(self, a, b)
        if isinstance(a, ISet) and isinstance(b, ISet):
            from .models import set_equal
            return set_equal(self, a, b)
        if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
            return False
        if isinstance(a, (IFunc, IBound)) or isinstance(b, (IFunc, IBound)):
            return isinstance(a, IBound) and isinstance(b, IBound) and a.obj is b.obj and a.fn is b.fn
        return a == b

    def eq_items(self, xs, ys):
        from .loops import eq_seqs
        return eq_seqs(self, xs, ys)

    def compare(self, op, a, b):
        a, b = self.use(a), self.use(b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else boolv(z3.Not(r.e))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, (SBool,)) and isinstance(b, bool):
                r = self.eq(a, b)
            elif isinstance(b, (SBool,)) and isinstance(a, bool):
                r = self.eq(a, b)
            elif is_native(a) and is_native(b):
                r = a is b or (type(a) is type(b) and a == b and isinstance(a, (int, str)))
            else:
                r = a is b
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else boolv(z3.Not(r.e))
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            from .models import contains
            r = contains(self, b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else boolv(z3.Not(r.e))
            return r
        if is_native(a) and is_native(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError as e:
                raise_(TypeError, str(e))
        if isinstance(a, (SNum, SBool, int, float)) and isinstance(b, (SNum, SBool, int, float)):
            x, y = zi(a), zi(b)
            return boolv({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())
        if a is None or b is None:
            raise_(TypeError, "'<' not supported between instances of %s and %s" % (type(a).__name__, type(b).__name__))
        raise Undecided('ordering of %r and %r' % (type(a), type(b)))

    # ------------------------------------------------------------ arithmetic
    def small_values(self, e, limit=16):
        """all values of e under the path condition if at most `limit`, else None"""
        s = self.ctx.solver
        vals = []
        s.push()
        try:
            while True:
                r = s.check()
                if r == z3.unsat:
                    return sorted(vals)
                if r != z3.sat or len(vals) >= limit:
                    return None
                v = s.model().eval(e, model_completion=True)
                if not z3.is_int_value(v):
                    return None
                vals.append(v.as_long())
                s.add(e != v)
        finally:
            s.pop()

    def concretize(self, v, limit=16):
        """fork on the few possible values of v"""
        if not isinstance(v, (SNum, SBool)):
            return v
        e = zi(v)
        vals = self.small_values(e, limit)
        if vals is None:
            return None
        if not vals:
            raise PathAbort()
        for x in vals[:-1]:
            if self.ctx.branch(e == x):
                return x
        self.ctx.assume(e == vals[-1])
        return vals[-1]

    def bitop(self, op, a, b):
        x, y = zi(a), zi(b)
        if isinstance(op, ast.BitAnd):
            c, e = (as_const(y), x) if as_const(y) is not None else (as_const(x), y)
            if c is not None and c >= 0:
                if c == 0:
                    return 0
                r = z3.IntVal(0)
                k = 0
                while c >> k:
                    if (c >> k) & 1:
                        m = 0
                        while (c >> (k + m)) & 1:
                            m += 1
                        d = e if k == 0 else self.idiv(e, 1 << k)
                        r = r + self.imod(d, 1 << m) * (1 << k)
                        k += m
                    else:
                        k += 1
                return num(r)
        if isinstance(op, ast.BitOr):
            for p, q in ((x, y), (y, x)):
                for k in (1, 2, 3, 4, 5, 6, 7, 8, 16):
                    if self.ctx.must(z3.And(q >= 0, q < (1 << k))):
                        if self.ctx.must(p % z3.IntVal(1 << k) == 0):
                            return num(p + q)
                        break
            for p, q in ((x, y), (y, x)):
                c = as_const(q)
                if c is not None and c >= 0:
                    r = p
                    k = 0
                    while c >> k:
                        if (c >> k) & 1:
                            d = p if k == 0 else p / z3.IntVal(1 << k)
                            r = r + (1 - d % 2) * (1 << k)
                        k += 1
                    return num(r)
        if isinstance(op, ast.BitXor):
            # (p ^ q) ^ q == p, structurally
            for p, q in ((x, y), (y, x)):
                if z3.is_app(p) and p.decl().eq(bxor):
                    if p.arg(0).eq(q):
                        return num(p.arg(1))
                    if p.arg(1).eq(q):
                        return num(p.arg(0))
            ca, cb = as_const(x), as_const(y)
            if cb == 0:
                return num(x)
            if ca == 0:
                return num(y)
        va = self.concretize(a) if not isinstance(a, int) else a
        if va is not None:
            vb = self.concretize(b) if not isinstance(b, int) else b
            if vb is not None:
                return self.native_bin(op, va, vb)
        if isinstance(op, ast.BitXor):
            if x.get_id() > y.get_id():
                x, y = y, x
            e = bxor(x, y)
            self.ctx.keep.append(e)
            self.ctx.fact_once(('xor', e.get_id()), lambda: z3.Implies(
                z3.And(x >= 0, x <= 255, y >= 0, y <= 255), z3.And(e >= 0, e <= 255)))
            self.ctx.fact_once(('xorc', e.get_id()), lambda: e == bxor(y, x))
            return SNum(e)
        f = bor if isinstance(op, ast.BitOr) else band
        e = f(x, y)
        self.ctx.keep.append(e)
        return SNum(e)

    def native_bin(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                return a / b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.Pow):
                return a ** b
            if isinstance(op, ast.LShift):
                return a << b
            if isinstance(op, ast.RShift):
                return a >> b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitXor):
                return a ^ b
        except Exception as e:
            raise PyRaise(IObj(type(e), {'args': tuple(str(x) for x in e.args)}))
        raise Undecided('operator %s' % type(op).__name__)

    def divmod_const(self, e, m):
        """(e div m, e mod m) for a positive constant m, exactly, when the part of the sum that m does not
        divide stays within one multiple of m"""
        e = z3.simplify(e)
        whole, rest = [], []
        for t in (e.children() if z3.is_add(e) else [e]):
            k = as_const(t)
            if k is not None:
                if k // m:
                    whole.append(z3.IntVal(k // m))
                if k % m:
                    rest.append(z3.IntVal(k % m))
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
                whole.append(z3.IntVal(t.arg(0).as_long() // m) * t.arg(1))
            else:
                rest.append(t)
        r = z3.simplify(z3.Sum(rest)) if rest else z3.IntVal(0)
        lo, hi = self.ctx.interval(r)
        if lo is None or hi is None or lo // m != hi // m:
            return None
        k = lo // m
        return z3.simplify(z3.Sum(whole + [z3.IntVal(k)])), z3.simplify(r - k * m)

    def idiv(self, e, m):
        x = self.divmod_const(e, m) if m > 0 else None
        return x[0] if x else e / z3.IntVal(m)

    def imod(self, e, m):
        x = self.divmod_const(e, m) if m > 0 else None
        return x[1] if x else e % z3.IntVal(m)

    def binop(self, op, a, b):
        a, b = self.use(a), self.use(b)
        if is_native(a) and is_native(b):
            return self.native_bin(op, a, b)
        numt = (SNum, SBool, int, float)
        if isinstance(a, numt) and isinstance(b, numt):
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                    x = a.e if isinstance(a, SBool) else z3.BoolVal(a)
                    y = b.e if isinstance(b, SBool) else z3.BoolVal(b)
                    return boolv(z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y) if isinstance(op, ast.BitOr) else z3.Xor(x, y))
                return self.bitop(op, a, b)
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return num(x + y)
            if isinstance(op, ast.Sub):
                return num(x - y)
            if isinstance(op, ast.Mult):
                if as_const(x) is None and as_const(y) is None and z3.is_int(x) and z3.is_int(y):
                    for p, q in ((a, y), (b, x)):
                        v = self.concretize(p, 8)
                        if v is not None:
                            return num(q * v)
                return num(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if z3.is_real(x) or z3.is_real(y):
                    raise Undecided('floor division of reals')
                if not self.ctx.must(y > 0):
                    if self.ctx.branch(y == 0):
                        raise_(ZeroDivisionError, 'integer division or modulo by zero')
                    if not self.ctx.branch(y > 0):
                        raise Undecided('division by a negative symbolic number')
                m = as_const(y)
                if m is not None:
                    return num(self.idiv(x, m) if isinstance(op, ast.FloorDiv) else self.imod(x, m))
                return num(x / y) if isinstance(op, ast.FloorDiv) else num(x % y)
            if isinstance(op, ast.Div):
                if self.ctx.branch(y == 0):
                    raise_(ZeroDivisionError, 'division by zero')
                xr = z3.ToReal(x) if z3.is_int(x) else x
                yr = z3.ToReal(y) if z3.is_int(y) else y
                return SNum(xr / yr)
            if isinstance(op, (ast.LShift, ast.RShift)):
                k = as_const(y)
                if k is None:
                    k = self.concretize(b, 40)
                if k is None:
                    raise Undecided('symbolic shift')
                if k < 0:
                    raise_(ValueError, 'negative shift count')
                return num(x * (1 << k)) if isinstance(op, ast.LShift) else num(x / z3.IntVal(1 << k))
            if isinstance(op, ast.Pow):
                v, w = self.concretize(a), self.concretize(b)
                if v is not None and w is not None:
                    return v ** w
            raise Undecided('operator %s on symbolic numbers' % type(op).__name__)
        ka, kb = kind_of(a), kind_of(b)
        if isinstance(op, ast.Add):
            if ka and kb:
                if ka != kb:
                    raise_(TypeError, 'cannot concatenate %s and %s' % (ka, kb))
                return concat(a, b)
            if isinstance(a, IList) and isinstance(b, IList):
                return IList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if ka or kb or isinstance(a, (IList, tuple)) or a is None or b is None:
                raise_(TypeError, 'unsupported operand types for +: %s and %s' % (type(a).__name__, type(b).__name__))
        if isinstance(op, ast.Mod) and ka == 's':
            return self.opaque_str('fmt')
        if isinstance(op, ast.Mult):
            if isinstance(a, IList) and isinstance(b, int):
                return IList(a.items * b)
            if (ka and isinstance(b, int)):
                r = b'' if ka == 'b' else ''
                for _ in range(b):
                    r = concat(r, a)
                return r
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and isinstance(a, ISet):
            from .models import set_op
            return set_op(self, op, a, b)
        if isinstance(a, IObj):
            nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitOr: '__or__', ast.BitAnd: '__and__'}.get(type(op))
            m = nm and self.class_lookup(a.cls, nm)
            if m:
                return self.call(m, (a, b))
        if a is None or b is None or isinstance(a, IObj) or isinstance(b, IObj):
            raise_(TypeError, 'unsupported operand types: %s and %s' % (type(a).__name__, type(b).__name__))
        raise Undecided('operator %s on %s, %s' % (type(op).__name__, type(a).__name__, type(b).__name__))

    def opaque_str(self, base):
        t = z3.Const(self.ctx.fresh('str:' + base), StrSort)
        return svar(t)

    # ------------------------------------------------------------ expressions
    def eval(self, fr, n):
        return getattr(self, 'e_' + type(n).__name__, self.e_unsupported)(fr, n)

    def e_unsupported(self, fr, n):
        raise Undecided('expression %s at %s:%d' % (type(n).__name__, fr.fname, n.lineno))

    def e_Constant(self, fr, n):
        return n.value

    def e_Name(self, fr, n):
        return self.load(fr, n.id)

    def e_Attribute(self, fr, n):
        o = self.eval(fr, n.value)
        return self.getattr(o, self.mangle(fr, n.attr))

    def e_BinOp(self, fr, n):
        a = self.eval(fr, n.left)
        b = self.eval(fr, n.right)
        return self.binop(n.op, a, b)

    def e_UnaryOp(self, fr, n):
        v = self.eval(fr, n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else boolv(z3.Not(t.e))
        if isinstance(n.op, ast.USub):
            if is_native(v):
                return -v
            return num(-zi(v))
        if isinstance(n.op, ast.UAdd):
            return v
        if is_native(v):
            return ~v
        return num(-zi(v) - 1)

    def e_BoolOp(self, fr, n):
        isand = isinstance(n.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            if last:
                v = self.eval(fr, x)
                break
            v = self.eval(fr, x)
            t = self.truth(v)
            if not isinstance(t, bool):
                # combine side-effect-free boolean operands without forking
                if isinstance(v, SBool) and all(self.pure_bool(y) for y in n.values[i + 1:]):
                    k = self.ctx.lookup(z3.simplify(t.e))
                    if k is None:
                        rest = ast.BoolOp(op=n.op, values=n.values[i + 1:]) if len(n.values) - i > 2 else n.values[i + 1]
                        if len(n.values) - i > 2:
                            ast.copy_location(rest, n)
                        w = self.try_pure(fr, rest)
                        if w is not None:
                            we = w.e if isinstance(w, SBool) else z3.BoolVal(w)
                            return boolv(z3.And(t.e, we) if isand else z3.Or(t.e, we))
                    else:
                        t = k
                if not isinstance(t, bool):
                    t = self.ctx.branch(t.e)
            if t != isand:
                return v if not isinstance(v, SBool) else t
        return v

    def pure_bool(self, n):
        """syntactically simple comparison of names, attributes and constants"""
        if isinstance(n, ast.Compare):
            return all(self.pure_term(x) for x in [n.left] + n.comparators)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.pure_bool(n.operand)
        if isinstance(n, ast.BoolOp):
            return all(self.pure_bool(x) for x in n.values)
        return False

    def pure_term(self, n):
        if isinstance(n, (ast.Name, ast.Constant)):
            return True
        if isinstance(n, ast.Attribute):
            return self.pure_term(n.value)
        if isinstance(n, ast.UnaryOp):
            return self.pure_term(n.operand)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            return self.pure_term(n.left) and self.pure_term(n.right)
        if isinstance(n, (ast.List, ast.Tuple)):
            return all(self.pure_term(x) for x in n.elts)
        return False

    def try_pure(self, fr, n):
        """evaluate a pure boolean expression; None when it would raise, fork or is not boolean"""
        c = self.ctx
        mark = len(c.journal)
        nwork = len(c.frames[-1].work)
        npos = c.frames[-1].pos
        npc = len(c.pc)
        saved = c.__dict__.get('branch')
        try:
            def nobranch(e):
                if isinstance(e, bool):
                    return e
                if isinstance(e, SBool):
                    e = e.e
                e = z3.simplify(e)
                if z3.is_true(e):
                    return True
                if z3.is_false(e):
                    return False
                k = c.lookup(e)
                if k is not None:
                    return k
                raise MergeFail()
            c.branch = nobranch
            v = self.eval(fr, n)
            if isinstance(v, (bool, SBool)):
                return v
            return None
        except (PyRaise, MergeFail, Undecided):
            c.rollback(mark)
            return None
        finally:
            if saved is None:
                del c.__dict__['branch']
            else:
                c.__dict__['branch'] = saved

    def e_Compare(self, fr, n):
        left = self.eval(fr, n.left)
        if len(n.ops) == 1:
            return self.compare(n.ops[0], left, self.eval(fr, n.comparators[0]))
        conds = []
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(fr, r)
            v = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                t = self.truth(v)
            else:
                t = self.truth(v)
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                if self.pure_term(r) and all(self.pure_term(x) for x in n.comparators[i + 1:]):
                    conds.append(t.e)
                else:
                    if not self.ctx.branch(t.e):
                        return False
            left = right
        if not conds:
            return True
        return boolv(z3.And(conds))

    def e_IfExp(self, fr, n):
        t = self.truth(self.eval(fr, n.test))
        if isinstance(t, bool):
            return self.eval(fr, n.body if t else n.orelse)
        # constant alternatives: ite without forking
        if isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant):
            a, b = n.body.value, n.orelse.value
            if isinstance(a, bool) and isinstance(b, bool):
                return boolv(z3.If(t.e, z3.BoolVal(a), z3.BoolVal(b)))
            if isinstance(a, int) and isinstance(b, int):
                return num(z3.If(t.e, z3.IntVal(a), z3.IntVal(b)))
        return self.eval(fr, n.body if self.ctx.branch(t.e) else n.orelse)

    def e_Call(self, fr, n):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f.parent is not None and 'self' not in f.locals:
                f = f.parent
            o = list(f.locals.values())[0]
            for k in o.cls.__mro__:
                if k.__name__ == f.cls:
                    return ISuper(k, o)
        f = self.eval(fr, n.func)
        if isinstance(f, IModel) and isinstance(f.obj, logging.Logger):
            for a in n.args:
                try:
                    self.eval_logarg(fr, a)
                except Undecided:
                    pass
            return None
        if f is print:
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_items(self.eval(fr, a.value)))
            else:
                args.append(self.eval(fr, a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(fr, k.value)
                for kk, vv in d.ents:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(fr, k.value)
        return self.call(f, args, kwargs)

    def eval_logarg(self, fr, a):
        """arguments of logging calls: evaluated only where they may raise cheaply"""
        if isinstance(a, (ast.Constant,)):
            return
        if isinstance(a, ast.Name):
            self.load(fr, a.id)
            return
        if isinstance(a, ast.Attribute):
            self.eval(fr, a)

    def e_Tuple(self, fr, n):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.eval(fr, x.value)))
            else:
                out.append(self.eval(fr, x))
        return tuple(out)

    def e_List(self, fr, n):
        return IList(self.e_Tuple(fr, n))

    def e_Set(self, fr, n):
        from .models import set_add
        s = ISet()
        for x in n.elts:
            set_add(self, s, self.eval(fr, x))
        return s

    def e_Dict(self, fr, n):
        from .models import dict_set
        d = IDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.eval(fr, v).ents:
                    dict_set(self, d, kk, vv)
            else:
                dict_set(self, d, self.eval(fr, k), self.eval(fr, v))
        return d

    def e_Subscript(self, fr, n):
        from .models import getitem
        o = self.use(self.eval(fr, n.value))
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(fr, n.slice.lower) if n.slice.lower else None
            hi = self.eval(fr, n.slice.upper) if n.slice.upper else None
            st = self.eval(fr, n.slice.step) if n.slice.step else None
            from .models import getslice
            return getslice(self, o, lo, hi, st)
        return getitem(self, o, self.eval(fr, n.slice))

    def e_Lambda(self, fr, n):
        defaults = tuple(self.eval(fr, d) for d in n.args.defaults)
        return IFunc(n, fr, fr.modname, fr.cls, '<lambda>', defaults)

    def e_JoinedStr(self, fr, n):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out = concat(out, v.value) if (isinstance(out, Rope)) else out + v.value
            else:
                x = self.eval(fr, v.value)
                from .models import to_str
                s = to_str(self, x)
                if v.format_spec is not None or v.conversion == 114:
                    if is_native(x) and v.format_spec is None:
                        s = repr(x)
                    elif is_native(x):
                        s = format(x, self.eval(fr, v.format_spec))
                    else:
                        s = self.opaque_str('fmt')
                out = concat(out, s)
        return out

    def comp(self, fr, n, gens, emit):
        from .loops import comp_run
        comp_run(self, fr, n, gens, emit)

    def e_ListComp(self, fr, n):
        from .loops import comp_items
        return IList(comp_items(self, fr, n))

    def e_GeneratorExp(self, fr, n):
        from .loops import comp_items
        return IIter(comp_items(self, fr, n))

    def e_SetComp(self, fr, n):
        from .loops import comp_items
        from .models import make_set
        return make_set(self, comp_items(self, fr, n))

    def e_DictComp(self, fr, n):
        from .loops import comp_items
        from .models import dict_set
        m = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        ast.copy_location(m, n)
        ast.fix_missing_locations(m)
        d = IDict()
        for kv in comp_items(self, fr, m):
            dict_set(self, d, kv[0], kv[1])
        return d

    def iter_items(self, v):
        """items of an iterable (may contain segments)"""
        from .models import iter_items
        return iter_items(self, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, fr, body):
        for s in body:
            self.exec(fr, s)

    def exec(self, fr, s):
        self.ctx.steps += 1
        if self.ctx.steps > MAXSTEPS:
            raise Undecided('step limit')
        fr.line = s.lineno
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(fr, s)

    def s_unsupported(self, fr, s):
        raise Undecided('statement %s at %s:%d' % (type(s).__name__, fr.fname, s.lineno))

    def s_Pass(self, fr, s):
        pass

    def s_Expr(self, fr, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('append', 'extend') and \
                len(v.args) == 1 and not v.keywords and isinstance(v.func.value, (ast.Name, ast.Attribute)):
            o = self.eval(fr, v.func.value)
            if kind_of(o) == 'b':
                # a bytearray: byte strings are values here, so the variable gets the longer one (no aliases)
                x = self.eval(fr, v.args[0])
                from .models import to_bytes
                self.assign(fr, v.func.value, concat(o, to_bytes(self, [IList([x])]) if v.func.attr == 'append' else x))
                return
        self.eval(fr, v)

    def s_Assign(self, fr, s):
        v = self.eval(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.eval(fr, s.value))

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(fr, t.value), self.mangle(fr, t.attr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_items(v)
            from .loops import Seg, MapSeg
            if any(isinstance(x, (Seg, MapSeg)) for x in items):
                raise Undecided('unpacking a collection of unknown length')
            if len(items) != len(t.elts):
                raise_(ValueError, 'wrong number of values to unpack')
            for x, y in zip(t.elts, items):
                self.assign(fr, x, y)
        elif isinstance(t, ast.Subscript):
            from .models import setitem, setslice
            o = self.eval(fr, t.value)
            if isinstance(t.slice, ast.Slice):
                lo = self.eval(fr, t.slice.lower) if t.slice.lower else None
                hi = self.eval(fr, t.slice.upper) if t.slice.upper else None
                setslice(self, o, lo, hi, v)
            else:
                setitem(self, o, self.eval(fr, t.slice), v)
        else:
            raise Undecided('assignment target')

    def store(self, fr, name, v):
        if name in fr.globalnames:
            self.ctx.log('local', self.ctx.overlay, (id(fr.globals), name), self.ctx.overlay.get((id(fr.globals), name), ABSENT))
            self.ctx.overlay[(id(fr.globals), name)] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    self.set_local(f, name, v)
                    return
                f = f.parent
        self.set_local(fr, name, v)

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur_ = self.load(fr, t.id)
            v = self.eval(fr, s.value)
            self.store(fr, t.id, self.augop(s.op, cur_, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(fr, t.value)
            nm = self.mangle(fr, t.attr)
            cur_ = self.getattr(o, nm)
            v = self.eval(fr, s.value)
            self.setattr(o, nm, self.augop(s.op, cur_, v))
        elif isinstance(t, ast.Subscript):
            from .models import getitem, setitem
            o = self.eval(fr, t.value)
            i = self.eval(fr, t.slice)
            cur_ = getitem(self, o, i)
            v = self.eval(fr, s.value)
            setitem(self, o, i, self.augop(s.op, cur_, v))
        else:
            raise Undecided('augmented assignment target')

    def augop(self, op, a, b):
        if isinstance(a, IList) and isinstance(op, ast.Add):
            self.set_items(a, a.items + self.iter_items(b))
            return a
        return self.binop(op, a, b)

    def s_Delete(self, fr, s):
        from .models import delitem
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.log('local', fr.locals, t.id, fr.locals.get(t.id, ABSENT))
                if t.id not in fr.locals:
                    raise_(NameError, t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(fr, t.value), self.mangle(fr, t.attr))
            elif isinstance(t, ast.Subscript):
                o = self.eval(fr, t.value)
                if isinstance(t.slice, ast.Slice):
                    from .models import setslice
                    lo = self.eval(fr, t.slice.lower) if t.slice.lower else None
                    hi = self.eval(fr, t.slice.upper) if t.slice.upper else None
                    setslice(self, o, lo, hi, IList())
                else:
                    delitem(self, o, self.eval(fr, t.slice))
            else:
                raise Undecided('del')

    def s_Return(self, fr, s):
        raise RetSig(self.eval(fr, s.value) if s.value is not None else None)

    def s_Break(self, fr, s):
        raise BrkSig()

    def s_Continue(self, fr, s):
        raise CntSig()

    def s_Global(self, fr, s):
        fr.globalnames.update(s.names)

    def s_Nonlocal(self, fr, s):
        fr.nonlocals.update(s.names)

    def s_Import(self, fr, s):
        for a in s.names:
            m = importlib.import_module(a.name)
            self.set_local(fr, a.asname or a.name.split('.')[0], m if a.asname else sys.modules[a.name.split('.')[0]])

    def s_ImportFrom(self, fr, s):
        m = importlib.import_module(s.module) if not s.level else importlib.import_module('.' * s.level + (s.module or ''), fr.globals.get('__package__'))
        for a in s.names:
            self.set_local(fr, a.asname or a.name, self.conv(getattr(m, a.name)))

    def s_FunctionDef(self, fr, s):
        defaults = tuple(self.eval(fr, d) for d in s.args.defaults)
        kwd = {k.arg: self.eval(fr, d) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.set_local(fr, s.name, IFunc(s, fr, fr.modname, fr.cls, s.name, defaults, kwd))

    def s_Assert(self, fr, s):
        if not self.test(self.eval(fr, s.test)):
            msg = ()
            if s.msg is not None:
                try:
                    msg = (self.eval(fr, s.msg),)
                except Undecided:
                    msg = ('',)
            raise_(AssertionError, *msg)

    def s_Raise(self, fr, s):
        if s.exc is None:
            for f in reversed(self.stack):
                if f.exc:
                    raise PyRaise(f.exc[-1])
            raise_(RuntimeError, 'No active exception to reraise')
        v = self.eval(fr, s.exc)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, (), {})
        if not isinstance(v, IObj) or not issubclass(v.cls, BaseException):
            raise_(TypeError, 'exceptions must derive from BaseException')
        raise PyRaise(v)

    def exc_match(self, fr, h, exc):
        if h.type is None:
            return True
        t = self.eval(fr, h.type)
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(exc.cls, x) for x in ts)

    def s_Try(self, fr, s):
        try:
            try:
                self.exec_block(fr, s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_match(fr, h, e.exc):
                        if h.name:
                            self.set_local(fr, h.name, e.exc)
                        fr.exc.append(e.exc)
                        try:
                            self.exec_block(fr, h.body)
                        finally:
                            fr.exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(fr, s.orelse)
        except (PyRaise, RetSig, BrkSig, CntSig):
            self.exec_block(fr, s.finalbody)
            raise
        else:
            self.exec_block(fr, s.finalbody)

    def s_With(self, fr, s):
        if len(s.items) != 1:
            raise Undecided('with')
        o = self.eval(fr, s.items[0].context_expr)
        v = self.call(self.getattr(o, '__enter__'), ())
        if s.items[0].optional_vars is not None:
            self.assign(fr, s.items[0].optional_vars, v)
        try:
            self.exec_block(fr, s.body)
        except PyRaise as e:
            if self.test(self.call(self.getattr(o, '__exit__'), (e.exc.cls, e.exc, None))):
                return
            raise
        except (RetSig, BrkSig, CntSig):
            self.call(self.getattr(o, '__exit__'), (None, None, None))
            raise
        else:
            self.call(self.getattr(o, '__exit__'), (None, None, None))

    def s_If(self, fr, s):
        t = self.truth(self.eval(fr, s.test))
        if isinstance(t, bool):
            self.exec_block(fr, s.body if t else s.orelse)
            return
        e = z3.simplify(t.e)
        k = self.ctx.lookup(e)
        if z3.is_true(e) or z3.is_false(e):
            k = z3.is_true(e)
        if k is None and self.engine.merge:
            from .loops import try_merge
            if try_merge(self, fr, s, e):
                return
        d = self.ctx.branch(e) if k is None else k
        self.exec_block(fr, s.body if d else s.orelse)

    def s_While(self, fr, s):
        from .loops import run_while
        run_while(self, fr, s)

    def s_For(self, fr, s):
        from .loops import run_for
        run_for(self, fr, s)
