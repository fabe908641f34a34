"""Built-in types and functions of Python, over symbolic values."""
import builtins, re, types, logging, random, time, copy, traceback
import z3
from .core import *
from .core import ABSENT, undo
from .ropes import *
from . import ropes
from .interp import raise_, is_native, NATIVE
from .loops import (Seg, MapSeg, CondItem, Acc, Tmpl, ElemRec, flatten, settle, is_seg, list_len, contains_items,
                    find_in_seg, iterate, base_of, count, loop_seg)
import ast

strchr = z3.Function('strchr', I, StrSort)
numstr = z3.Function('numstr', I, StrSort)


class KeysView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def items_(self, ip):
        out = []
        for e in flatten(self.d.ents):
            if isinstance(e, (Seg, MapSeg)):
                base = base_of(e)
                if isinstance(e, MapSeg):
                    if any(isinstance(x, CondItem) for x in e.tmpl.value):
                        raise Undecided('view of mapped dictionary')
                    memo = e.tmpl.__dict__.setdefault('_views', {})
                    if self.kind not in memo:
                        memo[self.kind] = Tmpl(e.tmpl.rec, tuple(x if self.kind == 'items' else x[0 if self.kind == 'keys' else 1] for x in e.tmpl.value))
                    out.append(MapSeg(base, memo[self.kind]))
                elif self.kind == 'items':
                    out.append(e)
                else:
                    memo = base.__dict__.setdefault('_views', {})
                    if self.kind not in memo:
                        rec = base.make()
                        memo[self.kind] = Tmpl(rec, (rec.value[0 if self.kind == 'keys' else 1],))
                    out.append(MapSeg(base, memo[self.kind]))
            elif isinstance(e, CondItem):
                v = e.v if self.kind == 'items' else e.v[0 if self.kind == 'keys' else 1]
                out.append(CondItem(e.p, v))
            else:
                out.append(e if self.kind == 'items' else e[0 if self.kind == 'keys' else 1])
        return out


class IRange:
    """range with symbolic bounds, step 1"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def b_and(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return boolv(z3.And(x.e, y.e))


def be(v):
    return v.e if isinstance(v, SBool) else z3.BoolVal(bool(v))


# ---------------------------------------------------------------- iteration
def iter_items(ip, v):
    v = ip.use(v)
    if isinstance(v, (IList, ISet, IIter)):
        return list(v.items)
    if isinstance(v, KeysView):
        return v.items_(ip)
    if isinstance(v, IDict):
        return KeysView(v, 'keys').items_(ip)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, range):
        return list(v)
    if isinstance(v, IRange):
        return range_items(ip, v)
    if isinstance(v, (str, bytes)):
        return list(v)
    if isinstance(v, Rope):
        n = norm(v)
        if not isinstance(n, Rope):
            return list(n)
        k = as_const(rlen(n))
        if k is None:
            kk = ip.concretize(SNum(rlen(n)), 20)
            if kk is None:
                return rope_items(ip, n)
            k = kk
        return [at(n, z3.IntVal(i)) for i in range(k)]
    if isinstance(v, IObj):
        m = ip.class_lookup(v.cls, '__iter__')
        if m is not None and isinstance(m, types.FunctionType):
            return iter_items(ip, ip.call(m, (v,)))
        raise_(TypeError, "'%s' object is not iterable" % v.cls.__name__)
    if v is None or isinstance(v, (int, float, SNum, SBool)):
        raise_(TypeError, 'object is not iterable')
    if isinstance(v, (list, dict, set, frozenset)):
        return [ip.conv(x) for x in v]
    raise Undecided('iteration over %r' % type(v))


def range_items(ip, r):
    c = ip.ctx
    lo, hi = zi(r.lo), zi(r.hi)
    k = as_const(hi - lo)
    if k is not None and k <= 64:
        return [num(lo + i) for i in range(max(k, 0))]
    d = ip.small_values(hi - lo, 12)
    if d is not None:
        k = ip.concretize(SNum(hi - lo), 12)
        return [num(lo + i) for i in range(max(k, 0))]

    def gen():
        from .loops import fresh_int
        x = fresh_int(ip, 'i')
        c.fact(z3.Implies(hi > lo, z3.And(x >= lo, x < hi)))
        return SNum(x)
    n = z3.Int(c.fresh('rangelen'))
    c.fact(n == z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return [Seg('range', gen, n)]


def rope_items(ip, r):
    """the bytes of a rope of unknown length, as a segment of (index, value)"""
    c = ip.ctx
    n = rlen(r)
    if not c.branch(n > 0):
        return []

    def gen():
        from .loops import fresh_int
        x = fresh_int(ip, 'bi')
        c.fact(z3.And(x >= 0, x < n))
        return at(r, x)
    return [Seg('bytes', gen, n)]


# ---------------------------------------------------------------- membership
def contains(ip, cont, x):
    cont = ip.use(cont)
    if isinstance(cont, (IList, ISet, IIter)):
        return contains_items(ip, cont.items, x)
    if isinstance(cont, tuple):
        if is_native(cont) and is_native(x):
            return x in cont
        return contains_items(ip, list(cont), x)
    if isinstance(cont, KeysView):
        if cont.kind == 'keys':
            return dict_has(ip, cont.d, x)
        return contains_items(ip, cont.items_(ip), x)
    if isinstance(cont, IDict):
        return dict_has(ip, cont, x)
    if isinstance(cont, range):
        if is_native(x):
            return x in cont
        if isinstance(x, (SNum, SBool)) and cont.step == 1:
            return boolv(z3.And(zi(x) >= cont.start, zi(x) < cont.stop))
    if isinstance(cont, IRange):
        return boolv(z3.And(zi(x) >= zi(cont.lo), zi(x) < zi(cont.hi)))
    k = kind_of(cont)
    if k == 's':
        if kind_of(x) != 's':
            raise_(TypeError, 'in <string> requires string as left operand')
        r = find(cont, x)
        return boolv(zi(r) >= 0)
    if k == 'b':
        if kind_of(x) == 'b':
            if not isinstance(cont, Rope) and not isinstance(x, Rope):
                return x in cont
            raise Undecided('bytes in bytes')
        n = norm(cont)
        if not isinstance(n, Rope):
            if is_native(x):
                return x in n
            return boolv(z3.Or([zi(x) == b for b in n])) if n else False
        kk = as_const(rlen(n))
        if kk is None:
            kk = ip.concretize(SNum(rlen(n)), 12)
        if kk is None:
            raise Undecided('membership in byte string of unknown length')
        return boolv(z3.Or([zi(at(n, z3.IntVal(i))) == zi(x) for i in range(kk)])) if kk else False
    if isinstance(cont, IObj):
        m = ip.class_lookup(cont.cls, '__contains__')
        if m is not None and isinstance(m, types.FunctionType):
            return ip.truth(ip.call(m, (cont, x)))
        raise_(TypeError, "argument of type '%s' is not iterable" % cont.cls.__name__)
    if cont is None or isinstance(cont, (int, SNum, SBool)):
        raise_(TypeError, 'argument is not iterable')
    raise Undecided('membership in %r' % type(cont))


# ---------------------------------------------------------------- dictionaries
def dict_find(ip, d, key):
    """index of the entry with this key in the (settled) entry list, or None; forks"""
    c = ip.ctx
    if isinstance(key, (IList, IDict, ISet)):
        raise_(TypeError, 'unhashable type')
    ents = settle(d.ents)
    segs = [e for e in ents if is_seg(e)]
    if len(ents) != len(d.ents) or any(a is not b for a, b in zip(ents, d.ents)):
        ip.set_ents(d, ents)
    for i, e in enumerate(ents):
        if is_seg(e):
            continue
        r = ip.eq(e[0], key)
        if r is True:
            return i
        if isinstance(r, SBool) and c.branch(r.e):
            return i
    for s in segs:
        # the reference to a generic element
        h = find_in_seg(ip, s, lambda kv: ip.eq(kv[0], key), keyval=key)
        if h is not None:
            ents = settle(d.ents)
            ip.set_ents(d, ents)
            for i, e in enumerate(ents):
                if e is h[0]:
                    return i
            raise Undecided('dictionary entry lost')
    return None


def dict_has(ip, d, key):
    """membership: as dict_find, without naming the position"""
    c = ip.ctx
    if isinstance(key, (IList, IDict, ISet)):
        raise_(TypeError, 'unhashable type')
    segs = []
    for e in settle(d.ents):
        if is_seg(e):
            segs.append(e)
            continue
        r = ip.eq(e[0], key)
        if r is True or isinstance(r, SBool) and c.branch(r.e):
            return True
    return any(find_in_seg(ip, s, lambda kv: ip.eq(kv[0], key), keyval=key) is not None for s in segs)


def dict_get(ip, d, key, default=ABSENT):
    i = dict_find(ip, d, key)
    if i is None:
        if default is ABSENT:
            raise_(KeyError, key)
        return default
    return ip.use(d.ents[i][1])


def dict_set(ip, d, key, v):
    i = dict_find(ip, d, key)
    ents = list(d.ents)
    if i is None:
        ents.append((key, v))
    else:
        ents[i] = (ents[i][0], v)
    ip.set_ents(d, ents)


def dict_del(ip, d, key):
    i = dict_find(ip, d, key)
    if i is None:
        raise_(KeyError, key)
    ents = list(d.ents)
    v = ents.pop(i)
    ip.set_ents(d, ents)
    return v[1]


def dict_equal(ip, a, b):
    ea, eb = settle(a.ents), settle(b.ents)
    sa, sb = [x for x in ea if is_seg(x)], [x for x in eb if is_seg(x)]
    ea, eb = [x for x in ea if not is_seg(x)], [x for x in eb if not is_seg(x)]
    if len(sa) != len(sb) or any(base_of(x) is not base_of(y) for x, y in zip(sa, sb)):
        raise Undecided('equality of dictionaries of unknown size')
    if len(ea) != len(eb):
        return False
    res = True
    eb = list(eb)
    for k, v in ea:
        hit = None
        for j, (k2, v2) in enumerate(eb):
            r = ip.eq(k, k2)
            if isinstance(r, SBool):
                r = ip.ctx.branch(r.e)
            if r:
                hit = j
                break
        if hit is None:
            return False
        res = b_and(res, ip.eq(v, eb.pop(hit)[1]))
        if res is False:
            return False
    return res


# ---------------------------------------------------------------- sets
def set_add(ip, s, x):
    if isinstance(x, (IList, IDict, ISet)):
        raise_(TypeError, 'unhashable type')
    r = contains_items(ip, s.items, x)
    if isinstance(r, SBool):
        r = ip.ctx.branch(r.e)
    if not r:
        ip.set_items(s, s.items + [x])


def make_set(ip, items):
    s = ISet()
    items = settle(items)
    if len(items) == 1 and is_seg(items[0]) and isinstance(items[0], Seg):
        s.items = items
        return s

    def add(v):
        set_add(ip, s, v)
    iterate(ip, IIter(items), add)
    return s


def set_equal(ip, a, b):
    xa, xb = settle(a.items), settle(b.items)
    if any(is_seg(x) for x in xa + xb):
        raise Undecided('equality of sets of unknown size')
    conds = []
    for x in xa:
        r = contains_items(ip, xb, x)
        if r is False:
            return False
        if isinstance(r, SBool):
            conds.append(r.e)
    for x in xb:
        r = contains_items(ip, xa, x)
        if r is False:
            return False
        if isinstance(r, SBool):
            conds.append(r.e)
    return boolv(z3.And(conds)) if conds else True


def set_op(ip, op, a, b):
    xa, xb = settle(a.items), settle(iter_items(ip, b))
    if any(is_seg(x) for x in xa + xb):
        raise Undecided('set operation on sets of unknown size')
    out = ISet()
    if isinstance(op, ast.BitOr):
        for x in xa + xb:
            set_add(ip, out, x)
        return out
    for x in xa:
        r = contains_items(ip, xb, x)
        if isinstance(r, SBool):
            r = ip.ctx.branch(r.e)
        if r == isinstance(op, ast.BitAnd):
            out.items.append(x)
    return out


# ---------------------------------------------------------------- subscripts
def list_index(ip, items, i):
    """(settled items, position) for an index"""
    c = ip.ctx
    items = settle(items)
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if not any(is_seg(x) for x in items):
            if -len(items) <= i < len(items):
                return items, i % len(items)
            raise_(IndexError, 'list index out of range')
        if i >= 0:
            for j in range(len(items)):
                x = items[j]
                if is_seg(x):
                    # force a head element
                    if isinstance(x, Seg):
                        r = x.open_head()
                        return list_index(ip, items, i)
                    raise Undecided('index into a mapped segment')
                if j == i:
                    return items, j
            raise_(IndexError, 'list index out of range')
        # negative: from the end
        for j in range(len(items) - 1, -1, -1):
            if is_seg(items[j]):
                if not c.branch(count(items[j]) == 0):
                    raise Undecided('negative index into a segment')
                continue
            i += 1
            if i == 0:
                return items, j
        raise_(IndexError, 'list index out of range')
    if isinstance(i, SNum):
        if any(is_seg(x) for x in items):
            raise Undecided('symbolic index into list of unknown length')
        n = len(items)
        e = i.e
        if c.branch(z3.And(e >= 0, e < n)):
            for j in range(n - 1):
                if c.branch(e == j):
                    return items, j
            c.assume(e == n - 1)
            return items, n - 1
        if c.branch(z3.And(e < 0, e >= -n)):
            for j in range(n - 1):
                if c.branch(e == j - n):
                    return items, j
            c.assume(e == -1)
            return items, n - 1
        raise_(IndexError, 'list index out of range')
    raise_(TypeError, 'list indices must be integers')


def getitem(ip, o, i):
    o, i = ip.use(o), ip.use(i)
    if isinstance(o, IList):
        items, j = list_index(ip, o.items, i)
        ip.set_items(o, items)
        return ip.use(items[j])
    if isinstance(o, tuple):
        if isinstance(i, int):
            try:
                return ip.use(o[i])
            except IndexError as e:
                raise_(IndexError, str(e))
        items, j = list_index(ip, list(o), i)
        return ip.use(items[j])
    if isinstance(o, IIter):
        raise_(TypeError, 'object is not subscriptable')
    if isinstance(o, IDict):
        if o.__dict__.get('deffac') is not None:
            j = dict_find(ip, o, i)
            if j is None:
                v = ip.call(o.deffac, ())
                dict_set(ip, o, i, v)
                return v
            return ip.use(o.ents[j][1])
        return dict_get(ip, o, i)
    k = kind_of(o)
    if k:
        if not isinstance(i, (int, SNum, SBool)):
            raise_(TypeError, 'string indices must be integers')
        return index(o, i)
    if isinstance(o, range):
        if isinstance(i, int):
            return o[i]
    if isinstance(o, IObj):
        m = ip.class_lookup(o.cls, '__getitem__')
        if m is not None and isinstance(m, types.FunctionType):
            return ip.call(m, (o, i))
        raise_(TypeError, "'%s' object is not subscriptable" % o.cls.__name__)
    if isinstance(o, (dict, list)) and is_native(i):
        try:
            return ip.conv(o[i])
        except (KeyError, IndexError) as e:
            raise_(type(e), *e.args)
    if o is None or isinstance(o, (int, SNum, SBool, KeysView, ISet)):
        raise_(TypeError, 'object is not subscriptable')
    raise Undecided('subscript of %r' % type(o))


def getslice(ip, o, lo, hi, st=None):
    o = ip.use(o)
    if st is not None and st != 1:
        if is_native(o) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, IList) and lo is None and hi is None and st == -1:
            items = settle(o.items)
            if not any(is_seg(x) for x in items):
                return IList(items[::-1])
        raise Undecided('slice step')
    if isinstance(o, IList):
        return IList(slice_items(ip, o.items, lo, hi))
    if isinstance(o, tuple):
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        return tuple(slice_items(ip, list(o), lo, hi))
    if kind_of(o):
        return slice_(o, lo, hi)
    if isinstance(o, range):
        return o[lo:hi]
    if isinstance(o, (KeysView, IDict, ISet, IIter)) or o is None or isinstance(o, (int, SNum, SBool)):
        raise_(TypeError, 'object is not subscriptable')
    raise Undecided('slice of %r' % type(o))


def slice_items(ip, items, lo, hi):
    if lo in (None, 0) and hi is None:
        return list(items)
    items = settle(items)
    if not any(is_seg(x) for x in items):
        def fix(x):
            if x is None or isinstance(x, int):
                return x
            k = ip.concretize(x, len(items) + 4)
            if k is None:
                n = len(items)
                if ip.ctx.branch(zi(x) >= n):
                    return n
                if ip.ctx.branch(zi(x) < -n):
                    return -n
                k = ip.concretize(x, 2 * n + 2)
            return k
        return items[fix(lo):fix(hi)]
    if isinstance(lo, int) and lo > 0 and hi is None and not any(is_seg(x) for x in items[:lo]):
        return items[lo:]
    if isinstance(lo, int) and lo > 0 and hi is None:
        k = 0
        while k < lo:
            items = settle(items)
            if not items:
                return []
            if k < len(items) and is_seg(items[k]):
                if not isinstance(items[k], Seg):
                    raise Undecided('slice of mapped segment')
                items[k].open_head()
                continue
            if k >= len(items):
                return []
            k += 1
        return settle(items)[lo:]
    if lo in (None, 0) and hi == -1:
        if items and not is_seg(items[-1]):
            return items[:-1]
    a, b = boundary(ip, items, lo, 0), boundary(ip, items, hi, len(items))
    if a is not None and b is not None:
        return items[a:b]
    raise Undecided('slice of a list of unknown length')


def boundary(ip, items, x, default):
    """the position in the (flattened) items that is provably element number x"""
    c = ip.ctx
    if x is None:
        return default
    if any(isinstance(i, Acc) for i in items) or not c.must(zi(x) >= 0):
        return None
    if c.must(zi(list_len(items)) <= zi(x)):
        return len(items)
    for k in range(len(items)):
        if c.must(zi(list_len(items[:k])) == zi(x)):
            return k
    return None


def setitem(ip, o, i, v):
    o, i = ip.use(o), ip.use(i)
    if isinstance(o, IDict):
        return dict_set(ip, o, i, v)
    if isinstance(o, IList):
        items, j = list_index(ip, o.items, i)
        items = list(items)
        items[j] = v
        return ip.set_items(o, items)
    if isinstance(o, IObj):
        m = ip.class_lookup(o.cls, '__setitem__')
        if m is not None and isinstance(m, types.FunctionType):
            return ip.call(m, (o, i, v))
    if o is None or isinstance(o, NATIVE + (tuple, SNum, SBool, Rope, ISet, KeysView, IObj)):
        raise_(TypeError, 'object does not support item assignment')
    raise Undecided('item assignment on %r' % type(o))


def setslice(ip, o, lo, hi, v):
    if not isinstance(o, IList):
        raise Undecided('slice assignment')
    items = settle(o.items)
    if lo in (None, 0) and hi is None:
        return ip.set_items(o, list(iter_items(ip, v)))
    if any(is_seg(x) for x in items) or not all(x is None or isinstance(x, int) for x in (lo, hi)):
        raise Undecided('slice assignment of unknown extent')
    items = list(items)
    items[lo:hi] = iter_items(ip, v)
    ip.set_items(o, items)


def delitem(ip, o, i):
    o, i = ip.use(o), ip.use(i)
    if isinstance(o, IDict):
        dict_del(ip, o, i)
        return
    if isinstance(o, IList):
        items, j = list_index(ip, o.items, i)
        items = list(items)
        del items[j]
        return ip.set_items(o, items)
    if isinstance(o, IObj):
        m = ip.class_lookup(o.cls, '__delitem__')
        if m is not None and isinstance(m, types.FunctionType):
            return ip.call(m, (o, i))
    raise Undecided('del item of %r' % type(o))


# ---------------------------------------------------------------- methods
LIST_M = {'append', 'extend', 'pop', 'remove', 'insert', 'index', 'count', 'copy', 'clear', 'sort', 'reverse', '__len__', '__contains__'}
DICT_M = {'keys', 'values', 'items', 'get', 'pop', 'setdefault', 'update', 'copy', 'clear', 'popitem', 'has_key'} - {'has_key'}
SET_M = {'add', 'remove', 'discard', 'copy', 'clear', 'update', 'union', 'pop', 'difference', 'intersection', 'issubset', 'isdisjoint', 'issuperset'}


def has_method(o, name):
    if isinstance(o, IList):
        return name in LIST_M
    if isinstance(o, IDict):
        return name in DICT_M
    if isinstance(o, ISet):
        return name in SET_M
    if isinstance(o, KeysView):
        return name in ('isdisjoint',)
    k = kind_of(o)
    if k == 's':
        return hasattr(str, name)
    if k == 'b':
        return hasattr(bytes, name)
    if isinstance(o, (SNum, int)) and name in ('bit_length', 'to_bytes', 'from_bytes'):
        return True
    if isinstance(o, tuple):
        return name in ('index', 'count')
    if type(o).__module__ == '_thread' and name in ('acquire', 'release', '__enter__', '__exit__'):
        return True
    return False


def call_method(ip, o, name, args, kwargs):
    c = ip.ctx
    o = ip.use(o)
    if isinstance(o, logging.Logger):
        return None
    if isinstance(o, (re.Pattern, re.Match)):
        args = [norm(a) if isinstance(a, Rope) else a for a in args]
        if not kwargs and all(is_native(a) for a in args):
            r = native_try(lambda: getattr(o, name)(*args))
            return IList(r) if isinstance(r, list) else r
        raise Undecided('regular expression on symbolic text')
    if isinstance(o, IList):
        return list_method(ip, o, name, args, kwargs)
    if isinstance(o, IDict):
        return dict_method(ip, o, name, args, kwargs)
    if isinstance(o, ISet):
        return set_method(ip, o, name, args, kwargs)
    k = kind_of(o)
    if k:
        return str_method(ip, o, k, name, args, kwargs)
    if isinstance(o, int) and not isinstance(o, bool) and all(is_native(a) for a in args):
        return getattr(o, name)(*args, **kwargs)
    if isinstance(o, SNum) and name == 'to_bytes':
        n, order = args[0], (args[1] if len(args) > 1 else kwargs.get('byteorder', 'big'))
        if c.branch(z3.Or(o.e < 0, o.e >= 256 ** n)):
            raise_(OverflowError, 'int too big to convert')
        cells = [Cell(z3.simplify(o.e / (256 ** (n - 1 - i)) % 256)) for i in range(n)]
        return rope('b', cells if order == 'big' else cells[::-1])
    if isinstance(o, IObj):
        if name == '__init__':
            if issubclass(o.cls, BaseException):
                ip.set_attr_raw(o, 'args', tuple(args))
            return None
        if name == '__setattr__':
            ip.set_attr_raw(o, args[0], args[1])
            return None
        if name == '__delattr__':
            if args[0] not in o.attrs:
                raise_(AttributeError, args[0])
            ip.del_attr_raw(o, args[0])
            return None
        if name in ('__getattribute__',):
            saved = o.cls
            return ip.getattr(o, args[0])
        if name == '__eq__':
            return True if o is args[0] else NotImplemented
        if name in ('__str__', '__repr__'):
            return ip.opaque_str('obj')
        if name == '__hash__':
            return ip.opaque_str('hash')
    if isinstance(o, tuple):
        if name == 'index':
            return list_method(ip, IList(o), 'index', args, kwargs)
        if name == 'count':
            return list_method(ip, IList(o), 'count', args, kwargs)
    if type(o).__module__ == '_thread':
        if name in ('acquire', '__enter__'):
            c.locks = getattr(c, 'locks', 0) + 1
            return True
        c.locks = getattr(c, 'locks', 0) - 1
        return None
    raise Undecided('method %s of %r' % (name, type(o)))


def list_method(ip, o, name, args, kwargs):
    c = ip.ctx
    if name == 'append':
        return ip.set_items(o, o.items + [args[0]])
    if name == 'extend':
        return ip.set_items(o, o.items + list(iter_items(ip, args[0])))
    if name == 'copy':
        return IList(o.items)
    if name == 'clear':
        return ip.set_items(o, [])
    if name == '__len__':
        return list_len(o.items)
    if name == '__contains__':
        return contains(ip, o, args[0])
    if name == 'reverse':
        items = settle(o.items)
        if any(is_seg(x) for x in items):
            raise Undecided('reverse of unknown-length list')
        return ip.set_items(o, items[::-1])
    if name == 'pop':
        i = args[0] if args else -1
        items = settle(o.items)
        t = ip.nonempty(items)
        if not (t if isinstance(t, bool) else c.branch(t.e)):
            raise_(IndexError, 'pop from empty list')
        items, j = list_index(ip, items, i)
        items = list(items)
        v = items.pop(j)
        ip.set_items(o, items)
        return ip.use(v)
    if name == 'insert':
        i = args[0]
        items = settle(o.items)
        if isinstance(i, int) and (i == 0 or not any(is_seg(x) for x in items)):
            items = list(items)
            items.insert(i, args[1])
            return ip.set_items(o, items)
        raise Undecided('insert')
    if name in ('remove', 'index'):
        x = args[0]
        pos = 0
        before = z3.IntVal(0)
        items = settle(o.items)
        if name == 'remove' and isinstance(x, IObj) and ip.class_lookup(x.cls, '__eq__') in (None, object.__eq__):
            # compared by identity; elements of unknown-length parts are other objects
            at = [j for j, y in enumerate(items) if y is x]
            if at:
                return ip.set_items(o, items[:at[0]] + items[at[0] + 1:])
        i = 0
        while i < len(items):
            it = items[i]
            if is_seg(it):
                h = find_in_seg(ip, it, lambda v: ip.eq(v, x))
                if h is not None:
                    flat = settle(items)
                    for j, y in enumerate(flat):
                        if y is h[0]:
                            if name == 'index':
                                return list_len(flat[:j])
                            flat = list(flat)
                            flat.pop(j)
                            return ip.set_items(o, flat)
                    raise Undecided('element lost')
                items = settle(items)
                # the segment may have been refined; skip its parts
                i += 1
                continue
            r = ip.eq(it, x)
            if isinstance(r, SBool):
                r = c.branch(r.e)
            if r:
                if name == 'index':
                    return list_len(items[:i])
                items = list(items)
                items.pop(i)
                return ip.set_items(o, items)
            i += 1
        raise_(ValueError, 'list.remove(x): x not in list')
    if name == 'count':
        items = settle(o.items)
        if any(is_seg(x) for x in items):
            raise Undecided('count in unknown-length list')
        t = z3.IntVal(0)
        for it in items:
            r = ip.eq(it, args[0])
            t = t + (z3.If(r.e, z3.IntVal(1), z3.IntVal(0)) if isinstance(r, SBool) else int(r))
        return num(t)
    if name == 'sort':
        return ip.set_items(o, sorted_items(ip, o.items, kwargs))
    raise Undecided('list.%s' % name)


def sorted_items(ip, items, kwargs):
    items = settle(items)
    if any(is_seg(x) for x in items):
        raise Undecided('sorting a list of unknown length')
    key = kwargs.get('key')
    keys = [ip.call(key, (x,)) if key else x for x in items]
    if all(is_native(k) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kwargs.get('reverse', False)))
        return [items[i] for i in order]
    if all(isinstance(k, (SNum, int)) for k in keys):
        out = []
        for x, k in zip(items, keys):
            j = len(out)
            while j > 0:
                a = out[j - 1][1]
                if kwargs.get('reverse'):
                    less = ip.ctx.branch(zi(a) < zi(k))
                else:
                    less = ip.ctx.branch(zi(a) > zi(k))
                if not less:
                    break
                j -= 1
            out.insert(j, (x, k))
        return [x for x, _ in out]
    if len(items) <= 1:
        return items
    raise Undecided('sorting symbolic values')


def dict_method(ip, d, name, args, kwargs):
    if name in ('keys', 'values', 'items'):
        return KeysView(d, name)
    if name == 'get':
        return dict_get(ip, d, args[0], args[1] if len(args) > 1 else kwargs.get('default', None))
    if name == 'pop':
        i = dict_find(ip, d, args[0])
        if i is None:
            if len(args) > 1:
                return args[1]
            raise_(KeyError, args[0])
        return dict_del(ip, d, args[0])
    if name == 'setdefault':
        i = dict_find(ip, d, args[0])
        if i is None:
            v = args[1] if len(args) > 1 else None
            dict_set(ip, d, args[0], v)
            return v
        return d.ents[i][1]
    if name == 'update':
        for a in args:
            if isinstance(a, IDict):
                for e in settle(a.ents):
                    if is_seg(e):
                        raise Undecided('update from dictionary of unknown size')
                    dict_set(ip, d, e[0], e[1])
            else:
                for e in iter_items(ip, a):
                    k, v = iter_items(ip, e)
                    dict_set(ip, d, k, v)
        for k, v in kwargs.items():
            dict_set(ip, d, k, v)
        return None
    if name == 'copy':
        return IDict(d.ents)
    if name == 'clear':
        return ip.set_ents(d, [])
    if name == 'popitem':
        ents = settle(d.ents)
        if not ents:
            raise_(KeyError, 'popitem(): dictionary is empty')
        if is_seg(ents[-1]):
            raise Undecided('popitem')
        ip.set_ents(d, ents[:-1])
        return ents[-1]
    raise Undecided('dict.%s' % name)


def set_method(ip, s, name, args, kwargs):
    if name == 'add':
        return set_add(ip, s, args[0])
    if name == 'copy':
        return ISet(s.items)
    if name == 'clear':
        return ip.set_items(s, [])
    if name == 'update':
        for a in args:
            def add(v):
                set_add(ip, s, v)
            iterate(ip, IIter(iter_items(ip, a)), add)
        return None
    if name in ('remove', 'discard'):
        l = IList(s.items)
        try:
            list_method(ip, l, 'remove', args, {})
        except PyRaise as e:
            if name == 'remove':
                raise_(KeyError, args[0])
            return None
        return ip.set_items(s, l.items)
    if name == 'union':
        return set_op(ip, ast.BitOr(), s, args[0])
    if name == 'difference':
        return set_op(ip, ast.Sub(), s, args[0])
    if name == 'intersection':
        return set_op(ip, ast.BitAnd(), s, args[0])
    if name == 'pop':
        items = settle(s.items)
        if not items:
            raise_(KeyError, 'pop from an empty set')
        i = ip.ctx.choose(len(items), 'set pop')
        if is_seg(items[i]):
            raise Undecided('set pop')
        ip.set_items(s, items[:i] + items[i + 1:])
        return items[i]
    raise Undecided('set.%s' % name)


def native_try(fn):
    try:
        return fn()
    except Exception as e:
        raise PyRaise(IObj(type(e), {'args': tuple(a if is_native(a) else str(a) for a in e.args)}))


def str_method(ip, o, k, name, args, kwargs):
    c = ip.ctx
    o = norm(o) if isinstance(o, Rope) else o
    args = [norm(a) if isinstance(a, Rope) else a for a in args]
    if not isinstance(o, Rope) and all(is_native(a) for a in args) and all(is_native(v) for v in kwargs.values()):
        r = native_try(lambda: getattr(o, name)(*args, **kwargs))
        return IList(r) if isinstance(r, list) else r
    if name == 'encode':
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        if isinstance(enc, str) and enc.lower().replace('-', '') != 'utf8':
            raise Undecided('encoding %s' % enc)
        return encode(o)
    if name == 'decode':
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        if isinstance(enc, str) and enc.lower().replace('-', '') != 'utf8':
            raise Undecided('encoding %s' % enc)
        return decode(o)
    if name == 'startswith':
        p = args[0]
        if isinstance(p, tuple):
            rs = [startswith(o, x) for x in p]
            if any(r is True for r in rs):
                return True
            return boolv(z3.Or([be(r) for r in rs]))
        return startswith(o, p)
    if name == 'endswith' and k == 's' and len(args) == 1 and isinstance(args[0], str) and isinstance(o, Rope):
        return endswith(o, args[0])
    if name == 'find':
        if k == 's':
            return find(o, args[0], args[1] if len(args) > 1 else 0)
    if name == 'join':
        items = settle(iter_items(ip, args[0]))
        out = '' if k == 's' else b''
        for i, x in enumerate(items):
            if is_seg(x):
                if o not in ('', b''):
                    raise Undecided('join of unknown-length list')
                base = base_of(x)
                rec = base.make()
                v = rec.value if isinstance(x, Seg) else None
                if v is None:
                    raise Undecided('join of mapped segment')
                out = concat(out, Rope(k, (FlatA(base, Tmpl(rec, v), k),)))
                continue
            if kind_of(x) != k:
                raise_(TypeError, 'sequence item: wrong type')
            if i and segs_of(o):
                out = concat(out, o)
            out = concat(out, x)
        return out
    if name == 'split' and isinstance(o, Rope) and k == 's':
        return rope_split(ip, o, args, kwargs)
    if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace', 'format', 'title') and k == 's':
        if isinstance(o, Rope) and not kwargs and all(isinstance(a, (str, int)) for a in args):
            # a function of the string, otherwise unconstrained
            f = z3.Function('str.%s%r' % (name, tuple(args)), StrSort, StrSort)
            t = f(sterm(o))
            c.keep.append(t)
            return svar(t)
        return ip.opaque_str(name)
    if name in ('count',) and k == 's':
        x = z3.Int(c.fresh('count'))
        c.fact(x >= 0)
        return SNum(x)
    if name == 'hex':
        return ip.opaque_str('hex')
    raise Undecided('%s.%s on symbolic text' % (k, name))


STRSUF = z3.Function('str.endswith', StrSort, StrSort, z3.BoolSort())


def endswith(o, p):
    """an otherwise unconstrained predicate of the string that is right for the literals seen so far"""
    c = cur()
    last = segs_of(o)[-1]
    if isinstance(last, str):
        if last.endswith(p):
            return True
        if not p.endswith(last):
            return False
    if p == '':
        return True
    t = sterm(o)
    lp = c.lit(p)
    e = STRSUF(t, lp)
    c.keep.append(t)
    strfacts(t)
    c.fact(z3.Implies(e, strlen(t) >= len(p)))
    for s, l in list(c.lits.items()):
        c.fact(z3.Implies(t == l, e if s.endswith(p) else z3.Not(e)))
    return boolv(e)


def rope_split(ip, o, args, kwargs):
    raise Undecided('split of symbolic string')


# ---------------------------------------------------------------- conversions
def to_str(ip, x):
    x = ip.use(x)
    if kind_of(x) == 's':
        return x
    if is_native(x):
        return str(x)
    if isinstance(x, SNum) and z3.is_int(x.e):
        t = numstr(x.e)
        ip.ctx.keep.append(t)
        strfacts(t)
        ip.ctx.fact(z3.Implies(z3.And(x.e >= 0, x.e < 10 ** 15), z3.And(strlen(t) >= 1, strlen(t) <= 15, utf8len(t) == strlen(t))))
        return svar(t)
    if isinstance(x, IObj):
        if '_text' in x.attrs:
            return x.attrs['_text']
        m = ip.class_lookup(x.cls, '__str__')
        if isinstance(m, types.FunctionType):
            if ip.engine.str_opaque and not x.cls.__module__.startswith('contracts'):
                return ip.opaque_str('str')
            return ip.call(m, (x,))
        m = ip.class_lookup(x.cls, '__repr__')
        if isinstance(m, types.FunctionType) and ip.qual(m) in ip.engine.stubs:
            return ip.call(m, (x,))
        if issubclass(x.cls, BaseException):
            a = x.attrs.get('args', ())
            if len(a) == 1:
                return to_str(ip, a[0])
        return ip.opaque_str('str')
    return ip.opaque_str('str')


def to_int(ip, x, base=None):
    x = ip.use(x)
    if is_native(x):
        return native_try(lambda: int(x) if base is None else int(x, base))
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        # truncation towards zero
        e = x.e
        return num(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(x, SBool):
        return num(zi(x))
    if isinstance(x, Rope) and x.kind == 's':
        s = x.segs
        if len(s) == 1 and isinstance(s[0], SVar) and z3.is_app(s[0].term) and s[0].term.decl().eq(numstr):
            return num(s[0].term.arg(0))
        c = ip.ctx
        t = sterm(x)
        ok = z3.Bool(c.fresh('isnum'))
        if not c.branch(ok):
            raise_(ValueError, 'invalid literal for int()')
        return SNum(z3.Int(c.fresh('int')))
    if isinstance(x, Rope):
        c = ip.ctx
        ok = z3.Bool(c.fresh('isnum'))
        if not c.branch(ok):
            raise_(ValueError, 'invalid literal for int()')
        return SNum(z3.Int(c.fresh('int')))
    if isinstance(x, IObj):
        m = ip.class_lookup(x.cls, '__int__')
        if isinstance(m, types.FunctionType):
            return ip.call(m, (x,))
    raise_(TypeError, 'int() argument')


def to_bytes(ip, args):
    c = ip.ctx
    if not args:
        return b''
    v = ip.use(args[0])
    if kind_of(v) == 'b':
        return v
    if kind_of(v) == 's':
        if len(args) < 2:
            raise_(TypeError, 'string argument without an encoding')
        return encode(v)
    if isinstance(v, bool) or isinstance(v, int):
        return native_try(lambda: bytes(v))
    if isinstance(v, SNum):
        raise Undecided('bytes(n) with symbolic n')
    if isinstance(v, (IList, tuple, IIter, range)):
        items = settle(iter_items(ip, v))
        out = []
        for x in items:
            if is_seg(x):
                base = base_of(x)
                rec = base.make()
                if isinstance(x, Seg):
                    val = rec.value
                else:
                    its = x.tmpl.inst(rec)
                    if len(its) != 1 or isinstance(its[0], CondItem):
                        raise Undecided('bytes of conditional list')
                    val = its[0]
                if not isinstance(val, (SNum, int)):
                    raise_(TypeError, 'an integer is required')
                if not c.must(z3.And(zi(val) >= 0, zi(val) < 256)):
                    raise Undecided('byte range of list of unknown length')
                out.append(FlatA(base, Tmpl(rec, Rope('b', (Cell(zi(val)),))), 'b'))
                continue
            if not isinstance(x, (int, SNum, SBool)):
                raise_(TypeError, "'%s' object cannot be interpreted as an integer" % type(x).__name__)
            e = zi(x)
            k = as_const(e)
            if k is not None:
                if not 0 <= k <= 255:
                    raise_(ValueError, 'bytes must be in range(0, 256)')
                out.append(bytes([k]))
            else:
                if not c.branch(z3.And(e >= 0, e <= 255)):
                    raise_(ValueError, 'bytes must be in range(0, 256)')
                out.append(Cell(e))
        return rope('b', out)
    if v is None:
        raise_(TypeError, 'cannot convert NoneType to bytes')
    raise Undecided('bytes of %r' % type(v))


def construct(ip, cls, args, kwargs):
    """instances of built-in classes"""
    c = ip.ctx
    if cls is int:
        return to_int(ip, *args) if args else 0
    if cls is float:
        v = ip.use(args[0]) if args else 0.0
        if is_native(v):
            return native_try(lambda: float(v))
        if isinstance(v, SNum):
            return SNum(z3.ToReal(v.e) if z3.is_int(v.e) else v.e)
    if cls is bool:
        t = ip.truth(args[0]) if args else False
        return t
    if cls is str:
        if not args:
            return ''
        if len(args) > 1 or 'encoding' in kwargs:
            return decode(args[0])
        if kind_of(args[0]) == 'b':
            return ip.opaque_str('repr')
        return to_str(ip, args[0])
    if cls is bytes or cls is bytearray:
        if 'encoding' in kwargs:
            return encode(args[0])
        return to_bytes(ip, args)
    if cls is list:
        return IList(iter_items(ip, args[0]) if args else ())
    if cls is tuple:
        items = settle(iter_items(ip, args[0])) if args else []
        if any(is_seg(x) for x in items):
            raise Undecided('tuple of unknown length')
        return tuple(items)
    if cls is set or cls is frozenset:
        return make_set(ip, iter_items(ip, args[0]) if args else [])
    if cls is dict:
        d = IDict()
        if args:
            if isinstance(args[0], IDict):
                d.ents = list(args[0].ents)
            else:
                dict_method(ip, d, 'update', args, {})
        for k, v in kwargs.items():
            dict_set(ip, d, k, v)
        return d
    if cls is range:
        return do_range(ip, args)
    if cls is type:
        return type_of(ip, args[0])
    if cls is object:
        return IObj(object)
    if cls is enumerate:
        start = args[1] if len(args) > 1 else kwargs.get('start', 0)
        items = settle(iter_items(ip, args[0]))
        if any(is_seg(x) for x in items):
            raise Undecided('enumerate over unknown-length collection')
        return IIter([(num(zi(start) + i), x) for i, x in enumerate(items)])
    if cls is zip:
        ls = [settle(iter_items(ip, a)) for a in args]
        if any(is_seg(x) for l in ls for x in l):
            raise Undecided('zip of unknown-length collections')
        return IIter([tuple(t) for t in zip(*ls)])
    if cls is map:
        acc = IList()

        def add(v):
            ip.set_items(acc, acc.items + [ip.call(args[0], (v,))])
        iterate(ip, IIter(iter_items(ip, args[1])), add)
        return IIter(acc.items)
    if cls is builtins.filter:
        acc = IList()

        def add2(v):
            if ip.test(ip.call(args[0], (v,)) if args[0] is not None else v):
                ip.set_items(acc, acc.items + [v])
        iterate(ip, IIter(iter_items(ip, args[1])), add2)
        return IIter(acc.items)
    if cls is reversed:
        items = settle(iter_items(ip, args[0]))
        if any(is_seg(x) for x in items):
            raise Undecided('reversed of unknown length')
        return IIter(items[::-1])
    if cls.__name__ == 'OrderedDict':
        return construct(ip, dict, args, kwargs)
    if cls.__name__ == 'defaultdict':
        d = construct(ip, dict, args[1:], kwargs)
        d.deffac = args[0] if args else None
        return d
    if all(is_native(a) for a in args) and all(is_native(v) for v in kwargs.values()) and cls.__module__ in ('_thread', 'threading'):
        return cls(*args, **kwargs)
    raise Undecided('construction of %s' % cls.__name__)


def do_range(ip, args):
    if all(isinstance(a, int) for a in args):
        return range(*args)
    for a in args:
        if not isinstance(a, (int, SNum, SBool)):
            raise_(TypeError, 'range() integer argument expected')
    lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
    st = args[2] if len(args) > 2 else 1
    if st == 1:
        return IRange(lo, hi)
    k1, k2 = ip.concretize(lo, 12), ip.concretize(hi, 12)
    if k1 is not None and k2 is not None and isinstance(st, int):
        return range(k1, k2, st)
    raise Undecided('range with step')


def type_of(ip, v):
    v = ip.use(v)
    if isinstance(v, IObj):
        return v.cls
    if isinstance(v, IList):
        return list
    if isinstance(v, IDict):
        return dict
    if isinstance(v, ISet):
        return set
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SNum):
        return int if z3.is_int(v.e) else float
    k = kind_of(v)
    if k:
        return bytes if k == 'b' else str
    if isinstance(v, (IFunc,)):
        return types.FunctionType
    if isinstance(v, (IBound, IModel)):
        return types.MethodType
    return type(v)


def isinst(ip, v, t):
    if isinstance(t, tuple):
        return any(isinst(ip, v, x) for x in t)
    return issubclass(type_of(ip, v), t)


def minmax(ip, f, args, kwargs):
    c = ip.ctx
    key = kwargs.get('key')
    if len(args) == 1:
        items = settle(iter_items(ip, args[0]))
        if not items:
            if 'default' in kwargs:
                return kwargs['default']
            raise_(ValueError, '%s() arg is an empty sequence' % f.__name__)
    else:
        items = list(args)
    if any(is_seg(x) for x in items):
        return minmax_seg(ip, f, items, kwargs)
    best = items[0]
    for x in items[1:]:
        a, b = (ip.call(key, (best,)), ip.call(key, (x,))) if key else (best, x)
        if a is None or b is None:
            raise_(TypeError, "'<' not supported with NoneType")
        if is_native(a) and is_native(b):
            t = native_try(lambda: (b < a) if f is min else (b > a))
        else:
            t = z3.simplify(zi(b) < zi(a)) if f is min else z3.simplify(zi(b) > zi(a))
            if not key:
                best = num(z3.If(t, zi(b), zi(a)))
                continue
            t = c.branch(t)
        if t:
            best = x
    return best


def minmax_seg(ip, f, items, kwargs):
    """min/max over an unknown-length collection: bound by every element, attained by one"""
    raise Undecided('%s over a collection of unknown length' % f.__name__)


def call_builtin(ip, f, args, kwargs):
    c = ip.ctx
    h = ip.engine.hooks.get(hook_key(f))
    if h is not None:
        return h(ip, args, kwargs)
    if f is len:
        v = ip.use(args[0])
        if isinstance(v, (IList, ISet, IIter)):
            return list_len(v.items)
        if isinstance(v, IDict):
            return list_len(v.ents)
        if isinstance(v, KeysView):
            return list_len(v.d.ents)
        if kind_of(v):
            return num(rlen(norm(v) if isinstance(v, Rope) else v))
        if isinstance(v, (tuple, range)):
            return len(v)
        if isinstance(v, IRange):
            return num(z3.If(zi(v.hi) > zi(v.lo), zi(v.hi) - zi(v.lo), z3.IntVal(0)))
        if isinstance(v, IObj):
            m = ip.class_lookup(v.cls, '__len__')
            if isinstance(m, types.FunctionType):
                return ip.call(m, (v,))
        raise_(TypeError, "object of type '%s' has no len()" % type_of(ip, v).__name__)
    if f in (min, max):
        for a in args:
            if len(args) > 1 and (a is None):
                raise_(TypeError, 'comparison with None')
        if len(args) == 1 and isinstance(args[0], (int, SNum, SBool)):
            raise_(TypeError, "'int' object is not iterable")
        return minmax(ip, f, args, kwargs)
    if f is isinstance:
        return isinst(ip, args[0], args[1])
    if f is issubclass:
        return issubclass(args[0], args[1])
    if f is hasattr:
        return ip.hasattr(args[0], args[1])
    if f is getattr:
        if not isinstance(args[1], str):
            raise Undecided('getattr with symbolic name')
        if len(args) > 2:
            return ip.getattr(args[0], args[1], args[2])
        return ip.getattr(args[0], args[1])
    if f is setattr:
        if not isinstance(args[1], str):
            raise Undecided('setattr with symbolic name')
        return ip.setattr(args[0], args[1], args[2])
    if f is delattr:
        return ip.delattr(args[0], args[1])
    if f is object.__setattr__:
        ip.set_attr_raw(args[0], args[1], args[2])
        return None
    if f is object.__delattr__:
        return ip.call_method(args[0], '__delattr__', args[1:], {}) if hasattr(ip, 'call_method') else call_method(ip, args[0], '__delattr__', args[1:], {})
    if f is object.__getattribute__:
        return ip.getattr(args[0], args[1])
    if f is chr:
        v = args[0]
        if is_native(v):
            return native_try(lambda: chr(v))
        t = strchr(v.e)
        c.fact_once(('chr', t.get_id()), lambda: strlen(t) == 1)
        c.keep.append(t)
        return svar(t)
    if f is ord:
        v = args[0]
        v = norm(v) if isinstance(v, Rope) else v
        if is_native(v):
            return native_try(lambda: ord(v))
        if v.kind == 'b':
            if not c.branch(rlen(v) == 1):
                raise_(TypeError, 'ord() expected a character')
            return at(v, z3.IntVal(0))
        if isinstance(v.segs[0], SVar) and z3.is_app(v.segs[0].term) and v.segs[0].term.decl().eq(strchr):
            return num(v.segs[0].term.arg(0))
        raise Undecided('ord of symbolic character')
    if f is abs:
        if is_native(args[0]):
            return abs(args[0])
        e = zi(args[0])
        return num(z3.If(e >= 0, e, -e))
    if f is sum:
        t = args[1] if len(args) > 1 else 0
        cell = [t]
        acc = IObj(object, {'t': t})

        def add(v):
            ip.set_attr_raw(acc, 't', ip.binop(ast.Add(), acc.attrs['t'], v))
        iterate(ip, IIter(iter_items(ip, args[0])), add)
        return acc.attrs['t']
    if f in (any, all):
        want = f is any
        items = settle(iter_items(ip, args[0]))
        conds = []
        for it in items:
            if is_seg(it):
                if find_in_seg(ip, it, lambda v: ip.truth(v) if want else neg(ip.truth(v))) is not None:
                    return want
                continue
            t = ip.truth(it)
            if t is want:
                return want
            if isinstance(t, SBool):
                conds.append(t.e)
        if not conds:
            return not want
        return boolv(z3.Or(conds) if want else z3.And(conds))
    if f is sorted:
        return IList(sorted_items(ip, iter_items(ip, args[0]), kwargs))
    if f is repr:
        v = args[0]
        return repr(v) if is_native(v) else ip.opaque_str('repr')
    if f is id:
        v = args[0]
        return SNum(z3.Int('id:%d' % id(v))) if not is_native(v) else id(v)
    if f is hash:
        return SNum(z3.Int(c.fresh('hash')))
    if f is callable:
        return isinstance(args[0], (IFunc, IBound, IModel, types.FunctionType, type))
    if f is iter:
        return IIter(iter_items(ip, args[0]))
    if f is next:
        it = args[0]
        if isinstance(it, IIter):
            items = settle(it.items)
            if not items:
                if len(args) > 1:
                    return args[1]
                raise_(StopIteration)
            if is_seg(items[0]):
                if isinstance(items[0], Seg):
                    items[0].open_head()
                    it.items = items
                    return call_builtin(ip, f, args, kwargs)
                raise Undecided('next over mapped segment')
            ip.set_items(it, items[1:])
            return items[0]
    if f is divmod:
        return (ip.binop(ast.FloorDiv(), *args), ip.binop(ast.Mod(), *args))
    if f is round and is_native(args[0]):
        return native_try(lambda: round(*args))
    if f is pow and all(is_native(a) for a in args):
        return native_try(lambda: pow(*args))
    if f is format and all(is_native(a) for a in args):
        return native_try(lambda: format(*args))
    if f in (hex, bin, oct):
        return f(args[0]) if is_native(args[0]) else ip.opaque_str('hex')
    if f is int.from_bytes:
        v = norm(args[0]) if isinstance(args[0], Rope) else args[0]
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
        if is_native(v):
            return int.from_bytes(v, order)
        n = as_const(rlen(v))
        if n is None:
            n = ip.concretize(SNum(rlen(v)), 9)
        if n is None:
            raise Undecided('int.from_bytes of unknown length')
        e = z3.IntVal(0)
        for i in range(n):
            e = e * 256 + zi(at(v, z3.IntVal(i if order == 'big' else n - 1 - i)))
        return num(e)
    if f is dict.fromkeys:
        d = IDict()
        for k in iter_items(ip, args[0]):
            dict_set(ip, d, k, args[1] if len(args) > 1 else None)
        return d
    if f is copy.copy:
        return shallow(ip, args[0])
    if f is copy.deepcopy:
        return deep(ip, args[0], {})
    mod = getattr(f, '__module__', None) or ''
    if mod in ('traceback', 'logging', 'warnings') or f in (traceback.print_exc,):
        return None
    if isinstance(f, types.MethodDescriptorType) or isinstance(f, types.WrapperDescriptorType):
        o = args[0]
        return ip.call(ip.getattr(o, f.__name__), args[1:], kwargs)
    if mod == 'struct':
        return struct_fn(ip, f, args)
    if all(is_native(a) for a in args) and all(is_native(v) for v in kwargs.values()) and mod in ('math', 'base64', 'binascii', '_struct', 'hashlib', '_hashlib', 'string', 're', 'builtins', '_operator'):
        return ip.conv(native_try(lambda: f(*args, **kwargs)))
    if isinstance(f, types.BuiltinFunctionType) and type(getattr(f, '__self__', None)).__module__ == '_thread':
        return True
    if f is None or isinstance(f, (int, str, bytes, tuple)):
        raise_(TypeError, 'object is not callable')
    raise Undecided('call of %r' % (f,))


def struct_fn(ip, f, args):
    if f.__name__ == 'pack' and all(is_native(a) for a in args):
        return native_try(lambda: f(*args))
    raise Undecided('struct.%s' % f.__name__)


def neg(t):
    return (not t) if isinstance(t, bool) else boolv(z3.Not(t.e))


def hook_key(f):
    if isinstance(f, types.MethodType):
        return (id(f.__func__), id(f.__self__))
    return id(f)


def shallow(ip, v):
    if isinstance(v, IObj):
        o = IObj(v.cls, dict(v.attrs))
        return o
    if isinstance(v, IList):
        return IList(v.items)
    if isinstance(v, ISet):
        return ISet(v.items)
    if isinstance(v, IDict):
        return IDict(v.ents)
    return v


def deep(ip, v, memo):
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, tuple):
        return tuple(deep(ip, x, memo) for x in v)
    if isinstance(v, IObj):
        o = IObj(v.cls)
        memo[id(v)] = (o, v)
        for k, x in v.attrs.items():
            o.attrs[k] = deep(ip, x, memo)
        return o
    if isinstance(v, Maybe):
        return Maybe(v.p, deep(ip, v.v, memo))
    if isinstance(v, CondItem):
        return CondItem(v.p, deep(ip, v.v, memo))
    if isinstance(v, (IList, ISet)):
        o = type(v)()
        memo[id(v)] = (o, v)
        for x in flatten(v.items):
            if is_seg(x):
                if not (isinstance(x, Seg) and immutable(x.make().value)):
                    raise Undecided('deep copy of unknown-length list of objects')
                o.items.append(x)
                continue
            o.items.append(deep(ip, x, memo))
        return o
    if isinstance(v, IDict):
        o = IDict()
        memo[id(v)] = (o, v)
        for e in flatten(v.ents):
            if is_seg(e):
                if not (isinstance(e, Seg) and immutable(e.make().value)):
                    raise Undecided('deep copy of unknown-size dictionary of objects')
                o.ents.append(e)
            else:
                o.ents.append((deep(ip, e[0], memo), deep(ip, e[1], memo)))
        return o
    return v


def immutable(v):
    if isinstance(v, tuple):
        return all(immutable(x) for x in v)
    return is_native(v) or isinstance(v, (SNum, SBool, Rope))
