"""Collections of unknown length and the loops over them.

A Seg stands for any number of elements produced by one generator.  A loop over
a Seg is summarised from one generic iteration, checked to be inductive: the
iteration is executed again from the state reached after an arbitrary prefix.
"""
import ast, copy
import z3
from .core import *
from .core import ABSENT, undo
from .ropes import *
from . import ropes

MAXUNROLL = 300
import os
DBG = os.environ.get('DBGW')


class ElemRec:
    """one element of a segment: its value and the constants/objects it was built from"""
    __slots__ = ('value', 'consts', 'objs', 'inputs')

    def __init__(self, value, consts, objs, inputs=None):
        self.value, self.consts, self.objs, self.inputs = value, consts, objs, inputs


class Tmpl:
    """a value that depends on a generic element; instantiate by substitution"""
    _n = 0

    def __init__(self, rec, value, facts=()):
        Tmpl._n += 1
        self.rec, self.value, self.facts = rec, value, list(facts)
        self.memo = {}

    def inst(self, rec):
        if rec is self.rec:
            return self.value
        k = id(rec)
        c = cur()
        if k in self.memo and self.memo[k][2] is c:
            return self.memo[k][0]
        sub = Subst(self.rec, rec)
        for f in self.facts:
            c.fact(sub.z(f))
        v = sub.val(self.value)
        self.memo[k] = (v, rec, c)
        return v

    def length(self):
        return Tmpl(self.rec, SNum(rlen(self.value)), self.facts)


class Subst:
    def __init__(self, a, b):
        self.pairs = list(zip(a.consts, b.consts))
        self.objs = {id(x): y for x, y in zip(a.objs, b.objs)}
        self.keep = (a, b)
        self.memo = {}

    def z(self, e):
        if not self.pairs:
            return e
        return z3.substitute(e, *self.pairs)

    def val(self, v):
        if isinstance(v, (SNum,)):
            return num(self.z(v.e))
        if isinstance(v, SBool):
            return boolv(self.z(v.e))
        if isinstance(v, Rope):
            return rope(v.kind, tuple(self.seg(s) for s in v.segs))
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, IObj):
            if id(v) in self.objs:
                return self.objs[id(v)]
            if id(v) in self.memo:
                return self.memo[id(v)][0]
            if not getattr(v, 'in_body', False):
                return v
            o = IObj(v.cls)
            o.in_body = True
            self.memo[id(v)] = (o, v)
            for k, x in v.attrs.items():
                o.attrs[k] = self.val(x)
            return o
        if isinstance(v, Maybe):
            return Maybe(self.z(v.p), self.val(v.v))
        if isinstance(v, (IList, ISet)):
            if id(v) in self.objs:
                return self.objs[id(v)]
            if id(v) in self.memo:
                return self.memo[id(v)][0]
            if not getattr(v, 'in_body', False):
                return v
            o = type(v)()
            o.in_body = True
            self.memo[id(v)] = (o, v)
            o.items = [self.val(x) for x in v.items]
            return o
        if isinstance(v, IDict):
            if id(v) in self.objs:
                return self.objs[id(v)]
            if id(v) in self.memo:
                return self.memo[id(v)][0]
            if not getattr(v, 'in_body', False):
                return v
            o = IDict()
            o.in_body = True
            self.memo[id(v)] = (o, v)
            o.ents = [self.val(x) for x in v.ents]
            return o
        if isinstance(v, CondItem):
            return CondItem(self.z(v.p), self.val(v.v))
        if isinstance(v, Seg):
            return self.objs.get(id(v), v)
        return v

    def seg(self, s):
        if isinstance(s, (bytes, str)):
            return s
        if isinstance(s, Cell):
            return Cell(self.z(s.e))
        if isinstance(s, BVar):
            arr = self.z(s.arr)
            name = s.name
            if not arr.eq(s.arr):
                name = str(arr)
            return BVar(name, arr, self.z(zi(s.off)), self.z(zi(s.n)))
        if isinstance(s, SVar):
            return SVar(self.z(s.term))
        if isinstance(s, Utf8):
            return Utf8(self.z(s.term))
        if isinstance(s, CondA):
            r = self.val(s.r)
            return CondA(self.z(s.p), r if isinstance(r, Rope) else Rope(s.kind, segs_of(r)))
        if isinstance(s, Tagged):
            return Tagged(s.tag, self.val(s.value), self.z(zi(s.n)), s.mk)
        raise Undecided('substitution in %s' % type(s).__name__)


class CondItem:
    """list item present exactly when p"""
    __slots__ = ('p', 'v')

    def __init__(self, p, v):
        self.p, self.v = p, v


def created(v, sn0, out, seen):
    """the objects reachable from v that are younger than sn0, in a fixed order"""
    if isinstance(v, tuple):
        for x in v:
            created(x, sn0, out, seen)
    elif isinstance(v, (IObj, IList, ISet, IDict)) and id(v) not in seen and getattr(v, 'sn', 0) > sn0:
        seen.add(id(v))
        out.append(v)
        if isinstance(v, IObj):
            for x in v.attrs.values():
                created(x, sn0, out, seen)
        elif isinstance(v, IDict):
            for e in v.ents:
                created(e, sn0, out, seen)
        else:
            for x in v.items:
                created(x, sn0, out, seen)


class Seg:
    def __init__(self, name, gen, n=None, key=None, pairwise=None):
        c = cur()
        self.name = name
        self.gen = gen
        if n is None:
            n = z3.Int(c.fresh('len:' + name))
            c.fact(n >= 0)
        self.n = n
        self.key = key
        self.preds = []        # Tmpl with SBool/bool value, true of every element
        self.excl = []         # key values no element has
        self.refined = None
        self.sums = []         # (Tmpl, z3 const)
        self._proto = None
        self.current = None

    def __repr__(self):
        return 'Seg(%s%s)' % (self.name, '' if self.refined is None else ' refined')

    # elements
    def make(self):
        """fresh element record (no membership constraints yet)"""
        c = cur()
        prev = getattr(c, 'capture', None)
        c.capture = ([], [], {})
        prevd, c.gen_depth = c.gen_depth, len(c.frames)
        sn0 = serial()
        try:
            v = self.gen()
            consts, objs, inputs = c.capture
            created(v, sn0, objs, {id(o) for o in objs})
        finally:
            c.capture = prev
            c.gen_depth = prevd
        if prev is not None:
            prev[0].extend(consts)
            prev[1].extend(objs)
        return ElemRec(v, consts, objs, inputs)

    def constrain(self, rec):
        c = cur()
        for p in self.preds:
            v = p.inst(rec)
            if v is False:
                raise PathAbort()
            if isinstance(v, SBool):
                c.assume(v.e)
        if self.key is not None:
            kv = self.key(rec.value)
            for x in self.excl:
                r = c.interp.eq(kv, x)
                if r is True:
                    raise PathAbort()
                if isinstance(r, SBool):
                    c.assume(z3.Not(r.e))

    def new(self):
        rec = self.make()
        self.constrain(rec)
        return rec

    def child(self, tag, n=None):
        s = Seg(self.name + tag, self.gen, n, self.key)
        s.preds = list(self.preds)
        s.excl = list(self.excl)
        return s

    def log(self, field):
        old = getattr(self, field)
        cur().journal.append(('call', lambda o=old: setattr(self, field, o), (), None))

    def set_refined(self, items):
        c = cur()
        self.log('refined')
        self.refined = items
        tot = z3.IntVal(0)
        for it in items:
            tot = tot + (it.n if isinstance(it, Seg) else 1)
        c.fact_path(self.n == tot)
        for t, k in self.sums:
            s = z3.IntVal(0)
            for it in items:
                s = s + (it.sumof(t) if isinstance(it, Seg) else zi(t.inst(it)))
            c.fact_path(k == s)

    def add_pred(self, t):
        self.log('preds')
        self.preds = self.preds + [t]

    def add_excl(self, k):
        self.log('excl')
        self.excl = self.excl + [k]

    def recs(self):
        """None if unrefined, else a flat list of ElemRec / unrefined Seg"""
        if self.refined is None:
            return None
        out = []
        for it in self.refined:
            if isinstance(it, Seg):
                r = it.recs()
                out.extend([it] if r is None else r)
            else:
                out.append(it)
        return out

    def split(self, tag='', rec=None):
        """refine into pre ++ [e] ++ post; returns (pre, e, post)"""
        c = cur()
        pre = self.child(tag + '<')
        post = self.child(tag + '>')
        if rec is None:
            rec = self.new()
        if self.key is not None:
            kv = self.key(rec.value)
            pre.excl = pre.excl + [kv]
            post.excl = post.excl + [kv]
        self.set_refined([pre, rec, post])
        return pre, rec, post

    def open_head(self):
        """branch on emptiness; returns (first element, rest) or None"""
        c = cur()
        if self.refined is not None:
            raise Undecided('open_head on refined segment')
        if not c.branch(self.n > 0):
            self.set_refined([])
            return None
        rec = self.new()
        rest = self.child("'")
        if self.key is not None:
            rest.excl = rest.excl + [self.key(rec.value)]
        self.set_refined([rec, rest])
        c.opened.append((self, rec, rest))
        return rec, rest

    def sumof(self, t):
        """sum of the numeric template t over the elements"""
        c = cur()
        r = self.recs()
        if r is not None:
            s = z3.IntVal(0)
            for it in r:
                s = s + (it.sumof(t) if isinstance(it, Seg) else zi(t.inst(it)))
            return s
        k = as_const(zi(t.value))
        if k is not None:
            return self.n * k
        for t2, const in self.sums:
            if t2 is t:
                return const
        for t2, const in self.sums:
            a = zi(t2.inst(t.rec))
            if as_const(a - zi(t.value)) == 0 or c.must(a == zi(t.value)):
                return const
            if as_const(a + zi(t.value)) == 0 or c.must(a == -zi(t.value)):
                return -const
        const = z3.Int(c.fresh('sum:' + self.name))
        if c.must(zi(t.value) >= 0):
            c.fact(const >= 0)
            lo, hi = c.interval(zi(t.value))
            if lo is not None and lo > 1:
                c.fact(const >= lo * self.n)
            elif c.must(zi(t.value) >= 1):
                c.fact(const >= self.n)
        c.fact(z3.Implies(self.n == 0, const == 0))
        self.log('sums')
        self.sums = self.sums + [(t, const)]
        return const


class MapSeg:
    """for every element of base, the template items (each possibly conditional)"""

    def __init__(self, base, tmpl):
        self.base, self.tmpl = base, tmpl      # tmpl: Tmpl of a tuple of items/CondItems

    def __repr__(self):
        return 'MapSeg(%r)' % self.base


class Acc:
    """placeholder for what earlier iterations added to a collection: by induction `content`"""

    def __init__(self, content=None):
        self.content = content


class FAcc(Acc):
    """placeholder for the elements of the processed part of seg that a filtering loop kept"""

    def __init__(self, seg):
        self.seg = seg
        self.content = None


def is_seg(x):
    return isinstance(x, (Seg, MapSeg))


def flatten(items):
    """resolve refined segments; yields values, CondItem, Seg, MapSeg"""
    c = cur()
    out = []
    for it in items:
        if isinstance(it, Seg):
            r = it.recs()
            if r is None:
                out.append(it)
            else:
                out.extend(x if isinstance(x, Seg) else x.value for x in r)
        elif isinstance(it, MapSeg):
            r = it.base.recs()
            if r is None:
                if it.tmpl.value:
                    out.append(it)
            else:
                for x in r:
                    if isinstance(x, Seg):
                        out.append(MapSeg(x, it.tmpl))
                    else:
                        out.extend(resolve_conds(it.tmpl.inst(x)))
        elif isinstance(it, CondItem):
            out.extend(resolve_conds([it]))
        else:
            out.append(it)
    return out


def resolve_conds(items):
    c = cur()
    out = []
    for it in items:
        if isinstance(it, CondItem):
            p = z3.simplify(it.p)
            k = True if z3.is_true(p) else False if z3.is_false(p) else c.lookup(p)
            if k is True:
                out.append(it.v)
            elif k is None:
                out.append(CondItem(p, it.v))
        else:
            out.append(it)
    return out


def settle(items):
    """flatten and fork on conditional items"""
    c = cur()
    out = []
    for it in flatten(items):
        if isinstance(it, CondItem):
            if c.branch(it.p):
                out.append(it.v)
        else:
            out.append(it)
    return out


def count(s):
    c = cur()
    if isinstance(s, Seg):
        r = s.recs()
        if r is None:
            return s.n
        t = z3.IntVal(0)
        for x in r:
            t = t + (count(x) if isinstance(x, Seg) else 1)
        return t
    items = s.tmpl.value
    e = z3.IntVal(0)
    for it in items:
        e = e + (z3.If(it.p, z3.IntVal(1), z3.IntVal(0)) if isinstance(it, CondItem) else 1)
    if not hasattr(s.tmpl, 'cnt'):
        s.tmpl.cnt = Tmpl(s.tmpl.rec, num(e) if as_const(e) is None else as_const(e))
    return s.base.sumof(s.tmpl.cnt)


def list_len(items):
    t = z3.IntVal(0)
    for it in flatten(items):
        if isinstance(it, Acc):
            raise Undecided('length of a collection being built by a summarised loop')
        if is_seg(it):
            t = t + count(it)
        elif isinstance(it, CondItem):
            t = t + z3.If(it.p, z3.IntVal(1), z3.IntVal(0))
        else:
            t = t + 1
    return num(t)


# ---------------------------------------------------------------- probing
class Outcome:
    __slots__ = ('kind', 'conds', 'diffs', 'sig', 'facts', 'opened')


def container_state(kind, cont, key):
    if kind == 'attr':
        return cont.attrs.get(key, ABSENT)
    if kind == 'items':
        return cont.items
    if kind == 'ents':
        return cont.ents
    if kind == 'local':
        return cont.get(key, ABSENT)
    return None


def probe(ip, fn, limit=64, base=None):
    """run fn from the current state on every feasible path, undoing its effects.
    Returns the outcomes with their path conditions and write sets."""
    c = ip.ctx
    outs = []
    work = [[]]
    depth = c.depth
    c.depth += 1
    if c.depth > 12:
        c.depth = depth
        raise Undecided('probe nesting')
    stack_len = len(ip.stack)
    facts_mark = len(c.facts)
    try:
        while work:
            pre = work.pop()
            if len(outs) >= limit:
                raise Undecided('too many paths in one iteration')
            mark = len(c.journal)
            pcmark = len(c.pc)
            omark = len(c.opened)
            sn0 = serial()
            fr = Frame_(pre)
            c.frames.append(fr)
            c.solver.push()
            fmark = len(c.facts)
            sig = None
            o = Outcome()
            ok = True
            try:
                fn()
                o.kind = 'normal'
            except CntSig:
                o.kind = 'normal'
            except BrkSig as s:
                o.kind, sig = 'break', s
            except RetSig as s:
                o.kind, sig = 'return', s
            except PyRaise as s:
                o.kind, sig = 'raise', s
            except PathAbort:
                ok = False
            finally:
                c.frames.pop()
                conds = c.pc[pcmark:]
                del c.pc[pcmark:]
                del ip.stack[stack_len:]
                newfacts = c.facts[fmark:]
                opened = c.opened[omark:]
                del c.opened[omark:]
                # write set
                first = {}
                keepd = []
                if base is not None:
                    base_mark = max(mark, base.get('mark', mark))
                else:
                    base_mark = mark
                for ent in c.journal[base_mark:]:
                    kind, cont, key, old = ent
                    if kind in ('known', 'call'):
                        continue
                    k = (kind, id(cont), key)
                    if k not in first:
                        first[k] = (kind, cont, key, old[0] if kind == 'ents' else old)
                diffs = []
                private = []
                for kind, cont, key, old in first.values():
                    new = container_state(kind, cont, key)
                    if getattr(cont, 'sn', 0) > sn0:
                        # created on this path: keeps its final state, nobody else can see it
                        private.append((kind, cont, key, (cont.ents, cont.rest) if kind == 'ents' else new))
                    elif new is not old:
                        diffs.append((kind, cont, key, old, new))
                c.rollback(mark)
                for kind, cont, key, new in private:
                    undo(kind, cont, key, new)
                c.solver.pop()
                for f in newfacts:
                    c.solver.add(f)
            if ok:
                o.conds, o.diffs, o.sig, o.facts, o.opened = conds, diffs, sig, newfacts, opened
                outs.append(o)
            work.extend(fr.work)
    finally:
        c.depth = depth
    return outs


def conj(conds):
    return z3.And(conds) if len(conds) != 1 else conds[0]


# ---------------------------------------------------------------- if merging
def ite_sum(p, x, y):
    """If(p, x, y), written as y plus a conditional increment when the two are close: sums of
    such terms cancel syntactically"""
    if x.sort() != I or y.sort() != I:
        return z3.If(p, x, y)
    if as_const(y) is not None and as_const(x) is not None:
        return z3.If(p, x, y)
    d = z3.simplify(x - y)
    if term_size(d, 40) >= min(term_size(x, 40), term_size(y, 40)):
        return z3.If(p, x, y)
    h = d.arg(0) if z3.is_add(d) else d
    neg = (z3.is_int_value(h) and h.as_long() < 0) or (z3.is_mul(h) and z3.is_int_value(h.arg(0)) and h.arg(0).as_long() < 0)
    if neg:
        return y - z3.If(p, z3.simplify(-d), z3.IntVal(0))
    return y + z3.If(p, d, z3.IntVal(0))


def term_size(e, lim):
    n = 0
    todo = [e]
    while todo and n < lim:
        x = todo.pop()
        n += 1
        todo.extend(x.children())
    return n


def merge_val(ip, p, a, b):
    """value that is a if p else b"""
    if a is b:
        return a
    if a is ABSENT and b is ABSENT:
        return ABSENT
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison()
    if isinstance(a, Maybe) or isinstance(b, Maybe) or a is ABSENT or b is ABSENT:
        def pv(x):
            if x is ABSENT:
                return z3.BoolVal(False), None
            if isinstance(x, Maybe):
                return x.p, x.v
            return z3.BoolVal(True), x
        pa, va = pv(a)
        pb, vb = pv(b)
        if va is None:
            v = vb
        elif vb is None:
            v = va
        else:
            v = merge_val(ip, p, va, vb)
        q = z3.simplify(z3.If(p, pa, pb))
        return Maybe(q, v)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x = a.e if isinstance(a, SBool) else z3.BoolVal(a)
        y = b.e if isinstance(b, SBool) else z3.BoolVal(b)
        return boolv(z3.If(p, x, y))
    if isinstance(a, (int, SNum)) and isinstance(b, (int, SNum)) and not isinstance(a, bool) and not isinstance(b, bool):
        return num(ite_sum(p, zi(a), zi(b)))
    ka, kb = kind_of(a), kind_of(b)
    if ka and ka == kb:
        if not isinstance(a, Rope) and not isinstance(b, Rope) and a == b:
            return a
        sa, sb = list(segs_of(a)), list(segs_of(b))
        common = []
        while sa and sb and (sa[0] is sb[0] or (isinstance(sa[0], (bytes, str)) and sa[0] == sb[0]) or
                             (isinstance(sa[0], BVar) and isinstance(sb[0], BVar) and sa[0].name == sb[0].name and
                              as_const(zi(sa[0].off) - zi(sb[0].off)) == 0 and as_const(zi(sa[0].n) - zi(sb[0].n)) == 0)):
            common.append(sa.pop(0))
            sb.pop(0)
        suffix = []
        while sa and sb and sa[-1] is sb[-1]:
            suffix.insert(0, sa.pop())
            sb.pop()
        if ka == 's' and (sa and sb):
            return svar(z3.If(p, sterm(a), sterm(b)))
        mid = []
        if sa:
            mid.append(CondA(p, Rope(ka, sa)))
        if sb:
            mid.append(CondA(z3.simplify(z3.Not(p)), Rope(ka, sb)))
        return rope(ka, common + mid + suffix)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(ip, p, x, y) for x, y in zip(a, b))
    if is_simple(a) and is_simple(b) and a == b and type(a) is type(b):
        return a
    raise MergeFail()


def is_simple(v):
    return isinstance(v, (int, str, bytes, float, type(None), bool))


def merge_items(ip, p, xs, ys):
    if any(isinstance(x, Seg) and x.refined is not None for x in list(xs) + list(ys)):
        xs, ys = flatten(xs), flatten(ys)
    xs, ys = list(xs), list(ys)
    pre = []
    post = []
    while xs and ys and xs[-1] is ys[-1] and (is_seg(xs[-1]) or isinstance(xs[-1], IObj)) and not (xs[0] is ys[0] and min(len(xs), len(ys)) == 1):
        post.insert(0, xs.pop())
        ys.pop()
    while xs and ys and (xs[0] is ys[0] or (is_simple(xs[0]) and is_simple(ys[0]) and type(xs[0]) is type(ys[0]) and xs[0] == ys[0])):
        pre.append(xs.pop(0))
        ys.pop(0)
    if any(is_seg(x) or isinstance(x, (Acc, CondItem)) for x in xs + ys):
        if any(not isinstance(x, CondItem) for x in xs + ys if is_seg(x) or isinstance(x, (Acc, CondItem))):
            raise MergeFail()
        q = z3.simplify(z3.Not(p))
        return pre + [CondItem(z3.And(p, x.p), x.v) if isinstance(x, CondItem) else CondItem(p, x) for x in xs] + \
            [CondItem(z3.And(q, y.p), y.v) if isinstance(y, CondItem) else CondItem(q, y) for y in ys] + post
    mid = [CondItem(p, x) for x in xs] + [CondItem(z3.simplify(z3.Not(p)), y) for y in ys]
    return pre + mid + post


def fold_outcomes(ip, outs):
    """merge the write sets of normal outcomes into one list of (kind, cont, key, value)"""
    conds = [conj(o.conds) if o.conds else z3.BoolVal(True) for o in outs]
    keys = {}
    for o in outs:
        for kind, cont, key, old, new in o.diffs:
            keys.setdefault((kind, id(cont), key), (kind, cont, key, old))
    res = []
    for (kind, cid, key), (kind, cont, key, old) in keys.items():
        vals = []
        for o in outs:
            v = old
            for k2, c2, y2, o2, n2 in o.diffs:
                if k2 == kind and c2 is cont and y2 == key:
                    v = n2
            vals.append(v)
        acc = vals[-1]
        for p, v in reversed(list(zip(conds[:-1], vals[:-1]))):
            p = z3.simplify(p)
            if kind == 'items':
                acc = merge_items(ip, p, v, acc) if v is not acc else acc
            elif kind == 'ents':
                if v is not acc:
                    raise MergeFail()
            elif kind == 'local':
                try:
                    if v is ABSENT or acc is ABSENT:
                        acc = v if v is acc else Poison('conditionally assigned local')
                    else:
                        acc = merge_val(ip, p, v, acc)
                except MergeFail:
                    acc = Choice([(z3.simplify(c), x) for c, x in zip(conds[:-1], vals[:-1])] + [(True, vals[-1])])
                    break
            else:
                acc = merge_val(ip, p, v, acc)
        res.append((kind, cont, key, acc))
    return res


def apply_write(ip, kind, cont, key, v):
    c = ip.ctx
    if kind == 'attr':
        if v is ABSENT:
            ip.del_attr_raw(cont, key)
        else:
            ip.set_attr_raw(cont, key, v)
    elif kind == 'items':
        ip.set_items(cont, v)
    elif kind == 'ents':
        ip.set_ents(cont, v)
    elif kind == 'local':
        c.log('local', cont, key, cont.get(key, ABSENT))
        if v is ABSENT:
            cont.pop(key, None)
        else:
            cont[key] = v


def try_merge(ip, fr, s, e):
    """execute both branches of an if and merge the effects; False when not mergeable"""
    c = ip.ctx

    def run():
        ip.exec_block(fr, s.body if c.branch(e) else s.orelse)
    mark = len(c.journal)
    try:
        outs = probe(ip, run, limit=24)
        if not outs:
            raise PathAbort()
        if len(outs) == 1 or any(o.kind != 'normal' for o in outs) or any(o.opened for o in outs):
            return False
        writes = fold_outcomes(ip, outs)
    except (MergeFail, Undecided) as e:
        if e.__class__.__name__ == 'OutOfTime':
            raise
        c.rollback(mark)
        return False
    for kind, cont, key, v in writes:
        apply_write(ip, kind, cont, key, v)
    return True


# ---------------------------------------------------------------- for loops
def run_for(ip, fr, s):
    from .models import iter_items
    it = ip.eval(fr, s.iter)
    live = it if isinstance(it, IList) else None

    def body(v):
        ip.assign(fr, s.target, v)
        ip.exec_block(fr, s.body)
    dead = ip.ctx.__dict__.setdefault('dead_locals', [])
    mark = len(dead)
    dead.append((fr.locals, assigned_first(s.body, s.target)))
    try:
        iterate(ip, it, body, lambda: big_range(it))
    except BrkSig:
        return
    finally:
        del dead[mark:]
    ip.exec_block(fr, s.orelse)


def big_range(it):
    return isinstance(it, range) and len(it) > 64


def iterate(ip, it, body, big=lambda: False):
    """run body for every item; BrkSig escapes"""
    from .models import iter_items
    c = ip.ctx
    if isinstance(it, range) and len(it) > 64 and it.step == 1:
        lo, hi = it.start, it.stop

        def gen():
            k = fresh_int(ip, 'i')
            c.fact(z3.And(k >= lo, k < hi))      # hi - lo > 64: such a k exists
            return SNum(k)
        seg = Seg('range', gen, z3.IntVal(hi - lo))
        loop_seg(ip, seg, None, body)
        return
    if isinstance(it, IList):
        # live list: python iterates by index
        i = 0
        guard = 0
        while True:
            items = it.items
            flat = settle(items)
            if i >= len(flat):
                return
            if not any(is_seg(x) for x in flat):
                if items is not flat and any(not (a is b) for a, b in zip(items, flat)) or len(items) != len(flat):
                    ip.set_items(it, flat)
                try:
                    body(ip_item(ip, flat[i]))
                except CntSig:
                    pass
                i += 1
                guard += 1
                if guard > 3000:
                    raise Undecided('loop bound')
                continue
            x = flat[i]
            if is_seg(x):
                before = it.items
                ip.set_items(it, flat)
                snapshot = it.items
                loop_seg(ip, base_of(x), x, body, forbid=it)
                if it.items is not snapshot:
                    raise Undecided('list modified while a segment of it is iterated')
                # skip what the segment has become
                i = len(flatten(flat[:i + 1]))
                continue
            snapshot = it.items
            try:
                body(ip_item(ip, x))
            except CntSig:
                pass
            if it.items is not snapshot:
                if len(it.items) < len(snapshot) or any(a is not b for a, b in zip(it.items, snapshot)):
                    raise Undecided('list with unknown-length part modified while iterated')
            # indexes may have shifted by refinement
            flat2 = flatten(it.items)
            i = index_after(flat2, x, i)
    else:
        for x in settle(iter_items(ip, it)):
            if is_seg(x):
                loop_seg(ip, base_of(x), x, body)
            else:
                try:
                    body(ip_item(ip, x))
                except CntSig:
                    pass


def ip_item(ip, x):
    if isinstance(x, Acc):
        raise Undecided('iteration over a collection being built by a summarised loop')
    return x


def index_after(flat, x, i):
    for j in range(i, len(flat)):
        if flat[j] is x:
            return j + 1
    for j, y in enumerate(flat):
        if y is x:
            return j + 1
    return i + 1


def base_of(x):
    return x if isinstance(x, Seg) else x.base


def fresh_int(ip, name):
    k = z3.Int(ip.ctx.fresh(name))
    cap(ip.ctx, k)
    return k


def cap(c, k):
    if getattr(c, 'capture', None) is not None:
        c.capture[0].append(k)


def capobj(c, o):
    if getattr(c, 'capture', None) is not None:
        c.capture[1].append(o)


def mark_new(ip, outs_diffs, seen, depth=0):
    """mark objects created inside a loop body (reachable from new values) as in_body"""
    pass


def items_for(ip, seg, mapseg, rec):
    """values the loop variable takes for element rec"""
    if mapseg is None or isinstance(mapseg, Seg):
        return [rec.value]
    out = []
    for x in mapseg.tmpl.inst(rec):
        if isinstance(x, CondItem):
            if ip.ctx.branch(x.p):
                out.append(x.v)
        else:
            out.append(x)
    return out


def loop_seg(ip, seg, src, body, forbid=None, depth=0):
    """iterate body over the unknown-length segment seg (through the map src, if any)"""
    c = ip.ctx
    r = seg.recs()
    if r is not None:
        for x in r:
            if isinstance(x, Seg):
                loop_seg(ip, x, MapSeg(x, src.tmpl) if isinstance(src, MapSeg) else None, body, forbid, depth)
            else:
                run_rec(ip, seg, src, x, body)
        return
    if as_const(seg.n) == 0 or c.must(seg.n == 0):
        seg.set_refined([])
        return
    # ---- probe 1: which locations does an iteration write?
    holder = {}

    def one():
        pre, rec, post = seg.split()
        holder['rec'] = rec
        run_rec(ip, seg, src, rec, body)
    recs = []

    def one_rec():
        one()
    outs = probe_rec(ip, seg, src, body)
    if not outs:
        # no element can exist
        seg.set_refined([])
        c.assume(seg.n == 0)
        return
    normal = [o for o in outs if o.kind == 'normal']
    exits = [o for o in outs if o.kind != 'normal']
    eff = [o for o in normal if effects(ip, o)]
    inert = [o for o in normal if not effects(ip, o)]
    for o in outs:
        if o.opened:
            raise Undecided('segment opened while iterating another')
    # constant flags: locals set to a value by effectful outcomes
    if not eff and not exits:
        poison_locals(ip, normal)
        return
    if exits or eff:
        if not summarisable(ip, seg, src, eff):
            return split_first(ip, seg, src, body, forbid, outs, inert, eff, exits, depth)
    if exits:
        return exit_split(ip, seg, src, body, forbid, outs, normal, exits, depth)
    summarise(ip, seg, src, body, normal, forbid)


def run_rec(ip, seg, src, rec, body):
    for v in items_for(ip, seg, src, rec):
        try:
            body(v)
        except CntSig:
            pass


def probe_rec(ip, seg, src, body, setup=None):
    """outcomes of the body on a generic element; o.sig/o.conds refer to rec in o.rec"""
    c = ip.ctx
    # one shared generic record for all paths: created outside the probe
    rec = seg.make()
    seg.current = rec
    holder = {'rec': rec}

    def one():
        if setup is not None:
            setup(rec)
        else:
            pre = seg.child('<')
            post = seg.child('>')
            if seg.key is not None:
                kv = seg.key(rec.value)
                pre.excl = pre.excl + [kv]
                post.excl = post.excl + [kv]
            seg.set_refined([pre, rec, post])
            holder['pre'], holder['post'] = pre, post
        seg.constrain(rec)
        holder['mark'] = len(c.journal)
        prevb = getattr(c, 'in_body', 0)
        c.in_body = prevb + 1
        try:
            run_rec(ip, seg, src, rec, body)
        finally:
            c.in_body = prevb
    # membership constraints are not part of the outcome conditions: record how many
    outs = probe(ip, one, base=holder)
    for o in outs:
        o.sig = (o.sig, rec)
    return outs


def effects(ip, o):
    """writes of an outcome other than to local variables of the looping frame"""
    r = []
    dead = ip.ctx.__dict__.get('dead_locals', ())
    for d in o.diffs:
        if d[0] == 'local':
            if any(d[1] is loc and d[2] in names for loc, names in dead):
                continue       # assigned anew by every iteration
            r.append(d) if is_flag(d) else None
        else:
            r.append(d)
    return r


def is_flag(d):
    """local writes that matter after the loop: the variable existed before the loop"""
    return d[3] is not ABSENT and not isinstance(d[3], Poison)


def is_dead(ip, d):
    return not is_flag(d) or any(d[1] is loc and d[2] in names for loc, names in ip.ctx.__dict__.get('dead_locals', ()))


def assigned_first(body, target):
    """names every iteration assigns before it can read them"""
    names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
    read = set()
    for s in body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            read |= {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
            t = s.targets[0]
            if isinstance(s.value, ast.Constant):
                pass
            elif isinstance(t, ast.Name) or (isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts)):
                names |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} - read
                continue
        read |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
        if not isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)):
            # a jump may skip later assignments
            if any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for n in ast.walk(s)):
                break
    return frozenset(names)


def poison_locals(ip, outs):
    c = ip.ctx
    for o in outs:
        for kind, cont, key, old, new in o.diffs:
            if kind == 'local':
                c.log('local', cont, key, cont.get(key, ABSENT))
                cont[key] = Poison('loop variable %s' % key)


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def classify(ip, seg, d):
    """how a write depends on the iteration"""
    kind, cont, key, old, new = d
    if kind == 'items':
        f = filtered(seg, old, new)
        if f is not None:
            return ('filter', f)
        fo, fn_ = flatten_raw(old), flatten_raw(new)
        if len(fn_) >= len(fo) and all(x is y for x, y in zip(fo, fn_)):
            return ('append', fn_[len(fo):])
        return ('other', None)
    if kind in ('local', 'attr'):
        if old is ABSENT or new is ABSENT or isinstance(old, (Poison, Maybe)) or isinstance(new, (Poison, Maybe)):
            return ('other', None)
        if isinstance(old, (int, SNum)) and isinstance(new, (int, SNum)) and not isinstance(old, bool) and not isinstance(new, bool):
            return ('delta', num(zi(new) - zi(old)))
        if isinstance(old, IList) and isinstance(new, IList) and new is not old and kind == 'attr':
            fo, fn_ = old.items, new.items
            if len(fn_) >= len(fo) and all(x is y for x, y in zip(fo, fn_)):
                return ('listext', fn_[len(fo):])
        ko, kn = kind_of(old), kind_of(new)
        if ko and ko == kn:
            so, sn = segs_of(norm(old)), segs_of(norm(new))
            if len(sn) >= len(so) and all(a is b or (isinstance(a, (bytes, str)) and a == b) for a, b in zip(so, sn)):
                return ('ropeapp', rope(ko, sn[len(so):]))
            if so and sn and len(sn) >= len(so) and isinstance(so[-1], (bytes, str)) and isinstance(sn[len(so) - 1], (bytes, str)) \
                    and all(a is b or (isinstance(a, (bytes, str)) and a == b) for a, b in zip(so[:-1], sn)) and sn[len(so) - 1].startswith(so[-1]):
                return ('ropeapp', rope(ko, (sn[len(so) - 1][len(so[-1]):],) + tuple(sn[len(so):])))
    return ('other', None)


def filtered(seg, old, new):
    """the list contained the segment and keeps the current element under the returned condition, and nothing else changed; else None"""
    for i, x in enumerate(old):
        if x is seg:
            n = len(old) - i - 1
            mid = list(new[i:len(new) - n])
            if not all(a is b for a, b in zip(old[:i], new[:i])) or not all(a is b for a, b in zip(old[i + 1:], new[len(new) - n:])):
                return None
            if len(mid) in (2, 3) and isinstance(mid[0], Seg) and isinstance(mid[-1], Seg) and mid[0].refined is None and mid[-1].refined is None \
                    and mid[0].name == seg.name + '<' and mid[-1].name == seg.name + '>' and mid[0].gen is seg.gen and mid[-1].gen is seg.gen \
                    and not any(is_seg(y) for y in mid[1:-1]):
                if len(mid) == 2:
                    return z3.BoolVal(False)
                y = mid[1]
                if (y.v if isinstance(y, CondItem) else y) is not seg.current.value:
                    return None
                return y.p if isinstance(y, CondItem) else z3.BoolVal(True)
            return None
        if isinstance(x, FAcc) and x.seg is seg:
            # after an arbitrary prefix: old is [.., FAcc, current, rest, ..]
            n = len(old) - i - 3
            if not all(a is b for a, b in zip(old[:i + 1], new[:i + 1])):
                return None
            t = list(new[i + 1:])
            if len(t) == n + 1 and all(a is b for a, b in zip(t, old[i + 2:])):
                return z3.BoolVal(False)
            if len(t) == n + 2 and all(a is b for a, b in zip(t[1:], old[i + 2:])):
                if (t[0].v if isinstance(t[0], CondItem) else t[0]) is not seg.current.value:
                    return None
                return t[0].p if isinstance(t[0], CondItem) else z3.BoolVal(True)
            return None
    return None


def flatten_raw(items):
    return list(items)


def summarisable(ip, seg, src, eff):
    for o in eff:
        for d in effects(ip, o):
            if classify(ip, seg, d)[0] == 'other':
                if DBG:
                    print('NOTSUM', seg, d, file=__import__('sys').stderr)
                return removal(ip, seg, d)
    return True


def removal(ip, seg, d):
    return False


def collect(ip, seg, outs):
    """per written location, the templates of what each outcome does"""
    locs = {}
    for o in outs:
        for d in effects(ip, o):
            locs.setdefault((d[0], id(d[1]), d[2]), []).append((o, d))
    return locs


def build_templates(ip, seg, outs):
    """location -> ('append'|'delta'|'ropeapp', Tmpl) merged over the outcomes"""
    locs = collect(ip, seg, outs)
    res = []
    rec = outs[0].sig[1]
    facts = []
    for o in outs:
        facts.extend(o.facts)
    for k, lst in locs.items():
        kind, cont, key = lst[0][1][0], lst[0][1][1], lst[0][1][2]
        cls = None
        vals = []
        for o in outs:
            hit = [d for (oo, d) in lst if oo is o]
            if hit:
                ck, v = classify(ip, seg, hit[0])
                if cls is None:
                    cls = ck
                elif cls != ck:
                    if {cls, ck} != {cls}:
                        raise Undecided('loop writes %s in different ways' % (key,))
                vals.append((o, v))
            else:
                vals.append((o, None))
        vals = [(conj(o.conds) if o.conds else z3.BoolVal(True), v) for o, v in vals]
        if cls == 'filter':
            if not isinstance(rec.value, IObj):
                raise Undecided('removal of values while iterating')
            t = Tmpl(rec, boolv(z3.simplify(z3.And([z3.Implies(p, v) for p, v in vals if v is not None]))), facts)
        elif cls in ('append', 'listext'):
            items = []
            if len(vals) == 1:
                items = list(vals[0][1])
            else:
                same = all(v is not None and len(v) == len(vals[0][1] or []) and all(a is b for a, b in zip(v, vals[0][1])) for _, v in vals)
                gen = None if same else general_value(ip, vals)
                if same:
                    items = list(vals[0][1])
                elif gen is not None:
                    items = list(gen)
                else:
                    for p, v in vals:
                        for x in (v or []):
                            items.append(CondItem(p, x))
            mark_body(items)
            t = Tmpl(rec, tuple(items), facts)
        elif cls == 'delta':
            e = zi(vals[-1][1]) if vals[-1][1] is not None else z3.IntVal(0)
            for p, v in reversed(vals[:-1]):
                e = z3.If(p, zi(v) if v is not None else z3.IntVal(0), e)
            t = Tmpl(rec, num(z3.simplify(e)), facts)
        else:
            kd = kind_of([v for _, v in vals if v is not None][0])
            if len(vals) == 1:
                r = vals[0][1]
            else:
                segs = []
                for p, v in vals:
                    if v is not None and segs_of(v):
                        segs.append(CondA(p, Rope(kd, segs_of(v))))
                r = rope(kd, segs)
            t = Tmpl(rec, r, facts)
        res.append((kind, cont, key, cls, t))
    return res


def general_value(ip, vals):
    """one outcome's value that equals every other outcome's under that one's condition"""
    c = ip.ctx
    if any(v is None or len(v) != len(vals[0][1]) for _, v in vals):
        return None
    if any(not isinstance(x, (int, str, bytes, SNum, Rope, tuple, IObj)) for _, v in vals for x in v):
        return None
    for k in range(len(vals) - 1, -1, -1):
        g = vals[k][1]
        if all(v is g or all(implied_eq(ip, p, a, b) for a, b in zip(v, g)) for p, v in vals):
            return g
    return None


def implied_eq(ip, p, x, y, depth=0):
    """x equals y in every state where p holds"""
    c = ip.ctx
    if x is y:
        return True
    if isinstance(x, IObj) and isinstance(y, IObj):
        if depth > 4 or x.cls is not y.cls or set(x.attrs) != set(y.attrs):
            return False
        return all(implied_eq(ip, p, x.attrs[k], y.attrs[k], depth + 1) for k in x.attrs)
    if isinstance(x, IList) and isinstance(y, IList):
        return len(x.items) == len(y.items) and all(implied_eq(ip, p, a, b, depth + 1) for a, b in zip(x.items, y.items))
    if isinstance(x, IDict) and isinstance(y, IDict) and x.rest is None and y.rest is None:
        return len(x.ents) == len(y.ents) and all(implied_eq(ip, p, a, b, depth + 1) for e, f in zip(x.ents, y.ents) for a, b in zip(e, f))
    if isinstance(x, (IObj, IList, IDict, ISet, Maybe)) or isinstance(y, (IObj, IList, IDict, ISet, Maybe)):
        return False
    try:
        r = ip.eq(x, y)
    except Undecided:
        return False
    return r is True or (isinstance(r, SBool) and c.must(z3.Implies(p, r.e)))


def mark_body(items):
    """objects appended by the body and created in it are copied per element"""
    seen = set()

    def walk(v):
        if isinstance(v, CondItem):
            walk(v.v)
        elif isinstance(v, tuple):
            for x in v:
                walk(x)
        elif isinstance(v, (IObj, IList, ISet, IDict)) and id(v) not in seen:
            seen.add(id(v))
            if getattr(v, 'born', 0) > 0:
                v.in_body = True
                if isinstance(v, IObj):
                    for x in v.attrs.values():
                        walk(x)
                elif isinstance(v, IDict):
                    for x in v.ents:
                        walk(x)
                else:
                    for x in v.items:
                        walk(x)
    for i in items:
        walk(i)


def apply_templates(ip, seg, tmpls, state0=None):
    """state after the loop body ran for all elements of seg"""
    c = ip.ctx
    for kind, cont, key, cls, t in tmpls:
        old = container_state(kind, cont, key)
        if cls == 'filter':
            keep = be_(t.value)
            m = MapSeg(seg, Tmpl(t.rec, (CondItem(keep, t.rec.value),), t.facts))
            new = flatten(old)
            if sum(x is seg for x in new) != 1:
                raise Undecided('filtered list')
            ip.set_items(cont, [m if x is seg else x for x in new])
        elif cls == 'append':
            if t.value:
                ip.set_items(cont, list(old) + [MapSeg(seg, t)])
        elif cls == 'listext':
            apply_write(ip, kind, cont, key, IList(list(old.items) + ([MapSeg(seg, t)] if t.value else [])))
        elif cls == 'delta':
            apply_write(ip, kind, cont, key, num(zi(old) + seg.sumof(t)))
        else:
            v = norm(t.value)
            if segs_of(v):
                kd = kind_of(v)
                tt = Tmpl(t.rec, v, t.facts)
                apply_write(ip, kind, cont, key, rope(kd, segs_of(old) + (FlatA(seg, tt, kd),)))


def be_(v):
    return v.e if isinstance(v, SBool) else z3.BoolVal(bool(v))


def tmpl_equal(ip, a, b, rec, conds=()):
    """do two templates describe the same effect?"""
    c = ip.ctx
    va, vb = a.inst(rec), b.inst(rec)
    if isinstance(va, tuple):
        if len(va) != len(vb):
            return False
        for x, y in zip(va, vb):
            if isinstance(x, CondItem) != isinstance(y, CondItem):
                return False
            if isinstance(x, CondItem):
                if not c.must(x.p == y.p):
                    return False
                x, y = x.v, y.v
            if not struct_eq(ip, x, y):
                return False
        return True
    r = ip.eq(va, vb) if not (isinstance(va, Rope) or isinstance(vb, Rope)) else eq_rope(va, vb)
    return r is True or (isinstance(r, SBool) and c.must(r.e))


def struct_eq(ip, x, y, depth=0):
    c = ip.ctx
    if x is y:
        return True
    if depth > 6:
        return False
    if isinstance(x, IObj) and isinstance(y, IObj):
        if x.cls is not y.cls or set(x.attrs) != set(y.attrs):
            return False
        return all(struct_eq(ip, x.attrs[k], y.attrs[k], depth + 1) for k in x.attrs)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(struct_eq(ip, a, b, depth + 1) for a, b in zip(x, y))
    if isinstance(x, (IList, ISet)) and type(x) is type(y):
        return len(x.items) == len(y.items) and all(struct_eq(ip, a, b, depth + 1) for a, b in zip(x.items, y.items))
    if isinstance(x, IDict) and isinstance(y, IDict):
        return len(x.ents) == len(y.ents) and all(struct_eq(ip, a, b, depth + 1) for a, b in zip(x.ents, y.ents))
    if isinstance(x, Maybe) and isinstance(y, Maybe):
        return c.must(x.p == y.p) and struct_eq(ip, x.v, y.v, depth + 1)
    if isinstance(x, (IObj, IList, ISet, IDict, Maybe)) or isinstance(y, (IObj, IList, ISet, IDict, Maybe)):
        return False
    try:
        r = ip.eq(x, y)
    except Undecided:
        return False
    return r is True or (isinstance(r, SBool) and c.must(r.e))


def consumed_head(posts, old, new):
    """the rope lost exactly the encoding of the current element: new is what followed it"""
    ns = segs_of(new)
    if not ns or not isinstance(ns[0], FlatA) or not any(x is ns[0].seg for x in posts):
        return False
    os_ = segs_of(old)
    if len(os_) == len(ns) and isinstance(os_[0], FlatA):
        h, t = os_[0], os_[1:]
        return h.fn is ns[0].fn and all(a is b for a, b in zip(t, ns[1:]))
    t = os_[-len(ns):]
    return len(t) == len(ns) and isinstance(t[0], FlatA) and t[0].seg is ns[0].seg and t[0].fn is ns[0].fn and all(a is b for a, b in zip(t[1:], ns[1:]))


def mid_setup(ip, seg, tmpls, drops=()):
    """set the state after an arbitrary prefix of seg was processed; returns setup(rec)"""
    def setup(rec):
        pre = seg.child('<')
        post = seg.child('>')
        if seg.key is not None:
            kv = seg.key(rec.value)
            pre.excl = pre.excl + [kv]
            post.excl = post.excl + [kv]
        seg.set_refined([pre, rec, post])
        for kind, cont, key, cls, t in drops:
            # the bytes of the prefix are gone
            old = container_state(kind, cont, key)
            h = segs_of(old)[0]
            drops.posts.append(post)
            apply_write(ip, kind, cont, key, Rope(old.kind, tuple(segs_of(h.fn.inst(rec))) + (FlatA(post, h.fn, h.kind),) + tuple(segs_of(old)[1:])))
        for kind, cont, key, cls, t in tmpls:
            old = container_state(kind, cont, key)
            if cls == 'filter':
                new = []
                for x in old:
                    new.extend([FAcc(seg), rec.value, post] if x is seg else [x])
                ip.set_items(cont, new)
            elif cls == 'append':
                ip.set_items(cont, list(old) + [Acc(MapSeg(pre, t) if t.value else None)])
            elif cls == 'listext':
                apply_write(ip, kind, cont, key, IList(list(old.items) + [Acc()]))
            elif cls == 'delta':
                apply_write(ip, kind, cont, key, num(zi(old) + pre.sumof(t)))
            else:
                kd = kind_of(t.value) or kind_of(old)
                if segs_of(norm(t.value)):
                    apply_write(ip, kind, cont, key, rope(kd, segs_of(old) + (FlatA(pre, t, kd),)))
    return setup


def summarise(ip, seg, src, body, normal, forbid):
    """all outcomes continue the loop and their effects accumulate"""
    c = ip.ctx
    tmpls = build_templates(ip, seg, normal)
    check_inductive(ip, seg, src, body, tmpls, normal, forbid)
    for o in normal:
        poison_dead(ip, o)
    apply_templates(ip, seg, tmpls)


def poison_dead(ip, o):
    c = ip.ctx
    for kind, cont, key, old, new in o.diffs:
        if kind == 'local' and is_dead(ip, (kind, cont, key, old, new)):
            c.log('local', cont, key, cont.get(key, ABSENT))
            cont[key] = Poison('loop variable %s' % key)


def check_inductive(ip, seg, src, body, tmpls, normal, forbid, allow_exit=False):
    """re-run a generic iteration after an arbitrary processed prefix: same effects"""
    c = ip.ctx
    mark = len(c.journal)
    # loop-local variables assigned by the body hold unknown values at the loop head
    for o in normal:
        poison_dead(ip, o)
    setup = mid_setup(ip, seg, tmpls)
    outs2 = probe_rec(ip, seg, src, body, setup)
    c.rollback(mark)
    n2 = [o for o in outs2 if o.kind == 'normal']
    if len(n2) != len(outs2) and not allow_exit:
        raise Undecided('loop may exit early after some iterations')
    if not n2:
        return
    t2 = build_templates(ip, seg, n2)
    if forbid is not None:
        for x in tmpls:
            if x[1] is forbid:
                raise Undecided('list modified while iterated')
    k1 = {(a[0], id(a[1]), a[2]): a for a in tmpls}
    k2 = {(a[0], id(a[1]), a[2]): a for a in t2}
    if set(k2) - set(k1):
        raise Undecided('loop effects differ between iterations')
    for k in k1:
        if k not in k2:
            raise Undecided('loop effects differ between iterations')
        if k1[k][3] != k2[k][3] or not tmpl_equal(ip, k1[k][4], k2[k][4], n2[0].sig[1]):
            if DBG:
                print('DIFF', k1[k][3:], k1[k][4].value, k2[k][4].value, [(x.p, x.v) for a in (k1, k2) for x in a[k][4].value if isinstance(x, CondItem)], file=__import__('sys').stderr)
            raise Undecided('loop effect on %r differs between iterations' % (k[2],))


def cond_tmpl(ip, outs):
    rec = outs[0].sig[1]
    facts = []
    for o in outs:
        facts.extend(o.facts)
    return Tmpl(rec, boolv(z3.Or([conj(o.conds) if o.conds else z3.BoolVal(True) for o in outs])), facts)


def exit_split(ip, seg, src, body, forbid, outs, normal, exits, depth):
    """some element may leave the loop"""
    c = ip.ctx
    tmpls = build_templates(ip, seg, normal) if normal else []
    if tmpls:
        check_inductive(ip, seg, src, body, tmpls, normal, forbid, allow_exit=True)
    d = c.choose(2, 'loop exit')
    if d == 0:
        if not normal:
            c.assume(seg.n == 0)
            seg.set_refined([])
            return
        seg.add_pred(cond_tmpl(ip, normal))
        for o in normal:
            poison_dead(ip, o)
        apply_templates(ip, seg, tmpls)
        return
    pre, rec, post = seg.split()
    if normal:
        pre.add_pred(cond_tmpl(ip, normal))
    else:
        c.assume(pre.n == 0)
        pre.set_refined([])
    c.assume(boolv_e(cond_tmpl(ip, exits).inst(rec)))
    if not c.feasible():
        raise PathAbort()
    for o in normal:
        poison_dead(ip, o)
    apply_templates(ip, pre, tmpls)
    run_rec(ip, seg, src, rec, body)
    raise Undecided('loop exit mismatch')


def boolv_e(v):
    return v.e if isinstance(v, SBool) else z3.BoolVal(bool(v))


def split_first(ip, seg, src, body, forbid, outs, inert, eff, exits, depth):
    """split at the first element whose iteration has an effect that cannot be summarised
    (or leaves the loop); the loop continues over the rest"""
    c = ip.ctx
    if depth > 3:
        raise Undecided('loop effects cannot be summarised')
    active = eff + exits
    d = c.choose(2, 'first active element')
    if d == 0:
        if not inert:
            c.assume(seg.n == 0)
            seg.set_refined([])
            return
        seg.add_pred(cond_tmpl(ip, inert))
        poison_locals_new(ip, outs)
        return
    pre, rec, post = seg.split()
    if inert:
        pre.add_pred(cond_tmpl(ip, inert))
    else:
        c.assume(pre.n == 0)
        pre.set_refined([])
    c.assume(boolv_e(cond_tmpl(ip, active).inst(rec)))
    if not c.feasible():
        raise PathAbort()
    poison_locals_new(ip, outs)
    before = forbid.items if forbid is not None else None
    run_rec(ip, seg, src, rec, body)
    if forbid is not None and forbid.items is not before:
        raise Undecided('list modified while iterated')
    loop_seg(ip, post, MapSeg(post, src.tmpl) if isinstance(src, MapSeg) else None, body, forbid, depth + 1)


def poison_locals_new(ip, outs):
    for o in outs:
        poison_dead(ip, o)


# ---------------------------------------------------------------- while loops
def run_while(ip, fr, s):
    c = ip.ctx
    n = 0
    nsym = 0
    while True:
        if ip.engine.merge and cond_head_rule(ip, fr, s):
            continue
        omark = len(c.opened)
        before = dict(fr.locals)
        if n >= (ip.engine.widen_after or 0) and unknown_membership(ip, fr, s.test):
            return widen(ip, fr, s)
        t = ip.truth(ip.eval(fr, s.test))
        npc = len(c.pc)
        if not isinstance(t, bool):
            if nsym == ip.engine.widen_after:
                return widen(ip, fr, s)
            nsym += 1
            t = c.branch(t.e)
        if not t:
            break
        try:
            ip.exec_block(fr, s.body)
        except BrkSig:
            return
        except CntSig:
            pass
        n += 1
        if len(c.pc) > npc and t is True and isinstance(s.test, ast.Constant):
            nsym += 1          # endless loop left by a symbolic break
        if nsym > ip.engine.max_unroll or (isinstance(s.test, ast.Constant) and nsym > 5):
            return widen(ip, fr, s)
        if n > 4000 or nsym > ip.engine.max_unroll:
            raise Undecided('while loop needs an invariant')
        new = c.opened[omark:]
        if new:
            seg, rec, rest = new[-1]
            if len(new) == 1 and rest.refined is None and rest.gen is seg.gen:
                consume_rule(ip, fr, s, rest)
    ip.exec_block(fr, s.orelse)


def unknown_membership(ip, fr, test):
    """the loop test asks whether something is in a collection of unknown size"""
    for n in ast.walk(test):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            e = n.comparators[0]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'keys' and not e.args:
                e = e.func.value
            if all(isinstance(x, (ast.Name, ast.Attribute, ast.expr_context)) for x in ast.walk(e)):
                v = ip.eval(fr, e)
                if isinstance(v, IDict) and any(is_seg(x) for x in flatten(v.ents)) or isinstance(v, (IList, ISet)) and any(is_seg(x) for x in flatten(v.items)):
                    return True
    return False


def widen(ip, fr, s):
    """invariant inference for a loop over numbers, flags and byte strings: replace everything the
    loop assigns (locals and object attributes) by an arbitrary value satisfying the candidate
    invariants that are inductive, then leave the loop from there (the back edge is covered by
    induction).  Candidates: lower bounds of numbers, some upper bounds, constant differences of numbers, unchanged
    flags, the loop test weakened to <=, a reading position within its stream, and byte strings that
    grew by exactly the bytes read from the stream since the loop began."""
    c = ip.ctx
    inside = c.__dict__.get('widening', 0)
    if c.depth > inside:
        # fresh values chosen on one branch of a merge, or in a generic iteration, would be shared
        raise Undecided('a loop with an inferred invariant inside a merged branch or a generic iteration')

    def run_test():
        if not ip.test(ip.eval(fr, s.test)):
            raise BrkSig()

    def one():
        run_test()
        ip.exec_block(fr, s.body)

    def get(k):
        return container_state(*k)

    def put(k, v):
        kind, cont, key = k
        if kind == 'local':
            ip.set_local(fr, key, v)
        else:
            ip.set_attr_raw(cont, key, v)

    def wprobe(fn):
        c.widening = c.depth + 1
        try:
            return probe(ip, fn)
        finally:
            c.widening = inside

    vars_ = {}          # (kind, id, key) -> ((kind, cont, key), type, entry value)

    def note(outs):
        new = False
        for o in outs:
            for kind, cont, key, old, val in o.diffs:
                if kind == 'local' and cont is c.overlay and key == ('ndraw',):
                    continue
                if not (kind == 'local' and cont is fr.locals or kind == 'attr'):
                    raise Undecided('while loop needs an invariant')
                k = (kind, id(cont), key)
                if k in vars_:
                    continue
                new = True
                v = container_state(kind, cont, key)
                if v is ABSENT or isinstance(v, Poison):
                    t = 'p'
                elif isinstance(v, (bool, SBool)):
                    t = '?'
                elif isinstance(v, (int, SNum)):
                    t = 'n'
                elif kind_of(v):
                    t = kind_of(v)
                else:
                    raise Undecided('while loop needs an invariant (%s)' % (key,))
                vars_[k] = ((kind, cont, key), t, v)
        return new
    note(wprobe(one))
    cands = None

    uppers = sorted({65534, 65535, 268435455} | {n.value for n in ast.walk(s) if isinstance(n, ast.Constant) and type(n.value) is int})

    def initial():
        out = []
        nums = [k for k, (_, t, v) in vars_.items() if t == 'n']
        streams = []
        for k in nums:
            loc, _, v = vars_[k]
            v = zi(v)
            kc = as_const(v)
            for lo in (sorted({kc, min(kc, 0)}) if kc is not None and kc > 0 else [kc] if kc is not None else [b for b in (0, 1) if c.must(v >= b)]):
                out.append(('lo', k, lo))
            if kc is None:
                out.append(('lo', k, v))
            for hi in uppers:
                if c.must(v <= hi):
                    out.append(('hi', k, hi))
            if loc[0] == 'attr' and loc[2] == 'pos' and kind_of(loc[1].attrs.get('data')) == 'b':
                streams.append(k)
                out.append(('in', k, ropes.rlen(norm(loc[1].attrs['data']))))
        for i, k in enumerate(nums):
            for k2 in nums[i + 1:]:
                out.append(('diff', k, k2, z3.simplify(zi(vars_[k][2]) - zi(vars_[k2][2]))))
        for k, (_, t, v) in vars_.items():
            if t == '?' and isinstance(v, bool):
                out.append(('same', k, v))
            if t == 'b':
                for q in streams:
                    out.append(('read', k, q))
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq)):
            out.append(('test', isinstance(t.ops[0], ast.Gt)))
        return out

    def read_value(k, q):
        loc = vars_[q][0]
        d = norm(loc[1].attrs['data'])
        p0, p = vars_[q][2], loc[1].attrs['pos']
        return ropes.concat(vars_[k][2], ropes.slice_(d, p0, p))

    def formula(cd):
        """the candidate in the current state, or None where it makes no sense"""
        if cd[0] == 'test':
            l, r = ip.eval(fr, s.test.left), ip.eval(fr, s.test.comparators[0])
            if not isinstance(l, (int, SNum)) or not isinstance(r, (int, SNum)):
                return None
            return zi(l) >= zi(r) if cd[1] else zi(l) <= zi(r)
        v = get(vars_[cd[1]][0])
        if cd[0] in ('lo', 'hi', 'in', 'diff'):
            if not isinstance(v, (int, SNum)):
                return None
            if cd[0] == 'lo':
                return zi(v) >= cd[2]
            if cd[0] in ('hi', 'in'):
                return zi(v) <= cd[2]
            w = get(vars_[cd[2]][0])
            if not isinstance(w, (int, SNum)):
                return None
            return zi(v) - zi(w) == cd[3]
        if cd[0] == 'same':
            e = v.e if isinstance(v, SBool) else z3.BoolVal(v) if isinstance(v, bool) else None
            return None if e is None else e if cd[2] else z3.Not(e)
        if kind_of(v) != 'b':
            return None
        try:
            e = ropes.eq_rope(v, read_value(cd[1], cd[2]))
        except Undecided:
            return None
        return e.e if isinstance(e, SBool) else z3.BoolVal(e)

    def havoc():
        reads = {cd[1]: cd[2] for cd in cands if cd[0] == 'read'}
        for k, (loc, t, v) in vars_.items():
            nm = 'w:%s' % (loc[2],)
            if t == 'n':
                put(loc, SNum(z3.Int(c.fresh(nm))))
            elif t == 'b':
                if k in reads:
                    continue
                arr = z3.Array(c.fresh(nm), I, I)
                n = z3.Int(c.fresh('w:len'))
                c.fact(n >= 0)
                put(loc, Rope('b', (BVar(c.fresh(nm), arr, z3.IntVal(0), n),)))
            elif t == 's':
                put(loc, ip.opaque_str('w'))
            elif t == '?':
                put(loc, SBool(z3.Bool(c.fresh(nm))))
            else:
                put(loc, Poison('value computed in a loop'))
        for cd in cands:
            if cd[0] in ('lo', 'hi', 'in', 'diff', 'same'):
                c.assume(formula(cd))
        for k, q in reads.items():
            put(vars_[k][0], read_value(k, q))
        for cd in cands:
            if cd[0] == 'test':
                f = formula(cd)
                if f is not None:
                    c.assume(f)

    def holds(cd):
        f = formula(cd)
        return f is not None and (z3.is_true(z3.simplify(f)) or c.must(f))
    cands = [cd for cd in initial() if holds(cd)]
    for _ in range(14):
        if DBG: print('CANDS', fr.fname, s.lineno, [(x[0],)+tuple(str(y)[:60] for y in x[1:]) for x in cands], [(k[2],t,v) for k,(l,t,v) in vars_.items()])
        drop = []

        def step():
            havoc()
            one()
            for cd in cands:
                if not any(cd is d for d in drop) and not holds(cd):
                    drop.append(cd)
        if note(wprobe(step)):
            cands = [cd for cd in initial() if holds(cd)]
            continue
        if not drop:
            break
        cands = [cd for cd in cands if not any(cd is d for d in drop)]
    else:
        raise Undecided('while loop needs an invariant')
    havoc()
    ip.engine.res.__dict__.setdefault('widened', set()).add('%s:%d' % (fr.fname, s.lineno))
    try:
        if not ip.test(ip.eval(fr, s.test)):
            ip.exec_block(fr, s.orelse)
            return
        ip.exec_block(fr, s.body)
    except BrkSig:
        return
    except CntSig:
        pass
    raise PathAbort()        # back edge: covered by the invariant


def consume_rule(ip, fr, s, rest):
    """the loop consumes the elements of `rest` one per iteration: jump to the state where
    all of them were consumed, after checking that a generic iteration does the same from
    the state after an arbitrary prefix"""
    c = ip.ctx
    if as_const(rest.n) == 0:
        return

    def body(_v):
        t = ip.truth(ip.eval(fr, s.test))
        if not isinstance(t, bool):
            t = c.branch(t.e)
        if not t:
            raise BrkSig()
        ip.exec_block(fr, s.body)

    class Drops(list):
        pass
    posts = []

    def setup_first(rec):
        post = rest.child('>')
        posts.append(post)
        if rest.key is not None:
            post.excl = post.excl + [rest.key(rec.value)]
        rest.set_refined([rec, post])
    outs = probe_rec(ip, rest, None, body, setup_first)
    if not outs:
        return
    if any(o.kind != 'normal' for o in outs):
        return
    if any(o.opened for o in outs):
        return
    dead = assigned_first(s.body, None)
    tmpls = build_consume(ip, rest, outs, posts, (fr.locals, dead))
    if tmpls is None:
        return
    mark = len(c.journal)
    for o in outs:
        poison_dead2(ip, o, tmpls)
    dropped = Drops(t for t in tmpls if t[3] == 'drop')
    dropped.posts = posts
    setup = mid_setup(ip, rest, [t for t in tmpls if t[3] != 'drop'], dropped)
    outs2 = probe_rec(ip, rest, None, body, setup)
    c.rollback(mark)
    if any(o.kind != 'normal' or o.opened for o in outs2) or not outs2:
        raise Undecided('consuming loop is not inductive')
    t2 = build_consume(ip, rest, outs2, posts, (fr.locals, dead))
    if t2 is None:
        raise Undecided('consuming loop is not inductive')
    k1 = {(a[0], id(a[1]), a[2]): a for a in tmpls}
    k2 = {(a[0], id(a[1]), a[2]): a for a in t2}
    if set(k1) != set(k2):
        raise Undecided('consuming loop is not inductive (write sets)')
    for k in k1:
        if k1[k][3] != k2[k][3]:
            raise Undecided('consuming loop is not inductive (%s)' % (k[2],))
        if k1[k][3] != 'drop' and not tmpl_equal(ip, k1[k][4], k2[k][4], outs2[0].sig[1]):
            raise Undecided('consuming loop is not inductive (%s)' % (k[2],))
    for o in outs:
        poison_dead2(ip, o, tmpls)
    drops = [t for t in tmpls if t[3] == 'drop']
    apply_templates(ip, rest, [t for t in tmpls if t[3] != 'drop'])
    for kind, cont, key, cls, t in drops:
        old = container_state(kind, cont, key)
        apply_write(ip, kind, cont, key, drop_head(old, rest))


def drop_head(v, seg):
    v = norm(v)
    segs = list(v.segs)
    if segs and isinstance(segs[0], FlatA) and segs[0].seg is seg:
        return rope(v.kind, segs[1:])
    raise Undecided('consumed rope head')


def poison_dead2(ip, o, tmpls):
    c = ip.ctx
    keys = {(a[0], id(a[1]), a[2]) for a in tmpls}
    for kind, cont, key, old, new in o.diffs:
        if kind == 'local' and (kind, id(cont), key) not in keys:
            c.log('local', cont, key, cont.get(key, ABSENT))
            cont[key] = Poison('loop variable %s' % key)


def build_consume(ip, seg, outs, posts, dead=(None, ())):
    """like build_templates, also recognising ropes whose head element was consumed;
    loop-local temporaries that differ are left to be poisoned"""
    c = ip.ctx
    good = []
    locs = {}
    for o in outs:
        for d in o.diffs:
            locs.setdefault((d[0], id(d[1]), d[2]), d)
    keep = {}
    for k, d in locs.items():
        kind, cont, key, old, new = d
        if kind == 'local' and cont is dead[0] and key in dead[1]:
            continue
        if kind in ('local', 'attr') and isinstance(old, Rope) and consumed_head(posts, old, new):
            keep[k] = ('drop', d)
            continue
        cl = classify(ip, seg, d)[0]
        if cl == 'other':
            if kind == 'local':
                continue          # temporary: poisoned, must not be read before being written
            return None
        if kind == 'local' and cl in ('delta', 'ropeapp') and not stable(ip, seg, outs, k):
            continue
        keep[k] = (cl, d)
    filt = []
    for o in outs:
        o2 = Outcome()
        o2.kind, o2.conds, o2.sig, o2.facts, o2.opened = o.kind, o.conds, o.sig, o.facts, o.opened
        o2.diffs = [d for d in o.diffs if keep.get((d[0], id(d[1]), d[2]), ('', 0))[0] in ('append', 'delta', 'ropeapp', 'listext')]
        filt.append(o2)
    res = build_templates(ip, seg, filt)
    for k, (cl, d) in keep.items():
        if cl == 'drop':
            res.append((d[0], d[1], d[2], 'drop', None))
    return res


def stable(ip, seg, outs, k):
    return getattr(seg, 'unstable', None) is None or k not in seg.unstable


def cond_head_rule(ip, fr, s):
    """a rope variable starts with a segment that is present only when p: execute the
    iterations that consume it under p, skip them otherwise, and merge"""
    c = ip.ctx
    for name, v in list(fr.locals.items()):
        if not isinstance(v, Rope) or v.kind != 'b':
            continue
        v = norm(v)
        if not isinstance(v, Rope):
            continue
        h = v.segs[0]
        if not isinstance(h, CondA):
            continue
        p = h.p
        tail = rope('b', v.segs[1:])

        def run():
            if not c.branch(p):
                ip.set_local(fr, name, tail)
                return
            k = 0
            while True:
                now = norm(fr.locals.get(name))
                if same_rope(now, tail):
                    return
                t = ip.truth(ip.eval(fr, s.test))
                if not isinstance(t, bool):
                    t = c.branch(t.e)
                if not t:
                    raise BrkSig()
                omark = len(c.opened)
                try:
                    ip.exec_block(fr, s.body)
                except CntSig:
                    pass
                new = c.opened[omark:]
                if new and new[-1][2].refined is None:
                    consume_rule(ip, fr, s, new[-1][2])
                k += 1
                if k > 8:
                    raise MergeFail()
        mark = len(c.journal)
        try:
            outs = probe(ip, run, limit=12)
            outs = [o for o in outs]
            if not outs or any(o.kind != 'normal' for o in outs):
                c.branch(p)
                return False
            if len(outs) == 1:
                c.branch(p)
                return False
            writes = fold_outcomes(ip, outs)
        except MergeFail:
            c.rollback(mark)
            c.branch(p)
            return False
        for kind, cont, key, val in writes:
            apply_write(ip, kind, cont, key, val)
        return True
    return False


def same_rope(a, b):
    sa, sb = segs_of(a), segs_of(b)
    return len(sa) == len(sb) and all(x is y or (isinstance(x, (bytes, str)) and x == y) or
                                      (isinstance(x, Cell) and isinstance(y, Cell) and x.e.eq(y.e)) or
                                      (isinstance(x, BVar) and isinstance(y, BVar) and x.name == y.name and
                                       as_const(zi(x.off) - zi(y.off)) == 0 and as_const(zi(x.n) - zi(y.n)) == 0)
                                      for x, y in zip(sa, sb))


# ---------------------------------------------------------------- comprehensions
def comp_items(ip, fr, n):
    from .interp import Frame
    acc = IList()
    f2 = Frame(fr.globals, fr, fr.cls, fr.fname + '.<comp>', fr.modname)
    gens = n.generators

    def level(i):
        if i == len(gens):
            v = ip.eval(f2, n.elt)
            ip.set_items(acc, acc.items + [v])
            return
        g = gens[i]
        it = ip.eval(f2 if i else fr, g.iter)

        def body(v):
            ip.assign(f2, g.target, v)
            for cnd in g.ifs:
                if not ip.test(ip.eval(f2, cnd)):
                    forget()
                    return
            level(i + 1)
            forget()

        def forget():
            for nm in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]:
                if nm in f2.locals:
                    ip.ctx.log('local', f2.locals, nm, f2.locals[nm])
                    del f2.locals[nm]
        iterate(ip, it, body)
    level(0)
    return acc.items


# ---------------------------------------------------------------- membership, equality
def contains_items(ip, items, x):
    """is x among the items -> bool (forks on unknown-length parts)"""
    c = ip.ctx
    conds = []
    flat = flatten(items)
    segs = []
    for it in flat:
        if isinstance(it, Acc) and it.content is not None:
            segs.append(it.content)
            continue
        if isinstance(it, Acc):
            raise Undecided('membership in a collection being built by a summarised loop')
        if is_seg(it):
            segs.append(it)
            continue
        if isinstance(it, CondItem):
            r = ip.eq(it.v, x)
            e = r.e if isinstance(r, SBool) else z3.BoolVal(r)
            conds.append(z3.And(it.p, e))
            continue
        r = ip.eq(it, x)
        if r is True:
            return True
        if isinstance(r, SBool):
            conds.append(r.e)
    if not segs:
        if not conds:
            return False
        return boolv(z3.Or(conds))
    if conds and c.branch(z3.Or(conds)):
        return True
    for s in segs:
        if find_in_seg(ip, s, lambda v: ip.eq(v, x), keyval=x) is not None:
            return True
    return False


def find_in_seg(ip, s, cond, keyval=None):
    """fork: no element satisfies cond (None), or a first one does (returned, segment split)"""
    c = ip.ctx
    base = base_of(s)

    def body(v):
        r = cond(v)
        if isinstance(r, SBool):
            r = c.branch(r.e)
        if r:
            raise RetSig(v)
    try:
        loop_seg(ip, base, s if isinstance(s, MapSeg) else None, body)
    except RetSig as r:
        return (r.v,)
    return None


def eq_seqs(ip, xs, ys):
    c = ip.ctx
    xs, ys = flatten(xs), flatten(ys)
    conds = []
    i = 0
    while xs and ys:
        a, b = xs[0], ys[0]
        if is_seg(a) or is_seg(b):
            if is_seg(a) and is_seg(b) and base_of(a) is base_of(b):
                if isinstance(a, Seg) and isinstance(b, Seg):
                    pass
                elif not mapseg_equal(ip, a, b):
                    raise Undecided('segments not provably equal')
                xs.pop(0)
                ys.pop(0)
                continue
            # a segment known to be empty may be skipped
            if is_seg(a) and c.must(count(a) == 0):
                xs.pop(0)
                continue
            if is_seg(b) and c.must(count(b) == 0):
                ys.pop(0)
                continue
            raise Undecided('cannot align sequences of unknown length')
        if isinstance(a, CondItem) or isinstance(b, CondItem):
            if isinstance(a, CondItem) and isinstance(b, CondItem):
                r = ip.eq(a.v, b.v)
                if r is not False:
                    e = r.e if isinstance(r, SBool) else z3.BoolVal(True)
                    conds.append(z3.And(a.p == b.p, z3.Implies(a.p, e)))
                    xs.pop(0)
                    ys.pop(0)
                    continue
            for side in (xs, ys):
                if isinstance(side[0], CondItem):
                    it = side.pop(0)
                    if c.branch(it.p):
                        side.insert(0, it.v)
                    break
            continue
        r = ip.eq(a, b)
        if r is False:
            # with segments still to come the sequences may still differ in length only
            return False
        if isinstance(r, SBool):
            conds.append(r.e)
        xs.pop(0)
        ys.pop(0)
    rest = xs or ys
    for it in rest:
        if is_seg(it):
            conds.append(count(it) == 0)
        elif isinstance(it, CondItem):
            conds.append(z3.Not(it.p))
        else:
            return False
    if not conds:
        return True
    return boolv(z3.And(conds))


def mapseg_equal(ip, a, b):
    c = ip.ctx
    base = base_of(a)
    rec = base.make()

    res = []

    def chk():
        base.constrain(rec)

        def items(s):
            return settle(list(s.tmpl.inst(rec))) if isinstance(s, MapSeg) else [rec.value]
        xa, xb = items(a), items(b)
        if DBG: print("MSEQ", xa, xb, a.tmpl.value if isinstance(a, MapSeg) else a, [z.p for z in (a.tmpl.value if isinstance(a, MapSeg) else ()) + (b.tmpl.value if isinstance(b, MapSeg) else ()) if isinstance(z, CondItem)], c.pc[-3:])
        r = eq_seqs(ip, xa, xb)
        ok = r is True or (isinstance(r, SBool) and c.must(r.e))
        res.append(ok)
    probe(ip, chk)
    return all(res)


def flat_equal(a, b):
    """equality formula of two FlatA, or None"""
    c = cur()
    ip = c.interp
    if a.seg is not b.seg:
        return None
    rec = a.seg.make()
    res = []

    def chk():
        a.seg.constrain(rec)
        r = eq_rope(a.fn.inst(rec), b.fn.inst(rec))
        res.append(r is True or (isinstance(r, SBool) and c.must(r.e)))
    probe(ip, chk)
    return z3.BoolVal(True) if all(res) else None
