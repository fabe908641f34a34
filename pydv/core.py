"""Symbolic values, path exploration and solver access for pydv.

pydv is a small deductive verifier for the Python in /repo: it interprets the
AST of the real functions (read from /repo on every run) over symbolic values
and discharges proof obligations with z3.  Exploration is by re-execution: one
run of a contract follows one path, chosen by a list of decisions; every
feasible decision list is run.  Loops over collections of unknown length are
summarised from one generic iteration (see loops.py), never unrolled.
"""
import z3

StrSort = z3.DeclareSort('Str')
I = z3.IntSort()


class Undecided(Exception):
    """The verifier cannot decide: construct outside its subset, or solver gave up."""


class PathAbort(Exception):
    """This path is infeasible (an assumption contradicts the path condition)."""


class MergeFail(Exception):
    pass


def born():
    c = _ctx[0]
    return c.in_body if c is not None else 0


_serial = [0]


def serial():
    """creation order of interpreted objects: objects created inside a probe are private to it"""
    _serial[0] += 1
    return _serial[0]


class Locals(dict):
    """local variables of one activation"""
    __slots__ = ('sn',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.sn = serial()


# ---------------------------------------------------------------- values
class SNum:
    """symbolic number (z3 Int or Real term)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SNum(%s)' % self.e


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SBool(%s)' % self.e


class Poison:
    """value that depends on how many times a summarised loop ran; reading it is undecided"""

    def __init__(self, why='loop-carried value'):
        self.why = why


class Choice(Poison):
    """one of several values, by the path that was taken: ((condition, value), ..., (True, value)); reading it decides which"""

    def __init__(self, alts):
        self.why = 'local assigned differently on merged paths'
        self.alts = alts


class Maybe:
    """conditional attribute: present exactly when p"""
    __slots__ = ('p', 'v')

    def __init__(self, p, v):
        self.p, self.v = p, v


class IObj:
    """an instance of a class of the code under verification"""
    _n = 0

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.born = born()
        self.sn = serial()

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, list(self.attrs))


class IList:
    def __init__(self, items=()):
        self.items = list(items)
        self.born = born()
        self.sn = serial()

    def __repr__(self):
        return 'IList(%r)' % (self.items,)


class IDict:
    """ents: list of (key, value); rest: optional DictRest (entries not materialised)"""

    def __init__(self, ents=(), rest=None):
        self.ents = list(ents)
        self.rest = rest
        self.born = born()
        self.sn = serial()

    def __repr__(self):
        return 'IDict(%r, rest=%r)' % (self.ents, self.rest)


class ISet:
    def __init__(self, items=()):
        self.items = list(items)
        self.born = born()
        self.sn = serial()

    def __repr__(self):
        return 'ISet(%r)' % (self.items,)


class IFunc:
    def __init__(self, node, frame, mod, cls, name, defaults=(), kwdefaults=None):
        self.node, self.frame, self.mod, self.cls, self.name = node, frame, mod, cls, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return '<IFunc %s>' % self.name


class IBound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __repr__(self):
        return '<IBound %r>' % (self.fn,)


class IModel:
    """method of a built-in type on a symbolic or interpreted receiver"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ISuper:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class IIter:
    """a materialised iterable (list of items, may contain segments)"""

    def __init__(self, items):
        self.items = list(items)


# exceptions of the interpreted program
class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc          # IObj whose cls is an exception class

    def __str__(self):
        return '%s%r' % (self.exc.cls.__name__, self.exc.attrs.get('args'))


class RetSig(Exception):
    def __init__(self, v):
        self.v = v


class BrkSig(Exception):
    pass


class CntSig(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    pass


class BVar(Atom):
    """slice [off, off+n) of an arbitrary byte array"""
    kind = 'b'

    def __init__(self, name, arr, off, n):
        self.name, self.arr, self.off, self.n = name, arr, off, n

    def key(self):
        return ('BVar', self.name)


class SVar(Atom):
    """opaque string given by a term of sort Str"""
    kind = 's'

    def __init__(self, term):
        self.term = term


class Utf8(Atom):
    """UTF-8 encoding of the string term"""
    kind = 'b'

    def __init__(self, term):
        self.term = term


class Tagged(Atom):
    """abstract encoding of a value, produced by a contract (codec) stub"""
    kind = 'b'

    def __init__(self, tag, value, n, mk=None):
        self.tag, self.value, self.n, self.mk = tag, value, n, mk

    @property
    def expand(self):
        return None if self.mk is None else (lambda: self.mk(self.value))


class Cell(Atom):
    """a single byte with symbolic value"""
    kind = 'b'

    def __init__(self, e):
        self.e = e


class CondA(Atom):
    """rope r if p else empty"""

    def __init__(self, p, r):
        self.p, self.r = p, r
        self.kind = r.kind


class FlatA(Atom):
    """concatenation of fn(e) for the elements e of an unknown-length segment"""

    def __init__(self, seg, fn, kind):
        self.seg, self.fn, self.kind = seg, fn, kind


class Rope:
    __slots__ = ('kind', 'segs')

    def __init__(self, kind, segs=()):
        self.kind = kind
        self.segs = tuple(segs)

    def __repr__(self):
        return 'Rope(%s,%r)' % (self.kind, self.segs)


strlen = z3.Function('strlen', StrSort, I)
utf8len = z3.Function('utf8len', StrSort, I)
utf8at = z3.Function('utf8at', StrSort, I, I)
strcat = z3.Function('strcat', StrSort, StrSort, StrSort)
strsub = z3.Function('strsub', StrSort, I, I, StrSort)
strfind = z3.Function('strfind', StrSort, StrSort, I, I)
strpre = z3.Function('strpre', StrSort, StrSort, z3.BoolSort())
strof = z3.Function('strof', z3.ArraySort(I, I), I, I, StrSort)     # decode(utf-8) of a slice
utf8ok = z3.Function('utf8ok', z3.ArraySort(I, I), I, I, z3.BoolSort())
bxor = z3.Function('bxor', I, I, I)
bor = z3.Function('bor', I, I, I)
band = z3.Function('band', I, I, I)


# ---------------------------------------------------------------- context
class Frame_:
    """one level of decisions (nested for probes)"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.work = []


CMPS = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '='}


class Ctx:
    def __init__(self, engine, prefix):
        self.engine = engine
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.timeout_ms)
        self.solver.set('random_seed', 0)
        self.frames = [Frame_(prefix)]
        self.known = {}
        self.keep = []
        self.facts = []
        self.pc = []
        self.journal = []
        self.n = 0
        self.lits = {}
        self.inputs = []
        self.done_facts = set()
        self.steps = 0
        self.overlay = {}
        self.modconv = {}
        self.notes = []
        self.depth = 0
        self.opened = []
        self.interp = None
        self.capture = None
        self.in_body = 0
        self.gen_depth = None
        self.bounds = {}

    # -- fresh names, facts
    def fresh(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def fact(self, e):
        if e is True:
            return
        self.solver.add(e)
        self.facts.append(e)
        self.note_bounds(e)

    def note_bounds(self, e):
        if not isinstance(e, z3.BoolRef):
            return
        if z3.is_and(e):
            for x in e.children():
                self.note_bounds(x)
            return
        neg = z3.is_not(e)
        if neg:
            e = e.arg(0)
        k = e.decl().kind() if z3.is_app(e) else None
        if k not in CMPS or e.num_args() != 2:
            return
        a, b = e.arg(0), e.arg(1)
        op = CMPS[k]
        if neg:
            op = {'<=': '>', '>=': '<', '<': '>=', '>': '<=', '=': None}[op]
        if op is None:
            return
        if z3.is_int_value(a) and not z3.is_int_value(b):
            a, b = b, a
            op = {'<=': '>=', '>=': '<=', '<': '>', '>': '<', '=': '='}[op]
        if not z3.is_int_value(b):
            return
        v = b.as_long()
        cell = self.bounds.setdefault(a.get_id(), [None, None])
        if op in ('>=', '>', '='):
            lo = v + (op == '>')
            cell[0] = lo if cell[0] is None else max(cell[0], lo)
        if op in ('<=', '<', '='):
            hi = v - (op == '<')
            cell[1] = hi if cell[1] is None else min(cell[1], hi)

    def interval(self, e, depth=0):
        """cheap sound bounds of an integer term"""
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        lo, hi = self.bounds.get(e.get_id(), (None, None))
        if depth > 60 or not z3.is_app(e):
            return lo, hi
        k = e.decl().kind()
        a = b = None
        if k == z3.Z3_OP_ADD:
            a = b = 0
            for x in e.children():
                l, h = self.interval(x, depth + 1)
                a = None if a is None or l is None else a + l
                b = None if b is None or h is None else b + h
                if a is None and b is None:
                    break
        elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            f = e.arg(0).as_long()
            l, h = self.interval(e.arg(1), depth + 1)
            if f < 0:
                l, h = h, l
            a = None if l is None else f * l
            b = None if h is None else f * h
        elif k == z3.Z3_OP_ITE:
            d = self.lookup(e.arg(0))
            if d is True:
                a, b = self.interval(e.arg(1), depth + 1)
            elif d is False:
                a, b = self.interval(e.arg(2), depth + 1)
            else:
                l1, h1 = self.interval(e.arg(1), depth + 1)
                l2, h2 = self.interval(e.arg(2), depth + 1)
                a = None if l1 is None or l2 is None else min(l1, l2)
                b = None if h1 is None or h2 is None else max(h1, h2)
        elif k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            a, b = 0, e.arg(1).as_long() - 1
        elif k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            f = e.arg(1).as_long()
            l, h = self.interval(e.arg(0), depth + 1)
            a = None if l is None else l // f
            b = None if h is None else h // f
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().name() in ('utf8len', 'strlen'):
            a = 0
        if a is not None:
            lo = a if lo is None else max(lo, a)
        if b is not None:
            hi = b if hi is None else min(hi, b)
        return lo, hi

    def quick(self, c):
        """decide a comparison from cheap bounds; None when it takes the solver"""
        neg = False
        while z3.is_not(c):
            neg = not neg
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        op = CMPS.get(c.decl().kind())
        if op is None or c.arg(0).sort() != I:
            return None
        lo, hi = self.interval(z3.simplify(c.arg(0) - c.arg(1)))
        r = None
        if op == '<=':
            r = True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
        elif op == '>=':
            r = True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
        elif op == '<':
            r = True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        elif op == '>':
            r = True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        elif op == '=':
            r = False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
        if r is None:
            return None
        return r != neg

    def fact_path(self, e):
        """a fact that belongs to the current (speculative) path only"""
        if e is not True:
            self.solver.add(e)

    def overlay_set(self, key, v):
        self.log('local', self.overlay, key, self.overlay.get(key, ABSENT))
        self.overlay[key] = v

    def fact_once(self, key, mk):
        if key in self.done_facts:
            return
        self.done_facts.add(key)
        self.fact(mk())

    # -- decisions
    def _check(self, e):
        self.engine.stats['solver_calls'] += 1
        import time
        t = time.time()
        r = self.solver.check(e)
        self.engine.stats['solver_s'] += time.time() - t
        return r

    def lookup(self, c):
        h = c.get_id()
        if h in self.known:
            return self.known[h]
        if z3.is_not(c):
            h = c.arg(0).get_id()
            if h in self.known:
                return not self.known[h]
        return None

    def note_known(self, c, d):
        if z3.is_not(c):
            c, d = c.arg(0), not d
        self.journal.append(('known', self.known, c.get_id(), self.known.get(c.get_id())))
        self.known[c.get_id()] = d
        self.keep.append(c)
        if d and z3.is_and(c):
            for a in c.children():
                self.note_known(a, True)
        if not d and z3.is_or(c):
            for a in c.children():
                self.note_known(a, False)

    def assume_raw(self, c, d):
        e = c if d else z3.Not(c)
        self.solver.add(e)
        self.pc.append(e)
        self.note_known(c, d)

    def branch(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, SBool):
            c = c.e
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.lookup(c)
        if k is not None:
            return k
        k = self.quick(c)
        if k is not None:
            return k
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
            fr.pos += 1
            self.assume_raw(c, d)
            return d
        t = self._check(c)
        f = self._check(z3.Not(c))
        ct = t != z3.unsat
        cf = f != z3.unsat
        if not ct and not cf:
            raise PathAbort()
        if ct and cf:
            if self.gen_depth == len(self.frames):
                raise Undecided('fork inside the generator of a collection')
            fr.work.append(fr.prefix[:fr.pos] + [False])
            d = True
        else:
            d = ct
        fr.prefix.append(d)
        fr.pos += 1
        self.assume_raw(c, d)
        return d

    def choose(self, n, why=''):
        """nondeterministic choice of 0..n-1"""
        if n == 1:
            return 0
        if self.gen_depth == len(self.frames):
            raise Undecided('choice inside the generator of a collection')
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            for i in range(n - 1, 0, -1):
                fr.work.append(fr.prefix[:fr.pos] + [i])
            d = 0
            fr.prefix.append(d)
        fr.pos += 1
        return d

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        if isinstance(c, SBool):
            c = c.e
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        k = self.lookup(c)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        self.assume_raw(c, True)

    def feasible(self):
        return self._check(z3.BoolVal(True)) != z3.unsat

    def must(self, c):
        """is c entailed by the path condition (decided)?"""
        if c is True or c is False:
            return c
        if isinstance(c, SBool):
            c = c.e
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.lookup(c)
        if k is not None:
            return k
        if self.quick(c) is True:
            return True
        return self._check(z3.Not(c)) == z3.unsat

    def may(self, c):
        return not self.must(z3.Not(c) if not isinstance(c, bool) else (not c))

    # -- journal (undo log) for speculative execution
    def log(self, kind, cont, key, old):
        self.journal.append((kind, cont, key, old))

    def rollback(self, mark):
        while len(self.journal) > mark:
            kind, cont, key, old = self.journal.pop()
            undo(kind, cont, key, old)

    # -- string literals
    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            t = z3.Const('lit:%d:%r' % (len(self.lits), s), StrSort)
            for s2, t2 in self.lits.items():
                self.fact(t != t2)
                self.fact(strpre(t, t2) == s.startswith(s2))
                self.fact(strpre(t2, t) == s2.startswith(s))
            self.lits[s] = t
            self.fact(strlen(t) == len(s))
            try:
                n = len(s.encode('utf-8'))
                self.fact(utf8len(t) == n)
            except UnicodeEncodeError:
                pass
        return t


class _Absent:
    def __repr__(self):
        return 'ABSENT'


ABSENT = _Absent()


def undo(kind, cont, key, old):
    if kind == 'attr':
        if old is ABSENT:
            cont.attrs.pop(key, None)
        else:
            cont.attrs[key] = old
    elif kind == 'items':
        cont.items = old
    elif kind == 'ents':
        cont.ents, cont.rest = old
    elif kind == 'local':
        if old is ABSENT:
            cont.pop(key, None)
        else:
            cont[key] = old
    elif kind == 'known':
        if old is None:
            cont.pop(key, None)
        else:
            cont[key] = old
    elif kind == 'call':
        cont(*key)


_ctx = [None]


def cur():
    return _ctx[0]


def set_cur(c):
    _ctx[0] = c
