"""Byte strings and strings of symbolic content and length."""
import z3
from .core import *
from . import core


def zi(x):
    """python number / SNum / SBool -> z3 term"""
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if x is True:
        return z3.IntVal(1)
    if x is False:
        return z3.IntVal(0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal(f)
    if isinstance(x, z3.ExprRef):
        return x
    raise Undecided('number expected, got %r' % (x,))


def num(e):
    """z3 term -> python int if constant, else SNum"""
    if isinstance(e, (int, float)):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e)


def as_const(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return None


def boolv(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


# ------------------------------------------------------------ string terms
def strfacts(t):
    c = cur()

    def mk():
        e = c.lit('')
        return z3.And(strlen(t) >= 0, utf8len(t) >= strlen(t), utf8len(t) <= 4 * strlen(t),
                      (strlen(t) == 0) == (t == e))
    c.fact_once(('str', t.get_id()), mk)
    c.keep.append(t)


def segterm(seg):
    if isinstance(seg, str):
        return cur().lit(seg)
    if isinstance(seg, SVar):
        return seg.term
    raise Undecided('conditional string')


def sterm(v):
    """str value -> z3 Str term"""
    c = cur()
    if isinstance(v, str):
        return c.lit(v)
    v = norm(v)
    if isinstance(v, str):
        return c.lit(v)
    segs = v.segs
    t = segterm(segs[-1])
    if isinstance(segs[-1], SVar):
        strfacts(t)
    for s in reversed(segs[:-1]):
        a = segterm(s)
        if isinstance(s, SVar):
            strfacts(a)
        n = strcat(a, t)
        aa, tt = a, t
        c.fact_once(('cat', n.get_id()), lambda: z3.And(strlen(n) == strlen(aa) + strlen(tt),
                                                        utf8len(n) == utf8len(aa) + utf8len(tt)))
        c.keep.append(n)
        strfacts(n)
        t = n
    return t


def svar(term):
    strfacts(term)
    return Rope('s', (SVar(term),))


# ------------------------------------------------------------ construction
def rope(kind, segs):
    return norm(Rope(kind, segs))


def segs_of(v):
    if isinstance(v, (bytes, bytearray)):
        return (bytes(v),) if len(v) else ()
    if isinstance(v, str):
        return (v,) if v else ()
    return v.segs


def norm(r):
    """merge literals, resolve conditional segments whose condition is known, expand
    refined flat segments"""
    if not isinstance(r, Rope):
        return r
    c = cur()
    out = []
    todo = list(r.segs)
    for_change = []
    while todo:
        s = todo.pop(0)
        if isinstance(s, (bytes, str)):
            if len(s) == 0:
                continue
            if out and isinstance(out[-1], (bytes, str)):
                out[-1] = out[-1] + s
            else:
                out.append(s)
            continue
        if isinstance(s, Cell):
            k = as_const(s.e)
            if k is not None:
                todo.insert(0, bytes([k]))
                continue
        if isinstance(s, CondA):
            k = c.lookup(s.p)
            if k is True:
                todo[0:0] = list(segs_of(s.r))
                continue
            if k is False:
                continue
        if isinstance(s, FlatA):
            items = s.seg.recs()
            if items is not None:
                exp = []
                for it in items:
                    if it.__class__.__name__ == 'Seg':
                        exp.append(FlatA(it, s.fn, s.kind))
                    else:
                        exp.extend(segs_of(s.fn.inst(it)))
                todo[0:0] = exp
                continue
        if isinstance(s, BVar):
            k = as_const(s.n)
            if k == 0:
                continue
            if out and isinstance(out[-1], BVar) and out[-1].name == s.name:
                p = out[-1]
                if as_const(zi(p.off) + zi(p.n) - zi(s.off)) == 0:
                    out[-1] = BVar(p.name, p.arr, p.off, z3.simplify(zi(p.n) + zi(s.n)))
                    continue
        out.append(s)
    if not out:
        return b'' if r.kind == 'b' else ''
    if len(out) == 1 and isinstance(out[0], (bytes, str)):
        return out[0]
    return Rope(r.kind, out)


def kind_of(v):
    if isinstance(v, (bytes, bytearray)):
        return 'b'
    if isinstance(v, str):
        return 's'
    if isinstance(v, Rope):
        return v.kind
    return None


def concat(a, b):
    ka = kind_of(a)
    return rope(ka, segs_of(a) + segs_of(b))


# ------------------------------------------------------------ length
def seglen(s):
    if isinstance(s, (bytes, str)):
        return z3.IntVal(len(s))
    if isinstance(s, Cell):
        return z3.IntVal(1)
    if isinstance(s, BVar):
        return zi(s.n)
    if isinstance(s, SVar):
        strfacts(s.term)
        return strlen(s.term)
    if isinstance(s, Utf8):
        strfacts(s.term)
        return utf8len(s.term)
    if isinstance(s, Tagged):
        return zi(s.n)
    if isinstance(s, CondA):
        t = z3.simplify(z3.If(s.p, rlen(s.r), z3.IntVal(0)))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = cur()
            c.fact_once(('ge0', t.get_id()), lambda: t >= 0)
            c.keep.append(t)
        return t
    if isinstance(s, FlatA):
        return s.seg.sumof(s.fn.length())
    raise Undecided('length of %r' % (s,))


def rlen(v):
    if isinstance(v, (bytes, str, bytearray)):
        return z3.IntVal(len(v))
    t = z3.IntVal(0)
    for s in v.segs:
        t = t + seglen(s)
    return z3.simplify(t)


# ------------------------------------------------------------ indexing
def segat(s, i):
    """element at offset i (z3 term, known to be inside) of segment s"""
    c = cur()
    if isinstance(s, bytes):
        k = as_const(i)
        if k is not None:
            return s[k]
        e = z3.IntVal(s[-1])
        for j in range(len(s) - 2, -1, -1):
            e = z3.If(i == j, z3.IntVal(s[j]), e)
        return SNum(e)
    if isinstance(s, Cell):
        return num(s.e)
    if isinstance(s, BVar):
        e = z3.simplify(z3.Select(s.arr, zi(s.off) + i))
        c.fact_once(('byte', e.get_id()), lambda: z3.And(e >= 0, e <= 255))
        c.keep.append(e)
        return SNum(e)
    if isinstance(s, Utf8):
        e = z3.simplify(utf8at(s.term, i))
        c.fact_once(('byte', e.get_id()), lambda: z3.And(e >= 0, e <= 255))
        c.keep.append(e)
        return SNum(e)
    if isinstance(s, str):
        k = as_const(i)
        if k is not None:
            return s[k]
    if isinstance(s, Tagged) and s.expand is not None:
        return at(s.expand(), i)
    if isinstance(s, SVar):
        t = strsub(s.term, i, z3.IntVal(1))
        c.fact_once(('ch', t.get_id()), lambda: strlen(t) == 1)
        c.keep.append(t)
        return svar(t)
    raise Undecided('element of %s' % type(s).__name__)


def index(v, i):
    """v[i]; raises IndexError through the interpreter's raise_"""
    from .interp import raise_
    c = cur()
    v = norm(v)
    if not isinstance(v, Rope):
        k = as_const(zi(i)) if not isinstance(i, int) else i
        if k is not None:
            try:
                return v[k]
            except IndexError as e:
                raise_(IndexError, str(e))
        if kind_of(v) == 'b':
            n = len(v)
            if c.branch(z3.And(zi(i) >= 0, zi(i) < n)):
                return segat(bytes(v), zi(i))
            raise_(IndexError, 'index out of range')
        raise Undecided('symbolic index into str')
    i = zi(i)
    k = as_const(i)
    if k is not None and k < 0:
        # from the end
        i = rlen(v) + k
        if not c.branch(i >= 0):
            raise_(IndexError, 'index out of range')
    elif k is None:
        if not c.must(i >= 0) and not c.branch(i >= 0):
            i = z3.simplify(rlen(v) + i)
            if not c.branch(i >= 0):
                raise_(IndexError, 'index out of range')
    return at(v, i)


def at(v, i):
    """element at non-negative offset i"""
    from .interp import raise_
    c = cur()
    segs = list(norm(v).segs) if isinstance(norm(v), Rope) else list(segs_of(norm(v)))
    pos = z3.simplify(i)
    while segs:
        s = segs.pop(0)
        if isinstance(s, CondA):
            d = c.branch(s.p)
            if d:
                segs[0:0] = list(segs_of(s.r))
            continue
        if isinstance(s, FlatA):
            n = seglen(s)
            if as_const(pos - n) is not None and as_const(pos - n) >= 0 or c.must(pos >= n):
                pos = z3.simplify(pos - n)
                continue
            r = s.seg.open_head()
            if r is not None:
                e, restseg = r
                segs[0:0] = list(segs_of(s.fn.inst(e))) + [FlatA(restseg, s.fn, s.kind)]
            continue
        n = seglen(s)
        kn, kp = as_const(n), as_const(pos)
        if kn is not None and kp is not None:
            if kp < kn:
                return segat(s, z3.IntVal(kp))
            pos = z3.IntVal(kp - kn)
            continue
        if c.branch(pos < n):
            return segat(s, pos)
        pos = z3.simplify(pos - n)
    raise_(IndexError, 'index out of range')


# ------------------------------------------------------------ slicing
def subseg(s, a, b):
    """slice [a,b) of one segment, 0 <= a <= b <= len known"""
    c = cur()
    if isinstance(s, (bytes, str)):
        ka, kb = as_const(a), as_const(b)
        if ka is not None and kb is not None:
            return (s[ka:kb],) if kb > ka else ()
        # symbolic cut of a literal: enumerate
        for j in range(len(s) + 1):
            if c.branch(a == j):
                for m in range(j, len(s) + 1):
                    if c.branch(b == m):
                        return (s[j:m],) if m > j else ()
        raise PathAbort()
    if isinstance(s, BVar):
        n = z3.simplify(b - a)
        if as_const(n) == 0:
            return ()
        return (BVar(s.name, s.arr, z3.simplify(zi(s.off) + a), n),)
    n = seglen(s)
    if as_const(a) == 0 and as_const(b - n) == 0:
        return (s,)
    if c.must(a >= b):
        return ()
    if c.must(z3.And(a == 0, b == n)):
        return (s,)
    if isinstance(s, SVar):
        t = strsub(s.term, z3.simplify(a), z3.simplify(b - a))
        c.fact_once(('sub', t.get_id()), lambda: strlen(t) == b - a)
        c.keep.append(t)
        return (SVar(t),)
    if isinstance(s, Utf8):
        # opaque slice of an encoding
        arr = z3.Const(c.fresh('u8'), z3.ArraySort(I, I))
        cache = c.__dict__.setdefault('u8arr', {})
        h = s.term.get_id()
        if h not in cache:
            cache[h] = (arr, s.term)
        arr = cache[h][0]
        return (BVar('utf8:%d' % h, arr, z3.simplify(a), z3.simplify(b - a)),)
    if isinstance(s, Tagged) and s.expand is not None:
        return tuple(segs_of(slice_(s.expand(), num(a), num(b))))
    raise Undecided('slice inside %s' % type(s).__name__)


def split_at(segs, pos):
    """split a list of segments at non-negative offset pos (clamped to the end)"""
    c = cur()
    left = []
    segs = list(segs)
    pos = z3.simplify(pos)
    while segs:
        kp = as_const(pos)
        if kp == 0:
            return left, segs
        s = segs[0]
        n = seglen(s)
        kn = as_const(n)
        if kn is not None and kp is not None:
            if kp >= kn:
                left.append(s)
                segs.pop(0)
                pos = z3.IntVal(kp - kn)
                continue
            l = subseg(s, z3.IntVal(0), pos)
            r = subseg(s, pos, n)
            return left + list(l), list(r) + segs[1:]
        d = as_const(pos - n)
        if d is not None and d >= 0:
            left.append(s)
            segs.pop(0)
            pos = z3.IntVal(d)
            continue
        if c.must(pos >= n):
            left.append(s)
            segs.pop(0)
            pos = z3.simplify(pos - n)
            continue
        if c.must(pos <= 0):
            return left, segs
        if isinstance(s, CondA):
            segs.pop(0)
            if c.branch(s.p):
                segs[0:0] = list(segs_of(s.r))
            continue
        if isinstance(s, FlatA):
            segs.pop(0)
            r = s.seg.open_head()
            if r is not None:
                e, restseg = r
                segs[0:0] = list(segs_of(s.fn.inst(e))) + [FlatA(restseg, s.fn, s.kind)]
            continue
        if c.branch(pos >= n):
            left.append(s)
            segs.pop(0)
            pos = z3.simplify(pos - n)
            continue
        if c.branch(pos <= 0):
            return left, segs
        l = subseg(s, z3.IntVal(0), pos)
        r = subseg(s, pos, n)
        return left + list(l), list(r) + segs[1:]
    return left, segs


def slice_(v, lo, hi):
    c = cur()
    v = norm(v)
    if not isinstance(v, Rope):
        if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return v[lo:hi]
        v = Rope(kind_of(v), segs_of(v))
    kind = v.kind
    n = rlen(v)

    def fix(x):
        x = zi(x)
        k = as_const(x)
        if k is not None and k >= 0:
            return x
        if k is not None:
            x = n + x
            return x if c.branch(x >= 0) else z3.IntVal(0)
        if c.must(x >= 0) or c.branch(x >= 0):
            return x
        x = z3.simplify(n + x)
        return x if c.branch(x >= 0) else z3.IntVal(0)
    segs = list(v.segs)
    a = z3.IntVal(0) if lo is None else fix(lo)
    if hi is not None:
        b = fix(hi)
        if as_const(b - a) is not None:
            if as_const(b - a) <= 0:
                return b'' if kind == 'b' else ''
        elif not c.must(b >= a) and not c.branch(b > a):
            return b'' if kind == 'b' else ''
        segs, _ = split_at(segs, b)
    if as_const(a) == 0:
        return rope(kind, segs)
    _, right = split_at(segs, a)
    return rope(kind, right)


# ------------------------------------------------------------ equality
def tagged_mismatch(ua, ub):
    return any(isinstance(x, Tagged) for x in ua) != any(isinstance(x, Tagged) for x in ub)


def expand_tagged(segs):
    out = []
    for s in segs:
        if isinstance(s, Tagged) and s.expand is not None:
            out.extend(segs_of(s.expand()))
        else:
            out.append(s)
    return out


def units(segs):
    """expand literal byte segments to single units for alignment"""
    out = []
    for s in segs:
        if isinstance(s, bytes):
            out.extend(Cell(z3.IntVal(x)) for x in s)
        else:
            out.append(s)
    return out


def sameatom(a, b):
    """formula under which two atoms are equal, or None when unknown"""
    if type(a) is not type(b):
        return None
    if isinstance(a, Cell):
        return a.e == b.e
    if isinstance(a, BVar):
        if a.name == b.name:
            return z3.And(zi(a.off) == zi(b.off), zi(a.n) == zi(b.n))
        return None
    if isinstance(a, Utf8):
        return a.term == b.term
    if isinstance(a, SVar):
        return a.term == b.term
    if isinstance(a, Tagged):
        if a is b or (a.tag == b.tag and a.value is b.value):
            return z3.BoolVal(True)
        if a.tag == b.tag and isinstance(a.value, (int, SNum)) and isinstance(b.value, (int, SNum)):
            return zi(a.value) == zi(b.value)          # the encoding is injective and prefix-free
        if a.tag == b.tag and kind_of(a.value) == 's' and kind_of(b.value) == 's':
            return sterm(a.value) == sterm(b.value)
        return None
    if isinstance(a, CondA):
        e = eq_rope(a.r, b.r)
        e = e.e if isinstance(e, SBool) else z3.BoolVal(e)
        return z3.And(a.p == b.p, z3.Implies(a.p, e))
    if isinstance(a, FlatA):
        if a.seg is b.seg and a.fn is b.fn:
            return z3.BoolVal(True)
        from .loops import flat_equal
        return flat_equal(a, b)
    return None


def coalesce(us):
    """join neighbouring pieces of the same array"""
    c = cur()
    out = []
    for u in us:
        p = out[-1] if out else None
        if isinstance(u, BVar) and isinstance(p, BVar) and p.arr.eq(u.arr) and c.must(zi(u.off) == zi(p.off) + zi(p.n)):
            out[-1] = BVar(p.name, p.arr, p.off, z3.simplify(zi(p.n) + zi(u.n)))
        else:
            out.append(u)
    return out


def split_bvar(xs, ys):
    """xs and ys begin at the same place of the same array and ys goes further: cut ys there"""
    x, y = xs[0], ys[0]
    if not isinstance(x, BVar) or not isinstance(y, BVar) or not x.arr.eq(y.arr) or len(xs) < 2:
        return False
    c = cur()
    if not c.must(zi(x.off) == zi(y.off)) or not c.must(z3.And(zi(x.n) >= 0, zi(x.n) < zi(y.n))):
        return False
    xs.pop(0)
    ys[0] = BVar(y.name, y.arr, z3.simplify(zi(y.off) + zi(x.n)), z3.simplify(zi(y.n) - zi(x.n)))
    return True


content_name = z3.Function('content', z3.ArraySort(I, I), I, I, I)


def eq_rope(a, b):
    """equality of two byte ropes / strings -> bool or SBool"""
    c = cur()
    a, b = norm(a), norm(b)
    if not isinstance(a, Rope) and not isinstance(b, Rope):
        return a == b
    k = kind_of(a)
    if k != kind_of(b):
        return False
    if k == 's':
        sa, sb = list(segs_of(a)), list(segs_of(b))
        # single character of an opaque string against a one-character literal
        for x, y in ((sa, sb), (sb, sa)):
            if len(x) == 1 and isinstance(x[0], SVar) and len(y) == 1 and isinstance(y[0], str) and len(y[0]) == 1:
                t = x[0].term
                if z3.is_app(t) and t.decl().eq(strsub) and as_const(t.arg(1)) == 0 and as_const(t.arg(2)) == 1:
                    return boolv(startswith_term(t.arg(0), y[0]))
        ta, tb = sterm(a), sterm(b)
        return boolv(ta == tb)
    ua, ub = coalesce(units(segs_of(a))), coalesce(units(segs_of(b)))
    conds = []
    la, lb = rlen(a), rlen(b)
    conds.append(la == lb)
    # strip common prefix and suffix
    while ua and ub:
        f = sameatom(ua[0], ub[0])
        if isinstance(ua[0], CondA) and isinstance(ub[0], CondA) and (f is None or not c.must(f)):
            x = ua.pop(0)
            ua[0:0] = units(segs_of(x.r)) if c.branch(x.p) else []
            continue
        if f is None:
            break
        if not isinstance(ua[0], (Cell,)) and not z3.is_true(z3.simplify(f)) and not c.must(f):
            # lengths may differ and content realign: only a sufficient condition
            if len(ua) == 1 and len(ub) == 1:
                conds.append(f)
                ua, ub = [], []
                break
            if isinstance(ua[0], BVar):
                if split_bvar(ua, ub) or split_bvar(ub, ua):
                    continue
                break
        conds.append(f)
        ua.pop(0)
        ub.pop(0)
    if not ua and not ub:
        return boolv(z3.And(conds))
    if z3.is_false(z3.simplify(la == lb)):
        return False
    for side in (ua, ub):
        for x in list(side):
            if isinstance(x, FlatA) and c.must(x.seg.n == 0):
                side.remove(x)
                r = eq_rope(rope('b', ua), rope('b', ub))
                if r is False:
                    return False
                return boolv(z3.And(conds + ([r.e] if isinstance(r, SBool) else [])))
    # one side empty: other must have length 0
    if not ua or not ub:
        return boolv(z3.And(conds))    # the length equation already forces emptiness of the rest
    if all(isinstance(x, (Cell, BVar, Utf8)) for x in ua + ub) and all(isinstance(x, Cell) for x in ua) != all(
            isinstance(x, Cell) for x in ub):
        # fixed-size literal against opaque: compare bytewise
        if all(isinstance(x, Cell) for x in ub):
            ua, ub = ub, ua
        n = len(ua)
        other = Rope('b', ub)
        if not c.branch(rlen(other) == n):
            return False
        for i, cell in enumerate(ua):
            conds.append(cell.e == zi(at(other, z3.IntVal(i))))
        return boolv(z3.And(conds))
    if any(isinstance(x, Tagged) and x.expand is not None for x in ua + ub):
        r = eq_rope(rope('b', expand_tagged(ua)), rope('b', expand_tagged(ub)))
        if r is False:
            return False
        return boolv(z3.And(conds + ([r.e] if isinstance(r, SBool) else [])))
    d = c.must(la == lb)
    if not d and not c.branch(la == lb):
        return False
    for side in (ua, ub):
        for i, x in enumerate(side):
            if isinstance(x, CondA):
                # decide the condition on this path and align again
                new = list(segs_of(x.r)) if c.branch(x.p) else []
                side[i:i + 1] = new
                r = eq_rope(rope('b', ua), rope('b', ub))
                if r is False:
                    return False
                return boolv(z3.And(conds + ([r.e] if isinstance(r, SBool) else [])))
    if len(ua) == 1 and len(ub) == 1 and isinstance(ua[0], BVar) and isinstance(ub[0], BVar):
        # two unrelated byte strings: equal when their contents have the same name
        return boolv(z3.And(conds + [content_name(x.arr, zi(x.off), zi(x.n)) == content_name(y.arr, zi(y.off), zi(y.n)) for x, y in [(ua[0], ub[0])]]))
    raise Undecided('cannot align byte strings %r / %r' % (ua[:3], ub[:3]))


# ------------------------------------------------------------ string predicates
def startswith_term(t, p):
    c = cur()
    if p == '':
        return z3.BoolVal(True)
    lp = c.lit(p)
    e = strpre(t, lp)
    reg = c.__dict__.setdefault('prefreg', {})
    lst = reg.setdefault(t.get_id(), [])
    c.keep.append(t)
    if p not in lst:
        strfacts(t)
        c.fact(z3.Implies(e, strlen(t) >= len(p)))
        for q in lst:
            lq = c.lit(q)
            if p.startswith(q):
                c.fact(z3.Implies(e, strpre(t, lq)))
            elif q.startswith(p):
                c.fact(z3.Implies(strpre(t, lq), e))
            else:
                c.fact(z3.Not(z3.And(e, strpre(t, lq))))
        lst.append(p)
        # concatenation with a literal head
        if z3.is_app(t) and t.decl().eq(strcat):
            for s, lt in list(c.lits.items()):
                if lt.eq(t.arg(0)):
                    if s.startswith(p):
                        c.fact(e)
                    elif not p.startswith(s):
                        c.fact(z3.Not(e))
    return e


def startswith(v, p):
    v = norm(v)
    if isinstance(p, Rope):
        raise Undecided('startswith symbolic prefix')
    if not isinstance(v, Rope):
        return v.startswith(p)
    if v.kind == 'b':
        n = len(p)
        if not cur().branch(rlen(v) >= n):
            return False
        return eq_rope(slice_(v, 0, n), p)
    first = v.segs[0]
    if isinstance(first, str):
        if first.startswith(p):
            return True
        if not p.startswith(first):
            return False
        rest = rope('s', v.segs[1:])
        return startswith(rest, p[len(first):])
    return boolv(startswith_term(sterm(v), p))


def find(v, needle, start=0):
    """str.find -> int / SNum"""
    c = cur()
    v = norm(v)
    if not isinstance(v, Rope) and not isinstance(needle, Rope) and isinstance(start, int):
        return v.find(needle, start)
    if isinstance(needle, Rope):
        if getattr(needle, 'segs', None) and isinstance(needle.segs[0], SVar):
            t = needle.segs[0].term
            if z3.is_app(t) and t.decl().name() == 'strchr':
                # surrogate code points never occur in an encodable string
                if c.must(z3.And(t.arg(0) >= 0xD800, t.arg(0) <= 0xDFFF)):
                    return -1
        nt = sterm(needle)
        nl = strlen(nt)
    else:
        if len(needle) == 1 and 0xD800 <= ord(needle) <= 0xDFFF:
            return -1
        nt = c.lit(needle)
        nl = z3.IntVal(len(needle))
    t = sterm(v)
    st = zi(start)
    e = strfind(t, nt, st)

    def mk():
        return z3.And(e >= -1, z3.Or(e == -1, z3.And(e >= st, e >= 0, e + nl <= strlen(t))))
    c.fact_once(('find', e.get_id()), mk)
    c.keep.append(e)
    reg = c.__dict__.setdefault('findreg', set())
    if isinstance(needle, str) and isinstance(start, int):
        for s, lt in list(c.lits.items()):
            ee = strfind(lt, nt, st)
            c.fact_once(('flit', ee.get_id()), lambda: ee == s.find(needle, start))
            c.keep.append(ee)
        cl = c.__dict__.setdefault('nofind', {})
        for (tt, nd) in cl.get(t.get_id(), []):
            if nd == needle:
                c.fact_once(('nf', e.get_id()), lambda: e == -1)
    return num(e)


def declare_without(v, ch):
    """record that the string contains no ch"""
    c = cur()
    t = sterm(v)
    c.__dict__.setdefault('nofind', {}).setdefault(t.get_id(), []).append((t, ch))
    c.keep.append(t)


def encode(v):
    """UTF-8 encoding of a str value"""
    v = norm(v)
    if isinstance(v, str):
        return v.encode('utf-8')
    out = []
    for s in v.segs:
        if isinstance(s, str):
            out.append(s.encode('utf-8'))
        elif isinstance(s, SVar):
            back = cur().__dict__.setdefault('decoded', {}).get(s.term.get_id())
            out.append(back if back is not None else Utf8(s.term))
        elif isinstance(s, CondA):
            out.append(CondA(s.p, _wrap(encode(s.r), 'b')))
        else:
            raise Undecided('encode')
    return rope('b', out)


def _wrap(v, kind):
    return v if isinstance(v, Rope) else Rope(kind, segs_of(v))


def decode(v):
    from .interp import raise_
    c = cur()
    v = norm(v)
    if not isinstance(v, Rope):
        try:
            return v.decode('utf-8')
        except UnicodeDecodeError as e:
            raise_(UnicodeDecodeError, 'utf-8', v, e.start, e.end, e.reason)
    segs = v.segs
    if all(isinstance(s, (bytes, Utf8)) for s in segs):
        out = []
        for s in segs:
            if isinstance(s, bytes):
                try:
                    out.append(s.decode('utf-8'))
                except UnicodeDecodeError as e:
                    raise_(UnicodeDecodeError, 'utf-8', s, e.start, e.end, e.reason)
            else:
                out.append(SVar(s.term))
        return rope('s', out)
    if len(segs) == 1 and isinstance(segs[0], BVar):
        s = segs[0]
        off, n = z3.simplify(zi(s.off)), z3.simplify(zi(s.n))
        ok = utf8ok(s.arr, off, n)
        c.fact_once(('u8empty', ok.get_id()), lambda: z3.Implies(n == 0, ok))
        c.keep.append(ok)
        if not c.branch(ok):
            raise_(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')
        t = strof(s.arr, off, n)
        c.fact_once(('strof', t.get_id()), lambda: utf8len(t) == n)
        c.keep.append(t)
        strfacts(t)
        c.__dict__.setdefault('decoded', {})[t.get_id()] = s
        return Rope('s', (SVar(t),))
    raise Undecided('decode of %r' % (segs,))
