"""Exploration of a contract: paths, obligations, counter-models, native replay."""
import time, random, os, re, subprocess, tempfile, sys
import z3
from .core import *
from .core import ABSENT
from . import core, loops, models, ropes
from .interp import Interp, raise_
from .ropes import *
from .loops import Seg, MapSeg, Tmpl, CondItem, is_seg, flatten, cap, capobj
from . import spec


class Failed(Exception):
    """an obligation failed on this path"""


class OutOfTime(Undecided):
    pass


class SymG:
    """symbolic side of the contract interface"""
    _intrinsic = True
    symbolic = True

    def __init__(self, eng, ctx, case):
        self.eng, self.ctx, self.case = eng, ctx, case
        self.inputs = {}

    # inputs -------------------------------------------------------------
    def _slot(self):
        c = self.ctx
        return c.capture[2] if c.capture is not None else self.inputs

    def _mk(self, name, mk):
        if not isinstance(name, str):
            raise Undecided('symbolic input name')
        d = self._slot()
        if name in d:
            if d is not self.inputs:
                raise Undecided('input %s requested twice' % name)
            return d[name][-1]
        top = d is self.inputs
        nm = ('in:' + name) if top else self.ctx.fresh('el:' + name)
        r = mk(nm)
        d[name] = r
        return r[-1]

    def int(self, name, lo=0, hi=65535, native=None):
        c = self.ctx

        def mk(nm):
            k = z3.Int(nm)
            cap(c, k)
            if lo is not None:
                c.fact(k >= zi(lo))
            if hi is not None:
                c.fact(k <= zi(hi))
            return ('int', k, SNum(k))
        return self._mk(name, mk)

    def bool(self, name):
        c = self.ctx

        def mk(nm):
            k = z3.Bool(nm)
            cap(c, k)
            return ('bool', k, SBool(k))
        return self._mk(name, mk)

    def pick(self, name, options):
        options = self.eng.concrete_items(self.ctx, options)
        d = self._slot()
        if d is not self.inputs and len(options) > 1:
            raise Undecided('pick inside a collection')
        if name in d:
            return options[d[name][1]]
        i = self.ctx.choose(len(options))
        # the choice belongs to the path: undo with it
        d[name] = ('pick', i, None)
        self.ctx.journal.append(('call', lambda: d.pop(name, None), (), None))
        return options[i]

    def oneof(self, name, options):
        options = self.eng.concrete_items(self.ctx, options)
        c = self.ctx

        def mk(nm):
            k = z3.Int(nm)
            cap(c, k)
            c.fact(z3.Or([k == int(o) for o in options]))
            return ('int', k, SNum(k))
        return self._mk(name, mk)

    def str(self, name, minlen=0, maxbytes=65535, small=False, alpha=None, pool=None):
        c = self.ctx

        def mk(nm):
            t = z3.Const(nm, StrSort)
            cap(c, t)
            v = svar(t)
            c.fact(strlen(t) >= minlen)
            c.fact(utf8len(t) <= zi(maxbytes))
            ropes.declare_without(v, '\0')
            return ('str', t, v)
        return self._mk(name, mk)

    def text(self, name, alphabet, maxlen):
        d = self._slot()
        if d is not self.inputs:
            raise Undecided('text inside a collection')
        if name in d:
            return d[name][1]
        n = self.ctx.choose(maxlen + 1)
        s = ''.join(alphabet[self.ctx.choose(len(alphabet))] for _ in range(n))
        d[name] = ('const', s, s)
        self.ctx.journal.append(('call', lambda: d.pop(name, None), (), None))
        return s

    def bytes(self, name, minlen=0, maxlen=None, small=False):
        c = self.ctx

        def mk(nm):
            arr = z3.Array(nm, I, I)
            n = z3.Int(nm + '.len')
            cap(c, arr)
            cap(c, n)
            c.fact(n >= zi(minlen))
            if maxlen is not None:
                c.fact(n <= zi(maxlen))
            v = ropes.norm(Rope('b', (BVar(nm, arr, z3.IntVal(0), n),)))
            return ('bytes', arr, n, v)
        return self._mk(name, mk)

    def table(self, name, fn, key, without=()):
        """a list of any number of elements fn(g) with pairwise different key(element), none of them in `without`"""
        return self._keyed(name, fn, lambda ip, v: ip.call(key, (v,)), without, IList)

    def mapping(self, name, fn, without=()):
        """a dict with any number of entries fn(g) -> (key, value), no key in `without`"""
        return self._keyed(name, fn, lambda ip, kv: kv[0], without, IDict)

    def _keyed(self, name, fn, key, without, cls):
        c = self.ctx
        ip = c.interp
        without = self.eng.concrete_items(c, without)

        def mk(nm):
            seg = Seg(nm, lambda: ip.call(fn, (self,)), key=lambda v: key(ip, v))
            seg.excl = list(without)
            cap(c, seg.n)
            capobj(c, seg)
            lst = cls([seg])
            capobj(c, lst)
            return ('list', seg, lst)
        if c.capture is not None:
            raise Undecided('nested collection')
        return self._mk(name, mk)

    def apart(self, table, other, key):
        """table without the elements that have the key of an element of other: such elements are
        allowed here, which only adds states"""
        return table

    def index(self, table, key):
        """the elements of a table of pairwise different keys, by key"""
        ip = self.ctx.interp
        ents = []
        for x in flatten(table.items):
            if isinstance(x, Seg):
                rec = x.make()
                ents.append(MapSeg(x, Tmpl(rec, ((ip.call(key, (rec.value,)), rec.value),))))
            elif is_seg(x) or isinstance(x, CondItem):
                raise Undecided('index of a computed collection')
            else:
                ents.append((ip.call(key, (x,)), x))
        return IDict(ents)

    def list(self, name, fn, minlen=0, hint=4):
        c = self.ctx
        ip = c.interp

        def mk(nm):
            def gen():
                return ip.call(fn, (self,))
            seg = Seg(nm, gen)
            cap(c, seg.n)
            capobj(c, seg)
            if minlen:
                c.fact(seg.n >= minlen)
            lst = IList([seg])
            capobj(c, lst)
            return ('list', seg, lst)
        if c.capture is not None:
            raise Undecided('nested collection')
        return self._mk(name, mk)

    def choose(self, n):
        c = self.ctx
        k = c.overlay.get(('nchoice',), 0)
        k = k + 1 if isinstance(k, int) else 1000 + len(self.inputs)
        c.overlay_set(('nchoice',), k)
        i = c.choose(n)
        nm = 'choice#%d' % k
        old = self.inputs.get(nm, ABSENT)
        self.inputs[nm] = ('const', i, None)
        c.journal.append(('call', lambda: self.inputs.pop(nm, None), (), None))
        return i

    def draw(self, lo, hi):
        """an arbitrary number chosen anew at each call"""
        c = self.ctx
        k = z3.Int(c.fresh('draw'))
        c.fact(z3.Implies(zi(lo) <= zi(hi), z3.And(k >= zi(lo), k <= zi(hi))))
        return ropes.num(k)

    # conditions ---------------------------------------------------------
    def affordable(self, cond):
        pass

    def assume(self, cond):
        c = self.ctx
        t = c.interp.truth(cond)
        if c.gen_depth == len(c.frames):
            e = t.e if isinstance(t, SBool) else z3.BoolVal(t)
            names = {str(x) for x in c.capture[0]}
            if any(str(v) not in names for v in freevars(e)):
                raise Undecided('assumption on an element refers to other inputs')
            c.fact(e)          # part of the domain of the element
            return
        c.assume(t if isinstance(t, bool) else t.e)

    def check(self, name, cond, detail=''):
        c = self.ctx
        t = c.interp.truth(cond)
        self.eng.obligation(self, name, t)

    def cover(self, name):
        if name not in self.eng.covered:
            if self.ctx._check(z3.BoolVal(True)) == z3.sat:
                self.eng.covered.add(name)

    def catch(self, f, *args, **kw):
        try:
            return (self.ctx.interp.call(f, args, kw), None)
        except PyRaise as e:
            return (None, e.exc)

    def is_exc(self, e, cls):
        return isinstance(e, IObj) and issubclass(e.cls, cls)

    def settime(self, t):
        self.ctx.overlay_set(('now',), t)

    def get_now(self):
        return self.ctx.overlay.get(('now',), 0)


def some_number(ip):
    """a time nothing depends on"""
    x = z3.Int(ip.ctx.fresh('process_time'))
    return SNum(x)


def some_uuid(ip, cls):
    """36 characters that no other call returned"""
    c = ip.ctx
    t = z3.Const(c.fresh('uuid4'), StrSort)
    strfacts(t)
    c.fact(z3.And(strlen(t) == 36, utf8len(t) == 36))
    for u in c.__dict__.setdefault('uuids', []):
        c.fact(t != u)
    c.uuids.append(t)
    for s, l in list(c.lits.items()):
        if len(s) != 36:
            c.fact(t != l)
    return IObj(cls, {'_text': svar(t)})


def freevars(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not str(x).startswith('lit:'):
                out.append(x)
            todo.extend(x.children())
    return out


class Result:
    def __init__(self):
        self.obligations = {}      # name -> [discharged, failed]
        self.failures = []         # (name, values)
        self.undecided = []
        self.paths = 0
        self.feasible = 0
        self.covered = set()
        self.fns = set()
        self.stubs_used = set()
        self.stats = {}
        self.wall = 0.0


class Engine:
    def __init__(self, con, tier='quick', case=None, stubs=None, timeout_ms=8000, deadline=None):
        self.con, self.tier, self.case = con, tier, case
        self.stubs = stubs or {}
        self.stub_off = set()
        self.merge = con.merge
        self.max_unroll = con.max_unroll
        self.widen_after = con.widen_after
        self.timeout_ms = timeout_ms
        self.str_opaque = con.str_opaque
        self.stats = {'solver_calls': 0, 'solver_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0, 'cvc5_discharged': 0}
        self.covered = set()
        self.res = Result()
        self.deadline = deadline
        self.hooks = {
            models.hook_key(time.monotonic): lambda ip, a, k: ip.ctx.overlay.get(('now',), 0),
            models.hook_key(time.process_time): lambda ip, a, k: some_number(ip),
            models.hook_key(time.time): lambda ip, a, k: ip.ctx.overlay.get(('now',), 0),
            models.hook_key(time.sleep): lambda ip, a, k: None,
            models.hook_key(random.choice): self.h_choice,
        }
        import uuid
        self.hooks[models.hook_key(uuid.uuid4)] = lambda ip, a, k: some_uuid(ip, uuid.UUID)
        self.g = None

    def h_choice(self, ip, args, kwargs):
        seq = args[0]
        items = loops.settle(ip.iter_items(seq))
        if any(loops.is_seg(x) for x in items):
            raise Undecided('random choice from a collection of unknown size')
        if not items:
            raise_(IndexError, 'Cannot choose from an empty sequence')
        return items[self.g.choose(len(items))]

    def concrete_items(self, ctx, v):
        items = loops.settle(ctx.interp.iter_items(v))
        if any(loops.is_seg(x) for x in items):
            raise Undecided('options of unknown number')
        return items

    def note_fn(self, q):
        if not q.startswith('contracts.'):
            self.res.fns.add(q)
        if self.deadline is not None and time.process_time() > self.deadline:
            raise OutOfTime('time limit')

    def note_stub(self, q):
        self.res.stubs_used.add(q)

    # ------------------------------------------------------------ obligations
    def count(self, name, ok):
        o = self.res.obligations.setdefault(name, [0, 0])
        o[0 if ok else 1] += 1

    def obligation(self, g, name, t):
        c = g.ctx
        if t is True:
            self.count(name, True)
            return
        e = z3.BoolVal(False) if t is False else t.e
        r = c._check(z3.Not(e))
        if r == z3.unknown:
            r = self.second_opinion(c, z3.Not(e))
        if r == z3.unsat:
            self.count(name, True)
            if t is False:
                raise PathAbort()
            c.fact_path(e)
            return
        if r == z3.unknown:
            self.count(name, False)
            raise Undecided('solver gave up on obligation %s' % name)
        self.fail(g, name, z3.Not(e))

    def fail(self, g, name, neg):
        c = g.ctx
        self.count(name, False)
        vals = None
        try:
            vals = self.counterexample(g, neg)
        except Exception as x:
            vals = None
        self.res.failures.append((name, vals))
        raise Failed(name)

    def second_opinion(self, c, neg):
        """ask cvc5 about solver + neg"""
        t0 = time.time()
        self.stats['cvc5_calls'] += 1
        try:
            c.solver.push()
            c.solver.add(neg)
            txt = c.solver.to_smt2()
            c.solver.pop()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt)
            try:
                out = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=15).stdout
            finally:
                os.unlink(f.name)
        except Exception:
            out = ''
        self.stats['cvc5_s'] += time.time() - t0
        if 'unsat' in out:
            self.stats['cvc5_discharged'] += 1
            return z3.unsat
        return z3.unknown

    # ------------------------------------------------------------ models
    def counterexample(self, g, neg):
        c = g.ctx
        s = c.solver
        s.push()
        try:
            s.add(neg)
            m = None
            lens = self.size_terms(g.inputs)
            for bound in (3, 12, 200):
                s.push()
                for t in lens:
                    s.add(t <= bound)
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                s.pop()
                if m is not None:
                    break
            if m is None:
                if s.check() != z3.sat:
                    return None
                m = s.model()
            return self.concretise(c, m, g.inputs, {})
        finally:
            s.pop()

    def size_terms(self, d):
        out = []
        for v in d.values():
            if v[0] == 'str':
                out.append(strlen(v[1]))
            elif v[0] == 'bytes':
                out.append(v[2])
            elif v[0] == 'list':
                out.append(v[1].n)
                for r in (v[1].recs() or ()):
                    if not isinstance(r, Seg) and r.inputs:
                        out.extend(self.size_terms(r.inputs))
        return out

    def concretise(self, c, m, d, used):
        out = {}

        def ev(e):
            return m.eval(e, model_completion=True)

        def evi(e, dflt=0):
            v = ev(e)
            return v.as_long() if z3.is_int_value(v) else dflt
        for name, v in d.items():
            k = v[0]
            if k == 'int':
                out[name] = evi(v[1])
            elif k == 'bool':
                out[name] = z3.is_true(ev(v[1]))
            elif k == 'pick' or k == 'const':
                out[name] = v[1]
            elif k == 'str':
                out[name] = self.mkstr(c, m, v[1], used)
            elif k == 'bytes':
                n = min(evi(v[2]), 100000)
                out[name] = bytes(evi(z3.Select(v[1], z3.IntVal(i))) & 255 for i in range(n))
            elif k == 'list':
                seg = v[1]
                lst = []
                recs = seg.recs()
                if recs is None:
                    recs = [seg]
                for r in recs:
                    if isinstance(r, Seg):
                        lst.extend({} for _ in range(min(evi(r.n), 50)))
                    else:
                        lst.append(self.concretise(c, m, r.inputs or {}, used))
                out[name] = lst
        return out

    def mkstr(self, c, m, t, used):
        tv = m.eval(t, model_completion=True)
        for s, lt in c.lits.items():
            if z3.is_true(m.eval(t == lt, model_completion=True)):
                return s
        key = str(tv)
        if key in used:
            return used[key]
        n = m.eval(strlen(t), model_completion=True).as_long()
        b = m.eval(utf8len(t), model_completion=True).as_long()
        pre = ''
        for s, lt in c.lits.items():
            if len(s) > len(pre) and z3.is_true(m.eval(strpre(t, lt), model_completion=True)):
                pre = s
        n = min(n, 70000)
        body = max(n - len(pre), 0)
        extra = max(b - len(pre.encode()) - body, 0)
        chars = []
        k = len(used)
        for i in range(body):
            ex = min(3, extra) if body else 0
            extra -= ex
            chars.append([chr(97 + (k + i) % 26), '\u00e9', '\u20ac', '\U0001f600'][ex])
        r = pre + ''.join(chars)
        tries = 0
        while r in used.values() and body and tries < 26:
            tries += 1
            chars[-1] = chr(97 + tries) if len(chars[-1].encode()) == 1 else chars[-1]
            r = pre + ''.join(chars)
        used[key] = r
        return r

    # ------------------------------------------------------------ exploration
    def run(self):
        con = self.con
        t0 = time.time()
        work = [[]]
        res = self.res
        checked_feasible = False
        while work:
            if res.paths >= con.limit:
                res.undecided.append('more than %d paths' % con.limit)
                break
            if self.deadline is not None and time.process_time() > self.deadline:
                res.undecided.append('time limit')
                break
            prefix = work.pop()
            res.paths += 1
            ctx = Ctx(self, prefix)
            set_cur(ctx)
            ip = Interp(ctx, self)
            ctx.interp = ip
            g = SymG(self, ctx, self.case)
            self.g = g
            try:
                ip.call(con.fn, (g,))
                if not checked_feasible or res.feasible < 3:
                    if ctx._check(z3.BoolVal(True)) == z3.sat:
                        res.feasible += 1
                        checked_feasible = True
                else:
                    res.feasible += 1
            except PathAbort:
                pass
            except Failed:
                if len(res.failures) > 6:
                    break
            except PyRaise as e:
                nm = 'unexpected %s' % e
                r = ctx._check(z3.BoolVal(True))
                if r == z3.unsat:
                    pass
                else:
                    try:
                        self.fail(g, nm[:160], z3.BoolVal(True))
                    except Failed:
                        pass
                    if len(res.failures) > 6:
                        break
            except OutOfTime as e:
                res.undecided.append(str(e))
                break
            except Undecided as e:
                where = ' < '.join(getattr(e, 'where', ()))
                r = ctx._check(z3.BoolVal(True))
                if r != z3.unsat:
                    res.undecided.append('%s [%s]' % (e, where))
                    if len(res.undecided) > 8:
                        break
            except RecursionError:
                res.undecided.append('recursion limit of the verifier')
                break
            except z3.Z3Exception as e:
                res.undecided.append('z3: %s' % e)
                break
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                res.undecided.append('verifier error %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                if os.environ.get('PYDV_DEBUG'):
                    traceback.print_exc()
                break
            except (BrkSig, CntSig, RetSig) as e:
                res.undecided.append('control signal escaped')
                break
            work.extend(ctx.frames[0].work)
        if not res.undecided and not res.failures and res.feasible == 0:
            res.undecided.append('vacuous: no feasible path')
        res.covered = self.covered
        res.stats = self.stats
        res.wall = time.time() - t0
        return res
