"""Contracts: registry and the concrete (native) side of the contract interface."""
import random as _random, time as _time, signal, sys, os, io, contextlib, traceback, logging

CONTRACTS = []
STUBS = {}


class Contract:
    def __init__(self, fn, prop, funcs, **o):
        props = prop if isinstance(prop, list) else [prop]
        self.fn, self.prop, self.funcs = fn, props[0], list(funcs)
        self.name = fn.__name__
        self.merge = o.get('merge', True)
        self.uses = list(o.get('uses', ()))       # stubs this contract may rely on
        self.bounded = o.get('bounded')            # None = unbounded proof, else text of the bound
        self.concrete_only = o.get('concrete_only', False)
        self.search = o.get('search', 1.0)         # weight of the concrete search
        self.timeout = o.get('timeout', 100)
        self.max_unroll = o.get('max_unroll', 40)
        self.widen_after = o.get('widen_after')
        self.cases = o.get('cases')                # list of values: one sub-proof each
        self.known = o.get('known')                # known finding text: expected to fail
        self.module = fn.__module__
        self.thorough_only = o.get('thorough_only', False)
        self.str_opaque = o.get('str_opaque', True)
        self.limit = o.get('limit', 4000)
        self.runs = o.get('runs')
        self.props = props + list(o.get('also', ()))


def contract(prop, funcs=(), **o):
    def deco(fn):
        CONTRACTS.append(Contract(fn, prop, funcs, **o))
        return fn
    return deco


def stub(qual, proved_by=()):
    """contract of a callee, used in place of its body once proved_by were discharged"""
    def deco(fn):
        def w(ip, args, kwargs):
            return fn(ip, args, kwargs)
        w.proved_by = list(proved_by)
        STUBS[qual] = w
        return fn
    return deco


class Skip(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, name, detail=''):
        self.name, self.detail = name, detail
        BaseException.__init__(self, name)


class Hang(BaseException):
    pass


ALPHA = 'abcXYZ012 _-'
WIDE = ['\u00e9', '\u00df', '\u20ac', '\u4e2d', '\U0001f600', '\ufeff', '\u0416']
TOPICISH = ['/', '+', '#', '$', '/', 'a', 'b', '.', '*', '(', ')', '[', ']', '\\', '\n', '^', '?', '|', '{', '}']
BOUNDS = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63, 64, 100, 126, 127, 128, 129, 130, 131, 254, 255, 256, 257, 16383, 16384, 16385, 32767, 32768,
          65534, 65535, 65536, 2097151, 2097152, 268435454, 268435455, 2 ** 31, 2 ** 32 - 1]


class ConG:
    """concrete values: replayed from `values` where present, random otherwise"""
    symbolic = False

    def __init__(self, rng, values=None, case=None):
        self.rng = rng
        self.values = values
        self.rec = {}
        self.cur = self.rec
        self.curv = values
        self.checks = 0
        self.covers = set()
        self.now = 0
        self.case = case
        self.nchoice = 0
        self.checked = set()

    def _given(self, name):
        if self.curv is not None and name in self.curv:
            return True, self.curv[name]
        return False, None

    def _put(self, name, v):
        assert name not in self.cur, 'duplicate input name ' + name
        self.cur[name] = v
        return v

    def int(self, name, lo=0, hi=65535, native=None):
        """native: a smaller upper bound for the random search"""
        ok, v = self._given(name)
        if ok:
            if not lo <= v <= hi:
                raise Skip()
            return self._put(name, v)
        hi = hi if native is None else native
        r = self.rng
        k = r.random()
        if k < .35:
            c = [b for b in BOUNDS if lo <= b <= hi] + [lo, hi]
            v = r.choice(c)
        elif k < .6:
            v = r.randint(lo, min(hi, lo + 10))
        elif k < .7:
            v = r.randint(max(lo, hi - 3), hi)
        else:
            v = r.randint(lo, hi)
        return self._put(name, v)

    def bool(self, name):
        ok, v = self._given(name)
        if ok:
            return self._put(name, bool(v))
        return self._put(name, self.rng.random() < .5)

    def pick(self, name, options):
        ok, v = self._given(name)
        options = list(options)
        if ok:
            self._put(name, v)
            return options[v % len(options)]
        i = self._put(name, self.rng.randrange(len(options)))
        return options[i]

    def oneof(self, name, options):
        ok, v = self._given(name)
        options = list(options)
        if ok:
            return self._put(name, v)
        return self._put(name, self.rng.choice(options))

    def table(self, name, fn, key, without=()):
        out, seen = [], list(without)

        def one(g):
            v = fn(g)
            k = key(v)
            if k in seen:
                return Skip
            seen.append(k)
            return v
        return self.list(name, one)

    def apart(self, table, other, key):
        taken = [key(x) for x in other]
        return [x for x in table if key(x) not in taken]

    def index(self, table, key):
        return {key(x): x for x in table}

    def mapping(self, name, fn, without=()):
        return dict(self.table(name, fn, lambda kv: kv[0], without))

    def str(self, name, minlen=0, maxbytes=65535, small=False, alpha=None, pool=None):
        ok, v = self._given(name)
        if ok:
            if '\0' in v or len(v) < minlen or len(v.encode('utf-8', 'surrogatepass')) > maxbytes:                # a counter-model outside the domain of legal strings
                raise Skip()
            return self._put(name, v)
        r = self.rng
        if pool and r.random() < .9:
            return self._put(name, r.choice(pool))
        k = r.random()
        if k < .12 and minlen == 0:
            n = 0
        elif k < .75 or small:
            n = r.randint(minlen, minlen + 6)
        elif k < .97 or maxbytes < 1000:
            n = r.randint(minlen, minlen + 140)
        else:
            n = r.choice([20000, 21845, 65535, 300])
        mode = r.random()
        if alpha:
            s = ''.join(r.choice(alpha) for _ in range(n))
        elif mode < .6:
            s = ''.join(r.choice(ALPHA) for _ in range(min(n, 400)))
            s = (s * (n // max(len(s), 1) + 1))[:n] if s else s
        else:
            s = ''.join(r.choice(WIDE) if r.random() < .5 else r.choice(ALPHA) for _ in range(min(n, 200)))
        while len(s.encode()) > maxbytes:
            s = s[:len(s) // 2]
        if len(s) < minlen:
            s = s + 'x' * (minlen - len(s))
        return self._put(name, s)

    def text(self, name, alphabet, maxlen):
        """short string over a small alphabet (bounded)"""
        ok, v = self._given(name)
        if ok:
            return self._put(name, v)
        n = self.rng.randint(0, maxlen)
        return self._put(name, ''.join(self.rng.choice(alphabet) for _ in range(n)))

    def bytes(self, name, minlen=0, maxlen=None, small=False):
        ok, v = self._given(name)
        if ok:
            return self._put(name, v if isinstance(v, bytes) else bytes.fromhex(v))
        r = self.rng
        k = r.random()
        hi = minlen + 400 if maxlen is None else maxlen
        if small:
            hi = max(minlen, min(hi, 12))
        if k < .15:
            n = minlen
        elif k < .7:
            n = r.randint(minlen, min(hi, minlen + 8))
        else:
            n = r.randint(minlen, max(hi, minlen))
        if k > .98 and (maxlen is None or maxlen > 20000) and not small:
            n = r.choice([x for x in (16384, 70000, 65535, 16383) if x >= minlen and (maxlen is None or x <= maxlen)] or [minlen])
            b = bytes([r.randrange(256)]) * n
        else:
            b = r.randbytes(n)
        return self._put(name, b)

    def list(self, name, fn, minlen=0, hint=4):
        ok, v = self._given(name)
        out = []
        recs = []
        self._put(name, recs)
        if ok:
            n = len(v)
        else:
            r = self.rng
            n = r.randint(minlen, minlen + r.choice([0, 1, 2, hint]))
        outer, outerv = self.cur, self.curv
        for i in range(n):
            self.cur = {}
            recs.append(self.cur)
            self.curv = v[i] if ok else None
            try:
                x = fn(self)
            finally:
                self.cur, self.curv = outer, outerv
            if x is Skip:
                recs.pop()
            else:
                out.append(x)
        return out

    def choose(self, n):
        self.nchoice += 1
        nm = 'choice#%d' % self.nchoice
        given = self.values is not None and nm in self.values
        v = self.values[nm] if given else self.rng.randrange(n)
        self.rec[nm] = v
        return v % n

    def draw(self, lo, hi):
        self.nchoice += 1
        nm = 'draw#%d' % self.nchoice
        if self.values is not None and nm in self.values:
            v = min(max(self.values[nm], lo), hi)
        else:
            r = self.rng
            v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, min(hi, lo + 3))])
        self.rec[nm] = v
        return v

    def affordable(self, c):
        """restricts the native search only, never the proof"""
        if not c:
            raise Skip()

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, name, c, detail=''):
        self.checks += 1
        self.checked.add(name)
        if not c:
            raise CheckFailed(name, detail)

    def cover(self, name):
        self.covers.add(name)

    def catch(self, f, *args, **kw):
        try:
            return f(*args, **kw), None
        except Exception as e:
            return None, e

    def settime(self, t):
        self.now = t

    def get_now(self):
        return self.now

    def is_exc(self, e, cls):
        return isinstance(e, cls)


@contextlib.contextmanager
def native_env(g, seconds=6):
    """patch clocks and random choice, silence output, stop endless loops"""
    saved = (_time.monotonic, _time.time, _time.sleep, _random.choice)
    out, err = sys.stdout, sys.stderr

    def onalarm(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    _time.monotonic = lambda: g.now
    _time.time = lambda: g.now
    _time.sleep = lambda s=0: None

    def choice(seq):
        return seq[g.choose(len(seq))]
    _random.choice = choice
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        _time.monotonic, _time.time, _time.sleep, _random.choice = saved
        sys.stdout, sys.stderr = out, err


def run_native(con, rng, values=None, case=None):
    """-> (status, failed check, g); status in ok, skip, fail"""
    g = ConG(rng, values, case)
    logging.disable(logging.CRITICAL)
    try:
        with native_env(g):
            con.fn(g)
        return 'ok', None, g
    except Skip:
        return 'skip', None, g
    except CheckFailed as e:
        return 'fail', e.name + ((': ' + str(e.detail)) if e.detail else ''), g
    except Hang:
        return 'fail', 'does not terminate', g
    except RecursionError:
        return 'fail', 'unexpected RecursionError', g
    except MemoryError:
        return 'skip', None, g
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return 'fail', 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:200], where), g


def jsonable(v):
    if isinstance(v, bytes):
        return {'hex': v.hex()}
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, str):
        return {'str': v.encode('utf-8', 'surrogatepass').hex()} if not v.isascii() else v
    return v


def unjson(v):
    if isinstance(v, dict):
        if set(v) == {'hex'}:
            return bytes.fromhex(v['hex'])
        if set(v) == {'str'}:
            return bytes.fromhex(v['str']).decode('utf-8', 'surrogatepass')
        return {k: unjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unjson(x) for x in v]
    return v
