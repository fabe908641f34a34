"""Callee contracts used in place of bodies (symbolic side only).  Each names the contracts that
discharge it against the real body; a check that uses it proves those too."""
import z3
from pydv.spec import stub
from pydv.core import SNum, SBool, Maybe, FlatA, Tagged, Rope, Undecided, cur
from pydv import ropes
from pydv.ropes import norm, rope, segs_of, zi, num, as_const

V5 = 'mqtt.formats.MQTTV5.MQTTV5.'


def vbi_n(v):
    e = zi(v)
    return z3.If(e < 128, 1, z3.If(e < 16384, 2, z3.If(e < 2097152, 3, 4)))


def vbi_explicit(v):
    from contracts import lib
    c = cur()
    ip = c.interp
    off = ip.engine.stub_off
    ip.engine.stub_off = off | {'contracts.lib.vbi_bytes'}
    try:
        return ip.call(lib.vbi_bytes, (v,), {})
    finally:
        ip.engine.stub_off = off


def tagged_vbi(v):
    return rope('b', (Tagged('vbi', v, vbi_n(v), vbi_explicit),))


@stub('contracts.lib.vbi_bytes')
def spec_vbi_bytes(ip, args, kwargs):
    v = args[0]
    if not isinstance(v, SNum) or not ip.ctx.must(z3.And(v.e >= 0, v.e <= 268435455)):
        return NotImplemented
    k = as_const(v.e)
    return tagged_vbi(v) if k is None else NotImplemented


@stub(V5 + 'VBIs.encode', proved_by=['vbi_encode_is_the_specified_encoding'])
def vbis_encode(ip, args, kwargs):
    v = args[-1]
    if not isinstance(v, SNum) or not ip.ctx.must(z3.And(v.e >= 0, v.e <= 268435455)):
        return NotImplemented
    return tagged_vbi(v)


@stub(V5 + 'VBIs.decode', proved_by=['vbi_decode_inverts_encode'])
def vbis_decode(ip, args, kwargs):
    b = norm(args[-1])
    segs = segs_of(b)
    if segs and isinstance(segs[0], Tagged) and segs[0].tag == 'vbi':
        return (segs[0].value, num(zi(segs[0].n)))
    return NotImplemented


@stub('contracts.spec5.vbi_at')
def spec_vbi_at(ip, args, kwargs):
    segs = segs_of(norm(args[0]))
    if segs and isinstance(segs[0], Tagged) and segs[0].tag == 'vbi':
        return (segs[0].value, num(zi(segs[0].n)))
    return NotImplemented


def explicit(q, fname, lib=None):
    def mk(v):
        import importlib
        lib = importlib.import_module(q.rsplit('.', 1)[0])
        ip = cur().interp
        off = ip.engine.stub_off
        ip.engine.stub_off = off | {q}
        try:
            return ip.call(getattr(lib, fname), (v,), {})
        finally:
            ip.engine.stub_off = off
    return mk


utf_explicit = explicit('contracts.lib.utf8', 'utf8')


def legal_str(ip, s):
    """symbolic string without NUL of at most 65535 encoded bytes"""
    s = norm(s)
    if not isinstance(s, Rope) or s.kind != 's':
        return False
    r = ropes.find(s, '\x00')
    if not (r == -1 if isinstance(r, int) else ip.ctx.must(zi(r) == -1)):
        return False
    return ip.ctx.must(ropes.rlen(ropes.encode(s)) <= 65535)


def tagged_utf(s):
    return rope('b', (Tagged('utf', s, z3.simplify(2 + ropes.rlen(ropes.encode(s))), utf_explicit),))


@stub('contracts.lib.utf8')
def spec_utf8(ip, args, kwargs):
    return tagged_utf(args[0]) if legal_str(ip, args[0]) else NotImplemented


@stub(V5 + 'writeUTF', proved_by=['writeUTF_is_the_specified_encoding'])
def write_utf5(ip, args, kwargs):
    return tagged_utf(args[0]) if not kwargs and legal_str(ip, args[0]) else NotImplemented


def opened(b):
    """the head of the rope, with a leading list encoding opened at its first element"""
    b = norm(b)
    segs = list(segs_of(b))
    while segs and isinstance(segs[0], FlatA) and segs[0].seg.refined is None and segs[0].seg.gen is not None:
        s = segs.pop(0)
        r = s.seg.open_head()
        if r is not None:
            segs[0:0] = list(segs_of(s.fn.inst(r[0]))) + [FlatA(r[1], s.fn, s.kind)]
    return segs


def read_utf(ip, args, kwargs):
    segs = opened(args[0])
    if kwargs or len(args) != 2 or not segs or not isinstance(segs[0], Tagged) or segs[0].tag != 'utf':
        return NotImplemented
    t = segs[0]
    if not isinstance(args[1], (int, SNum)) or not ip.ctx.must(zi(args[1]) >= zi(t.n)):
        return NotImplemented
    return (t.value, num(zi(t.n)))


stub(V5 + 'readUTF', proved_by=['readUTF_inverts_the_encoding'])(read_utf)


u16_explicit = explicit('contracts.lib.u16', 'u16')
u32_explicit = explicit('contracts.spec5.u32', 'u32')


def enc_int(tag, n, hi, mk):
    def f(ip, args, kwargs):
        v = args[0]
        if kwargs or not isinstance(v, SNum) or as_const(v.e) is not None or not ip.ctx.must(z3.And(v.e >= 0, v.e <= hi)):
            return NotImplemented
        return rope('b', (Tagged(tag, v, n, mk),))
    return f


def dec_int(tag):
    def f(ip, args, kwargs):
        b = norm(args[0])
        segs = segs_of(b)
        if kwargs or not segs or not isinstance(segs[0], Tagged) or segs[0].tag != tag:
            return NotImplemented
        return segs[0].value
    return f


stub('contracts.lib.u16')(enc_int('int2', 2, 65535, u16_explicit))
stub('contracts.spec5.u32')(enc_int('int4', 4, 4294967295, u32_explicit))
stub(V5 + 'writeInt16', proved_by=['writeInt16_is_the_specified_encoding'])(enc_int('int2', 2, 65535, u16_explicit))
stub(V5 + 'writeInt32', proved_by=['writeInt32_is_the_specified_encoding'])(enc_int('int4', 4, 4294967295, u32_explicit))
stub(V5 + 'readInt16', proved_by=['readInt16_inverts_the_encoding'])(dec_int('int2'))
stub(V5 + 'readInt32', proved_by=['readInt32_inverts_the_encoding'])(dec_int('int4'))

VBI = ['contracts.lib.vbi_bytes', 'contracts.spec5.vbi_at', V5 + 'VBIs.encode', V5 + 'VBIs.decode']
UTF5 = ['contracts.lib.utf8', V5 + 'writeUTF', V5 + 'readUTF']
INT5 = ['contracts.lib.u16', 'contracts.spec5.u32', V5 + 'writeInt16', V5 + 'writeInt32', V5 + 'readInt16', V5 + 'readInt32']
CODEC5 = VBI + UTF5 + INT5


# ---------------------------------------------------------------- property sets as one value
def props_n(k):
    return z3.Function('props_len', z3.IntSort(), z3.IntSort())(zi(k))


def tagged_props(c, k):
    n = props_n(k)
    c.fact_once(('props', str(zi(k))), lambda: z3.And(n >= 1, n <= 268435459))
    return rope('b', (Tagged('props', k, n, None),))


@stub('contracts.gen5.propset')
def gen_propset(ip, args, kwargs):
    from mqtt.formats.MQTTV5 import MQTTV5 as M5
    g, ptype = args[:2]
    pre = args[2] if len(args) > 2 else kwargs.get('pre', '')
    k = g.int(pre + 'property set', None, None)
    o = ip.call(M5.Properties, (ptype,), {})
    ip.set_attr_raw(o, '__props__', k)
    return (o, k)


@stub('contracts.gen5.enc_propset')
def enc_propset(ip, args, kwargs):
    return tagged_props(ip.ctx, args[0])


@stub('contracts.gen5.no_props')
def no_props(ip, args, kwargs):
    tagged_props(ip.ctx, args[0])
    return SBool(props_n(args[0]) == 1)


@stub('contracts.gen5.props_kept')
def props_kept(ip, args, kwargs):
    from mqtt.formats.MQTTV5 import MQTTV5 as M5
    q, k, ptype = args
    m = ghost(ip, q)
    if q.attrs['packetType'] != ptype:
        return False
    if m is None:
        tagged_props(ip.ctx, k)
        return SBool(props_n(k) == 1) if ip.call(M5.Properties.isEmpty, (q,), {}) is True else False
    return SBool(zi(m) == zi(k))


def ghost(ip, o):
    v = o.attrs.get('__props__')
    if isinstance(v, Maybe):
        v = v.v if ip.ctx.branch(v.p) else None
    return v


PR = V5 + 'Properties.'
PROVED = ['property_set_round_trip', 'property_set_emptied', 'property_set_read_replaces']


@stub(PR + 'pack', proved_by=PROVED)
def props_pack(ip, args, kwargs):
    k = ghost(ip, args[0])
    return NotImplemented if k is None else tagged_props(ip.ctx, k)


@stub(PR + 'unpack', proved_by=PROVED)
def props_unpack(ip, args, kwargs):
    o, b = args[0], norm(args[1])
    segs = segs_of(b)
    if not segs or not isinstance(segs[0], Tagged) or segs[0].tag != 'props':
        if '__props__' in o.attrs:
            raise Undecided('unpack into an abstract property set')
        return NotImplemented
    ip.set_attr_raw(o, '__props__', segs[0].value)
    return (o, num(zi(segs[0].n)))


@stub(PR + 'isEmpty', proved_by=PROVED)
def props_isempty(ip, args, kwargs):
    k = ghost(ip, args[0])
    if k is None:
        return NotImplemented
    tagged_props(ip.ctx, k)
    return SBool(props_n(k) == 1)


@stub(PR + 'clear', proved_by=PROVED)
def props_clear(ip, args, kwargs):
    o = args[0]
    if ghost(ip, o) is None:
        return NotImplemented
    ip.set_attr_raw(o, '__props__', SNum(z3.IntVal(0)))
    tagged_props(ip.ctx, SNum(z3.IntVal(0)))
    ip.ctx.fact_once(('props0',), lambda: props_n(SNum(z3.IntVal(0))) == 1)
    return None


@stub(V5 + 'ReasonCodes.unpack', proved_by=['reason_byte_received_accepted_exactly_when_defined'])
def reason_unpack(ip, args, kwargs):
    """the first byte becomes the value when MQTT 5 defines it for the packet, otherwise an error"""
    from contracts import spec5 as S
    from pydv.interp import raise_
    o, b = args
    pt = o.attrs.get('packetType')
    if not isinstance(pt, int):
        return NotImplemented
    segs = opened(b)
    if not segs:
        return NotImplemented
    v = ropes.at(rope('b', segs), z3.IntVal(0))
    if not isinstance(v, SNum):
        return NotImplemented
    if not ip.ctx.branch(z3.Or([v.e == k for k in S.codes_for(pt)])):
        raise_(AssertionError)
    ip.set_attr_raw(o, 'value', v)
    return 1


PROPS5 = [V5 + 'ReasonCodes.unpack', 'contracts.gen5.propset', 'contracts.gen5.enc_propset', 'contracts.gen5.no_props', 'contracts.gen5.props_kept',
          PR + 'pack', PR + 'unpack', PR + 'isEmpty', PR + 'clear']
PACKET5 = CODEC5 + PROPS5


# ---------------------------------------------------------------- property sections in arbitrary bytes
def same_bytes(c, a, b):
    """the two byte strings are the same slice on this path"""
    from pydv.loops import same_rope
    if same_rope(a, b):
        return True
    sa, sb = segs_of(a), segs_of(b)
    if len(sa) != len(sb) or any(type(x) is not type(y) for x, y in zip(sa, sb)):
        return False
    for x, y in zip(sa, sb):
        e = ropes.sameatom(x, y) if not isinstance(x, (bytes, str)) else z3.BoolVal(x == y)
        if e is None or not c.must(e):
            return False
    return True


def cached(c, kind, b):
    for k, b2, r in c.__dict__.setdefault('head_readings', []):
        if k == kind and same_bytes(c, b, b2):
            return r
    return None


def reading(kind, b):
    """(whether a well-formed string / binary datum stands at the head of b, its value, its length),
    unknowns that depend on b only; the caller has established len(b) >= 2"""
    c = cur()
    b = norm(b)
    r = cached(c, kind, b)
    if r is None:
        ok = z3.Bool(c.fresh(kind + ' ok'))
        n = zi(ropes.at(b, z3.IntVal(0))) * 256 + zi(ropes.at(b, z3.IntVal(1)))
        if kind == 'utf':
            t = z3.Const(c.fresh('text'), ropes.StrSort)
            v = ropes.svar(t)
            ropes.declare_without(v, '\0')
            c.fact(ropes.utf8len(t) == n)
            c.fact(z3.Implies(ok, 2 + n <= ropes.rlen(b)))
        else:
            v = None
            c.fact(ok == (2 + n <= ropes.rlen(b)))
        r = (ok, v, 2 + n)
        c.head_readings.append((kind, b, r))
    return r


def long_enough(ip, b):
    return ip.ctx.branch(ropes.rlen(norm(b)) >= 2)


@stub('contracts.spec5.utf_at')
def spec_utf_at(ip, args, kwargs):
    if not long_enough(ip, args[0]):
        return None
    ok, v, n = reading('utf', args[0])
    return (v, num(n)) if ip.ctx.branch(ok) else None


@stub(V5 + 'readUTF@any', proved_by=['readUTF_accepts_exactly_legal_strings'])
def read_utf_any(ip, args, kwargs):
    from pydv.interp import raise_
    if kwargs or len(args) != 2:
        return NotImplemented
    if not long_enough(ip, args[0]):
        raise_(AssertionError)
    ok, v, n = reading('utf', args[0])
    if not ip.ctx.branch(z3.And(ok, n <= zi(args[1]))):
        raise_(AssertionError)
    return (v, num(n))


def section_term(ip, ptype, b):
    """the length of the well-formed section at the head of b (or -1), as an unknown that depends on b only"""
    c = ip.ctx
    b = norm(b)
    r = cached(c, ptype, b)
    if r is not None:
        return r
    n = z3.Int(c.fresh('section'))
    ln = ropes.rlen(b)
    c.fact(z3.Or(n == -1, z3.And(n >= 1, n <= ln)))
    # its length prefix is one byte, or two when the first has the continuation bit
    if c.must(ln >= 2):
        b0, b1 = zi(ropes.at(b, z3.IntVal(0))), zi(ropes.at(b, z3.IntVal(1)))
        c.fact(z3.Implies(z3.And(n >= 0, b0 < 128), n == 1 + b0))
        c.fact(z3.Implies(z3.And(n >= 0, b0 >= 128, b1 < 128), n == b0 - 126 + 128 * b1))
    c.head_readings.append((ptype, b, n))
    return n


@stub('contracts.spec5.seclen')
def spec_seclen(ip, args, kwargs):
    return SNum(section_term(ip, *args))


@stub(PR + 'unpack@any', proved_by=['property_section_accepted_exactly_when_well_formed'])
def props_unpack_any(ip, args, kwargs):
    from pydv.interp import raise_
    o, b = args
    pt = o.attrs.get('packetType')
    n = section_term(ip, pt, b)
    if not ip.ctx.branch(n >= 0):
        raise_(AssertionError)
    k = SNum(z3.Int(ip.ctx.fresh('properties read')))
    ip.set_attr_raw(o, '__props__', k)
    return (o, SNum(n))


ANY5 = VBI + ['contracts.spec5.utf_at', V5 + 'readUTF@any', 'contracts.spec5.seclen', PR + 'unpack@any', V5 + 'ReasonCodes.unpack']


# ---------------------------------------------------------------- MQTT 3.1.1
V3 = 'mqtt.formats.MQTTV311.MQTTV311.'
stub(V3 + 'FixedHeaders.encode', proved_by=['vbi3_encode_is_the_specified_encoding'])(vbis_encode)
stub(V3 + 'FixedHeaders.decode', proved_by=['vbi3_decode_inverts_encode'])(vbis_decode)
stub(V3 + 'writeUTF', proved_by=['writeUTF3_is_the_specified_encoding'])(write_utf5)
stub(V3 + 'readUTF', proved_by=['readUTF3_inverts_the_encoding'])(read_utf)


@stub(V3 + 'readUTF@any', proved_by=['readUTF3_accepts_exactly_legal_strings'])
def read_utf3_any(ip, args, kwargs):
    if kwargs or len(args) != 2 or not ip.ctx.must(zi(args[1]) <= ropes.rlen(norm(args[0]))):
        return NotImplemented
    return read_utf_any(ip, args, kwargs)


stub(V3 + 'writeInt16', proved_by=['writeInt16_3_is_the_specified_encoding'])(enc_int('int2', 2, 65535, u16_explicit))
stub(V3 + 'readInt16', proved_by=['readInt16_3_inverts_the_encoding'])(dec_int('int2'))
VBI3 = ['contracts.lib.vbi_bytes', 'contracts.spec5.vbi_at', V3 + 'FixedHeaders.encode', V3 + 'FixedHeaders.decode']
PACKET3 = VBI3 + ['contracts.lib.utf8', V3 + 'writeUTF', V3 + 'readUTF', 'contracts.lib.u16', V3 + 'writeInt16', V3 + 'readInt16']
ANY3 = VBI3 + ['contracts.spec5.utf_at', V3 + 'readUTF@any']
