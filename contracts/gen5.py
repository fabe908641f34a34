"""Generators of MQTT 5 values, shared by the contracts (work symbolically and natively)."""
from contracts import spec5 as S
from mqtt.formats.MQTTV5 import MQTTV5 as M5


def prop_value(g, name, kind, maxbytes=65535):
    if kind == 'byte':
        return g.int(name, 0, 255)
    if kind == 'int2':
        return g.int(name, 0, 65535)
    if kind == 'int4':
        return g.int(name, 0, 4294967295)
    if kind == 'vbi':
        return g.int(name, 0, 268435455)
    if kind == 'bin':
        return g.bytes(name, 0, maxbytes)
    if kind == 'str':
        return g.str(name, 0, maxbytes)
    return (g.str(name + ' key', 0, maxbytes), g.str(name + ' value', 0, maxbytes))


def set_prop(g, p, vals, pre, name, kind, fork=False, ptype=None):
    """give property `name` an arbitrary value, or leave it unset; fork: one path per presence"""
    if name in S.MULTI and not (name == 'SubscriptionIdentifier' and ptype == S.SUBSCRIBE):
        def one(g):
            return prop_value(g, name, kind)
        lst = g.list(pre + name, one)
        if len(lst) > 0:
            setattr(p, name, lst)
        vals[name] = lst
    else:
        if fork:
            has = g.pick(pre + 'has ' + name, [False, True])
        else:
            has = g.bool(pre + 'has ' + name)
        v = prop_value(g, pre + name, kind)
        if has:
            setattr(p, name, v)
        vals[name] = (has, v)


def gen_props(g, ptype, names=None, pre='', fork=False):
    p = M5.Properties(ptype)
    vals = {}
    for (ident, name, kind, packets) in S.PROPS:
        if ptype in packets and (names is None or name in names):
            set_prop(g, p, vals, pre, name, kind, fork, ptype)
    return p, vals


def enc_props(vals, names=None):
    b = enc_body(vals)
    return S.vbi_bytes(len(b)) + b


def enc_body(vals):
    """the property section the specification prescribes, properties in identifier order"""
    b = b''
    for (ident, name, kind, packets) in S.PROPS:
        if name in vals:
            if isinstance(vals[name], list):
                for v in vals[name]:
                    b += S.enc_prop(ident, kind, v)
            else:
                has, v = vals[name]
                if has:
                    b += S.enc_prop(ident, kind, v)
    return b


def check_props(g, what, q, vals, ptype):
    for (ident, name, kind, packets) in S.PROPS:
        if name in vals and isinstance(vals[name], list):
            if len(vals[name]) > 0:
                g.check(what + ' keeps ' + name, hasattr(q, name) and getattr(q, name) == vals[name])
            else:
                g.check(what + ' has no ' + name, not hasattr(q, name))
        elif name in vals:
            has, v = vals[name]
            g.check(what + ' has %s exactly when given' % name, hasattr(q, name) == has)
            if has:
                g.check(what + ' keeps ' + name, getattr(q, name) == ([v] if name in S.MULTI else v))
        else:
            g.check(what + ' has no ' + name, not hasattr(q, name))


# ---------------------------------------------------------------- whole property sets, abstractly
# symbolically an arbitrary legal set (see contracts.stubs.PROPS5); natively an explicit one
def propset(g, ptype, pre=''):
    p, vals = gen_props(g, ptype, pre=pre)
    g.assume(len(enc_body(vals)) <= 268435455)
    return p, vals


def enc_propset(vals):
    return enc_props(vals)


def props_kept(q, vals, ptype):
    """the set read is the set given"""
    for (ident, name, kind, packets) in S.PROPS:
        if name in vals and isinstance(vals[name], list):
            if hasattr(q, name) != (len(vals[name]) > 0) or (vals[name] and getattr(q, name) != vals[name]):
                return False
        elif name in vals and vals[name][0]:
            v = vals[name][1]
            if not hasattr(q, name) or getattr(q, name) != ([v] if name in S.MULTI else v):
                return False
        elif hasattr(q, name):
            return False
    return True


def no_props(vals):
    return len(enc_body(vals)) == 0
