from contracts.stubs import CODEC5
from pydv.spec import contract
from contracts import spec5 as S
from contracts.gen5 import *
from contracts.c03_props import PTYPES, P
from mqtt.formats.MQTTV5 import MQTTV5 as M5


@contract('C04', [P + '__setattr__'], cases=PTYPES, limit=100000)
def property_set_by_program_iff_listed(g):
    pt = g.case
    (ident, name, kind, packets) = g.pick('property', S.PROPS)
    v = prop_value(g, 'v', kind)
    spaced = g.pick('spaced', [False, True])
    p = M5.Properties(pt)
    r, e = g.catch(setattr, p, S.SPACED[name] if spaced else name, v)
    g.check('accepted exactly when the specification lists it for the packet', (e is None) == (pt in packets))
    if e is None:
        if name in S.MULTI:
            g.check('value stored', getattr(p, name) == [v])
        else:
            g.check('value stored', getattr(p, name) == v)
    for n in S.NAMES:
        if n != name or e is not None:
            g.check('no other property set', not hasattr(p, n))


@contract('C04', [P + '__setattr__'], cases=PTYPES)
def unknown_property_name_refused(g):
    p = M5.Properties(g.case)
    name = g.str('name', 0, 100)
    flat = name.replace(' ', '')
    for n in S.NAMES:
        g.assume(flat != n)
    for n in ('packetType', 'types', 'names', 'properties'):
        g.assume(flat != n)
    r, e = g.catch(p.__setattr__, name, 1)
    g.check('refused', e is not None)


@contract('C04', [P + 'unpack'], cases=PTYPES, uses=CODEC5, limit=100000)
def property_received_iff_listed(g):
    pt = g.case
    (ident, name, kind, packets) = g.pick('property', S.PROPS)
    v = prop_value(g, 'v', kind)
    body = S.enc_prop(ident, kind, v)
    rest = g.bytes('rest', small=True)
    p = M5.Properties(pt)
    r, e = g.catch(p.unpack, S.vbi_bytes(len(body)) + body + rest)
    g.check('accepted exactly when the specification lists it for the packet', (e is None) == (pt in packets))
    if e is None:
        g.check('the value', getattr(p, name) == ([v] if name in S.MULTI else v))


@contract('C04', [P + 'unpack'], cases=PTYPES)
def unknown_property_identifier_refused(g):
    ident = g.int('ident', 0, 268435455)
    for (i, name, kind, packets) in S.PROPS:
        g.assume(ident != i)
    more = g.bytes('value', small=True)
    n = g.int('length', 1, 268435455)
    p = M5.Properties(g.case)
    r, e = g.catch(p.unpack, S.vbi_bytes(n) + S.vbi_bytes(ident) + more)
    g.check('refused', e is not None)


@contract('C04', [P + 'unpack'], cases=PTYPES, uses=CODEC5, limit=100000)
def repeated_property(g):
    pt = g.case
    (ident, name, kind, packets) = g.pick('property', S.props_for(pt))
    a, b = prop_value(g, 'first', kind), prop_value(g, 'second', kind)
    body = S.enc_prop(ident, kind, a)
    if g.pick('another between', [False, True]):
        (i2, n2, k2, p2) = g.pick('between', S.props_for(pt))
        g.assume(i2 != ident)
        body += S.enc_prop(i2, k2, prop_value(g, 'v2', k2))
    body += S.enc_prop(ident, kind, b)
    p = M5.Properties(pt)
    r, e = g.catch(p.unpack, S.vbi_bytes(len(body)) + body)
    may = name == 'UserProperty' or (name == 'SubscriptionIdentifier' and pt == S.PUBLISH)
    g.check('repeats are accepted exactly where they are allowed', (e is None) == may)
    if e is None:
        g.check('both values, in order', getattr(p, name) == [a, b])
