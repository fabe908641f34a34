from contracts.stubs import CODEC5
from pydv.spec import contract
from contracts import spec5 as S
from contracts.gen5 import *
from mqtt.formats.MQTTV5 import MQTTV5 as M5

from contracts.lib import utf8, u16

W = 'mqtt.formats.MQTTV5.MQTTV5.'
P = 'mqtt.formats.MQTTV5.MQTTV5.Properties.'
PTYPES = [S.CONNECT, S.CONNACK, S.PUBLISH, S.PUBACK, S.PUBREC, S.PUBREL, S.PUBCOMP, S.SUBSCRIBE, S.SUBACK,
          S.UNSUBSCRIBE, S.UNSUBACK, S.DISCONNECT, S.AUTH, S.WILL]


@contract('C03', [W + 'writeUTF'], also=['C02', 'C05'])
def writeUTF_is_the_specified_encoding(g):
    s = g.str('s', 0, 65535)
    g.check('two length bytes counting the UTF-8 bytes, then the UTF-8 bytes', M5.writeUTF(s) == utf8(s))


@contract('C03', [W + 'readUTF'], also=['C02', 'C05'])
def readUTF_inverts_the_encoding(g):
    s = g.str('s', 0, 65535)
    e = utf8(s)
    rest = g.bytes('rest')
    m = g.int('limit', 0, 300000000)
    g.assume(m >= len(e))
    v, n = M5.readUTF(e + rest, m)
    g.check('the string', v == s)
    g.check('the bytes it occupied', n == len(e))


@contract('C03', [W + 'writeInt16'], also=['C02'])
def writeInt16_is_the_specified_encoding(g):
    v = g.int('v', 0, 65535)
    g.check('two bytes, most significant first', M5.writeInt16(v) == u16(v))


@contract('C03', [W + 'writeInt32'], also=['C02'])
def writeInt32_is_the_specified_encoding(g):
    v = g.int('v', 0, 4294967295)
    g.check('four bytes, most significant first', M5.writeInt32(v) == S.u32(v))


@contract('C03', [W + 'readInt16'], also=['C02'])
def readInt16_inverts_the_encoding(g):
    v = g.int('v', 0, 65535)
    rest = g.bytes('rest')
    g.check('the value', M5.readInt16(u16(v) + rest) == v)


@contract('C03', [W + 'readInt32'], also=['C02'])
def readInt32_inverts_the_encoding(g):
    v = g.int('v', 0, 4294967295)
    rest = g.bytes('rest')
    g.check('the value', M5.readInt32(S.u32(v) + rest) == v)


@contract('C03', [P + 'pack', P + 'unpack', P + 'writeProperty', P + 'readProperty'], cases=PTYPES, limit=100000, uses=CODEC5)
def property_set_round_trip(g):
    pt = g.case
    p, vals = gen_props(g, pt, fork=False)
    body = enc_body(vals)
    g.assume(len(body) <= 268435455)
    e = S.vbi_bytes(len(body)) + body
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    rest = g.bytes('rest', small=True)
    q = M5.Properties(pt)
    r, n = q.unpack(b + rest)
    g.check('unpack reports the bytes occupied', n == len(b))
    check_props(g, 'unpacked set', q, vals, pt)


@contract('C03', [P + 'isEmpty', P + 'clear'], also=['C02'], cases=PTYPES)
def property_set_emptied(g):
    p, vals = gen_props(g, g.case)
    n = 0
    for name in vals:
        if isinstance(vals[name], list):
            n = n + (1 if len(vals[name]) > 0 else 0)
        else:
            n = n + (1 if vals[name][0] else 0)
    g.check('empty exactly when nothing was set', p.isEmpty() == (n == 0))
    p.clear()
    for (ident, name, kind, packets) in S.PROPS:
        g.check('clear removes ' + name, not hasattr(p, name))
    g.check('empty after clear', p.isEmpty())
    g.check('an empty set packs into one zero byte', p.pack() == b'\x00')


@contract('C03', [P + 'unpack'], also=['C02'], cases=PTYPES)
def property_set_read_replaces(g):
    """unpack forgets what the set held before"""
    p, vals = gen_props(g, g.case)
    rest = g.bytes('rest')
    q, n = p.unpack(b'\x00' + rest)
    g.check('one byte', n == 1)
    for (ident, name, kind, packets) in S.PROPS:
        g.check('unpack drops ' + name, not hasattr(p, name))
