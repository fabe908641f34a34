from pydv.spec import contract
from contracts.lib import vbi_len, vbi_bytes
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3

V5 = 'mqtt.formats.MQTTV5.MQTTV5.VBIs.'


@contract('C01', [V5 + 'encode'])
def vbi_encode_is_the_specified_encoding(g):
    v = g.int('v', 0, 268435455)
    b = M5.VBIs.encode(v)
    g.check('encode(v) is the minimal MQTT encoding of v', b == vbi_bytes(v))
    g.check('1 to 4 bytes', len(b) == vbi_len(v))


@contract('C01', [V5 + 'encode'])
def vbi_encode_rejects_out_of_range(g):
    v = g.int('v', -1000000, 4294967295)
    r, e = g.catch(M5.VBIs.encode, v)
    g.check('out of range values are rejected', (e is None) == (0 <= v <= 268435455))


@contract('C01', [V5 + 'encode', V5 + 'decode'])
def vbi_decode_inverts_encode(g):
    v = g.int('v', 0, 268435455)
    rest = g.bytes('rest')
    x, n = M5.VBIs.decode(M5.VBIs.encode(v) + rest)
    g.check('decode(encode(v) + rest) has value v', x == v)
    g.check('decode(encode(v) + rest) consumes the encoding exactly', n == vbi_len(v))


@contract('C01', [V5 + 'decode'])
def vbi_decode_accepts_only_minimal_encodings(g):
    b = g.bytes('b')
    r, e = g.catch(M5.VBIs.decode, b)
    if e is None:
        x, n = r
        g.check('1 to 4 bytes consumed', 1 <= n and n <= 4 and n <= len(b))
        g.check('value in range', 0 <= x and x <= 268435455)
        g.check('only the minimal encoding of the value is accepted', b[:n] == vbi_bytes(x))
        g.cover('accepted')
    else:
        g.cover('rejected')


V3 = 'mqtt.formats.MQTTV311.MQTTV311.FixedHeaders.'


@contract('C01', [V3 + 'encode'])
def vbi3_encode_is_the_specified_encoding(g):
    v = g.int('v', 0, 268435455)
    b = M3.FixedHeaders(M3.PUBLISH).encode(v)
    g.check('encode(v) is the minimal MQTT encoding of v', b == vbi_bytes(v))
    g.check('1 to 4 bytes', len(b) == vbi_len(v))


@contract('C01', [V3 + 'encode'])
def vbi3_encode_rejects_out_of_range(g):
    v = g.int('v', -1000000, 4294967295)
    r, e = g.catch(M3.FixedHeaders(M3.PUBLISH).encode, v)
    g.check('out of range values are rejected', (e is None) == (0 <= v <= 268435455))


@contract('C01', [V3 + 'encode', V3 + 'decode'])
def vbi3_decode_inverts_encode(g):
    v = g.int('v', 0, 268435455)
    rest = g.bytes('rest')
    fh = M3.FixedHeaders(M3.PUBLISH)
    x, n = fh.decode(fh.encode(v) + rest)
    g.check('decode(encode(v) + rest) has value v', x == v)
    g.check('decode(encode(v) + rest) consumes the encoding exactly', n == vbi_len(v))
