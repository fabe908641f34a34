"""C05: bytes that are not a well-formed MQTT 5 packet are refused."""
from contracts.stubs import VBI, ANY5
from pydv.spec import contract
from contracts import spec5 as S
from contracts.gen5 import *
from contracts.lib import utf8, u16, bindata, vbi_bytes
from mqtt.formats.MQTTV5 import MQTTV5 as M5

W = 'mqtt.formats.MQTTV5.MQTTV5.'
BIG = 300000000
TYPES = {'CONNECT': 1, 'CONNACK': 2, 'PUBLISH': 3, 'PUBACK': 4, 'PUBREC': 5, 'PUBREL': 6, 'PUBCOMP': 7, 'SUBSCRIBE': 8,
         'SUBACK': 9, 'UNSUBSCRIBE': 10, 'UNSUBACK': 11, 'PINGREQ': 12, 'PINGRESP': 13, 'DISCONNECT': 14, 'AUTH': 15}


@contract('C05', [W + 'readUTF'])
def readUTF_accepts_exactly_legal_strings(g):
    b = g.bytes('buffer')
    m = g.int('limit', 0, 300000000)
    s = S.utf_at(b)
    r, e = g.catch(M5.readUTF, b, m)
    g.check('refused exactly when it is not a length-prefixed legal string within the limit',
            (e is None) == (s is not None and s[1] <= m))
    if e is None:
        g.check('the string and the bytes it occupies', r[0] == s[0] and r[1] == s[1])


@contract('C05', [W + 'readBytes'])
def readBytes_accepts_exactly_complete_data(g):
    b = g.bytes('buffer')
    s = S.bin_at(b)
    r, e = g.catch(M5.readBytes, b)
    g.check('refused exactly when the declared length runs past the end', (e is None) == (s is not None))
    if e is None:
        g.check('the data and the bytes it occupies', r[0] == s[0] and r[1] == s[1])


KINDS = ['byte', 'int2', 'int4', 'vbi', 'bin', 'str', 'pair']


@contract('C05', [W + 'Properties.readProperty'], cases=KINDS)
def readProperty_accepts_exactly_complete_values(g):
    b = g.bytes('buffer')
    p = M5.Properties(S.PUBLISH)
    m = g.int('limit', 0, 300000000)
    g.assume(m >= len(b))
    s = S.value_at(g.case, b)
    r, e = g.catch(p.readProperty, b, KINDS.index(g.case), m)
    g.check('refused exactly when no complete value is there', (e is None) == (s is not None))
    if e is None:
        g.check('takes at least one byte', r[1] >= 1)
        g.check('the value and the bytes it occupies', r[0] == s[0] and r[1] == s[1])


@contract('C05', [W + 'FixedHeaders.unpack'])
def fixed_header_is_read_bit_by_bit(g):
    b0 = g.int('first byte', 0, 255)
    n = g.int('remaining length', 0, 268435455)
    maximum = g.int('maximum packet size', 1, 4294967295)
    rest = g.bytes('rest')
    f = M5.FixedHeaders(M5.PacketTypes.PUBLISH)
    e1 = vbi_bytes(n)
    r, e = g.catch(f.unpack, bytes([b0]) + e1 + rest, maximum)
    g.check('refused exactly when the packet exceeds the maximum', (e is None) == (1 + len(e1) + n <= maximum))
    if e is None:
        g.check('header length', r == 1 + len(e1))
        g.check('fields', f.PacketType == b0 // 16 and f.DUP == (b0 // 8 % 2 == 1) and f.QoS == b0 // 2 % 4
                and f.RETAIN == (b0 % 2 == 1) and f.remainingLength == n)


def whole(g, ptype, flags, body):
    g.assume(len(body) <= 268435455)
    return bytes([ptype * 16 + flags]) + vbi_bytes(len(body)) + body


FIXED = [t for t in TYPES if t not in ('CONNECT', 'SUBSCRIBE', 'UNSUBSCRIBE', 'SUBACK', 'UNSUBACK')]


@contract('C05', [W + t for t in ('unpackPacket', 'Connacks.unpack', 'Publishes.unpack', 'Acks.unpack',
                                  'Pingreqs.unpack', 'Pingresps.unpack', 'Disconnects.unpack', 'Auths.unpack')],
          cases=FIXED, uses=ANY5, limit=100000)
def packet_accepted_exactly_when_well_formed(g):
    t = TYPES[g.case]
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, flags, body)
    p, e = g.catch(M5.unpackPacket, b, BIG)
    g.check('accepted exactly when well-formed', (e is None) == ok)
    if e is None:
        g.cover('accepted')
    else:
        g.cover('refused')


# every body is in one of these cases: by the byte that holds the connect flags when the protocol name is MQTT
CONNECT_CASES = ['no flags byte'] + [(u, p, w) for u in (0, 1) for p in (0, 1) for w in (0, 1)]


@contract('C05', [W + 'unpackPacket', W + 'Connects.unpack'], cases=CONNECT_CASES, uses=ANY5, limit=100000)
def connect_accepted_exactly_when_well_formed(g):
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, S.CONNECT, flags, body)
    if g.case == 'no flags byte':
        g.assume(len(body) <= 7)
    else:
        u, p, w = g.case
        g.assume(len(body) > 7)
        g.assume(body[7] // 128 == u and body[7] // 64 % 2 == p and body[7] // 4 % 2 == w)
    ok = S.body_ok(S.CONNECT, flags, body)
    p, e = g.catch(M5.unpackPacket, b, BIG)
    g.check('accepted exactly when well-formed', (e is None) == ok)


@contract('C05', [W + t for t in ('Subscribes.unpack', 'Unsubscribes.unpack', 'UnsubSubacks.unpack')],
          cases=['SUBSCRIBE', 'UNSUBSCRIBE', 'SUBACK', 'UNSUBACK'], uses=ANY5, limit=100000, max_unroll=3,
          bounded='at most 2 entries in the payload list, each of any length')
def list_packet_accepted_exactly_when_well_formed(g):
    t = TYPES[g.case]
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, S.FLAGS.get(t, 0), body, 2)
    g.assume(ok is not None)
    p, e = g.catch(M5.unpackPacket, b, BIG)
    g.check('accepted exactly when well-formed', (e is None) == (ok and flags == S.FLAGS.get(t, 0)))


@contract('C05', [W + 'unpackPacket', W + 'FixedHeaders.unpack'], cases=list(TYPES), uses=ANY5)
def oversized_packet_refused(g):
    """whatever it contains"""
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, TYPES[g.case], flags, body)
    m = g.int('maximum packet size', 1, 268435460)
    g.assume(len(b) > m)
    p, e = g.catch(M5.unpackPacket, b, m)
    g.check('refused', e is not None)


@contract('C05', [W + 'unpackPacket', W + 'FixedHeaders.unpack'], cases=list(TYPES), uses=ANY5, limit=100000)
def truncated_packet_refused(g):
    """whatever it contains: fewer bytes are there than the remaining length declares"""
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    n = g.int('remaining length', 0, 268435455)
    g.assume(len(body) < n)
    p, e = g.catch(M5.unpackPacket, bytes([TYPES[g.case] * 16 + flags]) + vbi_bytes(n) + body, BIG)
    g.check('refused', e is not None)


@contract('C05', [W + 'unpackPacket'])
def reserved_packet_type_refused(g):
    rest = g.bytes('rest')
    p, e = g.catch(M5.unpackPacket, bytes([g.int('flags', 0, 15)]) + rest, BIG)
    g.check('refused', e is not None)


SECTION_TYPES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 99]


SECTION = [W + 'Properties.unpack', W + 'Properties.readProperty', W + 'Properties.getNameFromIdent']


def read_section(g, b, most):
    s = S.section(g.case, b, most)
    g.assume(s is None or s != 'more')
    p = M5.Properties(g.case)
    r, e = g.catch(p.unpack, b)
    g.check('accepted exactly when well-formed', (e is None) == (s is not None))
    if e is None:
        g.check('the bytes it occupies', r[1] == s[1])
        for name in S.NAMES:
            if name in s[0]:
                g.check('value of ' + name, hasattr(p, name) and getattr(p, name) == s[0][name])
            else:
                g.check('no ' + name, not hasattr(p, name))


@contract('C05', SECTION, cases=SECTION_TYPES, uses=VBI, limit=100000, max_unroll=6, timeout=120,
          bounded='property sections of at most 1 property, of any length')
def property_section_accepted_exactly_when_well_formed(g):
    n = g.int('declared length', 1, 268435455)
    ident = g.pick('identifier', [r[0] for r in S.PROPS])
    rest = g.bytes('rest')
    read_section(g, vbi_bytes(n) + bytes([ident]) + rest, 1)


@contract('C05', SECTION, cases=[S.SUBSCRIBE, S.UNSUBSCRIBE], uses=VBI, limit=100000, max_unroll=6, thorough_only=True, timeout=600,
          bounded='property sections of at most 2 properties, each of any length')
def property_section_of_two_accepted_exactly_when_well_formed(g):
    n = g.int('declared length', 1, 268435455)
    ident = g.pick('identifier', [r[0] for r in S.props_for(g.case)])
    rest = g.bytes('rest')
    read_section(g, vbi_bytes(n) + bytes([ident]) + rest, 2)


@contract('C05', SECTION, cases=SECTION_TYPES, uses=VBI, max_unroll=2)
def identifier_of_no_property_refused(g):
    n = g.int('declared length', 1, 268435455)
    ident = g.int('identifier', 0, 268435455)
    g.assume(ident not in [r[0] for r in S.PROPS])
    rest = g.bytes('rest')
    r, e = g.catch(M5.Properties(g.case).unpack, vbi_bytes(n) + vbi_bytes(ident) + rest)
    g.check('refused', e is not None)


@contract('C05', SECTION, cases=SECTION_TYPES, uses=VBI, max_unroll=2)
def section_whose_properties_are_missing(g):
    n = g.int('declared length', 0, 268435455)
    rest = g.bytes('rest')
    g.assume(n == 0 or len(rest) == 0)
    p = M5.Properties(g.case)
    r, e = g.catch(p.unpack, vbi_bytes(n) + rest)
    g.check('accepted exactly when it declares an empty section', (e is None) == (n == 0))
    if e is None:
        g.check('the bytes it occupies', r[1] == 1 and p.isEmpty())


@contract('C05', [W + 'VBIs.decode'], uses=VBI)
def variable_byte_integer_accepted_exactly_when_well_formed(g):
    b = g.bytes('buffer')
    s = S.vbi_at(b)
    r, e = g.catch(M5.VBIs.decode, b)
    g.check('accepted exactly when well-formed', (e is None) == (s is not None))
    if e is None:
        g.check('value and bytes it occupies', r[0] == s[0] and r[1] == s[1])


# ---------------------------------------------------------------- random packets close to well-formed ones (native runs only)
def some_section(g, ptype, tag):
    body = b''
    rows = S.props_for(ptype) if g.int(tag + ' odd', 0, 9) > 0 else S.PROPS
    for i in range(g.int(tag + ' properties', 0, 3)):
        ident, name, kind, packets = rows[g.int('%s row %d' % (tag, i), 0, len(rows) - 1)]
        body += S.enc_prop(ident, kind, prop_value(g, '%s value %d' % (tag, i), kind, 12))
    return vbi_bytes(len(body)) + body


def some_body(g, t):
    if t == S.CONNECT:
        f = g.pick('connect flags', [0, 2, 4, 6, 12, 20, 44, 128, 130, 192, 196, 238, 64, 1, 28, 8, 32])
        b = utf8('MQTT') + bytes([g.pick('version', [5, 5, 5, 4])]) + bytes([f]) + u16(g.int('keep alive')) + some_section(g, t, 'p')
        b += utf8(g.str('client', 0, 12))
        if f // 4 % 2:
            b += some_section(g, S.WILL, 'w') + utf8(g.str('will topic', 0, 12)) + bindata(g.bytes('will message', 0, 12))
        if f // 128:
            b += utf8(g.str('user', 0, 12))
        if f // 64 % 2:
            b += bindata(g.bytes('password', 0, 12))
        return b
    if t == S.PUBLISH:
        b = utf8(g.str('topic', 0, 12))
        if g.bool('identifier'):
            b += u16(g.int('packet id'))
        return b + some_section(g, t, 'p') + g.bytes('payload', 0, 12)
    if t in (S.PINGREQ, S.PINGRESP):
        return g.bytes('payload', 0, 2)
    code = bytes([g.pick('code', S.codes_for(t) if g.int('odd code', 0, 5) > 0 else list(range(256)))] if S.codes_for(t) else [])
    if t == S.CONNACK:
        return bytes([g.pick('ack flags', [0, 1, 1, 0, 2])]) + code + some_section(g, t, 'p')
    if t in (S.DISCONNECT, S.AUTH):
        return g.pick('form', [b'', code, code + some_section(g, t, 'p')])
    head = u16(g.int('packet id'))
    if t in (S.PUBACK, S.PUBREC, S.PUBREL, S.PUBCOMP):
        return head + g.pick('form', [b'', code, code + some_section(g, t, 'p')])
    head += some_section(g, t, 'p')
    for i in range(g.int('entries', 0, 3)):
        if t in (S.SUBACK, S.UNSUBACK):
            head += bytes([g.pick('code %d' % i, S.codes_for(t) if g.int('odd code %d' % i, 0, 9) > 0 else list(range(256)))])
        else:
            head += utf8(g.str('filter %d' % i, 0, 12))
            if t == S.SUBSCRIBE:
                head += bytes([g.int('options %d' % i, 0, 63) if g.int('odd options %d' % i, 0, 9) > 0 else g.int('options %d' % i, 0, 255)])
    return head


@contract('C05', [W + 'unpackPacket'], cases=list(TYPES), concrete_only=True, search=2,
          bounded='random near-well-formed packets')
def nearly_well_formed_packets(g):
    t = TYPES[g.case]
    flags = S.FLAGS.get(t, 0) if t != S.PUBLISH else g.pick('flags', [0, 1, 2, 4, 10, 13, 6, 8])
    if g.int('odd flags', 0, 19) == 0:
        flags = g.int('other flags', 0, 15)
    body = some_body(g, t)
    for i in range(g.pick('mutations', [0, 0, 0, 1, 1, 2])):
        k = g.int('position %d' % i, 0, max(0, len(body) - 1))
        how = g.pick('mutation %d' % i, ['set', 'cut', 'drop', 'add'])
        v = bytes([g.pick('byte %d' % i, [0, 1, 2, 3, 127, 128, 129, 255, 38, 31, 11])])
        body = {'set': body[:k] + v + body[k + 1:], 'cut': body[:k], 'drop': body[:k] + body[k + 1:], 'add': body[:k] + v + body[k:]}[how]
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, flags, body)
    p, e = g.catch(M5.unpackPacket, b, BIG)
    g.check('accepted exactly when well-formed', (e is None) == ok, '%r' % b)
    g.cover('accepted' if ok else 'refused')
