"""C08: bytes that are not a well-formed MQTT 3.1.1 packet are refused."""
from contracts.stubs import ANY3
from pydv.spec import contract
from contracts import spec3 as S
from contracts.spec5 import utf_at, bin_at
from contracts.lib import utf8, u16, bindata, vbi_bytes
from mqtt.formats.MQTTV311 import MQTTV311 as M3

W = 'mqtt.formats.MQTTV311.MQTTV311.'


@contract('C08', [W + 'readUTF'])
def readUTF3_accepts_exactly_legal_strings(g):
    b = g.bytes('buffer')
    m = g.int('limit', 0, 300000000)
    g.assume(m <= len(b))                    # what every caller passes: the bytes left in the packet
    s = utf_at(b)
    r, e = g.catch(M3.readUTF, b, m)
    g.check('refused exactly when it is not a length-prefixed legal string within the limit',
            (e is None) == (s is not None and s[1] <= m))
    if e is None:
        g.check('the string and the bytes it occupies', r[0] == s[0] and r[1] == s[1])


@contract('C08', [W + 'readBytes'])
def readBytes3_accepts_exactly_complete_data(g):
    b = g.bytes('buffer')
    s = bin_at(b)
    r, e = g.catch(M3.readBytes, b)
    g.check('refused exactly when the declared length runs past the end', (e is None) == (s is not None))
    if e is None:
        g.check('the data', r == s[0])


@contract('C08', [W + 'FixedHeaders.unpack'])
def fixed_header3_is_read_bit_by_bit(g):
    b0 = g.int('first byte', 0, 255)
    n = g.int('remaining length', 0, 268435455)
    rest = g.bytes('rest')
    f = M3.FixedHeaders(M3.PUBLISH)
    e1 = vbi_bytes(n)
    r = f.unpack(bytes([b0]) + e1 + rest)
    g.check('header length', r == 1 + len(e1))
    g.check('fields', f.MessageType == b0 // 16 and f.DUP == (b0 // 8 % 2 == 1) and f.QoS == b0 // 2 % 4
            and f.RETAIN == (b0 % 2 == 1) and f.remainingLength == n)


def whole(g, ptype, flags, body):
    g.assume(len(body) <= 268435455)
    return bytes([ptype * 16 + flags]) + vbi_bytes(len(body)) + body


FIXED = [t for t in S.TYPES if t not in ('CONNECT', 'SUBSCRIBE', 'UNSUBSCRIBE', 'SUBACK')]
FIXED_FUNCS = [W + t for t in ('unpackPacket', 'MessageType', 'Connacks.unpack', 'Publishes.unpack', 'Pubacks.unpack', 'Pubrecs.unpack',
                               'Pubrels.unpack', 'Pubcomps.unpack', 'Unsubacks.unpack', 'Pingreqs.unpack', 'Pingresps.unpack', 'Disconnects.unpack')]


@contract('C08', FIXED_FUNCS, cases=FIXED, uses=ANY3, limit=100000)
def packet3_accepted_exactly_when_well_formed(g):
    t = S.TYPES[g.case]
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, flags, body)
    p, e = g.catch(M3.unpackPacket, b)
    g.check('accepted exactly when well-formed', (e is None) == ok)
    if e is None:
        g.cover('accepted')
    else:
        g.cover('refused')


CONNECT_CASES = ['no flags byte'] + [(u, p, w) for u in (0, 1) for p in (0, 1) for w in (0, 1)]


@contract('C08', [W + 'unpackPacket', W + 'Connects.unpack'], cases=CONNECT_CASES, uses=ANY3, limit=100000)
def connect3_accepted_exactly_when_well_formed(g):
    """every body is in one of these cases: by the byte that holds the connect flags when the protocol name is MQTT"""
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, S.CONNECT, flags, body)
    if g.case == 'no flags byte':
        g.assume(len(body) <= 7)
    else:
        u, p, w = g.case
        g.assume(len(body) > 7)
        g.assume(body[7] // 128 == u and body[7] // 64 % 2 == p and body[7] // 4 % 2 == w)
    ok = S.body_ok(S.CONNECT, flags, body)
    p, e = g.catch(M3.unpackPacket, b)
    g.check('accepted exactly when well-formed', (e is None) == ok)


@contract('C08', [W + t for t in ('Subscribes.unpack', 'Unsubscribes.unpack', 'Subacks.unpack')],
          cases=['SUBSCRIBE', 'UNSUBSCRIBE', 'SUBACK'], uses=ANY3, limit=100000, max_unroll=4,
          bounded='at most 3 entries in the payload list, each of any length')
def list_packet3_accepted_exactly_when_well_formed(g):
    t = S.TYPES[g.case]
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, S.FLAGS.get(t, 0), body, 3)
    g.assume(ok is not None)
    p, e = g.catch(M3.unpackPacket, b)
    g.check('accepted exactly when well-formed', (e is None) == (ok and flags == S.FLAGS.get(t, 0)))


@contract('C08', [W + 'unpackPacket'] , cases=list(S.TYPES), uses=ANY3, max_unroll=4, limit=100000)
def truncated3_packet_refused(g):
    """whatever it contains: fewer bytes are there than the remaining length declares"""
    flags = g.int('flags', 0, 15)
    body = g.bytes('body')
    n = g.int('remaining length', 0, 268435455)
    g.assume(len(body) < n)
    p, e = g.catch(M3.unpackPacket, bytes([S.TYPES[g.case] * 16 + flags]) + vbi_bytes(n) + body)
    g.check('refused', e is not None)


@contract('C08', [W + 'unpackPacket'])
def reserved_packet3_types_refused(g):
    t = g.pick('type', [0, 15])
    rest = g.bytes('rest')
    p, e = g.catch(M3.unpackPacket, bytes([t * 16 + g.int('flags', 0, 15)]) + rest)
    g.check('refused', e is not None)


# ---------------------------------------------------------------- random packets close to well-formed ones (native runs only)
def some_body(g, t):
    if t == S.CONNECT:
        f = g.pick('connect flags', [0, 2, 4, 6, 12, 20, 44, 128, 130, 192, 196, 238, 64, 1, 28, 8, 32])
        b = utf8('MQTT') + bytes([4]) + bytes([f]) + u16(g.int('keep alive')) + utf8(g.str('client', 0, 12))
        if f // 4 % 2:
            b += utf8(g.str('will topic', 0, 12)) + bindata(g.bytes('will message', 0, 12))
        if f // 128:
            b += utf8(g.str('user', 0, 12))
        if f // 64 % 2:
            b += bindata(g.bytes('password', 0, 12))
        return b
    if t == S.PUBLISH:
        b = utf8(g.str('topic', 0, 12))
        if g.bool('identifier'):
            b += u16(g.int('packet id'))
        return b + g.bytes('payload', 0, 12)
    if t in (S.PINGREQ, S.PINGRESP, S.DISCONNECT):
        return g.bytes('payload', 0, 2)
    if t == S.CONNACK:
        return bytes([g.pick('ack flags', [0, 1, 1, 0, 2]), g.int('code', 0, 5)])
    head = u16(g.int('packet id'))
    if t in (S.SUBSCRIBE, S.UNSUBSCRIBE, S.SUBACK):
        for i in range(g.int('entries', 1, 3)):
            if t == S.SUBACK:
                head += bytes([g.pick('code %d' % i, [0, 1, 2, 128, 3])])
            else:
                head += utf8(g.str('filter %d' % i, 0, 12))
                if t == S.SUBSCRIBE:
                    head += bytes([g.pick('qos %d' % i, [0, 1, 2, 1, 2, 3, 4])])
    return head


@contract('C08', [W + 'unpackPacket'], cases=list(S.TYPES), concrete_only=True, search=2,
          bounded='random near-well-formed packets')
def nearly_well_formed_packets3(g):
    t = S.TYPES[g.case]
    flags = S.FLAGS.get(t, 0) if t != S.PUBLISH else g.pick('flags', [0, 1, 2, 4, 10, 13, 6, 8])
    if g.int('odd flags', 0, 19) == 0:
        flags = g.int('other flags', 0, 15)
    body = some_body(g, t)
    for i in range(g.pick('mutations', [0, 0, 0, 1, 1, 2])):
        k = g.int('position %d' % i, 0, max(0, len(body) - 1))
        how = g.pick('mutation %d' % i, ['set', 'cut', 'drop', 'add'])
        v = bytes([g.pick('byte %d' % i, [0, 1, 2, 3, 127, 128, 129, 255])])
        body = {'set': body[:k] + v + body[k + 1:], 'cut': body[:k], 'drop': body[:k] + body[k + 1:], 'add': body[:k] + v + body[k:]}[how]
    b = whole(g, t, flags, body)
    ok = S.body_ok(t, flags, body)
    p, e = g.catch(M3.unpackPacket, b)
    g.check('accepted exactly when well-formed', (e is None) == ok, '%r' % b)
    g.cover('accepted' if ok else 'refused')
