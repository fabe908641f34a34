"""MQTT 5 as the OASIS specification states it: property and reason-code tables, encoder.
Independent of /repo; used as the oracle of the codec contracts."""
from contracts.lib import vbi_len, vbi_bytes, u16, utf8, bindata

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, \
    UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
WILL = 99

# identifier, name, type, packets (table 2-4 of the specification)
B, I2, I4, VB, BIN, STR, PAIR = 'byte', 'int2', 'int4', 'vbi', 'bin', 'str', 'pair'
PROPS = [
    (1, 'PayloadFormatIndicator', B, (PUBLISH, WILL)),
    (2, 'MessageExpiryInterval', I4, (PUBLISH, WILL)),
    (3, 'ContentType', STR, (PUBLISH, WILL)),
    (8, 'ResponseTopic', STR, (PUBLISH, WILL)),
    (9, 'CorrelationData', BIN, (PUBLISH, WILL)),
    (11, 'SubscriptionIdentifier', VB, (PUBLISH, SUBSCRIBE)),
    (17, 'SessionExpiryInterval', I4, (CONNECT, CONNACK, DISCONNECT)),
    (18, 'AssignedClientIdentifier', STR, (CONNACK,)),
    (19, 'ServerKeepAlive', I2, (CONNACK,)),
    (21, 'AuthenticationMethod', STR, (CONNECT, CONNACK, AUTH)),
    (22, 'AuthenticationData', BIN, (CONNECT, CONNACK, AUTH)),
    (23, 'RequestProblemInformation', B, (CONNECT,)),
    (24, 'WillDelayInterval', I4, (WILL,)),
    (25, 'RequestResponseInformation', B, (CONNECT,)),
    (26, 'ResponseInformation', STR, (CONNACK,)),
    (28, 'ServerReference', STR, (CONNACK, DISCONNECT)),
    (31, 'ReasonString', STR, (CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH)),
    (33, 'ReceiveMaximum', I2, (CONNECT, CONNACK)),
    (34, 'TopicAliasMaximum', I2, (CONNECT, CONNACK)),
    (35, 'TopicAlias', I2, (PUBLISH,)),
    (36, 'MaximumQoS', B, (CONNACK,)),
    (37, 'RetainAvailable', B, (CONNACK,)),
    (38, 'UserProperty', PAIR, (CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK,
                                UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH, WILL)),
    (39, 'MaximumPacketSize', I4, (CONNECT, CONNACK)),
    (40, 'WildcardSubscriptionAvailable', B, (CONNACK,)),
    (41, 'SubscriptionIdentifierAvailable', B, (CONNACK,)),
    (42, 'SharedSubscriptionAvailable', B, (CONNACK,)),
]
NAMES = [p[1] for p in PROPS]
MULTI = ('SubscriptionIdentifier', 'UserProperty')

# names as the property table of the specification writes them (with spaces)
SPACED = {
    'PayloadFormatIndicator': 'Payload Format Indicator', 'MessageExpiryInterval': 'Message Expiry Interval',
    'ContentType': 'Content Type', 'ResponseTopic': 'Response Topic', 'CorrelationData': 'Correlation Data',
    'SubscriptionIdentifier': 'Subscription Identifier', 'SessionExpiryInterval': 'Session Expiry Interval',
    'AssignedClientIdentifier': 'Assigned Client Identifier', 'ServerKeepAlive': 'Server Keep Alive',
    'AuthenticationMethod': 'Authentication Method', 'AuthenticationData': 'Authentication Data',
    'RequestProblemInformation': 'Request Problem Information', 'WillDelayInterval': 'Will Delay Interval',
    'RequestResponseInformation': 'Request Response Information', 'ResponseInformation': 'Response Information',
    'ServerReference': 'Server Reference', 'ReasonString': 'Reason String', 'ReceiveMaximum': 'Receive Maximum',
    'TopicAliasMaximum': 'Topic Alias Maximum', 'TopicAlias': 'Topic Alias', 'MaximumQoS': 'Maximum QoS',
    'RetainAvailable': 'Retain Available', 'UserProperty': 'User Property', 'MaximumPacketSize': 'Maximum Packet Size',
    'WildcardSubscriptionAvailable': 'Wildcard Subscription Available',
    'SubscriptionIdentifierAvailable': 'Subscription Identifier Available',
    'SharedSubscriptionAvailable': 'Shared Subscription Available'}


def props_for(ptype):
    return [p for p in PROPS if ptype in p[3]]


def u32(v):
    return bytes([v // 16777216, v // 65536 % 256, v // 256 % 256, v % 256])


def enc_value(kind, v):
    if kind == 'byte':
        return bytes([v])
    if kind == 'int2':
        return u16(v)
    if kind == 'int4':
        return u32(v)
    if kind == 'vbi':
        return vbi_bytes(v)
    if kind == 'bin':
        return bindata(v)
    if kind == 'str':
        return utf8(v)
    return utf8(v[0]) + utf8(v[1])


def enc_prop(ident, kind, v):
    return bytes([ident]) + enc_value(kind, v)


# reason codes (table 2-6): value -> [(name, packets)]
REASONS = {
    0: [('Success', (CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK, AUTH)), ('Normal disconnection', (DISCONNECT,)),
        ('Granted QoS 0', (SUBACK,))],
    1: [('Granted QoS 1', (SUBACK,))],
    2: [('Granted QoS 2', (SUBACK,))],
    4: [('Disconnect with will message', (DISCONNECT,))],
    16: [('No matching subscribers', (PUBACK, PUBREC))],
    17: [('No subscription found', (UNSUBACK,))],
    24: [('Continue authentication', (AUTH,))],
    25: [('Re-authenticate', (AUTH,))],
    128: [('Unspecified error', (CONNACK, PUBACK, PUBREC, SUBACK, UNSUBACK, DISCONNECT))],
    129: [('Malformed packet', (CONNACK, DISCONNECT))],
    130: [('Protocol error', (CONNACK, DISCONNECT))],
    131: [('Implementation specific error', (CONNACK, PUBACK, PUBREC, SUBACK, UNSUBACK, DISCONNECT))],
    132: [('Unsupported protocol version', (CONNACK,))],
    133: [('Client identifier not valid', (CONNACK,))],
    134: [('Bad user name or password', (CONNACK,))],
    135: [('Not authorized', (CONNACK, PUBACK, PUBREC, SUBACK, UNSUBACK, DISCONNECT))],
    136: [('Server unavailable', (CONNACK,))],
    137: [('Server busy', (CONNACK, DISCONNECT))],
    138: [('Banned', (CONNACK,))],
    139: [('Server shutting down', (DISCONNECT,))],
    140: [('Bad authentication method', (CONNACK, DISCONNECT))],
    141: [('Keep alive timeout', (DISCONNECT,))],
    142: [('Session taken over', (DISCONNECT,))],
    143: [('Topic filter invalid', (SUBACK, UNSUBACK, DISCONNECT))],
    144: [('Topic name invalid', (CONNACK, PUBACK, PUBREC, DISCONNECT))],
    145: [('Packet identifier in use', (PUBACK, PUBREC, SUBACK, UNSUBACK))],
    146: [('Packet identifier not found', (PUBREL, PUBCOMP))],
    147: [('Receive maximum exceeded', (DISCONNECT,))],
    148: [('Topic alias invalid', (DISCONNECT,))],
    149: [('Packet too large', (CONNACK, DISCONNECT))],
    150: [('Message rate too high', (DISCONNECT,))],
    151: [('Quota exceeded', (CONNACK, PUBACK, PUBREC, SUBACK, DISCONNECT))],
    152: [('Administrative action', (DISCONNECT,))],
    153: [('Payload format invalid', (CONNACK, PUBACK, PUBREC, DISCONNECT))],
    154: [('Retain not supported', (CONNACK, DISCONNECT))],
    155: [('QoS not supported', (CONNACK, DISCONNECT))],
    156: [('Use another server', (CONNACK, DISCONNECT))],
    157: [('Server moved', (CONNACK, DISCONNECT))],
    158: [('Shared subscription not supported', (SUBACK, DISCONNECT))],
    159: [('Connection rate exceeded', (CONNACK, DISCONNECT))],
    160: [('Maximum connect time', (DISCONNECT,))],
    161: [('Subscription identifiers not supported', (SUBACK, DISCONNECT))],
    162: [('Wildcard subscription not supported', (SUBACK, DISCONNECT))],
}


def codes_for(ptype):
    return [v for v in REASONS if any(ptype in packets for (n, packets) in REASONS[v])]


def code_name(ptype, value):
    for (n, packets) in REASONS[value]:
        if ptype in packets:
            return n
    return None


# ---------------------------------------------------------------- reading arbitrary bytes
# Each reader returns what stands at the head of b and the bytes it takes, or None when b does
# not start with a well-formed encoding.

def vbi_at(b):
    v = 0
    for i in range(4):
        if len(b) <= i:
            return None
        v = v + b[i] % 128 * 128 ** i
        if b[i] < 128:
            return (v, i + 1) if vbi_len(v) == i + 1 else None
    return None


def utf_at(b):
    if len(b) < 2:
        return None
    n = b[0] * 256 + b[1]
    if len(b) < 2 + n:
        return None
    try:
        s = b[2:2 + n].decode('utf-8')
    except UnicodeDecodeError:
        return None
    if s.find('\x00') != -1:
        return None
    return (s, 2 + n)


def bin_at(b):
    if len(b) < 2:
        return None
    n = b[0] * 256 + b[1]
    if len(b) < 2 + n:
        return None
    return (b[2:2 + n], 2 + n)


def value_at(kind, b):
    if kind == 'byte':
        return (b[0], 1) if len(b) >= 1 else None
    if kind == 'int2':
        return (b[0] * 256 + b[1], 2) if len(b) >= 2 else None
    if kind == 'int4':
        return (b[0] * 16777216 + b[1] * 65536 + b[2] * 256 + b[3], 4) if len(b) >= 4 else None
    if kind == 'vbi':
        return vbi_at(b)
    if kind == 'bin':
        return bin_at(b)
    if kind == 'str':
        return utf_at(b)
    k = utf_at(b)
    if k is None:
        return None
    v = utf_at(b[k[1]:])
    if v is None:
        return None
    return ((k[0], v[0]), k[1] + v[1])


def section(ptype, b, limit=None):
    """the property section at the head of b: ({name: value or list}, length) or None; 'more' when it
    goes on after `limit` properties"""
    r = vbi_at(b)
    if r is None:
        return None
    n = r[0]
    b = b[r[1]:]
    out = {}
    k = 0
    while n > 0:
        if k == limit:
            return 'more'
        k = k + 1
        i = vbi_at(b)
        if i is None:
            return None
        row = [p for p in PROPS if p[0] == i[0] and ptype in p[3]]
        if not row:
            return None
        name, kind = row[0][1], row[0][2]
        b = b[i[1]:]
        v = value_at(kind, b)
        if v is None or i[1] + v[1] > n:
            return None
        if name == 'UserProperty' or (name == 'SubscriptionIdentifier' and ptype == PUBLISH):
            out[name] = out.get(name, []) + [v[0]]
        elif name in out:
            return None
        else:
            out[name] = [v[0]] if name in MULTI else v[0]
        b = b[v[1]:]
        n = n - i[1] - v[1]
    return (out, r[0] + r[1])


def seclen(ptype, b):
    """length of the well-formed property section at the head of b, -1 if there is none"""
    r = section(ptype, b)
    return -1 if r is None else r[1]


def id_at(b):
    """a non-zero packet identifier"""
    if len(b) < 2:
        return None
    v = b[0] * 256 + b[1]
    return v if v > 0 else None


FLAGS = {PUBREL: 2, SUBSCRIBE: 2, UNSUBSCRIBE: 2}


def ack_ok(ptype, body):
    """well-formed body of PUBACK, PUBREC, PUBREL, PUBCOMP (the identifier's value is not judged)"""
    if len(body) < 2:
        return False
    if len(body) == 2:
        return True
    if body[2] not in codes_for(ptype):
        return False
    return len(body) == 3 or seclen(ptype, body[3:]) == len(body) - 3


def connack_ok(body):
    return len(body) >= 3 and body[0] in (0, 1) and body[1] in codes_for(CONNACK) and \
        seclen(CONNACK, body[2:]) == len(body) - 2


def disconnect_ok(body):
    if len(body) == 0:
        return True
    if body[0] not in codes_for(DISCONNECT):
        return False
    return len(body) == 1 or seclen(DISCONNECT, body[1:]) == len(body) - 1


def auth_ok(body):
    return len(body) >= 2 and body[0] in codes_for(AUTH) and seclen(AUTH, body[1:]) == len(body) - 1


def publish_ok(qos, dup, body):
    if qos == 3 or (qos == 0 and dup):
        return False
    t = utf_at(body)
    if t is None:
        return False
    i = t[1]
    if qos > 0:
        if id_at(body[i:]) is None:
            return False
        i = i + 2
    return seclen(PUBLISH, body[i:]) >= 0


def connect_ok(body):
    n = utf_at(body)
    if n is None or n[0] != 'MQTT':
        return False
    b = body[n[1]:]
    if len(b) < 4 or b[0] != 5:
        return False
    f = b[1]
    will, wq, wr = f // 4 % 2, f // 8 % 4, f // 32 % 2
    if f % 2 != 0 or wq == 3 or (will == 0 and (wq > 0 or wr > 0)):
        return False
    user, pw = f // 128, f // 64 % 2
    if pw and not user:
        return False
    b = b[4:]
    n = seclen(CONNECT, b)
    if n < 0:
        return False
    b = b[n:]
    s = utf_at(b)
    if s is None:
        return False
    b = b[s[1]:]
    if will:
        n = seclen(WILL, b)
        if n < 0:
            return False
        b = b[n:]
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
        s = bin_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    if user:
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    if pw:
        s = bin_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    return len(b) == 0


def subscribe_ok(body, limit=None):
    if id_at(body) is None:
        return False
    n = seclen(SUBSCRIBE, body[2:])
    if n < 0:
        return False
    b = body[2 + n:]
    if len(b) == 0:
        return False
    k = 0
    while len(b) > 0:
        if k == limit:
            return None
        k = k + 1
        s = utf_at(b)
        if s is None or len(b) < s[1] + 1:
            return False
        o = b[s[1]]
        if o >= 64 or o % 4 == 3 or o // 16 == 3:
            return False
        b = b[s[1] + 1:]
    return True


def unsubscribe_ok(body, limit=None):
    if id_at(body) is None:
        return False
    n = seclen(UNSUBSCRIBE, body[2:])
    if n < 0:
        return False
    b = body[2 + n:]
    if len(b) == 0:
        return False
    k = 0
    while len(b) > 0:
        if k == limit:
            return None
        k = k + 1
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    return True


def suback_ok(ptype, body, limit=None):
    """an empty list of codes is not judged here"""
    if len(body) < 2:
        return False
    n = seclen(ptype, body[2:])
    if n < 0:
        return False
    b = body[2 + n:]
    k = 0
    while k < len(b):
        if k == limit:
            return None
        if b[k] not in codes_for(ptype):
            return False
        k = k + 1
    return True


def body_ok(ptype, flags, body, limit=None):
    """whether it is a well-formed packet of the type; None when its list goes on after `limit` entries"""
    if ptype == PUBLISH:
        return publish_ok(flags // 2 % 4, flags // 8 == 1, body)
    if flags != FLAGS.get(ptype, 0):
        return False
    if ptype == CONNECT:
        return connect_ok(body)
    if ptype == CONNACK:
        return connack_ok(body)
    if ptype in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        return ack_ok(ptype, body)
    if ptype == SUBSCRIBE:
        return subscribe_ok(body, limit)
    if ptype == UNSUBSCRIBE:
        return unsubscribe_ok(body, limit)
    if ptype in (SUBACK, UNSUBACK):
        return suback_ok(ptype, body, limit)
    if ptype in (PINGREQ, PINGRESP):
        return len(body) == 0
    if ptype == DISCONNECT:
        return disconnect_ok(body)
    return auth_ok(body)
