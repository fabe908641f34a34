"""MQTT 3.1.1 as the OASIS specification states it: which packet bodies are well-formed.
Independent of /repo; used as the oracle of the codec contracts."""
from contracts.spec5 import utf_at, bin_at, id_at

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, \
    UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT = range(1, 15)
TYPES = {'CONNECT': 1, 'CONNACK': 2, 'PUBLISH': 3, 'PUBACK': 4, 'PUBREC': 5, 'PUBREL': 6, 'PUBCOMP': 7, 'SUBSCRIBE': 8,
         'SUBACK': 9, 'UNSUBSCRIBE': 10, 'UNSUBACK': 11, 'PINGREQ': 12, 'PINGRESP': 13, 'DISCONNECT': 14}
FLAGS = {PUBREL: 2, SUBSCRIBE: 2, UNSUBSCRIBE: 2}


def connect_ok(body):
    """the protocol level is judged by the receiver, not here"""
    n = utf_at(body)
    if n is None or n[0] != 'MQTT':
        return False
    b = body[n[1]:]
    if len(b) < 4:
        return False
    f = b[1]
    will, wq, wr = f // 4 % 2, f // 8 % 4, f // 32 % 2
    if f % 2 != 0 or wq == 3 or (will == 0 and (wq > 0 or wr > 0)):
        return False
    user, pw = f // 128, f // 64 % 2
    if pw and not user:
        return False
    b = b[4:]
    s = utf_at(b)
    if s is None:
        return False
    b = b[s[1]:]
    if will:
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
        s = bin_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    if user:
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    if pw:
        s = bin_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    return len(b) == 0


def publish_ok(qos, dup, body):
    if qos == 3 or (qos == 0 and dup):
        return False
    t = utf_at(body)
    if t is None:
        return False
    return qos == 0 or id_at(body[t[1]:]) is not None


def subscribe_ok(body, limit=None):
    if id_at(body) is None:
        return False
    b = body[2:]
    if len(b) == 0:
        return False
    k = 0
    while len(b) > 0:
        if k == limit:
            return None
        k = k + 1
        s = utf_at(b)
        if s is None or len(b) < s[1] + 1:
            return False
        if b[s[1]] > 2:
            return False
        b = b[s[1] + 1:]
    return True


def unsubscribe_ok(body, limit=None):
    """an empty list is not judged here"""
    if id_at(body) is None:
        return False
    b = body[2:]
    k = 0
    while len(b) > 0:
        if k == limit:
            return None
        k = k + 1
        s = utf_at(b)
        if s is None:
            return False
        b = b[s[1]:]
    return True


def suback_ok(body, limit=None):
    """an empty list is not judged here"""
    if len(body) < 2:
        return False
    k = 2
    while k < len(body):
        if k - 2 == limit:
            return None
        if body[k] not in (0, 1, 2, 128):
            return False
        k = k + 1
    return True


def body_ok(ptype, flags, body, limit=None):
    """whether it is a well-formed packet of the type; None when its list goes on after `limit` entries"""
    if ptype == PUBLISH:
        return publish_ok(flags // 2 % 4, flags // 8 == 1, body)
    if flags != FLAGS.get(ptype, 0):
        return False
    if ptype == CONNECT:
        return connect_ok(body)
    if ptype == CONNACK:
        return len(body) == 2 and body[0] in (0, 1)
    if ptype in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        return len(body) == 2
    if ptype == UNSUBACK:
        return len(body) == 2 and id_at(body) is not None
    if ptype == SUBSCRIBE:
        return subscribe_ok(body, limit)
    if ptype == UNSUBSCRIBE:
        return unsubscribe_ok(body, limit)
    if ptype == SUBACK:
        return suback_ok(body, limit)
    return len(body) == 0
