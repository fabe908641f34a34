"""M01, M02, M03: the outbound messages of one client."""
import importlib
from pydv.spec import contract, stub
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3
B5 = importlib.import_module('mqtt.brokers.V5.MQTTBrokers')
B3 = importlib.import_module('mqtt.brokers.V311.MQTTBrokers')

BROKER = {'V5': B5, 'V311': B3}
FORMAT = {'V5': M5, 'V311': M3}
V = ['V5', 'V311']
Q = ['mqtt.brokers.%s.MQTTBrokers.MQTTClients.' % v for v in BROKER]
RESPOND = ['mqtt.brokers.%s.MQTTBrokers.respond' % v for v in BROKER]


class Line:
    """a connection: what was sent on it"""
    def __init__(self, g):
        self.g = g
        self.websockets = False
        self.fails = g.bool('sending may fail')
        self.sent = []

    def fileno(self):
        return 7

    def handlePacket(self, p):
        self.sent.append(seen(p))


class Server:
    def __init__(self, dropQoS0):
        self.mscfile = None
        self.options = {'publish_on_pubrel': False, 'dropQoS0': dropQoS0, 'visual': False}
        self.publish_on_pubrel, self.dropQoS0 = False, dropQoS0


def pid(p):
    return p.packetIdentifier if hasattr(p, 'packetIdentifier') else p.messageIdentifier


def seen(p):
    """a packet as the other side sees it"""
    if hasattr(p, 'data'):
        return ('PUBLISH', p.data, p.fh.QoS, p.fh.DUP, pid(p) if p.fh.QoS > 0 else None)
    return ('PUBREL', pid(p))


# ---- the contracts of respond and sendPub, as their callers see them
def hand_over(sock, packet, maximumPacketSize=0):
    """the packet is handed to the connection, once, or (MQTT 5) it is expired or too big"""
    if sock.fails and sock.g.choose(2) == 0:
        return False
    sock.sent.append(seen(packet))
    return True


def hand_over3(sock, packet):
    sock.sent.append(seen(packet))


def hand_over_pub(client, pub):
    return hand_over(client.socket, pub)


@stub(RESPOND[0])
def respond5(ip, args, kwargs):
    return ip.call(hand_over, args, kwargs)


@stub(RESPOND[1])
def respond3(ip, args, kwargs):
    return ip.call(hand_over3, args, kwargs)


@stub(Q[0] + 'sendPub')
def send_pub(ip, args, kwargs):
    return ip.call(hand_over_pub, args, kwargs)


def some_message(g, v, i, qos, payload=b'x', state=None):
    p = FORMAT[v].Publishes()
    p.fh.QoS = qos
    p.topicName = 'a'
    p.data = payload
    if v == 'V5':
        p.packetIdentifier = i
        p.receivedTime = 0
    else:
        p.messageIdentifier = i
    if qos == 2:
        p.qos2state = state or 'PUBREC'
    return p


def some_client(g, v):
    B5.mybroker = Server(True)
    s = Server(g.bool('drop QoS 0'))
    c = B5.MQTTClients('A', False, 1000, 0, 0, Line(g), s) if v == 'V5' else B3.MQTTClients('A', False, 0, Line(g), s)
    c.connected = True
    c.msgid = g.int('next identifier', 1, 65535)
    if v == 'V5':
        c.maximumPacketSize = g.oneof('maximum packet size', [100000, 3]) if c.socket.fails else 100000
        c.topicAliasMaximum = g.oneof('alias maximum', [0, 3])
    return c


def ordered(g, v, name, without=()):
    """messages in flight, in their order"""
    def entry(g):
        i = g.int('identifier', 1, 65535)
        return some_message(g, v, i, g.int('QoS', 1, 2), g.bytes('payload', small=True))
    return g.table(name, entry, pid, without)


def waiting(g, v, name='queue'):
    """messages not sent yet"""
    return g.list(name, lambda g: some_message(g, v, 0, g.int('QoS', 0, 2), g.bytes('payload', small=True)))


def listing(ms):
    return [(pid(m), m.data, m.fh.QoS) for m in ms]


def entries(d):
    return [(k, m.data, m.fh.QoS) for k, m in d.items()]


def carried_over(g, v, c, without=()):
    """messages sent on an earlier connection with a larger receive maximum wait in the queue and keep their identifiers"""
    return g.apart(ordered(g, v, 'carried over', without), c.outbound, pid) if v == 'V5' else []


@contract(['M01', 'M02'], [Q[0] + 'sendFirst'], cases=['QoS 0', 'QoS 1', 'QoS 2'], uses=[Q[0] + 'sendPub', RESPOND[0]], widen_after=0)
def a_message_is_sent_for_the_first_time(g):
    q = int(g.case[-1])
    c = some_client(g, 'V5')
    c.outbound = ordered(g, 'V5', 'outbound')
    c.outmsgs = g.index(c.outbound + carried_over(g, 'V5', c), pid)
    ids, known, order, first = list(c.outmsgs.keys()), entries(c.outmsgs), listing(c.outbound), c.msgid
    m = some_message(g, 'V5', 0, q, g.bytes('message', small=True))
    c.sendFirst(m)
    sent = len(c.socket.sent) == 1
    i = pid(m)
    if q > 0:
        g.check('identifier in range', 1 <= i <= 65535)
        g.check('identifier not in use', i not in ids)
        g.check('next identifier in range', 1 <= c.msgid <= 65535)
    else:
        g.check('no identifier', c.msgid == first)
    g.check('handed over at most once', c.socket.sent == ([('PUBLISH', m.data, q, 0, i if q > 0 else None)] if sent else []))
    g.check('outstanding when it needs an acknowledgement', listing(c.outbound) == order + ([(i, m.data, q)] if sent and q > 0 else []))
    g.check('recorded by identifier', entries(c.outmsgs) == known + ([(i, m.data, q)] if sent and q > 0 else []))


@contract(['M01', 'M02'], [Q[1] + 'publishArrived'], cases=['QoS 0', 'QoS 1', 'QoS 2'], uses=[RESPOND[1]], widen_after=0)
def a_message_arrives_for_a_client_3(g):
    q = int(g.case[-1])
    c = some_client(g, 'V311')
    c.connected = g.bool('connected')
    c.outbound = ordered(g, 'V311', 'outbound')
    c.outmsgs = g.index(c.outbound, pid)
    ids, known, order, first = list(c.outmsgs.keys()), entries(c.outmsgs), listing(c.outbound), c.msgid
    full = len(ids) >= 65535
    d, r = g.bytes('message', small=True), g.bool('retained')
    c.publishArrived('a', d, q, r)
    i = None
    kept = q > 0 and not full or q == 0 and not c.connected and not c.broker.dropQoS0
    if kept:
        m = c.outbound[-1]
        i = pid(m) if q > 0 else None
        g.check('kept as it arrived', m.topicName == 'a' and m.data == d and m.fh.QoS == q and m.fh.RETAIN == r)
    if q > 0 and kept:
        g.check('identifier in range', 1 <= i <= 65535)
        g.check('identifier not in use', i not in ids)
        g.check('next identifier in range', 1 <= c.msgid <= 65535)
    else:
        g.check('no identifier', c.msgid == first)
    g.check('handed over once to a connected client', c.socket.sent == ([('PUBLISH', d, q, 0, i)] if c.connected and (q == 0 or not full) else []))
    g.check('outstanding in the order of arrival', listing(c.outbound[:-1] if kept else c.outbound) == order)
    g.check('recorded by identifier', entries(c.outmsgs) == known + ([(i, d, q)] if kept and q > 0 else []))


FRAME = {'puback': ['PUBLISH'], 'pubrec': [], 'pubcomp': []}


def told(c, f, i):
    return c.puback(i) if f == 'puback' else c.pubrec(i) if f == 'pubrec' else c.pubcomp(i)


@contract(['M02', 'M03'], [q + f for q in Q for f in ('puback', 'pubrec', 'pubcomp')],
          cases=['%s, %s' % (v, f) for v in V for f in ('puback', 'pubrec', 'pubcomp')], uses=RESPOND)
def acknowledgements_of_outstanding_messages(g):
    v, f = g.case.split(', ')
    c = some_client(g, v)
    i = g.int('acknowledged', 1, 65535)
    q = g.int('QoS', 1, 2)
    state = g.pick('state', ['PUBREC', 'PUBCOMP'])
    m = some_message(g, v, i, q, g.bytes('payload', small=True), state)
    before = ordered(g, v, 'before', [i])
    after = g.apart(ordered(g, v, 'after', [i]), before, pid)
    c.outbound = before + [m] + after
    more = carried_over(g, v, c, [i])
    c.outmsgs = g.index(c.outbound + more, pid)
    right = q == 1 if f == 'puback' else q == 2 and state == ('PUBREC' if f == 'pubrec' else 'PUBCOMP')
    all_, rest, known, others = listing(c.outbound), listing(before + after), entries(c.outmsgs), listing(before + after + more)
    r = told(c, f, i)
    if right and f != 'pubrec':
        g.check('the message is complete', listing(c.outbound) == rest)
        g.check('its identifier is free, the others are not', entries(c.outmsgs) == others)
    else:
        g.check('still outstanding', listing(c.outbound) == all_)
        g.check('identifiers unchanged', entries(c.outmsgs) == known)
    g.check('state of the handshake', q == 1 or m.qos2state == ('PUBCOMP' if f == 'pubrec' and right else state))
    g.check('PUBREC is accepted in the right state only', f != 'pubrec' or r == right)
    g.check('nothing is sent', c.socket.sent == [])


@contract(['M02', 'M03'], [q + f for q in Q for f in ('puback', 'pubrec', 'pubcomp')],
          cases=['%s, %s' % (v, f) for v in V for f in ('puback', 'pubrec', 'pubcomp')], uses=RESPOND)
def acknowledgements_of_other_identifiers(g):
    v, f = g.case.split(', ')
    c = some_client(g, v)
    i = g.int('acknowledged', 0, 65535)
    c.outbound = ordered(g, v, 'outbound', [i])
    more = carried_over(g, v, c)
    c.outmsgs = g.index(c.outbound + more, pid)
    c.queued = waiting(g, v)
    all_, known, queue = listing(c.outbound), entries(c.outmsgs), listing(c.queued)
    r = told(c, f, i)
    g.check('still outstanding', listing(c.outbound) == all_)
    g.check('identifiers unchanged', entries(c.outmsgs) == known)
    g.check('queue unchanged', listing(c.queued) == queue)
    g.check('not accepted', f != 'pubrec' or not r)
    g.check('nothing is sent', c.socket.sent == [])


@contract(['M02'], [Q[0] + f for f in ('puback', 'pubcomp', 'sendQueued')], cases=['%s, %d waiting' % (f, k) for f in ('puback', 'pubcomp') for k in (0, 1, 2)],
          uses=[Q[0] + 'sendPub', RESPOND[0]], bounded='at most 2 messages wait; any number is outstanding', widen_after=0)
def a_completed_message_makes_room(g):
    f, k = g.case.split(', ')
    c = some_client(g, 'V5')
    i = g.int('acknowledged', 1, 65535)
    m = some_message(g, 'V5', i, 1 if f == 'puback' else 2, b'm', 'PUBCOMP')
    before = ordered(g, 'V5', 'before', [i])
    after = g.apart(ordered(g, 'V5', 'after', [i]), before, pid)
    c.outbound = before + [m] + after
    c.outmsgs = g.index(c.outbound, pid)
    rest = len(before) + len(after)
    for j in range(int(k[0])):
        c.queued.append(some_message(g, 'V5', 0, g.int('QoS %d' % j, 0, 2), b'q%d' % j))
    queue = [x.data for x in c.queued]
    c.receiveMaximum = rest + 1
    told(c, f, i)
    g.check('room is used', len(c.queued) == 0 or len(c.outbound) == c.receiveMaximum)
    g.check('receive maximum', len(c.outbound) <= c.receiveMaximum)
    done = queue[:len(queue) - len(c.queued)]
    g.check('from the head of the queue', [x.data for x in c.queued] == queue[len(done):])
    sent = [x[1] for x in c.socket.sent]
    g.check('in order, once', sent == [x for x in done if x in sent])
    g.check('outstanding', [x.data for x in c.outbound[rest:]] == [x[1] for x in c.socket.sent if x[2] > 0])
    g.check('outstanding by identifier', all(c.outmsgs[pid(x)] is x for x in c.outbound[rest:]))


def resent(m):
    if m.fh.QoS == 1 or m.qos2state == 'PUBREC':
        return ('PUBLISH', m.data, m.fh.QoS, 1, pid(m))
    return ('PUBREL', pid(m))


@contract(['M02', 'M03', 'N01'], [q + 'resend' for q in Q], cases=['%s, %d' % (v, k) for v in V for k in (0, 1, 2)], uses=[Q[0] + 'sendPub'] + RESPOND,
          bounded='at most 2 messages are in flight')
def a_resumed_session_resends_what_is_in_flight(g):
    v, k = g.case.split(', ')
    c = some_client(g, v)
    for j in range(int(k)):
        m = some_message(g, v, g.int('identifier %d' % j, 1, 65535), g.int('QoS %d' % j, 1, 2), b'm%d' % j)
        m.qos2state = g.pick('state %d' % j, ['PUBREC', 'PUBCOMP'])
        g.assume(j == 0 or pid(m) != pid(c.outbound[0]))
        c.outbound.append(m)
    c.outmsgs = {pid(m): m for m in c.outbound}
    all_ = list(c.outbound)
    want = [resent(m) for m in all_]
    fits = len(all_)
    if v == 'V5':
        c.receiveMaximum = g.int('receive maximum', 1, 65535)
        if c.receiveMaximum < fits:
            fits = c.receiveMaximum
    c.resend()
    n = len(c.outbound)
    g.check('each once, in order, under its own identifier', c.socket.sent == [resent(m) for m in all_ if resent(m) in c.socket.sent])
    g.check('receive maximum', v == 'V311' or n <= c.receiveMaximum)
    if v == 'V311' or not c.socket.fails:
        g.check('all that fit are sent', c.socket.sent == want[:fits])
        g.check('outstanding', c.outbound == all_[:fits])
        g.check('the others wait', v == 'V311' or c.queued == all_[fits:])
        g.check('identifiers unchanged', len(c.outmsgs) == len(all_) and all(c.outmsgs[pid(m)] is m for m in all_))


@contract(['M01', 'M02'], [Q[0] + 'publishArrived'], cases=['QoS 0', 'QoS 1', 'QoS 2'], uses=[Q[0] + 'sendPub', RESPOND[0]], widen_after=0)
def a_message_arrives_for_a_client_5(g):
    q = int(g.case[-1])
    c = some_client(g, 'V5')
    c.connected = g.bool('connected')
    c.outbound = ordered(g, 'V5', 'outbound')
    c.outmsgs = g.index(c.outbound + carried_over(g, 'V5', c), pid)
    c.receiveMaximum = g.int('receive maximum', 1, 65535)
    c.queued = waiting(g, 'V5')
    room = len(c.outbound) < c.receiveMaximum
    # what a connection leaves behind: messages wait only for an acknowledgement or for the client
    g.assume(len(c.outbound) <= c.receiveMaximum)
    g.assume(not c.connected or not room or len(c.queued) == 0)
    ids, known, order, first, queue = list(c.outmsgs.keys()), entries(c.outmsgs), listing(c.outbound), c.msgid, listing(c.queued)
    d, r, p = g.bytes('message', small=True), g.bool('retained'), M5.Properties(M5.PacketTypes.PUBLISH)
    c.publishArrived('a', d, q, p, 5, r)
    now = c.connected and (q == 0 or room)
    kept = not now and (q > 0 or not c.broker.options['dropQoS0'])
    sent = len(c.socket.sent) == 1
    i = None
    if sent and q > 0:
        i = pid(c.outbound[-1])
        g.check('identifier in range', 1 <= i <= 65535)
        g.check('identifier not in use', i not in ids)
    g.check('handed over at most once, to a connected client with room', c.socket.sent == ([('PUBLISH', d, q, 0, i)] if sent and now else []))
    g.check('outstanding when it is sent', listing(c.outbound) == order + ([(i, d, q)] if sent and q > 0 else []))
    g.check('receive maximum', len(c.outbound) <= c.receiveMaximum)
    g.check('recorded by identifier', entries(c.outmsgs) == known + ([(i, d, q)] if sent and q > 0 else []))
    g.check('waits at the end of the queue', listing(c.queued[:-1] if kept else c.queued) == queue)
    if kept:
        m = c.queued[-1]
        g.check('kept as it arrived', m.topicName == 'a' and m.data == d and m.fh.QoS == q and m.fh.RETAIN == r and m.properties is p and m.receivedTime == 5)
    g.check('messages wait only for an acknowledgement or for the client', not c.connected or len(c.outbound) == c.receiveMaximum or len(c.queued) == 0)
