"""L01: what the test clients make of the packets of the broker; L03: the acknowledgements they send."""
import importlib
from pydv.spec import contract, stub
from contracts.topics import TOPICS
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3

INTERNAL = {v: importlib.import_module('mqtt.clients.%s.internal' % v) for v in ('V5', 'V311')}
MAIN = {v: importlib.import_module('mqtt.clients.%s.main' % v) for v in ('V5', 'V311')}
FORMAT = {'V5': M5, 'V311': M3}
V = ['V5', 'V311']
RECEIVE = ['mqtt.clients.%s.internal.Receivers.receive' % v for v in V]
NET = [M5.__name__ + '.getPacket@object', M5.__name__ + '.unpackPacket@object', M3.__name__ + '.getPacket@object', M3.__name__ + '.unpackPacket@object']
ACKS = ['PUBACK', 'PUBREC', 'PUBREL', 'PUBCOMP']
FIRST = {'PUBACK': 0x40, 'PUBREC': 0x50, 'PUBREL': 0x62, 'PUBCOMP': 0x70}


class Broker:
    """a connection to a broker that sends `packets`; what the client sends is in `out`"""
    def __init__(self, g, packets, partly=False):
        self.g = g
        self.packets = packets
        self.buffer = b''
        self.out = b''
        self.sends = 0
        self.partly = partly

    def __str__(self):
        return 'a connection'

    def settimeout(self, t):
        pass

    def next_packet(self):
        return self.packets.pop(0)

    def recv(self, n):
        if len(self.buffer) == 0 and len(self.packets) > 0:
            self.buffer = bytes(self.packets.pop(0).pack())
        k = self.g.draw(1, min(n, len(self.buffer))) if min(n, len(self.buffer)) > 1 else min(n, len(self.buffer))
        r = self.buffer[:k]
        self.buffer = self.buffer[k:]
        return r

    def sendall(self, data):
        self.out = self.out + bytes(data)
        self.sends = self.sends + 1

    def send(self, data):
        k = len(data)
        if self.partly and k > 1:
            k = self.g.draw(1, k)
        self.out = self.out + bytes(data)[:k]
        self.sends = self.sends + 1
        return k


def take(sock, *rest):
    return sock.next_packet()


def the_same(packet, *rest):
    return packet


# ---- the contracts of getPacket and unpackPacket (C02, C07, C10): the packet that was sent arrives
for q in NET:
    def obj(ip, args, kwargs, _f=take if 'getPacket' in q else the_same):
        return ip.call(_f, args, kwargs)
    stub(q)(obj)


class Recorder:
    """a callback"""
    def __init__(self):
        self.arrived = []
        self.done = []

    def publishArrived(self, topic, payload, qos, retained, msgid, properties=None):
        self.arrived.append((topic, payload, qos, retained))
        return True

    def published(self, msgid):
        self.done.append(msgid)


def pid(p):
    return p.packetIdentifier if hasattr(p, 'packetIdentifier') else p.messageIdentifier


def a_publish(g, v, qos, i, topic, payload, retain, dup=False):
    p = FORMAT[v].Publishes()
    p.fh.QoS = qos
    p.fh.RETAIN = retain
    p.fh.DUP = dup
    p.topicName = topic
    p.data = payload
    if v == 'V5':
        p.packetIdentifier = i
    else:
        p.messageIdentifier = i
        if qos == 2:
            p.pubrec_received = False     # as Client.publish does
    return p


def an_ack(v, kind, i, refused=False):
    p = {'PUBACK': FORMAT[v].Pubacks, 'PUBREC': FORMAT[v].Pubrecs, 'PUBREL': FORMAT[v].Pubrels, 'PUBCOMP': FORMAT[v].Pubcomps}[kind]()
    if v == 'V5':
        p.packetIdentifier = i
        if refused:
            p.reasonCode.set('Unspecified error')
    else:
        p.messageIdentifier = i
    return p


def is_ack(data, kind, i):
    """exactly one such packet for this identifier, that reports success"""
    return (len(data) >= 4 and data[0] == FIRST[kind] and data[1] == len(data) - 2 and data[2] * 256 + data[3] == i
            and (len(data) == 4 or (data[4] < 0x80 and len(data) in (5, 6))))


def stored(g, v, qos):
    def entry(g):
        i = g.int('identifier', 1, 65535)
        return (i, a_publish(g, v, qos or g.int('QoS', 1, 2), i, 'b', g.bytes('stored payload', small=True), False))
    return entry


def some_receiver(g, v, packets, partly=False, without_in=(), without_out=()):
    """at any point of a connection: any messages in flight in both directions"""
    r = INTERNAL[v].Receivers(Broker(g, packets, partly))
    r.inMsgs = g.mapping('arriving', stored(g, v, 2), without_in)
    r.outMsgs = g.mapping('in flight', stored(g, v, None), without_out)
    return r


CASES = ['%s, QoS %d' % (v, q) for v in V for q in (0, 1, 2)]


@contract('L01', RECEIVE, cases=CASES, uses=NET, widen_after=0)
def a_message_arrives_at_a_test_client(g):
    """QoS 2: the message, maybe repeated, is released and the release is maybe repeated"""
    v, q = g.case.split(', ')
    qos = int(q[-1])
    topic, payload, retain = g.str('topic', 1, pool=TOPICS), g.bytes('payload'), g.bool('retain')
    i = g.int('packet identifier', 1, 65535) if qos > 0 else None
    again = g.pick('sent twice', [False, True]) if qos == 2 else False
    twice = g.pick('released twice', [False, True]) if qos == 2 else False
    packets = [a_publish(g, v, qos, i, topic, payload, retain, g.bool('DUP') if qos > 0 else False)]
    if again:
        packets.append(a_publish(g, v, qos, i, topic, payload, retain, True))
    r = some_receiver(g, v, packets, without_in=(i,))
    left, out = list(r.inMsgs.items()), list(r.outMsgs.items())
    cb = Recorder()
    x, e = g.catch(r.receive, cb)
    g.check('taken', e is None)
    if qos == 0:
        g.check('nothing is answered', len(r.socket.out) == 0)
    if qos == 1:
        g.check('acknowledged', is_ack(r.socket.out, 'PUBACK', i))
    if qos == 2:
        g.check('received', is_ack(r.socket.out, 'PUBREC', i))
        if again:
            r.socket.out = b''
            x, e = g.catch(r.receive, cb)
            g.check('the copy is taken', e is None)
            g.check('received again', is_ack(r.socket.out, 'PUBREC', i))
        for k in range(2 if twice else 1):
            r.socket.out = b''
            r.socket.packets.append(an_ack(v, 'PUBREL', i))
            x, e = g.catch(r.receive, cb)
            g.check('release taken', e is None)
            g.check('completed', is_ack(r.socket.out, 'PUBCOMP', i))
    g.check('delivered once', len(cb.arrived) == 1)
    t, d, q, n = cb.arrived[0]
    g.check('the topic', t == topic)
    g.check('the payload', d == payload)
    g.check('the QoS', q == qos)
    g.check('the retain flag', bool(n) == retain)
    g.check('the other messages', list(r.inMsgs.items()) == left)
    g.check('own messages', list(r.outMsgs.items()) == out)
    g.check('nothing is completed', len(cb.done) == 0)


@contract('L01', RECEIVE, cases=V, uses=NET, widen_after=0)
def a_release_of_an_unknown_message(g):
    v = g.case
    i = g.int('packet identifier', 1, 65535)
    r = some_receiver(g, v, [an_ack(v, 'PUBREL', i)], without_in=(i,))
    left, out = list(r.inMsgs.items()), list(r.outMsgs.items())
    cb = Recorder()
    x, e = g.catch(r.receive, cb)
    g.check('taken', e is None)
    g.check('completed', is_ack(r.socket.out, 'PUBCOMP', i))
    g.check('nothing is delivered', len(cb.arrived) == 0)
    g.check('the other messages', list(r.inMsgs.items()) == left)
    g.check('own messages', list(r.outMsgs.items()) == out)


FOR = {'PUBACK': 1, 'PUBREC': 2, 'PUBREC refused': 2, 'PUBCOMP': 2}


@contract('L01', RECEIVE, cases=['%s, %s' % (v, k) for v in V for k in FOR if v == 'V5' or k != 'PUBREC refused'], uses=NET, widen_after=0)
def an_own_message_is_acknowledged(g):
    """PUBREC: the handshake goes on with PUBREL, or ends when the message is refused"""
    v, kind = g.case.split(', ')
    i = g.int('packet identifier', 1, 65535)
    packets = [an_ack(v, kind[:6] if kind != 'PUBCOMP' else kind, i, kind.endswith('refused'))]
    r = some_receiver(g, v, packets, without_out=(i,))
    before = list(r.outMsgs.items())
    r.outMsgs[i] = a_publish(g, v, FOR[kind], i, 'a', g.bytes('payload', small=True), False)
    mine = r.outMsgs[i]
    left = list(r.inMsgs.items())
    cb = Recorder()
    x, e = g.catch(r.receive, cb)
    g.check('taken', e is None)
    if kind == 'PUBREC':
        g.check('released', is_ack(r.socket.out, 'PUBREL', i))
        g.check('not finished', list(r.outMsgs.items()) == before + [(i, mine)])
    else:
        g.check('nothing is answered', len(r.socket.out) == 0)
        g.check('finished, and no other message', list(r.outMsgs.items()) == before)
        g.check('the callback is told', cb.done == [i])
    g.check('the messages of the broker', list(r.inMsgs.items()) == left)
    g.check('nothing is delivered', len(cb.arrived) == 0)


@contract('L01', RECEIVE, cases=['%s, %s' % (v, k) for v in V for k in FOR if v == 'V5' or k != 'PUBREC refused'], uses=NET, widen_after=0)
def an_unknown_message_is_acknowledged(g):
    """whatever the client does about it, its own messages stay as they are"""
    v, kind = g.case.split(', ')
    i = g.int('packet identifier', 1, 65535)
    packets = [an_ack(v, kind[:6] if kind != 'PUBCOMP' else kind, i, kind.endswith('refused'))]
    r = some_receiver(g, v, packets, without_out=(i,))
    before, left = list(r.outMsgs.items()), list(r.inMsgs.items())
    cb = Recorder()
    x, e = g.catch(r.receive, cb)
    g.check('own messages', list(r.outMsgs.items()) == before)
    g.check('the messages of the broker', list(r.inMsgs.items()) == left)
    g.check('nothing is delivered', len(cb.arrived) == 0)
    g.check('nothing is completed', len(cb.done) == 0)


@contract('L01', ['mqtt.clients.%s.main.Callback.%s' % (v, f) for v in V for f in ('publishArrived', 'published')] + RECEIVE, cases=CASES, uses=NET, widen_after=0)
def the_default_callback_accepts_messages(g):
    v, q = g.case.split(', ')
    qos = int(q[-1])
    i = g.int('packet identifier', 1, 65535)
    packets = [a_publish(g, v, qos, i if qos > 0 else None, g.str('topic', 1, pool=TOPICS), g.bytes('payload'), g.bool('retain'))]
    if qos == 2:
        packets.append(an_ack(v, 'PUBREL', i))
    packets.append(an_ack(v, 'PUBACK', i))
    r = INTERNAL[v].Receivers(Broker(g, packets))
    r.outMsgs[i] = a_publish(g, v, 1, i, 'a', b'', False)
    cb = MAIN[v].Callback()
    n = len(packets)
    for k in range(n):
        if k == n - 1:
            g.check('acknowledged', qos == 0 or is_ack(r.socket.out, 'PUBACK' if qos == 1 else 'PUBCOMP', i))
        r.socket.out = b''
        x, e = g.catch(r.receive, cb)
        g.check('taken', e is None)
    g.check('own message completed', len(r.outMsgs) == 0)


@contract('L03', RECEIVE, cases=['%s, %s' % (v, k) for v in V for k in ACKS], uses=NET, widen_after=0)
def an_acknowledgement_is_sent_whole_and_once(g):
    v, kind = g.case.split(', ')
    i = g.int('packet identifier', 1, 65535)
    if kind in ('PUBACK', 'PUBREC'):
        p = a_publish(g, v, 1 if kind == 'PUBACK' else 2, i, 'a', g.bytes('payload', small=True), False)
    else:
        p = an_ack(v, 'PUBREC' if kind == 'PUBREL' else 'PUBREL', i)
    r = INTERNAL[v].Receivers(Broker(g, [p], True))
    r.inMsgs[i] = a_publish(g, v, 2, i, 'a', b'', False)
    r.outMsgs[i] = a_publish(g, v, 2, i, 'a', b'', False)
    x, e = g.catch(r.receive, Recorder())
    g.check('sent', e is None)
    g.check('whole and once', is_ack(r.socket.out, kind, i))
