"""A broker as its listeners see it, for contracts on its handlers: real MQTTBrokers, Brokers and MQTTClients objects, packets in and packets out."""
import importlib
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3
from pydv.spec import stub
from contracts.stubs import CODEC5, PACKET3
B5 = importlib.import_module('mqtt.brokers.V5.MQTTBrokers')
B3 = importlib.import_module('mqtt.brokers.V311.MQTTBrokers')

V = ['V5', 'V311']
QM = ['mqtt.brokers.%s.MQTTBrokers.MQTTBrokers.' % v for v in V]
QC = ['mqtt.brokers.%s.MQTTBrokers.MQTTClients.' % v for v in V]
Q = ['mqtt.brokers.%s.Brokers.Brokers.' % v for v in V]
FORMAT = {'V5': M5, 'V311': M3}
NET = [m.__name__ + f for m in (M5, M3) for f in ('.getPacket@server', '.unpackPacket@server')]
NET = NET + CODEC5 + [q for q in PACKET3 if q not in CODEC5]
CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT = range(1, 15)


# ---- the contracts of getPacket (C10) and unpackPacket (C02, C07): the next packet of the connection
def next_packet(sock):
    return sock.inbox.pop(0) if len(sock.inbox) > 0 else None


for m in (M5, M3):
    @stub(m.__name__ + '.getPacket@server')
    def get_packet(ip, args, kwargs):
        return ip.call(next_packet, args, kwargs)

    @stub(m.__name__ + '.unpackPacket@server')
    def unpack_packet(ip, args, kwargs):
        return args[0]


# ---- the text of a packet goes to the log only
TEXTS = ['Publishes', 'Connacks', 'Subacks', 'Connects', 'Subscribes', 'Pubacks', 'Pubrecs', 'Pubrels', 'Pubcomps']
STR = [M3.__name__ + '.%s.__repr__@server' % k for k in TEXTS]


def a_text(ip, args, kwargs):
    return 'a packet'


for q in STR:
    stub(q, proved_by=['packets_can_be_logged'])(a_text)


class Timer:
    """the timer thread of the broker, which the contracts run by hand"""
    def __init__(self, broker, lock=None):
        self.broker = broker

    def stop(self):
        pass


class Lock:
    def acquire(self):
        return True

    def release(self):
        pass


class Once(Lock):
    """lets the timer thread do its work once"""
    def __init__(self):
        self.timer = None

    def release(self):
        self.timer.running = False


class Tick(B5.cleanupThreads):
    def __init__(self, broker, lock):
        self.broker = broker
        self.lock = lock
        self.running = True
        lock.timer = self


class Wire:
    """a connection: what the broker sent on it, and whether it closed it"""
    def __init__(self):
        self.websockets = False
        self.inbox = []
        self.bytes = b''
        self.sent = []
        self.closed = False
        self.late = False

    def handlePacket(self, packet):
        if self.closed:
            self.late = True
        self.sent.append(packet)

    def recv(self, n):
        if len(self.bytes) == 0 and len(self.inbox) > 0:
            self.bytes = self.inbox.pop(0).pack()
        r = self.bytes[:n]
        self.bytes = self.bytes[n:]
        return r

    def settimeout(self, t):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class Wire3(Wire):
    def fileno(self):
        return 7


def wire(v):
    return Wire() if v == 'V5' else Wire3()


class Server:
    def __init__(self, g, v, **options):
        o = {'visual': False, 'persistence': False, 'overlapping_single': True, 'dropQoS0': True, 'zero_length_clientids': True,
             'publish_on_pubrel': False, 'topicAliasMaximum': 2, 'maximumPacketSize': 268435460, 'receiveMaximum': 65535, 'serverKeepAlive': 65535}
        o.update(options)
        self.g = g
        self.v = v
        self.data = {'subscriptions': [], 'dollar_subscriptions': [], 'retained': {}, 'dollar_retained': {}}
        if v == 'V311':
            self.b = B3.MQTTBrokers(options=o, lock=Lock(), sharedData=self.data)
        else:
            saved = B5.cleanupThreads
            B5.cleanupThreads = Timer
            self.b = B5.MQTTBrokers(options=o, lock=Lock(), sharedData=self.data)
            B5.cleanupThreads = saved

    def send(self, s, p):
        """a packet arrives: what the listener does with it"""
        s.inbox.append(p)
        self.turn(s)

    def lose(self, s):
        """the connection fails"""
        self.turn(s)

    def turn(self, s):
        r, e = self.g.catch(self.b.handleRequest, s)
        if e is not None or r:
            s.close()

    def tick(self):
        if self.v == 'V5':
            Tick(self.b.broker, Once()).run()

    def packet(self, kind, i=None):
        p = getattr(FORMAT[self.v], kind)()
        if i is not None:
            if self.v == 'V5':
                p.packetIdentifier = i
            else:
                p.messageIdentifier = i
        return p

    def connect(self, s, cid, clean=False, expiry=None, keepalive=0, will=None, delay=None):
        self.send(s, self.connect_packet(cid, clean, expiry, keepalive, will, delay))

    def connect_packet(self, cid, clean=False, expiry=None, keepalive=0, will=None, delay=None):
        p = self.packet('Connects')
        p.ClientIdentifier = cid
        p.KeepAliveTimer = keepalive
        if self.v == 'V5':
            p.CleanStart = clean
            if expiry is not None:
                p.properties.SessionExpiryInterval = expiry
            if delay is not None:
                p.WillProperties.WillDelayInterval = delay
        else:
            p.CleanSession = clean
        if will is not None:
            p.WillFlag = 1
            p.WillTopic, p.WillMessage, p.WillQoS, p.WillRETAIN = will
        return p

    def subscribe(self, s, i, filters):
        """filters: (filter, QoS)"""
        p = self.packet('Subscribes', i)
        if self.v == 'V5':
            p.data = [(f, M5.SubscribeOptions(q, False, True)) for f, q in filters]
        else:
            p.data = [(f, q) for f, q in filters]
        self.send(s, p)

    def publish(self, s, topic, payload, qos=0, i=0, retain=0, dup=0):
        p = self.packet('Publishes', i)
        p.topicName = topic
        p.data = payload
        p.fh.QoS = qos
        p.fh.RETAIN = retain
        p.fh.DUP = dup
        self.send(s, p)

    def disconnect(self, s, expiry=None, code=None):
        p = self.packet('Disconnects')
        if self.v == 'V5':
            if expiry is not None:
                p.properties.SessionExpiryInterval = expiry
            if code is not None:
                p.reasonCode.value = code
        self.send(s, p)

    def observer(self, filter='#', qos=2, cid='observer'):
        """a client that receives what is published"""
        s = wire(self.v)
        self.connect(s, cid)
        self.subscribe(s, 1, [(filter, qos)])
        return s

    # ---- what a client saw
    def kinds(self, s):
        """the types of the packets sent"""
        return [p.fh.PacketType if self.v == 'V5' else p.fh.MessageType for p in s.sent]

    def code(self, p):
        """reason code of a CONNACK or DISCONNECT"""
        return p.reasonCode.value if self.v == 'V5' else p.returnCode

    def present(self, p):
        return bool(p.sessionPresent) if self.v == 'V5' else p.flags == 1

    def accepted(self, s):
        return len(s.sent) >= 1 and self.kinds(s)[0] == CONNACK and self.code(s.sent[0]) == 0

    def messages(self, s):
        """the messages a client received"""
        return [(p.topicName, p.data, p.fh.QoS) for p in s.sent if (p.fh.PacketType if self.v == 'V5' else p.fh.MessageType) == PUBLISH]


def pid(p):
    return p.packetIdentifier if hasattr(p, 'packetIdentifier') else p.messageIdentifier
