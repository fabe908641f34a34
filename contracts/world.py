"""The broker as its clients see it: real packets in, real packets out, on fake connections, and a reference model that
says what every client has to receive.  Native (bounded) histories only; every difference is attributed to a property."""
from contracts.topics import matches, matches3, is_dollar
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3
import importlib, os
B5 = importlib.import_module('mqtt.brokers.V5.MQTTBrokers')
B3 = importlib.import_module('mqtt.brokers.V311.MQTTBrokers')

RealThreads = B5.cleanupThreads
FOREVER = 4294967295
STRICT = os.environ.get('PYDV_STRICT')      # development: every difference is reported whatever the property judged


class NoThread:
    """the timer thread of the broker, run by hand: one turn per tick()"""

    def __init__(self, broker, lock=None):
        self.broker, self.lock, self.running = broker, lock, False

    def stop(self):
        self.running = False


class Got:
    """a packet that a client received"""

    def __init__(self, kind, id=None, **o):
        self.kind, self.id = kind, id
        self.__dict__.update(o)

    def __repr__(self):
        return repr(self.__dict__)


KINDS5 = {v: k for k, v in M5.PacketTypes.__dict__.items() if isinstance(v, int)}


def props_of(p):
    return {n: getattr(p, n) for n in ('PayloadFormatIndicator', 'MessageExpiryInterval', 'ContentType', 'ResponseTopic', 'CorrelationData',
                                       'UserProperty') if hasattr(p, n)}


class Wire:
    """one network connection"""
    websockets = False

    def __init__(self, w):
        self.w, self.inbuf, self.got, self.closed, self.late = w, b'', [], False, False
        self.alias, self.maxalias, self.maxsize = {}, 0, None
        self.cid = None

    def send(self, data):
        if self.closed:
            self.late = True
            raise OSError('closed')
        data = bytes(data)
        self.got.append(self.decode(data))
        return len(data)

    def decode(self, data):
        w = self.w
        if w.v == 'V5':
            p = M5.unpackPacket(data)
            k = KINDS5[p.fh.PacketType]
            i = getattr(p, 'packetIdentifier', None)
        else:
            p = M3.unpackPacket(data)
            k = M3.packetNames[p.fh.MessageType].upper()
            i = getattr(p, 'messageIdentifier', None)
        if self.maxsize is not None and len(data) > self.maxsize:
            w.differ('N06', 'a packet of %d bytes for a maximum of %d' % (len(data), self.maxsize))
        if k == 'PUBLISH':
            t = p.topicName
            a = getattr(p.properties, 'TopicAlias', None) if w.v == 'V5' else None
            if a is not None:
                if not 1 <= a <= self.maxalias:
                    w.differ('N06', 'topic alias %d with maximum %d' % (a, self.maxalias))
                if t == '':
                    if a not in self.alias:
                        w.differ('N06', 'topic alias %d is not defined on this connection' % a)
                    t = self.alias[a]
                elif self.alias.setdefault(a, t) != t:
                    w.differ('N06', 'topic alias %d changed its topic' % a)
            pr = props_of(p.properties) if w.v == 'V5' else {}
            ids = sorted(getattr(p.properties, 'SubscriptionIdentifier', [])) if w.v == 'V5' else []
            q = p.fh.QoS
            return Got('PUBLISH', i if q else None, topic=t, payload=bytes(p.data), qos=q, retain=bool(p.fh.RETAIN), dup=bool(p.fh.DUP), props=pr, ids=ids,
                       size=len(data))
        rc = None
        if w.v == 'V5':
            if hasattr(p, 'reasonCodes'):
                rc = [c.value for c in p.reasonCodes]
            elif hasattr(p, 'reasonCode'):
                rc = p.reasonCode.value
            if k == 'CONNACK':
                return Got(k, None, rc=rc, present=bool(p.sessionPresent), props=p.properties)
        elif k == 'CONNACK':
            return Got(k, None, rc=p.returnCode, present=bool(p.flags & 1), props=None)
        elif k == 'SUBACK':
            rc = list(p.data)
        return Got(k, i, rc=rc)

    def recv(self, n):
        b, self.inbuf = self.inbuf[:n], self.inbuf[n:]
        return b

    def settimeout(self, t):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class Wire3(Wire):
    def fileno(self):
        return 7


class Sub:
    def __init__(self, qos, nolocal=False, rap=False, rh=0, id=None):
        self.qos, self.nolocal, self.rap, self.rh, self.id = qos, nolocal, rap, rh, id


class Msg:
    """what one client has to receive"""

    def __init__(self, topic, payload, qos, retain, props, t, ids, why):
        self.topic, self.payload, self.qos, self.retain, self.props, self.t, self.ids, self.why = topic, payload, qos, retain, props, t, ids, why
        self.id, self.state = None, None

    def __repr__(self):
        return repr(self.__dict__)


class Session:
    def __init__(self, cid):
        self.cid, self.subs, self.out, self.queue, self.inbound = cid, {}, [], [], {}
        self.wire = None
        self.expiry, self.ended, self.rm = 0, None, 65535
        self.will = None
        self.delay = 0
        self.will_due = None
        self.keepalive, self.last = 0, 0


class Stop(BaseException):
    """the history left what the property judged speaks about"""


class World:
    def __init__(self, g, v, prop, **options):
        self.g, self.v, self.prop, self.now = g, v, prop, 1000
        g.settime(self.now)
        o = {'visual': False, 'persistence': False, 'overlapping_single': True, 'dropQoS0': True, 'zero_length_clientids': True,
             'publish_on_pubrel': False, 'topicAliasMaximum': 2, 'maximumPacketSize': 100000, 'receiveMaximum': 100, 'serverKeepAlive': 60}
        o.update(options)
        self.o = o
        data = {'subscriptions': [], 'dollar_subscriptions': [], 'retained': {}, 'dollar_retained': {}}
        if v == 'V5':
            saved, B5.cleanupThreads = B5.cleanupThreads, NoThread
            try:
                self.b = B5.MQTTBrokers(options=dict(o), sharedData=data)
            finally:
                B5.cleanupThreads = saved
        else:
            self.b = B3.MQTTBrokers(options=dict(o), sharedData=data)
        self.sessions, self.retained, self.wires, self.discarded = {}, {}, [], {}
        self.uses_id = M5 if v == 'V5' else M3
        self.expect = {}          # wire -> expected things since the last look

    # ------------------------------------------------------------ judging
    def differ(self, prop, text):
        props = prop if isinstance(prop, tuple) else (prop,)
        if self.prop in props or STRICT:
            self.g.check('%s: %s' % (self.prop if self.prop in props else '/'.join(props), text), False)
        raise Stop()

    def want(self, wire, kind, id=None, prop='M05', **o):
        self.expect.setdefault(wire, []).append(Got(kind, id, prop=prop, **o))

    # ------------------------------------------------------------ the network
    def wire(self):
        s = (Wire if self.v == 'V5' else Wire3)(self)
        self.wires.append(s)
        return s

    def feed(self, wire, packet):
        """what the listener does when bytes arrive; returns whether it goes on"""
        wire.inbuf += packet if isinstance(packet, bytes) else packet.pack()
        while wire.inbuf and not wire.closed:
            self.turn(wire)

    def lose(self, wire):
        wire.inbuf = b''
        self.turn(wire)

    def turn(self, wire):
        end = False
        try:
            end = self.b.handleRequest(wire)
        except Exception:
            end = True
        if end:
            wire.close()

    def packet(self, kind, **o):
        if self.v == 'V5':
            p = getattr(M5, kind)()
        else:
            p = getattr(M3, kind)()
        for k, x in o.items():
            if k == 'id':
                setattr(p, 'packetIdentifier' if self.v == 'V5' else 'messageIdentifier', x)
            elif k in ('QoS', 'DUP', 'RETAIN'):
                setattr(p.fh, k, x)
            elif k == 'props':
                for n, y in x.items():
                    setattr(p.properties, n, y)
            else:
                setattr(p, k, x)
        return p

    # ------------------------------------------------------------ the model
    def match(self, f, t):
        d = is_dollar(f) if self.v == 'V5' else f.startswith('$')
        if d != t.startswith('$'):
            return False
        return (matches if self.v == 'V5' else matches3)(f, t)

    def alive(self, s):
        if s.wire is not None:
            return True
        return self.v == 'V311' or s.expiry == FOREVER or self.now - s.ended <= s.expiry

    def route(self, publisher, topic, payload, qos, retain, props, t=None):
        """a message is published: deliver to every client holding a matching subscription"""
        t = self.now if t is None else t
        self.publisher = publisher
        if retain:
            if payload == b'':
                self.retained.pop(topic, None)
            else:
                self.retained[topic] = (payload, qos, dict(props), t)
        self.shared = {}
        for s in list(self.sessions.values()):
            ord_ = [(f, x) for f, x in s.subs.items() if self.match(f, topic) and not (self.v == 'V5' and f.startswith('$share/'))]
            ok = [(f, x) for f, x in ord_ if not (x.nolocal and s.cid == publisher)]
            if ok and any(x.wire is not s.wire for f, x in ok):
                mine = 'N01'
            else:
                mine = 'R03' if any(x.nolocal for f, x in ok) else 'R01'
            if ok and self.o['overlapping_single']:
                qs = {min(qos, max(x.qos for f, x in ok))}
                if len(ok) < len(ord_):
                    qs.add(min(qos, max(x.qos for f, x in ord_)))
                self.deliver(s, Msg(topic, payload, qs, {bool(retain and x.rap) for f, x in ok}, props, t,
                                    sorted(x.id for f, x in ok if x.id is not None), mine))
            elif ok:
                for f, x in ok:
                    self.deliver(s, Msg(topic, payload, {min(qos, x.qos)}, {bool(retain and x.rap)}, props, t, [x.id] if x.id is not None else [], mine))
            if self.v == 'V5':
                for f, x in s.subs.items():
                    if f.startswith('$share/') and self.match(f, topic):
                        self.shared.setdefault(f, []).append(
                            (s, Msg(topic, payload, {min(qos, x.qos)}, {bool(retain and x.rap)}, props, t, [x.id] if x.id is not None else [], 'R04')))

    def deliver(self, s, m):
        q = max(m.qos)
        if len(m.qos) > 1 and 0 in m.qos and s.wire is None:
            raise Stop()
        if s.wire is None:
            if q > 0 or not self.o['dropQoS0']:
                s.queue.append(m)
        elif q == 0 or len(s.out) < s.rm:
            self.send(s, m)
        else:
            s.queue.append(m)

    def expired(self, m):
        e = m.props.get('MessageExpiryInterval')
        return e is not None and int(self.now - m.t) >= e

    def sendable(self, s, m):
        m.maybe = False
        if self.expired(m):
            return False
        if s.wire.maxsize is not None:
            n = len(m.payload) + len(m.topic.encode()) + 60 + len(repr(m.props))
            if len(m.payload) > s.wire.maxsize:
                return False
            if n > s.wire.maxsize:
                if s.queue or len(s.out) >= s.rm - 1:
                    raise Stop()
                m.maybe = True
        return True

    def send(self, s, m):
        if not self.sendable(s, m):
            return
        if max(m.qos) > 0:
            s.out.append(m)
            m.state = 'PUBLISH'
        self.want(s.wire, 'PUBLISH', m=m, again=False)

    def drain(self, s):
        while s.queue and len(s.out) < s.rm:
            m = s.queue.pop(0)
            if m.state is None:
                self.send(s, m)
            else:
                s.out.append(m)
                self.again(s, m)

    def again(self, s, m):
        if m.state == 'PUBCOMP':
            self.want(s.wire, 'PUBREL', m.id, prop='M03')
        elif not self.sendable(s, m):
            s.out.remove(m)
        else:
            self.want(s.wire, 'PUBLISH', m=m, again=True)

    # ------------------------------------------------------------ looking at what was received
    def look(self):
        shared = {f: list(ms) for f, ms in getattr(self, 'shared', {}).items()}
        self.shared, left = {}, []
        self.sharing = bool(shared)
        for wire in self.wires:
            if wire.late:
                self.differ('N02', 'a closed connection was used')
            got, wire.got = wire.got, []
            exp = self.expect.pop(wire, [])
            self.compare(wire, [x for x in got if x.kind != 'PUBLISH'], [x for x in exp if x.kind != 'PUBLISH'])
            self.publishes(wire, [x for x in got if x.kind == 'PUBLISH'], [x for x in exp if x.kind == 'PUBLISH'], shared, left)
        self.members(left, shared)
        for s in self.sessions.values():
            if s.wire is not None and s.wire.closed:
                self.differ(self.disturb, 'the connection of %s was closed' % s.cid)

    disturb = 'M05'

    def members(self, left, shared):
        """the other messages, one for each shared subscription"""
        def assign(i, used):
            if i == len(left):
                return []
            for f, ms in shared.items():
                if f not in used:
                    for s, m in ms:
                        if s.wire is left[i][0] and self.same(left[i][1], m) and self.fits(left[i][1], m) is None:
                            r = assign(i + 1, used | {f})
                            if r is not None:
                                return [(f, s, m, left[i][1])] + r
            return None
        r = assign(0, frozenset())
        if r is None:
            for wire, x in left:
                fit = [self.fits(x, m) for ms in shared.values() for s, m in ms if s.wire is wire and self.same(x, m)]
                if fit and None not in fit:
                    self.differ(*fit[0])
                if not fit:
                    self.unexpected(wire, x)
            self.differ('R04', 'not one message for each shared subscription: %r' % left)
        for f, s, m, x in r:
            if x.qos > 0:
                m.state = 'PUBLISH'
                self.take_id(s, m, x)
                s.out.append(m)
        for f, ms in shared.items():
            if not any(f == y[0] for y in r) and any(s.wire is not None for s, m in ms):
                self.differ('R04', 'no member of %s received the message' % f)

    def compare(self, wire, got, exp):
        optional = [e for e in exp if e.__dict__.get('optional')]
        exp = [e for e in exp if not e.__dict__.get('optional')]
        for x in list(got):
            e = next((e for e in exp if e.kind == x.kind and e.id == x.id), None)
            if e is None:
                o = next((e for e in optional if e.kind == x.kind and e.id in (None, x.id)), None)
                if o is not None:
                    optional.remove(o)
                    if o.__dict__.get('check') is not None:
                        o.check(x)
                    continue
                self.differ({'PUBREL': 'M03', 'CONNACK': 'N08', 'DISCONNECT': 'N02'}.get(x.kind, 'M05'), 'unexpected %r' % x)
            exp.remove(e)
            if e.__dict__.get('check') is not None:
                e.check(x)
        if exp:
            self.differ(exp[0].prop, 'missing %s %r' % (exp[0].kind, exp[0].id))

    def publishes(self, wire, got, exp, shared, left):
        s = self.sessions.get(wire.cid)
        exp = list(exp)
        for x in got:
            if x.qos > 0 and not (isinstance(x.id, int) and 1 <= x.id <= 65535):
                self.differ('M01', 'packet identifier %r' % (x.id,))
            e = self.find(x, exp)
            if e is None or shared and self.fits(x, e.m, e.again) is not None:
                left.append((wire, x))
                continue
            first = next((y for y in exp if not y.__dict__.get('anyorder')), e)
            if not e.__dict__.get('anyorder') and first is not e and (e.again or first.again or not self.same(first.m, e.m)):
                self.differ('M03' if e.again else 'M02', 'out of order: %r' % x)
            exp.remove(e)
            d = self.fits(x, e.m, e.again, s)
            if d is not None:
                self.differ(*d)
            if e.again:
                if x.id != e.m.id:
                    self.differ('M03', 'sent again with identifier %r, not %r' % (x.id, e.m.id))
                if not x.dup:
                    self.differ('M03', 'sent again without the duplicate flag')
            elif x.qos > 0:
                self.take_id(s, e.m, x)
            else:
                if s is not None and e.m in s.out:
                    s.out.remove(e.m)
        for e in [e for e in exp if e.m.__dict__.get('maybe')]:
            exp.remove(e)
            if s is not None and e.m in s.out:
                s.out.remove(e.m)
        if exp:
            e = exp[0]
            why = e.m.__dict__.get('queued', e.m.why)
            self.differ('M03' if e.again else 'R04' if why == 'R01' and self.sharing else why, 'not received: %r' % e.m)

    def take_id(self, s, m, x):
        if any(o is not m and o.id == x.id for o in s.out + s.queue):
            self.differ('M01', 'identifier %d is in use' % x.id)
        m.id = x.id
        m.qos = {x.qos}

    def same(self, x, m):
        return x.topic == m.topic and x.payload == m.payload

    def find(self, x, exp):
        c = [e for e in exp if self.same(x, e.m)]
        for e in c:
            if self.fits(x, e.m, e.again) is None and (not e.again or e.m.id == x.id):
                return e
        return c[0] if c else None

    def fits(self, x, m, again=False, s=None):
        """(property, difference) or None"""
        if m.why == 'R02':
            if not x.retain:
                return 'R02', 'a retained message without the retain flag'
            if x.qos not in m.qos:
                return 'R02', 'retained message with QoS %d, not %r' % (x.qos, m.qos)
        if x.qos not in m.qos:
            return m.why, 'QoS %d, not %r' % (x.qos, sorted(m.qos))
        if x.retain not in m.retain:
            return 'R03', 'retain flag %r, not %r' % (x.retain, m.retain)
        if x.ids != m.ids and not (m.why == 'R02' and m.ids and set(m.ids) <= set(x.ids)):
            return 'R05', 'subscription identifiers %r, not %r' % (x.ids, m.ids)
        p = dict(m.props)
        e = p.pop('MessageExpiryInterval', None)
        q = dict(x.props)
        f = q.pop('MessageExpiryInterval', None)
        if e is not None and f != e - int(self.now - m.t) or e is None and f is not None:
            return 'N07', 'expiry interval %r after %r of %r seconds' % (f, self.now - m.t, e)
        if p != q:
            return ('N04' if m.__dict__.get('will') else 'R01'), 'properties %r, not %r' % (q, p)
        return None

    def unexpected(self, wire, x):
        if self.note is not None:
            self.differ(self.note, 'delivered: %r' % x)
        if wire.cid in self.discarded:
            self.differ(self.discarded[wire.cid], 'delivered from an earlier session: %r' % x)
        s = self.sessions.get(wire.cid)
        if s is not None and self.publisher == s.cid and any(o.nolocal and self.match(f, x.topic) for f, o in s.subs.items()):
            self.differ('R03', 'sent back to its publisher: %r' % x)
        self.differ('R04' if self.sharing else 'R01', 'unexpected: %r' % x)

    publisher, sharing = None, False

    note = None

    # ------------------------------------------------------------ what clients do
    def connect(self, cid, clean=True, expiry=0, keepalive=0, will=None, rm=None, aliasmax=0, maxsize=None, name=None, version=None, wire=None):
        """will: (topic, payload, qos, retain, props, delay)"""
        wire = wire or self.wire()
        p = self.packet('Connects', ClientIdentifier=cid, KeepAliveTimer=keepalive)
        if self.v == 'V5':
            p.CleanStart = clean
            if expiry:
                p.properties.SessionExpiryInterval = expiry
            if rm is not None:
                p.properties.ReceiveMaximum = rm
            if aliasmax:
                p.properties.TopicAliasMaximum = aliasmax
            if maxsize is not None:
                p.properties.MaximumPacketSize = maxsize
        else:
            p.CleanSession = clean
        if will is not None:
            p.WillFlag = 1
            p.WillTopic, p.WillMessage, p.WillQoS, p.WillRETAIN = will[0], will[1], will[2], 1 if will[3] else 0
            if self.v == 'V5':
                for n, x in will[4].items():
                    setattr(p.WillProperties, n, x)
                if will[5]:
                    p.WillProperties.WillDelayInterval = will[5]
        if name is not None:
            p.ProtocolName = name
        if version is not None:
            p.ProtocolVersion = version
        # the model
        old = self.sessions.get(cid)
        if old is not None and old.wire is not None:
            if self.v == 'V5':
                self.want(old.wire, 'DISCONNECT', None, prop='N02', check=lambda x: x.rc == 0x8E or self.differ('N02', 'reason code %r' % x.rc))
            self.over = old.wire
            self.gone(cid)
        else:
            self.over = None
        s = self.sessions.get(cid)
        if not clean and s is not None and s.wire is None and s.expiry not in (0, FOREVER) and self.now - s.ended == s.expiry:
            raise Stop()              # the very instant of its end
        resumed = not clean and s is not None and self.alive(s)
        about = ('N01', 'N03') if s is not None and s.expiry not in (0, FOREVER) else ('N01',)
        if cid in self.discarded and self.discarded[cid] == 'N03':
            about = ('N01', 'N03')
        if s is not None and not resumed:
            if s.will_due is not None:
                raise Stop()          # whether the will is published is open
            del self.sessions[cid]
            self.discarded[cid] = 'N01' if clean else ('N03', 'N01')
        if not resumed:
            s = self.sessions[cid] = Session(cid)
        s.wire, s.expiry, s.ended, s.will_due = wire, expiry if self.v == 'V5' else (0 if clean else FOREVER), None, None
        s.rm = rm or 65535 if self.v == 'V5' else 65535
        s.will, s.delay = (will, will[5] if will else 0)
        s.keepalive = min(keepalive, self.o['serverKeepAlive']) if self.v == 'V5' else keepalive
        s.last = self.now
        wire.cid, wire.maxalias, wire.maxsize = cid, aliasmax, maxsize

        def check(x):
            if x.rc != 0:
                self.differ('N01', 'connection refused with %r' % x.rc)
            if x.present != resumed:
                self.differ(about, 'session present %r' % x.present)
            if self.v == 'V5' and keepalive and s.keepalive != keepalive and getattr(x.props, 'ServerKeepAlive', None) != s.keepalive:
                self.differ('N05', 'server keep-alive')
        self.want(wire, 'CONNACK', None, prop='N01', check=check)
        waiting, s.out, s.queue = s.out + s.queue, [], []
        for m in waiting:
            m.__dict__['queued'] = ('M03', 'N01') if m.state else about
        s.queue = waiting
        self.drain(s)
        self.disturb = 'N02'
        self.feed(wire, p)
        if self.over is not None and not self.over.closed:
            self.differ('N02', 'the older connection stays open')
        if wire.closed:
            self.differ('N01', 'the connection was closed')
        self.look()
        self.disturb = 'M05'
        return wire

    def session_over(self, s):
        return s.expiry == 0

    def gone(self, cid, will=True):
        """the connection of the client ended"""
        s = self.sessions[cid]
        s.wire, s.ended = None, self.now
        if will and s.will is not None:
            d = min(s.delay, s.expiry) if self.v == 'V5' else 0
            if d > 0:
                s.will_due = self.now + d
            else:
                self.publish_will(s)
        if s.expiry == 0:
            self.sessions.pop(cid, None)
            self.discarded[cid] = ('N03', 'N01')

    def publish_will(self, s):
        t, p, q, r, props, d = s.will
        s.will, s.will_due = None, None
        before = {w: list(x) for w, x in self.expect.items()}
        self.route(s.cid, t, p, q, r, props)
        for w, xs in self.expect.items():
            for e in xs:
                if e.kind == 'PUBLISH' and not any(e is y for y in before.get(w, [])):
                    e.m.why, e.m.will = 'N04', True

    def end(self, cid, how, **o):
        """the connection ends: 'disconnect', 'with will', 'lost', 'error'"""
        s = self.sessions[cid]
        wire = s.wire
        if how == 'disconnect':
            e = o.get('expiry')
            if self.v == 'V5':
                p = self.packet('Disconnects')
                if e is not None:
                    p.properties.SessionExpiryInterval = e
                    if s.expiry == 0 and e > 0:
                        self.want(wire, 'DISCONNECT', None, optional=True)
                        if s.will is not None:
                            raise Stop()
                    else:
                        s.expiry = e
            else:
                p = self.packet('Disconnects')
            self.gone(cid, will=False)
            self.note = 'N04'
            self.feed(wire, p)
        elif how == 'with will':
            p = self.packet('Disconnects')
            p.reasonCode.set('Disconnect with will message')
            e = o.get('expiry')
            if e is not None:
                p.properties.SessionExpiryInterval = e
                if s.expiry == 0 and e > 0:
                    self.want(wire, 'DISCONNECT', None, optional=True)
                else:
                    s.expiry = e
            self.gone(cid)
            self.feed(wire, p)
        elif how == 'lost':
            self.gone(cid)
            self.lose(wire)
        else:
            if self.v == 'V5':
                self.want(wire, 'DISCONNECT', None, optional=True)
            self.gone(cid)
            self.disturb = o.get('note') or 'N08'
            self.note = o.get('note')
            self.feed(wire, o['bytes'])
        if not wire.closed:
            self.differ((o.get('note') or 'N08') if how == 'error' else 'N04', 'the connection stays open')
        self.look()
        self.note, self.disturb = None, 'M05'

    def heard(self, s):
        s.last = self.now

    def subscribe(self, cid, pid, filters, subid=None):
        """filters: (filter, Sub)"""
        s = self.sessions[cid]
        p = self.packet('Subscribes', id=pid)
        if self.v == 'V5':
            p.data = [(f, M5.SubscribeOptions(QoS=x.qos, noLocal=x.nolocal, retainAsPublished=x.rap, retainHandling=x.rh)) for f, x in filters]
            if subid is not None:
                p.properties.SubscriptionIdentifier = subid
        else:
            p.data = [(f, x.qos) for f, x in filters]
        for f, x in filters:
            if f == 'test/nosubscribe':
                continue
            x.id = subid
            if f == 'test/QoS 1 only':
                x.qos = min(1, x.qos)
            if f == 'test/QoS 0 only':
                x.qos = 0
            new = f not in s.subs
            s.subs[f] = x
            x.wire = s.wire
        seen = set()
        for f, x in filters:
            if f == 'test/nosubscribe':
                continue
            new = (s.cid, f) not in self.had and f not in seen
            seen.add(f)
            if x.rh == 2 or x.rh == 1 and not new:
                continue
            if f.startswith('$share/') and self.retained:
                raise Stop()
            for t, (payload, q, props, when) in self.retained.items():
                if self.match(f, t):
                    m = Msg(t, payload, {min(q, x.qos)}, {True}, props, when, [subid] if subid is not None else [], 'R02')
                    if s.out or s.queue or s.rm < 20:
                        raise Stop()
                    n = len(self.expect.get(s.wire, []))
                    self.deliver(s, m)
                    for e in self.expect.get(s.wire, [])[n:]:
                        e.anyorder = True
        codes = [x.qos for f, x in filters]

        def check(x):
            if len(x.rc) != len(filters):
                self.differ('M05', 'SUBACK with %d codes for %d filters' % (len(x.rc), len(filters)))
            for c, (f, o) in zip(x.rc, filters):
                if f == 'test/nosubscribe':
                    if c < 0x80:
                        self.differ('M05', 'refused filter acknowledged with %d' % c)
                elif c != o.qos:
                    self.differ('M05', 'granted QoS %r, used %r' % (c, o.qos))
        self.want(s.wire, 'SUBACK', pid, check=check)
        self.heard(s)
        self.note = 'R02'
        self.feed(s.wire, p)
        self.look()
        self.note = None

    @property
    def had(self):
        return self._had

    def begin(self):
        self._had = {(s.cid, f) for s in self.sessions.values() for f in s.subs}

    def unsubscribe(self, cid, pid, filters):
        s = self.sessions[cid]
        p = self.packet('Unsubscribes', id=pid)
        if self.v == 'V5':
            p.topicFilters = list(filters)
        else:
            p.data = list(filters)
        codes = []
        for f in filters:
            codes.append(0 if f in s.subs else 17)
            s.subs.pop(f, None)

        def check(x):
            if self.v == 'V5' and x.rc != codes:
                self.differ('M05', 'UNSUBACK codes %r, not %r' % (x.rc, codes))
        self.want(s.wire, 'UNSUBACK', pid, check=check)
        self.heard(s)
        self.feed(s.wire, p)
        self.look()

    def publish(self, cid, pid, topic, payload, qos, retain=False, props=None, dup=False, alias=None, wire_topic=None, extra=None):
        s = self.sessions[cid]
        props = props or {}
        p = self.packet('Publishes', topicName=topic if wire_topic is None else wire_topic, data=payload, QoS=qos, DUP=1 if dup else 0, RETAIN=1 if retain else 0)
        if qos:
            setattr(p, 'packetIdentifier' if self.v == 'V5' else 'messageIdentifier', pid)
        if self.v == 'V5':
            for n, x in props.items():
                setattr(p.properties, n, x)
            if alias is not None:
                p.properties.TopicAlias = alias
        if qos == 2 and pid in s.inbound:
            self.note = 'M04'
        elif qos == 2:
            s.inbound[pid] = (topic, payload, qos, retain, props, self.now)
            if not self.o['publish_on_pubrel']:
                self.route(cid, topic, payload, qos, retain, props)
        else:
            self.route(cid, topic, payload, qos, retain, props)
        if qos == 1:
            self.want(s.wire, 'PUBACK', pid, check=self.success)
        elif qos == 2:
            self.want(s.wire, 'PUBREC', pid, check=self.success)
            for xs in self.expect.values():
                for e in xs:
                    if e.kind == 'PUBLISH' and self.prop == 'M04':
                        e.m.why = 'M04'
        self.heard(s)
        self.feed(s.wire, p)
        self.look()
        self.note = None

    def success(self, x):
        if self.v == 'V5' and x.rc not in (0, 0x10):
            self.differ('M05', 'acknowledged with %r' % x.rc)

    def pubrel(self, cid, pid, details=None):
        s = self.sessions[cid]
        m = s.inbound.pop(pid, None)
        if m is None:
            self.note = 'M04'
        elif self.o['publish_on_pubrel']:
            self.route(cid, *m[:5], t=m[5])
            for xs in self.expect.values():
                for e in xs:
                    if e.kind == 'PUBLISH' and self.prop == 'M04':
                        e.m.why = 'M04'
        else:
            self.note = 'M04'
        self.want(s.wire, 'PUBCOMP', pid)
        self.heard(s)
        p = self.packet('Pubrels', id=pid)
        if details is not None:
            p.reasonCode.value = details[0] if details[0] != 0x10 else 0
            for n, x in details[1].items():
                setattr(p.properties, n, x)
        self.feed(s.wire, p)
        self.look()
        self.note = None

    def stranger(self, packet):
        """bytes on a new connection that must not take effect"""
        wire = self.wire()
        self.note = self.disturb = 'N08'
        for k in ('DISCONNECT', 'CONNACK'):
            self.want(wire, k, None, optional=True, check=lambda x: x.rc is not None and x.rc != 0 or self.differ('N08', 'accepted'))
        self.feed(wire, packet)
        if not wire.closed:
            self.differ('N08', 'the connection stays open')
        for x in wire.got:
            if x.kind not in ('DISCONNECT', 'CONNACK'):
                self.differ('N08', 'answered with %r' % x)
        self.look()
        self.note, self.disturb = None, 'M05'

    def anonymous(self, clean):
        """a CONNECT without client identifier; the name given, or None"""
        wire = self.wire()
        p = self.packet('Connects', ClientIdentifier='')
        if self.v == 'V5':
            p.CleanStart = clean
        else:
            p.CleanSession = clean
        known = set(self.b.broker.getClients())
        self.note = self.disturb = 'N08'
        self.want(wire, 'CONNACK', None, optional=True)
        self.feed(wire, p)
        got = list(wire.got)
        if len(got) != 1 or got[0].kind != 'CONNACK':
            self.differ('N08', 'answered with %r' % got)
        self.look()
        if self.v == 'V311' and not clean:
            if got[0].rc == 0 or not wire.closed:
                self.differ('N08', 'no identifier and no clean session')
            return
        if got[0].rc != 0 or got[0].present or wire.closed:
            self.differ('N08', 'refused: %r' % got)
        new = set(self.b.broker.getClients()) - known
        if self.v == 'V5':
            name = getattr(got[0].props, 'AssignedClientIdentifier', None)
            if new != {name}:
                self.differ('N08', 'assigned %r, which is not new: %r' % (name, new))
        else:
            if len(new) != 1:
                self.differ('N08', 'no new client identifier')
            name = list(new)[0]
        if not isinstance(name, str) or name == '' or name in self.sessions:
            self.differ('N08', 'assigned %r' % (name,))
        s = self.sessions[name] = Session(name)
        s.wire, s.last, wire.cid = wire, self.now, name
        self.note, self.disturb = None, 'M05'
        return name

    def ping(self, cid):
        s = self.sessions[cid]
        self.want(s.wire, 'PINGRESP')
        self.heard(s)
        self.feed(s.wire, self.packet('Pingreqs'))
        self.look()

    def ack(self, cid, kind, pid, details=None):
        """kind: PUBACK, PUBREC, PUBCOMP"""
        s = self.sessions[cid]
        m = next((m for m in s.out if m.id == pid), None)
        q = max(m.qos) if m is not None else None
        if kind == 'PUBACK' and q == 1 or kind == 'PUBCOMP' and q == 2 and m.state == 'PUBCOMP':
            s.out.remove(m)
            for x in s.queue:
                x.__dict__.setdefault('queued', 'M02')
            self.drain(s)
        elif kind == 'PUBREC':
            if q == 2 and m.state == 'PUBLISH':
                m.state = 'PUBCOMP'
                self.want(s.wire, 'PUBREL', pid, prop='M03')
            else:
                self.want(s.wire, 'PUBREL', pid, optional=True)
        self.note = 'M03' if self.prop == 'M03' else 'M02'
        self.heard(s)
        p = self.packet({'PUBACK': 'Pubacks', 'PUBREC': 'Pubrecs', 'PUBCOMP': 'Pubcomps'}[kind], id=pid)
        if details is not None:
            r = details[0]
            if kind == 'PUBCOMP' and r == 0x10 or kind == 'PUBREC' and r >= 0x80:
                r = 0
            elif kind == 'PUBACK' and r == 0x92:
                r = 0x97
            p.reasonCode.value = r
            for n, x in details[1].items():
                setattr(p.properties, n, x)
        self.feed(s.wire, p)
        self.look()
        self.note = None

    def wait(self, seconds):
        """time passes; the idle listeners and the timer thread do their work"""
        times = [s.will_due for s in self.sessions.values() if s.will_due is not None]
        times += [s.last + 1.5 * s.keepalive for s in self.sessions.values() if s.wire is not None]
        times += [s.ended + s.expiry for s in self.sessions.values() if s.wire is None]
        while self.now + seconds in times:
            seconds += .125
        self.now = self.now + seconds
        self.g.settime(self.now)
        self.note = 'N04'
        for s in list(self.sessions.values()):
            if s.will_due is not None and self.now >= s.will_due:
                self.publish_will(s)
        self.tick()
        self.look()
        self.disturb = 'N05'
        for s in list(self.sessions.values()):
            if s.wire is None:
                continue
            silent = self.now - s.last
            wire = s.wire
            dead = s.keepalive > 0 and silent > 1.5 * s.keepalive
            if dead:
                self.want(wire, 'DISCONNECT', None, optional=True)
                self.gone(s.cid)
                if self.prop == 'N05':
                    for xs in self.expect.values():
                        for e in xs:
                            if e.kind == 'PUBLISH':
                                e.m.why = 'N05'
            self.b.keepalive(wire)
            if wire.closed != dead:
                self.differ('N05', 'closed %r after %r seconds of silence with keep-alive %r' % (wire.closed, silent, s.keepalive))
            self.look()
        self.note, self.disturb = None, 'M05'

    def tick(self):
        if self.v != 'V5':
            return
        t = RealThreads.__new__(RealThreads)
        t.broker, t.lock, t.running = self.b.cleanupThread.broker, self.b.cleanupThread.lock, False
        real = B5.time.sleep
        n = [0]

        def sleep(s=0):
            n[0] += 1
            if n[0] > 1:
                raise KeyboardInterrupt
            t.running = False
        B5.time.sleep = sleep
        try:
            t.run()
        finally:
            B5.time.sleep = real
