"""Random histories of the brokers (bounded, native), against the reference model of contracts.world."""
from contracts.world import World, Sub, Stop, FOREVER, M5
from contracts.topics import TOPICS, FILTERS, is_dollar
from pydv.spec import contract

V = ['V5', 'V311']
Q = ['mqtt.brokers.%s.Brokers.Brokers.' % v for v in V]
QM = ['mqtt.brokers.%s.MQTTBrokers.MQTTBrokers.' % v for v in V]
QC = ['mqtt.brokers.%s.MQTTBrokers.MQTTClients.' % v for v in V]
BOUND = 'random histories of %s over 4 clients, 10 topics and %d filters, against a reference model'
PLAIN = [f for f in FILTERS if not f.startswith('$share')]
SHARED = [f for f in FILTERS if f.startswith('$share')]
CLIENTS = ['A', 'B', 'C', 'D']


class NotNow(BaseException):
    """the operation makes no sense now"""


def run(fn, *a):
    try:
        fn(*a)
    except Stop:
        pass


def steps(g, w, ops, lo=2, hi=14):
    """a history of operations (name, weight, function)"""
    names = [n for n, k, f in ops for _ in range(k)]
    table = {n: f for n, k, f in ops}

    def one(g):
        if w.stopped:
            return
        try:
            w.begin()
            table[g.pick('operation', names)](g, w)
        except NotNow:
            pass
        except Stop:
            w.stopped = True
    g.list('history', one, lo, hi)
    g.check('the history agrees with the reference model', True)
    if not w.stopped:
        g.cover('a whole history')


def start(g, v, prop, **o):
    w = World(g, v, prop, **o)
    w.stopped = False
    w.people = g.pick('people', [CLIENTS[:2], CLIENTS[:2], CLIENTS])
    w.begin()
    return w


def online(g, w):
    c = [c for c in CLIENTS if c in w.sessions and w.sessions[c].wire is not None]
    if not c:
        raise NotNow()
    return g.oneof('client', c)


def offline(g, w):
    c = [c for c in CLIENTS if c not in w.sessions or w.sessions[c].wire is None]
    if not c:
        raise NotNow()
    return g.oneof('client', c)


def some_props(g, w, expiry=False):
    p = {}
    if w.v == 'V5':
        if g.pick('properties', [0, 0, 1]):
            p['UserProperty'] = [('k', g.pick('value', ['a', 'b']))]
            p['ContentType'] = 'text'
        if expiry and g.pick('expiry', [0, 1]):
            p['MessageExpiryInterval'] = g.pick('interval', [1, 2, 3, 5, 10, 0, 4294967295])
    return p


def subscribe(g, w, pool=PLAIN, opts=False, ids=False, rh=False, most=3):
    c = online(g, w)
    def one(g):
        x = Sub(g.int('QoS', 0, 2))
        if w.v == 'V5':
            f = g.oneof('filter', pool)
            if opts:
                x.rap = g.bool('retain as published')
                if not f.startswith('$share/'):
                    x.nolocal = g.bool('no local')
            if rh:
                x.rh = g.int('retain handling', 0, 2)
        else:
            f = g.oneof('filter', [f for f in pool if not f.startswith('$share/')])
        return f, x
    fs = g.list('filters', one, 1, most)
    i = None
    if ids and w.v == 'V5' and g.bool('with identifier'):
        i = g.oneof('subscription identifier', [1, 2, 3, 127, 128, 268435455])
    w.subscribe(c, g.int('packet id', 1, 65535), fs, i)


def unsubscribe(g, w, pool=PLAIN):
    c = online(g, w)
    have = sorted(w.sessions[c].subs) or pool
    w.unsubscribe(c, g.int('packet id', 1, 65535), g.list('filters', lambda g: g.oneof('filter', have if g.pick('known', [1, 1, 0]) else pool), 1, 2))


def publish(g, w, topics=TOPICS, retain=(False,), expiry=False, empty=False, qos=(0, 1, 2)):
    c = online(g, w)
    s = w.sessions[c]
    q = g.oneof('QoS', list(qos))
    pid = next(i for i in range(1, 70000) if i not in s.inbound) if q == 2 else g.int('packet id', 1, 65535)
    w.count = getattr(w, 'count', 0) + 1
    payload = b'' if (empty or True in retain) and g.pick('empty', [0, 0, 1] if empty else [0, 0, 0, 0, 1]) else b'm%d' % w.count
    w.publish(c, pid, g.oneof('topic', topics), payload, q, g.oneof('retain', list(retain)), some_props(g, w, expiry))
    if q == 2 and c in w.sessions:
        w.pubrel(c, pid, ack_details(g, w))


def acks(g, w, cs=None):
    """the clients acknowledge what they received"""
    d = ack_details(g, w)
    for c in [c for c in CLIENTS if c in w.sessions and w.sessions[c].wire is not None]:
        for n in range(8):
            out = list(w.sessions[c].out)
            if not out:
                break
            for m in out:
                if m.id is not None:
                    ack(w, c, m, d)


def ack_details(g, w):
    """the reason code and properties of an acknowledgement"""
    if w.v == 'V311' or g.pick('plain', [1, 1, 0]):
        return None
    return (g.oneof('reason', [0, 0x92, 0x10]), {'UserProperty': [('r', 'r')]} if g.bool('acknowledgement properties') else {})


def ack(w, c, m, details=None):
    w.ack(c, 'PUBACK' if m.qos == {1} else 'PUBREC' if m.state == 'PUBLISH' else 'PUBCOMP', m.id, details)


def leave(g, w):
    w.end(online(g, w), g.oneof('how', ['disconnect', 'lost']))


def back(g, w):
    w.connect(offline(g, w), g.pick('clean', [True, False, False]), 1000)


def join(g, w, n=3):
    for c in CLIENTS[:n]:
        w.connect(c, False, 1000)


@contract('R01', [q + 'publish' for q in Q] + [q + 'publishArrived' for q in QC], cases=['V5, merged', 'V5, separate', 'V311, merged', 'V311, separate'],
          concrete_only=True, search=2, bounded=BOUND % ('at most 16 subscribe, unsubscribe, publish, disconnect and connect operations', len(PLAIN)))
def deliveries_match_the_model(g):
    v, m = g.case.split(', ')
    w = start(g, v, 'R01', overlapping_single=m == 'merged')

    run(join, g, w, 3)
    steps(g, w, [('subscribe', 4, lambda g, w: subscribe(g, w)), ('publish', 6, lambda g, w: publish(g, w, retain=(False, False, True))),
                 ('unsubscribe', 1, unsubscribe), ('leave', 1, leave), ('back', 1, back), ('acks', 1, acks)], 3)


@contract('R02', [q + '__doRetained__' for q in Q] + [q + 'subscribe' for q in Q], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 16 retained publishes, subscribes and unsubscribes', len(PLAIN)))
def retained_messages_answer_a_subscription(g):
    w = start(g, g.case, 'R02')
    run(join, g, w, 2)
    steps(g, w, [('publish', 4, lambda g, w: publish(g, w, retain=(True, True, True, False), empty=True)),
                 ('subscribe', 4, lambda g, w: subscribe(g, w, rh=True, ids=True)), ('unsubscribe', 1, unsubscribe), ('acks', 1, acks)], 3)


@contract('R03', [Q[0] + 'publish'], cases=['merged', 'separate'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 16 subscribes with options and publishes', len(PLAIN)))
def options_are_honoured(g):
    w = start(g, 'V5', 'R03', overlapping_single=g.case == 'merged')
    run(join, g, w, 3)
    steps(g, w, [('subscribe', 3, lambda g, w: subscribe(g, w, opts=True, ids=True)),
                 ('publish', 5, lambda g, w: publish(g, w, retain=(False, True))), ('acks', 1, acks)], 3)


@contract('R04', [Q[0] + 'publish'], cases=['V5'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 16 subscribes, shared or not, unsubscribes and publishes', len(FILTERS)))
def one_member_receives(g):
    w = start(g, 'V5', 'R04')
    run(join, g, w, 4)
    pool = SHARED * 3 + [f for f in PLAIN if f in ('a', 'a/b', '#', 'a/#', '+')]
    steps(g, w, [('subscribe', 4, lambda g, w: subscribe(g, w, pool)), ('publish', 6, lambda g, w: publish(g, w, ['a', 'a/b', 'b', 'a/b/c', '$SYS/a'])),
                 ('unsubscribe', 1, unsubscribe), ('acks', 1, acks)], 3)


@contract('R05', [Q[0] + 'publish', Q[0] + '__doRetained__'], cases=['merged', 'separate'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 16 subscribes with identifiers, publishes and retained publishes', len(FILTERS)))
def identifiers_are_those_of_the_subscriptions(g):
    w = start(g, 'V5', 'R05', overlapping_single=g.case == 'merged')
    run(join, g, w, 3)
    pool = PLAIN * 2 + (SHARED if g.bool('shared') else [])
    steps(g, w, [('subscribe', 4, lambda g, w: subscribe(g, w, pool, opts=True, ids=True)),
                 ('publish', 6, lambda g, w: publish(g, w, retain=(False, False, True))), ('unsubscribe', 1, unsubscribe), ('acks', 1, acks)], 3)


def wild(g, w, rm=(None,), expiry=(1000,), will=False, alias=(0,), maxsize=(None,), keepalive=(0, 0, 0, 3, 20)):
    """someone connects, on a new connection or taking over an older one"""
    c = g.oneof('client', w.people)
    wl = None
    if will and g.pick('will', [1, 1, 0]):
        wl = (g.oneof('will topic', ['a', 'a/b', 'w']), b'will %d' % g.int('will payload', 0, 9), g.int('will QoS', 0, 2), g.bool('will retained'),
              {'ContentType': 'w', 'UserProperty': [('w', 'w')]} if w.v == 'V5' and g.bool('will properties') else {},
              g.oneof('will delay', [0, 2, 5, 9]) if w.v == 'V5' else 0)
    w.connect(c, g.pick('clean', [True, False, False]), g.oneof('expiry', list(expiry)), g.oneof('keep alive', list(keepalive)), wl, g.oneof('receive maximum', list(rm)),
              g.oneof('alias maximum', list(alias)), g.oneof('maximum size', list(maxsize)))


def again(g, w, **o):
    """a connection is lost and its client comes back to its session"""
    c = online(g, w)
    w.end(c, g.oneof('how it ended', ['lost', 'disconnect']))
    w.begin()
    w.connect(c, False, g.oneof('expiry', [1000, 1000, 6]), o.get('keepalive', 0), None, g.oneof('receive maximum', list(o.get('rm', (None,)))),
              g.oneof('alias maximum', list(o.get('alias', (0,)))), g.oneof('maximum size', list(o.get('maxsize', (None,)))))


def ack_one(g, w):
    """an acknowledgement, often the right one"""
    c = online(g, w)
    s = w.sessions[c]
    out = [m for m in s.out if m.id is not None]
    if out and g.pick('right', [1, 1, 1, 0]):
        ack(w, c, out[g.int('which', 0, 9) % len(out)], ack_details(g, w))
    else:
        kind = g.oneof('acknowledgement', ['PUBACK', 'PUBREC', 'PUBCOMP'])
        w.ack(c, kind, g.oneof('identifier', [1, 2, 3, 65535, 4]))


FLOW = ['a', 'a/b']


def flows(g, w, ops=()):
    run(join, g, w, 2)
    for c in CLIENTS[:2]:
        w.begin()
        try:
            w.subscribe(c, 1, [('a', Sub(2)), ('a/#', Sub(1 if c == 'B' else 2))])
        except Stop:
            pass


@contract('M01', [q + 'publishArrived' for q in QC] + [QC[0] + 'sendFirst', QC[0] + 'resend'], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 publishes, acknowledgements, disconnections and connections', 2) + ', the identifiers starting anywhere')
def identifiers_in_flight_are_unique(g):
    w = start(g, g.case, 'M01')
    flows(g, w)
    for c in CLIENTS[:2]:
        w.b.broker.getClient(c).msgid = g.oneof('first id of ' + c, [1, 2, 65533, 65534, 65535])
    steps(g, w, [('publish', 6, lambda g, w: publish(g, w, FLOW, qos=(0, 1, 2))), ('ack', 4, ack_one), ('acks', 1, acks),
                 ('leave', 1, leave), ('connect', 2, lambda g, w: wild(g, w, rm=(None, 1, 2, 3))), ('again', 1, lambda g, w: again(g, w, rm=(None, 1, 2, 3)))], 5, 25)


@contract('M02', [QC[0] + f for f in ('publishArrived', 'puback', 'pubcomp', 'sendQueued', 'resend')], cases=['V5', 'V5, QoS 0 kept', 'V311', 'V311, QoS 0 kept'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 publishes, acknowledgements, disconnections and connections', 2))
def flow_control(g):
    w = start(g, g.case.split(',')[0], 'M02', dropQoS0=',' not in g.case)
    flows(g, w)
    steps(g, w, [('publish', 6, lambda g, w: publish(g, w, FLOW, qos=(0, 1, 2))), ('ack', 4, ack_one), ('acks', 1, acks),
                 ('leave', 1, leave), ('connect', 3, lambda g, w: wild(g, w, rm=(None, 1, 2, 3, 65535))), ('again', 1, lambda g, w: again(g, w, rm=(None, 1, 2, 3, 65535)))], 5, 25)


@contract('M03', [q + f for q in QC for f in ('puback', 'pubrec', 'pubcomp', 'resend')], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 publishes, acknowledgements, disconnections and connections', 2))
def handshakes_complete(g):
    w = start(g, g.case, 'M03')
    flows(g, w)
    steps(g, w, [('publish', 4, lambda g, w: publish(g, w, FLOW, qos=(0, 1, 2))), ('ack', 6, ack_one), ('leave', 1, leave),
                 ('connect', 2, lambda g, w: wild(g, w, rm=(None, None, 2))), ('again', 1, lambda g, w: again(g, w, rm=(None, None, 2)))], 5, 25)


def publish2(g, w, dup=True):
    """a QoS 2 message with an identifier of its own or the one of an unreleased message"""
    c = online(g, w)
    s = w.sessions[c]
    pid = g.oneof('identifier', [1, 2, 3, 65535])
    if pid in s.inbound:
        topic, payload, q, r, props, t = s.inbound[pid]
        w.publish(c, pid, topic, payload, 2, r, props, dup=g.pick('DUP', [True, True, False]))
    else:
        w.count = getattr(w, 'count', 0) + 1
        w.publish(c, pid, g.oneof('topic', FLOW), b'm%d' % w.count, 2, False, some_props(g, w))


def release(g, w):
    c = online(g, w)
    w.pubrel(c, g.oneof('identifier', [1, 2, 3, 65535]), ack_details(g, w))


@contract('M04', [q + f for q in QM for f in ('publish', 'pubrel')] + [q + 'pubrel' for q in QC],
          cases=[v + o for v in V for o in (', publish at once', ', publish on release')], concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 QoS 2 publishes, releases, disconnections and connections', 2))
def incoming_qos2_once(g):
    v, o = g.case.split(', ')
    w = start(g, v, 'M04', publish_on_pubrel=o == 'publish on release')
    flows(g, w)
    steps(g, w, [('publish', 6, publish2), ('release', 4, release), ('publish others', 1, lambda g, w: publish(g, w, FLOW, qos=(0, 1))),
                 ('acks', 1, acks), ('leave', 1, leave), ('connect', 2, wild), ('again', 2, again)], 5, 25)


@contract('M05', [q + f for q in QM for f in ('publish', 'pubrel', 'subscribe', 'unsubscribe', 'pingreq')],
          cases=[v + o for v in V for o in (', publish at once', ', publish on release')], concrete_only=True, search=2,
          bounded=BOUND % ('at most 20 requests of all kinds', len(FILTERS)))
def requests_are_acknowledged(g):
    v, o = g.case.split(', ')
    w = start(g, v, 'M05', publish_on_pubrel=o == 'publish on release')
    run(join, g, w, 2)
    pool = FILTERS + ['test/nosubscribe', 'test/QoS 1 only', 'test/QoS 0 only'] * 2
    steps(g, w, [('publish', 3, lambda g, w: publish(g, w, TOPICS + ['test/QoS 1 only', 'test/QoS 0 only'] * 2)), ('publish 2', 2, publish2), ('release', 2, release),
                 ('subscribe', 4, lambda g, w: subscribe(g, w, pool, ids=True, most=5)), ('unsubscribe', 2, lambda g, w: unsubscribe(g, w, pool)),
                 ('ping', 1, lambda g, w: w.ping(online(g, w))), ('acks', 1, acks), ('ack', 1, ack_one)], 3, 20)


def anyend(g, w):
    c = online(g, w)
    how = g.pick('how', ['disconnect', 'disconnect', 'with will', 'lost', 'lost', 'error'])
    if w.v == 'V311' and how == 'with will':
        how = 'lost'
    if how in ('disconnect', 'with will') and w.v == 'V5' and g.bool('other expiry'):
        w.end(c, how, expiry=g.oneof('new expiry', [0, 0, 3, 8, 1000, FOREVER]))
    elif how == 'error':
        w.end(c, how, bytes=g.oneof('malformed', [b'\xf1\x00', b'\x30\x00', b'\x82\x02\x00\x00', b'\x36\x05\x00\x01a\x00\x01', b'\x10\x00']))
    else:
        w.end(c, how)


def wait(g, w):
    w.wait(g.oneof('seconds', [.5, 1.5, 2.5, 4.5, 9.5, 30.5]))


@contract('N01', [q + 'connect' for q in QM] + [q + 'connect' for q in Q] + [q + 'resend' for q in QC], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 connections, ends of connections, waits, subscribes, publishes and acknowledgements', len(PLAIN)))
def sessions_resumed_or_discarded(g):
    w = start(g, g.case, 'N01')
    flows(g, w)
    steps(g, w, [('publish', 4, lambda g, w: publish(g, w, FLOW, qos=(1, 2))), ('subscribe', 2, lambda g, w: subscribe(g, w, ['a', 'a/b', 'a/#', '#', '$SYS/#'])),
                 ('ack', 2, ack_one), ('acks', 1, acks), ('end', 3, anyend), ('wait', 1, wait),
                 ('connect', 5, lambda g, w: wild(g, w, expiry=(1000, 1000, 0, FOREVER, 5)))], 5, 25)


@contract('N02', [q + f for q in QM for f in ('connect', 'disconnect')], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 25 connections, publishes and waits', 2))
def one_live_connection(g):
    w = start(g, g.case, 'N02')
    flows(g, w)
    steps(g, w, [('publish', 3, lambda g, w: publish(g, w, FLOW)), ('ack', 1, ack_one), ('acks', 1, acks), ('end', 1, anyend), ('wait', 3, wait),
                 ('connect', 5, lambda g, w: wild(g, w, expiry=(1000, 0, FOREVER), will=True, keepalive=(0, 1, 2, 3, 7, 25)))], 5, 20)


@contract('N03', [QM[0] + 'connect', QM[0] + 'disconnect', Q[0] + 'disconnect'], cases=['V5'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 25 connections, ends of connections with and without new interval, and waits', 2))
def sessions_last_their_interval(g):
    w = start(g, g.case, 'N03')
    flows(g, w)
    steps(g, w, [('publish', 3, lambda g, w: publish(g, w, FLOW, qos=(1, 2))), ('acks', 1, acks), ('end', 5, anyend), ('wait', 5, wait),
                 ('connect', 5, lambda g, w: wild(g, w, expiry=(0, 2, 5, 10, 1000, FOREVER)))], 5, 20)


@contract('N04', [q + f for q in QM for f in ('disconnect', 'connect', 'handleRequest')] + [Q[0] + f for f in ('setupWillMessage', 'sendWillMessage', 'disconnect')]
          + [Q[1] + 'terminate', Q[1] + 'disconnect'], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 25 connections with wills, ends of connections of all kinds, and waits', 2))
def wills_published_once(g):
    w = start(g, g.case, 'N04')
    run(join, g, w, 2)
    w.begin()
    run(w.subscribe, 'A', 1, [('#', Sub(2))])
    steps(g, w, [('end', 5, anyend), ('wait', 4, wait), ('subscribe', 1, lambda g, w: subscribe(g, w, ['#', 'w'])), ('acks', 2, acks),
                 ('connect', 5, lambda g, w: wild(g, w, expiry=(0, 3, 7, 1000, FOREVER), will=True))], 5, 20)


@contract('N05', [q + f for q in QM for f in ('keepalive', 'handlePacket', 'connect')], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 25 connections with keep-alive, packets of all kinds, and waits', 2))
def keep_alive(g):
    w = start(g, g.case, 'N05', serverKeepAlive=g.oneof('server keep alive', [1, 4, 60]))
    run(join, g, w, 2)
    w.begin()
    run(w.subscribe, 'A', 1, [('a', Sub(2))])
    steps(g, w, [('end', 1, anyend), ('wait', 6, wait), ('ping', 1, lambda g, w: w.ping(online(g, w))), ('publish', 1, lambda g, w: publish(g, w, FLOW)),
                 ('subscribe', 1, lambda g, w: subscribe(g, w, FLOW)), ('unsubscribe', 1, lambda g, w: unsubscribe(g, w, FLOW)), ('ack', 2, ack_one),
                 ('connect', 4, lambda g, w: wild(g, w, will=True, keepalive=(0, 1, 2, 3, 10, 20, 65535)))], 5, 20)


def publish_alias(g, w):
    c = online(g, w)
    wire = w.sessions[c].wire
    a = g.oneof('alias', [0, 1, 2, 3, 65535])
    names = wire.__dict__.setdefault('aliases', {})
    topic = g.oneof('topic', FLOW + ['', ''])
    q = g.int('QoS', 0, 1)
    w.count = getattr(w, 'count', 0) + 1
    payload = b'm%d' % w.count
    if a == 0 or a > w.o['topicAliasMaximum'] or topic == '' and a not in names:
        p = w.packet('Publishes', topicName=topic, data=payload, QoS=q)
        if q:
            p.packetIdentifier = 5
        p.properties.TopicAlias = a
        w.end(c, 'error', bytes=p.pack(), note='N06')
    else:
        if topic:
            names[a] = topic
        w.publish(c, g.int('packet id', 1, 65535), names[a], payload, q, False, some_props(g, w), alias=a, wire_topic=topic)


def publish_sized(g, w):
    c = online(g, w)
    w.count = getattr(w, 'count', 0) + 1
    w.publish(c, 9, g.oneof('topic', FLOW + ['b', 'w']), b'%d' % w.count + b'x' * g.oneof('length', [0, 1, 5, 10, 15, 20, 25, 30, 100, 130]), g.int('QoS', 0, 1), False, some_props(g, w))


@contract('N06', [Q[0] + 'resolveTopicAlias', Q[0] + 'getAliasTopic', QC[0] + 'sendPub', 'mqtt.brokers.V5.MQTTBrokers.respond'], cases=['V5'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 connections with limits and publishes with and without aliases, of many sizes', 2))
def limits_are_enforced(g):
    w = start(g, g.case, 'N06', topicAliasMaximum=g.oneof('alias maximum of the broker', [0, 1, 2, 3, 3]))
    run(join, g, w, 1)
    w.begin()
    run(w.subscribe, 'A', 1, [('#', Sub(2))])
    steps(g, w, [('alias', 5, publish_alias), ('sized', 4, publish_sized), ('publish', 2, lambda g, w: publish(g, w, FLOW, qos=(0, 1))), ('end', 1, anyend), ('again', 3, lambda g, w: again(g, w, alias=(0, 1, 2, 2, 65535))), ('acks', 3, acks),
                 ('subscribe', 2, lambda g, w: subscribe(g, w, ['#', 'a', 'a/#', 'w'], ids=True)),
                 ('connect', 3, lambda g, w: wild(g, w, alias=(0, 1, 2, 65535), maxsize=(None, 40, 60, 150)))], 5, 25)


@contract('N07', ['mqtt.brokers.V5.MQTTBrokers.respond', QC[0] + 'sendFirst', QC[0] + 'sendQueued', Q[0] + '__doRetained__'], cases=['V5'], concrete_only=True, search=2,
          bounded=BOUND % ('at most 30 publishes with expiry, retained or not, subscribes, connections and waits', 2))
def expiry_is_honoured(g):
    w = start(g, g.case, 'N07')
    flows(g, w)
    steps(g, w, [('publish', 5, lambda g, w: publish(g, w, FLOW, retain=(False, True), expiry=True)), ('wait', 4, wait), ('end', 2, leave),
                 ('ack', 2, ack_one), ('acks', 2, acks), ('subscribe', 2, lambda g, w: subscribe(g, w, ['a', 'a/#', 'a/b'])),
                 ('connect', 4, lambda g, w: wild(g, w, rm=(None, 1, 2)))], 5, 25)


def stranger(g, w):
    k = g.pick('packet', ['Publishes', 'Subscribes', 'Pingreqs', 'Unsubscribes', 'Pubrels', 'Pubacks', 'Disconnects', 'name', 'version', 'first'])
    if k == 'Publishes':
        p = w.packet(k, topicName='a', data=b'no', QoS=g.int('QoS', 0, 2), RETAIN=1 if g.bool('retain') else 0)
        if p.fh.QoS:
            setattr(p, 'packetIdentifier' if w.v == 'V5' else 'messageIdentifier', 1)
    elif k == 'Subscribes':
        p = w.packet(k, id=1, data=[('a', M5.SubscribeOptions(QoS=1))] if w.v == 'V5' else [('a', 1)])
    elif k == 'Unsubscribes':
        p = w.packet(k, id=1)
        if w.v == 'V5':
            p.topicFilters = ['a']
        else:
            p.data = ['a']
    elif k in ('Pubrels', 'Pubacks'):
        p = w.packet(k, id=1)
    elif k in ('name', 'version', 'first'):
        p = bad_connect(g, w, k)
    else:
        p = w.packet(k)
    b = bytes(p.pack())
    if g.bool('more'):
        b += bytes(w.packet('Pingreqs').pack())
    w.stranger(b)


def bad_connect(g, w, k):
    p = w.packet('Connects', ClientIdentifier=g.oneof('its client', CLIENTS), KeepAliveTimer=0)
    if k == 'name':
        p.ProtocolName = g.oneof('protocol name', ['MQIsdp', 'mqtt', 'MQT', 'MQTTT', '', 'MQtt', 'MQTT '])
    else:
        p.ProtocolVersion = g.oneof('protocol version', [0, 1, 2, 6, 3, 255, 132, 133, 4 + 16, 5 + 16] + [4 if w.v == 'V5' else 5] * 3)
    if w.v == 'V5':
        p.CleanStart = g.bool('clean')
    else:
        p.CleanSession = g.bool('clean')
    p.WillFlag = 1
    p.WillTopic, p.WillMessage, p.WillQoS, p.WillRETAIN = 'a', b'no', 1, 1
    return p


def second_connect(g, w):
    c = online(g, w)
    p = w.packet('Connects', ClientIdentifier=g.oneof('name of the other', CLIENTS), KeepAliveTimer=0)
    if w.v == 'V5':
        p.CleanStart = g.bool('other clean')
    else:
        p.CleanSession = g.bool('other clean')
    k = g.pick('kind', ['second', 'second', 'name', 'version'])
    if k != 'second':
        p = bad_connect(g, w, k)
        w.want(w.sessions[c].wire, 'CONNACK', None, optional=True, check=lambda x: x.rc != 0 or w.differ('N08', 'accepted'))
    w.end(c, 'error', bytes=bytes(p.pack()), note='N08')


@contract('N08', [q + f for q in QM for f in ('connect', 'handlePacket', 'handleRequest')], cases=V, concrete_only=True, search=2,
          bounded=BOUND % ('at most 25 good and bad first packets, second CONNECT packets and publishes', 2))
def connect_first_and_once(g):
    w = start(g, g.case, 'N08')
    flows(g, w)
    steps(g, w, [('stranger', 4, stranger), ('second', 3, second_connect), ('nameless', 2, lambda g, w: w.anonymous(g.bool('clean'))),
                 ('publish', 3, lambda g, w: publish(g, w, FLOW, retain=(False, True))), ('connect', 4, lambda g, w: wild(g, w, will=True)), ('end', 1, anyend)], 5, 20)
