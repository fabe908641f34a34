"""N01-N05, N08: connections, sessions and wills through the handlers of the brokers."""
from contracts.server import *
from pydv.spec import contract
SCENE = 'at most three clients and a fixed sequence of operations; any times, intervals, identifiers, QoS values and contents'


def enter(g, w, cid, at, **o):
    """a client connects at the given time"""
    g.settime(at)
    s = wire(w.v)
    w.connect(s, cid, **o)
    g.check('accepted', w.accepted(s) and not s.closed)
    return s


# ------------------------------------------------------------------ keep-alive
@contract('N05', [q + f for q in QM for f in ('keepalive', 'handlePacket', 'handleRequest', 'connect')], cases=V, uses=NET, bounded=SCENE)
def silent_connections_are_closed_in_time(g):
    v = g.case
    most = g.int('server keep alive', 1, 65535)
    w = Server(g, v, serverKeepAlive=most)
    k = g.int('keep alive', 0, 65535)
    o = w.observer()
    t = g.int('connected at', 0, 100000)
    m = g.bytes('will message', small=True)
    g.assume(len(m) <= 65535)
    s = enter(g, w, 'A', t, keepalive=k, will=('w', m, 1, 0))
    silence = g.int('silence', 0, 200000)
    e = most if v == 'V5' and most < k else k
    g.assume(2 * silence != 3 * e)
    g.settime(t + silence)
    w.b.keepalive(s)
    late = e > 0 and 2 * silence > 3 * e
    g.check('closed after one and a half times the keep-alive, and not before', s.closed == late)
    g.check('with its will', w.messages(o) == ([('w', m, 1)] if late else []))
    g.check('other clients are not closed', not o.closed)
    w.b.keepalive(o)
    g.check('without keep-alive nobody is closed', not o.closed)


def any_packet(g, w, kind):
    i = g.int('identifier', 1, 65535)
    p = w.packet(kind, None if kind == 'Pingreqs' else i)
    if kind == 'Publishes':
        p.topicName = 'x'
        p.data = g.bytes('payload', small=True)
        p.fh.QoS = g.int('QoS', 0, 2)
    elif kind == 'Subscribes':
        p.data = [('x', M5.SubscribeOptions(1) if w.v == 'V5' else 1)]
    elif kind == 'Unsubscribes':
        if w.v == 'V5':
            p.topicFilters = ['x']
        else:
            p.data = ['x']
    return p


KINDS = ['Pingreqs', 'Publishes', 'Subscribes', 'Unsubscribes', 'Pubacks', 'Pubrecs', 'Pubrels', 'Pubcomps']


@contract('N05', [q + f for q in QM for f in ('keepalive', 'handlePacket')], cases=['%s, %s' % (v, k) for v in V for k in KINDS], uses=NET, bounded=SCENE)
def any_packet_restarts_the_period(g):
    v, kind = g.case.split(', ')
    w = Server(g, v)
    k = g.int('keep alive', 1, 65535)
    t = g.int('connected at', 0, 100000)
    s = enter(g, w, 'A', t, keepalive=k)
    t1 = t + g.int('after', 0, 200000)
    g.settime(t1)
    w.send(s, any_packet(g, w, kind))
    g.check('still open', not s.closed)
    silence = g.int('silence', 0, 200000)
    g.assume(2 * silence != 3 * k)
    g.settime(t1 + silence)
    w.b.keepalive(s)
    g.check('the period starts with the packet', s.closed == (2 * silence > 3 * k))


# ------------------------------------------------------------------ first packet
@contract('N08', [q + f for q in QM for f in ('handlePacket', 'handleRequest', 'disconnect')], cases=['%s, %s' % (v, k) for v in V for k in KINDS + ['Disconnects']], uses=NET, bounded=SCENE)
def nothing_happens_before_connect(g):
    v, kind = g.case.split(', ')
    w = Server(g, v)
    o = w.observer()
    w.publish(o, 'k', b'kept', 0, 0, 1)
    before = len(o.sent)
    s = wire(v)
    p = any_packet(g, w, kind) if kind != 'Disconnects' else w.packet(kind)
    if kind == 'Publishes':
        p.fh.RETAIN = g.int('retain', 0, 1)
    w.send(s, p)
    g.check('the connection is closed', s.closed)
    g.check('nothing is acknowledged', all(k == DISCONNECT for k in w.kinds(s)))
    g.check('no other client notices', len(o.sent) == before and not o.closed)
    g.check('nothing is retained', [k for k in w.data['retained']] == ['k'])
    g.check('nothing is subscribed', len(w.data['subscriptions']) == 1 and len(w.data['dollar_subscriptions']) == 0)


@contract('N08', [q + f for q in QM for f in ('connect', 'handleRequest', 'disconnect')], cases=['%s, %s' % (v, k) for v in V for k in ('name', 'version')], uses=NET, bounded=SCENE)
def other_protocols_are_refused(g):
    v, what = g.case.split(', ')
    w = Server(g, v)
    o = w.observer()
    a = enter(g, w, 'A', 0, expiry=1000)
    before, mine = len(o.sent), len(a.sent)
    p = w.connect_packet(g.pick('client', ['A', 'B', '']), g.bool('clean'), 1000, 0, ('w', b'no', 1, 1))
    if what == 'name':
        p.ProtocolName = g.str('protocol name', pool=['MQIsdp', 'MQT', 'MQTTT', 'mqtt', 'MQtt'])
        g.assume(p.ProtocolName != 'MQTT')
    else:
        p.ProtocolVersion = g.int('protocol version', 0, 255)
        g.assume(p.ProtocolVersion != (5 if v == 'V5' else 4))
    s = wire(v)
    w.send(s, p)
    g.check('the connection is closed', s.closed)
    g.check('not accepted', all(w.kinds(s)[j] in (CONNACK, DISCONNECT) and w.code(s.sent[j]) != 0 for j in range(len(s.sent))))
    g.check('no other client notices', len(o.sent) == before and len(a.sent) == mine and not o.closed and not a.closed)
    b = enter(g, w, 'B', 0, expiry=1000)
    g.check('no session was created', not w.present(b.sent[0]))
    g.check('nothing is retained', len(w.data['retained']) == 0)


@contract('N08', [q + f for q in QM for f in ('connect', 'handleRequest', 'disconnect')], cases=V, uses=NET, bounded=SCENE)
def a_second_connect_ends_the_connection(g):
    v = g.case
    w = Server(g, v)
    o = w.observer()
    b = enter(g, w, 'B', 0, expiry=1000)
    a = enter(g, w, 'A', 0, expiry=1000)
    before, mine, n = len(o.sent), len(b.sent), len(a.sent)
    w.send(a, w.connect_packet(g.pick('client', ['A', 'B', 'C', '']), g.bool('clean'), 1000, g.int('keep alive', 0, 65535), ('w', b'no', 1, 1)))
    g.check('the connection is closed', a.closed)
    g.check('not accepted', all(w.kinds(a)[j] == DISCONNECT for j in range(n, len(a.sent))))
    g.check('no other client notices', len(o.sent) == before and len(b.sent) == mine and not o.closed and not b.closed)
    c = enter(g, w, 'C', 0, expiry=1000)
    g.check('no session was created', not w.present(c.sent[0]))


@contract('N08', [q + 'connect' for q in QM], cases=V, uses=NET, bounded=SCENE)
def nameless_clients_get_a_name(g):
    v = g.case
    w = Server(g, v)
    a = enter(g, w, 'A', 0, expiry=1000, clean=True)
    b = enter(g, w, '', 0, clean=True)
    c = enter(g, w, '', 0, clean=True)
    g.check('all stay connected', not a.closed and not b.closed and not c.closed)
    if v == 'V5':
        x, y = b.sent[0].properties.AssignedClientIdentifier, c.sent[0].properties.AssignedClientIdentifier
        g.check('different names, told to the client', x != y and x != 'A' and y != 'A' and x != '' and y != '')
        g.check('new sessions', not w.present(b.sent[0]) and not w.present(c.sent[0]))
        g.check('no name for others', not hasattr(a.sent[0].properties, 'AssignedClientIdentifier'))


# ------------------------------------------------------------------ one connection for each client
@contract('N02', [q + f for q in QM for f in ('connect', 'disconnect')], cases=V, uses=NET, bounded=SCENE)
def the_older_connection_is_closed(g):
    v = g.case
    w = Server(g, v, serverKeepAlive=g.int('server keep alive', 1, 65535))
    t = g.int('connected at', 0, 100000)
    c0 = g.bool('first clean')
    b = enter(g, w, 'B', t, keepalive=g.int('other keep alive', 0, 65535))
    w.subscribe(b, 1, [('y', 0)])
    a = enter(g, w, 'A', t, clean=c0, expiry=g.int('first expiry', 0, 4294967295), keepalive=g.int('keep alive', 0, 65535))
    n, m = len(a.sent), len(b.sent)
    t2 = t + g.int('later', 0, 100000)
    a2 = enter(g, w, 'A', t2, clean=g.bool('second clean'), expiry=g.int('second expiry', 0, 4294967295), keepalive=g.int('second keep alive', 0, 65535))
    g.check('the older connection is closed', a.closed)
    g.check('the client is told', v == 'V311' or w.kinds(a)[n:] == [DISCONNECT] and w.code(a.sent[n]) == 0x8E)
    g.check('other clients are unaffected', not b.closed and len(b.sent) == m)
    n = len(a.sent)
    w.subscribe(a2, 1, [('y', 0)])
    m = g.bytes('payload', small=True)
    g.assume(len(m) <= 1000000)
    w.publish(b, 'y', m)
    g.check('the older connection is not used again', len(a.sent) == n and not a.late)
    g.check('the newer one is', len(w.messages(a2)) == 1 and not a2.closed and len(w.messages(b)) == 1)
    # the end of the older connection is seen later
    w.lose(a)
    w.publish(b, 'y', b'2')
    g.check('which does not disturb the newer one', len(w.messages(a2)) == 2 and not a2.closed)


# ------------------------------------------------------------------ sessions
FOREVER = 4294967295


@contract('N03', [QM[0] + 'connect', QM[0] + 'disconnect', Q[0] + 'disconnect'],
          cases=['disconnect', 'disconnect with interval', 'disconnect with will', 'lost', 'silent', 'malformed'], uses=NET, bounded=SCENE)
def sessions_end_with_their_interval(g):
    how = g.case
    w = Server(g, 'V5')
    t = g.int('connected at', 0, 100000)
    e = g.int('interval', 0, FOREVER)
    k = g.int('keep alive', 1, 65535)
    given = how != 'lost' or g.bool('interval given')
    s = enter(g, w, 'A', t, expiry=e if given else None, keepalive=k, clean=g.bool('first clean'))
    w.subscribe(s, 1, [('y', 1)])
    if not given:
        e = 0
    t1 = t + g.int('connected for', 0, 100000)
    g.settime(t1)
    if how == 'disconnect':
        w.disconnect(s)
    elif how == 'disconnect with interval':
        new = g.int('new interval', 0, FOREVER)
        w.disconnect(s, new)
        e = new if e > 0 else 0
    elif how == 'disconnect with will':
        w.disconnect(s, None, 4)
    elif how == 'silent':
        t1 = t + 2 * k
        g.settime(t1)
        w.b.keepalive(s)
    elif how == 'malformed':
        w.publish(s, '', b'')
    else:
        w.lose(s)
    g.check('closed', s.closed)
    away = g.int('away', 0, 5000000000)
    g.assume(away != e or e == 0)
    g.assume(e < FOREVER or away < FOREVER)
    s2 = enter(g, w, 'A', t1 + away, expiry=10)
    kept = e > 0 and away < e
    g.check('resumed until the interval has passed, and not later', w.present(s2.sent[0]) == kept)
    w.publish(s2, 'y', b'1')
    g.check('with its subscriptions, or without', len(w.messages(s2)) == (1 if kept else 0))


@contract('N03', [QM[0] + 'connect', QM[0] + 'disconnect'], cases=['kept', 'queued'], uses=NET, bounded=SCENE)
def the_interval_counts_from_the_last_connection(g):
    """a session may be resumed several times, each time with an interval of its own"""
    w = Server(g, 'V5')
    o = enter(g, w, 'O', 0)
    t, e1, e2 = g.int('first at', 0, 100000), g.int('first interval', 1, FOREVER), g.int('second interval', 0, FOREVER)
    s = enter(g, w, 'A', t, expiry=e1)
    w.subscribe(s, 1, [('y', 1)])
    w.disconnect(s)
    t1 = t + g.int('away', 0, FOREVER)
    g.assume(t1 - t < e1)
    s2 = enter(g, w, 'A', t1, expiry=e2)
    g.check('resumed', w.present(s2.sent[0]))
    t2 = t1 + g.int('back for', 0, 100000)
    g.settime(t2)
    w.lose(s2)
    if g.case == 'queued':
        w.publish(o, 'y', b'waits', 1, 1)
    away = g.int('away again', 0, 5000000000)
    g.assume(away != e2 or e2 == 0)
    g.assume(e2 < FOREVER or away < FOREVER)
    s3 = enter(g, w, 'A', t2 + away, expiry=10)
    kept = e2 > 0 and away < e2
    g.check('resumed until the second interval has passed, and not later', w.present(s3.sent[0]) == kept)
    g.check('with what waited for it', w.messages(s3) == ([('y', b'waits', 1)] if kept and g.case == 'queued' else []))


@contract('N01', [q + 'connect' for q in QM] + [q + 'connect' for q in Q] + [q + 'resend' for q in QC], cases=V, uses=NET, bounded=SCENE)
def a_clean_start_discards_everything(g):
    v = g.case
    w = Server(g, v)
    o = enter(g, w, 'O', 0)
    a = enter(g, w, 'A', 0, expiry=1000, clean=g.bool('first clean') if v == 'V5' else False)
    w.subscribe(a, 1, [('y', 2), ('$y', 1)])
    if g.pick('sent', ['in flight', 'not']) == 'in flight':
        w.publish(o, 'y', b'in flight', g.int('QoS', 0, 2), 5)
    online = g.bool('still connected')
    if not online:
        g.settime(5)
        w.lose(a)
        if g.pick('queue', ['queued', 'empty']) == 'queued':
            w.publish(o, 'y', b'queued', 1, 6)
    a2 = enter(g, w, 'A', g.int('at', 5, 2000), clean=True, expiry=1000)
    g.check('session present is 0', not w.present(a2.sent[0]))
    g.check('nothing of the old session is sent', len(a2.sent) == 1)
    g.check('closed', a.closed)
    w.publish(o, 'y', b'2', 1, 7)
    w.publish(o, '$y', b'2', 1, 8)
    g.check('no subscription is left', len(a2.sent) == 1)
    w.subscribe(a2, 2, [('y', 0)])
    w.publish(o, 'y', b'3')
    g.check('new subscriptions work', w.messages(a2) == [('y', b'3', 0)])


@contract('N01', [q + 'connect' for q in QM] + [q + 'connect' for q in Q] + [q + 'resend' for q in QC], cases=['%s, %s' % (v, h) for v in V for h in ('lost', 'disconnect', 'taken over')], uses=NET, bounded=SCENE)
def an_unexpired_session_comes_back(g):
    v, how = g.case.split(', ')
    w = Server(g, v)
    o = enter(g, w, 'O', 0)
    t = g.int('connected at', 0, 100000)
    e = g.int('interval', 1, FOREVER)
    a = enter(g, w, 'A', t, expiry=e, clean=g.bool('first clean') if v == 'V5' else False)
    g.check('a new session', not w.present(a.sent[0]))
    i, q = g.int('identifier', 1, 65535), g.int('QoS', 1, 2)
    w.subscribe(a, i, [('y', q)])
    m = g.bytes('payload', small=True)
    g.assume(len(m) <= 1000000)
    w.publish(o, 'y', m, 2, 5)
    g.check('delivered', w.messages(a) == [('y', m, q)])
    away = 0
    t1 = t + g.int('connected for', 0, 100000)
    g.settime(t1)
    if how == 'lost':
        w.lose(a)
    elif how == 'disconnect':
        w.disconnect(a)
    if how != 'taken over':
        w.publish(o, 'y', b'queued', 1, 6)
        away = g.int('away', 0, 5000000000)
        g.assume(away < e or v == 'V311')
    a2 = enter(g, w, 'A', t1 + away, expiry=g.int('new interval', 0, FOREVER), keepalive=g.int('keep alive', 0, 65535))
    g.check('session present is 1', w.present(a2.sent[0]))
    g.check('the message in flight is sent again, then what waited', w.messages(a2) == [('y', m, q)] + ([('y', b'queued', 1)] if how != 'taken over' else []))
    g.check('with its identifier, marked duplicate', pid(a2.sent[1]) == pid(a.sent[2]) and a2.sent[1].fh.DUP == 1)
    w.publish(o, 'y', b'3')
    g.check('its subscriptions are there', w.messages(a2)[-1] == ('y', b'3', 0))
    g.check('the closed connection is not used', not a.late)


# ------------------------------------------------------------------ wills
ENDS = ['disconnect', 'lost', 'silent', 'malformed', 'second connect', 'taken over', 'taken over, clean']


def end_of(g, w, s, how, k):
    """the connection of A with keep-alive k ends"""
    if how == 'disconnect':
        w.disconnect(s)
    elif how == 'disconnect 4':
        w.disconnect(s, None, 4)
    elif how == 'error code':
        w.disconnect(s, None, g.oneof('reason code', [0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99]))
    elif how == 'lost':
        w.lose(s)
    elif how == 'silent':
        w.b.keepalive(s)
    elif how == 'malformed':
        w.publish(s, '+', b'')
    elif how == 'second connect':
        w.connect(s, 'A')


def some_will(g):
    m = g.bytes('will message', small=True)
    g.assume(len(m) <= 65535)
    return ('w', m, g.int('will QoS', 0, 2), 1 if g.bool('will retained') else 0)


@contract('N04', [q + f for q in QM for f in ('disconnect', 'connect', 'handleRequest', 'keepalive')] + [Q[0] + f for f in ('setupWillMessage', 'sendWillMessage', 'disconnect')]
          + [Q[1] + 'terminate', Q[1] + 'disconnect'],
          cases=['%s, %s' % (v, h) for v in V for h in ENDS[:5]] + ['V5, disconnect 4', 'V5, error code'], uses=NET, bounded=SCENE)
def the_will_is_published_when_the_connection_ends_badly(g):
    v, how = g.case.split(', ')
    w = Server(g, v)
    o = w.observer()
    t, k = g.int('connected at', 0, 100000), 60
    will = some_will(g)
    s = enter(g, w, 'A', t, expiry=g.int('interval', 0, FOREVER), keepalive=k, will=will, clean=g.bool('clean'))
    g.check('not while connected', w.messages(o) == [])
    g.settime(t + 120)
    end_of(g, w, s, how, k)
    g.check('closed', s.closed)
    bad = how != 'disconnect'
    seen = [will[:3]] if bad else []
    g.check('published unless it was a normal DISCONNECT', w.messages(o) == seen)
    g.check('retained when it says so', [x[:2] for x in w.data['retained'].values()] == ([(will[1], will[2])] if bad and will[3] == 1 and len(will[1]) > 0 else []))
    w.lose(s)
    w.tick()
    s2 = enter(g, w, 'A', t + 180, expiry=5)
    g.settime(t + 180 + g.int('later', 0, 100000))
    w.tick()
    w.lose(s2)
    w.tick()
    g.check('once', w.messages(o) == seen)


@contract('N04', [q + f for q in QM[:1] for f in ('disconnect', 'connect')] + [Q[0] + f for f in ('setupWillMessage', 'sendWillMessage', 'disconnect')] + ['mqtt.brokers.V5.MQTTBrokers.cleanupThreads.run'],
          cases=['%s, %s' % (h, x) for h in ('lost', 'disconnect 4', 'silent', 'new interval', 'normal disconnect') for x in ('one tick', 'two ticks')], uses=NET, bounded=SCENE)
def a_delayed_will_waits(g):
    how, ticks = g.case.split(', ')
    w = Server(g, 'V5')
    o = w.observer()
    t, k = g.int('connected at', 1, 100000), 60
    d, e = g.int('delay', 1, FOREVER), g.int('interval', 1, FOREVER)
    s = enter(g, w, 'A', t, expiry=e, keepalive=k, will=('w', b'x', 1, 0), delay=d)
    t1 = t + 120
    g.settime(t1)
    if how == 'new interval':
        e = g.int('new interval', 0, FOREVER)
        w.disconnect(s, e, 4)
    elif how == 'normal disconnect':
        w.disconnect(s)
    else:
        end_of(g, w, s, how, k)
    g.check('closed', s.closed)
    due = t1 + (d if d < e else e)
    seen = [] if how == 'normal disconnect' else [('w', b'x', 1)]
    g.check('not at once', w.messages(o) == ([] if due > t1 else seen))
    a = t1 + g.int('later', 0, 5000000000)
    g.assume(a != due)
    g.settime(a)
    w.tick()
    g.check('not before the delay or the session is over', w.messages(o) == ([] if a < due else seen))
    if ticks == 'two ticks':
        a = a + g.int('still later', 0, 5000000000)
        g.assume(a != due)
        g.settime(a)
        w.tick()
        g.check('once', w.messages(o) == ([] if a < due else seen))


@contract('N04', [q + f for q in QM[:1] for f in ('disconnect', 'connect')] + [Q[0] + f for f in ('setupWillMessage', 'sendWillMessage', 'disconnect')],
          cases=['with a new will', 'without', 'lost again'], uses=NET, bounded=SCENE)
def reconnecting_cancels_a_delayed_will(g):
    w = Server(g, 'V5')
    o = w.observer()
    t = g.int('connected at', 1, 100000)
    d, e = g.int('delay', 1, FOREVER), g.int('interval', 1, FOREVER)
    s = enter(g, w, 'A', t, expiry=e, will=('w', b'old', 1, 0), delay=d)
    w.lose(s)
    due = d if d < e else e
    t1 = t + g.int('away', 0, FOREVER)
    g.assume(t1 - t < due)
    again = g.case != 'without'
    d2, e2 = g.int('second delay', 1, FOREVER), g.int('second interval', 1, FOREVER)
    s2 = enter(g, w, 'A', t1, expiry=e2, will=('w', b'new', 2, 0) if again else None, delay=d2 if again else None)
    g.check('resumed', w.present(s2.sent[0]))
    t2 = t1 + g.int('later', 0, 5000000000)
    g.settime(t2)
    w.tick()
    g.check('not published', w.messages(o) == [])
    if g.case == 'lost again':
        w.lose(s2)
        due = d2 if d2 < e2 else e2
        a = g.int('still later', 0, 5000000000)
        g.assume(a != due)
        g.settime(t2 + a)
        w.tick()
        g.check('the second will has a delay of its own', w.messages(o) == ([] if a < due else [('w', b'new', 2)]))
    else:
        w.disconnect(s2)
        w.tick()
        g.check('nothing after a normal DISCONNECT', w.messages(o) == [])


@contract('N04', [q + f for q in QM for f in ('disconnect', 'connect')], cases=['%s, %s' % (v, c) for v in V for c in ('clean', 'resumed')], uses=NET, bounded=SCENE)
def taking_over_ends_the_older_connection(g):
    v, c = g.case.split(', ')
    w = Server(g, v)
    o = w.observer()
    will = some_will(g)
    t = g.int('connected at', 0, 100000)
    a = enter(g, w, 'A', t, expiry=g.int('interval', 0, FOREVER), will=will)
    a2 = enter(g, w, 'A', t + g.int('later', 0, 100000), expiry=g.int('second interval', 0, FOREVER), clean=c == 'clean', will=('w', b'new', 0, 0) if g.bool('new will') else None)
    g.check('the will of the older connection is published, once', w.messages(o) == [will[:3]])
    w.disconnect(a2)
    w.lose(a)
    g.check('the will of the newer one is not', w.messages(o) == [will[:3]])
