"""M04, M05, R01-R05, N06, N07: publishing and subscribing through the handlers of the brokers."""
from contracts.server import *
from pydv.spec import contract
FOREVER = 4294967295


@contract(['R01', 'R02'], [M3.__name__ + '.%s.__repr__' % k for k in TEXTS], cases=TEXTS)
def packets_can_be_logged(g):
    """the text of a packet with any contents exists"""
    p = getattr(M3, g.case)()
    i = g.int('identifier', 0, 65535)
    p.fh.DUP, p.fh.QoS, p.fh.RETAIN = g.int('dup', 0, 1), g.int('QoS', 0, 2), g.int('retain', 0, 1)
    if g.case == 'Connacks':
        p.flags, p.returnCode = g.int('flags', 0, 1), g.int('code', 0, 255)
    elif g.case == 'Connects':
        p.ClientIdentifier, p.KeepAliveTimer, p.CleanSession = g.str('client'), i, g.bool('clean')
        p.WillFlag, p.WillTopic, p.WillMessage = g.int('will', 0, 1), g.str('topic'), g.bytes('message')
    else:
        p.messageIdentifier = i
    if g.case == 'Publishes':
        p.topicName, p.data = g.str('topic'), g.bytes('data')
    elif g.case == 'Subscribes':
        p.data = g.list('filters', lambda g: (g.str('filter'), g.int('QoS', 0, 2)))
    elif g.case == 'Subacks':
        p.data = g.list('codes', lambda g: g.int('code', 0, 255))
    t, e = g.catch(p.__repr__)
    g.check('there is a text', e is None and type(t) is str)


def enter(g, w, cid, **o):
    s = wire(w.v)
    w.connect(s, cid, expiry=1000, **o)
    g.check('accepted', w.accepted(s) and not s.closed)
    return s


def payload(g, name='payload'):
    m = g.bytes(name, small=True)
    g.assume(len(m) <= 1000000)
    return m


def new(s, n):
    """the packets sent since there were n"""
    return s.sent[n:]


def answered(g, w, s, n, kind, i):
    ps = new(s, n)
    g.check('one answer of the right type', w.kinds(s)[n:] == [kind])
    g.check('with the identifier of the request', pid(ps[0]) == i)


# ------------------------------------------------------------------ incoming QoS 2
def pending(g, w, s):
    """any identifiers received and not released; -> those for which a message is stored"""
    c = w.b.clients[s]
    if not hasattr(c, 'inbound'):
        return []
    if type(c.inbound) is list:
        c.inbound = g.table('pending', lambda g: g.int('identifier', 1, 65535), lambda i: i)
        return list(c.inbound)
    if type(c.inbound) is dict:
        w.publish(s, 'x', b'stored', 2, 1)
        if 1 not in c.inbound:
            return [] # stored elsewhere
        message = c.inbound[1]
        s.sent.clear()

        def entry(g):
            return (g.int('identifier', 1, 65535), message)
        c.inbound = g.mapping('pending', entry)
        return list(c.inbound.keys())
    return []


MODES = ['%s, on %s' % (v, m) for v in V for m in ('publish', 'release')]
HANDLERS = [q + f for q in QM for f in ('publish', 'pubrel', 'handleRequest')] + ['mqtt.brokers.%s.MQTTBrokers.MQTTClients.pubrel' % v for v in V]


def qos2(g):
    v, mode = g.case.split(', ')
    w = Server(g, v, publish_on_pubrel=mode == 'on release')
    o = w.observer()
    s = enter(g, w, 'A')
    ids = pending(g, w, s)
    g.assume(len(ids) < 65530)
    return w, o, s, ids, mode == 'on release'


@contract(['M04', 'M05'], HANDLERS, cases=MODES, uses=NET)
def a_repeated_message_is_delivered_once(g):
    w, o, s, ids, stored = qos2(g)
    i, j = g.int('identifier', 1, 65535), g.int('other identifier', 1, 65535)
    g.assume(i != j)
    known, other = i in ids, j in ids
    m = payload(g)
    n = len(s.sent)
    w.publish(s, 'y', m, 2, i)
    answered(g, w, s, n, PUBREC, i)
    g.check('a repeated message is not delivered', not known or w.messages(o) == [])
    g.check('a new one is delivered now or on release', known or w.messages(o) == ([] if stored else [('y', m, 2)]))
    n, k = len(s.sent), len(w.messages(o))
    w.publish(s, 'z', b'again', 2, i, 0, g.int('dup', 0, 1))
    answered(g, w, s, n, PUBREC, i)
    g.check('nor if it is repeated again', len(w.messages(o)) == k)
    n = len(s.sent)
    w.send(s, w.packet('Pubrels', i))
    answered(g, w, s, n, PUBCOMP, i)
    first = ('x', b'stored', 2) if known else ('y', m, 2)
    g.check('delivered once', w.messages(o) == ([first] if stored or not known else []))
    n, k = len(s.sent), len(w.messages(o))
    w.send(s, w.packet('Pubrels', i))
    answered(g, w, s, n, PUBCOMP, i)
    g.check('a second release delivers nothing', len(w.messages(o)) == k)
    # the other identifier is as it was
    w.publish(s, 'y', b'other', 2, j)
    g.check('the other identifier is not affected', len(w.messages(o)) == k + (0 if stored or other else 1))
    w.send(s, w.packet('Pubrels', j))
    g.check('delivered once', len(w.messages(o)) == k + (1 if stored or not other else 0))
    g.check('open', not s.closed)


@contract(['M04', 'M05'], HANDLERS, cases=MODES, uses=NET)
def a_released_identifier_can_be_used_again(g):
    w, o, s, ids, stored = qos2(g)
    i, j = g.int('identifier', 1, 65535), g.int('other identifier', 1, 65535)
    g.assume(i != j)
    known, other = i in ids, j in ids
    n = len(s.sent)
    w.send(s, w.packet('Pubrels', i))
    answered(g, w, s, n, PUBCOMP, i)
    g.check('an unknown identifier releases nothing', w.messages(o) == ([('x', b'stored', 2)] if stored and known else []))
    k = len(w.messages(o))
    m = payload(g)
    w.publish(s, 'y', m, 2, i)
    if stored:
        g.check('nothing before the release', len(w.messages(o)) == k)
        w.send(s, w.packet('Pubrels', i))
    g.check('a new message is delivered', w.messages(o)[k:] == [('y', m, 2)])
    k = len(w.messages(o))
    w.send(s, w.packet('Pubrels', j))
    g.check('the other one', w.messages(o)[k:] == ([('x', b'stored', 2)] if stored and other else []))
    g.check('open', not s.closed)


@contract(['M04', 'M05'], HANDLERS, cases=MODES, uses=NET)
def other_messages_do_not_disturb_those_pending(g):
    w, o, s, ids, stored = qos2(g)
    i, q = g.int('identifier', 1, 65535), g.int('QoS', 0, 1)
    known = i in ids
    m = payload(g)
    n = len(s.sent)
    w.publish(s, 'y', m, q, i if q == 1 else 0, 0, g.int('dup', 0, 1) if q == 1 else 0)
    if q == 1:
        answered(g, w, s, n, PUBACK, i)
    else:
        g.check('QoS 0 is not acknowledged', len(s.sent) == n)
    g.check('delivered', w.messages(o) == [('y', m, q)])
    w.publish(s, 'y', b'2', 2, i)
    g.check('the pending ones are unchanged', len(w.messages(o)) == 1 + (0 if stored or known else 1))
    w.send(s, w.packet('Pubrels', i))
    g.check('delivered once', len(w.messages(o)) == 1 + (1 if stored or not known else 0))


@contract('M04', HANDLERS, cases=['%s, %s' % (m, h) for m in MODES for h in ('resumed', 'clean')], uses=NET, bounded='one message and two connections, any identifier')
def pending_messages_belong_to_the_session(g):
    v, mode, how = g.case.split(', ')
    w = Server(g, v, publish_on_pubrel=mode == 'on release')
    o = w.observer()
    s = enter(g, w, 'A')
    i = g.int('identifier', 1, 65535)
    w.publish(s, 'y', b'1', 2, i)
    if g.bool('disconnected'):
        w.disconnect(s)
    s2 = wire(v)
    w.connect(s2, 'A', how == 'clean', 1000)
    k = len(w.messages(o))
    g.check('delivered now or on release', k == (0 if mode == 'on release' else 1))
    w.publish(s2, 'y', b'2', 2, i, 0, g.int('dup', 0, 1))
    if how == 'resumed':
        g.check('a repetition', len(w.messages(o)) == k)
    w.send(s2, w.packet('Pubrels', i))
    g.check('once', w.messages(o) == ([('y', b'1', 2)] if mode != 'on release' or how == 'resumed' else []) + ([('y', b'2', 2)] if how == 'clean' else []))


# ------------------------------------------------------------------ acknowledgements
def codes(w, p):
    return [c.value for c in p.reasonCodes] if w.v == 'V5' else list(p.data)


NAMES = ['x', 'y/+', '#', 'test/nosubscribe', 'test/QoS 1 only', 'test/QoS 0 only', '$share/g/x']


@contract('M05', [q + f for q in QM for f in ('subscribe', 'unsubscribe', 'pingreq')], cases=['%s, %d filters' % (v, n) for v in V for n in (1, 2, 3)], uses=NET, bounded='at most 3 filters in one packet; any identifiers and QoS values')
def subscriptions_are_acknowledged(g):
    v, many = g.case.split(', ')
    w = Server(g, v)
    s = enter(g, w, 'A')
    names = NAMES if v == 'V5' else NAMES[:-1]
    if many[0] == '3':
        names = ['x', '#', 'test/nosubscribe', 'test/QoS 1 only']
    fs = [(g.pick('filter %d' % k, names), g.int('QoS %d' % k, 0, 2)) for k in range(int(many[0]))]
    i = g.int('identifier', 1, 65535)
    n = len(s.sent)
    w.subscribe(s, i, fs)
    answered(g, w, s, n, SUBACK, i)
    got = codes(w, s.sent[n])
    g.check('one code for each filter', len(got) == len(fs))
    for k in range(len(fs)):
        f, q = fs[k]
        want = 0x80 if f == 'test/nosubscribe' else min(q, 1) if f == 'test/QoS 1 only' else 0 if f == 'test/QoS 0 only' else q
        g.check('the code of the filter', got[k] == want)
    u = [f for f, q in fs if f != 'test/nosubscribe'][:1] + ['never']
    j = g.int('second identifier', 1, 65535)
    n = len(s.sent)
    p = w.packet('Unsubscribes', j)
    if v == 'V5':
        p.topicFilters = u
    else:
        p.data = u
    w.send(s, p)
    answered(g, w, s, n, UNSUBACK, j)
    if v == 'V5':
        g.check('one code for each filter', codes(w, s.sent[n]) == [0 if f != 'never' else 0x11 for f in u])
    n = len(s.sent)
    w.send(s, w.packet('Pingreqs'))
    g.check('PINGRESP', w.kinds(s)[n:] == [PINGRESP])


# ------------------------------------------------------------------ who gets a message
def permuted(a, b):
    """the same elements, in any order"""
    if len(a) != len(b):
        return False
    if len(a) <= 1:
        return a == b
    return any(a[0] == b[k] and permuted(a[1:], b[:k] + b[k + 1:]) for k in range(len(b)))


def join(w, s, subs, subid=None):
    """subs: (filter, QoS, no local, keep flag, retain handling)"""
    p = w.packet('Subscribes', 1)
    if w.v == 'V5':
        p.data = [(f, M5.SubscribeOptions(q, nl, rap, rh)) for f, q, nl, rap, rh in subs]
        if subid is not None:
            p.properties.SubscriptionIdentifier = subid
    else:
        p.data = [(f, q) for f, q, nl, rap, rh in subs]
    w.send(s, p)


def got(w, s):
    return [p for p in s.sent if (p.fh.PacketType if w.v == 'V5' else p.fh.MessageType) == PUBLISH]


BOUND = 'at most three clients with at most 3 subscriptions each; any QoS values, options, identifiers and payloads'
SETS = ['x/y, x/y, C', 'x/+ x/y, +/+, A', '# z, q, A', 'z, #, C', 'x/# x/y +/y, x/y/z, C']
ROUTE = [q + 'publish' for q in Q] + [q + f for q in QM for f in ('publish', 'subscribe')]


@contract('R01', ROUTE, cases=['%s, %s, %s' % (v, m, f) for v in V for m in ('merged', 'separate') for f in SETS], uses=NET + STR, bounded=BOUND, merge=False)
def every_subscriber_gets_the_message(g):
    v, m, sets, fb, by = g.case.split(', ')
    w = Server(g, v, overlapping_single=m == 'merged')
    a, b, c = enter(g, w, 'A'), enter(g, w, 'B'), enter(g, w, 'C')
    fs = sets.split(' ')
    qs = [g.int('QoS of ' + f, 0, 2) for f in fs]
    w.subscribe(a, 1, [(fs[k], qs[k]) for k in range(len(fs))])
    qb = g.int('QoS of B', 0, 2) if len(fs) < 3 else 1
    w.subscribe(b, 1, [(fb, qb)])
    q, d = g.int('QoS', 0, 2), payload(g)
    w.publish(a if by == 'A' else c, 'x/y', d, q, 7 if q > 0 else 0)
    match = [qs[k] for k in range(len(fs)) if fs[k] != 'z']
    if m == 'merged':
        best = match[0] if len(match) > 0 else 0
        for x in match:
            best = max(best, x)
        want = [('x/y', d, min(q, best))] if len(match) > 0 else []
    else:
        want = [('x/y', d, min(q, x)) for x in match]
    g.check('every matching subscription', permuted(w.messages(a), want))
    g.check('every subscriber', w.messages(b) == ([('x/y', d, min(q, qb))] if fb not in ('q', 'x/y/z') else []))
    g.check('nobody else', w.messages(c) == [])


@contract('R03', ROUTE[:1] + ROUTE[2:4], cases=['%s, %s, %s' % (m, f, by) for m in ('merged', 'separate') for f in ('x', 'x #') for by in 'AB'], uses=NET + STR, bounded=BOUND, merge=False)
def no_local_and_the_retain_flag(g):
    m, sets, by = g.case.split(', ')
    w = Server(g, 'V5', overlapping_single=m == 'merged')
    a, b = enter(g, w, 'A'), enter(g, w, 'B')
    fs = sets.split(' ')
    nl = [g.bool('no local of ' + f) for f in fs]
    rap = [g.bool('keep flag of ' + f) for f in fs]
    qs = [g.oneof('QoS of ' + f, [1, 2]) for f in fs]
    join(w, a, [(fs[k], qs[k], nl[k], rap[k], 0) for k in range(len(fs))])
    nlb = g.bool('no local of B')
    join(w, b, [('+', 1, nlb, True, 0)])
    r, d = g.int('retain', 0, 1), payload(g)
    g.assume(len(d) > 0)
    w.publish(a if by == 'A' else b, 'x', d, 2, 7, r)
    for k in range(2):
        w.send(a if by == 'A' else b, w.packet('Pubrels', 7))
    on = [k for k in range(len(fs)) if not (nl[k] and by == 'A')]
    seen = [(p.data, p.fh.QoS, 1 if p.fh.RETAIN else 0) for p in got(w, a)]
    if m == 'separate':
        g.check('each subscription with its own options', permuted(seen, [(d, qs[k], 1 if r == 1 and rap[k] else 0) for k in on]))
    else:
        g.check('once, unless all subscriptions exclude it', len(seen) == (1 if len(on) > 0 else 0))
        if len(on) > 0:
            g.check('the payload', seen[0][0] == d)
            g.check('the retain flag is that of the message or clear', any(seen[0][2] == (1 if r == 1 and rap[k] else 0) for k in on))
    seen = [(p.data, p.fh.QoS, 1 if p.fh.RETAIN else 0) for p in got(w, b)]
    g.check('the other client', seen == ([] if nlb and by == 'B' else [(d, 1, r)]))


@contract('R05', ROUTE[:1] + ROUTE[2:4], cases=['%s, %s' % (m, c) for m in ('merged', 'separate') for c in ('both', 'first', 'second', 'none')], uses=NET + STR, bounded=BOUND, merge=False)
def identifiers_of_the_matching_subscriptions(g):
    m, c = g.case.split(', ')
    w = Server(g, 'V5', overlapping_single=m == 'merged')
    a, b = enter(g, w, 'A'), enter(g, w, 'B')
    i = g.int('first identifier', 1, 268435455) if c in ('both', 'first') else None
    j = g.int('second identifier', 1, 268435455) if c in ('both', 'second') else None
    k = g.int('identifier of B', 1, 268435455) if g.bool('B has one') else None
    join(w, a, [('x', g.int('first QoS', 0, 2), False, True, 0)], i)
    join(w, a, [('#', g.int('second QoS', 0, 2), False, True, 0)], j)
    join(w, a, [('y', 1, False, True, 0)], g.int('third identifier', 1, 268435455))
    join(w, b, [('+', 1, False, True, 0)], k)
    join(w, b, [('#', 0, False, True, 0)])
    d = payload(g)
    p = w.packet('Publishes', 0)
    p.topicName, p.data = 'x', d
    if g.bool('identifier of the publisher'):
        p.properties.SubscriptionIdentifier = g.int('publisher', 1, 268435455)
    w.send(b, p)
    want = [x for x in (i, j) if x is not None]
    seen = [list(p.properties.SubscriptionIdentifier) if hasattr(p.properties, 'SubscriptionIdentifier') else [] for p in got(w, a)]
    if m == 'merged':
        g.check('the identifiers of the matching subscriptions', len(seen) == 1 and permuted(seen[0], want))
    else:
        g.check('each with its own', permuted(seen, [[] if x is None else [x] for x in (i, j)]))
    seen = [list(p.properties.SubscriptionIdentifier) if hasattr(p.properties, 'SubscriptionIdentifier') else [] for p in got(w, b)]
    mine = [] if k is None else [k]
    g.check('and those of B', seen == [mine] if m == 'merged' else permuted(seen, [mine, []]))


@contract('R04', ROUTE[:1] + ROUTE[2:4], cases=['%s, %s' % (m, o) for m in ('merged', 'separate') for o in ('alone', 'other group', 'ordinary')], uses=NET + STR, bounded=BOUND, merge=False)
def one_member_of_each_group(g):
    m, other = g.case.split(', ')
    w = Server(g, 'V5', overlapping_single=m == 'merged')
    a, b, c = enter(g, w, 'A'), enter(g, w, 'B'), enter(g, w, 'C')
    qa, qb = g.int('QoS of A', 0, 2), g.int('QoS of B', 0, 2)
    join(w, a, [('$share/g/x', qa, False, True, 0)])
    join(w, b, [('$share/g/x', qb, False, True, 0)])
    q, d = g.int('QoS', 0, 2), payload(g)
    if other == 'other group':
        join(w, a, [('$share/h/x', 1, False, True, 0)])
    elif other == 'ordinary':
        join(w, a, [('x', 2, False, True, 0)])
    w.publish(c, 'x', d, q, 7 if q > 0 else 0)
    x, y = w.messages(a), w.messages(b)
    extra = [] if other == 'alone' else [('x', d, min(q, 1 if other == 'other group' else 2))]
    ma, mb = [('x', d, min(q, qa))], [('x', d, min(q, qb))]
    g.check('exactly one member', permuted(x, ma + extra) and y == [] or permuted(x, extra) and y == mb)
    g.check('nobody else', w.messages(c) == [])


@contract('R02', [q + '__doRetained__' for q in Q] + [q + 'subscribe' for q in QM], cases=['%s, %s' % (v, f) for v in V for f in ('x', 'x +', '+ y', '# z', 'z')], uses=NET + STR, bounded=BOUND + '; two retained messages', merge=False)
def retained_messages_for_new_subscriptions(g):
    v, sets = g.case.split(', ')
    w = Server(g, v)
    p, a = enter(g, w, 'P'), enter(g, w, 'A')
    d, q1, q2 = payload(g), g.oneof('first QoS', [0, 2]), g.int('second QoS', 0, 1)
    g.assume(len(d) > 0)
    w.publish(p, 'x', d, q1, 7 if q1 > 0 else 0, 1)
    w.publish(p, 'y', b'second', q2, 8 if q2 > 0 else 0, 1)
    w.publish(p, 'gone', b'third', 0, 0, 1)
    w.publish(p, 'gone', b'', 0, 0, 1)
    fs = sets.split(' ')
    old = g.bool('subscribed before')
    if old:
        join(w, a, [(fs[0], 1, False, True, 2 if v == 'V5' else 0)])
    k = len(w.messages(a))
    qs = [g.oneof('QoS of ' + f, [0, 1, 2] if len(fs) == 1 else [1, 2]) for f in fs]
    rh = [g.int('retain handling of ' + f, 0, 2) if v == 'V5' else 0 for f in fs]
    join(w, a, [(fs[j], qs[j], False, False, rh[j]) for j in range(len(fs))])
    want = []
    for j in range(len(fs)):
        if rh[j] == 0 or rh[j] == 1 and not (old and j == 0):
            if fs[j] in ('x', '+', '#'):
                want = want + [('x', d, min(q1, qs[j]))]
            if fs[j] in ('y', '+', '#'):
                want = want + [('y', b'second', min(q2, qs[j]))]
    g.check('every matching retained message', permuted(w.messages(a)[k:], want))
    g.check('flagged', all(p.fh.RETAIN for p in got(w, a)))


# ------------------------------------------------------------------ MQTT 5 limits
def alias(w, s, topic, a, d=b'x'):
    p = w.packet('Publishes', 0)
    p.topicName, p.data = topic, d
    p.properties.TopicAlias = a
    w.send(s, p)


@contract('N06', [QM[0] + 'publish', Q[0] + 'resolveTopicAlias', Q[0] + 'getAliasTopic'], cases=['used', 'set again', 'new connection'], uses=NET, bounded='at most four publishes with an alias; any aliases and maximum')
def incoming_aliases(g):
    w = Server(g, 'V5', topicAliasMaximum=g.int('alias maximum', 0, 65535))
    top = w.b.options['topicAliasMaximum']
    o = w.observer()
    s = enter(g, w, 'A')
    g.check('the maximum is announced', (s.sent[0].properties.TopicAliasMaximum if hasattr(s.sent[0].properties, 'TopicAliasMaximum') else 0) == top)
    a, b = g.int('first alias', 0, 65535), g.int('second alias', 0, 65535)
    alias(w, s, 'x', a)
    ok = 1 <= a and a <= top
    g.check('a legal alias is accepted', s.closed == (not ok) and w.messages(o) == ([('x', b'x', 0)] if ok else []))
    if not ok:
        return
    known = b == a
    topic = 'x'
    if g.case == 'set again':
        c = g.int('third alias', 1, 65535)
        g.assume(c <= top)
        alias(w, s, 'y', c)
        g.check('accepted', not s.closed)
        known = b == a or b == c
        topic = 'y' if b == c else 'x'
    elif g.case == 'new connection':
        if g.bool('taken over'):
            pass
        else:
            w.lose(s)
        s = enter(g, w, 'A')
        g.check('resumed', w.present(s.sent[0]))
        known = False
    k = len(w.messages(o))
    alias(w, s, '', b, b'2')
    g.check('the topic last assigned on this connection', w.messages(o)[k:] == ([(topic, b'2', 0)] if known else []))
    g.check('anything else is a protocol error', s.closed == (not known))


@contract('N06', ['mqtt.brokers.V5.MQTTBrokers.MQTTClients.sendPub'], cases=['x x x', 'x y x', 'x y z', 'x | x', 'x y | y x'], uses=NET, bounded='at most four messages over three topics, any alias maximum of the client')
def outgoing_aliases(g):
    w = Server(g, 'V5')
    p = enter(g, w, 'P')
    top = g.int('alias maximum', 0, 65535)
    s = wire('V5')
    c = w.connect_packet('A', False, 1000)
    c.properties.TopicAliasMaximum = top
    w.send(s, c)
    w.subscribe(s, 1, [('#', g.int('QoS', 0, 2))])
    names, n, sent = [], 2, 0
    for t in g.case.split(' '):
        if t == '|':
            w.lose(s)
            top = g.int('second maximum', 0, 65535)
            s = wire('V5')
            c = w.connect_packet('A', False, 1000)
            c.properties.TopicAliasMaximum = top
            w.send(s, c)
            names, n = [], len(s.sent)
            for q in s.sent[1:]:
                names = decode(g, q, names, top)
            continue
        w.publish(p, t, b'x', 1, 7)
        q = s.sent[-1]
        g.check('delivered', len(s.sent) == n + 1)
        n = n + 1
        names = decode(g, q, names, top, t)


def decode(g, p, names, top, topic=None):
    """the topic of a message as the client resolves it; names: (alias, topic)"""
    t = p.topicName
    if hasattr(p.properties, 'TopicAlias'):
        a = p.properties.TopicAlias
        g.check('an alias the client accepts', 1 <= a and a <= top)
        if t == '':
            found = [x for (b, x) in names if b == a]
            g.check('an alias set on this connection', len(found) > 0)
            t = found[-1] if len(found) > 0 else ''
        else:
            names = names + [(a, t)]
    g.check('the topic', t != '' and (topic is None or t == topic))
    return names


@contract('N06', ['mqtt.brokers.V5.MQTTBrokers.respond', QM[0] + 'connect'], cases=['messages', 'after reconnecting', 'answers'], uses=NET, bounded='a connection with at most 3 messages; any sizes and maximum')
def packets_fit(g):
    w = Server(g, 'V5')
    p = enter(g, w, 'P')
    top = g.int('maximum packet size', 1, 268435455)
    s = wire('V5')
    c = w.connect_packet('A', False, 1000)
    if g.case == 'after reconnecting':
        c.properties.MaximumPacketSize = g.int('earlier maximum', 30, 268435455)
        w.send(s, c)
        w.subscribe(s, 1, [('#', 2)])
        w.lose(s)
        w.publish(p, 'x', b'first', 1, 6)
        s = wire('V5')
        c = w.connect_packet('A', False, 1000)
    c.properties.MaximumPacketSize = top
    w.send(s, c)
    q = g.int('QoS', 0, 2)
    if g.case == 'messages':
        w.subscribe(s, 1, [('#', q)])
    elif g.case == 'answers':
        x = w.packet('Subscribes', 1)
        x.data = [('x', M5.SubscribeOptions(1))]
        x.properties.UserProperty = ('name', 'a value')
        w.send(s, x)
        x = w.packet('Unsubscribes', 1)
        x.topicFilters = ['x']
        x.properties.UserProperty = ('name', 'a value')
        w.send(s, x)
        w.send(s, w.packet('Pubrels', 9))
        w.send(s, w.packet('Pingreqs'))
    d = payload(g)
    w.publish(p, 'x', d, 2, 7)
    for x in s.sent:
        g.check('no packet is larger than the client accepts', len(x.pack()) <= top)
    if g.case == 'messages' and top >= 20:
        g.check('a message that fits is sent', (len(w.messages(s)) == 1) or 11 + len(d) > top)


# ------------------------------------------------------------------ expiry
def expiring(w, topic, e, q, retain=0):
    p = w.packet('Publishes', 7 if q > 0 else 0)
    p.topicName, p.data, p.fh.QoS, p.fh.RETAIN = topic, b'm', q, retain
    if e is not None:
        p.properties.MessageExpiryInterval = e
    return p


@contract('N07', ['mqtt.brokers.V5.MQTTBrokers.respond', Q[0] + '__doRetained__'], cases=['at once', 'offline', 'retained', 'in flight', 'behind others'], uses=NET, bounded='one message with an expiry interval; any intervals and times')
def messages_expire(g):
    how = g.case
    w = Server(g, 'V5')
    t = g.int('published at', 0, 100000)
    g.settime(t)
    p = enter(g, w, 'P')
    s = wire('V5')
    c = w.connect_packet('A', False, FOREVER)
    if how == 'behind others':
        c.properties.ReceiveMaximum = 1
    w.send(s, c)
    q = g.int('QoS', 0 if how in ('at once', 'retained') else 1, 2)
    if how != 'retained':
        w.subscribe(s, 1, [('x', q)])
    given = g.bool('given')
    e = g.int('interval', 0, FOREVER) if given else None
    if how == 'offline':
        w.lose(s)
    elif how == 'behind others':
        w.publish(p, 'x', b'first', 1, 6)
    k = len(got(w, s))
    w.send(p, expiring(w, 'x', e, q, 1 if how == 'retained' else 0))
    later = g.int('later', 0, 4200000000) if how != 'at once' else 0
    half = g.bool('and a half')
    g.settime(t + later + (0.5 if half else 0))
    if how == 'offline':
        s = wire('V5')
        w.connect(s, 'A', False, FOREVER)
        k = 0
    elif how == 'retained':
        w.subscribe(s, 1, [('x', q)])
    elif how == 'in flight':
        g.check('sent at once', len(got(w, s)) == (1 if not given or e > 0 else 0))
        w.lose(s)
        s = wire('V5')
        w.connect(s, 'A', False, FOREVER)
        k = 0
    elif how == 'behind others':
        first = got(w, s)[0]
        w.send(s, w.packet('Pubacks', pid(first)))
    seen = got(w, s)[k:]
    live = not given or later < e
    g.check('sent while it is valid, and not later', len(seen) == (1 if live else 0))
    if live and len(seen) == 1:
        has = hasattr(seen[0].properties, 'MessageExpiryInterval')
        g.check('with the interval that is left', has == given and (not given or seen[0].properties.MessageExpiryInterval == e - later))
