"""T03: $ topics and wildcards; which subscriptions and retained messages a topic or filter reaches."""
from contracts.tables import SES, BROKERS, SUBS, some_table, some_store, some, in_dollar_table
from contracts.topics import TOPICS, FILTERS, CLIENTS, matches, matches3
from contracts.stubs_topics import T5, T3
from pydv.spec import contract
from mqtt.formats.MQTTV5 import MQTTV5 as M5

V = ['V5', 'V311']
Q = ['mqtt.brokers.%s.SubscriptionEngines.SubscriptionEngines.' % v for v in V]
QB = ['mqtt.brokers.%s.Brokers.Brokers.' % v for v in V]
MATCHES = {'V5': matches, 'V311': matches3}


def tables(g, v):
    """all subscriptions and retained messages there are; ordinary and $ ones apart (S01, S03)"""
    return ((some_table(g, v, False), some_table(g, v, True)), (some_store(g, v, False), some_store(g, v, True)))


def engine(v, subs, kept):
    return SES[v]({'subscriptions': subs[0], 'dollar_subscriptions': subs[1], 'retained': kept[0], 'dollar_retained': kept[1]})


def keys(found):
    return [(s.getClientid(), s.getTopic()) for s in found]


@contract(['T03', 'R01'], [q + 'getSubscriptions' for q in Q], cases=['%s, %s' % (v, w) for v in V for w in ('all', 'client')], uses=T5 + T3)
def subscriptions_of_a_topic(g):
    """exactly the subscriptions that match, of the table of its kind"""
    v, who = g.case.split(', ')
    subs, kept = tables(g, v)
    t = g.str('topic', 1, pool=TOPICS)
    d = g.pick('kind', ['ordinary', '$']) == '$'
    g.assume(t.startswith('$') == d)
    g.assume('+' not in t and '#' not in t)
    table = subs[1] if d else subs[0]
    before = [keys(subs[0]), keys(subs[1])]
    se = engine(v, subs, kept)
    if who == 'all':
        expected = [(s.getClientid(), s.getTopic()) for s in table if MATCHES[v](s.getTopic(), t)]
        found = se.getSubscriptions(t)
    else:
        c = g.str('of client', pool=CLIENTS)
        expected = [(s.getClientid(), s.getTopic()) for s in table if s.getClientid() == c and MATCHES[v](s.getTopic(), t)]
        found = se.getSubscriptions(t, c)
    g.check('exactly these', keys(found) == expected)
    g.check('nothing changes', [keys(subs[0]), keys(subs[1])] == before)


@contract('T03', [Q[0] + 'getRetainedTopics', Q[1] + 'getRetainedTopics'], cases=V, uses=T5 + T3)
def retained_topics_for_a_filter(g):
    """the retained topics of the kind of the filter"""
    v = g.case
    subs, kept = tables(g, v)
    f = g.str('filter', 1, pool=FILTERS)
    d = g.pick('kind', ['ordinary', '$']) == '$'
    g.assume(in_dollar_table(v, f) == d)
    r = engine(v, subs, kept).getRetainedTopics(f)
    g.check('exactly these', list(r) == list(kept[1].keys() if d else kept[0].keys()))


@contract(['T03', 'R01'], [Q[0] + 'subscriptions'], cases=V[:1], uses=T5)
def who_receives_a_topic(g):
    v = g.case
    subs, kept = tables(g, v)
    t = g.str('topic', 1, pool=TOPICS)
    d = g.pick('kind', ['ordinary', '$']) == '$'
    g.assume(t.startswith('$') == d)
    g.assume('+' not in t and '#' not in t)
    table = subs[1] if d else subs[0]
    found = engine(v, subs, kept).subscriptions(t)
    g.check('subscriptions of its kind that match', all(in_dollar_table(v, s.getTopic()) == d and matches(s.getTopic(), t) for s in found))
    g.check('all of them', len(found) == len([s for s in table if matches(s.getTopic(), t)]))


@contract(['T03', 'R01'], [Q[1] + 'subscribers'], cases=['%d ordinary, %d $' % (i, j) for i in (0, 1, 2, 3) for j in (0, 1, 2, 3) if i + j in (3, 4)], uses=T3,
          bounded='at most 3 subscriptions of each kind')
def who_receives_a_topic_3(g):
    """each client once"""
    n, m = int(g.case[0]), int(g.case[12])
    subs = []
    for k, dollar in ((n, False), (m, True)):
        table = []
        for i in range(k):
            f, c = g.str('filter %d %s' % (i, dollar), 1, pool=FILTERS), g.str('client %d %s' % (i, dollar), pool=CLIENTS)
            g.assume(in_dollar_table('V311', f) == dollar)
            table.append(SUBS['V311'](c, f, 1))
        subs.append(table)
    t = g.str('topic', 1, pool=TOPICS)
    d = g.pick('kind', ['ordinary', '$']) == '$'
    g.assume(t.startswith('$') == d)
    g.assume('+' not in t and '#' not in t)
    found = SES['V311']({'subscriptions': subs[0], 'dollar_subscriptions': subs[1], 'retained': {}, 'dollar_retained': {}}).subscribers(t)
    table = subs[1] if d else subs[0]
    ok = [s.getClientid() for s in table if matches3(s.getTopic(), t)]
    g.check('each has a matching subscription', all(c in ok for c in found))
    g.check('all of them', all(c in found for c in ok))
    g.check('each once', all(c not in found[:i] for i, c in enumerate(found)))


@contract('T03', [q + f for q in QB for f in ('publish', 'subscribe')], cases=V, concrete_only=True, runs=1,
          bounded='every pair of a filter and a topic out of lists of 46 filters and 21 topics')
def dollar_topics_and_wildcards(g):
    v = g.case
    words = ['a', '+', '$SYS', '$share/g', '']
    fs = sorted(set(FILTERS + ['/'.join(x) for x in pairs(words)] + ['#', '+/#', '$SYS/#', '/#', '$share/g/#', '$share/g/+', '$share/g/$SYS/#', '$/#', '+/a/#']))
    ts = sorted(set(TOPICS + ['$', '$SYS', '$SYS/a', '$a/a', '$share/g', '$share/g/a', '$share/g/$SYS/a', '/$SYS', 'a/$SYS', '/a', 'a', '$$']))
    n = 0
    for f in fs:
        x, e = g.catch(SES[v]({}).subscribe, 'A', f, some(v, 1))
        if e is not None or x is None:
            continue
        for t in ts:
            for when in ('new', 'retained'):
                got = delivered(g, v, f, t, when)
                part = f.split('/', 2)[2] if f.startswith('$share/') and f.count('/') > 1 and v == 'V5' else f
                if t.startswith('$') and not part.startswith('$'):
                    g.check('no $ message', got == 0, (f, t, when))
                if part.startswith('$') and not t.startswith('$'):
                    g.check('no ordinary message', got == 0, (f, t, when))
                n += 1
    g.check('pairs were judged', n > 1000)


def pairs(words):
    return [(a,) for a in words if a] + [(a, b) for a in words for b in words]


class Receiver:
    """a client, as the publisher sees it"""
    def __init__(self):
        self.id, self.connected, self.cleansession, self.got = 'A', True, False, 0

    def publishArrived(self, *args, **more):
        self.got += 1


def delivered(g, v, f, t, when):
    """how many messages for topic t a subscription to f receives"""
    br = BROKERS[v](sharedData={})
    c = Receiver()
    br.connect(c)
    o = some(v, 1)
    if v == 'V5':
        o = (o[0], M5.Properties(M5.PacketTypes.SUBSCRIBE))
    if when == 'new':
        br.subscribe('A', [f], [o])
        g.catch(br.publish, 'B', t, b'x', 1, False, *([None, 0] if v == 'V5' else [0]))
    else:
        g.catch(br.publish, 'B', t, b'x', 1, True, *([None, 0] if v == 'V5' else [0]))
        br.subscribe('A', [f], [o])
    return c.got
