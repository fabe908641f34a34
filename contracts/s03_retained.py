"""S03: the retained store keeps the last non-empty message per topic."""
from contracts.tables import SES, BROKERS, some_store, some_table, retained_message
from contracts.topics import TOPICS, CLIENTS
from contracts.stubs_topics import T5, T3
from pydv.spec import contract

Q = ['mqtt.brokers.%s.SubscriptionEngines.SubscriptionEngines.' % v for v in ('V5', 'V311')]
QB = ['mqtt.brokers.%s.Brokers.Brokers.' % v for v in ('V5', 'V311')]
CASES = ['%s, %s' % (v, k) for v in ('V5', 'V311') for k in ('first', 'again')]


def rest_of(store, t):
    return [(k, m[0], m[1], m[2]) for k, m in store.items() if k != t]


def content(store):
    return [(k, m[0], m[1], m[2]) for k, m in store.items()]


@contract('S03', [q + 'setRetained' for q in Q] + [q + 'getRetained' for q in Q], cases=CASES, uses=T5 + T3)
def last_message_is_kept(g):
    v, again = g.case.split(', ')[0], g.case.endswith('again')
    t = g.str('topic', 1, pool=TOPICS)
    d = g.pick('store', ['ordinary', '$']) == '$'
    g.assume(t.startswith('$') == d)
    mine, rest = some_store(g, v, d, [t], 'same store'), some_store(g, v, not d, (), 'other store')
    if again:
        mine[t] = retained_message(g, v)
    se = SES[v]({'retained': rest if d else mine, 'dollar_retained': mine if d else rest})
    before, before_rest = rest_of(mine, t), content(rest)
    m, q, now = g.bytes('new message', small=True), g.int('new QoS', 0, 2), g.int('now', 0, 1000)
    if v == 'V5':
        se.setRetained(t, m, q, now, None)
    else:
        se.setRetained(t, m, q, now)
    r = se.getRetained(t)
    if len(m) == 0:
        g.check('an empty message deletes', r is None)
    else:
        g.check('stored', r is not None and r[0] == m and r[1] == q and r[2] == now)
    g.check('no other topic changed', rest_of(mine, t) == before)
    g.check('the other store is unchanged', content(rest) == before_rest)


@contract('S03', [q + 'cleanSession' for q in QB], cases=['V5', 'V311'], uses=T5 + T3)
def session_clean_up_keeps_retained_messages(g):
    v = g.case
    a, b = some_store(g, v, False), some_store(g, v, True)
    ea, eb = content(a), content(b)
    br = BROKERS[v](sharedData={'retained': a, 'dollar_retained': b, 'subscriptions': some_table(g, v, False),
                                'dollar_subscriptions': some_table(g, v, True)})
    br.cleanSession(g.str('client', pool=CLIENTS))
    g.check('retained', content(a) == ea)
    g.check('$ retained', content(b) == eb)


@contract('S03', [q + 'publish' for q in QB], cases=['V5', 'V311'], concrete_only=True,
          bounded='random histories of at most 12 publishes to 10 topics')
def histories_of_retained_publishes(g):
    v = g.case
    a, b, model = {}, {}, {}
    br = BROKERS[v](sharedData={'retained': a, 'dollar_retained': b, 'subscriptions': [], 'dollar_subscriptions': []})

    def step(g):
        t, m, q, r = g.str('topic', 1, pool=TOPICS), g.bytes('message', small=True), g.int('QoS', 0, 2), g.bool('retain')
        p = object()
        if v == 'V5':
            br.publish('A', t, m, q, r, p, 0)
        else:
            br.publish('A', t, m, q, r, 0)
        if r:
            if len(m) == 0:
                model.pop(t, None)
            else:
                model[t] = (m, q)
        now = {k: x[:2] for k, x in list(a.items()) + list(b.items())}
        g.check('store', now == model)
        g.check('$ topics apart', all(not k.startswith('$') for k in a) and all(k.startswith('$') for k in b))
        for k in model:
            g.check('lookup', br.se.getRetained(k)[:2] == model[k])
        if v == 'V5' and r and len(m) > 0:
            g.check('properties', br.se.getRetained(t)[3] is p)
    g.list('history', step, 1, 12)
