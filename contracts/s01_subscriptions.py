"""S01, S02: the subscription table."""
from contracts.tables import SES, SUBS, some_table, some_options, some, content, others, key, in_dollar_table
from contracts.topics import FILTERS, CLIENTS
from contracts.stubs_topics import T5, T3
from pydv.spec import contract

CASES = ['%s, %s' % (v, k) for v in ('V5', 'V311') for k in ('new', 'existing')]
Q = ['mqtt.brokers.%s.SubscriptionEngines.SubscriptionEngines.' % v for v in ('V5', 'V311')]


def situation(g, case=None):
    """a table of any size; a client and filter that are in it or not: engine, table of the filter, the other one"""
    case = case or g.case
    v, existing = case.split(', ')[0], case.endswith("existing")
    k = (g.str('client', pool=CLIENTS), g.str('filter', 1, pool=FILTERS))
    d = g.pick('table', ['ordinary', '$']) == '$'
    g.assume(in_dollar_table(v, k[1]) == d)
    mine = some_table(g, v, d, [k], 'same table, before')
    if existing:
        mine = mine + [SUBS[v](k[0], k[1], some_options(g, v, 'old QoS'))] + some_table(g, v, d, [k], 'same table, after')
    rest = some_table(g, v, not d, (), 'other table')
    se = SES[v]({'subscriptions': rest if d else mine, 'dollar_subscriptions': mine if d else rest})
    return v, existing, k, mine, rest, se


@contract('S01', [q + 'subscribe' for q in Q], cases=CASES, uses=T5 + T3)
def newest_subscription_wins(g):
    v, existing, k, mine, rest, se = situation(g)
    before, before_rest = others(mine, k), content(rest)
    o = some_options(g, v, 'new QoS')
    r = se.subscribe(k[0], k[1], o)
    g.check('one subscription with the new options', [x[2] for x in content(mine) if (x[0], x[1]) == k] == [o[0].QoS if v == 'V5' else o])
    g.check('no other subscription changed', others(mine, k) == before)
    g.check('nothing in the other table changed', content(rest) == before_rest)
    if v == 'V5':
        g.check('tells whether it existed', r[1] == existing)


@contract('S02', [q + 'unsubscribe' for q in Q], cases=CASES, uses=T5 + T3)
def unsubscribe_removes_its_target(g):
    v, existing, k, mine, rest, se = situation(g)
    before, before_rest = others(mine, k), content(rest)
    r = se.unsubscribe(k[0], [k[1]])
    g.check('exactly the others remain', content(mine) == before)
    g.check('nothing in the other table changed', content(rest) == before_rest)
    if v == 'V5':
        g.check('reason code', [x.value for x in r] == [0 if existing else 17])


@contract('S02', [q + 'clearSubscriptions' for q in Q], cases=['V5', 'V311'], uses=T5 + T3)
def session_clean_up_removes_its_subscriptions(g):
    v = g.case
    a, b = some_table(g, v, False), some_table(g, v, True)
    c = g.str('client', pool=CLIENTS)
    ea, eb = [x for x in content(a) if x[0] != c], [x for x in content(b) if x[0] != c]
    SES[v]({'subscriptions': a, 'dollar_subscriptions': b}).clearSubscriptions(c)
    g.check('ordinary subscriptions', content(a) == ea)
    g.check('$ subscriptions', content(b) == eb)


@contract('S02', [Q[0] + 'unsubscribe'], cases=['new', 'existing'], uses=T5)
def unsubscribe_of_a_single_filter(g):
    v, existing, k, mine, rest, se = situation(g, 'V5, ' + g.case)
    before = others(mine, k)
    r = se.unsubscribe(k[0], k[1])
    g.check('exactly the others remain', content(mine) == before)
    g.check('reason code', [x.value for x in r] == [0 if existing else 17])


@contract('S01', [q + 'subscribe' for q in Q], cases=['V5', 'V311'], concrete_only=True,
          bounded='random histories of at most 12 subscribe packets with at most 4 filters over 5 clients and 23 filters')
def histories_of_subscribes(g):
    v = g.case
    t = ([], [])
    se = SES[v]({'subscriptions': t[0], 'dollar_subscriptions': t[1]})
    model = {}

    def step(g):
        c = g.str('client', pool=CLIENTS)
        fs = g.list('filters', lambda g: (g.str('filter', 1, pool=FILTERS), g.int('QoS', 0, 2)), 1)
        r = se.subscribe(c, [f for f, q in fs], [some(v, q) for f, q in fs])
        for i, (f, q) in enumerate(fs):
            if v == 'V5':
                g.check('tells whether it existed', r[i][1] == ((c, f) in model))
            model[(c, f)] = q
        now = content(t[0]) + content(t[1])
        g.check('table', sorted(now) == sorted((c, f, q) for (c, f), q in model.items()))
        g.check('$ filters apart', all(in_dollar_table(v, f) == (i == 1) for i in (0, 1) for c, f, q in content(t[i])))
    g.list('history', step, 1, 12)


@contract('S02', [q + 'unsubscribe' for q in Q] + [q + 'clearSubscriptions' for q in Q], cases=['V5', 'V311'], concrete_only=True,
          bounded='random histories of at most 12 operations over 5 clients and 23 filters, up to 4 filters per packet')
def histories_of_unsubscribes(g):
    v = g.case
    t = ([], [])
    se = SES[v]({'subscriptions': t[0], 'dollar_subscriptions': t[1]})
    model = {}

    def step(g):
        c = g.str('client', pool=CLIENTS[:3])
        fs = g.list('filters', lambda g: g.str('filter', 1, pool=FILTERS), 1)
        op = g.pick('operation', ['subscribe', 'subscribe', 'unsubscribe', 'end session'])
        if op == 'subscribe':
            se.subscribe(c, list(fs), [some(v, 1) for f in fs])
            for f in fs:
                model[(c, f)] = 1
        elif op == 'unsubscribe':
            r = se.unsubscribe(c, list(fs))
            for i, f in enumerate(fs):
                if v == 'V5':
                    g.check('one code per filter', len(r) == len(fs))
                    g.check('code', r[i].value == (0 if (c, f) in model else 17))
                model.pop((c, f), None)
        else:
            se.clearSubscriptions(c)
            for k in [k for k in model if k[0] == c]:
                del model[k]
        g.check('table', sorted(content(t[0]) + content(t[1])) == sorted((c, f, q) for (c, f), q in model.items()))
    g.list('history', step, 1, 12)
