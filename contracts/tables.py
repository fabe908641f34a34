"""Subscription tables and retained stores of any size, for the contracts of the broker."""
from contracts.topics import is_dollar, TOPICS, FILTERS, CLIENTS
from mqtt.brokers.V5 import SubscriptionEngines as SE5, Subscriptions as S5, Brokers as B5
from mqtt.brokers.V311 import SubscriptionEngines as SE3, Subscriptions as S3, Brokers as B3
from mqtt.formats.MQTTV5 import MQTTV5 as M5

SES = {'V5': SE5.SubscriptionEngines, 'V311': SE3.SubscriptionEngines}
SUBS = {'V5': S5.Subscriptions, 'V311': S3.Subscriptions}
BROKERS = {'V5': B5.Brokers, 'V311': B3.Brokers}
PLAIN_FILTERS = [f for f in FILTERS if not is_dollar(f)]
DOLLAR_FILTERS = [f for f in FILTERS if is_dollar(f)]
PLAIN_TOPICS = [t for t in TOPICS if not t.startswith('$')]
DOLLAR_TOPICS = [t for t in TOPICS if t.startswith('$')]


def in_dollar_table(v, name):
    """a filter.  MQTT 3.1.1 has no shared subscriptions: there a $share filter is a $ filter"""
    return is_dollar(name) if v == 'V5' else name.startswith('$')


def some_options(g, v, name='QoS'):
    q = g.int(name, 0, 2)
    return (M5.SubscribeOptions(QoS=q), None) if v == 'V5' else q


def some(v, q):
    return (M5.SubscribeOptions(QoS=q), None) if v == 'V5' else q


def key(s):
    return (s.getClientid(), s.getTopic())


def some_table(g, v, dollar, without=(), name=None):
    """any number of subscriptions, at most one per client and filter, none with a key in `without`"""
    def entry(g):
        f = g.str('filter', 1, pool=DOLLAR_FILTERS if dollar else PLAIN_FILTERS)
        g.assume(in_dollar_table(v, f) == dollar)
        return SUBS[v](g.str('client', pool=CLIENTS), f, some_options(g, v))
    return g.table(name or ('$ subscriptions' if dollar else 'subscriptions'), entry, key, without)


def content(table):
    return [(s.getClientid(), s.getTopic(), s.getQoS()) for s in table]


def others(table, k):
    return [x for x in content(table) if (x[0], x[1]) != k]


def some_store(g, v, dollar, without=(), name=None):
    """retained messages of any number of topics"""
    def entry(g):
        t = g.str('topic', 1, pool=DOLLAR_TOPICS if dollar else PLAIN_TOPICS)
        g.assume(t.startswith('$') == dollar)
        return (t, retained_message(g, v))
    return g.mapping(name or ('$ retained' if dollar else 'retained'), entry, without)


def retained_message(g, v):
    m, q, t = g.bytes('message', 1, small=True), g.int('message QoS', 0, 2), g.int('received', 0, 1000)
    return (m, q, t, None) if v == 'V5' else (m, q, t)
