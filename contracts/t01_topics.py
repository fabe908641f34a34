"""T01, T02: which names are accepted, and what matches."""
import itertools
from contracts.tables import SES, some
from contracts.topics import valid, matches, matches3, TOPICS, FILTERS
from mqtt.brokers.V5 import Topics as T5
from mqtt.brokers.V311 import Topics as T3
from pydv.spec import contract

V = {'V5': T5, 'V311': T3}
MATCHES = {'V5': matches, 'V311': matches3}
Q = ['mqtt.brokers.%s.Topics.' % v for v in V]
CHARS = 'ab/+#$.\n \\*?[](){}^|-é'
LEVELS = ['a', 'b', '+', '#', '', 'ab', 'a.', '$', 'a\n', '.', '\\', 'a+', '+a', '#a', 'a#', '++', '$share', 'A', 'a b', '[a]', '(', ')', '*', 'a*', '{1}', '^a', 'a$', '|', 'é', '\n', '\r']


def words(alphabet, n):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield ''.join(w)


def accepted(g, v, name):
    r, e = g.catch(V[v].isValidTopicName, name)
    return e is None and r is True


def judge_name(g, v, name):
    if accepted(g, v, name) != valid(name):
        g.check('accepted exactly when valid: %r' % name[:40], False)


def judge_match(g, v, f, t):
    r, e = g.catch(V[v].topicMatches, f, t)
    want = MATCHES[v](f, t)
    if e is not None or bool(r) != want:
        g.check('%r matches %r: %r' % (f, t, want), False)


@contract('T01', [q + 'isValidTopicName' for q in Q], cases=list(V), concrete_only=True, runs=1,
          bounded='all names of at most 6 characters over a, /, +, #, $ and of at most 4 levels out of 10; lengths around 65535')
def topic_names_are_accepted_exactly_when_valid(g):
    v = g.case
    n = 0
    for name in words('a/+#$', 6):
        judge_name(g, v, name)
        n += 1
    for k in (1, 2, 3, 4):
        for ls in itertools.product(LEVELS[:6] + ['a+', '+a', '#a', 'a#', '++'], repeat=k):
            judge_name(g, v, '/'.join(ls))
            n += 1
    for k in (65530, 65534, 65535, 65536, 65537, 70000):
        for tail in ('', '#', '+', '/#', '/+', 'é'):
            for head in ('', '+/', '#/', '/', '$'):
                judge_name(g, v, head + 'x' * (k - len(tail) - len(head)) + tail)
                n += 1
    g.check('names were judged', n > 20000)


@contract('T01', [q + 'isValidTopicName' for q in Q], cases=list(V), concrete_only=True,
          bounded='random names of at most 40 characters or levels')
def random_topic_names(g):
    v = g.case
    if g.bool('levels'):
        name = '/'.join(g.list('parts', lambda g: g.str('level', pool=LEVELS), 0, 40))
    else:
        name = ''.join(g.list('characters', lambda g: g.pick('c', CHARS), 0, 40))
    g.check('accepted exactly when valid', accepted(g, v, name) == valid(name))
    a, b = [], []
    se = SES[v]({'subscriptions': a, 'dollar_subscriptions': b})
    r, e = g.catch(se.subscribe, 'A', [name], [some(v, 1)])
    g.check('subscribed exactly when valid', (e is None and len(a) + len(b) == 1) if valid(name) else (e is not None and not a and not b))


@contract('T02', [q + 'topicMatches' for q in Q], cases=list(V), concrete_only=True, runs=1,
          bounded='all filters and topics of at most 4 characters over a, b, /, and the wildcards and ".", $, newline; all of at most 4 levels out of 5')
def topic_matching_follows_the_level_rules(g):
    v = g.case
    filters = [f for f in words('ab/+#', 4) if valid(f)]
    topics = [t for t in words('ab/', 4) if t]
    n = 0
    for f in filters:
        for t in topics:
            judge_match(g, v, f, t)
            n += 1
    filters = [f for f in words('a/+#.\n$', 3) if valid(f)]
    topics = [t for t in words('a/.\n$', 3) if t]
    for f in filters:
        for t in topics:
            judge_match(g, v, f, t)
            n += 1
    for k in (3, 4):
        filters = [f for f in map('/'.join, itertools.product(['a', '', '+', '#'], repeat=k)) if valid(f)]
        for j in (k - 1, k, k + 1):
            for t in map('/'.join, itertools.product(['a', 'aa', ''], repeat=j)):
                for f in filters:
                    judge_match(g, v, f, t)
                    n += 1
    for f in FILTERS + ['$share', '$share/g', '$share/', '$share/g/', '$shared/a', '$share/g/+/b', '$share//a', '$share/a/b/c', '$share/g/$share/g/a', '$shares/g/a']:
        for t in TOPICS + ['$share', '$shared/a', '$share/g/a', 'g/a', 'b/c', 'c', '$shares/g/a']:
            judge_match(g, v, f, t)
            n += 1
    g.check('pairs were judged', n > 20000)


@contract('T02', [q + 'topicMatches' for q in Q], cases=list(V), concrete_only=True,
          bounded='random filters of at most 8 levels and topics made from them')
def random_matching(g):
    v = g.case

    def level(g):
        k = g.pick('kind', ['same', 'same', 'same', '+', 'other', 'none', 'extra', '#'])
        l = g.str('level', pool=[l for l in LEVELS if '+' not in l and '#' not in l])
        l = l.replace('+', '.').replace('#', '^')
        if k == 'same':
            return [l], [l]
        if k == '+':
            return ['+'], [l]
        if k == 'other':
            m = g.str('other level', pool=LEVELS).replace('+', '').replace('#', '')
            return [l.replace('/', '')], [m]
        if k == 'none':
            return [l], []
        if k == 'extra':
            return [], [l]
        return ['#'], []
    parts = g.list('levels', level, 1, 8)
    f = '/'.join(x for a, b in parts for x in a)
    t = '/'.join(x for a, b in parts for x in b)
    g.assume(valid(f) and valid(t) and not f.startswith('$share/'))
    g.check('matches', g.catch(V[v].topicMatches, f, t) == (MATCHES[v](f, t), None))
    if v == 'V5':
        s = g.str('share name', 1, pool=['g', 'h', '$', 'share']).replace('/', '').replace('+', '').replace('#', '')
        g.assume(0 < len(s) < 100 and len(f) < 65000)
        g.check('shared', V[v].topicMatches('$share/' + s + '/' + f, t) == MATCHES[v](f, t))
