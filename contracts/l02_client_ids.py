"""L02: the packet identifiers the test clients choose."""
import importlib
from pydv.spec import contract
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3

MAIN = {v: importlib.import_module('mqtt.clients.%s.main' % v) for v in ('V5', 'V311')}
FORMAT = {'V5': M5, 'V311': M3}
CALLS = ['publish QoS 0', 'publish QoS 1', 'publish QoS 2', 'subscribe', 'unsubscribe']


class Sink:
    """a connection that takes everything"""
    def __init__(self):
        self.data = []

    def send(self, data):
        self.data.append(data)
        return len(data)


class Flights:
    """the receiver of a client, as far as the client looks at it"""
    def __init__(self, out):
        self.outMsgs, self.inMsgs, self.paused, self.running, self.stopping = out, {}, False, True, False


def some_test_client(g, v):
    c = MAIN[v].Client('A')
    c.sock = Sink()
    c._Client__receiver = Flights(g.mapping('in flight', lambda g: (g.int('identifier', 1, 65535), 0)))
    c.msgid = g.int('last identifier', 1, 65535)
    return c


def call(c, v, what):
    if what == 'subscribe':
        return c.subscribe(['a'], [M5.SubscribeOptions(0) if v == 'V5' else 0])
    if what == 'unsubscribe':
        return c.unsubscribe(['a'])
    return c.publish('a', b'x', int(what[-1]))


@contract('L02', ['mqtt.clients.%s.main.Client.%s' % (v, f) for v in MAIN for f in ('publish', 'subscribe', 'unsubscribe')],
          cases=['%s, %s' % (v, w) for v in MAIN for w in CALLS], widen_after=0)
def identifiers_are_not_in_flight(g):
    v, what = g.case.split(', ')
    c = some_test_client(g, v)
    out = c._Client__receiver.outMsgs
    before = list(out.keys())
    r, e = g.catch(call, c, v, what)
    if len(before) >= 65535 and what != 'publish QoS 0':
        g.check('refused', e is not None)
        g.check('nothing in flight changed', list(out.keys()) == before)
        g.check('nothing is sent', len(c.sock.data) == 0)
    else:
        g.check('not refused', e is None)
        mine = what in ('publish QoS 1', 'publish QoS 2')
        if what == 'publish QoS 0':
            g.check('no identifier', r == 0)
        else:
            g.check('identifier in range', 1 <= r <= 65535)
            g.check('identifier not in flight', r not in before)
        g.check('in flight when it needs an acknowledgement', list(out.keys()) == before + ([r] if mine else []))
        g.check('the client stays able to choose', 1 <= c.msgid <= 65535)
        g.check('one packet is sent', len(c.sock.data) == 1)
        d = c.sock.data[0]
        if mine:
            g.check('it carries the identifier', d[5] * 256 + d[6] == r)
        elif what != 'publish QoS 0':
            g.check('it carries the identifier', d[2] * 256 + d[3] == r)
