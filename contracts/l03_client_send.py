"""L03: the test clients put every packet on the wire whole and once."""
from contracts.fakenet import SinkSocket
from pydv.spec import contract
from mqtt.clients.V5 import main as V5
from mqtt.clients.V311 import main as V311

Q = ['mqtt.clients.V5.main.sendtosocket', 'mqtt.clients.V311.main.sendtosocket']


@contract('L03', Q, cases=['V5', 'V311'], widen_after=0)
def packet_is_sent_whole_and_once(g):
    data = g.bytes('packet', 1)
    s = SinkSocket(g, data)
    {'V5': V5, 'V311': V311}[g.case].sendtosocket(s, data)
    g.check('everything sent', s.n == len(data))
    g.check('in order and once', s.ok)


@contract('L03', Q, cases=['V5', 'V311'], widen_after=0)
def nothing_is_sent_twice_when_the_network_fails(g):
    data = g.bytes('packet', 1)
    s = SinkSocket(g, data, fails=True)
    g.catch({'V5': V5, 'V311': V311}[g.case].sendtosocket, s, data)
    g.check('in order and once', s.ok)
    g.check('no more than the packet', s.n <= len(data))
