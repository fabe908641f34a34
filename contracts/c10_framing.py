"""C10: packets are framed exactly on the byte stream."""
from contracts.fakenet import StreamSocket
from pydv.spec import contract
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from mqtt.formats.MQTTV311 import MQTTV311 as M3

FORMATS = {'5': M5, '3.1.1': M3}
FUNCS = ['mqtt.formats.MQTTV5.MQTTV5.getPacket', 'mqtt.formats.MQTTV311.MQTTV311.getPacket']
CASES = ['%s, %d length bytes' % (v, k) for v in FORMATS for k in (1, 2, 3, 4)]


def header(g, v, ndigits):
    """a fixed header whose remaining length field has `ndigits` bytes: its bytes, and the remaining length"""
    b = bytes([g.int('first byte', 0, 255)])
    n = 0
    for i in range(ndigits):
        last = i == ndigits - 1
        d = g.int('digit %d' % i, 1 if last and ndigits > 1 else 0, 127)
        n = n + d * 128 ** i
        b = b + bytes([d if last else d + 128])
    g.affordable(n < 4200000)
    return b, n


@contract('C10', FUNCS, cases=CASES, widen_after=0)
def next_packet_is_read_exactly(g):
    v, nd = g.case.split(',')[0], int(g.case.split()[1])
    h, n = header(g, v, nd)
    data = g.bytes('stream after the header', n)
    s = StreamSocket(g, h + data)
    r = FORMATS[v].getPacket(s)
    g.check('the packet', r == h + data[:n])
    g.check('the following bytes are left', s.pos == len(h) + n)


@contract('C10', FUNCS, cases=CASES, widen_after=0)
def no_partial_packet(g):
    """the stream ends or fails inside the packet: in the header or in the body"""
    v, nd = g.case.split(',')[0], int(g.case.split()[1])
    h, n = header(g, v, nd)
    fails = g.pick('the stream', ['ends', 'fails']) == 'fails'
    if g.pick('in the', ['header', 'body']) == 'header':
        k = g.pick('header bytes', [0, 1, 2, 3, 4])
        g.assume(k < len(h))
        s = StreamSocket(g, h[:k], fails)
    else:
        g.assume(n > 0)
        s = StreamSocket(g, h + g.bytes('body', 0, n - 1), fails)
    r, e = g.catch(FORMATS[v].getPacket, s)
    g.check('no packet', r is None)
    g.check('an end of stream is no error', fails or e is None)
