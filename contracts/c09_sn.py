"""C09: MQTT-SN messages pack into the specified bytes and unpack into the same content."""
from pydv.spec import contract
from contracts.lib import u16
from mqtt.formats.MQTTSN import MQTTSN as SN

W = 'mqtt.formats.MQTTSN.MQTTSN.'
CONNECT, CONNACK, PUBLISH = 4, 5, 12          # MQTT-SN 1.2, table 3


def some_flags(g, f):
    """random flags on f and the byte the specification (5.3.4) prescribes for them"""
    dup, retain, will, clean = g.bool('DUP'), g.bool('Retain'), g.bool('Will'), g.bool('CleanSession')
    qos = g.int('QoS', -1, 2)
    tid = g.int('TopicIdType', 0, 3)
    f.DUP, f.QoS, f.RETAIN, f.Will, f.CleanSession, f.TopicIdType = dup, qos, retain, will, clean, tid
    byte = (128 if dup else 0) + 32 * (qos if qos >= 0 else 3) + (16 if retain else 0) + (8 if will else 0) + (4 if clean else 0) + tid
    return byte, (dup, qos, retain, will, clean, tid)


def check_flags(g, f, want):
    g.check('DUP', f.DUP == want[0])
    g.check('QoS', f.QoS == want[1])
    g.check('Retain', f.RETAIN == want[2])
    g.check('Will', f.Will == want[3])
    g.check('CleanSession', f.CleanSession == want[4])
    g.check('TopicIdType', f.TopicIdType == want[5])


@contract('C09', [W + 'Flags.pack', W + 'Flags.unpack'])
def sn_flags_survive(g):
    f = SN.Flags()
    byte, want = some_flags(g, f)
    b = f.pack()
    g.check('the bits the specification prescribes', b == bytes([byte]))
    h = SN.Flags()
    h.unpack(b[0])
    check_flags(g, h, want)
    g.check('equal', h == f)


@contract('C09', [W + 'Flags.unpack', W + 'Flags.pack'])
def sn_flags_are_read_bit_by_bit(g):
    v = g.int('byte', 0, 255)
    h = SN.Flags()
    g.check('one byte', h.unpack(v) == 1)
    q = v // 32 % 4
    check_flags(g, h, (v // 128 == 1, -1 if q == 3 else q, v // 16 % 2 == 1, v // 8 % 2 == 1, v // 4 % 2 == 1, v % 4))
    g.check('packs into the same byte', h.pack() == bytes([v]))


@contract('C09', [W + 'MessageLens.encode', W + 'MessageLens.decode'])
def sn_length_survives(g):
    n = g.int('length', 2, 65535)
    b = SN.MessageLens.encode(n)
    g.check('one byte up to 255, else 1 and two bytes', b == (bytes([n]) if n < 256 else b'\x01' + u16(n)))
    rest = g.bytes('rest')
    g.check('decoded', SN.MessageLens.decode(b + rest) == (n, len(b)))


@contract('C09', [W + 'Connects.pack', W + 'Connects.unpack', W + 'unpackPacket', W + 'MessageType'])
def sn_connect_survives(g):
    p = SN.Connects()
    byte, want = some_flags(g, p.Flags)
    pid = g.int('ProtocolId', 0, 255)
    dur = g.int('Duration', 0, 65535)
    cid = g.str('ClientId', 0, 249)
    p.ProtocolId, p.Duration, p.ClientId = pid, dur, cid
    data = cid.encode('utf-8')
    e = bytes([6 + len(data), CONNECT, byte, pid]) + u16(dur) + data
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = SN.unpackPacket(b)
    g.check('a CONNECT', type(q) is SN.Connects and q.messageType == CONNECT)
    check_flags(g, q.Flags, want)
    g.check('protocol id', q.ProtocolId == pid)
    g.check('duration', q.Duration == dur)
    g.check('client id', q.ClientId == cid)
    g.check('equal', q == p)
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C09', [W + 'Connacks.pack', W + 'Connacks.unpack', W + 'unpackPacket'])
def sn_connack_survives(g):
    p = SN.Connacks()
    rc = g.int('return code', 0, 255)
    p.ReturnCode = rc
    b = p.pack()
    g.check('packed as the specification prescribes', b == bytes([3, CONNACK, rc]))
    q = SN.unpackPacket(b)
    g.check('a CONNACK', type(q) is SN.Connacks and q.messageType == CONNACK)
    g.check('return code', q.ReturnCode == rc)
    g.check('equal', q == p)
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C09', [W + 'Publishes.pack', W + 'Publishes.unpack', W + 'unpackPacket'], cases=['bytes', 'text'])
def sn_publish_survives(g):
    p = SN.Publishes()
    byte, want = some_flags(g, p.Flags)
    tid = g.int('TopicId', 0, 65535)
    mid = g.int('MsgId', 0, 65535)
    if g.case == 'bytes':
        data = g.bytes('Data', 0, 248)
        p.Data = data
    else:
        text = g.str('Data', 0, 248)
        p.Data = text
        data = text.encode('utf-8')
    p.TopicId, p.MsgId = tid, mid
    e = bytes([7 + len(data), PUBLISH, byte]) + u16(tid) + u16(mid) + data
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = SN.unpackPacket(b)
    g.check('a PUBLISH', type(q) is SN.Publishes and q.messageType == PUBLISH)
    check_flags(g, q.Flags, want)
    g.check('topic id', q.TopicId == tid)
    g.check('message id', q.MsgId == mid)
    g.check('data', q.Data == data)
    if g.case == 'bytes':
        g.check('equal', q == p)
    g.check('packs again into the same bytes', q.pack() == b)
