"""C07: every MQTT 3.1.1 control packet packs into the specified bytes and unpacks into the same content."""
from contracts.stubs import PACKET3
from pydv.spec import contract
from contracts.lib import utf8, u16, bindata, vbi_bytes
from mqtt.formats.MQTTV311 import MQTTV311 as M3

W = 'mqtt.formats.MQTTV311.MQTTV311.'
FH = [W + 'FixedHeaders', W + 'unpackPacket', W + 'Packets', W + 'MessageType']
CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, \
    UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT = range(1, 15)


@contract('C07', [W + 'writeUTF'])
def writeUTF3_is_the_specified_encoding(g):
    s = g.str('s', 0, 65535)
    g.check('two length bytes counting the UTF-8 bytes, then the UTF-8 bytes', M3.writeUTF(s) == utf8(s))


@contract('C07', [W + 'readUTF'])
def readUTF3_inverts_the_encoding(g):
    s = g.str('s', 0, 65535)
    e = utf8(s)
    rest = g.bytes('rest')
    m = g.int('limit', 0, 300000000)
    g.assume(m >= len(e))
    v, n = M3.readUTF(e + rest, m)
    g.check('the string', v == s)
    g.check('the bytes it occupied', n == len(e))


@contract('C07', [W + 'writeInt16'])
def writeInt16_3_is_the_specified_encoding(g):
    v = g.int('v', 0, 65535)
    g.check('two bytes, most significant first', M3.writeInt16(v) == u16(v))


@contract('C07', [W + 'readInt16'])
def readInt16_3_inverts_the_encoding(g):
    v = g.int('v', 0, 65535)
    rest = g.bytes('rest')
    g.check('the value', M3.readInt16(u16(v) + rest) == v)


@contract('C07', [W + 'writeBytes', W + 'readBytes'])
def binary_data3_survives(g):
    d = g.bytes('data', 0, 65535)
    rest = g.bytes('rest')
    b = M3.writeBytes(d)
    g.check('two length bytes, then the data', b == bindata(d))
    g.check('read back', M3.readBytes(b + rest) == d)


def frame(g, ptype, flags, body):
    g.assume(len(body) <= 268435455)
    return bytes([ptype * 16 + flags]) + vbi_bytes(len(body)) + body


def check_header(g, q, ptype, dup, qos, retain, body):
    g.check('packet type', q.fh.MessageType == ptype)
    g.check('DUP', q.fh.DUP == dup)
    g.check('QoS', q.fh.QoS == qos)
    g.check('RETAIN', q.fh.RETAIN == retain)
    g.check('remaining length', q.fh.remainingLength == len(body))


@contract('C07', [W + 'Connects.pack', W + 'Connects.unpack'] + FH, uses=PACKET3, limit=100000, cases=['nowill', 'will'])
def connect3_packet_survives(g):
    p = M3.Connects()
    cs = g.bool('clean session')
    p.CleanSession = cs
    ka = g.int('keep alive', 0, 65535)
    p.KeepAliveTimer = ka
    cid = g.str('client id', 0, 65535)
    p.ClientIdentifier = cid
    flags = 2 if cs else 0
    payload = utf8(cid)
    will = g.case == 'will'
    if will:
        p.WillFlag = True
        wq = g.int('will qos', 0, 2)
        p.WillQoS = wq
        wr = g.int('will retain', 0, 1)
        p.WillRETAIN = wr
        wt = g.str('will topic', 0, 65535)
        p.WillTopic = wt
        wm = g.bytes('will message', 0, 65535)
        p.WillMessage = wm
        flags = flags + 4 + 8 * wq + 32 * wr
        payload = payload + utf8(wt) + bindata(wm)
    auth = g.pick('credentials', ['none', 'user', 'user and password'])
    un = g.str('user name', 0, 65535)
    pw = g.bytes('password', 0, 65535)
    if auth != 'none':
        p.usernameFlag = True
        p.username = un
        flags = flags + 128
        payload = payload + utf8(un)
    if auth == 'user and password':
        p.passwordFlag = True
        p.password = pw
        flags = flags + 64
        payload = payload + bindata(pw)
    body = b'\x00\x04MQTT\x04' + bytes([flags]) + u16(ka) + payload
    e = frame(g, CONNECT, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M3.unpackPacket(b)
    g.check('a CONNECT', type(q) is M3.Connects)
    check_header(g, q, CONNECT, False, 0, False, body)
    g.check('protocol', q.ProtocolName == 'MQTT' and q.ProtocolVersion == 4)
    g.check('clean session', q.CleanSession == cs)
    g.check('keep alive', q.KeepAliveTimer == ka)
    g.check('client identifier', q.ClientIdentifier == cid)
    g.check('will flag', q.WillFlag == will)
    if will:
        g.check('will QoS', q.WillQoS == wq)
        g.check('will retain', q.WillRETAIN == wr)
        g.check('will topic', q.WillTopic == wt)
        g.check('will message', q.WillMessage == wm)
    g.check('user name flag', q.usernameFlag == (auth != 'none'))
    g.check('password flag', q.passwordFlag == (auth == 'user and password'))
    g.check('user name', q.username == (un if auth != 'none' else None))
    g.check('password', q.password == (pw if auth == 'user and password' else None))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C07', [W + 'Connacks.pack', W + 'Connacks.unpack'] + FH, uses=PACKET3)
def connack3_packet_survives(g):
    sp = g.int('session present', 0, 1)
    rc = g.int('return code', 0, 255)
    p = M3.Connacks(ReturnCode=rc)
    p.flags = sp
    body = bytes([sp, rc])
    b = p.pack()
    g.check('packed as the specification prescribes', b == frame(g, CONNACK, 0, body))
    q = M3.unpackPacket(b)
    g.check('a CONNACK', type(q) is M3.Connacks)
    check_header(g, q, CONNACK, False, 0, False, body)
    g.check('session present', q.flags == sp)
    g.check('return code', q.returnCode == rc)
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C07', [W + 'Publishes.pack', W + 'Publishes.unpack'] + FH, uses=PACKET3, limit=100000, cases=[0, 1, 2])
def publish3_packet_survives(g):
    qos = g.case
    dup = g.bool('DUP') if qos > 0 else False
    retain = g.bool('RETAIN')
    t = g.str('topic', 0, 65535)
    pid = g.int('packet id', 1, 65535)
    d = g.bytes('payload')
    p = M3.Publishes(DUP=dup, QoS=qos, Retain=retain, MsgId=pid, TopicName=t, Payload=d)
    body = utf8(t) + (u16(pid) if qos > 0 else b'') + d
    e = frame(g, PUBLISH, (8 if dup else 0) + 2 * qos + (1 if retain else 0), body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M3.unpackPacket(b)
    g.check('a PUBLISH', type(q) is M3.Publishes)
    check_header(g, q, PUBLISH, dup, qos, retain, body)
    g.check('topic', q.topicName == t)
    if qos > 0:
        g.check('packet identifier', q.messageIdentifier == pid)
    g.check('payload', q.data == d)
    g.check('packs again into the same bytes', q.pack() == b)


ACKS = ['PUBACK', 'PUBREC', 'PUBREL', 'PUBCOMP', 'UNSUBACK']
ACKTYPE = {'PUBACK': PUBACK, 'PUBREC': PUBREC, 'PUBREL': PUBREL, 'PUBCOMP': PUBCOMP, 'UNSUBACK': UNSUBACK}
ACKCLASS = {'PUBACK': M3.Pubacks, 'PUBREC': M3.Pubrecs, 'PUBREL': M3.Pubrels, 'PUBCOMP': M3.Pubcomps, 'UNSUBACK': M3.Unsubacks}


@contract('C07', [W + k.__name__ + m for k in ACKCLASS.values() for m in ('.pack', '.unpack')] + FH, uses=PACKET3, cases=ACKS)
def acknowledgement3_packet_survives(g):
    ptype, klass = ACKTYPE[g.case], ACKCLASS[g.case]
    pid = g.int('packet id', 1, 65535)
    p = klass(MsgId=pid)
    qos = 1 if ptype == PUBREL else 0
    b = p.pack()
    g.check('packed as the specification prescribes', b == frame(g, ptype, 2 * qos, u16(pid)))
    q = M3.unpackPacket(b)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, qos, False, u16(pid))
    g.check('packet identifier', q.messageIdentifier == pid)
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C07', [W + 'Subscribes.pack', W + 'Subscribes.unpack'] + FH, uses=PACKET3, limit=100000)
def subscribe3_packet_survives(g):
    def one(g):
        return (g.str('filter', 0, 65535), g.int('qos', 0, 2))
    pid = g.int('packet id', 1, 65535)
    data = g.list('subscriptions', one)
    g.assume(len(data) > 0)
    p = M3.Subscribes(MsgId=pid, Data=data)
    body = u16(pid)
    for d in data:
        body = body + utf8(d[0]) + bytes([d[1]])
    e = frame(g, SUBSCRIBE, 2, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M3.unpackPacket(b)
    g.check('a SUBSCRIBE', type(q) is M3.Subscribes)
    check_header(g, q, SUBSCRIBE, False, 1, False, body)
    g.check('packet identifier', q.messageIdentifier == pid)
    g.check('as many subscriptions', len(q.data) == len(data))
    g.check('the filters in order', [d[0] for d in q.data] == [d[0] for d in data])
    g.check('their QoS in order', [d[1] for d in q.data] == [d[1] for d in data])
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C07', [W + 'Unsubscribes.pack', W + 'Unsubscribes.unpack'] + FH, uses=PACKET3, limit=100000)
def unsubscribe3_packet_survives(g):
    def one(g):
        return g.str('filter', 0, 65535)
    pid = g.int('packet id', 1, 65535)
    data = g.list('filters', one)
    g.assume(len(data) > 0)
    p = M3.Unsubscribes(MsgId=pid, Data=data)
    body = u16(pid)
    for d in data:
        body = body + utf8(d)
    e = frame(g, UNSUBSCRIBE, 2, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M3.unpackPacket(b)
    g.check('an UNSUBSCRIBE', type(q) is M3.Unsubscribes)
    check_header(g, q, UNSUBSCRIBE, False, 1, False, body)
    g.check('packet identifier', q.messageIdentifier == pid)
    g.check('the filters in order', q.data == data)
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C07', [W + 'Subacks.pack', W + 'Subacks.unpack'] + FH, uses=PACKET3, limit=100000)
def suback3_packet_survives(g):
    def one(g):
        return g.oneof('code', [0, 1, 2, 128])
    pid = g.int('packet id', 1, 65535)
    data = g.list('codes', one)
    g.assume(len(data) > 0)
    p = M3.Subacks(MsgId=pid, Data=data)
    body = u16(pid)
    for d in data:
        body = body + bytes([d])
    e = frame(g, SUBACK, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M3.unpackPacket(b)
    g.check('a SUBACK', type(q) is M3.Subacks)
    check_header(g, q, SUBACK, False, 0, False, body)
    g.check('packet identifier', q.messageIdentifier == pid)
    g.check('the codes in order', q.data == data)
    g.check('packs again into the same bytes', q.pack() == b)


EMPTY = {'PINGREQ': (PINGREQ, M3.Pingreqs), 'PINGRESP': (PINGRESP, M3.Pingresps), 'DISCONNECT': (DISCONNECT, M3.Disconnects)}


@contract('C07', [W + 'Pingreqs', W + 'Pingresps', W + 'Disconnects'] + FH, uses=PACKET3, cases=list(EMPTY))
def empty3_packet_survives(g):
    ptype, klass = EMPTY[g.case]
    b = klass().pack()
    g.check('packed as the specification prescribes', b == bytes([ptype * 16, 0]))
    q = M3.unpackPacket(b)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, 0, False, b'')
    g.check('packs again into the same bytes', q.pack() == b)
