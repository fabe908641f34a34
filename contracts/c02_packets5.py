"""C02: every MQTT 5 control packet packs into the specified bytes and unpacks into the same content."""
from contracts.stubs import PACKET5
from pydv.spec import contract
from contracts import spec5 as S
from contracts.gen5 import *
from contracts.lib import utf8, u16, bindata, vbi_bytes
from mqtt.formats.MQTTV5 import MQTTV5 as M5

W = 'mqtt.formats.MQTTV5.MQTTV5.'
FH = [W + 'FixedHeaders', W + 'unpackPacket', W + 'Packets', W + 'PacketType', W + 'MessageType']
MAXLEN = 268435455
BIG = 300000000


def frame(g, ptype, flags, body):
    g.assume(len(body) <= MAXLEN)
    return bytes([ptype * 16 + flags]) + vbi_bytes(len(body)) + body


def check_header(g, q, ptype, dup, qos, retain, body):
    g.check('packet type', q.fh.PacketType == ptype)
    g.check('DUP', q.fh.DUP == dup)
    g.check('QoS', q.fh.QoS == qos)
    g.check('RETAIN', q.fh.RETAIN == retain)
    g.check('remaining length', q.fh.remainingLength == len(body))


@contract('C02', [W + 'Connects.pack', W + 'Connects.unpack'] + FH, uses=PACKET5, limit=100000, cases=['nowill', 'will'])
def connect_packet_survives(g):
    p = M5.Connects()
    cs = g.bool('clean start')
    p.CleanStart = cs
    ka = g.int('keep alive', 0, 65535)
    p.KeepAliveTimer = ka
    p.properties, vals = propset(g, S.CONNECT)
    cid = g.str('client id', 0, 65535)
    p.ClientIdentifier = cid
    flags = 2 if cs else 0
    payload = utf8(cid)
    will = g.case == 'will'
    if will:
        p.WillFlag = True
        wq = g.int('will qos', 0, 2)
        p.WillQoS = wq
        wr = g.int('will retain', 0, 1)
        p.WillRETAIN = wr
        p.WillProperties, wvals = propset(g, S.WILL, pre='will ')
        wt = g.str('will topic', 0, 65535)
        p.WillTopic = wt
        wm = g.bytes('will message', 0, 65535)
        p.WillMessage = wm
        flags = flags + 4 + 8 * wq + 32 * wr
        wbody = enc_propset(wvals)
        payload = payload + wbody + utf8(wt) + bindata(wm)
    auth = g.pick('credentials', ['none', 'user', 'user and password'])
    un = g.str('user name', 0, 65535)
    pw = g.bytes('password', 0, 65535)
    if auth != 'none':
        p.usernameFlag = True
        p.username = un
        flags = flags + 128
        payload = payload + utf8(un)
    if auth == 'user and password':
        p.passwordFlag = True
        p.password = pw
        flags = flags + 64
        payload = payload + bindata(pw)
    pbody = enc_propset(vals)
    body = b'\x00\x04MQTT\x05' + bytes([flags]) + u16(ka) + pbody + payload
    e = frame(g, S.CONNECT, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('a CONNECT', type(q) is M5.Connects)
    check_header(g, q, S.CONNECT, False, 0, False, body)
    g.check('protocol', q.ProtocolName == 'MQTT' and q.ProtocolVersion == 5)
    g.check('clean start', q.CleanStart == cs)
    g.check('keep alive', q.KeepAliveTimer == ka)
    g.check('client identifier', q.ClientIdentifier == cid)
    g.check('CONNECT properties', props_kept(q.properties, vals, S.CONNECT))
    g.check('will flag', q.WillFlag == will)
    if will:
        g.check('will QoS', q.WillQoS == wq)
        g.check('will retain', q.WillRETAIN == wr)
        g.check('will topic', q.WillTopic == wt)
        g.check('will message', q.WillMessage == wm)
        g.check('will properties', props_kept(q.WillProperties, wvals, S.WILL))
    g.check('user name flag', q.usernameFlag == (auth != 'none'))
    g.check('password flag', q.passwordFlag == (auth == 'user and password'))
    g.check('user name', q.username == (un if auth != 'none' else None))
    g.check('password', q.password == (pw if auth == 'user and password' else None))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Connacks.pack', W + 'Connacks.unpack'] + FH, uses=PACKET5, limit=100000)
def connack_packet_survives(g):
    p = M5.Connacks()
    sp = g.bool('session present')
    p.sessionPresent = sp
    rc = g.oneof('reason', S.codes_for(S.CONNACK))
    p.reasonCode.value = rc
    p.properties, vals = propset(g, S.CONNACK)
    pbody = enc_propset(vals)
    body = bytes([1 if sp else 0, rc]) + pbody
    e = frame(g, S.CONNACK, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('a CONNACK', type(q) is M5.Connacks)
    check_header(g, q, S.CONNACK, False, 0, False, body)
    g.check('session present', q.sessionPresent == sp)
    g.check('reason code', q.reasonCode.value == rc)
    g.check('CONNACK properties', props_kept(q.properties, vals, S.CONNACK))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Publishes.pack', W + 'Publishes.unpack'] + FH, uses=PACKET5, limit=100000, cases=[0, 1, 2])
def publish_packet_survives(g):
    qos = g.case
    p = M5.Publishes()
    dup = g.bool('DUP') if qos > 0 else False
    retain = g.bool('RETAIN')
    p.fh.QoS = qos
    p.fh.DUP = dup
    p.fh.RETAIN = retain
    t = g.str('topic', 0, 65535)
    p.topicName = t
    pid = g.int('packet id', 1, 65535)
    p.packetIdentifier = pid
    p.properties, vals = propset(g, S.PUBLISH)
    d = g.bytes('payload')
    p.data = d
    pbody = enc_propset(vals)
    body = utf8(t) + (u16(pid) if qos > 0 else b'') + pbody + d
    e = frame(g, S.PUBLISH, (8 if dup else 0) + 2 * qos + (1 if retain else 0), body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('a PUBLISH', type(q) is M5.Publishes)
    check_header(g, q, S.PUBLISH, dup, qos, retain, body)
    g.check('topic', q.topicName == t)
    if qos > 0:
        g.check('packet identifier', q.packetIdentifier == pid)
    g.check('payload', q.data == d)
    g.check('PUBLISH properties', props_kept(q.properties, vals, S.PUBLISH))
    g.check('packs again into the same bytes', q.pack() == b)


ACKS = ['PUBACK', 'PUBREC', 'PUBREL', 'PUBCOMP']


@contract('C02', [W + 'Acks.pack', W + 'Acks.unpack', W + 'ReasonCodes'] + FH, uses=PACKET5, limit=100000, cases=ACKS)
def acknowledgement_packet_survives(g):
    ptype = S.PUBACK + ACKS.index(g.case)
    klass = [M5.Pubacks, M5.Pubrecs, M5.Pubrels, M5.Pubcomps][ACKS.index(g.case)]
    p = klass()
    pid = g.int('packet id', 1, 65535)
    p.packetIdentifier = pid
    rc = g.oneof('reason', S.codes_for(ptype))
    p.reasonCode.value = rc
    p.properties, vals = propset(g, ptype)
    pbody = enc_propset(vals)
    body = u16(pid)
    if not no_props(vals):
        body = body + bytes([rc]) + pbody
    elif rc != 0:
        body = body + bytes([rc])
    qos = 1 if ptype == S.PUBREL else 0
    e = frame(g, ptype, 2 * qos, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, qos, False, body)
    g.check('packet identifier', q.packetIdentifier == pid)
    g.check('reason code', q.reasonCode.value == rc)
    if no_props(vals):
        g.check('no properties', q.properties.isEmpty())
    else:
        g.check('acknowledgement properties', props_kept(q.properties, vals, ptype))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Acks.unpack'] + FH, uses=PACKET5, cases=ACKS)
def acknowledgement_long_forms_are_read(g):
    """the reason code and an empty property section may be present even when they could be left out"""
    ptype = S.PUBACK + ACKS.index(g.case)
    pid = g.int('packet id', 1, 65535)
    rc = g.oneof('reason', S.codes_for(ptype))
    form = g.pick('form', ['reason', 'reason and empty properties'])
    body = u16(pid) + bytes([rc]) + (b'\x00' if form != 'reason' else b'')
    q = M5.unpackPacket(frame(g, ptype, 2 if ptype == S.PUBREL else 0, body), BIG)
    g.check('packet identifier', q.packetIdentifier == pid)
    g.check('reason code', q.reasonCode.value == rc)
    g.check('no properties', q.properties.isEmpty())


@contract('C02', [W + 'SubscribeOptions.pack', W + 'SubscribeOptions.unpack'])
def subscribe_options_survive(g):
    q = g.int('qos', 0, 2)
    nl = g.bool('no local')
    rap = g.bool('retain as published')
    rh = g.int('retain handling', 0, 2)
    o = M5.SubscribeOptions(q, nl, rap, rh)
    b = o.pack()
    g.check('one byte as specified', b == bytes([q + (4 if nl else 0) + (8 if rap else 0) + 16 * rh]))
    u = M5.SubscribeOptions()
    n = u.unpack(b + g.bytes('rest'))
    g.check('uses one byte', n == 1)
    g.check('same options', u.QoS == q and u.noLocal == nl and u.retainAsPublished == rap and u.retainHandling == rh)


def opt_byte(o):
    return o.QoS + (4 if o.noLocal else 0) + (8 if o.retainAsPublished else 0) + 16 * o.retainHandling


def sub_entry(g):
    return (g.str('filter', 0, 65535), M5.SubscribeOptions(g.int('qos', 0, 2), g.bool('no local'),
                                                            g.bool('retain as published'), g.int('retain handling', 0, 2)))


def opts(o):
    return (o.QoS, o.noLocal, o.retainAsPublished, o.retainHandling)


@contract('C02', [W + 'Subscribes.pack', W + 'Subscribes.unpack', W + 'SubscribeOptions'] + FH, uses=PACKET5, limit=100000)
def subscribe_packet_survives(g):
    p = M5.Subscribes()
    pid = g.int('packet id', 1, 65535)
    p.packetIdentifier = pid
    p.properties, vals = propset(g, S.SUBSCRIBE)
    data = g.list('subscriptions', sub_entry)
    g.assume(len(data) > 0)
    p.data = data
    pbody = enc_propset(vals)
    body = u16(pid) + pbody
    for d in data:
        body = body + utf8(d[0]) + bytes([opt_byte(d[1])])
    e = frame(g, S.SUBSCRIBE, 2, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('a SUBSCRIBE', type(q) is M5.Subscribes)
    check_header(g, q, S.SUBSCRIBE, False, 1, False, body)
    g.check('packet identifier', q.packetIdentifier == pid)
    g.check('as many subscriptions', len(q.data) == len(data))
    g.check('the filters in order', [d[0] for d in q.data] == [d[0] for d in data])
    g.check('their options in order', [opts(d[1]) for d in q.data] == [opts(d[1]) for d in data])
    g.check('SUBSCRIBE properties', props_kept(q.properties, vals, S.SUBSCRIBE))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Unsubscribes.pack', W + 'Unsubscribes.unpack'] + FH, uses=PACKET5, limit=100000)
def unsubscribe_packet_survives(g):
    def one(g):
        return g.str('filter', 0, 65535)
    p = M5.Unsubscribes()
    pid = g.int('packet id', 1, 65535)
    p.packetIdentifier = pid
    p.properties, vals = propset(g, S.UNSUBSCRIBE)
    data = g.list('filters', one)
    g.assume(len(data) > 0)
    p.topicFilters = data
    pbody = enc_propset(vals)
    body = u16(pid) + pbody
    for d in data:
        body = body + utf8(d)
    e = frame(g, S.UNSUBSCRIBE, 2, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('an UNSUBSCRIBE', type(q) is M5.Unsubscribes)
    check_header(g, q, S.UNSUBSCRIBE, False, 1, False, body)
    g.check('packet identifier', q.packetIdentifier == pid)
    g.check('the filters in order', q.topicFilters == data)
    g.check('UNSUBSCRIBE properties', props_kept(q.properties, vals, S.UNSUBSCRIBE))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'UnsubSubacks.pack', W + 'UnsubSubacks.unpack'] + FH, uses=PACKET5, limit=100000, cases=['SUBACK', 'UNSUBACK'])
def suback_unsuback_packet_survives(g):
    ptype, klass = (S.SUBACK, M5.Subacks) if g.case == 'SUBACK' else (S.UNSUBACK, M5.Unsubacks)

    def one(g):
        r = M5.ReasonCodes(ptype, identifier=S.codes_for(ptype)[0])
        r.value = g.oneof('reason', S.codes_for(ptype))
        return r
    p = klass()
    pid = g.int('packet id', 1, 65535)
    p.packetIdentifier = pid
    p.properties, vals = propset(g, ptype)
    data = g.list('codes', one)
    g.assume(len(data) > 0)
    p.reasonCodes = data
    pbody = enc_propset(vals)
    body = u16(pid) + pbody
    for d in data:
        body = body + bytes([d.value])
    e = frame(g, ptype, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, 0, False, body)
    g.check('packet identifier', q.packetIdentifier == pid)
    g.check('as many codes', len(q.reasonCodes) == len(data))
    g.check('each code', [c.value for c in q.reasonCodes] == [c.value for c in data])
    g.check('properties', props_kept(q.properties, vals, ptype))
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Pingreqs', W + 'Pingresps'] + FH, uses=PACKET5, cases=['PINGREQ', 'PINGRESP'])
def ping_packet_survives(g):
    ptype, klass = (S.PINGREQ, M5.Pingreqs) if g.case == 'PINGREQ' else (S.PINGRESP, M5.Pingresps)
    b = klass().pack()
    g.check('packed as the specification prescribes', b == bytes([ptype * 16, 0]))
    q = M5.unpackPacket(b, BIG)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, 0, False, b'')
    g.check('packs again into the same bytes', q.pack() == b)


@contract('C02', [W + 'Disconnects', W + 'Auths'] + FH, uses=PACKET5, limit=100000, cases=['DISCONNECT', 'AUTH'])
def disconnect_auth_packet_survives(g):
    ptype, klass = (S.DISCONNECT, M5.Disconnects) if g.case == 'DISCONNECT' else (S.AUTH, M5.Auths)
    p = klass()
    rc = g.oneof('reason', S.codes_for(ptype))
    p.reasonCode.value = rc
    p.properties, vals = propset(g, ptype)
    pbody = enc_propset(vals)
    long = bytes([rc]) + pbody
    body = long
    if ptype == S.DISCONNECT and no_props(vals):
        body = bytes([rc]) if rc != 0 else b''
    e = frame(g, ptype, 0, body)
    b = p.pack()
    g.check('packed as the specification prescribes', b == e)
    q = M5.unpackPacket(b, BIG)
    g.check('of the same type', type(q) is klass)
    check_header(g, q, ptype, False, 0, False, body)
    g.check('reason code', q.reasonCode.value == rc)
    if no_props(vals):
        g.check('no properties', q.properties.isEmpty())
    else:
        g.check('properties', props_kept(q.properties, vals, ptype))
    g.check('packs again into the same bytes', q.pack() == b)
