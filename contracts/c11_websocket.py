"""C11: WebSocket framing is transparent to MQTT bytes."""
from contracts.fakenet import StreamSocket, SinkSocket
from pydv.spec import contract
from mqtt.brokers.listeners import TCPListeners
from mqtt.brokers.listeners.TCPListeners import BufferedSockets

Q = 'mqtt.brokers.listeners.TCPListeners.BufferedSockets.'
FORMS = ['7 bits', '16 bits', '64 bits']


def frame_length(n, form):
    if form == '7 bits':
        return bytes([n])
    if form == '16 bits':
        return bytes([126, n // 256, n % 256])
    return bytes([127, n // 2 ** 56, n // 2 ** 48 % 256, n // 2 ** 40 % 256, n // 2 ** 32 % 256,
                  n // 2 ** 24 % 256, n // 65536 % 256, n // 256 % 256, n % 256])


def masked_length(n, form):
    b = frame_length(n, form)
    return bytes([b[0] + 128]) + b[1:]


def some_length(g, form, lo=0):
    """any length the form can express: its bytes, and the number"""
    if form == '7 bits':
        n = g.int('length', 0, 125)
        return bytes([n]), n
    k = 2 if form == '16 bits' else 8
    n = 0
    b = bytes([126 if k == 2 else 127])
    for i in range(k):
        d = g.int('length byte %d' % i, 0, 127 if k == 8 and i == 0 else 255, native=255 if i >= k - 2 else 1 if i == 5 else 0)
        n = n + d * 256 ** (k - 1 - i)
        b = b + bytes([d])
    g.assume(n >= lo)
    return b, n


@contract('C11', [Q + 'wsrecv', Q + 'readall'], cases=['%s, %d bytes' % (f, n) for f in FORMS for n in ((0, 1, 2, 3, 4, 5, 6, 9) if f == '7 bits' else (0, 5))],
          bounded='frames of up to 9 bytes of payload (the unmasking loop); any payload, mask and chunking', widen_after=0)
def one_frame_is_unmasked(g):
    form, n = g.case.split(',')[0], int(g.case.split()[-2])
    stream = g.bytes('mask, masked payload and following bytes', n + 4)
    head = bytes([g.pick('first byte', [0x82, 0x02, 0x80])]) + masked_length(n, form)
    before = g.bytes('received before')
    b = BufferedSockets(StreamSocket(g, head + stream))
    b.websockets = True
    b.buffer = before
    b.wsrecv()
    g.check('payload delivered', b.buffer == before + bytes([stream[4 + i] ^ stream[i % 4] for i in range(n)]))
    g.check('frame consumed', b.socket.pos == len(head) + 4 + n)


@contract('C11', [Q + 'wsrecv', Q + 'readall'], concrete_only=True, search=2,
          bounded='frames with payloads of up to 70000 bytes, drawn at random')
def any_frame_is_unmasked(g):
    """all payload sizes, in frames with the shortest form of the length"""
    payload = g.bytes('payload')
    n = len(payload)
    form = FORMS[0] if n < 126 else FORMS[1] if n < 65536 else FORMS[2]
    mask = g.bytes('mask', 4, 4)
    sent = bytes([payload[i] ^ mask[i % 4] for i in range(n)])
    frame = b'\x82' + masked_length(n, form) + mask + sent
    before = g.bytes('received before')
    b = BufferedSockets(StreamSocket(g, frame + g.bytes('rest')))
    b.websockets = True
    b.buffer = before
    b.wsrecv()
    g.check('payload delivered', b.buffer == before + payload)
    g.check('frame consumed', b.socket.pos == len(frame))


@contract('C11', [Q + 'wsrecv', Q + 'readall'], cases=FORMS, widen_after=0)
def frame_cut_short_delivers_nothing(g):
    """the stream ends inside a frame, of any size"""
    length, n = some_length(g, g.case)
    head = b'\x82' + bytes([length[0] + 128]) + length[1:] + g.bytes('mask', 4, 4)
    if g.pick('ends in the', ['header', 'payload']) == 'header':
        k = g.int('header bytes', 0, 13)
        g.assume(k < len(head))
        s = StreamSocket(g, head[:k])
    else:
        g.assume(n > 0)
        s = StreamSocket(g, head + g.bytes('payload', 0, n - 1))
    before = g.bytes('received before')
    b = BufferedSockets(s)
    b.websockets = True
    b.buffer = before
    r, e = g.catch(b.wsrecv)
    g.check('ends with an error', e is not None)
    g.check('nothing delivered', b.buffer == before)


class FramedSockets(BufferedSockets):
    """wsrecv replaced by its contract: some more bytes of the payload stream are added to the buffer"""

    def wsrecv(self):
        self.buffer = self.buffer + self.socket.recv(1000000000)


@contract('C11', [Q + 'recv'], widen_after=0)
def bytes_are_read_in_order_from_frames(g):
    """reading n bytes gives the next n bytes of the payload stream, however they were framed"""
    before = g.bytes('buffered')
    data = g.bytes('payload stream')
    n = g.int('wanted', 1, 268435455)
    g.assume(n <= len(before) + len(data))
    b = FramedSockets(StreamSocket(g, data))
    b.websockets = True
    b.buffer = before
    out = b.recv(n)
    g.check('next n bytes', out == (before + data)[:n])
    g.check('rest kept in order', b.buffer + data[b.socket.pos:] == (before + data)[n:])


@contract('C11', [Q + 'recv', Q + 'rebuffer'])
def bytes_are_read_in_order_without_frames(g):
    """a connection without WebSockets: the bytes put back come first, nothing is lost or repeated"""
    put = g.bytes('put back')
    before = g.bytes('buffered')
    data = g.bytes('stream')
    n = g.int('wanted', 1, 268435455)
    g.assume(len(data) > 0)
    b = BufferedSockets(StreamSocket(g, data))
    b.buffer = before
    b.rebuffer(put)
    out = b.recv(n)
    g.check('at most n bytes', 0 < len(out) <= n)
    g.check('the next bytes', out == (put + before + data)[:len(out)])
    g.check('rest kept in order', b.buffer + data[b.socket.pos:] == (put + before + data)[len(out):])


@contract('C11', [Q + 'send'], cases=['no WebSockets'] + FORMS, widen_after=0)
def sent_bytes_are_framed(g):
    if g.case == 'no WebSockets':
        data = g.bytes('data', 1)
        expected = data
    else:
        length, n = some_length(g, g.case, {'7 bits': 0, '16 bits': 126, '64 bits': 65536}[g.case])
        data = g.bytes('data', n, n)
        expected = b'\x82' + length + data
    s = SinkSocket(g, expected, whole=g.case == '64 bits')     # partial sends: the other cases
    b = BufferedSockets(s)
    b.websockets = g.case != 'no WebSockets'
    r, e = g.catch(b.send, data)
    g.check('no error', e is None)
    g.check('everything sent', s.n == len(expected))
    g.check('in order and once', s.ok)


class Net:
    """stands in for the module select and the server of the listener"""
    terminate = False

    def __init__(self, sock):
        self.sock = sock
        self.idle = 0

    def select(self, r, w, x, timeout=None):
        if len(self.sock.data) > self.sock.pos:
            return (r, [], [])
        self.idle += 1
        if self.idle > 1:
            self.terminate = True
        return ([], [], [])


class Request(StreamSocket):
    out = b''

    def fileno(self):
        return 1

    def send(self, data):
        self.out += bytes(data)
        return len(data)

    def shutdown(self, how):
        pass

    def close(self):
        pass


class PacketLog:
    """stands in for a broker: reads packets as the brokers do, and records them"""

    def __init__(self, fmt):
        self.fmt, self.got = fmt, []

    def keepalive(self, sock):
        pass

    def handleRequest(self, sock):
        p = self.fmt.getPacket(sock)
        if p is None:
            return True
        self.got.append(bytes(p))
        return False


@contract('C11', ['mqtt.brokers.listeners.TCPListeners.WebSocketTCPHandler.handle', Q + 'wsrecv', Q + 'recv'],
          cases=['WebSockets', 'TCP'], concrete_only=True, search=2,
          bounded='up to 6 packets in up to 12 frames, drawn at random')
def every_packet_reaches_the_broker(g):
    """packets cut into frames in any way reach the broker of the connection's protocol version, all and in order"""
    from mqtt.formats.MQTTV5 import MQTTV5
    from mqtt.formats.MQTTV311 import MQTTV311
    from contracts.lib import utf8, vbi_bytes
    version = g.pick('version', [4, 5])
    body = utf8('MQTT') + bytes([version, 2, 0, 60]) + (b'\0' if version == 5 else b'') + utf8('client')
    packets = [b'\x10' + vbi_bytes(len(body)) + body]
    for i in range(g.int('more packets', 0, 5)):
        x = g.bytes('packet %d' % i)
        packets.append(bytes([0x30]) + vbi_bytes(len(x)) + x)
    stream = b''.join(packets)
    data = stream
    if g.case == 'WebSockets':
        hello = b'GET /mqtt HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n'
        data = b''
        at = 0
        for i in range(12):
            left = len(stream) - at
            k = left if i == 11 else g.int('frame %d' % i, 0, left)
            mask = g.bytes('mask %d' % i, 4, 4)
            form = FORMS[0] if k < 126 else FORMS[1] if k < 65536 else FORMS[2]
            data += b'\x82' + masked_length(k, form) + mask + bytes([stream[at + j] ^ mask[j % 4] for j in range(k)])
            at += k
    sock = Request(g, data)
    if g.case == 'WebSockets':
        whole = sock.recv

        def first(n):
            sock.recv = second
            return hello[:1]

        def second(n):
            sock.recv = whole
            return hello[1:]
        sock.recv = first
    net = Net(sock)
    logs = PacketLog(MQTTV311), PacketLog(MQTTV5)
    T = TCPListeners
    old = [getattr(T, k, None) for k in ('server', 'select', 'broker3', 'broker5')]
    T.server, T.select, T.broker3, T.broker5 = net, net, logs[0], logs[1]
    try:
        h = T.WebSocketTCPHandler.__new__(T.WebSocketTCPHandler)
        h.request = sock
        h.handle()
    finally:
        T.server, T.select, T.broker3, T.broker5 = old
    g.check('all packets, in order', logs[version == 5].got == packets)
    g.check('the other broker gets nothing', logs[version != 5].got == [])
    if g.case == 'WebSockets':
        g.check('handshake answered', b's3pPLMBiTxaQ9kYGzzhZRbK+xOo=' in sock.out and sock.out.startswith(b'HTTP/1.1 101'))
