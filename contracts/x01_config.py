"""X01: configuration files.  Native and bounded: the lines of a file are taken apart by str.split, which the prover
does not model."""
import logging, signal, socket, ssl, sys, types
from pydv.spec import contract
from mqtt.brokers import start
from mqtt.formats.MQTTV5 import MQTTV5 as M5
from contracts.world import B5, NoThread

DEFAULTS = {'visual': False, 'persistence': False, 'topicAliasMaximum': 2, 'maximumPacketSize': 256, 'receiveMaximum': 2, 'serverKeepAlive': 60,
            'maximum_qos': 2, 'retain_available': True, 'subscription_identifier_available': True, 'shared_subscription_available': True}
NUMBERS = {'receive_maximum': ('receiveMaximum', [1, 2, 3, 5, 100, 65534, 65535]), 'topic_alias_maximum': ('topicAliasMaximum', [0, 1, 3, 10, 65535]),
           'maximum_packet_size': ('maximumPacketSize', [64, 100, 255, 1000, 268435455, 268435460]), 'message_size_limit': ('maximumPacketSize', [64, 100, 257, 5000]),
           'server_keep_alive': ('serverKeepAlive', [1, 5, 59, 61, 65535]), 'maximum_qos': ('maximum_qos', [0, 1, 2])}
FLAGS = ['retain_available', 'subscription_identifier_available', 'shared_subscription_available', 'visual', 'persistence']
FILES = ['cafile', 'certfile', 'keyfile']
NOISE = ['', '   ', '# comment', '  # listener 1999 x http', '#receive_maximum 7', '# persistence true', 'log_type error', '\t']


def a_setting(g, used):
    n = g.str('name', pool=sorted(NUMBERS) + FLAGS)
    if n not in NUMBERS and n not in FLAGS:
        n = 'receive_maximum'
    key = NUMBERS[n][0] if n in NUMBERS else n
    if key in used:
        return None
    used.add(key)
    if n in NUMBERS:
        x = g.pick('value', NUMBERS[n][1])
        return n, str(x), key, x
    x = g.bool('flag')
    return n, 'true' if x else 'false', key, x


def some_config(g):
    """(the lines of a file, the options it asks for, the listeners it asks for)"""
    lines, options, listeners, used = [], dict(DEFAULTS), [], set()

    def put(g, words):
        g_indent = g.pick('indent', ['', '', ' ', '\t', '  '])
        lines.append(g_indent + g.pick('space', [' ', '  ', '\t']).join(words) + g.pick('end', ['', ' ', '']) + g.pick('newline', ['\n', '\n', '\r\n']))

    def line(g):
        kind = g.pick('kind', ['setting', 'setting', 'setting', 'noise', 'listener', 'tls'])
        if kind == 'noise':
            lines.append(g.pick('text', NOISE) + '\n')
        elif kind == 'setting':
            s = a_setting(g, used)
            if s is not None:
                put(g, s[:2])
                options[s[2]] = s[3]
        elif kind == 'listener':
            l = {'port': g.int('port', 1, 65535), 'host': '', 'protocol': 'mqtt', 'tls': {}, 'require': True, 'sni': True}
            words = ['listener', str(l['port'])]
            if g.bool('address given'):
                l['host'] = g.pick('address', ['INADDR_ANY', '127.0.0.1', '::1', 'localhost', 'http'])
                words.append(l['host'])
                if g.bool('protocol given'):
                    l['protocol'] = g.pick('protocol', ['mqtt', 'mqttsn', 'http'])
                    words.append(l['protocol'])
            put(g, words)
            listeners.append(l)
        elif listeners:
            l = listeners[-1]
            n = g.pick('option', FILES + ['require_certificate', 'allow_non_sni_connections'])
            if n in FILES:
                l['tls'][n] = n + '.pem'
                put(g, [n, n + '.pem'])
            elif n not in l:
                l[n] = x = g.bool('flag')
                put(g, [n, 'true' if x else 'false'])
    g.list('lines', line, 0, 14)
    if lines and g.bool('no newline at the end'):
        lines[-1] = lines[-1].rstrip('\r\n')
    return lines, options, listeners


class Shared(dict):
    _p_changed = False


class Connection:
    def close(self):
        pass


class Server:
    def shutdown(self):
        pass


class Net:
    """stands in for the listeners and the database while start.run() runs"""

    def __init__(self, probe):
        self.made, self.persistent, self.probe = [], False, probe

    def create(self, protocol):
        def f(port, host='', serve_forever=False, **more):
            self.made.append((protocol, port, host, serve_forever, more))
            if serve_forever:
                self.probe(start)
            return Server()
        return f

    def setup(self, filename):
        self.persistent = True
        return Connection(), Shared()


class Wire:
    websockets = False

    def __init__(self):
        self.inbuf, self.got, self.closed = b'', [], False

    def send(self, data):
        self.got.append(M5.unpackPacket(bytes(data)))
        return len(data)

    def recv(self, n):
        b, self.inbuf = self.inbuf[:n], self.inbuf[n:]
        return b

    def settimeout(self, t):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def feed(self, broker, packet):
        self.inbuf = bytes(packet.pack())
        try:
            if broker.handleRequest(self):
                self.closed = True
        except Exception:
            self.closed = True


def run(lines, probe):
    """start.run() with stand-ins; -> what it created"""
    net = Net(probe)
    mods = {'mqtt': start.TCPListeners, 'mqttsn': start.UDPListeners, 'http': start.HTTPListeners}
    saved = [(m, m.create) for m in mods.values()]
    old, threads, tr = start.setup_persistence, B5.cleanupThreads, sys.modules.get('transaction')
    sig = signal.getsignal(signal.SIGTERM)
    try:
        for k, m in mods.items():
            m.create = net.create(k)
        start.setup_persistence, B5.cleanupThreads = net.setup, NoThread
        sys.modules['transaction'] = types.SimpleNamespace(commit=lambda: None)
        start.run(lines)
    finally:
        for m, f in saved:
            m.create = f
        start.setup_persistence, B5.cleanupThreads = old, threads
        if tr is None:
            del sys.modules['transaction']
        else:
            sys.modules['transaction'] = tr
        signal.signal(signal.SIGTERM, sig)
        logging.getLogger('MQTT broker').removeFilter(start.filter)
    return net


def asked(l):
    r = {'protocol': l['protocol'], 'port': l['port'], 'host': '' if l['host'] == 'INADDR_ANY' else l['host']}
    if l['protocol'] != 'mqttsn' and l['tls']:
        r.update({'tls': True, 'required': l.get('require_certificate', True), 'ca': l['tls'].get('cafile'), 'cert': l['tls'].get('certfile'),
                  'key': l['tls'].get('keyfile')})
        if l['protocol'] == 'mqtt':
            r['sni'] = not l.get('allow_non_sni_connections', True)
    return r


def created(m):
    protocol, port, host, forever, more = m
    r = {'protocol': protocol, 'port': port, 'host': '' if host == 'INADDR_ANY' else host}
    if more.get('TLS'):
        r.update({'tls': True, 'required': more.get('cert_reqs', ssl.CERT_REQUIRED) == ssl.CERT_REQUIRED, 'ca': more.get('ca_certs'), 'cert': more.get('certfile'),
                  'key': more.get('keyfile')})
        if protocol == 'mqtt':
            r['sni'] = not more.get('allow_non_sni_connections', True)
    return r


@contract('X01', ['mqtt.brokers.start.run', 'mqtt.brokers.start.process_config', 'mqtt.brokers.start.process_setting', 'mqtt.brokers.V5.MQTTBrokers.MQTTBrokers.connect'],
          concrete_only=True, search=2.0, bounded='random configuration files of at most 14 lines')
def settings_take_effect(g):
    lines, options, listeners = some_config(g)
    client = {'keepalive': g.pick('client keep-alive', [0, 1, 60, 100, 65535]), 'probe': g.pick('probe', ['receive maximum', 'alias', 'size'])}
    seen = {}

    def probe(start):
        b = start.TCPListeners.broker5
        seen['broker'], seen['options'] = b, dict(b.options)
        seen['broker3'], seen['3'] = start.TCPListeners.broker3, start.TCPListeners.broker3.__dict__
        c = M5.Connects()
        c.ClientIdentifier, c.CleanStart, c.KeepAliveTimer = 'A', True, client['keepalive']
        seen['wire'] = s = Wire()
        s.feed(b, c)
        if s.closed:
            return
        seen['probe'] = limits(g, client['probe'], b, s, options)
    if not lines and g.bool('no configuration file'):
        net = run(None, probe)
    else:
        net = run(lines, probe)
    expected = [asked(l) for l in listeners] or [{'protocol': 'mqtt', 'port': 1883, 'host': ''}]
    g.check('listeners', sorted(map(repr, map(created, net.made))) == sorted(map(repr, expected)), (net.made, expected))
    g.check('the last one keeps the broker running', [m[3] for m in net.made] == [False] * (len(net.made) - 1) + [True])
    g.check('persistence', net.persistent == options['persistence'])
    for k, x in options.items():
        if k in ('visual', 'maximum_qos', 'retain_available', 'subscription_identifier_available', 'shared_subscription_available'):
            g.check('option ' + k, seen['options'].get(k) == x, (k, seen['options'].get(k), x))
    s = seen['wire']
    ack = s.got[0]
    g.check('connected', ack.reasonCode.value == 0)
    p = ack.properties
    g.check('receive maximum', getattr(p, 'ReceiveMaximum', 65535) == options['receiveMaximum'])
    g.check('topic alias maximum', getattr(p, 'TopicAliasMaximum', 0) == options['topicAliasMaximum'])
    limit = options['maximumPacketSize']
    g.check('maximum packet size', getattr(p, 'MaximumPacketSize', 268435460) == min(limit, 268435460) or (limit >= 268435455 and not hasattr(p, 'MaximumPacketSize')))
    k = client['keepalive']
    alive = getattr(p, 'ServerKeepAlive', k)
    g.check('server keep-alive', k == 0 or alive == min(k, options['serverKeepAlive']))
    bad = seen['probe']
    g.check('limits in force', bad is None, bad)


def limits(g, what, b, s, options):
    """None, or what is wrong with the limits"""
    def message(i, topic='a', payload=b'x', alias=None):
        p = M5.Publishes()
        p.fh.QoS, p.topicName, p.packetIdentifier, p.data = 2 if i else 0, topic, i, payload
        if alias is not None:
            p.properties.TopicAlias = alias
        return p
    if what == 'receive maximum':
        n = options['receiveMaximum']
        if n > 5:
            return None
        for i in range(n):
            s.feed(b, message(i + 1))
        if s.closed:
            return 'closed within the receive maximum'
        s.feed(b, message(n + 1))
        return None if s.closed else 'the receive maximum was exceeded'
    if what == 'alias':
        n = options['topicAliasMaximum']
        for a in sorted({1, n}):
            if 1 <= a <= n:
                s.feed(b, message(0, alias=a))
                if s.closed:
                    return 'closed for an alias in range'
        if n < 65535:
            s.feed(b, message(0, alias=n + 1))
            return None if s.closed else 'an alias out of range was accepted'
        return None
    n = options['maximumPacketSize']
    if n > 6000:
        return None
    p = message(0)
    while len(p.pack()) < n:
        p.data += b'x' * max(1, min(50, n - len(p.pack()) - 3))
    if len(p.pack()) == n:
        s.feed(b, p)
        if s.closed:
            return 'closed for a packet of the maximum size'
    while len(p.pack()) <= n:
        p.data += b'x'
    s.feed(b, p)
    return None if s.closed else 'a packet over the maximum size was accepted'
