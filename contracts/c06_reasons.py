from pydv.spec import contract
from contracts import spec5 as S
from mqtt.formats.MQTTV5 import MQTTV5 as M5

RC = 'mqtt.formats.MQTTV5.MQTTV5.ReasonCodes.'
PT = [S.CONNACK, S.PUBACK, S.PUBREC, S.PUBREL, S.PUBCOMP, S.SUBACK, S.UNSUBACK, S.DISCONNECT, S.AUTH]
DEFAULT = {S.SUBACK: 'Granted QoS 0', S.DISCONNECT: 'Normal disconnection'}
ALLNAMES = [n for v in S.REASONS for (n, p) in S.REASONS[v]]
NEAR_NAMES = [f(n) for n in sorted(set(ALLNAMES)) for f in (lambda n: n + ' ', lambda n: ' ' + n, str.lower, str.upper, str.title, lambda n: n[:-1],
                                                            lambda n: n + '.', lambda n: n.replace(' ', '_'), lambda n: n.replace(' ', ''))]


def default_name(pt):
    return DEFAULT.get(pt, 'Success')


@contract('C06', [RC + '__init__', RC + 'getName', RC + '__getName__'], cases=PT, merge=False)
def reason_value_accepted_exactly_when_defined(g):
    pt = g.case
    v = g.int('value', 0, 255)
    rc, e = g.catch(M5.ReasonCodes, pt, 'Success', v)
    g.check('a code constructed by value is accepted exactly when MQTT 5 defines it for the packet',
            (e is None) == (v in S.codes_for(pt)))
    if e is None:
        g.check('value kept', rc.value == v)
        g.check('name corresponds to value', rc.getName() == S.code_name(pt, v))
        g.check('packed as one byte', rc.pack() == bytes([v]))
        g.cover('accepted')
    else:
        g.cover('rejected')


@contract('C06', [RC + 'unpack', RC + 'getId'], cases=PT)
def reason_byte_received_accepted_exactly_when_defined(g):
    pt = g.case
    rc = M5.ReasonCodes(pt, default_name(pt))
    v = g.int('value', 0, 255)
    rest = g.bytes('rest', small=True)
    r, e = g.catch(rc.unpack, bytes([v]) + rest)
    g.check('a received code is accepted exactly when MQTT 5 defines it for the packet', (e is None) == (v in S.codes_for(pt)))
    if e is None:
        g.check('one byte used', r == 1)
        g.check('value of the byte', rc.value == v)
        g.check('name corresponds to value', rc.getName() == S.code_name(pt, v))
        g.cover('accepted')
    else:
        g.cover('rejected')


@contract('C06', [RC + 'set', RC + 'getId'], cases=PT)
def reason_set_by_name(g):
    pt = g.case
    n = g.pick('name', ALLNAMES)
    rc = M5.ReasonCodes(pt, default_name(pt))
    r, e = g.catch(rc.set, n)
    allowed = [v for v in S.codes_for(pt) if S.code_name(pt, v) == n]
    g.check('a name is accepted exactly when MQTT 5 defines it for the packet', (e is None) == (len(allowed) == 1))
    if e is None:
        g.check('value of the name', rc.value == allowed[0])
        g.check('packed', rc.pack() == bytes(allowed))
        g.check('name corresponds', rc.getName() == n)
    rc2, e2 = g.catch(M5.ReasonCodes, pt, n)
    g.check('constructor accepts the same names', (e2 is None) == (len(allowed) == 1))
    if e2 is None:
        g.check('constructor value', rc2.value == allowed[0])


@contract('C06', [RC + 'set'], cases=PT)
def reason_unknown_name_refused(g):
    pt = g.case
    n = g.str('name', pool=NEAR_NAMES)
    g.assume(n not in ALLNAMES)
    rc = M5.ReasonCodes(pt, default_name(pt))
    r, e = g.catch(rc.set, n)
    g.check('unknown names are refused', e is not None)
    g.check('and change nothing', rc.getName() == default_name(pt))
