"""writes MANIFEST.json (the claims are edited here)"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the Python functions in /repo (pydv: symbolic execution of their AST, loop summaries, z3/cvc5), counter-models replayed natively'
TRUST = ' Trusted: pydv itself, its models of Python built-ins, z3, the specification functions in /verif/contracts.'
TB = 'run-time checked contracts on the real functions of /repo (pydv, bounded part): postconditions checked natively over enumerated and random inputs'
BOUNDED = 'Bounded, nothing here is counted as proved: '
HIST = 'random histories of up to 30 steps of up to 4 clients through handleRequest, judged step by step against a specification model of the broker.'
CLAIMS = {
    'C01': ('proof', 'Unbounded: every integer and every byte string handed to the decoder (MQTT 5 and 3.1.1).'),
    'C02': ('proof', 'Unbounded: all field values of all 15 packet types, any number of filters, reason codes and properties, any payload length; property sets enter the packet contracts through the C03 contracts.'),
    'C03': ('proof', 'Unbounded: every property set of every packet type, any number of repeats and any total size.'),
    'C04': ('proof', 'Unbounded over values and packet types; every property and packet-type pair.'),
    'C05': ('proof', 'Unbounded for strings, binary data, single properties, fixed header and the packets without a list payload, relative to a property-section contract. Bounded (labelled in the evidence, not counted as proved): property sections of at most 1 property (2 in thorough for two types), payload lists of at most 2 entries, random near-well-formed packets. Bytes after the declared end of a packet are outside the property.'),
    'C06': ('proof', 'Unbounded: every byte value, name and packet type, against the table of the standard.'),
    'C07': ('proof', 'Unbounded: all field values of all 14 packet types, any number of filters and codes, any payload length.'),
    'C08': ('proof', 'Unbounded for strings, binary data, the fixed header, truncated packets and the packets without a list payload. Bounded (labelled, not counted as proved): payload lists of at most 3 entries, random near-well-formed packets. Not judged: bytes after the declared end, empty payload lists of UNSUBSCRIBE and SUBACK, over-long remaining-length encodings, identifier 0 in acknowledgements.'),
    'C09': ('proof', 'Unbounded: all field values of the three supported message types with encoded size up to 255 bytes.'),
    'C10': ('proof', 'Unbounded over packet contents and lengths (one to four length bytes), chunkings and the position where the stream ends or fails; MQTT 5 and 3.1.1.'),
    'C11': ('proof', 'Unbounded over frame sizes, masks, payloads and chunkings, except the unmasking loop, decided for payloads of at most 9 bytes and by random larger ones (bounded, labelled); the hand-over of packets to the broker by handle() is decided by random histories (bounded, labelled).'),
    'T01': ('model_checking', BOUNDED + 'every name of at most 6 characters over an alphabet with all wildcards, every name of at most 4 levels out of 11, lengths around 65,535, random longer names.', TB),
    'T02': ('model_checking', BOUNDED + 'every filter and topic of at most 4 characters over two alphabets, every pair of at most 4 levels out of 4, fixed lists, random pairs of at most 8 levels.', TB),
    'S01': ('proof', 'Unbounded: subscription tables of any size holding any entries that satisfy the table invariant, any client, any filters; the invariant is assumed and re-established by each operation, so it holds after any history.'),
    'S02': ('proof', 'Unbounded: subscription tables of any size, any filters in one packet.'),
    'S03': ('proof', 'Unbounded: retained stores of any size, any message.'),
    'L03': ('proof', 'Unbounded: every packet, every sequence of partial sends, both clients.'),
    'T03': ('proof', 'Unbounded: the lookup of subscriptions and of retained topics in tables of any size (MQTT 5, and getSubscriptions of MQTT 3.1.1), relative to T02. Bounded (labelled, not counted as proved): subscribers() of MQTT 3.1.1 with at most 3 subscriptions of each kind; publish and subscribe of the brokers for every pair out of 46 filters and 21 topics.'),
    'L01': ('proof', 'Unbounded: any message of the broker, any acknowledgement, any messages in flight in both directions; a callback that accepts the message. Assumed, proved by C02, C07 and C10: getPacket and unpackPacket give the packet that was sent.'),
    'L02': ('proof', 'Unbounded: any set of identifiers in flight, any last identifier, MQTT 5 and 3.1.1; the search loop by an inferred invariant (partial correctness; termination by bounded runs).'),
    'M01': ('proof', 'Unbounded: first transmission of any message with any outstanding set (identifier free, non-zero, recorded once), arrival of messages, acknowledgements. Bounded (labelled, not counted as proved): the resend on reconnect with at most 2 messages in flight, release of at most 2 waiting messages, ' + HIST),
    'M02': ('proof', 'Unbounded: a message is transmitted only below the receive maximum and is queued at the end otherwise, acknowledgements free exactly one place. Bounded (labelled, not counted as proved): resend with at most 2 in flight, release of at most 2 waiting messages, ' + HIST),
    'M03': ('proof', 'Unbounded: the effect of PUBACK, PUBREC and PUBCOMP for any outstanding set and identifier. Bounded (labelled, not counted as proved): resend with at most 2 in flight, ' + HIST),
}
SYMB = 'symbolic execution of the handlers for scenarios of fixed shape (at most three clients, three subscriptions each, four messages) with every identifier, QoS, option, time, interval and payload left open, discharged by z3 but bounded in shape; '
TS = 'contracts on the real handlers of /repo, discharged by symbolic execution and z3 for scenarios of fixed shape (pydv, bounded part), and checked natively over random histories'
for i in ('R01', 'R02', 'R03', 'R04', 'R05', 'M05', 'N01', 'N02', 'N03', 'N04', 'N05', 'N06', 'N07', 'N08'):
    CLAIMS.setdefault(i, ('exploration', BOUNDED + SYMB + HIST, TS))
CLAIMS['M04'] = ('proof', 'Unbounded: PUBLISH and PUBREL for any set of pending identifiers, delivery on publish and on release, both protocol versions, each step with the same effect on every identifier, so it holds after any history. Bounded (labelled, not counted as proved): pending messages across reconnection, ' + HIST)
CLAIMS['X01'] = ('exploration', BOUNDED + 'random configuration files of at most 14 lines through start.run() with recording listeners, and enforcement probes on the broker that results.', TB)
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            level, note = CLAIMS[i][:2]
            checks.append({'property': i, 'quick_cmd': 'python3-vt -m pydv.check %s quick' % i,
                           'thorough_cmd': 'python3-vt -m pydv.check %s thorough' % i,
                           'technique': CLAIMS[i][2] if len(CLAIMS[i]) > 2 else T, 'level': level, 'level_note': note + TRUST})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no contract has been built for it yet')})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na,
         'notes': 'no hooks in /repo; see DESIGN.md'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')


main()
