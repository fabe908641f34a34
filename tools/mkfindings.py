"""writes known_findings.json (edited here)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C06', 'dd8f578', 'reason code 0x99 (Payload format invalid) was refused in CONNACK'),
    ('C02', '0ea50d0', 'writeUTF (MQTT 5) wrote the number of characters, not of bytes'),
    ('C05', 'd0b119c', 'readUTF and readBytes accepted a length running past the end of the buffer'),
    ('C03', '8536f0b', 'Properties.unpack reported a wrong length for sections longer than 127 bytes'),
    ('C05', 'e7c202a', 'a property running past the declared property length was accepted'),
    ('C02', 'a70bc21', 'CONNECT user name and password flags were exchanged (MQTT 5)'),
    ('C02', 'c776a75', 'zero length user name or password was lost or refused (MQTT 5)'),
    ('C02', '3e6b8ba', 'acknowledgements with properties did not survive unpacking; trailing bytes were accepted'),
    ('C02', 'd627c35', 'SUBACK and UNSUBACK refused most defined reason codes'),
    ('C05', 'cca4a69', 'reserved bits of the subscription options were ignored'),
    ('C05', '46a1083', 'UNSUBSCRIBE without a topic filter was accepted'),
    ('C05', '1e89c5e', 'CONNACK with bytes left over was accepted'),
    ('C04', '9c17aab', 'a SUBSCRIBE with two subscription identifiers was accepted'),
    ('C07', 'b227ede', 'MQTT 3.1.1 string lengths counted characters'),
    ('C07', '1ce64bf', 'CONNECT user name and password flags were exchanged (MQTT 3.1.1)'),
    ('C07', 'ec6195d', 'zero length user name or password was lost or refused (MQTT 3.1.1)'),
    ('C07', '0bf4426', 'constructors with Retain=True raised instead of setting the retain bit'),
    ('C08', '1124eb8', 'readBytes (MQTT 3.1.1) accepted a length running past the end'),
    ('C08', 'c1ef970', 'UNSUBACK with bytes left over was accepted (MQTT 3.1.1)'),
    ('C09', 'a4ac446', 'MQTT-SN CONNECT length counted characters'),
    ('C09', 'ed470c0', 'MQTT-SN PUBLISH length was wrong'),
    ('L03', '0f2dd0d', 'after a partial send the clients sent the whole packet again'),
    ('C11', '636d60e', 'a mask or payload arriving in pieces was read short; an end of stream inside a frame looped for ever'),
    ('C11', '193ff49', 'the second of two packets in one frame waited for more data from the network'),
    ('C11', 'fe9f84d', 'an end of stream inside the first bytes of a connection looped for ever'),
    ('S02', '5e9a324', 'MQTT 3.1.1 UNSUBSCRIBE stopped at the first filter that had a subscription'),
    ('S02', '12bacae', 'unsubscribing from a single filter (not a list) raised NameError'),
    ('T02', '522a054', 'wildcards did not match topic names with a newline, and a filter matched a name with an extra final newline'),
    ('T02', '2aba3b5', 'a filter such as $share or $shared made every publish raise'),
    ('R04', '1427464', 'a shared subscription and the ordinary subscriptions of its holder hid each other'),
    ('R03', '4f90e10', 'options of a no-local subscription were applied to a message it did not deliver'),
    ('R05', '385d805', 'subscription identifiers of one subscriber were sent to others'),
    ('M02', 'e1d4719', 'a queued message was recorded as outstanding twice when it was sent'),
    ('M01', 'a7de900', 'MQTT 5 packet identifiers of unacknowledged messages were reused after wrapping'),
    ('M01', '15f6b44', 'MQTT 3.1.1 message ids of unacknowledged messages were reused after wrapping'),
    ('R01', '43e6ce3', 'QoS 0 messages waited for acknowledgements of others'),
    ('N03', 'c399bc3', 'a protocol error with an undefined reason code left the client connected'),
    ('M04', '6797db9', 'repeating an unreleased QoS 2 message exceeded the receive maximum'),
    ('N08', 'b6880dd', 'a connection refused before its CONNECT stayed open'),
    ('N04', 'e0d2477', 'a connection ended by a malformed packet stayed in the tables and its will was not published'),
    ('N04', '41e67aa', 'a second CONNECT ended the connection without publishing the will'),
    ('N04', 'a7a9c41', 'the will was not published for a DISCONNECT with a reason code other than normal'),
    ('N04', '75698c1', 'the will delay exceeded the session expiry given in DISCONNECT'),
    ('N04', 'b13df94', 'delayed wills were published without the lock of the broker'),
    ('M05', 'dd36991', 'acknowledgements over 500 bytes were dropped whatever the client announced'),
    ('N07', '691fe7c', 'the expiry interval of a stored message was reduced again at every delivery'),
    ('N06', '1fbb4d1', 'outgoing topic aliases were assigned when a message was queued, also for later connections'),
    ('M02', 'b55662b', 'a message discarded for its size stayed outstanding for ever'),
    ('M02', '2c628cb', 'resent messages exceeded the receive maximum of the new connection'),
    ('N06', '2bb8085', 'an incoming alias took effect only when the QoS 2 message was released'),
    ('M05', 'b3f38be', 'MQTT 3.1.1 subscriptions to the QoS limited test topics were refused'),
    ('M04', 'fe1bc81', 'MQTT 3.1.1 QoS 2 publish named its client by its socket'),
    ('N08', '8b0559e', 'an assigned MQTT 3.1.1 client identifier was a uuid object'),
    ('X01', 'd1c8a68', 'server_keep_alive had no effect'),
    ('N02', '4be7216', 'a will could be sent on the connection it is the will of'),
    ('R01', '378a2bf', 'a QoS 0 message kept for an MQTT 3.1.1 client was sent again after every reconnect'),
    ('M02', 'a502991', 'a message that can not be sent again (expired or too big) stayed outstanding for ever'),
    ('L02', 'e5d0a32', 'identifier 65535 was never used and the search for a free one never ended when all were in flight'),
    ('L01', 'd05de59', 'a PUBREL of an unknown identifier was not answered by PUBCOMP'),
    ('L01', 'df7a8f3', 'a MQTT 5 PUBREC with an error code was answered by PUBREL'),
    ('L01', '702e68a', 'the default Callback classes did not accept the arguments they are called with'),
    ('L03', '23d2136', 'an acknowledgement was cut short when the socket accepted only part of it'),
    ('X01', '14e73bd', 'settings after a listener had no effect'),
    ('T03', 'a8aaf8a', 'a message published to a topic starting with $share/ was delivered to wildcard filters'),
    ('X01', 'd7d09ba', 'a configuration without a listener crashed'),
    ('X01', '44968b6', 'a http listener with TLS could not be started'),
]
# property, contract, regular expression on the failing check, what fails
KNOWN = []


def main():
    out = [{'status': 'fixed', 'property': p, 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIXED]
    out += [{'status': 'known', 'property': p, 'contract': c, 'check': k, 'what': w} for p, c, k, w in KNOWN]
    json.dump({'findings': out}, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)


main()
