"""writes properties.jsonl (the list is edited here)"""
import json, os
F5 = 'interoperability/mqtt/formats/MQTTV5/MQTTV5.py'
F3 = 'interoperability/mqtt/formats/MQTTV311/MQTTV311.py'
FSN = 'interoperability/mqtt/formats/MQTTSN/MQTTSN.py'
B5 = 'interoperability/mqtt/brokers/V5/'
B3 = 'interoperability/mqtt/brokers/V311/'
LT = 'interoperability/mqtt/brokers/listeners/TCPListeners.py'
C5 = 'interoperability/mqtt/clients/V5/'
C3 = 'interoperability/mqtt/clients/V311/'
ST = 'interoperability/mqtt/brokers/start.py'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    mech = [{'name': n, 'where': w} for n, w in mech]
    a = {'files': files, 'mechanism': mech, 'observe_at': list(observe), 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Variable byte integers encode and decode exactly',
  'Every remaining length or variable byte integer from 0 to 268,435,455 is encoded in the fewest possible bytes (one to four), and decoding those bytes, whatever follows them, returns the same value and the number of bytes used. A value outside that range is never encoded, and MQTT 5 decoding never accepts an encoding that is longer than necessary or longer than four bytes.',
  ['inputs'], 'all integers, and all byte strings of any length handed to the decoder',
  'The tests send packets of a few hundred bytes; the length boundaries 127/128, 16383/16384, 2097151/2097152 and 268435455 are reached by no test.',
  [F5, F3], [('VBIs.encode/decode', F5), ('FixedHeaders.encode/decode', F3)], observe=['encoded bytes', 'decoded value and length'])
p('C02', 'MQTT 5 packets survive packing and unpacking',
  'Any legal MQTT 5 control packet of any of the fifteen types, with any identifiers, flags, strings, payloads, reason codes and property sets the protocol allows, unpacks from its packed form into a packet with the same content, and packing that packet again gives the same bytes. Strings are carried as UTF-8 with their length counted in bytes, and the user name and password flags sit where the protocol puts them.',
  ['inputs'], 'all field values of all packet types, any number of topic filters, reason codes and user properties, payloads of any length',
  'Tests exercise a few ASCII packets with few properties; field interactions, multi-byte strings and large property blocks are unbounded input spaces.',
  [F5], [('pack/unpack of each packet class', F5), ('writeUTF/readUTF/writeInt16/readInt16', F5), ('unpackPacket', F5)], observe=['packed bytes', 'fields after unpacking'])
p('C03', 'MQTT 5 property sets survive packing and unpacking',
  'Any set of MQTT 5 properties that is legal for a packet, of any total size, unpacks from its packed form into the same names and values, with repeated properties in the order they were given, and unpacking reports exactly the number of bytes the set occupied.',
  ['inputs'], 'every property, every value of its type, every combination and any number of repeats, for every packet type',
  'Property blocks longer than 127 bytes and most properties never occur in the tests.',
  [F5], [('Properties.pack/unpack/writeProperty/readProperty', F5)], observe=['packed bytes', 'property values and consumed length'])
p('C04', 'Properties are only accepted where MQTT 5 allows them',
  'A property is accepted for a packet type, whether set by a program or received from the network, exactly when MQTT 5 lists it for that packet type (or for a will message). A received property that may appear once and appears twice is an error, while user properties, and subscription identifiers in PUBLISH, may repeat.',
  ['inputs'], 'all 27 properties times all packet types plus will, and all byte values as property identifiers',
  'Tests use a small part of the 27 x 16 table and no duplicates.',
  [F5], [('Properties tables, __setattr__, unpack', F5)], observe=['acceptance or exception'])
p('C05', 'Malformed MQTT 5 packets are rejected',
  'No byte string that is not a well-formed MQTT 5 packet is turned into a packet: unpacking raises an error instead when reserved bits are wrong, a QoS or a packet identifier is illegal, a string is not legal UTF-8 or contains a NUL, a length runs past the end or leaves bytes over, a property is unknown, repeated or not allowed, a reason code is not defined for the packet, or the packet exceeds the agreed maximum size. Whatever the bytes, unpacking terminates with a packet or an exception.',
  ['inputs'], 'all byte strings',
  'Only a handful of malformed packets are sent by the tests.',
  [F5], [('unpackPacket and the unpack methods', F5), ('FixedHeaders.unpack', F5)], observe=['exception or packet'])
p('C06', 'Reason codes match the MQTT 5 table',
  'For every packet type, the reason codes accepted by value are exactly those MQTT 5 defines for it, a code set by name yields the value MQTT 5 assigns to that name for that packet type, and name and value always correspond. Unknown names and values are refused.',
  ['inputs'], 'all values 0 to 255, all names, all packet types',
  'Tests see fewer than ten reason codes.',
  [F5], [('ReasonCodes', F5)], observe=['accepted codes, names and values'])
p('C07', 'MQTT 3.1.1 packets survive packing and unpacking',
  'Any legal MQTT 3.1.1 control packet of any of the fourteen types unpacks from its packed form into a packet with the same content, and packing that packet again gives the same bytes. Strings are carried as UTF-8 with their length counted in bytes, and flags sit where the protocol puts them.',
  ['inputs'], 'all field values of all packet types, any number of filters, payloads of any length',
  'Tests use short ASCII packets.',
  [F3], [('pack/unpack of each packet class', F3), ('writeUTF/readUTF', F3)], observe=['packed bytes', 'fields after unpacking'])
p('C08', 'Malformed MQTT 3.1.1 packets are rejected',
  'Unpacking an MQTT 3.1.1 packet raises an error when its reserved header bits are wrong, its QoS is 3, a packet identifier that must be non-zero is zero, a string contains a NUL or is not valid UTF-8, or its declared length is more than the bytes present or does not fit its contents. Whatever the bytes, unpacking terminates with a packet or an exception.',
  ['inputs'], 'all byte strings',
  'Only a handful of malformed packets are sent by the tests.',
  [F3], [('unpackPacket and the unpack methods', F3)], observe=['exception or packet'])
p('C09', 'MQTT-SN packets survive packing and unpacking',
  'Any MQTT-SN message of a supported type whose encoded size fits in 255 bytes unpacks from its packed form into a message with the same content, and packing it again gives the same bytes.',
  ['inputs'], 'all field values of the supported message types',
  'No baseline test touches the MQTT-SN codec.',
  [FSN], [('pack/unpack of each packet class', FSN)], observe=['packed bytes', 'fields after unpacking'])
p('C10', 'Packets are framed exactly on the byte stream',
  'However the network splits or joins the bytes, reading a packet from a connection returns exactly the bytes of the next packet - header, remaining length and that many bytes - and leaves the following bytes for the next read. When the stream ends or fails inside a packet no partial packet is returned.',
  ['inputs', 'schedules'], 'all packet contents, all ways of chunking the stream, an end of stream at every position, both protocol versions',
  'Loopback TCP almost always delivers small packets whole, so the tests see one chunking.',
  [F5, F3], [('getPacket/readall', F5), ('getPacket/readall', F3)], observe=['bytes returned', 'bytes consumed'])
p('C11', 'WebSocket framing is transparent to MQTT bytes',
  'Bytes sent by a WebSocket client in any sequence of masked binary frames, of any sizes and in any chunking, are delivered unmasked and in order as one byte stream. Bytes the server sends go out in frames whose declared length is the payload length, for every payload size.',
  ['inputs', 'schedules'], 'all payloads, masks, frame sizes (the 125/126/65535/65536 boundaries) and chunkings',
  'No baseline test uses WebSockets.',
  [LT], [('BufferedSockets.wsrecv/recv/send/rebuffer', LT)], observe=['bytes delivered', 'frames sent'])
p('T01', 'Topic filters are accepted exactly when valid',
  'A topic name or filter is accepted exactly when it is 1 to 65,535 characters long, every single-level wildcard fills a whole level, and a multi-level wildcard fills the last level.',
  ['inputs'], 'all strings',
  'Tests use about ten filters.',
  [B5 + 'Topics.py', B3 + 'Topics.py'], [('isValidTopicName', B5 + 'Topics.py'), ('isValidTopicName', B3 + 'Topics.py')], observe=['acceptance'])
p('T02', 'Topic matching follows the level rules',
  'A filter matches a topic name exactly when they agree level by level: a single-level wildcard stands for any one non-empty level, a multi-level wildcard for any number of remaining levels including none, and every other level must be identical character for character, whatever characters it contains. A shared filter matches what its filter part matches.',
  ['inputs'], 'all valid filters and topic names, including characters special to regular expressions and newlines',
  'Tests use about ten filters over a few plain topics.',
  [B5 + 'Topics.py', B3 + 'Topics.py'], [('topicMatches', B5 + 'Topics.py'), ('topicMatches', B3 + 'Topics.py')], observe=['match result'])
p('T03', 'Wildcards never reach $-topics',
  'A subscription whose filter (for a shared subscription, the part after the share name) does not start with $ never receives a message published to a topic that starts with $, neither when it is published nor from the retained store, and a subscription to a filter starting with $ never receives messages of other topics.',
  ['inputs', 'histories'], 'all filters, topics and subscription tables',
  'One test covers one $ topic.',
  [B5 + 'SubscriptionEngines.py', B3 + 'SubscriptionEngines.py'], [('isDollarTopic and the split tables', B5 + 'SubscriptionEngines.py'), ('subscribers/getSubscriptions', B3 + 'SubscriptionEngines.py')], observe=['delivered messages'])
p('S01', 'One subscription per client and filter; the newest wins',
  'After any history of subscribe operations there is at most one subscription for a client and filter, it carries the options of the last subscribe for that pair, and subscribing changes no other subscription.',
  ['histories', 'inputs'], 'all histories, any number of clients and filters',
  'Tests subscribe a few filters once.',
  [B5 + 'SubscriptionEngines.py', B3 + 'SubscriptionEngines.py'], [('subscribe', B5 + 'SubscriptionEngines.py'), ('resubscribe', B5 + 'Subscriptions.py')], [('subscriptions', 'subscription table', B5 + 'SubscriptionEngines.py')], ['subscription table', 'deliveries'])
p('S02', 'Unsubscribing and session clean-up remove exactly their targets',
  'Unsubscribing removes the named filters of that client and nothing else, reports for each filter, in order, whether a subscription existed, and processes every filter in the packet. Discarding a session removes all subscriptions of that client, ordinary and $, and none of another client.',
  ['histories', 'inputs'], 'all subscription tables, any number of clients, filters and filters per packet',
  'Tests unsubscribe one or two filters.',
  [B5 + 'SubscriptionEngines.py', B3 + 'SubscriptionEngines.py'], [('unsubscribe/clearSubscriptions', B5 + 'SubscriptionEngines.py')], [('subscriptions', 'subscription table', B5 + 'SubscriptionEngines.py')], ['subscription table', 'UNSUBACK codes'])
p('S03', 'The retained store keeps the last non-empty message per topic',
  'For every topic the retained message is the last one published to it with the retain flag and a non-empty payload, with its QoS and properties, unless an empty one was published later, and storing or deleting it changes no other topic. Session clean-up never removes a retained message.',
  ['histories', 'inputs'], 'all histories of publishes, any number of topics',
  'Tests retain three topics.',
  [B5 + 'SubscriptionEngines.py', B3 + 'SubscriptionEngines.py', B5 + 'Brokers.py'], [('setRetained/getRetained/getRetainedTopics', B5 + 'SubscriptionEngines.py'), ('publish', B5 + 'Brokers.py')], [('retained', 'retained store', B5 + 'SubscriptionEngines.py')], ['retained messages'])
p('R01', 'Each message reaches every matching subscriber once, at the right QoS',
  'A published message is delivered, unchanged in topic and payload, to every client holding a matching subscription and to no other client; with overlapping delivery merged, which is the default, each such client gets it once, at the lower of the message QoS and the highest QoS among its matching subscriptions. Delivery to one subscriber never depends on which others exist.',
  ['histories', 'inputs'], 'all subscription tables over any number of clients of either protocol version, all messages',
  'Tests run two clients with a few subscriptions.',
  [B5 + 'Brokers.py', B3 + 'Brokers.py', B5 + 'SubscriptionEngines.py', B3 + 'SubscriptionEngines.py'], [('publish', B5 + 'Brokers.py'), ('publish', B3 + 'Brokers.py'), ('optionsOf/qosOf', B5 + 'SubscriptionEngines.py')], observe=['messages handed to each client'])
p('R02', 'Subscribing delivers the matching retained messages',
  'A new subscription is answered with each retained message whose topic matches it, once, flagged as retained and at the lower of the two QoS values. With MQTT 5 retain handling 1 this happens only if the subscription did not exist, with 2 never, and each filter of one packet follows its own options.',
  ['inputs', 'histories'], 'all retained stores, filters, options and several filters per packet',
  'Tests use three retained topics and one filter per packet.',
  [B5 + 'Brokers.py', B3 + 'Brokers.py'], [('__doRetained__', B5 + 'Brokers.py'), ('__doRetained__', B3 + 'Brokers.py')], observe=['messages handed to the subscriber'])
p('R03', 'No-local and retain-as-published are honoured',
  'A message is never sent back to its publisher through a no-local subscription, while other clients with that option still receive it. The retain flag of a forwarded message equals that of the original when the subscription asked to keep it and is clear otherwise.',
  ['inputs', 'histories'], 'all subscription options, publishers and messages',
  'Two tests cover one combination each.',
  [B5 + 'Brokers.py'], [('publish/publishAction', B5 + 'Brokers.py')], observe=['messages handed to each client'])
p('R04', 'A shared subscription delivers to exactly one member',
  'Each message matching a shared subscription is delivered to exactly one client holding that shared subscription, and to no client outside it because of it, independently of other shared groups and of ordinary subscriptions.',
  ['inputs', 'histories', 'schedules'], 'all groups, members and every random choice',
  'One test has one group of two members.',
  [B5 + 'Brokers.py'], [('publish', B5 + 'Brokers.py')], observe=['messages handed to each client'])
p('R05', 'Subscription identifiers are those of the matching subscriptions',
  'A message delivered to an MQTT 5 client carries exactly the subscription identifiers of that client\'s subscriptions that matched it, never one chosen by the publisher and never one belonging to another client.',
  ['inputs', 'histories'], 'all subscription tables with and without identifiers, any number of recipients',
  'One test has one client with two identifiers.',
  [B5 + 'Brokers.py'], [('publishAction', B5 + 'Brokers.py')], observe=['properties of delivered messages'])
p('M01', 'Packet identifiers in flight to a client are unique and non-zero',
  'Every QoS 1 or 2 message the broker sends has a packet identifier from 1 to 65,535 that no other unacknowledged message to that client is using, including after the identifiers wrap around and across reconnections.',
  ['histories'], 'all histories of sends and acknowledgements, of any length',
  'No test sends more than a few messages, so identifiers never wrap.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('sendFirst', B5 + 'MQTTBrokers.py'), ('publishArrived', B3 + 'MQTTBrokers.py')], [('outmsgs', 'messages in flight by identifier', B5 + 'MQTTBrokers.py')], ['packets sent'])
p('M02', 'In-flight messages respect receive maximum and keep their order',
  'The broker never has more unacknowledged QoS 1 and 2 messages outstanding to an MQTT 5 client than the receive maximum the client announced, messages beyond that wait and are sent once each, in the order they arrived, as acknowledgements make room, and no message is lost or duplicated on the way.',
  ['histories'], 'all receive maxima and all interleavings of arrivals and acknowledgements',
  'One test uses one receive maximum.',
  [B5 + 'MQTTBrokers.py'], [('publishArrived/sendQueued/puback/pubcomp', B5 + 'MQTTBrokers.py')], [('outbound', 'messages in flight in order', B5 + 'MQTTBrokers.py'), ('queued', 'waiting messages', B5 + 'MQTTBrokers.py')], ['packets sent'])
p('M03', 'Outgoing QoS 1 and 2 messages complete exactly through their handshake',
  'A QoS 1 message the broker sent stays outstanding until its PUBACK and a QoS 2 message until PUBREC, PUBREL and PUBCOMP in that order; acknowledgements with a wrong identifier or in the wrong order change nothing. When the client reconnects to its session every outstanding message is sent again in the original order with its original identifier, as a PUBLISH marked duplicate or, once PUBREC arrived, as PUBREL.',
  ['histories', 'fault_sequences'], 'all sequences of acknowledgements, right or wrong, and disconnections at every point',
  'Tests follow the successful path and one reconnection.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('puback/pubrec/pubcomp/resend', B5 + 'MQTTBrokers.py'), ('puback/pubrec/pubcomp/resend', B3 + 'MQTTBrokers.py')], [('outmsgs', 'messages in flight by identifier', B5 + 'MQTTBrokers.py')], ['packets sent'])
p('M04', 'Incoming QoS 2 messages are delivered exactly once',
  'A QoS 2 message received by the broker is delivered to subscribers exactly once, however often the publisher repeats it before releasing it, and its identifier can carry a new message after release. Releasing an unknown identifier delivers nothing.',
  ['histories', 'fault_sequences'], 'all sequences of PUBLISH (any QoS, duplicate or not) and PUBREL, with delivery on publish or on release, both protocol versions',
  'Tests follow the successful path only.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('publish/pubrel', B5 + 'MQTTBrokers.py'), ('publish/pubrel', B3 + 'MQTTBrokers.py')], [('inbound', 'identifiers received and not yet released', B5 + 'MQTTBrokers.py')], ['messages delivered'])
p('M05', 'Every request is acknowledged with its own identifier',
  'Each QoS 1 PUBLISH, QoS 2 PUBLISH, PUBREL, SUBSCRIBE, UNSUBSCRIBE and PINGREQ is answered by exactly one packet of the matching type with the same packet identifier. SUBACK and MQTT 5 UNSUBACK carry one code per filter in request order, each granted QoS being the QoS actually used for that filter.',
  ['inputs', 'histories'], 'all identifiers, QoS values and any number of filters, both protocol versions',
  'Tests use a few identifiers and one or two filters.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('publish/pubrel/subscribe/unsubscribe/pingreq', B5 + 'MQTTBrokers.py')], observe=['packets sent'])
p('N01', 'Sessions are resumed or discarded as asked',
  'A client that connects with a clean start gets no subscriptions, queued or in-flight messages from earlier and session present 0; otherwise it gets its unexpired session back with all of them and session present 1, or session present 0 if none exists. Session present is 1 exactly when state was resumed.',
  ['histories'], 'all histories of connections and disconnections of any number of clients, both protocol versions',
  'Tests cover four hand-picked sequences.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py', B5 + 'Brokers.py', B3 + 'Brokers.py'], [('connect', B5 + 'MQTTBrokers.py'), ('connect', B3 + 'MQTTBrokers.py')], observe=['CONNACK', 'later deliveries'])
p('N02', 'A client identifier has at most one live connection',
  'When a client connects with an identifier that is in use on another connection, the older connection is closed and never used again (an MQTT 5 client is told that its session was taken over), and other clients are unaffected.',
  ['histories', 'schedules'], 'all sets of connected clients and all connect orders, both protocol versions',
  'One test covers two connections.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('connect/disconnect', B5 + 'MQTTBrokers.py')], [('clients', 'connection to client map', B5 + 'MQTTBrokers.py')], ['closed connections', 'packets sent'])
p('N03', 'Sessions last exactly as long as their expiry interval',
  'After an MQTT 5 client disconnects, its session is gone at once when the session expiry interval is 0 and can be resumed until the interval has passed and not later, with the interval counted from the disconnection and the value given in DISCONNECT overriding the one in CONNECT. A client that connected with interval 0 cannot raise it when disconnecting.',
  ['inputs', 'histories'], 'all intervals, elapsed times and disconnect packets',
  'Tests try two intervals of a few seconds.',
  [B5 + 'MQTTBrokers.py', B5 + 'Brokers.py'], [('connect/disconnect', B5 + 'MQTTBrokers.py')], observe=['CONNACK session present', 'subscriptions kept'])
p('N04', 'The will is published once, and only when it should be',
  'The will message of a client is published, with its topic, payload, QoS, retain flag and properties, when its connection ends without a normal DISCONNECT, and never after a normal DISCONNECT. With an MQTT 5 will delay it is published once when the delay, or the session if that ends earlier, is over and not before, and not at all if the client reconnects first.',
  ['histories', 'fault_sequences'], 'all ways a connection can end, all delays and reconnection times, both protocol versions',
  'Tests cover two endings and two delays.',
  [B5 + 'MQTTBrokers.py', B5 + 'Brokers.py', B3 + 'Brokers.py'], [('setupWillMessage/sendWillMessage', B5 + 'Brokers.py'), ('terminate', B3 + 'Brokers.py'), ('cleanupThreads.run', B5 + 'MQTTBrokers.py')], observe=['messages published'])
p('N05', 'Keep-alive closes silent connections and only those',
  'A connection whose client announced keep-alive K > 0 is closed, and its will published, once no packet arrived for one and a half times K (or the smaller value the server imposed), and never earlier; with K = 0 it is never closed for silence. Any packet from the client restarts the period.',
  ['inputs', 'schedules'], 'all keep-alive values and arrival times, both protocol versions',
  'One test waits for one interval.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('keepalive/handlePacket', B5 + 'MQTTBrokers.py'), ('keepalive/handlePacket', B3 + 'MQTTBrokers.py')], observe=['connection closed or not'])
p('N06', 'Announced MQTT 5 limits are enforced',
  'The broker never sends an MQTT 5 client a packet larger than the maximum it announced, nor a topic alias above its announced maximum, and an alias sent to a client always denotes the topic it was first sent with on that connection. An incoming topic alias of zero, above the broker\'s maximum or not yet defined on that connection is a protocol error, and any other alias denotes the topic last assigned to it on that connection.',
  ['inputs', 'histories'], 'all limits, aliases, topics and histories of publishes',
  'Tests use an alias maximum of 2 or 3 and one packet size.',
  [B5 + 'MQTTBrokers.py', B5 + 'Brokers.py'], [('respond', B5 + 'MQTTBrokers.py'), ('publishArrived', B5 + 'MQTTBrokers.py'), ('publish/getAliasTopic', B5 + 'Brokers.py')], observe=['packets sent', 'disconnections'])
p('N07', 'Message expiry is honoured',
  'An MQTT 5 message with an expiry interval is sent only while the whole seconds it has waited in the broker are fewer than the interval, and the interval sent is the original minus those seconds. A message without an expiry interval never expires.',
  ['inputs', 'histories'], 'all intervals and waiting times',
  'One test waits one interval.',
  [B5 + 'MQTTBrokers.py'], [('respond', B5 + 'MQTTBrokers.py')], observe=['packets sent'])
p('N08', 'CONNECT is the first packet, and the only one',
  'A packet other than CONNECT on a new connection, a second CONNECT, or a CONNECT with the wrong protocol name or version ends that connection without taking effect: nothing is published, subscribed or acknowledged with success, and no other client is disturbed. A client that leaves its identifier empty is given one that no other client uses.',
  ['inputs', 'histories'], 'all first packets and all packet sequences, both protocol versions',
  'One test sends one second CONNECT.',
  [B5 + 'MQTTBrokers.py', B3 + 'MQTTBrokers.py'], [('handlePacket/connect', B5 + 'MQTTBrokers.py'), ('handlePacket/connect', B3 + 'MQTTBrokers.py')], observe=['packets sent', 'connections closed', 'table contents'])
p('L01', 'The test clients deliver each message once and acknowledge it',
  'A test client hands every QoS 0 and QoS 1 message, and every QoS 2 message exactly once despite duplicates, to its callback with the original topic, payload, QoS and retain flag, and answers each PUBLISH, PUBREC and PUBREL with the packet the protocol requires and the same identifier. Acknowledgements for its own messages complete the message they name and no other.',
  ['histories', 'inputs'], 'all packet sequences from the broker, both protocol versions',
  'Tests only see well-behaved brokers and no retransmission.',
  [C5 + 'internal.py', C3 + 'internal.py'], [('Receivers.receive', C5 + 'internal.py'), ('Receivers.receive', C3 + 'internal.py')], observe=['callbacks', 'packets sent'])
p('L02', 'The test clients never reuse a packet identifier in flight',
  'Packet identifiers chosen by a test client for PUBLISH, SUBSCRIBE and UNSUBSCRIBE are always from 1 to 65,535, never 0, and never that of a message of its own still in flight, also after the identifiers wrap around. Only when every identifier is in flight is a call refused.',
  ['histories'], 'all histories of calls, of any length',
  'No test sends enough packets to wrap.',
  [C5 + 'main.py', C3 + 'main.py'], [('__nextMsgid', C5 + 'main.py'), ('__nextMsgid', C3 + 'main.py')], observe=['packets sent'])
p('L03', 'The test clients put every packet on the wire whole and once',
  'When a test client sends a packet, the bytes handed to the network are exactly that packet\'s bytes, in order and each once, however few bytes each send call accepts.',
  ['inputs', 'schedules'], 'all packets and all sequences of partial sends',
  'Loopback sockets accept small packets whole.',
  [C5 + 'main.py', C3 + 'main.py'], [('sendtosocket', C5 + 'main.py'), ('sendtosocket', C3 + 'main.py')], observe=['bytes handed to the socket'])
p('X01', 'Configuration settings take effect',
  'Every setting read from a broker configuration file - receive maximum, topic alias maximum, maximum packet size, server keep-alive, persistence and listeners with their port, address and protocol - governs the broker that starts from it, comments and blank lines change nothing, and settings not named keep their defaults.',
  ['configurations', 'inputs'], 'all configuration files made of known settings, in any order',
  'The baseline tests start the broker without a configuration file.',
  [ST], [('process_config', ST), ('connect (limits announced)', B5 + 'MQTTBrokers.py')], observe=['options passed to the brokers', 'listeners created', 'CONNACK properties'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
