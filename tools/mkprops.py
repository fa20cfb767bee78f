#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the listed properties, one JSON object per line)."""
import json, os
MQ = ["vaux-mqtt/src", "vaux-macro/src"]
BR = ["vaux-broker/src/lib.rs", "vaux-broker/src/session.rs"]
TP = ["vaux-broker/src/topic.rs"]
CL = ["vaux-client/src/client.rs", "vaux-client/src/session.rs"]
ST = ["vaux-async/src/stream/mod.rs", "vaux-async/src/stream/packet.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = "none"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- codec
p("C01", "Every packet survives the wire, in the bytes MQTT 5 prescribes",
  "Every packet of any MQTT 5 type that can be built through the public API with representable field values encodes to a byte sequence the MQTT 5 standard prescribes for it: packet type and flags, field order, property identifiers and types, payload; only the order of properties is free, and for user properties of one name it is kept. Decoding these bytes yields a packet equal to the one encoded, every property and payload byte included. Absent fields are absent on the wire and stay absent, except that an absent reason code is Success, an absent payload and empty binary data are the same as none, and an UNSUBACK always has a reason string.",
  ["inputs"], "all packet types, all combinations of present and absent properties, flags, reason codes, and field values (empty, boundary, long, non-ASCII)",
  "The tests round-trip a few dozen hand-written packets, mostly through the same encoder and decoder, so that a symmetric error or an untested combination of properties goes unseen.",
  MQ, [("packet encode/decode entry points", "vaux-mqtt/src/lib.rs"), ("derived codecs", "vaux-macro/src"), ("hand-written decoders", "vaux-mqtt/src/connect.rs, publish.rs, subscribe.rs")],
  ["vaux_mqtt::encode / decode of Packet values"])
p("C02", "Decoding is total and takes exactly one frame",
  "For every byte sequence decoding returns, and never panics. It reports that more bytes are needed while the buffer does not yet hold one complete frame, and never otherwise; only a fixed header that no frame can begin with may be refused earlier. When it yields a packet, the length it reports is exactly that of the packet's frame, and the packet is the same whatever bytes follow.",
  ["inputs"], "all byte sequences: truncations at every byte, mutations of every byte, concatenations and arbitrary bytes behind valid packets",
  "The tests decode complete, well-formed packets; the space of truncated, concatenated and damaged inputs is unbounded.",
  MQ, [("frame decoding", "vaux-mqtt/src/lib.rs, vaux-mqtt/src/codec/mod.rs"), ("fixed header", "vaux-mqtt/src/codec/fixed.rs")],
  ["vaux_mqtt::decode result and remaining buffer"])
p("C03", "Announced lengths always equal the bytes that follow",
  "In every encoded packet the remaining length, the property lengths and the string and binary lengths equal the number of bytes that follow them, at every size from empty up to the largest encodable one, and the sizes the API reports for a packet, the remaining length and the length of its properties, are the ones it encodes to. A variable byte integer uses the shortest encoding. A value that does not fit its field is refused with an error, never truncated or wrapped.",
  ["inputs"], "packets of all types and sizes, with the boundaries at 127/128, 16383/16384, 2097151/2097152 and 268435455 of variable byte integers and 65535 of strings",
  "The tests use small packets; the boundaries of the variable byte integers and of the 16 bit lengths are outside what they reach.",
  MQ, [("CodecSize / PropertyCodecSize", "vaux-mqtt/src/codec/mod.rs"), ("variable byte integers", "vaux-mqtt/src/codec/mod.rs")],
  ["bytes written by encode; codec_size()"])
p("C04", "Malformed packets are refused",
  "A complete frame that is not a well-formed packet is answered with an error, never with a packet: a field or property section that is cut short or overruns its announced length, surplus bytes behind the last field, invalid UTF-8 in a string, QoS 3, an undefined packet type, property identifier or reason code, a reserved bit that is set, will flags without a will, a payload format or availability flag other than 0 and 1, a remaining length of more than four bytes. Every well-formed packet is accepted.",
  ["inputs"], "every way of damaging one field of a well-formed packet of any type",
  "The tests contain a handful of malformed inputs, the possible damages are the product of packet types, fields and kinds of damage.",
  MQ, [("decoders", "vaux-mqtt/src"), ("ensure_remaining", "vaux-mqtt/src/codec/mod.rs")],
  ["vaux_mqtt::decode result"])
# ---------------------------------------------------------------- stream
p("S01", "Framing does not depend on how the bytes arrive",
  "Reading packets from a stream yields exactly the sequence of packets the peer sent, each once and in order, however the byte stream is cut into reads, however many packets arrive at once, and even when a read is abandoned while it waits and started again later. Reading a packet with its bytes yields exactly the bytes of its frame. Every packet written appears on the stream as its encoding.",
  ["schedules", "inputs"], "all packet sequences, all cuts of the byte stream, all points at which a pending read is cancelled, all buffer sizes",
  "The tests feed whole packets one at a time; cuts inside the header, inside a packet and across packets, and cancelled reads, are not reached.",
  ST, [("PacketStream::read, read_raw", "vaux-async/src/stream/packet.rs")], ["packets returned by PacketStream::read over a socket"])
p("S02", "Stream ends and size limits are reported, never misread",
  "When the peer closes the stream between packets the reader reports the end of the stream, and when it closes inside a packet the reader reports an error; no packet is made up or lost before that. With a maximum packet size every packet up to that size is read and a larger one is refused with an error without waiting for all of its bytes.",
  ["inputs", "fault_sequences"], "all positions at which the peer closes, all packet sizes around the limit, all initial buffer sizes",
  "The tests end streams only between packets and do not use size limits near the packet sizes.",
  ST, [("PacketStream", "vaux-async/src/stream/packet.rs")], ["results of PacketStream::read"])
# ---------------------------------------------------------------- broker
p("B01", "A publish reaches exactly the matching subscriptions",
  "A PUBLISH the broker accepts, or a will it publishes, is delivered to every connected session that holds a subscription whose filter matches the topic, one copy for each matching subscription, and to no other session. Filters match as MQTT 5 prescribes: literal levels exactly, '+' one level, '#' the parent and any number of levels, neither at the start a topic beginning with '$'.",
  ["inputs", "histories"], "all sets of subscriptions of several clients, all topics and filters including empty levels, all histories of subscribing and publishing",
  "The tests check a few filter and topic pairs in fresh brokers; combinations of overlapping filters in one tree and histories of changes are unbounded.",
  TP + BR, [("topic tree matching", "vaux-broker/src/topic.rs"), ("routing", "vaux-broker/src/lib.rs")], ["PUBLISH packets received by subscribers"])
p("B02", "Subscriptions change exactly as acknowledged",
  "Every SUBSCRIBE is answered by a SUBACK and every UNSUBSCRIBE by an UNSUBACK with its packet id and one reason code per filter in order: the granted QoS, an error for a malformed filter, success for a removed and 'no subscription existed' for an unknown one. The subscriptions in effect afterwards are exactly those acknowledged: subscribing again to a filter replaces its options, unsubscribing removes that session's subscription to that filter only, and a refused filter subscribes nothing.",
  ["histories", "inputs"], "all sequences of subscribe, resubscribe and unsubscribe over overlapping filters by several sessions",
  "The tests subscribe once per client to one or two filters and never check the effect of replacing, removing or refusing.",
  TP + BR, [("handle_subscribe, handle_unsubscribe", "vaux-broker/src/lib.rs"), ("subscribe, unsubscribe", "vaux-broker/src/topic.rs")], ["SUBACK, UNSUBACK and later deliveries"])
p("B03", "A message is delivered as it was published",
  "A delivered message has the topic, payload and properties (payload format, message expiry, content type, response topic, correlation data, user properties) of the published one, byte for byte, and no others. Its QoS is the lower of the published and the granted one. On first delivery DUP is clear, RETAIN is set only if it was published with RETAIN and the subscription asked to keep it, and the publisher's topic alias is not passed on.",
  ["inputs"], "all QoS pairs, flags, property combinations and payloads, several subscribers with different options to the same message",
  "The tests publish small payloads without properties and check single QoS pairs.",
  BR, [("route_publish", "vaux-broker/src/lib.rs")], ["PUBLISH packets received by subscribers"])
p("B04", "One publisher's messages keep their order and are not lost",
  "While a publisher and a subscriber are connected and the subscriber keeps up, the messages of one publisher that match a subscription reach the subscriber exactly once for this subscription and in the order they were sent, for messages of one QoS and of mixed QoS alike, whatever other clients do at the same time.",
  ["schedules", "histories"], "all interleavings of several publishers and subscribers sending bursts at the same time, on one and on several threads",
  "The tests wait for each message before they send the next one and use one publisher at a time.",
  BR, [("route_publish, control channel", "vaux-broker/src/lib.rs, session.rs")], ["order of PUBLISH packets at each subscriber"])
p("B05", "QoS 1 messages are redelivered until acknowledged",
  "A QoS 1 message that was routed to a connected session and not acknowledged is sent again, with its packet id and with DUP set, each time the client resumes the session, until the client has acknowledged it: none is forgotten, none is sent again after it was acknowledged, and they are sent again in their original order before any newer message. An acknowledgement affects the message with that packet id only, and within one connection nothing is sent twice.",
  ["histories", "crash_points"], "all sequences of deliveries, acknowledgements in any order, connection losses at any point and resumptions, repeated",
  "The tests never lose a connection with unacknowledged messages.",
  BR, [("pending acknowledgements and redelivery", "vaux-broker/src/session.rs, lib.rs")], ["PUBLISH packets after a resumed CONNECT"])
p("B06", "Packet ids of the broker are valid and unique",
  "Every QoS 1 or 2 PUBLISH the broker sends carries a non-zero packet id that no other unacknowledged message of this session carries, also after the ids have wrapped around, across reconnections and with messages routed by several publishers at once. A QoS 0 PUBLISH carries no packet id.",
  ["histories", "schedules"], "all histories of deliveries and acknowledgements of any length, including more than 65535 deliveries, and concurrent publishers",
  "The tests look at the ids of two consecutive messages.",
  BR, [("next_packet_id", "vaux-broker/src/session.rs")], ["packet ids of PUBLISH packets"])
p("B07", "Every request is answered once, after it took effect",
  "The broker answers each QoS 1 PUBLISH with exactly one PUBACK, each SUBSCRIBE, UNSUBSCRIBE and PINGREQ with exactly one SUBACK, UNSUBACK and PINGRESP, with the request's packet id and in the order of the requests, and sends no other acknowledgement: a QoS 0 PUBLISH has no answer. When the PUBACK arrives the message has been routed to all subscribers, and when the SUBACK arrives every later publish finds the subscription.",
  ["histories", "schedules"], "all sequences of requests, sent one by one or in bursts, by several clients at once",
  "The tests wait for single acknowledgements and do not look for missing, duplicate or premature ones.",
  BR, [("handle_packet", "vaux-broker/src/lib.rs")], ["response packets"])
p("B08", "Sessions continue, or start anew, exactly as announced",
  "A client that connects without clean start and whose session exists gets 'session present' and finds its subscriptions and unacknowledged messages as it left them; with clean start, or without an earlier session, it gets 'session not present' and nothing of an earlier session (no subscription, no message) has any effect any more. Sessions of different client ids never share anything, and a client without an id gets a unique one assigned with which it can resume.",
  ["histories"], "all sequences of connects with and without clean start, disconnects and losses of several clients, with subscriptions and messages in between",
  "The tests connect fresh clients and never resume a session.",
  BR + TP, [("handle_connect, SessionPool", "vaux-broker/src/lib.rs, session.rs")], ["CONNACK and later deliveries"])
p("B09", "At most one connection owns a session",
  "When a client connects with the id of a connected client, the older connection is told 'session taken over' and closed, and from then on only the new one receives the session's messages. The end of the older connection, whenever and however it happens, does not disturb the new one: it stays connected, counted and subscribed, and its will is not published.",
  ["schedules", "histories"], "all interleavings of takeovers with traffic, disconnects and closes of the older connection, with and without clean start, repeated takeovers, and older connections that do not read",
  "One test takes a session over once and looks only at the DISCONNECT.",
  BR, [("handle_takeover, end_connection", "vaux-broker/src/lib.rs")], ["packets and closes on both connections, capacity, wills"])
p("B10", "A will is published exactly when its connection fails",
  "The will of a connection is published exactly once, with the topic, payload, QoS, flags and properties given in its CONNECT, when the connection ends in any way other than a DISCONNECT with reason success: closed by the peer, broken inside a packet, protocol error, DISCONNECT with another reason, keep alive timeout, takeover. It is not published while the connection lives nor after a normal DISCONNECT. With a will delay it is published when the delay has passed after the end, unless the session was resumed before.",
  ["fault_sequences", "histories"], "all ways a connection can end, at any point, all delays against all times of reconnection, repeated",
  "Three tests cover one close, one timeout and one normal disconnect, without delay, properties or reconnection.",
  BR, [("initiate_will, publish_will", "vaux-broker/src/lib.rs")], ["PUBLISH packets at a subscriber of the will topic"])
p("B11", "The keep alive ends silent connections only",
  "The broker closes a connection whose client has sent nothing for one and a half times the keep alive in effect, and not before; anything the client sends restarts the time, what is sent to the client does not. The connection is then treated as failed: its session stops being connected and its will is published.",
  ["schedules", "histories"], "all patterns of client and server traffic against the keep alive time, all keep alive values",
  "One test lets a single idle client time out.",
  BR, [("keep_alive_timer", "vaux-broker/src/lib.rs")], ["close of the connection against a virtual clock"])
p("B12", "CONNACK announces the limits in effect",
  "An accepted CONNECT is answered by exactly one CONNACK with reason success. It carries the server keep alive exactly when the requested value is outside the configured range, with the bound that then is in effect; the session expiry exactly when more than the configured maximum was requested, with this maximum; and an assigned client id exactly when the client sent none.",
  ["inputs", "configurations"], "all requested keep alive and expiry values against all configured ranges",
  "The tests check one value outside each range.",
  BR, [("handle_connect", "vaux-broker/src/lib.rs")], ["CONNACK"])
p("B13", "The limit on active sessions is exact",
  "With a limit on active sessions, a client is accepted exactly when fewer sessions than the limit are connected or its own session is already connected; otherwise it is refused with 'quota exceeded' and closed and nothing else changes. Every ended connection frees its place, however it ended, and none is freed twice.",
  ["histories", "configurations"], "all sequences of connects, refusals, takeovers, and ends of connections of every kind under all limits",
  "One test fills the limit once with three clients.",
  BR, [("at_capacity, activate, deactivate", "vaux-broker/src/session.rs")], ["CONNACK reasons"])
p("B14", "Only a connected client in good standing is served",
  "A connection that has not sent an accepted CONNECT cannot subscribe, publish or receive: any other packet but a PINGREQ is refused and the connection closed without effect. A second CONNECT, a packet only a server may send, a malformed packet, or a PUBLISH to an invalid topic ends the connection, which counts as failed, and none of these has any other effect.",
  ["histories", "inputs"], "all packets in all states of a connection",
  "The tests never send a packet out of place.",
  BR, [("handle_pre_connect, handle_packet", "vaux-broker/src/lib.rs")], ["responses and close of the connection, effect on others"])
p("B15", "One client's faults never reach another",
  "Whatever bytes a client sends, whenever it disappears and however slowly it reads, the broker keeps running and all other clients keep being served as if it behaved: their messages are delivered, their requests are answered, and new clients can connect.",
  ["fault_sequences", "inputs"], "all malformed and truncated inputs, abrupt closes and stalls of some clients while others work",
  "The tests contain only well-behaved clients.",
  BR + ST, [("per-connection tasks, error handling", "vaux-broker/src/lib.rs")], ["service to the well-behaved clients"])
p("B16", "A subscriber that cannot keep up is disconnected, not corrupted",
  "When more messages are waiting for a subscriber than its queue holds, its connection is ended; it never silently misses a message in the middle of what it receives. What it received before is a prefix of what was routed to it, in order, and the QoS 1 messages it missed are delivered when it resumes its session.",
  ["schedules", "configurations"], "all queue sizes, bursts larger than the queue, readers that stall at any point",
  "The tests never fill a queue.",
  BR, [("deliver, kick", "vaux-broker/src/session.rs, lib.rs")], ["PUBLISH sequence at the slow subscriber, before and after resuming"])
p("B17", "No-local subscriptions never echo, others always do",
  "A message is not delivered for a subscription with the no-local option that belongs to the session that published it, and is delivered for all other matching subscriptions: those of the publisher without the option, and those of other sessions with it. A will counts as published by nobody.",
  ["inputs", "histories"], "all combinations of no-local and other overlapping subscriptions of publisher and others, resubscribed and resumed",
  "The tests cover no-local with one subscription in the topic tree only.",
  BR + TP, [("route_publish", "vaux-broker/src/lib.rs")], ["deliveries to the publisher itself"])
# ---------------------------------------------------------------- client
p("K01", "The client completes every QoS 1 and 2 publish it sends",
  "With automatic acknowledgement every publish the application hands over is sent to the broker once, unchanged but for an assigned packet id, in the order handed over. A QoS 2 publish is followed by exactly one PUBREL when its PUBREC arrives, none if the PUBREC refuses it; assigned packet ids are non-zero, differ from those of all unfinished publishes, also after wrapping around, and become free when the exchange ends.",
  ["histories", "inputs"], "all sequences of publishes of all QoS and acknowledgements of the broker in any order, of any length",
  "The client has no tests of its flows against a scripted broker.",
  CL, [("write_next, handle_packet", "vaux-client/src/session.rs")], ["packets on the wire against a scripted broker"])
p("K02", "Received messages reach the application, QoS 2 exactly once",
  "With automatic acknowledgement every QoS 0, 1 and 2 message from the broker reaches the application's consumer unchanged; QoS 1 is answered by a PUBACK, QoS 2 by PUBREC and, after the PUBREL, PUBCOMP, with the message's packet id. A QoS 2 message that the broker sends again before its PUBREL is not passed on a second time but answered again.",
  ["histories"], "all sequences of deliveries, duplicates and releases by the broker, interleaved over several packet ids",
  "The tests only ever deliver single QoS 1 messages.",
  CL, [("handle_recv_publish, handle_packet", "vaux-client/src/session.rs")], ["consumer channel and wire"])
p("K03", "Receive maximums are kept in both directions",
  "The client never has more unfinished QoS 1 and 2 publishes outstanding than the broker's receive maximum allows; further ones wait, are sent in order as acknowledgements arrive, and are not lost, while other packets still flow. The application's receive maximum is announced in CONNECT, and a broker exceeding it ends the connection with an error.",
  ["histories", "configurations"], "all receive maximums, all bursts of publishes against all orders of acknowledgements",
  "No test sets or reaches a receive maximum.",
  CL, [("send_queued, handle_recv_publish", "vaux-client/src/session.rs")], ["wire"])
p("K04", "Packets reach the right consumer in order and none is lost",
  "Each packet the broker sends is handed to the application exactly once and in order: to the consumer registered for its packet type if there is one, otherwise to the default consumer, PINGRESP only if requested. A consumer that is slow delays but never loses, duplicates or reorders packets, while the client keeps sending the application's packets and its keep alive pings.",
  ["schedules", "configurations"], "all channel sizes, arrival bursts, and rates of consumption, with and without filtered consumers",
  "The tests always drain the consumer.",
  CL, [("client loop, forward_pending", "vaux-client/src/client.rs")], ["consumer channels, wire"])
p("K05", "With manual acknowledgement the application is in charge",
  "With automatic acknowledgement off the client sends no PUBACK, PUBREC, PUBREL or PUBCOMP of its own for a new message, passes every one it receives to the application and sends those the application produces; exchanges the application completes free their packet id and receive quota so that any number of them can follow.",
  ["histories"], "all orders in which an application completes several QoS 1 and 2 exchanges in both directions",
  "No test turns automatic acknowledgement off.",
  CL, [("write_next, response_sent", "vaux-client/src/session.rs")], ["wire, consumer channel"])
p("K06", "The client connects as configured and reports what it got",
  "The CONNECT carries exactly the configured client id, keep alive, session expiry, clean start, credentials, receive maximum and will. The client counts as connected exactly from a CONNACK with success until the connection ends, adopts the keep alive, session expiry, receive maximum and assigned client id of the CONNACK, and otherwise fails with an error: on a refusal, on any other packet, on a close, and when the configured time has passed without an answer. Starting with a time limit tells the application truthfully: a client reported as not started stays unconnected. A client that runs cannot be started a second time.",
  ["configurations", "fault_sequences"], "all builder configurations and all first answers of a broker, including none",
  "The tests connect to the project's own broker only.",
  CL + ["vaux-client/src/builder.rs"], [("connect, handle_connack", "vaux-client/src/session.rs")], ["CONNECT on the wire, connected(), join result"])
p("K07", "The client keeps its connection alive",
  "While connected the client never lets the keep alive interval in effect pass without sending: it sends a PINGREQ when it has sent nothing else for that long, whatever it receives meanwhile, and none before. The interval is the broker's if the CONNACK names one, and zero or the builder's option turn it off.",
  ["schedules", "configurations"], "all patterns of inbound and outbound traffic against the interval, all keep alive values",
  "No test waits for a ping.",
  CL, [("keep_alive_timer, handle_keep_alive", "vaux-client/src/client.rs, session.rs")], ["wire against a virtual clock"])
p("K08", "Unfinished exchanges continue on a resumed session",
  "When the client is started again with the state of an earlier connection and the broker still has the session, it sends every unacknowledged publish again with its packet id and DUP set, a PUBREL for those already received, in the original order and before new publishes; queued publishes follow, and duplicates of received QoS 2 messages are recognised. If the broker does not have the session nothing of the old exchanges is sent.",
  ["crash_points", "histories"], "all points of all exchanges at which the connection can be lost, repeated losses, with the broker's session present or not",
  "No test carries session state over to a second connection.",
  CL, [("resume, end_session", "vaux-client/src/session.rs")], ["wire of the second connection"])
p("K09", "The client ends cleanly and reports why",
  "When the application stops the client, a DISCONNECT is sent after everything handed over before it that the receive maximum lets through, the connection is closed and the client's task ends successfully; when the broker disconnects, closes, breaks off inside a packet, or sends a malformed or out-of-place acknowledgement, the task ends with an error. In every case the client no longer counts as connected and the session state is handed back. A client whose broker could not be reached can be started again.",
  ["fault_sequences", "histories"], "all ways and points at which either side can end the connection",
  "The tests only stop clients normally.",
  CL, [("client loop", "vaux-client/src/client.rs")], ["join result, connected(), wire"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
