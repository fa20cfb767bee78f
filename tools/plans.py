"""What each check runs."""
import glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rounds(traces):
    return sum(len(t.get("rounds", [])) for t in traces)


DRIVERS = {
    "broker": {"gen": "BrokerGen", "trace": "BrokerTrace", "mode": "broker", "count": rounds},
    "client": {"gen": "ClientGen", "trace": "ClientTrace", "mode": "client", "count": rounds},
    "codec": {"gen": "CodecGen", "trace": "CodecTrace", "mode": "codec", "count": rounds},
    "stream": {"gen": "StreamGen", "trace": "StreamTrace", "mode": "stream", "count": rounds},
}


def b(profile, num, depth=14, **kw):
    return dict({"kind": "trace", "spec": "broker", "profile": profile, "num": num, "depth": depth,
                 "thorough": {"num": num * 4, "depth": depth + 6}}, **kw)


def scene(profile, num, **kw):
    return dict({"kind": "trace", "spec": "broker", "profile": profile, "num": num, "thorough": {"num": num * 4}}, **kw)


def k(profile, num, depth=14, **kw):
    return dict(b(profile, num, depth), spec="client", **kw)


def kscene(profile, num, **kw):
    return dict(scene(profile, num), spec="client", **kw)


def c(profile, num, depth=10, **kw):
    return dict({"kind": "trace", "spec": "codec", "profile": profile, "num": num, "depth": depth,
                 "thorough": {"num": num * 5, "depth": depth}}, **kw)


def s(profile, num, depth=5, **kw):
    return dict({"kind": "trace", "spec": "stream", "profile": profile, "num": num, "depth": depth,
                 "thorough": {"num": num * 5, "depth": depth + 3}}, **kw)


def mc(module, deep=None, **kw):
    return dict({"kind": "model", "module": module}, **({"thorough": {"cfg": deep, "timeout": 3000}} if deep else {}), **kw)


BROKER = ["clients are independent of each other: what one client observed is ordered against what another one observed "
          "only between rounds", "timers may be up to 250 ms late"]
RACY = {"racy": True}

PLANS = {
    "B01": {"steps": [b("B01", 900), scene("MATRIX", 16), b("B02", 100), scene("DEEP", 12), scene("LARGE", 24)]},
    "B02": {"steps": [b("B02", 900), b("B01", 200), scene("WINDOW", 100), scene("WIDE", 12)]},
    "B03": {"steps": [b("B03", 1000), b("B10", 150), scene("REDELIVER", 100)]},
    "B04": {"steps": [b("B04", 600), scene("BURST", 120, **RACY), scene("FLOOD", 100), scene("WINDOW", 100)]},
    "B05": {"steps": [b("B05", 600), scene("REDELIVER", 300), scene("WRAP", 8), scene("FLOOD", 100)]},
    "B06": {"steps": [b("B06", 500), scene("WRAP", 24), scene("BURST", 60, **RACY), scene("REDELIVER", 100)]},
    "B07": {"steps": [b("B07", 600), scene("WINDOW", 500), scene("BURST7", 80, **RACY)]},
    "B08": {"steps": [b("B08", 900), scene("REDELIVER", 150), scene("WINDOW", 200), scene("LONG", 12)]},
    "B09": {"steps": [b("B09", 400), scene("WINDOW", 500), scene("STORM", 60, **RACY), scene("STALL", 40)]},
    "B10": {"steps": [b("B10", 900), scene("QUIET", 100), scene("FLOOD", 100), scene("WINDOW", 150)]},
    "B11": {"steps": [b("B11", 600), scene("QUIET", 400)]},
    "B12": {"steps": [b("B12", 1000)]},
    "B13": {"steps": [b("B13", 900), scene("FLOOD", 100), scene("WINDOW", 200), scene("CROWD", 8)]},
    "B14": {"steps": [b("B14", 1000)]},
    "B15": {"steps": [b("B15", 600), scene("STALL", 100), b("B14", 200), scene("DEEP", 12), scene("LARGE", 24)]},
    "B16": {"steps": [b("B16", 300), scene("FLOOD", 500), scene("STALL", 100)]},
    "B17": {"steps": [b("B17", 1000)]},
}
PLANS |= {
    "K01": {"steps": [k("K01", 800), kscene("WRAP", 8), kscene("BURST", 100)]},
    "K02": {"steps": [k("K02", 1000), k("K08", 100)]},
    "K03": {"steps": [k("K03", 600), kscene("BURST", 300), k("K08", 200)]},
    "K04": {"steps": [k("K04", 800), k("K05", 100), k("K08", 100)]},
    "K05": {"steps": [k("K05", 800), kscene("BURST", 100)]},
    "K06": {"steps": [k("K06", 1600, 10)]},
    "K07": {"steps": [k("K07", 900), k("K04", 100)]},
    "K08": {"steps": [k("K08", 900), k("K05", 100)]},
    "K09": {"steps": [k("K09", 1000), k("K06", 300, 10)]},
}
PLANS |= {
    "C01": {"steps": [mc("CodecMC"), c("C01", 2400), c("C04", 300)]},
    "C02": {"steps": [mc("CodecMC", "CodecFramesDeep", cfg="CodecFrames"), c("C02", 2000), c("SWEEP", 24, 8)]},
    "C03": {"steps": [c("C03", 160, 8), c("HUGE", 2, 2), c("C01", 300)]},
    "C04": {"steps": [c("C04", 2400), c("SWEEP", 40, 8)]},
    "S01": {"steps": [s("S01", 1600)]},
    "S02": {"steps": [s("S02", 1600), s("LIMIT", 24)]},
}
CODEC = ["packets are those that can be built with the public API",
         "a packet no sender may send, but which can be read, may be accepted or refused"]
STREAM = ["the bytes of one round may arrive in one or in several reads"]
CLIENT = ["packets of the broker and packets of the application are ordered against each other in any way within a round",
          "timers may be up to 250 ms late"]
# exhaustive checks of the specification: (quick configuration or None, thorough configuration)
BMC, CMC, SMC = "BrokerMC", "ClientMC", "StreamMC"
MODELS = {
    "B01": (BMC, None, "BrokerDeep"), "B02": (BMC, "BrokerMC", "BrokerDeep"), "B04": (BMC, None, "BrokerQos"),
    "B05": (BMC, "BrokerMC", "BrokerQos"), "B06": (BMC, None, "BrokerQos"), "B07": (BMC, None, "BrokerDeep"),
    "B08": (BMC, None, "BrokerDeep"), "B09": (BMC, "BrokerMC", "BrokerWill"), "B10": (BMC, "BrokerMC", "BrokerWill"),
    "B13": (BMC, "BrokerMC", "BrokerWill"),
    "K01": (CMC, "ClientMC", "ClientDeep"), "K02": (CMC, "ClientMC", "ClientDeep"), "K03": (CMC, "ClientMC", "ClientDeep"),
    "K04": (CMC, None, "ClientDeep"), "K05": (CMC, "ClientManual", "ClientManualDeep"), "K08": (CMC, "ClientForget", "ClientLive"),
    "S01": (SMC, "StreamMC", "StreamDeep"), "S02": (SMC, "StreamMC", "StreamDeep"),
}
for p, (m, quick, deep) in MODELS.items():
    PLANS[p]["steps"].insert(0, {"kind": "model", "module": m, "cfg": quick, "thorough": {"cfg": deep, "timeout": 3000}})
for p in PLANS:
    PLANS[p]["assumptions"] = {"B": BROKER, "K": CLIENT, "C": CODEC, "S": STREAM}.get(p[0], [])

# Genuine defects that are not repaired, each with the scenario that shows it.
FINDINGS = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(HERE, "findings", "*.json")))]

# technique and level note of the checks, by the first letter of the property
NOTES = {
    "B": ("TLA+ specification of the broker (TLC): model checking, and two-way conformance: scripts simulated from the specification drive the real "
          "broker, and every recorded trace is checked to be a behaviour of the specification",
          "Every explored script is replayed on the real Broker over loopback sockets, and TLC decides whether everything all clients observed is a behaviour "
          "of spec/Broker.tla. Bounded by the number and length of the scripts; within a round thread interleavings are those that occurred (scenes "
          "provoke the racy ones). Trusts the wire codec of the harness (independent of the code under test), TLC, and 250 ms of timer slack."),
    "K": ("TLA+ specification of the client (TLC): model checking, and two-way conformance: scripts simulated from the specification drive the real "
          "client against a scripted broker, and every recorded trace is checked to be a behaviour of the specification",
          "Every explored script is replayed on the real MqttClient, built with ClientBuilder, whose broker is scripted; TLC decides whether what the broker "
          "received, what the application was handed and what the client reported of itself is a behaviour of spec/Client.tla. Bounded by the number and length of "
          "the scripts. Trusts the wire codec of the harness (independent of the code under test), TLC, and 250 ms of timer slack."),
    "C": ("TLA+ specification of the MQTT 5 wire format, evaluated by TLC: packets and byte sequences simulated from the specification are given to the "
          "real encoder and decoder, and TLC decides whether each recorded result is the one the specification prescribes",
          "spec/Codec.tla defines encoding and decoding on its own; every recorded call of the real codec is compared with it, both directions. Bounded by the "
          "number of generated packets and byte sequences; sweeps give every value to one byte of a packet. Trusts TLC and the projection of packets to JSON."),
    "S": ("TLA+ specification of framing (TLC): conformance: packet sequences, cuts, cancellations, ends and limits simulated from the specification drive the "
          "real PacketStream, and every recorded trace is checked to be a behaviour of the specification",
          "Every explored script is replayed on the real PacketStream over a loopback socket; TLC decides whether the results of all calls are a behaviour of "
          "spec/Stream.tla. Bounded by the number and length of the scripts. Trusts TLC and that loopback bytes written before a poll are readable in it."),
}
