from hlib import *

BOUNDS = ("one server redirecting to another over UDP or TCP, in every "
          "pairing of modes; up to 2 (quick) or 3 (thorough) messages of any "
          "type with any name of up to 2 (3) bytes, or 8 characteristic "
          "ones, any value, rate or rejected text; received as datagrams or "
          "as lines in any two pieces; rules before the redirect; up to two "
          "relays in a row")
ASSUMES = ["the network delivers, in order",
           "fields hold no line breaks of their own",
           "the redirect's connection is established and not paused"]

NAMES = ["load", "a b", " load", "load  one", "a//b/", "a.%b", "", "a\tb "]
RULES = ["", "metric_type c => rewrite a zz dup", "path_like *b => drop",
         "metric_type g => set_metric_type m"]


class Relay(object):
    """A server that passes everything on to another."""

    def __init__(self, env, mode, clock, proto, before, target, reactor):
        from twisted.application.service import MultiService
        from txstatsd.server.router import Router
        self.env = env
        self.reactor = reactor
        self.service = MultiService()
        self.processor = server(env, mode, clock)
        udp, tcp = len(reactor.udp), len(reactor.connectors)
        self.router = Router(
            self.processor, before + "\nany => redirect_%s next 8125" % proto,
            self.service)
        self.service.startService()
        while reactor.resolving:
            host, d = reactor.resolving.pop(0)
            d.callback("10.0.0.7")
        if proto == "udp":
            self.transport = reactor.udp[udp][2]
        else:
            self.transport = reactor.connectors[tcp].succeeds()
        self.proto = proto
        self.target = target
        self.passed = 0
        self.receiver = None

    def deliver(self, cut=None):
        """What was written arrives."""
        self.reactor.run_threads()
        sent = self.transport.written[self.passed:]
        self.passed = len(self.transport.written)
        if self.receiver is None:
            self.receiver = listener(self.target, self.proto, self.reactor)
        if self.proto == "udp":
            for data, to in sent:
                self.receiver.datagramReceived(data, ("10.0.0.1", 1))
        else:
            data = "".join([d for d, to in sent])
            if cut is None:
                self.receiver.dataReceived(data)
            else:
                self.receiver.dataReceived(data[:cut])
                self.receiver.dataReceived(data[cut:])
        self.reactor.run_calls(self.reactor.now)


def server(env, mode, clock):
    return make(env, mode, clock, "pre" if mode == CONFIGURABLE else "",
                "statsd.", [sli_plugin()])


def listener(target, proto, reactor):
    from txstatsd.server.protocol import (
        StatsDServerProtocol, StatsDTCPServerFactory)
    t = FakeTransport(reactor)
    if proto == "udp":
        p = StatsDServerProtocol(target, "ping", "pong")
    else:
        p = StatsDTCPServerFactory(target, "ping", "pong").buildProtocol(None)
    p.makeConnection(t)
    return p


def message(env, i, length, alone):
    """Any message."""
    if length:
        name = env.text("name", 0, length)
        for c in ":\n\r":
            if c in name:
                env.skip()
    else:
        name = env.choice("name", NAMES if alone else NAMES[:2])
    kind = env.choice("kind", ["c", "ms", "g", "m", "sli"])
    how = env.choice("how", ["number", "word", "rate"] if alone else
                     ["number"])
    if how == "word":
        return name + ":" + env.key("value", "a-z") + "|" + kind
    text, value = env.number_text("value", -1000000.0, 1000000.0)
    if how == "rate":
        return name + ":" + text + "|" + kind + "|" + \
            env.choice("rate", ["@0.5", "@0", "@x", "@", "", "0.5"])
    return name + ":" + text + "|" + kind


def draws(env):
    state = [0]

    def draw():
        state[0] = (state[0] * 7 + 3) % 97
        return (state[0] + 1) / 100.0
    env.set_random(draw)


def relayed(env, modes, proto, before, messages, length, hops):
    clock = Clock(1000.0)
    env.set_time(clock)
    draws(env)
    reactor = FakeReactor()
    env.set_reactor(reactor)
    last = server(env, modes[1], clock)
    target, relays = last, []
    for i in range(hops):
        relay = Relay(env, modes[0], clock, proto, before if i == 0 else "",
                      target, reactor)
        relays.append(relay)
        target = relay.router
    # a server that is told what the first relay makes of the messages
    same = server(env, modes[1], clock)
    first = relays[-1]
    texts = []
    for i in range(messages):
        texts.append(message(env, i, length, messages == 1))
    rules = before if hops == 1 else ""
    from txstatsd.server.router import Router
    if hops > 1 and before:
        env.gap("rules of later relays")
    direct = Router(same, rules)
    for text in texts:
        target.process(text)
    cut = None
    if proto == "tcp" and not length:
        cut = env.choice("cut", [None, 1, 5])
    for relay in relays[::-1]:
        relay.deliver(cut)
    for text in texts:
        direct.process(text)
    clock.now = clock.now + 10.0
    for i in range(2):
        out = body(flush(last))
        alike(env, out, body(flush(same)), "as if received itself")
        if modes[0] == modes[1]:
            alike(env, out, body(flush(first.processor)),
                  "as the relay reports")
        else:
            flush(first.processor)
        clock.now = clock.now + 10.0


SCENARIOS = []
for modes in ((COMPLIANT, COMPLIANT), (CONFIGURABLE, CONFIGURABLE),
              (COMPLIANT, CONFIGURABLE), (CONFIGURABLE, COMPLIANT)):
    for proto in ("udp", "tcp"):
        for before in (RULES if modes[0] == modes[1] else RULES[:1]):
            SCENARIOS.append((relayed, {
                "modes": list(modes), "proto": proto, "before": before,
                "messages": 1, "length": 0, "hops": 1}, "quick"))
        SCENARIOS.append((relayed, {
            "modes": list(modes), "proto": proto, "before": "",
            "messages": 2, "length": 0, "hops": 1},
            "quick" if modes[0] == modes[1] else "thorough"))
        if modes[0] == modes[1]:
            SCENARIOS.append((relayed, {
                "modes": list(modes), "proto": proto, "before": "",
                "messages": 1, "length": 2, "hops": 1}, "quick"))
            SCENARIOS.append((relayed, {
                "modes": list(modes), "proto": proto, "before": "",
                "messages": 1, "length": 3, "hops": 1}, "thorough"))
            SCENARIOS.append((relayed, {
                "modes": list(modes), "proto": proto, "before": "",
                "messages": 1, "length": 0, "hops": 2}, "quick"))
            SCENARIOS.append((relayed, {
                "modes": list(modes), "proto": proto, "before": "",
                "messages": 3, "length": 0, "hops": 1}, "thorough"))
