from hlib import *

BOUNDS = ("up to 3 datagrams or lines of up to 3 (thorough 4) arbitrary bytes "
          "each, monitoring texts of up to 3 arbitrary bytes or any length by "
          "name, configured or not; streams of up to 5 (thorough 7) arbitrary "
          "bytes, and of up to 4 whole lines, in every split into up to 3 "
          "chunks, on up to 2 connections; "
          "lines and datagrams of 16000 characters; 400 messages in a row")
ASSUMES = ["lines are at most 16384 bytes long"]


class Stream(FakeTransport):
    """A connection: writing returns nothing."""

    def write(self, data, addr=None):
        FakeTransport.write(self, data, addr)


def protocol(env, kind, sink, ping, pong):
    from txstatsd.server import protocol as p
    if kind == "udp":
        made = p.StatsDServerProtocol(sink, ping, pong)
    else:
        factory = p.StatsDTCPServerFactory(sink, ping, pong)
        made = factory.buildProtocol(None)
    reactor = FakeReactor()
    env.set_reactor(reactor)
    made.makeConnection(FakeTransport(reactor) if kind == "udp" else
                        Stream(reactor))
    return made, reactor


def texts(env, how):
    if how == "none":
        return None, None
    if how == "short":
        return env.text("ping", 0, 3), env.text("pong", 0, 2)
    return env.key("ping", "a-z "), env.key("pong", "a-z ")


def message(env, what, ping, i):
    if what == "short":
        return env.text("data%d" % i, 0, 3)
    if what == "ping":
        env.assume(ping is not None)
        return ping
    if what == "more":
        env.assume(ping is not None)
        return ping + env.text("tail", 1, 1)
    return env.key("name", "a-z") + ":" + "17|c"


def is_ping(data, ping):
    return ping is not None and data == ping


def settled(env, sink, transport, messages, replies):
    env.check(len(sink.lines) == len(messages), "processed exactly once")
    if len(sink.lines) == len(messages):
        for a, b in zip(sink.lines, messages):
            env.equal(a, b, "unmodified and in order")
    env.check(not transport.lost, "nothing is closed")
    env.check(len(transport.written) == len(replies), "answers to pings only")
    if len(transport.written) == len(replies):
        for a, b in zip(transport.written, replies):
            env.equal(a[0], b[0], "the configured answer")
            env.equal(a[1], b[1], "to the sender")


def udp(env, how, kinds, later):
    sink = Sink()
    ping, pong = texts(env, how)
    p, reactor = protocol(env, "udp", sink, ping, pong)
    messages = []
    replies = []
    for i, kind in enumerate(kinds):
        data = message(env, kind, ping, i)
        sender = ("10.0.0.%d" % i, env.int("port", 1, 65535))
        p.datagramReceived(data, sender)
        if is_ping(data, ping):
            replies.append((pong, sender))
        else:
            messages.append(data)
        if not later:
            reactor.run_calls()
    reactor.run_calls()
    settled(env, sink, p.transport, messages, replies)


def feed(p, chunks):
    """As the transport does: what is returned ends the connection."""
    for chunk in chunks:
        if p.dataReceived(chunk):
            return False
    return True


def chunked(env, stream, cuts):
    """A stream of a known length in pieces."""
    n = len(stream)
    at = 0
    out = []
    for i in range(cuts):
        to = env.choice("cut", range(at, n + 1))
        if to > at:
            out.append(stream[at:to])
        at = to
    if n > at:
        out.append(stream[at:])
    return out


def raw(env, length, cuts, how):
    """Any bytes whatsoever."""
    sink = Sink()
    ping, pong = texts(env, how)
    p, reactor = protocol(env, "tcp", sink, ping, pong)
    stream = env.text("stream", length, length, "\r\na")
    lines = stream.split("\r\n")[:-1]
    kept = feed(p, chunked(env, stream, cuts))
    env.check(kept, "the connection stays")
    reactor.run_calls()
    settled(env, sink, p.transport,
            [l for l in lines if not is_ping(l, ping)],
            [(pong, None) for l in lines if is_ping(l, ping)])


def tcp(env, how, kinds, chunks):
    """Whole lines, several or one or less to a chunk."""
    sink = Sink()
    ping, pong = texts(env, how)
    env.assume(ping is None or ("\r" not in ping and "\n" not in ping))
    p, reactor = protocol(env, "tcp", sink, ping, pong)
    messages = []
    replies = []
    pieces = []
    for i, kind in enumerate(kinds):
        data = message(env, kind, ping, i)
        env.assume("\r" not in data and "\n" not in data)
        if is_ping(data, ping):
            replies.append((pong, None))
        else:
            messages.append(data)
        if chunks == "split":
            pieces.extend([data + "\r", "\n"])
        elif chunks == "shifted" and pieces:
            pieces[-1] = pieces[-1] + data
            pieces.append("\r\n")
        else:
            pieces.append(data + "\r\n")
    if chunks == "one":
        pieces = ["".join(pieces)]
    if chunks == "tail":
        pieces = ["".join(pieces) + "unfinished"]
    env.check(feed(p, pieces), "the connection stays")
    reactor.run_calls()
    settled(env, sink, p.transport, messages, replies)


def two(env):
    """Two connections share the processor and nothing else."""
    from txstatsd.server import protocol as p
    sink = Sink()
    ping, pong = texts(env, "named")
    factory = p.StatsDTCPServerFactory(sink, ping, pong)
    reactor = FakeReactor()
    env.set_reactor(reactor)
    a = factory.buildProtocol(None)
    b = factory.buildProtocol(None)
    a.makeConnection(Stream(reactor))
    b.makeConnection(Stream(reactor))
    x = env.key("x", "a-z") + ":1|c"
    y = env.key("y", "a-z") + ":2|c"
    order = env.choice("order", ["aabb", "abab", "abba"])
    parts = {"a": [x[:1], x[1:] + "\r\n"],
             "b": ["", y + "\r\n" + ping + "\r\n"]}
    for who in order:
        part = parts[who].pop(0)
        if part:
            env.check(feed(a if who == "a" else b, [part]),
                      "the connection stays")
    reactor.run_calls()
    if order == "abba":
        want = [y, x]
    else:
        want = [x, y]
    settled(env, sink, b.transport, want, [(pong, None)])
    env.check(len(a.transport.written) == 0, "only the sender is answered")


def long(env, kind, length):
    """A message may be long."""
    sink = Sink()
    p, reactor = protocol(env, kind, sink, "ping", "pong")
    data = env.key("name", "a-z") + "." * length + ":17|c"
    if kind == "udp":
        p.datagramReceived(data, ("10.0.0.1", 4000))
        p.datagramReceived("ping", ("10.0.0.1", 4000))
    else:
        env.check(feed(p, [data[:9000], data[9000:] + "\r\nping\r\n"]),
                  "the connection stays")
    reactor.run_calls()
    settled(env, sink, p.transport, [data],
            [("pong", ("10.0.0.1", 4000) if kind == "udp" else None)])


def many(env, kind, count):
    """Nor does it matter how many come at once."""
    sink = Sink()
    p, reactor = protocol(env, kind, sink, "ping", "pong")
    name = env.key("name", "a-z")
    sent = []
    pongs = []
    for i in range(count):
        if i % 10 == 0:
            data = "ping"
            pongs.append(("pong", ("10.0.0.1", i) if kind == "udp" else None))
        else:
            data = name + ":%d|c" % i
            sent.append(data)
        if kind == "udp":
            p.datagramReceived(data, ("10.0.0.1", i))
        else:
            env.check(feed(p, [data + "\r\n"]), "the connection stays")
        if i % 100 == 99:
            reactor.run_calls()
    settled(env, sink, p.transport, sent, pongs)


SCENARIOS = []
for kind in ("udp", "tcp"):
    SCENARIOS.append((long, {"kind": kind, "length": 16000}, "quick"))
    SCENARIOS.append((many, {"kind": kind, "count": 400}, "quick"))
for how in ("none", "short", "named"):
    SCENARIOS.append((udp, {"how": how, "kinds": ["short"], "later": True},
                      "quick"))
for later in (False, True):
    SCENARIOS.append((udp, {"how": "named", "kinds": ["name", "ping", "more"],
                            "later": later}, "quick"))
    SCENARIOS.append((udp, {"how": "short", "kinds": ["ping", "short"],
                            "later": later}, "quick"))
    SCENARIOS.append((udp, {"how": "none", "kinds": ["name", "short", "name"],
                            "later": later}, "quick"))
for n in range(1, 6):
    SCENARIOS.append((raw, {"length": n, "cuts": 1, "how": "none"}, "quick"))
SCENARIOS.append((raw, {"length": 4, "cuts": 2, "how": "none"}, "quick"))
SCENARIOS.append((raw, {"length": 3, "cuts": 1, "how": "named"}, "quick"))
SCENARIOS.append((raw, {"length": 3, "cuts": 0, "how": "short"}, "quick"))
for n in (5, 6, 7):
    SCENARIOS.append((raw, {"length": n, "cuts": 2, "how": "none"},
                      "thorough"))
for c in ("each", "one", "split", "shifted", "tail"):
    SCENARIOS.append((tcp, {"how": "named", "chunks": c,
                            "kinds": ["name", "ping", "more", "name"]},
                      "quick"))
    SCENARIOS.append((tcp, {"how": "none", "chunks": c,
                            "kinds": ["name", "short"]}, "quick"))
    SCENARIOS.append((tcp, {"how": "short", "chunks": c,
                            "kinds": ["ping", "short"]}, "quick"))
    SCENARIOS.append((tcp, {"how": "short", "chunks": c,
                            "kinds": ["short", "short", "ping"]}, "thorough"))
SCENARIOS.append((two, {}, "quick"))
