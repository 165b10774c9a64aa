from hlib import *

BOUNDS = ("messages with any name of 1..2 characters of a, b and dot and any "
          "type, value and rate fields; a redirect between any of 4 earlier "
          "and 3 later rules; written lines of up to 3 arbitrary bytes with "
          "any line ending; up to 5 (quick) or 7 (thorough) pause, resume "
          "and write events; up to 5 (thorough: 7) messages, connections, "
          "failures, losses and pauses of a TCP redirect, and "
          "up to 70 failures in a row")
ASSUMES = ["fields hold no line breaks of their own",
           "a connection is resumed only after it was paused, as Twisted does",
           "the retry delay of a connection has no jitter"]

BEFORE = ["", "path_like a* => rewrite a bb", "any => set_metric_type q",
          "metric_type c => rewrite b z dup"]
AFTER = ["", "any => drop", "path_like *b* => rewrite b c"]


def parent():
    from twisted.application.service import MultiService
    return MultiService()


def redirected(env, proto, before, after):
    from txstatsd.server.router import Router
    reactor = FakeReactor()
    env.set_reactor(reactor)
    env.set_time(lambda: 1000.0)
    service = parent()
    sink = Sink()
    rules = [before, "any => redirect_%s collector 8125" % proto, after]
    if env.flag("twice"):
        rules.append("metric_type q => drop")
    router = Router(sink, "\n".join(rules), service)
    service.startService()
    lines = connect(env, reactor, proto)
    name = env.text("name", 1, 2, "ab.")
    kind = env.choice("kind", ["c", "g"])
    fields = [env.key("value", "0-9.a-z-"), kind]
    if env.flag("rate"):
        fields.append("@" + env.key("rate", "0-9."))
    router.process(name + ":" + "|".join(fields))
    reactor.run_threads()
    # what the rules before the redirect make of it
    messages = [(kind, name)]
    if before == BEFORE[1] and name.startswith("a"):
        messages = [(kind, swap(name, "a", "bb"))]
    elif before == BEFORE[2]:
        messages = [("q", name)]
    elif before == BEFORE[3] and kind == "c":
        if "b" in name:
            messages = [(kind, name), (kind, swap(name, "b", "z"))]
    end = "\r\n" if proto == "tcp" else ""
    env.check(len(lines) == len(messages), "one line per message")
    if len(lines) != len(messages):
        return
    for i in range(len(messages)):
        k, n = messages[i]
        want = n + ":" + "|".join([fields[0], k] + fields[2:]) + end
        env.equal(lines[i][0], want, "line")
        if proto == "udp":
            env.equal(lines[i][1], ("10.0.0.7", 8125), "address")
    # and it goes on
    left = []
    for k, n in messages:
        if after == AFTER[1]:
            continue
        if after == AFTER[2] and "b" in n:
            n = swap(n, "b", "c")
        if k == "q" and len(rules) == 4:
            continue
        left.append((k, n))
    env.check(len(sink.got) == len(left), "the message goes on")
    if len(sink.got) == len(left):
        for i in range(len(left)):
            m, k, n, f = sink.got[i]
            env.equal((k, n), left[i], "what goes on")


def swap(name, old, new):
    return "".join([new if c == old else c for c in name])


def connect(env, reactor, proto):
    """Lets the connection happen; the list of what is written."""
    if proto == "udp":
        for host, d in reactor.resolving:
            env.equal(host, "collector", "host resolved")
            d.callback("10.0.0.7")
        env.check(len(reactor.udp) == 1, "one port")
        return reactor.udp[0][2].written
    env.check(len(reactor.tcp) == 1, "one connection")
    host, port, factory = reactor.tcp[0]
    env.equal((host, port), ("collector", 8125), "where to")
    p = factory.buildProtocol(None)
    t = FakeTransport(reactor)
    p.makeConnection(t)
    return t.written


def endings(env):
    """One CRLF, whatever the line ends with."""
    from txstatsd.server.router import TCPRedirectProtocol
    env.set_time(lambda: 1000.0)
    p = TCPRedirectProtocol()
    t = FakeTransport()
    p.makeConnection(t)
    line = env.text("line", 0, 3)
    if "\r" in line or "\n" in line:
        env.skip()
    end = env.choice("end", ["", "\r", "\r\n", "\n"])
    if len(line) == 0 and end in ("", "\n"):
        env.skip()
    p.write(line + end)
    env.check(len(t.written) == 1, "written once")
    if len(t.written) == 1 and end == "\n":
        # what becomes of a bare newline is left open
        env.check(t.written[0][0].startswith(line), "the line is there")
        env.check(t.written[0][0].endswith("\r\n"), "ends in CRLF")
    elif len(t.written) == 1:
        env.equal(t.written[0][0], line + "\r\n", "one CRLF")


def pressure(env, steps):
    from txstatsd.server.router import TCPRedirectClientFactory
    clock = Clock(1000.0)
    env.set_time(clock)
    reactor = FakeReactor()
    factory = TCPRedirectClientFactory(reactor=reactor)
    p = factory.buildProtocol(None)
    t = FakeTransport(reactor)
    p.makeConnection(t)
    env.check(t.producer is not None, "the connection can be paused")
    if t.producer is None:
        return
    paused = False
    dropped = 0
    want = []
    for i in range(steps):
        step = env.choice("step", ["write", "pause", "resume"])
        clock.now = clock.now + 1.0
        if step == "write":
            line = env.key("line")
            factory.write(line)
            if paused:
                dropped += 1
            else:
                want.append(line + "\r\n")
        elif step == "pause":
            if env.flag("stop"):
                t.producer.stopProducing()
            else:
                t.producer.pauseProducing()
            paused = True
        elif paused:
            before = len(env.logs)
            t.producer.resumeProducing()
            texts = [a[0] for k, a, w in env.logs[before:] if k == "msg"]
            said = [x for x in texts if "%d messages" % dropped in x]
            env.check(len(said) == 1, "dropped messages are counted")
            paused = False
            dropped = 0
    if paused:
        t.producer.resumeProducing()
    factory.write("last:1|c")
    want.append("last:1|c\r\n")
    env.equal([d for d, a in t.written], want, "everything not dropped, once")


def pressure_lasts(env, most):
    """However many messages are dropped, the pause goes on."""
    from txstatsd.server.router import TCPRedirectClientFactory
    clock = Clock(1000.0)
    env.set_time(clock)
    reactor = FakeReactor()
    factory = TCPRedirectClientFactory(reactor=reactor)
    p = factory.buildProtocol(None)
    t = FakeTransport(reactor)
    p.makeConnection(t)
    for n in env.choice("dropped", most):
        t.producer.pauseProducing()
        for i in range(n):
            clock.now = clock.now + 0.5
            factory.write("a%d:1|c" % i)
        env.equal(len(t.written), 0, "nothing is sent while paused")
        before = len(env.logs)
        t.producer.resumeProducing()
        texts = [a[0] for k, a, w in env.logs[before:] if k == "msg"]
        env.check(len([x for x in texts if "%d messages" % n in x]) == 1,
                  "dropped messages are counted")
    factory.write("last:1|c")
    env.equal([d for d, a in t.written], ["last:1|c\r\n"], "and then again")


def reconnecting(env, steps, via):
    """The connection comes and goes."""
    from txstatsd.server.router import (Router, TCPRedirectClientFactory,
                                        TCPRedirectService)
    env.set_random(lambda: 0.5)
    reactor = FakeReactor(1000)
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    sink = Sink()
    if via == "rules":
        service = parent()
        router = Router(sink, "any => redirect_tcp collector 8125", service)
        send = router.process
    else:
        factory = TCPRedirectClientFactory(reactor=reactor)
        service = TCPRedirectService("collector", 8125, factory, reactor)
        send = factory.write
    service.startService()
    env.check(len(reactor.connectors) == 1, "one connection")
    if len(reactor.connectors) != 1:
        return
    c = reactor.connectors[0]
    c.factory.jitter = 0
    transports = []
    want = []
    sent = 0
    paused = False
    for i in range(steps):
        step = env.choice("step", ["send", "up", "down", "pause"])
        if step == "send":
            line = "m%d:%d|c" % (sent, sent)
            send(line)
            sent += 1
            if via == "rules":
                env.check(len(sink.got) == sent, "the message goes on")
            if c.state == "connected" and not paused:
                want[len(want) - 1].append(line + "\r\n")
        elif step == "up":
            if c.state != "connecting":
                env.skip()
            transports.append(c.succeeds())
            want.append([])
            paused = False
        elif step == "pause":
            if c.state != "connected":
                env.skip()
            if paused:
                transports[-1].producer.resumeProducing()
            else:
                transports[-1].producer.pauseProducing()
            paused = not paused
        else:
            attempts = c.attempts
            failures = 0
            if c.state == "connected":
                c.lost()
                patience = 4
            else:
                c.fails()
                patience = 3600
            env.check(c.state == "disconnected", "not at once")
            reactor.run_calls(reactor.now + patience)
            env.check(c.state == "connecting", "tries again")
            env.check(c.attempts == attempts + 1, "tries again once")
        for k in range(len(transports)):
            env.equal([d for d, a in transports[k].written], want[k],
                      "sent over the connection of the moment, once")
    env.check(len(reactor.connectors) == 1, "no other connection")


def patient(env, failures):
    """However often it fails, another attempt is made within an hour."""
    from txstatsd.server.router import (TCPRedirectClientFactory,
                                        TCPRedirectService)
    env.set_random(lambda: 0.5)
    reactor = FakeReactor(1000)
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    factory = TCPRedirectClientFactory(reactor=reactor)
    service = TCPRedirectService("collector", 8125, factory, reactor)
    service.startService()
    c = reactor.connectors[0]
    c.factory.jitter = 0
    n = env.choice("failures", failures)
    for i in range(n):
        c.fails()
        reactor.run_calls(reactor.now + 3600)
        env.check(c.attempts == i + 2, "tries again within an hour")
    t = c.succeeds()
    factory.write("a:1|c")
    env.equal([d for d, a in t.written], ["a:1|c\r\n"], "sent at last")
    c.lost()
    reactor.run_calls(reactor.now + 4)
    env.check(c.attempts == n + 2, "soon again after a success")
    t = c.succeeds()
    factory.write("b:1|c")
    env.equal([d for d, a in t.written], ["b:1|c\r\n"],
              "over the new connection")


def alone(env, proto):
    """Without a service to attach to, the message just goes on."""
    from txstatsd.server.router import Router
    sink = Sink()
    router = Router(sink, "any => redirect_%s collector 8125" % proto)
    name = env.key("name")
    router.process(name + ":1|c")
    env.check(len(sink.got) == 1, "the message goes on")


SCENARIOS = [(endings, {}, "quick"),
             (pressure, {"steps": 5}, "quick"),
             (pressure, {"steps": 7}, "thorough"),
             (pressure_lasts, {"most": [[300], [1500, 2]]}, "quick")]
for v in ("rules", "factory"):
    SCENARIOS.append((reconnecting, {"steps": 5, "via": v}, "quick"))
    SCENARIOS.append((reconnecting, {"steps": 7, "via": v}, "thorough"))
SCENARIOS.append((patient, {"failures": [0, 1, 5, 20, 70]}, "quick"))
for p in ("udp", "tcp"):
    SCENARIOS.append((alone, {"proto": p}, "quick"))
    for b in BEFORE:
        for a in AFTER:
            SCENARIOS.append((redirected, {"proto": p, "before": b,
                                           "after": a}, "quick"))
