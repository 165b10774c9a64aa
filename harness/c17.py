from hlib import *

BOUNDS = ("sequences of up to 5 (quick) or 6 (thorough) events out of write, "
          "resolve, connect, disconnect and running what was handed to the "
          "reactor's thread, a fault of any kind at any send, messages of "
          "any text, queues of 999 to 1003 messages")
ASSUMES = ["a name resolves at most once, and to an address",
           "messages are written from one thread; a transport is not used "
           "after its disconnection unless the message was handed over before"]

FAULTS = ["none", "socket", "gaierror", "TypeError", "OverflowError"]


class Transport(Fake):
    """Keeps every attempt to send."""

    def __init__(self, env, faults):
        self.env = env
        self.faults = faults
        self.sent = []
        self.outcomes = []

    def write(self, data, addr=None):
        import socket
        self.sent.append((data, addr))
        fault = "none"
        if self.faults:
            fault = self.env.choice("fault", FAULTS)
        self.outcomes.append(None)
        if fault == "socket":
            raise planted(socket.error(11, "unavailable"))
        if fault == "gaierror":
            raise planted(socket.gaierror(2, "unknown"))
        if fault == "TypeError":
            raise planted(TypeError("not resolved"))
        if fault == "OverflowError":
            raise planted(OverflowError("port"))
        n = 7 + len(self.outcomes)
        self.outcomes[-1] = n
        return n


class Told(object):
    def __init__(self):
        self.outcomes = []

    def __call__(self, outcome):
        self.outcomes.append(outcome)


class Watch(object):
    """Writes messages and follows what becomes of them."""

    def __init__(self, env, client, faults=False):
        self.env = env
        self.client = client
        self.faults = faults
        self.transports = []
        self.settled = []
        self.expected = []
        self.told = []

    def connect(self, how):
        from txstatsd.protocol import StatsDClientProtocol
        t = Transport(self.env, self.faults)
        self.settled = [len(old.sent) for old in self.transports]
        self.transports.append(t)
        if how == "protocol":
            self.protocol = StatsDClientProtocol(self.client)
            self.protocol.makeConnection(t)
        else:
            self.client.connect(t)

    def disconnect(self, how):
        if how == "protocol":
            self.protocol.doStop()
        else:
            self.client.disconnect()

    def write(self, data, callback=True):
        told = None
        if callback:
            told = Told()
            self.client.write(data, told)
        else:
            self.client.write(data)
        self.expected.append(data)
        self.told.append(told)

    def arrived(self, host, port, label):
        """Everything written so far was sent, in order, once."""
        env = self.env
        sent = []
        outcomes = []
        for t in self.transports:
            sent.extend(t.sent)
            outcomes.extend(t.outcomes)
        for i in range(len(self.settled)):
            env.check(len(self.transports[i].sent) == self.settled[i],
                      label + ": nothing sent through a former transport")
        env.check(len(sent) == len(self.expected), label + ": sent once")
        if len(sent) != len(self.expected):
            return
        for i in range(len(sent)):
            env.equal(sent[i][0], self.expected[i], label + ": in order")
            env.equal(sent[i][1], (host, port), label + ": address")
            if self.told[i] is not None:
                env.check(len(self.told[i].outcomes) == 1,
                          label + ": told the outcome once")
                if len(self.told[i].outcomes) == 1:
                    env.check(self.told[i].outcomes[0] == outcomes[i],
                              label + ": told the outcome")


def start(env, host, events=None):
    from txstatsd.client import TwistedStatsDClient
    reactor = FakeReactor()
    env.set_reactor(reactor)
    events = [] if events is None else events
    client = TwistedStatsDClient.create(
        host, 8125, lambda: events.append("up"), lambda: events.append("down"),
        reactor=reactor)
    return reactor, client


def orders(env, steps, how, faults, host):
    events = []
    reactor, client = start(env, host, events)
    w = Watch(env, client, faults)
    resolved = host != "collector"
    address = host if resolved else "10.0.0.7"
    connected = False
    handed = 0
    for i in range(steps):
        options = ["write", "run"]
        if not resolved:
            options.append("resolve")
        options.append("disconnect" if connected else "connect")
        step = env.choice("step", options)
        if step == "write":
            w.write("m%d:" % i + env.key("text"), i % 2 == 0 or faults)
        elif step == "run":
            reactor.run_threads()
        elif step == "resolve":
            name, d = reactor.resolving[0]
            env.equal(name, host, "name resolved")
            d.callback(address)
            resolved = True
        elif step == "connect":
            w.connect(how)
            connected = True
        else:
            # the reactor's thread runs what it has before that
            reactor.run_threads()
            w.disconnect(how)
            connected = False
        if resolved and connected:
            reactor.run_threads()
            w.arrived(address, 8125, "by now")
    if not resolved:
        reactor.resolving[0][1].callback(address)
    if not connected:
        w.connect(how)
    w.write("last:1|c")
    reactor.run_threads()
    w.arrived(address, 8125, "at last")
    env.check(env.errors_logged() == 0, "nothing fails")
    if host == "collector":
        env.check(events.count("up") == 1, "told about the connection")


def full(env, first):
    """The queue keeps the first thousand messages."""
    reactor, client = start(env, "collector")
    w = Watch(env, client)
    n = env.choice("messages", [999, 1000, 1001, 1003])
    early = env.choice("early", [0, 1, 999, 1000])
    kept = 0
    for i in range(n):
        told = Told()
        client.write("m%d:1|c" % i, told)
        if i < 1000:
            w.expected.append("m%d:1|c" % i)
            w.told.append(told)
        if i == early:
            # one of the two does not empty the queue
            if first == "resolve":
                reactor.resolving[0][1].callback("10.0.0.7")
            else:
                w.connect("client")
            reactor.run_threads()
    if n > early:
        env.reached("half connected in between")
    else:
        if first == "resolve":
            reactor.resolving[0][1].callback("10.0.0.7")
        else:
            w.connect("client")
    if first == "resolve":
        w.connect("client")
    else:
        reactor.resolving[0][1].callback("10.0.0.7")
    # the queue is gone: everything is sent from now on
    w.write("late:1|c")
    reactor.run_threads()
    w.arrived("10.0.0.7", 8125, "kept")
    if env.flag("again"):
        w.client.disconnect()
        for i in range(1001):
            if i < 1000:
                w.write("n%d:1|c" % i)
            else:
                client.write("n%d:1|c" % i)
        w.connect("client")
        reactor.run_threads()
        w.arrived("10.0.0.7", 8125, "kept again")


def unresolved(env):
    """A failing resolution reaches the errback, or the log, only."""
    from txstatsd.client import TwistedStatsDClient
    reactor = FakeReactor()
    env.set_reactor(reactor)
    failures = []
    own = env.flag("errback")
    if own:
        client = TwistedStatsDClient.create(
            "collector", 8125, resolver_errback=failures.append,
            reactor=reactor)
    else:
        client = TwistedStatsDClient.create("collector", 8125,
                                            reactor=reactor)
    w = Watch(env, client)
    if env.flag("write before"):
        client.write("a:1|c")
    if env.flag("connected"):
        w.connect("protocol")
    reactor.resolving[0][1].errback(RuntimeError("no such host"))
    client.write("b:1|c", Told())
    reactor.run_threads()
    for t in w.transports:
        env.check(t.sent == [], "nothing is sent")
    env.check(len(failures) == (1 if own else 0), "errback called")
    env.check(env.errors_logged() == (0 if own else 1), "failure logged")


def upon(env, first):
    """Messages written when told about the connection come in order too."""
    from txstatsd.client import TwistedStatsDClient
    reactor = FakeReactor()
    env.set_reactor(reactor)
    w = Watch(env, None)
    client = TwistedStatsDClient.create(
        "collector", 8125, lambda: w.write("upon:1|c"), reactor=reactor)
    w.client = client
    w.write("before:1|c")
    if first == "connect":
        w.connect("protocol")
    w.write("middle:1|c")
    reactor.resolving[0][1].callback("10.0.0.7")
    w.write("then:1|c")
    if first != "connect":
        w.connect("protocol")
    w.write("after:1|c")
    reactor.run_threads()
    w.arrived("10.0.0.7", 8125, "in all")


SCENARIOS = [(unresolved, {}, "quick"),
             (upon, {"first": "connect"}, "quick"),
             (upon, {"first": "resolve"}, "quick"),
             (full, {"first": "resolve"}, "quick"),
             (full, {"first": "connect"}, "quick")]
for how in ("protocol", "client"):
    for host in ("collector", "10.0.0.1"):
        SCENARIOS.append((orders, {"steps": 5, "how": how, "host": host,
                                   "faults": False}, "quick"))
SCENARIOS.append((orders, {"steps": 3, "how": "protocol", "faults": True,
                           "host": "collector"}, "quick"))
SCENARIOS.append((orders, {"steps": 4, "how": "client", "faults": True,
                           "host": "collector"}, "thorough"))
SCENARIOS.append((orders, {"steps": 6, "how": "client", "faults": False,
                           "host": "collector"}, "thorough"))
