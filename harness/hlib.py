"""Shared by the harnesses.  Python 2; runs symbolically and under Jython."""


class HarnessGap(AttributeError):
    """The code asked a stand-in for something it does not offer."""
    harness_gap = True


def planted(error):
    """An error the harness raises on purpose: the code under test must not
    let it through."""
    error.planted = True
    return error


class Fake(object):
    def __getattr__(self, name):
        raise HarnessGap("%s has no %s" % (self.__class__.__name__, name))


class Clock(object):
    """A clock the harness moves by hand."""

    def __init__(self, now=1000.0):
        self.now = now

    def __call__(self):
        return self.now


COMPLIANT = "compliant"
CONFIGURABLE = "configurable"


def make(env, mode, clock, prefix="", internal="", plugins=None):
    """A message processor of either kind."""
    if mode == COMPLIANT:
        from txstatsd.server.processor import MessageProcessor
        return MessageProcessor(time_function=clock, plugins=plugins)
    from txstatsd.server.configurableprocessor import \
        ConfigurableMessageProcessor
    return ConfigurableMessageProcessor(
        time_function=clock, message_prefix=prefix,
        internal_metrics_prefix=internal, plugins=plugins)


# names that only look alike
RELATED = [("load", "load.one"), ("load.one", "load"), ("load.one", "one"),
           ("Load", "load"), ("load_1", "load-1"), ("load", "load1")]


def two_names(env, related=False):
    """Two different names: any, or two that resemble each other."""
    if related:
        return list(env.choice("names", RELATED))
    keys = [env.key("a"), env.key("b")]
    env.assume(keys[0] != keys[1])
    return keys


def flush(processor, interval=10000, percent=90):
    """One complete flush: (name, value, timestamp) triples."""
    out = []
    for datapoint in processor.flush(interval, percent):
        name, value, timestamp = datapoint
        out.append((name, value, timestamp))
    return out


def named(out, name):
    """The values reported under a name, in order."""
    return [v for n, v, t in out if n == name]


def one(env, out, name, label):
    """The only value reported under a name."""
    vs = named(out, name)
    env.check(len(vs) == 1, label + " reported once")
    if len(vs) != 1:
        return None
    return vs[0]


def absent(env, out, name, label):
    env.check(len(named(out, name)) == 0, label)


def without(out, *prefixes):
    """Datapoints other than those under the given prefixes."""
    keep = []
    for n, v, t in out:
        for p in prefixes:
            if n.startswith(p):
                break
        else:
            keep.append((n, v, t))
    return keep


def body(out, internal="statsd."):
    """The datapoints of metrics (self statistics left out)."""
    return without(out, internal)


def bad_lines(env):
    """How many lines were logged as rejected."""
    n = 0
    for kind, args, kw in env.logs:
        if kind == "msg" and args and args[0].startswith("Bad line"):
            n += 1
    return n


def sli_plugin(rules=None):
    """A fresh service-level metric factory."""
    from twisted.plugins.sli_plugin import SLIMetricFactory
    factory = SLIMetricFactory()
    if rules is not None:
        factory.configure({"plugin_sli": {"rules": rules}})
    return factory


def same_reports(env, a, b, label):
    """Both lists report the same values under the same names, in the same
    order per name."""
    env.check(len(a) == len(b), label + ": as many datapoints")
    if len(a) != len(b):
        return
    seen = []
    for n, v, t in b:
        if n in seen:
            continue
        seen.append(n)
        x, y = named(a, n), named(b, n)
        env.check(len(x) == len(y), label + ": same names")
        if len(x) == len(y):
            for i in range(len(x)):
                env.equal(x[i], y[i], label + ": same values")


def alike(env, a, b, label):
    """As same_reports, up to the rounding of reported values."""
    env.check(len(a) == len(b), label + ": as many datapoints")
    if len(a) != len(b):
        return
    seen = []
    for n, v, t in b:
        if n in seen:
            continue
        seen.append(n)
        x, y = named(a, n), named(b, n)
        env.check(len(x) == len(y), label + ": same names")
        if len(x) == len(y):
            for i in range(len(x)):
                env.near(x[i], y[i], label + ": same values", 1.5e-6)


SAMPLE = {"c": "1", "ms": "2", "g": "3", "m": "4", "sli": "5"}


def processed(env, p, message):
    """Number of bad lines logged for one message."""
    before = bad_lines(env)
    p.process(message)
    return bad_lines(env) - before


def near(env, a, b, label):
    """Equal up to the rounding of reported values to six decimals."""
    env.near(a, b, label)


# -- stand-ins for the network -------------------------------------------------

class FakeTransport(Fake):
    """Records what is written."""

    def __init__(self, reactor=None):
        self.reactor = reactor
        self.written = []
        self.producer = None
        self.lost = 0
        self.disconnecting = False
        self.error = None

    def write(self, data, addr=None):
        if self.error is not None:
            raise planted(self.error)
        if data is None:
            return 0
        self.written.append((data, addr))
        return len(data)

    def registerProducer(self, producer, streaming):
        self.producer = producer

    def unregisterProducer(self):
        self.producer = None

    def loseConnection(self):
        self.lost += 1

    def stopListening(self):
        self.lost += 1


class FakeCall(Fake):
    def __init__(self, when, f, args, kw):
        self.when = when
        self.f = f
        self.args = args
        self.kw = kw
        self.off = False

    def cancel(self):
        self.off = True

    def active(self):
        return not self.off

    def getTime(self):
        return self.when


class FakeConnector(Fake):
    """A connection attempt, as Twisted makes it: the harness says how it
    turns out."""

    def __init__(self, reactor, factory):
        self.reactor = reactor
        self.factory = factory
        self.state = "disconnected"
        self.transport = None
        self.protocol = None
        self.attempts = 0

    def __str__(self):
        return "connector"

    # what the code may call

    def connect(self):
        if self.state != "disconnected":
            raise RuntimeError("can't connect in this state")
        self.state = "connecting"
        self.attempts += 1
        self.factory.doStart()
        self.factory.startedConnecting(self)

    def stopConnecting(self):
        from twisted.internet import error
        if self.state != "connecting":
            raise error.NotConnectingError("we're not trying to connect")
        self.fails()

    def disconnect(self):
        if self.state == "connecting":
            self.stopConnecting()
        elif self.state == "connected":
            self.transport.loseConnection()

    def getDestination(self):
        return None

    # what happens to it

    def succeeds(self):
        self.state = "connected"
        self.transport = FakeTransport(self.reactor)
        self.protocol = self.factory.buildProtocol(None)
        self.protocol.makeConnection(self.transport)
        return self.transport

    def fails(self):
        from twisted.internet import error
        from twisted.python.failure import Failure
        self.state = "disconnected"
        self.transport = None
        self.factory.clientConnectionFailed(self, Failure(error.UserError()))
        if self.state == "disconnected":
            self.factory.doStop()

    def lost(self):
        from twisted.internet import error
        from twisted.python.failure import Failure
        self.state = "disconnected"
        why = Failure(error.ConnectionLost())
        if self.transport.producer is not None:
            self.transport.producer.stopProducing()
        self.protocol.connectionLost(why)
        self.factory.clientConnectionLost(self, why)
        if self.state == "disconnected":
            self.factory.doStop()


class FakeReactor(Fake):
    """Calls and connections wait until the harness lets them happen."""

    def __init__(self, now=0.0):
        self.now = now
        self.calls = []
        self.threads = []
        self.udp = []
        self.tcp = []
        self.listening = []
        self.ports = []
        self.connectors = []
        self.resolving = []
        self.running = True

    def seconds(self):
        return self.now

    def callLater(self, delay, f, *args, **kw):
        c = FakeCall(self.now + delay, f, args, kw)
        self.calls.append(c)
        return c

    def callFromThread(self, f, *args, **kw):
        self.threads.append((f, args, kw))

    def callWhenRunning(self, f, *args, **kw):
        f(*args, **kw)

    def addSystemEventTrigger(self, *args, **kw):
        pass

    def run_threads(self):
        """Everything handed over from threads, in order."""
        while self.threads:
            f, args, kw = self.threads.pop(0)
            f(*args, **kw)

    def run_calls(self, until=None):
        """Every call due, in order of time."""
        while True:
            due = [c for c in self.calls if not c.off and
                   (until is None or c.when <= until)]
            if not due:
                break
            first = due[0]
            for c in due[1:]:
                if c.when < first.when:
                    first = c
            self.calls.remove(first)
            first.off = True
            if first.when > self.now:
                self.now = first.when
            first.f(*first.args, **first.kw)
        self.calls = [c for c in self.calls if not c.off]

    def resolve(self, name, timeout=None):
        from twisted.internet import defer
        d = defer.Deferred()
        self.resolving.append((name, d))
        return d

    def listenUDP(self, port, protocol, interface="", maxPacketSize=8192):
        t = FakeTransport(self)
        t.port = port
        t.max_size = maxPacketSize
        self.udp.append((port, protocol, t))
        protocol.makeConnection(t)
        return t

    def listenTCP(self, port, factory, backlog=50, interface=""):
        t = FakeTransport(self)
        self.listening.append((port, factory))
        self.ports.append(t)
        return t

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        self.tcp.append((host, port, factory))
        c = FakeConnector(self, factory)
        self.connectors.append(c)
        c.connect()
        return c


class Sink(object):
    """A processor that keeps what reaches it."""

    def __init__(self):
        self.got = []
        self.lines = []

    def process_message(self, message, metric_type, key, fields):
        self.got.append((message, metric_type, key, fields))

    def process(self, message):
        self.lines.append(message)

    def flush(self, interval=10000, percent=90):
        return []


# -- pages -----------------------------------------------------------------

class Request(Fake):
    """What a page needs of a request."""
    method = "GET"

    def __init__(self, path):
        self.code = 200
        self.headers = {}
        self.args = {}
        self.uri = self.path = "/" + "/".join(path)
        self.prepath = []
        self.postpath = list(path)

    def setResponseCode(self, code, message=None):
        self.code = code

    def setHeader(self, name, value):
        self.headers[name] = value


def get(root, *path):
    """The code and text of a page."""
    request = Request(path)
    page = root
    while request.postpath and not page.isLeaf:
        name = request.postpath.pop(0)
        request.prepath.append(name)
        page = page.getChildWithDefault(name, request)
    text = page.render(request)
    return request.code, text
