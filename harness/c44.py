from hlib import *

BOUNDS = ("two of every kind of object with a state, used in the same way with "
          "other values: the first used up before the second is made, both in "
          "turns, or the first used while the second rests; any values; every "
          "metric type in either mode")
ASSUMES = ["what a process has once by design is left out: carbon's settings "
           "and statistics, the log, and dump mode, which uses the log"]

PATTERNS = ["before", "turns", "between"]
NODES = ["red", "green", "blue"]


class Kit(object):
    """How an object of one kind is made and used.  do() takes a step and the
    value that goes with it, and gives what can be seen of the object."""
    steps = 3

    def __init__(self, env, mode):
        self.env = env
        self.mode = mode

    def value(self, step, mine):
        """The value for a step: another one for the other object."""
        if mine:
            return self.env.real("value", 0.0, 1000.0)
        return [3.25, 700.5, 41.0, 8.0, 99.0][step % 5]


class Server(Kit):
    """A message processor; the mode names the type too."""
    steps = 4

    def __init__(self, env, mode, kinds, shared):
        Kit.__init__(self, env, mode)
        self.kinds = kinds
        self.plugins = None
        if shared:
            self.plugins = self.fresh()

    def fresh(self):
        from twisted.plugins.distinct_plugin import DistinctMetricFactory
        return [sli_plugin("* => slow IF above 10"), DistinctMetricFactory()]

    def make(self, mine, clock):
        plugins = self.plugins
        if plugins is None:
            plugins = self.fresh()
            if not mine:
                plugins[0] = sli_plugin("* => slow IF below 500\n"
                                        "* => other IF above 7")
        return make(self.env, self.mode, clock, "pre", "pre.own.", plugins)

    def value(self, step, mine):
        out = []
        for k in self.kinds:
            if mine:
                text, v = self.env.number_text("value", 0.0, 1000000.0)
                if k == "pd":
                    text = self.env.choice("item", ["red", "blue"])
            else:
                text = ["5", "600.5", "red", "7"][step % 4]
            out.append("load:" + text + "|" + k)
        if not mine:
            out.append("not a message")
            out.append("theirs:1|" + self.kinds[0])
        return out

    def do(self, p, step, value):
        if step == 1 or step == 3:
            return [(n, v) for n, v, t in flush(p)] + \
                [("names", n) for n in sorted(p.get_metric_names())]
        for message in value:
            p.process(message)
        return []


class Caller(Kit):
    """A client's calls."""
    steps = 5

    def make(self, mine, clock):
        connection = Lines()
        if self.mode == "extended":
            from txstatsd.metrics.extendedmetrics import ExtendedMetrics
            made = ExtendedMetrics
        else:
            from txstatsd.metrics.metrics import Metrics
            made = Metrics
        return connection, made(connection, "app" if mine else "other"), clock

    def value(self, step, mine):
        if mine:
            return self.env.int("value", -1000, 1000)
        return step + 3

    def do(self, made, step, value):
        connection, metrics, clock = made
        del connection.sent[:]
        if step == 0:
            metrics.increment("hits", value)
            metrics.reset_timing()
            metrics.gauge("level", value)
        elif step == 1:
            metrics.decrement("hits", value)
            metrics.meter("rate", value)
        elif step == 2:
            metrics.timing("took")
            metrics.distinct("who", "x")
        elif step == 3:
            metrics.clear("hits")
        else:
            metrics.increment("hits", value)
            metrics.sli("level2", value)
        return [("line", x) for x in connection.sent]


class Lines(Fake):
    def __init__(self):
        self.sent = []

    def write(self, data):
        self.sent.append(data)


class Sample(Kit):
    """The reservoirs and what is computed from them."""
    steps = 4

    def make(self, mine, clock):
        if self.mode == "uniform":
            from txstatsd.stats.uniformsample import UniformSample
            return UniformSample(3)
        if self.mode == "decaying":
            from txstatsd.stats.exponentiallydecayingsample import \
                ExponentiallyDecayingSample
            return ExponentiallyDecayingSample(3, 0.015, clock)
        from txstatsd.metrics.histogrammetric import HistogramMetricReporter
        return HistogramMetricReporter.using_uniform_sample()

    def do(self, s, step, value):
        if step == 3 and self.mode != "histogram":
            s.clear()
        s.update(value)
        if self.mode == "uniform":
            return [("size", s.size())] + \
                [("value", v) for v in s.get_values()]
        if self.mode == "decaying":
            return [("size", s.size())] + \
                [("value", v) for v in sorted(s.get_values())]
        return [("min", s.min()), ("max", s.max()), ("mean", s.mean()),
                ("deviation", s.std_dev()),
                ("median", s.percentiles(0.5)[0])]


class Average(Kit):
    steps = 5

    def make(self, mine, clock):
        from txstatsd.stats.ewma import Ewma
        if mine:
            return Ewma(0.5, 5)
        return Ewma.one_minute_ewma()

    def do(self, e, step, value):
        if step % 2 == 0:
            e.update(value)
            return []
        e.tick()
        return [("rate", e.rate)]


class Distinct(Kit):
    steps = 4

    def make(self, mine, clock):
        from txstatsd.metrics.distinctmetric import SlidingDistinctCounter
        return SlidingDistinctCounter(2, 4)

    def value(self, step, mine):
        if mine:
            return self.env.choice("item", ["a", "bb"])
        return ["c", "dd", "a", "e"][step]

    def do(self, d, step, value):
        d.add(1000 + step, value)
        return [("all", d.distinct()), ("late", d.distinct(1001))]


class Ring(Kit):
    steps = 3

    def make(self, mine, clock):
        from txstatsd.hashing import ConsistentHashRing
        return ConsistentHashRing(NODES if mine else ["purple", "red"], 2)

    def value(self, step, mine):
        return self.env.choice("node", NODES[:2]) if mine else "grey"

    def do(self, r, step, value):
        if step == 1:
            r.remove_node(value)
        elif step == 2:
            r.add_node(value)
        out = []
        for k in ("k", "key", "another"):
            out.append(("node", r.get_node(k)))
            out.extend([("nodes", n) for n in r.get_nodes(k)])
        return out


class Sender(Kit):
    """The client that sends when it can."""
    steps = 5

    def make(self, mine, clock):
        from txstatsd.protocol import TwistedStatsDClient
        reactor = FakeReactor(1000)
        t = FakeTransport(reactor)
        c = TwistedStatsDClient.create("host%d" % mine, 8125, reactor=reactor)
        return reactor, t, c

    def value(self, step, mine):
        if mine:
            return self.env.key("line")
        return "theirs%d" % step

    def do(self, made, step, value):
        reactor, t, c = made
        t.written = []
        c.write(value)
        if step == 1:
            for host, d in reactor.resolving:
                d.callback("10.0.0.1" if host == "host1" else "10.0.0.2")
        elif step == 2:
            c.connect(t)
        elif step == 3:
            c.disconnect()
        reactor.run_threads()
        return [("data", d) for d, to in t.written] + \
            [("host", to[0]) for d, to in t.written]


class Redirect(Kit):
    """A connection of a redirect."""
    steps = 5

    def make(self, mine, clock):
        from txstatsd.server.router import TCPRedirectClientFactory
        reactor = FakeReactor(1000)
        f = TCPRedirectClientFactory(reactor=reactor)
        t = FakeTransport(reactor)
        f.buildProtocol(None).makeConnection(t)
        return f, t

    def value(self, step, mine):
        if mine:
            return self.env.key("line")
        return "theirs%d" % step

    def do(self, made, step, value):
        f, t = made
        t.written = []
        f.write(value)
        if step == 1:
            t.producer.pauseProducing()
        elif step == 3:
            t.producer.resumeProducing()
        return [("data", d) for d, to in t.written]


class Rules(Kit):
    """A router."""
    steps = 3

    def make(self, mine, clock):
        from txstatsd.server.router import Router
        sink = Sink()
        rules = "path_like a* => rewrite a x dup"
        if not mine:
            rules = "metric_type c => drop\nany => set_metric_type g"
        return sink, Router(sink, rules)

    def value(self, step, mine):
        if mine:
            return self.env.choice("name", ["a", "b"]) + ":1|" + \
                self.env.choice("kind", ["c", "ms"])
        return "a%d:1|%s" % (step, "cmg"[step])

    def do(self, made, step, value):
        sink, router = made
        del sink.got[:]
        router.process(value)
        return [("message", m) for m, k, n, f in sink.got]


class Differences(Kit):
    """A difference report."""
    steps = 4

    def make(self, mine, clock):
        from txstatsd.process import report_counters
        reading = {}

        def read():
            return dict(reading)
        return reading, report_counters(read)

    def do(self, made, step, value):
        reading, report = made
        reading["a"] = value
        if step > 1:
            reading["b"] = value
        got = report()
        return [(k, got[k]) for k in sorted(got)]


class Service(Kit):
    """A reporting service."""
    steps = 5

    def make(self, mine, clock):
        from txstatsd.report import ReportingService
        reactor = FakeReactor(1000)
        self.env.set_time(lambda: reactor.now)
        s = ReportingService("mine" if mine else "theirs", reactor)
        got = []
        reading = [0]

        def read():
            return {"a": reading[0]}
        s.schedule(read, 10, lambda n, v: got.append((n, v)))
        return reactor, s, got, reading

    def do(self, made, step, value):
        reactor, s, got, reading = made
        del got[:]
        reading[0] = value
        if step == 0:
            s.startService()
        elif step == 3:
            s.stopService()
        reactor.now = reactor.now + 10
        reactor.run_calls(reactor.now)
        return list(got)


class Parser(Kit):
    """Options."""
    steps = 2

    def make(self, mine, clock):
        from txstatsd.service import StatsDOptions
        return StatsDOptions()

    def value(self, step, mine):
        if mine:
            return self.env.key("text", "a-z")
        return "theirs"

    def do(self, o, step, value):
        if step == 0:
            o.parseOptions(["--prefix", value, "-h", value, "-n", value])
        return [("prefix", o["prefix"]), ("routing", o["routing"]),
                ("instance", o["instance-name"]),
                ("hosts", list(o["carbon-cache-host"])),
                ("ports", list(o["carbon-cache-port"])),
                ("names", list(o["carbon-cache-name"]))]


KITS = {"client": Caller, "extended": Caller, "uniform": Sample,
        "decaying": Sample, "histogram": Sample, "ewma": Average,
        "distinct": Distinct, "ring": Ring, "sender": Sender,
        "redirect": Redirect, "router": Rules, "differences": Differences,
        "reporting": Service, "options": Parser}


def apart(env, what, kinds, shared):
    """What is seen of an object does not depend on another one."""
    clock = Clock(1000.0)
    env.set_time(clock)
    env.set_random(lambda: 0.5)
    env.set_randint(lambda a, b: 7)
    if what in (COMPLIANT, CONFIGURABLE):
        kit = Server(env, what, kinds, shared)
    else:
        kit = KITS[what](env, what)
    mine = [kit.value(i, True) for i in range(kit.steps)]
    theirs = [kit.value(i, False) for i in range(kit.steps)]

    # alone
    alone = kit.make(True, clock)
    want = []
    for i in range(kit.steps):
        clock.now = 1010.0 + 10 * i
        want.append(kit.do(alone, i, mine[i]))

    # and in company
    clock.now = 1000.0
    pattern = env.choice("pattern", PATTERNS)
    rest = kit.steps // 2

    def use(i, obj):
        clock.now = 1010.0 + 10 * i
        kit.do(obj, i, theirs[i])
    other = None
    if pattern == "before":
        other = kit.make(False, clock)
        for i in range(kit.steps):
            use(i, other)
    clock.now = 1000.0
    obj = kit.make(True, clock)
    if pattern == "turns":
        other = kit.make(False, clock)
    for i in range(kit.steps):
        if pattern == "turns":
            use(i, other)
        elif pattern == "between" and i == rest:
            other = kit.make(False, clock)
            for j in range(kit.steps):
                use(j, other)
        clock.now = 1010.0 + 10 * i
        got = kit.do(obj, i, mine[i])
        env.check(len(got) == len(want[i]), "as much is seen")
        if len(got) != len(want[i]):
            return
        for j in range(len(got)):
            env.equal(got[j][0], want[i][j][0], "the same is seen")
            env.equal(got[j][1], want[i][j][1], "its value is the same")


SCENARIOS = []
for mode in (COMPLIANT, CONFIGURABLE):
    for kinds in (["c"], ["ms"], ["g"], ["m"], ["sli"], ["pd"]):
        for shared in (False, True):
            if shared and kinds[0] not in ("sli", "pd"):
                continue
            SCENARIOS.append((apart, {"what": mode, "kinds": kinds,
                                      "shared": shared}, "quick"))
    SCENARIOS.append((apart, {"what": mode, "kinds": ["c", "ms", "g", "m"],
                              "shared": False}, "thorough"))
for what in sorted(KITS):
    SCENARIOS.append((apart, {"what": what, "kinds": [], "shared": False},
                      "quick"))
