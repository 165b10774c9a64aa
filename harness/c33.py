from hlib import *

BOUNDS = ("intervals of any whole number of seconds up to a day (of 1 and "
          "60 seconds where carbon makes a flush wait); up to 5 "
          "(quick) or 7 (thorough) steps out of half an interval, one or two "
          "intervals passing, carbon letting the flush go on, stopping; "
          "flushes of up to 3 datapoints of any value; carbon making any "
          "two (quick) or three (thorough) of the sends wait; "
          "60 intervals in a row, once")
ASSUMES = ["flush intervals are whole seconds",
           "the service is started once"]


class Processor(object):
    """Yields what the harness prepared."""

    def __init__(self, env, sizes):
        self.env = env
        self.sizes = sizes
        self.flushes = []
        self.intervals = []

    def flush(self, interval=None, percent=90):
        number = len(self.flushes)
        points = []
        for i in range(self.sizes[number % len(self.sizes)]):
            points.append(("f%d.m%d" % (number, i),
                           self.env.real("value", -1000000.0, 1000000.0),
                           1000 + number))
        self.flushes.append(points)
        self.intervals.append(interval)
        for p in points:
            yield p


class Carbon(object):
    """Carbon's client, which may make the flush wait."""

    def __init__(self, env, waits):
        self.env = env
        self.waits = waits
        self.sent = []
        self.waiting = []

    def sendDatapoint(self, metric, datapoint):
        from twisted.internet import defer
        self.sent.append((metric, datapoint))
        if self.waits and self.env.flag("wait"):
            self.waits -= 1
            d = defer.Deferred()
            d.metric = metric
            self.waiting.append(d)
            return d


class World(object):
    def __init__(self, env, processor, waits, own_clock, settled=False):
        from txstatsd.service import StatsDService
        self.env = env
        if waits or settled:
            self.seconds = 60 if own_clock else 1
            self.base = 1000
        else:
            self.seconds = env.int("seconds", 1, 86400)
            self.base = env.int("now", 0, 2000000000)
        self.half = 0
        self.reactor = FakeReactor(self.base)
        env.set_reactor(self.reactor)
        env.set_time(lambda: self.reactor.now)
        self.processor = processor
        self.carbon = Carbon(env, waits)
        if own_clock:
            self.service = StatsDService(self.carbon, processor,
                                         self.seconds * 1000,
                                         clock=self.reactor)
        else:
            self.service = StatsDService(self.carbon, processor,
                                         self.seconds * 1000)
        self.started = None
        self.due = 0

    def start(self):
        self.started = self.half
        self.service.startService()

    def stop(self):
        self.started = None
        self.service.stopService()

    def settle(self):
        # cooperation happens in tiny steps
        self.reactor.run_calls(self.reactor.now + 0.001)

    def advance(self, halves):
        for i in range(halves):
            self.half += 1
            if self.started is not None and \
                    (self.half - self.started) % 2 == 0:
                self.due += 1
            now = self.base + self.seconds * 0.5 * self.half
            self.reactor.run_calls(now)
            self.reactor.now = now
            self.settle()
            self.reactor.now = now

    def go_on(self):
        self.carbon.waiting.pop(0).callback(None)
        now = self.reactor.now
        self.settle()
        self.reactor.now = now


def check(env, w, held):
    """held: names of datapoints that may wait behind another."""
    p = w.processor
    env.check(len(p.flushes) == w.due, "one flush per interval")
    for interval in p.intervals:
        env.equal(interval, w.seconds * 1000, "the configured interval")
    names = [name for name, point in w.carbon.sent]
    for number in range(len(p.flushes)):
        prefix = "f%d." % number
        mine = [x for x in w.carbon.sent if x[0].startswith(prefix)]
        points = p.flushes[number]
        env.check(len(mine) <= len(points), "nothing is sent twice")
        if len(mine) < len(points):
            env.check(len(w.carbon.waiting) > 0,
                      "only carbon delays a datapoint")
        for i in range(min(len(mine), len(points))):
            name, value, timestamp = points[i]
            env.check(mine[i][0] == name, "sent in order")
            env.check(mine[i][1][0] == timestamp, "its time")
            env.equal(mine[i][1][1], value, "its value")
    for d in w.carbon.waiting:
        if d.metric.startswith("f"):
            number = d.metric.split(".")[0] + "."
            mine = [n for n in names if n.startswith(number)]
            env.check(mine[-1] == d.metric, "the flush waits for carbon")
    for name in names:
        env.check(name.startswith("f"), "nothing else is sent")


def history(env, steps, sizes, waits, own_clock):
    if env.thorough and waits:
        waits += 1
    p = Processor(env, sizes)
    w = World(env, p, waits, own_clock)
    w.advance(env.choice("before", [0, 3]))
    env.check(p.flushes == [], "no flush before the start")
    w.start()
    stopped = False
    for i in range(steps):
        options = ["half", "one", "two"]
        if w.carbon.waiting:
            options.append("go on")
        if not stopped:
            options.append("stop")
        step = env.choice("step", options)
        if step == "go on":
            w.go_on()
        elif step == "stop":
            w.stop()
            stopped = True
        else:
            w.advance({"half": 1, "one": 2, "two": 4}[step])
        check(env, w, ())
    w.stop()
    w.advance(4)
    check(env, w, ())
    while w.carbon.waiting:
        w.go_on()
    check(env, w, ())
    env.check(len(w.carbon.sent) == sum([len(f) for f in p.flushes]),
              "every datapoint is sent in the end")


def harmless(env):
    """Stopping before the start, and twice."""
    p = Processor(env, [1])
    w = World(env, p, 0, env.flag("own clock"))
    if env.flag("stopped before the start"):
        w.stop()
    w.start()
    w.advance(env.choice("halves", [1, 2, 5]))
    w.stop()
    w.stop()
    w.advance(4)
    check(env, w, ())
    if env.flag("started again"):
        w.start()
        w.advance(3)
        w.stop()
        check(env, w, ())


def real_one(env, mode):
    """What a real processor yields is what carbon gets."""
    names = [env.key("name"), "other"]
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    twin = make(env, mode, clock)
    w = World(env, p, 1, True)
    w.start()
    for i in range(2):
        text, value = env.number_text("value", 0.0)
        kind = env.choice("kind", ["c", "g", "ms", "m"])
        for x in (p, twin):
            x.process(names[i] + ":" + text + "|" + kind)
    clock.now = 1010.0
    w.advance(2)
    while w.carbon.waiting:
        w.go_on()
    expected = flush(twin, interval=w.seconds * 1000)
    env.check(len(w.carbon.sent) == len(expected), "every datapoint is sent")
    if len(w.carbon.sent) == len(expected):
        for i in range(len(expected)):
            name, (timestamp, value) = w.carbon.sent[i]
            env.check(name == expected[i][0], "sent in order")
            env.equal(value, expected[i][1], "its value")
            env.equal(timestamp, expected[i][2], "its time")


def long_run(env, intervals, own_clock):
    """The service goes on and on."""
    w = World(env, Processor(env, [1]), 0, own_clock, True)
    w.start()
    for i in range(intervals):
        w.advance(2)
    check(env, w, ())
    w.stop()
    w.advance(4)
    check(env, w, ())


SCENARIOS = [
    (long_run, {"intervals": 60, "own_clock": True}, "quick"),
    (long_run, {"intervals": 60, "own_clock": False}, "quick"),
    (harmless, {}, "quick"),
    (real_one, {"mode": COMPLIANT}, "quick"),
    (real_one, {"mode": CONFIGURABLE}, "quick"),
    (history, {"steps": 4, "sizes": [2], "waits": 2, "own_clock": True},
     "quick"),
    (history, {"steps": 4, "sizes": [1, 3, 0], "waits": 2,
               "own_clock": False}, "quick"),
    (history, {"steps": 5, "sizes": [3, 1], "waits": 0, "own_clock": True},
     "quick"),
    (history, {"steps": 6, "sizes": [2, 1], "waits": 2, "own_clock": False},
     "thorough"),
    (history, {"steps": 7, "sizes": [3], "waits": 0, "own_clock": True},
     "thorough"),
]
