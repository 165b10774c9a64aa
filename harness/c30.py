from hlib import *

BOUNDS = ("one to three reporters with intervals of one to three times an "
          "arbitrary unit, scheduled before or after the start; up to 4 "
          "(quick) or 5 (thorough) steps; at up to two (quick) or three "
          "(thorough) calls a reporter may raise, return a deferred that is "
          "fired later or not at all, with a result or a failure, or its "
          "report may raise; "
          "up to 40 failures in a row")
ASSUMES = ["the service is started once and stopped once"]

OUTCOMES = ["ok", "raises", "failed", "later", "report raises", "nothing"]


class Reporter(object):
    """A function to schedule and what is expected of it.  Times are kept in
    half units."""

    def __init__(self, env, world, name, interval, outcomes, reported):
        self.env = env
        self.world = world
        self.name = name
        self.interval = interval
        self.outcomes = outcomes
        self.reported = reported
        self.started = None
        self.next = None
        self.pending = None
        self.expected_calls = 0
        self.calls = 0
        self.breaks = False
        self.function = self.make()

    def make(self):
        def report_something():
            return self.call()
        return report_something

    def metrics(self):
        env = self.env
        out = {}
        for k in range(1 + self.calls % 2):
            out["%s.m%d" % (self.name, k)] = env.real("value", -1000000.0,
                                                      1000000.0)
        return out

    def expect(self, metrics):
        if not self.reported:
            return
        prefix = self.world.instance
        for k in metrics:
            name = prefix + "." + k if prefix else k
            self.world.expected.append((name, metrics[k]))

    def call(self):
        from twisted.internet import defer
        self.calls += 1
        what = self.outcomes[0] if len(self.outcomes) == 1 else "ok"
        if len(self.outcomes) > 1 and self.world.upsets > 0:
            what = self.env.choice("outcome", self.outcomes)
            if what != "ok":
                self.world.upsets -= 1
        if what == "raises":
            self.world.failures += 1
            raise planted(RuntimeError("broken"))
        if what == "failed":
            self.world.failures += 1
            return defer.fail(RuntimeError("broken"))
        if what == "later":
            self.pending = defer.Deferred()
            return self.pending
        if what == "nothing":
            return {}
        if what == "report raises" and self.reported:
            self.world.failures += 1
            return {"broken": 1}
        metrics = self.metrics()
        self.expect(metrics)
        return metrics

    def fire(self, now):
        d, self.pending = self.pending, None
        if self.env.flag("fails"):
            self.world.failures += 1
            d.errback(RuntimeError("broken later"))
        else:
            metrics = self.metrics()
            self.expect(metrics)
            d.callback(metrics)
        if self.next is not None:
            self.next = now + self.interval - \
                (now - self.started) % self.interval


class World(object):
    def __init__(self, env, named):
        from txstatsd.report import ReportingService
        self.env = env
        self.unit = env.real("unit", 0.5, 1000.0)
        self.base = env.real("now", 0.0, 1000000.0)
        self.half = 0
        self.reactor = FakeReactor(self.base)
        self.instance = ""
        self.given = []
        self.expected = []
        self.failures = 0
        # how many calls may go wrong
        self.upsets = 3 if env.thorough else 2
        self.reporters = []
        self.running = False
        if named:
            self.instance = env.key("instance")
        if named:
            self.service = ReportingService(instance_name=self.instance,
                                            clock=self.reactor)
        else:
            env.set_reactor(self.reactor)
            self.service = ReportingService(instance_name=self.instance)

    def report(self, name, value):
        if name == "broken" or name.endswith(".broken"):
            raise planted(RuntimeError("cannot report"))
        self.given.append((name, value))

    def schedule(self, interval, outcomes, reported):
        r = Reporter(self.env, self, "r%d" % len(self.reporters),
                     2 * interval, outcomes, reported)
        self.reporters.append(r)
        if self.running:
            # called at once, then every interval
            self.begin(r, True)
        self.service.schedule(r.function, self.unit * interval,
                              self.report if reported else None)

    def begin(self, r, at_once):
        r.started = self.half
        if at_once:
            r.expected_calls += 1
        r.next = self.half + r.interval

    def start(self):
        self.running = True
        for r in self.reporters:
            self.begin(r, False)
        self.service.startService()

    def stop(self):
        self.running = False
        self.service.stopService()
        for r in self.reporters:
            r.next = None

    def advance(self, halves):
        """Half units pass; whatever is due is called in time."""
        for i in range(halves):
            self.half += 1
            if self.running:
                for r in self.reporters:
                    if r.next == self.half:
                        if r.pending is None:
                            r.expected_calls += 1
                        r.next = self.half + r.interval
            now = self.base + self.unit * self.half / 2
            self.reactor.run_calls(now)
            self.reactor.now = now

    def check(self, label):
        env = self.env
        for r in self.reporters:
            env.check(r.calls == r.expected_calls,
                      label + ": called once per interval")
        env.check(len(self.given) == len(self.expected),
                  label + ": everything reported once")
        env.check(env.errors_logged() == self.failures,
                  label + ": every failure is logged")
        if len(self.given) != len(self.expected):
            return
        left = list(self.given)
        for name, value in self.expected:
            at = None
            for i in range(len(left)):
                if left[i][0] == name:
                    at = i
                    break
            env.check(at is not None, label + ": under its name")
            if at is not None:
                env.equal(left.pop(at)[1], value, label + ": its value")
        del self.given[:]
        del self.expected[:]


def history(env, steps, reporters, outcomes, named, late):
    """Reporters given as (interval, reported); those from index late on are
    scheduled after the start."""
    w = World(env, named)
    for interval, reported in reporters[:late]:
        w.schedule(interval, outcomes, reported)
    w.advance(env.choice("before", [0, 3]))
    w.check("before the start")
    w.start()
    left = list(reporters[late:])
    for i in range(steps):
        options = ["half", "unit", "two"]
        if left:
            options.append("schedule")
        waiting = [r for r in w.reporters if r.pending is not None]
        for r in waiting:
            options.append(r.name)
        step = env.choice("step", options)
        if step == "half":
            w.advance(1)
        elif step == "unit":
            w.advance(2)
        elif step == "two":
            w.advance(4)
        elif step == "schedule":
            interval, reported = left.pop(0)
            w.schedule(interval, outcomes, reported)
        else:
            for r in waiting:
                if r.name == step:
                    r.fire(w.half)
        w.check("running")
    w.stop()
    waiting = [r for r in w.reporters if r.pending is not None]
    for r in waiting:
        if env.flag("fired after the stop"):
            r.fire(w.half)
    w.advance(8)
    w.check("stopped")
    env.check(not w.service.running, "stopped")


def again(env):
    """Starting again after a stop."""
    w = World(env, False)
    w.schedule(1, ["ok"], True)
    w.start()
    w.advance(env.choice("first", [1, 2, 5]))
    w.stop()
    w.advance(env.choice("pause", [0, 3]))
    w.check("stopped")
    w.start()
    w.advance(env.choice("second", [1, 4]))
    w.check("running again")
    w.stop()
    w.advance(4)
    w.check("stopped again")


def late_reactor(env):
    """A reactor that falls behind does not stop the reports."""
    w = World(env, False)
    w.schedule(1, ["ok", "raises"], True)
    w.start()
    calls = 0
    r = w.reporters[0]
    for i in range(3):
        lag = env.real("lag", 0.0, 3.0)
        now = w.reactor.now + w.unit * (1 + lag)
        w.reactor.now = now
        w.reactor.run_calls(now)
        env.check(r.calls >= i + 1, "still called")
        env.check(r.calls <= 4 * (i + 1), "not more often than due")
    w.stop()
    calls = r.calls
    w.reactor.run_calls(w.reactor.now + w.unit * 10)
    env.check(r.calls == calls, "nothing after the stop")
    env.check(env.errors_logged() == w.failures, "failures logged")


def persistent(env, outcomes, units):
    """However often a reporter fails, it keeps being called."""
    w = World(env, True)
    w.schedule(1, outcomes, True)
    w.schedule(1, ["ok"], True)
    w.start()
    for i in range(units):
        w.advance(2)
        w.check("running")
    w.stop()
    w.advance(4)
    w.check("stopped")


SCENARIOS = [
    (persistent, {"outcomes": ["raises"], "units": 40}, "quick"),
    (persistent, {"outcomes": ["failed"], "units": 40}, "quick"),
    (persistent, {"outcomes": ["report raises"], "units": 40}, "quick"),
    (persistent, {"outcomes": ["nothing"], "units": 40}, "quick"),
    (persistent, {"outcomes": ["ok"], "units": 40}, "quick"),
    (history, {"steps": 3, "reporters": [(1, True)], "outcomes": OUTCOMES,
               "named": True, "late": 1}, "quick"),
    (history, {"steps": 4, "reporters": [(1, True)],
               "outcomes": ["ok", "raises", "later"], "named": True,
               "late": 1}, "quick"),
    (history, {"steps": 3, "reporters": [(1, False), (2, True)],
               "outcomes": ["ok", "raises", "later"], "named": False,
               "late": 1}, "quick"),
    (history, {"steps": 3, "reporters": [(2, True), (1, True)],
               "outcomes": ["ok", "failed"], "named": True, "late": 2},
     "quick"),
    (history, {"steps": 4, "reporters": [(3, True), (2, True), (1, True)],
               "outcomes": ["ok"], "named": False, "late": 1}, "quick"),
    (history, {"steps": 3, "reporters": [(1, False)], "outcomes": OUTCOMES,
               "named": True, "late": 0}, "quick"),
    (history, {"steps": 5, "reporters": [(1, True)],
               "outcomes": ["ok", "raises", "later"], "named": True,
               "late": 1}, "thorough"),
    (history, {"steps": 4, "reporters": [(1, True), (2, True), (3, False)],
               "outcomes": ["ok", "raises", "later"], "named": False,
               "late": 1}, "thorough"),
    (again, {}, "quick"),
    (late_reactor, {}, "quick"),
]
