import logging

from hlib import *

BOUNDS = ("up to 5 (quick) or 7 (thorough) rounds; in every round any number "
          "of the outstanding tasks run, in the order submitted, at "
          "arbitrary moments, at once or during the sleep, which takes "
          "arbitrarily long; the watchdog is stopped in the last round; "
          "60 rounds without an answer, or with one each, once")
ASSUMES = ["the reactor runs what it is given in order"]


class Metrics(object):
    def __init__(self):
        self.calls = []

    def gauge(self, name, value, sample_rate=1):
        self.calls.append((name, value))


class Reactor(object):
    """Runs the tasks it is given when the harness wants."""

    def __init__(self, env, clock):
        self.env = env
        self.clock = clock
        self.tasks = []
        self.made = []
        self.answers = []
        self.at_once = False

    def callFromThread(self, f, *args, **kw):
        self.tasks.append((len(self.made), f, args, kw))
        self.made.append(self.clock.now)
        if self.at_once and len(self.tasks) == 1 and \
                self.env.flag("at once"):
            self.run_one()

    def run_one(self):
        number, f, args, kw = self.tasks.pop(0)
        f(*args, **kw)
        self.answers.append((number, self.clock.now - self.made[number]))


class Watched(object):
    """A watchdog with everything around it."""

    def __init__(self, env, rounds, at_once, service):
        from txstatsd.report import ReactorInspector, ReactorInspectorService
        self.env = env
        self.rounds = rounds
        self.clock = Clock(env.real("now", 1.0, 2000000000.0))
        env.set_time(self.clock)
        env.set_sleep(self.sleep)
        self.reactor = Reactor(env, self.clock)
        self.reactor.at_once = at_once
        self.metrics = Metrics()
        self.logged = []
        self.loop_time = env.real("loop time", 0.1, 60.0)
        if service:
            self.inspector = ReactorInspectorService(
                self.reactor, self.metrics, self.loop_time).inspector
            self.inspector.log = self.log
        else:
            self.inspector = ReactorInspector(
                self.reactor.callFromThread, self.metrics, self.loop_time,
                self.log)
        self.round = 0
        # how many tasks run in every round, if that is settled
        self.settled = None
        # the last round that got an answer, or the start
        self.since = self.clock.now
        self.expected = []

    def log(self, message, logLevel=None):
        self.logged.append((message, logLevel))

    def sleep(self, seconds):
        env = self.env
        env.equal(seconds, self.loop_time, "sleeps for the loop time")
        env.check(len(self.reactor.made) == self.round + 1,
                  "one task per round")
        if self.settled is not None:
            run = self.settled
        else:
            run = env.choice("run", range(len(self.reactor.tasks) + 1))
        for i in range(run):
            self.clock.now = self.clock.now + env.real("passed", 0.0, 1000.0)
            self.reactor.run_one()
        self.clock.now = self.clock.now + env.real("rest", 0.0, 1000.0)
        answers, self.reactor.answers = self.reactor.answers, []
        if not answers:
            self.expected.append((self.clock.now - self.since,
                                  logging.CRITICAL))
        else:
            number, delay = answers[0]
            level = logging.DEBUG
            if number < self.round:
                level = logging.WARNING
            self.expected.append((delay, level))
            self.since = self.clock.now
        self.round += 1
        if self.round == self.rounds:
            self.inspector.stop()

    def check(self):
        env = self.env
        env.check(self.round == self.rounds, "runs until stopped")
        env.check(len(self.metrics.calls) == self.rounds,
                  "one delay per round")
        levels = [l for m, l in self.logged if l is not None and
                  not m.startswith("Dumping")]
        env.check(len(levels) == self.rounds, "one message per round")
        for i in range(min(self.rounds, len(self.metrics.calls))):
            name, value = self.metrics.calls[i]
            env.check(name == "delay", "gauge delay")
            env.equal(value, self.expected[i][0], "true delay")
            env.le(0, value, "no negative delay")
        for i in range(min(self.rounds, len(levels))):
            env.check(levels[i] == self.expected[i][1], "level")


def watch(env, rounds, at_once, service):
    w = Watched(env, rounds, at_once, service)
    w.inspector.run()
    w.check()


def at_rest(env):
    """A watchdog stopped before it runs does nothing."""
    w = Watched(env, 1, True, False)
    w.inspector.stop()
    w.inspector.run()
    env.check(len(w.reactor.made) == 0 and len(w.metrics.calls) == 0,
              "nothing is done once stopped")


def silent(env, rounds, answered):
    """A reactor that answers nothing for a long time, or every time."""
    w = Watched(env, rounds, False, False)
    w.settled = answered
    w.inspector.run()
    w.check()


SCENARIOS = [(at_rest, {}, "quick"),
             (silent, {"rounds": 60, "answered": 0}, "quick"),
             (silent, {"rounds": 60, "answered": 1}, "quick")]
for at_once in (False, True):
    for service in (False, True):
        SCENARIOS.append((watch, {"rounds": 5, "at_once": at_once,
                                  "service": service}, "quick"))
    SCENARIOS.append((watch, {"rounds": 7, "at_once": at_once,
                              "service": False}, "thorough"))
