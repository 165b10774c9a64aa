from hlib import *

BOUNDS = ("histories of up to 4 (quick) or 6 (thorough) messages of every "
          "kind, accepted or not, with arbitrary values, and flushes, some "
          "messages arriving while a flush is drained; any prefix")
ASSUMES = ["equal random draws on both sides"]

KINDS = ["c", "g", "m", "ms", "sli", "p"]


class Plugin(object):
    name = "plain"
    metric_type = "p"

    def build_metric(self, prefix, name, wall_time_func=None):
        return PluginMetric(prefix, name)

    def configure(self, options):
        pass


class PluginMetric(object):
    def __init__(self, prefix, name):
        self.name = prefix + name if prefix else name
        self.items = []

    def process(self, fields):
        self.items.append(fields[0])

    def flush(self, interval, timestamp):
        return [(self.name + ".items", len(self.items), timestamp),
                (self.name + ".interval", interval, timestamp)]


class Logger(object):
    def __init__(self):
        self.lines = []

    def info(self, line):
        self.lines.append(line)

    def take(self):
        lines, self.lines = self.lines, []
        return lines


class Pair(object):
    """A logging processor and a plain one, fed the same."""

    def __init__(self, env, prefix, internal):
        from txstatsd.server.loggingprocessor import LoggingMessageProcessor
        env.set_random(lambda: 0.5)
        self.env = env
        self.clock = Clock(1000.0)
        self.logger = Logger()
        kw = {}
        if internal:
            kw["internal_metrics_prefix"] = internal
        self.logging = LoggingMessageProcessor(
            self.logger, time_function=self.clock, message_prefix=prefix,
            plugins=[sli_plugin(), Plugin()], **kw)
        self.plain = make(env, CONFIGURABLE, self.clock, prefix, internal,
                          plugins=[sli_plugin(), Plugin()])
        self.sent = []
        self.rejected = []

    def send(self, message, accepted=True):
        self.logging.process(message)
        self.plain.process(message)
        (self.sent if accepted else self.rejected).append(message)

    def flush(self, interval, percent, during=()):
        """One flush on both sides; messages may arrive before a
        datapoint."""
        env = self.env
        self.clock.now = self.clock.now + 10.0
        a = iter(self.logging.flush(interval, percent))
        b = iter(self.plain.flush(interval, percent))
        outs = []
        place = 0
        while True:
            for at, message in during:
                if at == place:
                    self.send(message)
            x = next_of(a)
            y = next_of(b)
            env.check((x is None) == (y is None), "as many datapoints")
            if x is None or y is None:
                break
            self.same(x, y)
            outs.append(x)
            env.check(len([l for l in self.logger.lines
                           if l.startswith("Out: ")]) >= len(outs),
                      "logged before it is passed on")
            place += 1
        for at, message in during:
            if at > place:
                self.send(message)
        self.logged(outs)

    def same(self, x, y):
        env = self.env
        env.equal(x[0], y[0], "same name")
        env.equal(x[1], y[1], "same value")
        env.equal(x[2], y[2], "same time")

    def logged(self, outs):
        env = self.env
        lines = self.logger.take()
        received = [l for l in lines if l.startswith("In: ")]
        flushed = [l for l in lines if l.startswith("Out: ")]
        env.check(len(received) + len(flushed) == len(lines),
                  "nothing else is logged")
        for message in self.sent:
            n = 0
            for l in received:
                if l == "In: " + message:
                    n += 1
            m = 0
            for other in self.sent:
                if other == message:
                    m += 1
            env.check(n == m, "received messages are logged once")
        n = len(received) - len(self.sent)
        env.check(0 <= n <= len(self.rejected), "nothing logged twice")
        del self.sent[:]
        del self.rejected[:]
        env.check(len(flushed) == len(outs), "every datapoint logged once")
        if len(flushed) == len(outs):
            for i in range(len(outs)):
                env.check(flushed[i] == "Out: %s %s %s" % outs[i],
                          "logged as flushed")


def next_of(it):
    try:
        name, value, timestamp = it.next()
    except StopIteration:
        return None
    return (name, value, timestamp)


def message(env, kind, name):
    if kind == "p":
        return name + ":item|p"
    text, value = env.number_text("value", 0.0)
    if kind == "c" and env.flag("rate"):
        return name + ":" + text + "|c|@0.1"
    return name + ":" + text + "|" + kind


def history(env, steps, kinds, prefixed):
    prefix = env.key("prefix", "A-Za-z0-9_-") if prefixed else ""
    internal = env.choice("internal", ["", "own."]) if prefixed else ""
    w = Pair(env, prefix, internal)
    names = [env.key("name"), "other"]
    for i in range(steps):
        step = env.choice("step", kinds + ["bad", "flush"])
        if step == "flush":
            w.flush(10000 + 1000 * i, 90)
        elif step == "bad":
            w.send(["a:1|zz", "a|c", "a:x|c", "a:1|c|1|2", ":1|c"][i % 5],
                   False)
        else:
            w.send(message(env, step, names[i % 2]))
    w.flush(10000, 90)
    w.flush(10000, 90)


def arriving(env, kind, old):
    w = Pair(env, "", "")
    for k in old:
        w.send(message(env, k, "old." + k))
    place = env.choice("place", range(30))
    name = env.choice("name", ["old." + kind, "new"])
    w.flush(10000, 90, [(place, message(env, kind, name))])
    w.flush(10000, 90)


class WithoutInfo(object):
    pass


class WithPlainInfo(object):
    info = "info"


def refused(env):
    from txstatsd.server.loggingprocessor import LoggingMessageProcessor
    logger = env.choice("logger", [None, "logger", WithoutInfo(),
                                   WithPlainInfo()])
    refused = False
    try:
        LoggingMessageProcessor(logger)
    except TypeError:
        refused = True
    env.check(refused, "a logger that cannot log is refused")


SCENARIOS = [
    (refused, {}, "quick"),
    (history, {"steps": 2, "kinds": KINDS, "prefixed": True}, "quick"),
    (history, {"steps": 4, "kinds": ["c", "ms"], "prefixed": False},
     "quick"),
    (history, {"steps": 4, "kinds": ["g", "m"], "prefixed": False},
     "quick"),
    (history, {"steps": 4, "kinds": ["sli", "p"], "prefixed": False},
     "quick"),
    (history, {"steps": 3, "kinds": KINDS, "prefixed": True}, "thorough"),
    (history, {"steps": 6, "kinds": ["c", "ms"], "prefixed": False},
     "thorough"),
]
for k in KINDS:
    SCENARIOS.append((arriving, {"kind": k, "old": [k]}, "quick"))
    SCENARIOS.append((arriving, {"kind": k, "old": KINDS}, "thorough"))
