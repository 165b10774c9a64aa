from hlib import *

BOUNDS = ("up to 4 (quick) or 5 (thorough) steps, each a message of a plugin's "
          "type (two names, any texts in its fields, taken or refused by the "
          "plugin), one of the server's own types or a flush at any time; one "
          "or two plugins of their own types side by side; the bundled "
          "plugins with any values; "
          "150 metrics of two plugins and 30 flushes, once")
ASSUMES = ["a plugin refuses a message by raising TypeError or ValueError, "
           "before it has recorded anything"]


class Metric(object):
    """A plugin's metric that reports what it was told."""

    def __init__(self, factory, prefix, name, clock):
        self.factory = factory
        self.prefix = prefix
        self.name = name
        self.clock = clock
        self.got = []

    def process(self, fields):
        if self.factory.refusing == "ValueError":
            raise ValueError("refused")
        if self.factory.refusing == "TypeError":
            raise TypeError("refused")
        self.got.append(list(fields))

    def flush(self, interval, timestamp):
        told, self.got = self.got, []
        base = self.prefix + "/" + self.factory.name + "/" + self.name
        return [(base + "/told", told, timestamp),
                (base + "/when", (interval, self.clock()), timestamp)]


class Factory(object):
    refusing = None

    def __init__(self, kind):
        self.metric_type = kind
        self.name = "plugin-" + kind

    def configure(self, options):
        pass

    def build_metric(self, prefix, name, wall_time_func=None):
        return Metric(self, prefix, name, wall_time_func)


def history(env, mode, steps, types, dump=False):
    clock = Clock(env.real("start", 1.0, 1000000.0))
    factories = [Factory(k) for k in types]
    prefix = ""
    if mode == CONFIGURABLE:
        prefix = env.choice("prefix", ["", "pre"]) if steps < 3 else "pre"
    p = make(env, mode, clock, prefix=prefix, plugins=factories)
    names = ["load", "load.one"]
    told = []                      # [type, name, messages since the flush]
    for i in range(steps):
        clock.now = clock.now + env.real("passing", 0.0, 1000.0)
        what = env.choice("step", ["message", "other", "flush"])
        if what == "flush":
            check(env, p, mode, prefix, told, clock)
            continue
        if what == "other":
            p.process("load:1|c")
            continue
        name = env.choice("name", names)
        factory = env.choice("type", factories)
        factory.refusing = env.choice("refusing", [
            None, "ValueError", "TypeError"] if steps < 3 else
            [None, ["ValueError", "TypeError"][i % 2]])
        fields = [env.key("value", "0-9a-z.@-"), factory.metric_type]
        if i % 2 if steps > 2 else env.flag("third"):
            fields.append(env.key("third", "0-9a-z.@-"))
        complaints = processed(env, p, name + ":" + "|".join(fields))
        if factory.refusing:
            env.check(complaints == 1, "a refusal is logged")
            continue
        env.check(complaints == 0, "nothing to complain about")
        for entry in told:
            if entry[0] == factory.metric_type and entry[1] == name:
                entry[2].append(fields)
                break
        else:
            told.append([factory.metric_type, name, [fields]])
    check(env, p, mode, prefix, told, clock)
    check(env, p, mode, prefix, told, clock, 60000)


def check(env, p, mode, prefix, told, clock, interval=1000):
    out = [d for d in flush(p, interval) if "/" in d[0]]
    env.check(len(out) == 2 * len(told), "one metric for each type and name")
    for kind, name, messages in told:
        base = prefix
        if mode == COMPLIANT:
            base = "stats.plugin-" + kind
        base = base + "/plugin-" + kind + "/" + name
        got = one(env, out, base + "/told", "what it was told")
        if got is not None:
            env.check(len(got) == len(messages), "every message once")
            if len(got) == len(messages):
                for i in range(len(got)):
                    env.equal(list(got[i]), messages[i], "the fields")
        when = one(env, out, base + "/when", "when")
        if when is not None:
            env.equal(when[0], interval // 1000, "the interval in seconds")
            env.equal(when[1], clock.now, "the clock of the server")
        for n, v, t in out:
            env.equal(t, int(clock.now), "dated by the flush")
    for entry in told:
        entry[2] = []


def unknown(env, mode):
    """A type is known only while its plugin is there."""
    clock = Clock(1000.0)
    kind = env.text("type", 1, 2, "a-z@")
    if kind in ("c", "ms", "g", "m"):
        env.skip()
    with_it = make(env, mode, clock, plugins=[Factory("x"), Factory("yy")])
    without_it = make(env, mode, clock)
    env.equal(processed(env, without_it, "name:5|" + kind), 1, "unknown")
    known = kind == "x" or kind == "yy"
    env.equal(processed(env, with_it, "name:5|" + kind), 0 if known else 1,
              "known if there is a plugin")
    out = [d for d in flush(with_it) if "/told" in d[0]]
    env.equal(len(out), 1 if known else 0, "recorded if known")


def bundled(env, mode, first):
    """The plugins that come with it, also under one name."""
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    clock = Clock(1e9)
    env.set_randint(lambda a, b: 7)
    factories = [sli_plugin(), DistinctMetricFactory()]
    p = make(env, mode, clock, prefix="pre" if mode == CONFIGURABLE else "",
             plugins=factories)
    other = "name" if mode == COMPLIANT else "other"
    n = env.choice("samples", [0, 1, 2])
    items = env.choice("items", [0, 1, 2])
    messages = []
    for i in range(n):
        text, value = env.number_text("value", -1000.0, 1000.0)
        messages.append("name:" + text + "|sli")
    for i in range(items):
        text = env.choice("item", ["5", "abc", "error"])
        messages.append(other + ":" + text + "|pd")
    if first == "pd":
        messages = messages[::-1]
    for m in messages:
        env.check(processed(env, p, m) == 0, "accepted")
    out = flush(p)
    base, distinct = "pre.", "pre."
    if mode == COMPLIANT:
        base, distinct = "stats.SLI.", "stats.pdistinct."
    counts = named(out, base + "name.count")
    env.equal(list(counts), [n] if n else [], "samples of the service level")
    env.equal(len(named(out, base + "name.error")), 1 if n else 0,
              "errors reported with it")
    env.equal(len(named(out, distinct + other + ".count_1min")),
              1 if items else 0, "the distinct items of the last minute")
    env.equal(len([d for d in out if d[0].startswith(distinct + other + ".")]),
              (4 if items else 0), "all windows")


def configured(env):
    """Every plugin is given the options once, before any message."""
    from txstatsd.service import StatsDOptions, createService
    given = []

    class Watching(Factory):
        def configure(self, options):
            given.append((self.metric_type, options))

        def build_metric(self, prefix, name, wall_time_func=None):
            env.check(len(given) == 2, "configured before it is used")
            return Factory.build_metric(self, prefix, name, wall_time_func)
    o = StatsDOptions()
    o["statsd-compliance"] = 1 if env.flag("compliant") else 0
    o["flush-interval"] = 10000
    env.set_plugins([Watching("x"), Watching("y")])
    env.set_node("box")
    reactor = FakeReactor(1000)
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    root = createService(o)
    env.equal([k for k, options in given], ["x", "y"], "each once")
    for k, options in given:
        env.check(options is o, "the options")
    root.startService()
    kind = env.choice("type", ["x", "y"])
    value = env.key("value")
    reactor.udp[0][1].datagramReceived("name:" + value + "|" + kind,
                                       ("10.0.0.9", 5353))
    reactor.run_calls(1010)
    reactor.run_calls(1010.001)
    sent = [(n, d) for n, d in env.carbon_managers()[-1].sent
            if "/told" in n]
    env.check(len(sent) == 1, "flushed")
    if len(sent) == 1:
        env.check(("plugin-" + kind) in sent[0][0], "by its plugin")
        env.equal(list(sent[0][1][1][0]), [value, kind], "as it came")


def crowd(env, mode, count, idle):
    """Many metrics, many messages, many idle flushes."""
    clock = Clock(1000.0)
    p = make(env, mode, clock, plugins=[Factory("x"), Factory("y")])
    value = env.key("value", "0-9")
    p.process("load:" + value + "|x")
    for i in range(count):
        p.process("other.%d:%d|%s" % (i, i, "xy"[i % 2]))
    for i in range(count):
        p.process("load:%d|y" % i)
    clock.now = 1010.0
    out = body(flush(p))
    env.check(len(out) == 2 * (count + 2), "all the metrics")
    base = "/plugin-%s/load/told"
    told = [v for n, v, t in out if n.endswith(base % "x")]
    env.check(len(told) == 1 and len(told[0]) == 1, "handed once")
    env.equal(told[0][0], [value, "x"], "whole")
    told = [v for n, v, t in out if n.endswith(base % "y")]
    env.check(len(told) == 1 and len(told[0]) == count, "every message")
    for i in range(idle):
        clock.now = clock.now + 10.0
        p.process("c:1|c")
        env.check(len([n for n, v, t in flush(p)
                       if n.endswith("/told")]) == count + 2,
                  "asked in every flush")


SCENARIOS = [(configured, {}, "quick")]
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((crowd, {"mode": m, "count": 150, "idle": 30}, "quick"))
for mode in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((unknown, {"mode": mode}, "quick"))
    for first in ("sli", "pd"):
        SCENARIOS.append((bundled, {"mode": mode, "first": first}, "quick"))
    for types in (["x"], ["x", "yy"]):
        for steps in (1, 2, 3):
            SCENARIOS.append((history, {"mode": mode, "steps": steps,
                                        "types": types}, "quick"))
    SCENARIOS.append((history, {"mode": mode, "steps": 4, "types": ["x"]},
                      "quick"))
    SCENARIOS.append((history, {"mode": mode, "steps": 4,
                                "types": ["x", "yy"]}, "thorough"))
    SCENARIOS.append((history, {"mode": mode, "steps": 5, "types": ["x"]},
                      "thorough"))
