from hlib import *

BOUNDS = ("histories of up to 5 (quick) or 6 (thorough) steps out of a "
          "message of every type to one of two or three names, a rejected message and "
          "a flush, with any values; and of up to 60 messages to one metric")
ASSUMES = ["names of metrics of different types differ"]

KINDS = ["c", "g", "m", "ms", "sli", "pd", "p"]


class Plain(object):
    """A plugin of the harness."""
    name = "plain"
    metric_type = "p"

    def build_metric(self, prefix, name, wall_time_func=None):
        return PlainMetric(prefix, name)

    def configure(self, options):
        pass


class PlainMetric(object):
    def __init__(self, prefix, name):
        self.name = prefix + "." + name if prefix else name
        self.items = 0

    def process(self, fields):
        float(fields[0])
        self.items += 1

    def flush(self, interval, timestamp):
        return [(self.name + ".items", self.items, timestamp)]


def distinct(env):
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter

    class Factory(object):
        name = "distinct"
        metric_type = "pd"

        def build_metric(self, prefix, name, wall_time_func=None):
            return DistinctMetricReporter(name, wall_time_func, prefix)
    return Factory()


def server(env, mode, clock, kinds):
    plugins = [sli_plugin(), Plain()]
    if "pd" in kinds:
        plugins.append(distinct(env))
    prefix = "pre" if mode == CONFIGURABLE else ""
    return make(env, mode, clock, prefix, "statsd.", plugins)


def check(env, mode, clock, kinds, p, seen, recent):
    """As a fresh server would report."""
    earlier = Clock(clock.now - 5.0)
    fresh = server(env, mode, earlier, kinds)
    for kind, name in seen:
        if kind != "ms" or mode == CONFIGURABLE or (kind, name) in recent:
            fresh.process(name + ":1|" + kind)
    earlier.now = clock.now
    want = [n for n, v, t in body(flush(fresh))]
    out = flush(p)
    got = [n for n, v, t in out]
    for i in range(len(got)):
        env.check(got[i] not in got[:i], "every name once")
    for n, v, t in out:
        env.check(t == int(clock.now), "the time of the flush")
    got = [n for n, v, t in body(out)]
    for n in want:
        env.check(n in got, "nothing is missing")
    for n in got:
        env.check(n in want, "nothing else")


def history(env, mode, kinds, steps, names=2):
    clock = Clock(1000.0)
    env.set_random(lambda: 0.5)
    env.set_randint(lambda a, b: 7)
    p = server(env, mode, clock, kinds)
    seen = []
    recent = []
    first = env.key("name", "a-z")
    env.assume(first != "b")
    env.assume(first != "b.c")
    options = ["flush", "bad"]
    for k in kinds:
        options.extend([k + " %d" % j for j in range(names)])
    for i in range(steps):
        clock.now = clock.now + 1.0
        step = env.choice("step", options)
        if step == "flush":
            clock.now = clock.now + 8.5
            check(env, mode, clock, kinds, p, seen, recent)
            recent = []
            continue
        if step == "bad":
            p.process([first + ".c:x|c", "new:1:2|g", first + ".ms:|ms",
                       "new.p:x|p", "new.sli:x|sli"][i % 5])
            continue
        kind, which = step.split(" ")
        name = [first, "b", "b.c"][int(which)] + "." + kind
        text, value = env.number_text("value", 0.0, 1000000.0)
        p.process(name + ":" + text + "|" + kind)
        if (kind, name) not in seen:
            seen.append((kind, name))
        recent.append((kind, name))
    for i in range(2):
        clock.now = clock.now + 10.0
        check(env, mode, clock, kinds, p, seen, recent)
        recent = []


def many(env, mode, kind, messages, flushes):
    """One metric and a long history."""
    clock = Clock(1000.0)
    env.set_random(lambda: 0.5)
    env.set_randint(lambda a, b: 7)
    p = server(env, mode, clock, KINDS)
    name = env.key("name", "a-z")
    for i in range(flushes):
        recent = []
        for j in range(messages):
            p.process(name + ":" + str((7 * j + i) % 11) + "|" + kind)
            recent = [(kind, name)]
        clock.now = clock.now + 10.0
        check(env, mode, clock, KINDS, p, [(kind, name)], recent)
    clock.now = clock.now + 10.0
    check(env, mode, clock, KINDS, p, [(kind, name)], [])
    env.check(len(p.get_metric_names()) == 1, "one name")


SCENARIOS = []
for mode in (COMPLIANT, CONFIGURABLE):
    for i, k in enumerate(KINDS):
        SCENARIOS.append((many, {"mode": mode, "kind": k, "messages":
                                 20 if k == "pd" else 120,
                                 "flushes": 3 if k == "pd" else 12}, "quick"))
        l = KINDS[(i + 1) % len(KINDS)]
        SCENARIOS.append((history, {"mode": mode, "kinds": [k, l],
                                    "steps": 4}, "quick"))
        SCENARIOS.append((history, {"mode": mode, "kinds": [k, l],
                                    "steps": 5}, "thorough"))
        SCENARIOS.append((history, {"mode": mode, "kinds": [k], "steps": 4,
                                    "names": 3}, "quick"))
        SCENARIOS.append((history, {"mode": mode, "kinds": [k], "steps": 6,
                                    "names": 3}, "thorough"))
    SCENARIOS.append((history, {"mode": mode, "kinds": ["g"], "steps": 5},
                      "quick"))
