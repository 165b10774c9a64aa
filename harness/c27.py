from hlib import *

BOUNDS = ("any durations and intervals; histories of up to 3 (thorough 4) "
          "messages of every type under names equal or not, flushed or not, "
          "in both modes; timers of up to 3 values of +-1e6; "
          "once 600 metrics")
ASSUMES = ["values are finite"]


class Service(object):
    def __init__(self, interval):
        self.flush_interval = interval


def site(env, processor, interval=10000):
    from txstatsd.server import httpinfo
    s = httpinfo.makeService({"http-port": 8080}, processor,
                             Service(interval))
    found = [a for a in s.args if hasattr(a, "resource")]
    if len(found) != 1:
        env.gap("site")
    return found[0].resource


def told(env, root, flushing, processing, interval, judged=True):
    import json
    code, text = get(root, "status")
    data = json.loads(text)
    env.close(data["flush_time"], flushing, "flush time")
    env.close(data["process_time"], processing, "process time")
    env.equal(data["flush_interval"], interval, "flush interval")
    if not judged:
        env.check((data["status"], code) in [("OK", 200), ("ERROR", 500)],
                  "status and code agree")
    elif flushing + processing > 0.7 * interval + 1e-6:
        env.check(data["status"] == "ERROR", "too slow")
        env.check(code == 500, "code 500")
    elif flushing + processing < 0.7 * interval - 1e-6:
        env.check(data["status"] == "OK", "fast enough")
        env.check(code == 200, "code 200")


def status(env, edge):
    """Any durations."""
    p = Sink()
    interval = env.int("interval", 1, 1000000)
    p.last_flush_duration = env.real("flush", 0.0, 1e6)
    p.last_process_duration = env.real("process", 0.0, 1e6)
    if edge:
        p.last_flush_duration = 0
        p.last_process_duration = 7 * env.int("n", 1, 100)
        interval = 10 * (p.last_process_duration / 7) + env.int("off", -1, 1)
    told(env, site(env, p, interval), p.last_flush_duration,
         p.last_process_duration, interval)
    if edge:
        # Exactly at the mark, computed without rounding.
        import json
        code, text = get(site(env, p, interval), "status")
        if 7 * interval < 10 * p.last_process_duration:
            env.check(code == 500, "above the mark")
        elif 7 * interval > 10 * p.last_process_duration:
            env.check(code == 200, "below the mark")
        # 70% of ten seconds is seven seconds without rounding, too.
        p.last_flush_duration = env.choice("part", [0, 3000, 7000])
        p.last_process_duration = 7000 - p.last_flush_duration
        code, text = get(site(env, p, 10000), "status")
        env.check(code == 200, "not more than the mark")


class Slow(Clock):
    """A clock which moves on at every reading."""

    def __init__(self, env, steps):
        Clock.__init__(self)
        self.steps = [env.real("step", 0.0, 100.0) for i in range(steps)]
        self.i = 0

    def __call__(self):
        self.now = self.now + self.steps[self.i % len(self.steps)]
        self.i += 1
        return self.now


def measured(env, mode, steps):
    """The durations are those the flush before reported."""
    clock = Slow(env, steps)
    p = make(env, mode, clock)
    interval = env.int("interval", 1000, 1000000)
    root = site(env, p, interval)
    told(env, root, 0, 0, interval)
    p.process("a:1|c")
    p.process("b:2|ms")
    for i in range(2):
        out = flush(p, interval)
        flushing = sum([v for n, v, t in out if n.startswith("statsd.flush.")
                        and n.endswith(".duration")])
        processing = sum([v for n, v, t in out
                          if n.startswith("statsd.receive.")
                          and n.endswith(".duration")])
        told(env, root, flushing, processing, interval, False)
        p.process("c:3|g")


KINDS = ["c", "ms", "g", "m", "sli", "pd"]


def plugins(env):
    from txstatsd.metrics.distinctmetric import DistinctMetricReporter

    class Factory(object):
        name = "distinct"
        metric_type = "pd"

        def build_metric(self, prefix, name, wall_time_func=None):
            return DistinctMetricReporter(name, wall_time_func, prefix)
    return [sli_plugin(), Factory()]


def listing(env, mode, kinds, names, flushed):
    import json
    clock = Clock(1e9)
    env.set_randint(lambda a, b: 7)
    p = make(env, mode, clock, prefix=env.choice("prefix", ["", "pre"])
             if mode == CONFIGURABLE else "", plugins=plugins(env))
    root = site(env, p)
    code, text = get(root, "list_metrics")
    env.equal(list(json.loads(text)["names"]), [], "nothing seen")
    sent = []
    for i, kind in enumerate(kinds):
        if names == "same":
            name = sent[0] if sent else env.key("name", "a-z")
        else:
            name = env.key("name%d" % i, "a-z")
        if kind != "pd" and env.flag("bad"):
            p.process(name + ":x:|" + kind)
        else:
            p.process(name + ":" + "5|" + kind)
            if name not in sent:
                sent.append(name)
        if flushed:
            clock.now = clock.now + 10.0
            flush(p)
    code, text = get(root, "list_metrics")
    env.check(code == 200, "listing")
    found = list(json.loads(text)["names"])
    env.check(len(found) == len(sent), "each name once")
    for name in sent:
        env.check(len([f for f in found if f == name]) == 1, "name listed")


def crowd(env, mode, count):
    """All the metrics there are, with pages for timers."""
    import json
    clock = Clock(1e9)
    p = make(env, mode, clock)
    root = site(env, p)
    name = env.key("name", "a-f")
    for i in range(count):
        p.process("other.%d:5|%s" % (i, ["c", "g", "ms", "m"][i % 4]))
    p.process(name + ":5|ms")
    for i in range(count):
        p.process("other.%d:5|%s" % (i, ["c", "g", "ms", "m"][i % 4]))
    found = list(json.loads(get(root, "list_metrics")[1])["names"])
    env.check(len(found) == count + 1, "every name, once")
    env.check(len([f for f in found if f == name]) == 1, "name listed")


def page(env, mode, n, others):
    """The page of a timer."""
    import json
    clock = Clock(1e9)
    p = make(env, mode, clock, prefix="pre" if others else "",
             plugins=plugins(env))
    root = site(env, p)
    name = env.key("name", "a-z.")
    vs = []
    for i in range(n):
        text, v = env.number_text("v%d" % i, 0.0, 1000000.0)
        p.process(name + ":" + text + "|ms")
        vs.append(v)
    if others:
        other = env.key("other", "a-z.")
        env.assume(other != name)
        p.process(other + ":7|ms")
    code, text = get(root, "metrics", name)
    if n == 0 or mode == COMPLIANT:
        env.check(code == 404, "no such page")
        return
    env.check(code == 200, "the page of a timer")
    data = json.loads(text)
    low, high = vs[0], vs[0]
    for v in vs[1:]:
        low = env.ite(v < low, v, low)
        high = env.ite(v > high, v, high)
    env.close(data["min_value"], low, "minimum")
    env.close(data["max_value"], high, "maximum")
    bins = list(data["histogram"])
    env.close(sum(bins), n, "every value is in the histogram")
    width = (high - low) / len(bins)
    for i in range(len(bins)):
        least = sum([env.ite(env.both(v > low + width * i + 1e-6,
                                      v < low + width * (i + 1) - 1e-6), 1, 0)
                     for v in vs])
        most = sum([env.ite(env.both(v > low + width * i - 1e-6,
                                     v < low + width * (i + 1) + 1e-6), 1, 0)
                    for v in vs])
        env.check(env.implies(high - low > 1e-3,
                              env.both(bins[i] > least - 0.5,
                                       bins[i] < most + 0.5)),
                  "values are in their bins")


def cleared(env):
    """After a flush the page is that of the values since."""
    import json
    clock = Clock(1e9)
    p = make(env, CONFIGURABLE, clock)
    root = site(env, p)
    name = env.key("name", "a-z.")
    a, x = env.number_text("a", 0.0, 1000000.0)
    b, y = env.number_text("b", 0.0, 1000000.0)
    p.process(name + ":" + a + "|ms")
    clock.now = clock.now + 10.0
    flush(p)
    code, text = get(root, "metrics", name)
    data = json.loads(text)
    env.check(code == 200, "a timer without values")
    env.close(sum(list(data["histogram"])), 0, "no values")
    p.process(name + ":" + b + "|ms")
    code, text = get(root, "metrics", name)
    data = json.loads(text)
    env.close(data["min_value"], y, "minimum")
    env.close(data["max_value"], y, "maximum")
    env.close(sum(list(data["histogram"])), 1, "one value")


def pageless(env, mode, kind):
    """Only metrics with a page have one."""
    clock = Clock(1e9)
    env.set_randint(lambda a, b: 7)
    p = make(env, mode, clock, plugins=plugins(env))
    root = site(env, p)
    name = env.key("name", "a-z.")
    p.process(name + ":5|" + kind)
    code, text = get(root, "metrics", name)
    env.check(code == 404, "no page")
    code, text = get(root, "metrics", env.key("unknown", "a-z.") + "x")
    env.check(code == 404, "unknown metric")


def plugin(env, mode, paged):
    """A metric of a plugin may bring its page."""
    class Page(object):
        def render(self, request):
            return "mine"
        isLeaf = True

    class Metric(object):
        def __init__(self, name):
            self.name = name

        def process(self, fields):
            pass

        def flush(self, interval, timestamp):
            return []

    class Paged(Metric):
        def getResource(self):
            return Page()

    class Factory(object):
        name = "mine"
        metric_type = "x"

        def build_metric(self, prefix, name, wall_time_func=None):
            return Paged(name) if paged else Metric(name)
    p = make(env, mode, Clock(), plugins=[Factory()])
    root = site(env, p)
    name = env.key("name", "a-z.")
    p.process(name + ":5|x")
    code, text = get(root, "metrics", name)
    if paged:
        env.check(text == "mine", "the page of the metric")
        env.check(code == 200, "found")
    else:
        env.check(code == 404, "no page")


SCENARIOS = [(crowd, {"mode": COMPLIANT, "count": 600}, "quick"),
             (crowd, {"mode": CONFIGURABLE, "count": 600}, "quick"),
             (status, {"edge": False}, "quick"),
             (status, {"edge": True}, "quick")]
for mode in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((measured, {"mode": mode, "steps": 1}, "quick"))
    SCENARIOS.append((measured, {"mode": mode, "steps": 3}, "quick"))
    for i, k in enumerate(KINDS):
        l = KINDS[(i + 1) % len(KINDS)]
        SCENARIOS.append((listing, {"mode": mode, "kinds": [k, l, k],
                                    "names": "any", "flushed": i % 2 == 0},
                          "quick"))
        SCENARIOS.append((listing, {"mode": mode, "kinds": [k, l],
                                    "names": "same", "flushed": i % 2 == 1},
                          "quick"))
        for j in KINDS:
            SCENARIOS.append((listing, {"mode": mode, "kinds": [k, j, l, k],
                                        "names": "any", "flushed": True},
                              "thorough"))
        if mode == COMPLIANT or k != "ms":
            SCENARIOS.append((pageless, {"mode": mode, "kind": k}, "quick"))
    for n in (0, 1, 2):
        SCENARIOS.append((page, {"mode": mode, "n": n, "others": n == 1},
                          "quick"))
    SCENARIOS.append((page, {"mode": mode, "n": 3, "others": False},
                      "thorough"))
    SCENARIOS.append((plugin, {"mode": mode, "paged": True}, "quick"))
    SCENARIOS.append((plugin, {"mode": mode, "paged": False}, "quick"))
SCENARIOS.append((cleared, {}, "quick"))
