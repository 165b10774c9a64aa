from hlib import *

BOUNDS = ("a server holding one metric of each kind with arbitrary values; "
          "one (quick) or two (thorough) further messages of any kind, with "
          "arbitrary values, to the same or to a new name, arriving before "
          "any datapoint of the flush (two of them at any two places)")

KINDS = ["c", "g", "m", "ms", "sli"]
PLACES = 32


class Book(object):
    """What has been sent."""

    def __init__(self):
        self.sent = []

    def values(self, kind, name):
        return [v for k, n, v in self.sent if k == kind and n == name]

    def number(self, kind):
        return len([v for k, n, v in self.sent if k == kind])


def send(env, p, book, kind, name):
    if kind == "sli":
        text, value = "5", 5.0
    else:
        text, value = env.number_text("value", 0.0)
    p.process(name + ":" + text + "|" + kind)
    book.sent.append((kind, name, value))


def drain(env, p, book, plan):
    """Flushes, with messages arriving before the datapoints planned."""
    out = []
    gen = iter(p.flush(10000, 100))
    i = 0
    while True:
        for place, kind, name in plan:
            if place == i:
                send(env, p, book, kind, name)
        try:
            name, value, timestamp = gen.next()
        except StopIteration:
            break
        out.append((name, value, timestamp))
        i += 1
    for place, kind, name in plan:
        if place > i:
            send(env, p, book, kind, name)
    return out


def arriving(env, mode, kinds, before):
    clock = Clock(1000.0)
    p = make(env, mode, clock, plugins=[sli_plugin()])
    book = Book()
    name = {}
    for k in KINDS:
        # one kind per name: reports of two kinds may share a name
        name[k] = env.key("old " + k) + "." + k
    for k in before:
        send(env, p, book, k, name[k])
    plan = []
    places = range(PLACES)
    for k in kinds:
        n = name[k]
        if env.flag("new"):
            n = "new." + k
        place = env.choice("place", places)
        places = range(place, PLACES)
        plan.append((place, k, n))
    clock.now = 1010.0
    first = drain(env, p, book, plan)
    clock.now = 1020.0
    second = drain(env, p, book, [])
    for k in KINDS:
        for n in (name[k], "new." + k):
            accounted(env, mode, k, n, book.values(k, n), first, second,
                      before)
        sent = book.number(k)
        got = 0
        for out in (first, second):
            for v in named(out, "statsd.receive.%s.count" % k):
                got = got + v
        env.equal(got, sent, "received messages counted once")


def accounted(env, mode, kind, name, values, first, second, old):
    if not values:
        return
    total = 0
    for v in values:
        total = total + v
    if kind == "c" and mode == COMPLIANT:
        got = 0
        for out in (first, second):
            for v in named(out, "stats_counts." + name):
                got = got + v
        env.equal(got, total, "counter samples accounted once")
        rates = 0
        for out in (first, second):
            for v in named(out, "stats." + name):
                rates = rates + v * 10
        env.equal(rates, total, "counter rates account for every sample")
    elif kind == "c":
        got = named(second, name + ".count")
        env.check(len(got) == 1, "counter reported")
        if got:
            last = values[len(values) - 1]
            env.check(env.both(got[0] <= last, got[0] > last - 1),
                      "counter at its latest value")
    elif kind == "g":
        gauge = "stats.gauge." + name if mode == COMPLIANT else name
        got = named(second, gauge + ".value")
        env.check(len(got) >= 1, "gauge reported")
        if got:
            env.equal(got[len(got) - 1], values[len(values) - 1],
                      "gauge at its latest value")
    elif kind == "m":
        meter = "stats.meter." + name if mode == COMPLIANT else name
        got = named(second, meter + ".count")
        env.check(len(got) == 1, "meter reported")
        if got:
            env.near(got[0], total, "meter counts every event once")
    elif kind == "ms" and mode == COMPLIANT:
        timer = "stats.timers." + name
        count = 0
        weight = 0
        for out in (first, second):
            c = named(out, timer + ".count")
            m = named(out, timer + ".mean")
            env.check(len(c) == len(m) and len(c) <= 1, "timer reported once")
            if len(c) == 1 and len(m) == 1:
                count = count + c[0]
                weight = weight + m[0] * c[0]
        env.equal(count, len(values), "timer samples counted once")
        env.equal(weight, total, "timer samples accounted once")
    elif kind == "ms":
        got = named(second, name + ".count")
        env.check(len(got) == 1, "timer reported")
        if got:
            env.equal(got[0], float(len(values)), "timer counts every sample")
        # one flush every ten seconds: a sample adds 0.1 to its interval
        if not name.startswith("new.") and kind in old:
            samples_of(env, name, values, total, first, second)
        elif len(values) == 1:
            # a timer created in the second of its flush reports no rate
            weight = 0
            for out in (first, second):
                for v in named(out, name + ".mean"):
                    weight = weight + v
            env.check(env.both(weight - total <= 0.00001,
                               total - weight <= 0.00001),
                      "timer sample accounted once")
    else:
        path = "stats.SLI." + name if mode == COMPLIANT else name
        got = 0
        for out in (first, second):
            for v in named(out, path + ".count"):
                got = got + v
        env.equal(got, len(values), "service-level samples counted once")


def samples_of(env, name, values, total, first, second):
    rates = 0
    weight = 0
    for out in (first, second):
        r = named(out, name + ".rate")
        m = named(out, name + ".mean")
        for i in range(len(r)):
            rates = rates + int(round(r[i] * 10))
            weight = weight + m[i] * int(round(r[i] * 10))
    env.equal(rates, len(values), "timer samples in one interval each")
    env.check(env.both(weight - total <= 0.00001,
                       total - weight <= 0.00001),
              "timer samples accounted once")


SCENARIOS = []
for m in (COMPLIANT, CONFIGURABLE):
    for k in KINDS:
        SCENARIOS.append((arriving, {"mode": m, "kinds": [k],
                                     "before": KINDS}, "quick"))
        SCENARIOS.append((arriving, {"mode": m, "kinds": [k],
                                     "before": []}, "quick"))
        for k2 in KINDS:
            SCENARIOS.append((arriving, {"mode": m, "kinds": [k, k2],
                                         "before": KINDS}, "thorough"))
    SCENARIOS.append((arriving, {"mode": m, "kinds": ["ms", "ms"],
                                 "before": ["ms"]}, "quick"))
    SCENARIOS.append((arriving, {"mode": m, "kinds": ["c", "c"],
                                 "before": ["c"]}, "quick"))
