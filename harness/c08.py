from hlib import *

BOUNDS = ("intervals with up to 4 (quick) or 6 (thorough) durations of any "
          "value and sign in +-1e6, up to 3 intervals, two names, whole "
          "seconds between flushes from -3600 to 3600 with a fractional "
          "start; percentiles also for 5..120 durations in fixed relative "
          "orders; once 1031 given durations")
ASSUMES = ["percentiles: no more than 1028 non-negative durations in an "
           "interval (the capacity of the sample)"]

STATS = [".99percentile", ".999percentile", ".count", ".max", ".mean", ".min",
         ".rate", ".stddev"]


def expected(values, q):
    """The interpolated percentile of sorted values."""
    n = len(values)
    pos = q * (n + 1)
    if pos < 1:
        return values[0]
    if pos >= n:
        return values[n - 1]
    k = int(pos)
    return values[k - 1] + (pos - k) * (values[k] - values[k - 1])


def check(env, out, key, values, total, since, now):
    """values: the non-negative durations of the interval."""
    stats = {}
    for s in STATS:
        v = one(env, out, key + s, "timer" + s)
        if v is None:
            return
        stats[s] = v
    env.equal(stats[".count"], float(total), "count of all durations")
    n = len(values)
    if n == 0:
        for s in STATS:
            if s != ".count":
                env.equal(stats[s], 0.0, "zero without durations: " + s)
        return
    ordered = sorted(values)
    env.near(stats[".min"], ordered[0], "minimum")
    env.near(stats[".max"], ordered[n - 1], "maximum")
    mean = sum(values) / float(n)
    env.near(stats[".mean"], mean, "mean")
    env.near(stats[".99percentile"], expected(ordered, 0.99), "99 percentile")
    env.near(stats[".999percentile"], expected(ordered, 0.999),
             "99.9 percentile")
    env.le(0.0, stats[".rate"], "the rate is not negative")
    if now > since:
        env.near(stats[".rate"], float(n) / (now - since), "rate")
    if n == 1:
        env.equal(stats[".stddev"], 0.0, "no deviation of one duration")
    elif n <= 3 or env.thorough:
        square = 0.0
        for v in values:
            square = square + (v - mean) * (v - mean)
        env.near(stats[".stddev"], (square / (n - 1)) ** 0.5, "deviation")


def history(env, steps, names, negative):
    clock = Clock(env.real("now", 10000.0, 2000000000.0))
    p = make(env, CONFIGURABLE, clock)
    keys = [env.key("a"), env.key("b")]
    env.assume(keys[0] != keys[1])
    state = [None, None]
    options = ["a", "b"][:names] + ["flush"]
    for i in range(steps):
        step = env.choice("step", options)
        if step == "flush":
            flushed(env, p, clock, keys, state)
            continue
        k = 0 if step == "a" else 1
        text, value = env.number_text("value",
                                      -1000000.0 if negative else 0.0)
        p.process(keys[k] + ":" + text + "|ms")
        if state[k] is None:
            state[k] = [[], 0, clock.now]
        if value >= 0:
            state[k][0].append(value)
        state[k][1] = state[k][1] + 1
    flushed(env, p, clock, keys, state)
    flushed(env, p, clock, keys, state)


def flushed(env, p, clock, keys, state):
    clock.now = clock.now + env.int("seconds", -3600, 3600)
    out = flush(p)
    now = int(clock.now)
    for k in (0, 1):
        if state[k] is None:
            continue
        values, total, since = state[k]
        check(env, out, keys[k], values, total, since, now)
        state[k] = [[], total, now]
    env.check(len(body(out)) ==
              len(STATS) * len([s for s in state if s is not None]),
              "nothing else is reported")


def deviation(env, n):
    """The sample standard deviation of n arbitrary durations."""
    clock = Clock(1000.0)
    p = make(env, CONFIGURABLE, clock)
    values = []
    if env.flag("earlier"):
        # an earlier interval leaves nothing behind
        for i in range(2):
            t, v = env.number_text("before", 0.0)
            p.process("t:" + t + "|ms")
        clock.now = clock.now + 10.0
        flush(p)
    for i in range(n):
        t, v = env.number_text("value", 0.0)
        p.process("t:" + t + "|ms")
        values.append(v)
    clock.now = clock.now + 10.0
    s = one(env, flush(p), "t.stddev", "deviation")
    mean = sum(values) / float(n)
    square = 0.0
    for v in values:
        square = square + (v - mean) * (v - mean)
    if s is not None:
        env.near(s, (square / (n - 1)) ** 0.5, "deviation")


def many(env, n, order):
    """Percentiles of longer intervals whose relative order is fixed."""
    clock = Clock(1000.0)
    p = make(env, CONFIGURABLE, clock)
    values = []
    last = 0.0
    for i in range(n):
        text, value = env.number_text("value", 0.0)
        env.assume(value >= last)
        last = value
        values.append((text, value))
    if order == "falling":
        values.reverse()
    elif order == "mixed":
        values = [values[(7 * i + 3) % n] for i in range(n)]
    for text, value in values:
        p.process("t:" + text + "|ms")
    clock.now = 1010.0
    out = flush(p)
    ordered = sorted([v for t, v in values])
    for s, q in ((".99percentile", 0.99), (".999percentile", 0.999)):
        v = one(env, out, "t" + s, s)
        if v is not None:
            env.near(v, expected(ordered, q), "percentile of many")
    v = one(env, out, "t.rate", "rate")
    if v is not None:
        env.near(v, n / 10.0, "rate of many")


def busy(env, n):
    """More durations in an interval than the sample holds."""
    clock = Clock(1000.0)
    env.set_randint(lambda lo, hi: lo + i % (hi - lo + 1))
    p = make(env, CONFIGURABLE, clock)
    for i in range(n):
        p.process("t:%d|ms" % (100 + i % 9))
    total = sum([100.0 + k % 9 for k in range(n)])
    seconds = env.int("seconds", 1, 3600)
    clock.now = clock.now + seconds
    out = flush(p)
    for suffix, want in ((".count", n), (".rate", n / (seconds * 1.0)),
                         (".mean", total / n),
                         (".min", 100.0), (".max", 108.0)):
        v = one(env, out, "t" + suffix, suffix)
        if v is not None:
            env.near(v, want, suffix + " of more than the sample holds")


SCENARIOS = [
    (busy, {"n": 1031}, "quick"),
    (history, {"steps": 3, "names": 2, "negative": True}, "quick"),
    (history, {"steps": 4, "names": 1, "negative": False}, "quick"),
    (history, {"steps": 4, "names": 2, "negative": True}, "thorough"),
    (history, {"steps": 6, "names": 1, "negative": False}, "thorough"),
    (deviation, {"n": 2}, "quick"),
    (deviation, {"n": 3}, "quick"),
    (deviation, {"n": 4}, "thorough"),
    (many, {"n": 5, "order": "rising"}, "quick"),
    (many, {"n": 12, "order": "mixed"}, "quick"),
    (many, {"n": 33, "order": "falling"}, "quick"),
    (many, {"n": 101, "order": "mixed"}, "thorough"),
    (many, {"n": 120, "order": "falling"}, "thorough"),
]
