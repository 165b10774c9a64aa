from hlib import *

BOUNDS = ("up to 5 (quick) or 6 (thorough) arbitrary durations in any order, "
          "up to 20 (quick) or 41 (thorough) in fixed relative orders, six "
          "percentages; histories of up to 4 (quick) or 6 (thorough) steps "
          "(message or flush) over two names; "
          "2500 durations in one interval, once")
ASSUMES = ["the percentage given to flush is between 50 and 100"]


ITEMS = [".count", ".lower", ".upper", ".mean", ".upper_90"]


def expect(env, out, key, values, percent):
    base = "stats.timers." + key
    if len(values) == 0:
        for n, v, t in out:
            for item in ITEMS:
                env.check(n != base + item,
                          "a timer without samples is not reported")
        return
    values = sorted(values)
    n = len(values)
    kept = n
    if n > 1:
        kept = n - int(round((100 - percent) / 100.0 * n))
    v = one(env, out, base + ".count", "count")
    env.check(v == n, "count")
    v = one(env, out, base + ".lower", "lower")
    if v is not None:
        env.equal(v, values[0], "lower is the smallest")
    v = one(env, out, base + ".upper", "upper")
    if v is not None:
        env.equal(v, values[-1], "upper is the largest")
        env.observe("upper", v)
    v = one(env, out, base + ".upper_" + str(percent), "threshold")
    if v is not None:
        env.equal(v, values[kept - 1], "largest below the threshold")
    v = one(env, out, base + ".mean", "mean")
    if v is not None:
        env.equal(v, sum(values[:kept]) / kept, "mean below the threshold")
        env.observe("mean", v)


def summary(env, n, percent, order):
    clock = Clock(1000.0)
    p = make(env, COMPLIANT, clock)
    key = env.key("timer")
    texts, values = [], []
    for i in range(n):
        text, value = env.number_text("v%d" % i)
        texts.append(text)
        values.append(value)
        if order != "any" and i:
            env.assume(values[i - 1] <= value)
    index = range(n)
    if order == "down":
        index = index[::-1]
    elif order == "mixed":
        index = index[1::2] + index[0::2][::-1]
    for i in index:
        p.process(key + ":" + texts[i] + "|ms")
    out = flush(p, percent=percent)
    expect(env, out, key, values, percent)
    expect(env, flush(p, percent=percent), key, [], percent)


def history(env, steps, names, related=False):
    clock = Clock(1000.0)
    p = make(env, COMPLIANT, clock)
    keys = two_names(env, related)
    values = [[], []]
    for i in range(steps):
        step = env.choice("step", ["a", "b", "flush"][:1 + names][:names] +
                          ["flush"])
        if step == "flush":
            out = flush(p)
            for k in range(names):
                expect(env, out, keys[k], values[k], 90)
            values = [[], []]
            continue
        k = 0 if step == "a" else 1
        text, value = env.number_text("value")
        third = env.choice("third", ["", "|@0.1"])
        p.process(keys[k] + ":" + text + "|ms" + third)
        values[k].append(value)
    out = flush(p)
    for k in range(names):
        expect(env, out, keys[k], values[k], 90)
    out = flush(p)
    for k in range(names):
        expect(env, out, keys[k], [], 90)


def crowd(env, n):
    """All the durations of a busy interval count."""
    clock = Clock(1000.0)
    p = make(env, COMPLIANT, clock)
    low_text, low = env.number_text("low", -1000000.0, -1.0)
    high_text, high = env.number_text("high", n + 1.0, 1000000.0)
    before = env.choice("before", [0, n // 2, n])
    for i in range(n):
        if i == before:
            p.process("t:" + low_text + "|ms")
            p.process("t:" + high_text + "|ms")
        p.process("t:%d|ms" % i)
    if before == n:
        p.process("t:" + low_text + "|ms")
        p.process("t:" + high_text + "|ms")
    out = flush(p)
    base = "stats.timers.t"
    env.check(one(env, out, base + ".count", "count") == n + 2, "count")
    env.equal(one(env, out, base + ".lower", "lower"), low,
              "lower is the smallest")
    env.equal(one(env, out, base + ".upper", "upper"), high,
              "upper is the largest")
    kept = n + 2 - int(round(0.1 * (n + 2)))
    env.equal(one(env, out, base + ".upper_90", "threshold"),
              float(kept - 2), "largest below the threshold")
    env.near(one(env, out, base + ".mean", "mean"),
             (low + (kept - 2) * (kept - 1) / 2) / kept,
             "mean below the threshold")
    env.check(len(body(flush(p))) == 0, "forgotten afterwards")


PERCENTS = [90, 50, 75, 95, 99, 100]
SCENARIOS = []
for n in range(1, 6):
    for pc in PERCENTS:
        SCENARIOS.append((summary, {"n": n, "percent": pc, "order": "any"},
                          "quick" if n < 5 else "thorough"))
SCENARIOS.append((summary, {"n": 5, "percent": 90, "order": "any"}, "quick"))
SCENARIOS.append((summary, {"n": 6, "percent": 90, "order": "any"},
                  "thorough"))
for n in (10, 15, 20):
    for o in ("up", "down", "mixed"):
        SCENARIOS.append((summary, {"n": n, "percent": 90, "order": o},
                          "quick"))
for n in (7, 11, 14, 25, 35, 41):
    for o in ("up", "down", "mixed"):
        for pc in PERCENTS:
            SCENARIOS.append((summary, {"n": n, "percent": pc, "order": o},
                              "thorough"))
SCENARIOS.append((crowd, {"n": 2500}, "quick"))
SCENARIOS.append((history, {"steps": 3, "names": 2}, "quick"))
SCENARIOS.append((history, {"steps": 4, "names": 1}, "quick"))
SCENARIOS.append((history, {"steps": 2, "names": 2, "related": True},
                  "quick"))
SCENARIOS.append((history, {"steps": 5, "names": 2}, "thorough"))
SCENARIOS.append((history, {"steps": 6, "names": 1}, "thorough"))
