from hlib import *

BOUNDS = ("up to 4 (quick) or 5 (thorough) values of +-1e6, reals or whole "
          "numbers, in any order and with any ties, up to twice, in samples "
          "that hold them all, or only 2 of them; every percentile in [0,1]; "
          "once 1030 values, the last of them any")
ASSUMES = ["values are finite"]


def values_of(env, n, whole):
    if whole:
        return [env.int("value", -1000000, 1000000) for i in range(n)]
    return [env.real("value", -1000000.0, 1000000.0) for i in range(n)]


def reporter(env, capacity):
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    from txstatsd.stats.uniformsample import UniformSample
    env.set_time(Clock())

    def draw(lo, hi):
        x = env.int("draw", 0, None)
        env.assume(x <= hi - lo)
        return lo + x
    env.set_randint(draw)
    env.set_random(lambda: 0.25)
    if capacity == "uniform":
        return HistogramMetricReporter.using_uniform_sample()
    if capacity == "decaying":
        return HistogramMetricReporter.using_exponentially_decaying_sample()
    return HistogramMetricReporter(UniformSample(capacity))


def empty(env, h, label):
    env.equal(h.min(), 0.0, label + ": minimum")
    env.equal(h.max(), 0.0, label + ": maximum")
    env.equal(h.mean(), 0.0, label + ": mean")
    env.equal(h.std_dev(), 0.0, label + ": deviation")
    env.equal(list(h.percentiles(0.5, 0.99)), [0.0, 0.0],
              label + ": percentiles")
    for x in h.histogram():
        env.equal(x, 0.0, label + ": histogram")
    env.check(len(h.get_values()) == 0, label + ": no values")


def moments(env, h, vs):
    n = len(vs)
    low, high = vs[0], vs[0]
    for v in vs[1:]:
        low = env.ite(v < low, v, low)
        high = env.ite(v > high, v, high)
    env.equal(h.min(), low, "minimum")
    env.equal(h.max(), high, "maximum")
    mean = sum(vs) / float(n)
    env.close(h.mean(), mean, "mean")
    if n == 1:
        env.equal(h.std_dev(), 0.0, "no deviation of one value")
    else:
        square = 0.0
        for v in vs:
            square = square + (v - mean) * (v - mean)
        env.close(h.std_dev(), (square / (n - 1)) ** 0.5, "deviation")


def summary(env, capacity, n, whole, again):
    h = reporter(env, capacity)
    empty(env, h, "new")
    vs = values_of(env, n, whole)
    for v in vs:
        h.update(v)
    moments(env, h, vs)
    if again:
        h.clear()
        empty(env, h, "cleared")
        vs = values_of(env, again, whole)
        for v in vs:
            h.update(v)
        moments(env, h, vs)


def expected(ordered, q):
    """Interpolation of sorted values at a percentile."""
    n = len(ordered)
    pos = q * (n + 1)
    if pos < 1:
        return ordered[0]
    if pos >= n:
        return ordered[n - 1]
    k = int(pos)
    return ordered[k - 1] + (pos - k) * (ordered[k] - ordered[k - 1])


def percentiles(env, capacity, n):
    h = reporter(env, capacity)
    for v in values_of(env, n, False):
        h.update(v)
    held = h.get_values()
    if n <= capacity:
        env.check(len(held) == n, "all values are there")
    ordered = sorted(held)
    p = env.real("p", 0.0, 1.0)
    q = env.real("q", 0.0, 1.0)
    env.assume(p <= q)
    got = list(h.percentiles(p, q))
    env.check(len(got) == 2, "as many as asked for")
    env.le(ordered[0], got[0], "not below the minimum")
    env.le(got[0], ordered[-1], "not above the maximum")
    env.le(got[0], got[1], "growing with the percentile")
    env.close(got[0], expected(ordered, p), "interpolated")
    env.close(got[1], expected(ordered, q), "interpolated")


def fixed(env, capacity, n):
    """Given percentiles, the order of the answers and many values."""
    h = reporter(env, capacity)
    step = env.choice("step", [0.5, 3.0])
    base = env.real("base", -1000.0, 1000.0)
    order = env.choice("order", ["up", "down", "mixed"])
    for i in range(n):
        k = i
        if order == "down":
            k = n - 1 - i
        elif order == "mixed":
            k = (i * 7) % n
        h.update(base + step * k)
    qs = (0.5, 0.75, 0.95, 0.98, 0.99, 0.999, 0.0, 1.0)
    got = h.percentiles(*qs)
    env.check(len(got) == len(qs), "as many as asked for")
    ordered = [base + step * k for k in range(n)]
    for i in range(len(qs)):
        pos = qs[i] * (n + 1)
        k = int(pos)
        if pos < 1:
            want = ordered[0]
        elif pos >= n:
            want = ordered[n - 1]
        else:
            want = ordered[k - 1] + (pos - k) * (ordered[k] - ordered[k - 1])
        env.close(got[i], want, "interpolated")


def busy(env, capacity, n):
    """More values than the sample holds."""
    h = reporter(env, capacity)
    env.set_randint(lambda lo, hi: lo + i % (hi - lo + 1))
    vs = []
    for i in range(n - 1):
        vs.append(100.0 + i % 9)
        h.update(vs[i])
    held = h.get_values()
    env.check(len(held) == 1028, "as many as the sample holds")
    scores = h.histogram()
    env.check(len(scores) == 1 + (n - 2).bit_length(),
              "as many bins as Sturges' rule asks for")
    env.equal(sum(scores), len(held), "counts add up")
    mean = sum(vs) / (n - 1)
    square = sum([(v - mean) * (v - mean) for v in vs])
    env.near(h.std_dev(), (square / (n - 2)) ** 0.5, "deviation of many")
    x = env.real("value", -1000000.0, 1000000.0)
    h.update(x)
    env.equal(h.min(), env.ite(x < 100.0, x, 100.0), "minimum of many")
    env.equal(h.max(), env.ite(x > 108.0, x, 108.0), "maximum of many")
    env.close(h.mean(), (sum(vs) + x) / n, "mean of many")


def bins(env, capacity, n, whole):
    h = reporter(env, capacity)
    for v in values_of(env, n, whole):
        h.update(v)
    held = h.get_values()
    scores = h.histogram()
    env.check(len(scores) >= 1, "some bins")
    # 1 + log2(n), rounded up
    env.check(len(scores) == 1 + (n - 1).bit_length(),
              "as many bins as Sturges' rule asks for")
    env.equal(sum(scores), len(held), "counts add up")
    low, high = held[0], held[0]
    for v in held[1:]:
        low = env.ite(v < low, v, low)
        high = env.ite(v > high, v, high)
    b = len(scores)
    width = (high - low) / float(b)
    for i in range(b):
        env.check(scores[i] >= 0, "counts are not negative")
    if width == 0:
        return
    for i in range(b - 1):
        count = 0
        for v in held:
            inside = env.both(v - low >= i * width, v - low < (i + 1) * width)
            count = count + env.ite(inside, 1, 0)
        env.equal(scores[i], count, "bins of equal width")


SCENARIOS = [
    (summary, {"capacity": "uniform", "n": 3, "whole": False, "again": 0},
     "quick"),
    (summary, {"capacity": "uniform", "n": 2, "whole": True, "again": 2},
     "quick"),
    (summary, {"capacity": "decaying", "n": 2, "whole": False, "again": 1},
     "quick"),
    (summary, {"capacity": 2, "n": 3, "whole": False, "again": 0}, "quick"),
    (summary, {"capacity": "uniform", "n": 1, "whole": False, "again": 3},
     "quick"),
    (summary, {"capacity": "uniform", "n": 4, "whole": False, "again": 0},
     "thorough"),
    (summary, {"capacity": "uniform", "n": 3, "whole": True, "again": 2},
     "thorough"),
]
for n in (1, 2, 3):
    SCENARIOS.append((percentiles, {"capacity": 10, "n": n}, "quick"))
SCENARIOS.append((percentiles, {"capacity": 10, "n": 4}, "thorough"))
SCENARIOS.append((percentiles, {"capacity": 2, "n": 3}, "quick"))
for n in (5, 20, 120):
    SCENARIOS.append((fixed, {"capacity": 200, "n": n}, "quick"))
for n in (1, 2, 3):
    SCENARIOS.append((bins, {"capacity": 10, "n": n, "whole": n == 2},
                      "quick"))
SCENARIOS.append((bins, {"capacity": 2, "n": 3, "whole": False}, "quick"))
SCENARIOS.append((bins, {"capacity": 2, "n": 5, "whole": False}, "quick"))
SCENARIOS.append((busy, {"capacity": "uniform", "n": 1030}, "quick"))
SCENARIOS.append((bins, {"capacity": 10, "n": 4, "whole": False}, "thorough"))
SCENARIOS.append((bins, {"capacity": 3, "n": 5, "whole": False}, "thorough"))
