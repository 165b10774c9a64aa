from hlib import *

BOUNDS = ("reservoirs of 1 and 2 (thorough: 3) entries, up to 4 (thorough: 5) "
          "updates with any values at any times within 40000 seconds (before "
          "or after one another, rescaling at any of them), any draws in "
          "[0,1), any decay factor up to 0.015 or that one, clearing between; "
          "reservoirs of 2 and 3 entries, up to 5 (thorough: 6) updates at "
          "one moment; 3 updates at six given sequences of moments, any "
          "draws")
ASSUMES = ["u is one minus the random draw",
           "no two priorities are equal (nor within a millionth at given moments)",
           "exp is positive, monotone and multiplicative; no underflow"]


class Source(object):
    def __init__(self, env):
        self.env = env
        self.drawn = []
        env.set_random(self)

    def __call__(self):
        u = self.env.real("draw", 0, 1)
        self.env.assume(u < 1)
        self.drawn.append(u)
        return u


def moments(env, capacity, times):
    """Updates at given moments, where exp has its real values."""
    import math
    from txstatsd.stats.exponentiallydecayingsample import \
        ExponentiallyDecayingSample
    source = Source(env)
    clock = Clock(times[0])
    env.set_time(clock)
    s = ExponentiallyDecayingSample(capacity, 0.015, clock)
    inside = []
    for i in range(1, len(times)):
        clock.now = times[i]
        s.update(i)
        if len(source.drawn) != i:
            env.gap("other than one draw per update")
        u = 1.0 - source.drawn[-1]
        heavy = math.exp(0.015 * (times[i] - times[-1]))
        for h, v, w in inside:
            # clearly apart: u of this one against that of the others
            env.assume(env.either(h * u > heavy * w * 1.000001,
                                  h * u * 1.000001 < heavy * w))
        inside.append((heavy, i, u))
        if len(inside) > capacity:
            lightest = inside[0]
            for entry in inside[1:]:
                # entry[0] / entry[2] < lightest[0] / lightest[2]
                if entry[0] * lightest[2] < lightest[0] * entry[2]:
                    lightest = entry
            inside.remove(lightest)
        env.equal(sorted(s.get_values()), sorted([v for h, v, w in inside]),
                  "the heaviest are in")


def run(env, s, clock, source, alpha, capacity, n, explicit, symbolic):
    """n updates of a fresh sample; who is in is followed with weights that
    are never rescaled."""
    import math
    start = clock.now
    inside = []          # (weight, value)
    for i in range(n):
        now = env.real("now", 0, 40000)
        value = 5 - 3 * i
        if symbolic:
            value = env.real("value")
        drawn = len(source.drawn)
        if explicit:
            s.update(value, now)
        else:
            clock.now = now
            s.update(value)
        if len(source.drawn) != drawn + 1:
            env.gap("other than one draw per update")
        u = 1.0 - source.drawn[-1]
        weight = math.exp(alpha * (now - start)) / u
        for w, v in inside:
            env.assume(env.either(w < weight, weight < w))
        if len(inside) < capacity:
            inside.append((weight, value))
        else:
            lowest = inside[0]
            for entry in inside[1:]:
                if entry[0] < lowest[0]:
                    lowest = entry
            if lowest[0] < weight:
                inside.remove(lowest)
                inside.append((weight, value))
        held = s.get_values()
        env.check(s.size() == min(i + 1, capacity), "size")
        env.check(len(held) == len(inside), "as many values")
        if len(held) != len(inside):
            return
        if symbolic:
            # ordered alike: compare the two as multisets
            a = sorted(held)
            b = sorted([v for w, v in inside])
            env.equal(a, b, "who is in")
        else:
            for w, v in inside:
                env.check(held.count(v) == 1, "the heaviest are in")


def updates(env, capacity, n, explicit, symbolic, fixed, cleared):
    from txstatsd.stats.exponentiallydecayingsample import \
        ExponentiallyDecayingSample
    source = Source(env)
    clock = Clock(env.real("start", 0, 40000))
    env.set_time(clock)
    alpha = 0.015
    if not fixed:
        alpha = env.real("alpha", 0, 0.015)
        env.assume(alpha > 0)
    s = ExponentiallyDecayingSample(capacity, alpha, clock)
    env.check(s.size() == 0, "empty at first")
    env.check(len(s.get_values()) == 0, "nothing in it")
    if cleared:
        for i in range(cleared):
            clock.now = env.real("earlier", 0, 40000)
            s.update(100 + i)
        clock.now = env.real("restart", 0, 40000)
        s.clear()
        env.check(s.size() == 0, "cleared")
        env.check(len(s.get_values()) == 0, "nothing left")
    run(env, s, clock, source, alpha, capacity, n, explicit, symbolic)


def still(env, capacity, n):
    """Many updates at one moment: only the draws matter."""
    from txstatsd.stats.exponentiallydecayingsample import \
        ExponentiallyDecayingSample
    source = Source(env)
    clock = Clock(1000.0)
    env.set_time(clock)
    s = ExponentiallyDecayingSample(capacity, 0.015, clock)
    inside = []          # (one minus the draw, value)
    for i in range(n):
        s.update(i)
        if len(source.drawn) != i + 1:
            env.gap("other than one draw per update")
        u = 1.0 - source.drawn[-1]
        for w, v in inside:
            env.assume(env.either(w < u, u < w))
        inside.append((u, i))
        if len(inside) > capacity:
            lightest = inside[0]
            for entry in inside[1:]:
                if lightest[0] < entry[0]:
                    lightest = entry
            inside.remove(lightest)
        env.equal(sorted(s.get_values()), sorted([v for u, v in inside]),
                  "the heaviest are in")


def default_clock(env):
    """The one in use keeps time by the system clock."""
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    source = Source(env)
    clock = Clock(env.real("start", 0, 40000))
    env.set_time(clock)
    h = HistogramMetricReporter.using_exponentially_decaying_sample()
    n = 0
    for i in range(3):
        clock.now = env.real("now", 0, 40000)
        h.update(i)
        n += 1
        held = h.get_values()
        env.check(len(held) == n, "all kept")
        for k in range(n):
            env.check(held.count(k) == 1, "each once")


def case(tier, capacity, n, **kw):
    p = {"capacity": capacity, "n": n, "explicit": False, "symbolic": False,
         "fixed": True, "cleared": 0}
    p.update(kw)
    SCENARIOS.append((updates, p, tier))


SCENARIOS = [(default_clock, {}, "quick")]
case("quick", 1, 3)
case("quick", 2, 3)
case("quick", 2, 3, explicit=True)
case("quick", 1, 3, fixed=False)
case("quick", 2, 3, symbolic=True)
case("quick", 1, 2, cleared=2)
for times in ([0.0, 0.5, 600.75, 601.25], [1000.25, 1000.25, 1599.5, 1601.0],
              [5.0, 605.0, 1205.5, 1206.0], [5.5, 100.0, 99.25, 606.0],
              [0.5, 599.0, 2000.25, 2001.0], [7.5, 8.0, 607.5, 607.75]):
    SCENARIOS.append((moments, {"capacity": 1, "times": times}, "quick"))
    SCENARIOS.append((moments, {"capacity": 2, "times": times}, "quick"))
SCENARIOS.append((still, {"capacity": 2, "n": 4}, "quick"))
SCENARIOS.append((still, {"capacity": 3, "n": 5}, "quick"))
SCENARIOS.append((still, {"capacity": 3, "n": 6}, "thorough"))
case("thorough", 1, 4)
case("thorough", 2, 4)
case("thorough", 3, 4)
case("thorough", 2, 4, explicit=True, fixed=False)
case("thorough", 2, 3, cleared=2)
