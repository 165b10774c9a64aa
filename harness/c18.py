from hlib import *

BOUNDS = ("reservoirs of 0 to 3 slots (and one of 1028 for streams that fit), "
          "up to 5 (quick) or 7 (thorough) updates with any values and any "
          "draws, clearing at any point")
ASSUMES = ["draws are taken with random.randint or random.randrange, each "
           "equally likely; the share is exact over any n consecutive draws"]


class Draws(object):
    """Draws of random integers: recorded, symbolic or prescribed."""

    def __init__(self, env):
        self.env = env
        self.made = []
        self.given = []
        env.set_randint(self)

    def __call__(self, lo, hi):
        if self.given:
            offset = self.given.pop(0)
        else:
            offset = self.env.int("draw", 0, None)
            self.env.assume(offset <= hi - lo)
        self.made.append((lo, hi, offset))
        return lo + offset


def distinct_values(env, n):
    vs = [env.real("value") for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.negate(env.same(vs[i], vs[j])))
    return vs


def stream(env, capacity, n):
    from txstatsd.stats.uniformsample import UniformSample
    Draws(env)
    s = UniformSample(capacity)
    env.check(s.size() == 0, "empty at first")
    env.check(len(s.get_values()) == 0, "no values at first")
    vs = distinct_values(env, n)
    if env.flag("cleared"):
        for i in range(env.choice("before", [1, capacity + 1])):
            s.update(env.real("old"))
        s.clear()
        env.check(s.size() == 0, "cleared")
        env.check(len(s.get_values()) == 0, "nothing left when cleared")
    held = []
    for i in range(n):
        s.update(vs[i])
        now = s.get_values()
        want = min(i + 1, capacity)
        env.check(s.size() == want, "size")
        env.check(len(now) == want, "as many values")
        if len(now) != want:
            return
        if i < capacity:
            # still fits: everything is there
            for v in vs[:i + 1]:
                env.check(env.either(*[env.same(v, w) for w in now]),
                          "everything kept while it fits")
        else:
            changed = [env.negate(env.same(a, b)) for a, b in zip(held, now)]
            for a in range(len(now)):
                env.check(env.implies(changed[a], env.same(now[a], vs[i])),
                          "a slot only changes to the new value")
                for b in range(a):
                    env.check(env.negate(env.both(changed[a], changed[b])),
                              "at most one slot changes")
        held = list(now)


def share(env, capacity, n, free=True):
    """The n-th value over n consecutive draws."""
    from txstatsd.stats.uniformsample import UniformSample
    draws = Draws(env)
    vs = list(range(n))
    earlier = [env.choice("earlier draw", [0, 1]) if free else i % 2
               for i in range(n)]
    first = None
    kept = []
    # the draw every copy starts counting from
    start = env.int("draw", 0, None)
    for k in range(n):
        s = UniformSample(capacity)
        for i in range(capacity):
            s.update(vs[i])
        for i in range(capacity, n - 1):
            draws.given = [earlier[i]]
            s.update(vs[i])
        before = s.get_values()
        draws.given = [start + k]
        made = len(draws.made)
        s.update(vs[n - 1])
        if len(draws.made) != made + 1:
            env.gap("other than one draw per update")
        lo, hi, offset = draws.made[-1]
        env.assume(offset <= hi - lo)
        after = s.get_values()
        where = [i for i in range(capacity) if after[i] != before[i]]
        kept.append(where)
        draws.given = []
    env.check(sum([len(w) for w in kept]) == capacity,
              "kept for a capacity-in-n share of the draws")
    for slot in range(capacity):
        env.check(len([w for w in kept if w == [slot]]) == 1,
                  "every slot is as likely")


def large(env):
    """The reservoir in use."""
    from txstatsd.metrics.histogrammetric import HistogramMetricReporter
    Draws(env)
    h = HistogramMetricReporter.using_uniform_sample()
    vs = distinct_values(env, 2)
    for i in range(1026):
        h.update(1.5)
    h.update(vs[0])
    h.update(vs[1])
    now = h.get_values()
    env.check(len(now) == 1028, "all 1028 kept")
    for v in vs:
        env.check(env.either(*[env.same(v, w) for w in now]), "kept")
    h.update(2.5)
    env.check(len(h.get_values()) == 1028, "no more than 1028")


SCENARIOS = [(large, {}, "quick")]
for capacity in (0, 1, 2, 3):
    SCENARIOS.append((stream, {"capacity": capacity, "n": min(5, capacity + 3)},
                      "quick"))
    SCENARIOS.append((stream, {"capacity": capacity, "n": 7}, "thorough"))
for capacity, n in ((1, 2), (1, 3), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5)):
    SCENARIOS.append((share, {"capacity": capacity, "n": n}, "quick"))
for capacity, n in ((1, 12), (2, 9)):
    SCENARIOS.append((share, {"capacity": capacity, "n": n, "free": False},
                      "quick"))
for capacity, n in ((1, 7), (3, 7), (4, 6)):
    SCENARIOS.append((share, {"capacity": capacity, "n": n}, "thorough"))
