from hlib import *

BOUNDS = ("up to 3 (quick) or 5 (thorough) ticks with up to 2 updates of any "
          "amounts in +-1e6 before each, any smoothing constant in (0,1] and "
          "any interval from 1 ms to a day, and the three standard averages, these also over 60 ticks "
          "with up to 40 updates each")
ASSUMES = ["amounts are finite; floats are reals"]


def check_tick(env, e, alpha, interval, count, old, label):
    """One tick: count events since the last one, old is the rate before
    (None at the first tick)."""
    e.tick()
    instant = count / (interval * 1.0)
    if old is None:
        env.close(e.rate, instant, label + ": first rate")
        return e.rate
    env.close(e.rate, old + alpha * (instant - old), label + ": recurrence")
    low = env.ite(instant < old, instant, old)
    high = env.ite(instant < old, old, instant)
    env.check(low - 0.000001 <= e.rate, label + ": between old and new")
    env.check(e.rate <= high + 0.000001, label + ": between old and new")
    return e.rate


def recurrence(env, ticks, updates, symbolic):
    from txstatsd.stats.ewma import Ewma
    if symbolic:
        alpha = env.real("alpha", 0.0, 1.0)
        env.assume(alpha > 0)
        interval = env.real("interval", 0.001, 86400.0)
    else:
        alpha, interval = 0.25, 5
    e = Ewma(alpha, interval)
    env.equal(e.rate, 0.0, "nothing before the first tick")
    old = None
    for i in range(ticks):
        count = 0
        for k in range(env.choice("updates", list(range(updates + 1)))):
            n = env.real("n", -1000000.0, 1000000.0)
            if env.flag("whole"):
                n = env.int("n", -1000000, 1000000)
            before = e.rate
            e.update(n)
            env.equal(e.rate, before, "updates only count at the tick")
            count = count + n
        old = check_tick(env, e, alpha, interval, count, old, "tick")


def standard(env, which, ticks):
    """The averages of one, five and fifteen minutes."""
    import math
    from txstatsd.stats.ewma import Ewma
    make, minutes = {"one": (Ewma.one_minute_ewma, 1),
                     "five": (Ewma.five_minute_ewma, 5),
                     "fifteen": (Ewma.fifteen_minute_ewma, 15)}[which]
    e = make()
    alpha = 1 - math.exp(-5.0 / (60.0 * minutes))
    old = None
    for i in range(ticks):
        n = env.real("n", -1000000.0, 1000000.0)
        e.update(n)
        old = check_tick(env, e, alpha, 5.0, n, old, which)
    # idle: towards zero, without changing sign
    for i in range(2):
        e.tick()
        env.check(env.implies(old >= 0, env.both(e.rate >= 0,
                                                 e.rate <= old)),
                  "decays from above")
        env.check(env.implies(old <= 0, env.both(e.rate <= 0,
                                                 e.rate >= old)),
                  "decays from below")
        old = e.rate


def long_run(env, which, ticks):
    """Many ticks, most of them with little or nothing."""
    import math
    from txstatsd.stats.ewma import Ewma
    make, minutes = {"one": (Ewma.one_minute_ewma, 1),
                     "five": (Ewma.five_minute_ewma, 5),
                     "fifteen": (Ewma.fifteen_minute_ewma, 15)}[which]
    e = make()
    alpha = 1 - math.exp(-5.0 / (60.0 * minutes))
    old = None
    for i in range(ticks):
        n = 0
        if i % 7 == 0:
            n = env.real("n", -1000000.0, 1000000.0)
            e.update(n)
        elif i % 7 == 3:
            for k in range(40):
                e.update(i + k)
                n = n + i + k
        e.tick()
        instant = n / 5.0
        if old is None:
            env.close(e.rate, instant, "first rate")
        else:
            env.close(e.rate, old + alpha * (instant - old),
                      "recurrence over time")
        old = e.rate


def apart(env):
    """Averages do not share anything."""
    from txstatsd.stats.ewma import Ewma
    a = Ewma.one_minute_ewma()
    b = Ewma.one_minute_ewma()
    n = env.real("n", -1000000.0, 1000000.0)
    a.update(n)
    b.tick()
    env.equal(b.rate, 0.0, "counted in its own average only")
    a.tick()
    env.close(a.rate, n / 5.0, "counted once")


SCENARIOS = [
    (apart, {}, "quick"),
    (recurrence, {"ticks": 3, "updates": 1, "symbolic": False}, "quick"),
    (recurrence, {"ticks": 2, "updates": 2, "symbolic": False}, "quick"),
    (recurrence, {"ticks": 2, "updates": 1, "symbolic": True}, "quick"),
    (recurrence, {"ticks": 3, "updates": 1, "symbolic": True}, "thorough"),
    (recurrence, {"ticks": 5, "updates": 1, "symbolic": False}, "thorough"),
]
for w in ("one", "five", "fifteen"):
    SCENARIOS.append((standard, {"which": w, "ticks": 3}, "quick"))
    SCENARIOS.append((standard, {"which": w, "ticks": 8}, "thorough"))
    SCENARIOS.append((long_run, {"which": w, "ticks": 60}, "quick"))
