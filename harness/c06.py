from hlib import *

BOUNDS = ("histories of up to 4 (quick) or 6 (thorough) steps (events, flush, "
          "clock moving forward or back) over two names, fractional clocks "
          "between 1 and 2e9 seconds, values in +-1e6; "
          "2500 events of one meter, 1200 other meters and 150 idle flushes, once")
ASSUMES = ["flushes are dated with the whole second of the clock, as the "
           "server does"]


def history(env, mode, steps, names, signed, related=False):
    clock = Clock(env.real("now", 1000.0, 2000000000.0))
    p = make(env, mode, clock)
    keys = two_names(env, related)
    state = [None, None]
    options = ["a", "b"][:names] + ["flush"]
    for i in range(steps):
        step = env.choice("step", options)
        if step == "flush":
            move(env, clock)
            check(env, p, mode, clock, keys[:names], state, False)
            continue
        if env.flag("moved"):
            move(env, clock)
        k = 0 if step == "a" else 1
        text, value = env.number_text("value", -1000000.0 if signed else 0.0)
        p.process(keys[k] + ":" + text + "|m")
        if state[k] is None:
            # total, pending, time of the last report
            state[k] = [0, 0, clock.now]
        state[k][1] = state[k][1] + value
    clock.now = clock.now + 5.0
    # late enough for every meter to be due
    for k in range(names):
        if state[k] is not None:
            env.assume(clock.now >= state[k][2] + 1)
    check(env, p, mode, clock, keys[:names], state, True)


def move(env, clock):
    way = env.choice("clock", ["on", "back"])
    d = env.real("seconds", 0.0, 4000.0)
    if way == "back":
        clock.now = clock.now - d
        env.assume(clock.now >= 1)
    else:
        clock.now = clock.now + d


def check(env, p, mode, clock, keys, state, due):
    out = flush(p)
    now = int(clock.now)
    base = "stats.meter." if mode == COMPLIANT else ""
    for k in range(len(keys)):
        counts = named(out, base + keys[k] + ".count")
        rates = named(out, base + keys[k] + ".rate")
        if state[k] is None:
            env.check(len(counts) == 0, "no meter before its first event")
            continue
        env.check(len(counts) == len(rates), "count and rate together")
        env.check(len(counts) <= 1, "at most one report")
        if len(counts) != 1 or len(rates) != 1:
            # nothing said: allowed only when no time has passed
            env.check(now <= state[k][2], "a due meter is reported")
            continue
        total, pending, since = state[k]
        env.near(counts[0], total + pending, "count is cumulative")
        if now > since:
            env.near(rates[0], pending / (now - since), "rate per second")
        env.observe("count", counts[0])
        state[k] = [total + pending, 0, now]


def never_negative(env, mode, steps):
    """Non-negative events never yield a negative rate, however the clock
    moves, and every event ends up in the count."""
    clock = Clock(env.real("now", 1000.0, 2000000000.0))
    p = make(env, mode, clock)
    base = "stats.meter." if mode == COMPLIANT else ""
    total = 0
    last = clock.now
    for i in range(steps):
        text, value = env.number_text("value", 0.0)
        p.process("m:" + text + "|m")
        total = total + value
        clock.now = env.real("clock", 1.0, 2000000000.0)
        out = flush(p)
        for r in named(out, base + "m.rate"):
            env.le(0, r, "no negative rate")
        for c in named(out, base + "m.count"):
            env.near(c, total, "count is cumulative")
    clock.now = 2000000001.0
    v = one(env, flush(p), base + "m.count", "count")
    if v is not None:
        env.near(v, total, "no event is lost")


def crowd(env, mode, messages, others, idle):
    """Many events, many other meters, many idle flushes."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    base = "stats.meter." if mode == COMPLIANT else ""
    key = env.key("a", "a-f")
    text, value = env.number_text("value", 0.0)
    p.process(key + ":" + text + "|m")
    for i in range(messages):
        p.process(key + ":1|m")
    for i in range(others):
        p.process("other.%d:%d|m" % (i, i))
    clock.now = 1010.0
    out = flush(p)
    env.near(one(env, out, base + key + ".count", "count"),
             value + messages, "count of many events")
    env.near(one(env, out, base + key + ".rate", "rate"),
             (value + messages) / 10, "rate of many events")
    env.check(len(body(out)) == 2 * (others + 1), "all the meters")
    p = make(env, mode, clock)
    p.process(key + ":" + text + "|m")
    clock.now = 1020.0
    flush(p)
    for i in range(idle):
        clock.now = clock.now + 60.0
        out = flush(p)
        env.near(one(env, out, base + key + ".count", "count while idle"),
                 value, "count while idle")
        env.near(one(env, out, base + key + ".rate", "rate while idle"), 0,
                 "rate while idle")


SCENARIOS = [(crowd, {"mode": m, "messages": 2500, "others": 1200,
                      "idle": 150}, "quick")
             for m in (COMPLIANT, CONFIGURABLE)]
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((history, {"mode": m, "steps": 3, "names": 2,
                                "signed": True}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 2, "names": 2,
                                "signed": False, "related": True}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 4, "names": 1,
                                "signed": False}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 4, "names": 2,
                                "signed": True}, "thorough"))
    SCENARIOS.append((history, {"mode": m, "steps": 6, "names": 1,
                                "signed": True}, "thorough"))
    SCENARIOS.append((never_negative, {"mode": m, "steps": 2}, "quick"))
    SCENARIOS.append((never_negative, {"mode": m, "steps": 4}, "thorough"))
