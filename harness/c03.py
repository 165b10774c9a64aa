from hlib import *

BOUNDS = ("histories of up to 4 steps (message or flush) over two names with "
          "arbitrary real values in +-1e6 and sample rates in [0.001, 1000]; "
          "intervals of 1..3600 whole seconds; "
          "2500 messages to one counter and 1500 other counters, once; 150 idle flushes")
ASSUMES = ["flush intervals are whole milliseconds of at least one second"]


def totals(env, steps, names, related=False):
    clock = Clock(env.int("now", 1, 2000000000))
    p = make(env, COMPLIANT, clock)
    if names == 2:
        keys = two_names(env, related)
    else:
        keys = [env.key("a")]
    expected = [None] * names
    seconds = env.int("seconds", 1, 3600)
    millis = env.int("millis", 0, 999)
    for i in range(steps):
        step = env.choice("step", ["msg", "rated", "flush"])
        if step == "flush":
            check(env, p, keys, expected, seconds, millis)
            for k in range(names):
                if expected[k] is not None:
                    expected[k] = 0
            continue
        k = 0
        if names == 2:
            k = env.choice("which", [0, 1])
        text, value = env.number_text("value")
        line = keys[k] + ":" + text + "|c"
        if step == "rated":
            rtext, rate = env.number_text("rate", 0.001, 1000.0)
            line = line + "|@" + rtext
            value = value / rate
        p.process(line)
        if expected[k] is None:
            expected[k] = 0
        expected[k] = expected[k] + value
    check(env, p, keys, expected, seconds, millis)


def check(env, p, keys, expected, seconds, millis):
    out = flush(p, interval=seconds * 1000 + millis)
    for k in range(len(keys)):
        total = "stats_counts." + keys[k]
        rate = "stats." + keys[k]
        if expected[k] is None:
            absent(env, out, total, "no total before the first message")
            absent(env, out, rate, "no rate before the first message")
            continue
        v = one(env, out, total, "total")
        if v is not None:
            env.equal(v, expected[k], "total is the rate-corrected sum")
            env.observe("total", v)
        r = one(env, out, rate, "per-second value")
        if r is not None:
            env.equal(r, expected[k] / seconds, "per-second value")


def crowd(env, messages, others, idle):
    """Many messages, many other counters, many idle flushes."""
    clock = Clock(1000)
    p = make(env, COMPLIANT, clock)
    key = env.key("a", "a-f")
    text, value = env.number_text("value")
    p.process(key + ":" + text + "|c")
    for i in range(messages):
        p.process(key + ":1|c")
    for i in range(others):
        p.process("other.%d:%d|c" % (i, i))
    out = flush(p)
    v = one(env, out, "stats_counts." + key, "total")
    env.equal(v, value + messages, "the total of many messages")
    env.check(len(body(out)) == 2 * (others + 1), "all the counters")
    p = make(env, COMPLIANT, clock)
    p.process(key + ":" + text + "|c")
    flush(p)
    for i in range(idle):
        clock.now = clock.now + 60
        out = flush(p)
        v = one(env, out, "stats_counts." + key, "total while idle")
        env.equal(v, 0, "zero while idle")
        v = one(env, out, "stats." + key, "per-second value while idle")
        env.equal(v, 0, "zero per second while idle")


SCENARIOS = [
    (crowd, {"messages": 2500, "others": 1500, "idle": 150}, "quick"),
    (totals, {"steps": 2, "names": 1}, "quick"),
    (totals, {"steps": 3, "names": 2}, "quick"),
    (totals, {"steps": 2, "names": 2, "related": True}, "quick"),
    (totals, {"steps": 3, "names": 2, "related": True}, "thorough"),
    (totals, {"steps": 4, "names": 2}, "thorough"),
]
