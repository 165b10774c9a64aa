from hlib import *

BOUNDS = ("histories of up to 4 (quick) or 6 (thorough) steps (value or "
          "flush) over two names, with any values in +-1e6, third fields and "
          "words for infinity and nan; "
          "2500 other gauges and 150 idle flushes, once")
ASSUMES = []


def history(env, mode, steps, names, words, related=False):
    clock = Clock(env.real("now", 0.0, 2000000000.0))
    prefix = ""
    if mode == CONFIGURABLE:
        prefix = env.choice("prefix", ["", "pre"])
    p = make(env, mode, clock, prefix=prefix)
    keys = two_names(env, related)
    last = [None, None]
    options = ["a", "b"][:names] + ["flush"]
    for i in range(steps):
        step = env.choice("step", options)
        if step == "flush":
            check(env, p, mode, prefix, keys[:names], last)
            clock.now = clock.now + env.real("dt", 0.0, 100.0)
            continue
        k = 0 if step == "a" else 1
        if words and (i == 1 or env.thorough) and env.flag("word"):
            text = env.choice("word", ["inf", "-inf", "-0.0", "1e5", "+7",
                                       "Infinity", "nan"])
            value = float(text)
        else:
            text, value = env.number_text("value")
        p.process(keys[k] + ":" + text + "|g" +
                  (env.choice("third", ["", "|@0.1"]) if words and i == 0
                   else ""))
        last[k] = value
    check(env, p, mode, prefix, keys[:names], last)
    check(env, p, mode, prefix, keys[:names], last)


def check(env, p, mode, prefix, keys, last):
    out = flush(p)
    if mode == COMPLIANT:
        base = "stats.gauge."
    else:
        base = prefix + "." if prefix else ""
    for k in range(len(keys)):
        vs = named(out, base + keys[k] + ".value")
        if last[k] is None:
            env.check(len(vs) == 0, "no gauge before its first value")
            continue
        env.check(len(vs) == 1, "the gauge is reported once in every flush")
        if len(vs):
            env.equal(vs[-1], last[k], "the last value")
            env.observe("value", vs[-1])


def crowd(env, mode, others, idle):
    """Nor do many other gauges, or many flushes, displace a gauge."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    base = "stats.gauge." if mode == COMPLIANT else ""
    key = env.key("a", "a-f")
    text, value = env.number_text("value")
    p.process(key + ":" + text + "|g")
    for i in range(others):
        p.process("other.%d:%d|g" % (i, i))
    out = flush(p)
    v = one(env, out, base + key + ".value", "the gauge among many")
    env.equal(v, value, "the last value among many")
    env.check(len(body(out)) == others + 1, "all the gauges")
    p = make(env, mode, clock)
    p.process(key + ":" + text + "|g")
    for i in range(idle):
        clock.now = clock.now + 60
        v = one(env, flush(p), base + key + ".value", "the gauge while idle")
        env.equal(v, value, "the last value while idle")


SCENARIOS = [(crowd, {"mode": m, "others": 2500, "idle": 150}, "quick")
             for m in (COMPLIANT, CONFIGURABLE)]
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((history, {"mode": m, "steps": 3, "names": 2,
                                "words": True}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 4, "names": 2,
                                "words": False}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 3, "names": 2,
                                "words": False, "related": True}, "quick"))
    SCENARIOS.append((history, {"mode": m, "steps": 5, "names": 2,
                                "words": True}, "thorough"))
    SCENARIOS.append((history, {"mode": m, "steps": 6, "names": 2,
                                "words": False}, "thorough"))
