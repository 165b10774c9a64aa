from hlib import *

BOUNDS = ("histories of up to 4 (quick) or 6 (thorough) steps (message or "
          "flush) over two names, any values in +-1e6, sample rates in "
          "[0.001, 1000], prefixes that are any texts of up to 3 bytes or "
          "arbitrary words, not ending with a dot; "
          "1500 other counters and 150 idle flushes, once")


def counters(env, steps, names, related=False):
    clock = Clock(1000.0)
    p = make(env, CONFIGURABLE, clock)
    keys = two_names(env, related)
    last = [None, None]
    options = ["a", "b"][:names] + ["flush"]
    for i in range(steps):
        step = env.choice("step", options)
        if step == "flush":
            check(env, p, clock, keys, last)
            continue
        k = 0 if step == "a" else 1
        if env.flag("whole"):
            text, value = env.number_text("count", -1000000.0, 1000000.0,
                                          whole=True)
        else:
            text, value = env.number_text("value")
        third = ""
        if env.flag("rate"):
            rtext, rate = env.number_text("rate value", 0.001, 1000.0)
            third = "|@" + rtext
        p.process(keys[k] + ":" + text + "|c" + third)
        last[k] = value
    check(env, p, clock, keys, last)
    check(env, p, clock, keys, last)


def check(env, p, clock, keys, last):
    clock.now = clock.now + 10.0
    out = flush(p)
    for k in (0, 1):
        name = keys[k] + ".count"
        if last[k] is None:
            absent(env, out, name, "no counter before its first message")
            continue
        v = one(env, out, name, "counter")
        if v is None:
            continue
        env.observe("count", v)
        # truncated toward zero
        env.equal(v, int(v), "a whole number")
        x = last[k]
        if x >= 0:
            env.check(env.both(v >= 0, v <= x, v > x - 1),
                      "the last value truncated toward zero")
        else:
            env.check(env.both(v <= 0, v >= x, v < x + 1),
                      "the last value truncated toward zero")


def prefix(env, name, way):
    if way == "word":
        return env.key(name, "A-Za-z0-9_.-")
    if way == "text":
        return env.text(name, 1, 3)
    return ""


def naming(env, message, internal):
    """Every datapoint lies under the right prefix."""
    clock = Clock(1000.0)
    mp = prefix(env, "prefix", message)
    ip = prefix(env, "internal", internal)
    if internal == "word" and env.flag("dotted"):
        ip = ip + "."
    p = make(env, CONFIGURABLE, clock, mp, ip, plugins=[sli_plugin()])
    kinds = {"c": [".count"], "g": [".value"], "m": [".count", ".rate"],
             "ms": [".99percentile", ".999percentile", ".count", ".max",
                    ".mean", ".min", ".rate", ".stddev"],
             "sli": [".count", ".error"]}
    base = mp + "." if mp else ""
    env.assume(not mp.endswith("."))
    kind = env.choice("kind", ["c", "g", "m", "ms", "sli"])
    key = env.key("name")
    p.process(key + ":" + SAMPLE[kind] + "|" + kind)
    clock.now = 1010.0
    out = flush(p)
    own = ip
    if not own:
        own = mp + ".statsd." if mp else "statsd."
    mine = ["numStats"]
    for k in ("counter", "timer", "gauge", "meter", "plugin"):
        mine.append("flush.%s.count" % k)
        mine.append("flush.%s.duration" % k)
    mine.append("receive.%s.count" % kind)
    mine.append("receive.%s.duration" % kind)
    for s in kinds[kind]:
        env.check(len(named(out, base + key + s)) >= 1,
                  "metric under the message prefix")
    for s in mine:
        env.check(len(named(out, own + s)) >= 1,
                  "self-metric under the internal prefix")
    env.check(len(out) == len(kinds[kind]) + len(mine),
              "nothing under any other name")
    env.observe("names", sorted([n for n, v, t in out])[0])


def crowd(env, others, idle):
    """Many other counters and many idle flushes."""
    clock = Clock(1000.0)
    p = make(env, CONFIGURABLE, clock)
    key = env.key("a", "a-f")
    text, value = env.number_text("count", 0, 1000000, whole=True)
    p.process(key + ":" + text + "|c")
    for i in range(others):
        p.process("other.%d:%d|c" % (i, i))
    out = flush(p)
    env.equal(one(env, out, key + ".count", "counter"), value,
              "the counter among many")
    env.check(len(body(out)) == others + 1, "all the counters")
    p = make(env, CONFIGURABLE, clock)
    p.process(key + ":" + text + "|c")
    for i in range(idle):
        clock.now = clock.now + 60.0
        env.equal(one(env, flush(p), key + ".count", "counter while idle"),
                  value, "the counter while idle")


SCENARIOS = [
    (crowd, {"others": 1500, "idle": 150}, "quick"),
    (counters, {"steps": 2, "names": 2}, "quick"),
    (counters, {"steps": 3, "names": 1}, "quick"),
    (counters, {"steps": 2, "names": 2, "related": True}, "quick"),
    (counters, {"steps": 4, "names": 2}, "thorough"),
    (counters, {"steps": 6, "names": 1}, "thorough"),
]
for a in ("", "word", "text"):
    for b in ("", "word", "text"):
        SCENARIOS.append((naming, {"message": a, "internal": b}, "quick"))
