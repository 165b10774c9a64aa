from hlib import *

BOUNDS = ("up to 3 (quick) or 4 (thorough) samples of any value, size or "
          "error over up to 3 flushes, with one to three conditions of any "
          "thresholds and slopes in +-1e6, sent to the metric or through a "
          "server in either mode; values and sizes of any 1 or 2 characters, "
          "and values that are the word error, or a part of it, with any "
          "character before and after; "
          "1500 samples in one interval and 60 idle flushes, once")
ASSUMES = ["values are finite"]


def condition(env, kind):
    """A condition with its numbers."""
    from txstatsd.metrics.slimetric import (AboveCondition, BelowCondition,
                                            BetweenCondition)
    a = env.real("a", -1000000.0, 1000000.0)
    if kind == "between":
        b = env.real("b", -1000000.0, 1000000.0)
        return BetweenCondition(a, b), (kind, a, b)
    cls = AboveCondition if kind == "above" else BelowCondition
    if env.flag("flat"):
        return cls(a), (kind, a, 0)
    b = env.real("b", -1000.0, 1000.0)
    return cls(a, b), (kind, a, b)


def satisfied(env, spec, value, size):
    kind, a, b = spec
    if kind == "above":
        return value > a + b * size
    if kind == "below":
        return value < a + b * size
    return env.both(a < value, value < b)


def check(env, out, name, specs, samples):
    """samples: (value or None, size) since the last flush."""
    count = one(env, out, name + ".count", "count")
    error = one(env, out, name + ".error", "errors")
    env.equal(count, len(samples), "samples")
    env.equal(error, len([s for s in samples if s[0] is None]), "errors")
    for label in sorted(specs):
        n = one(env, out, name + ".count_" + label, "condition")
        want = 0
        for value, size in samples:
            if value is None:
                continue
            want = want + env.ite(satisfied(env, specs[label], value, size),
                                  1, 0)
        env.equal(n, want, "samples satisfying " + specs[label][0])
    env.check(len(out) == 2 + len(specs), "nothing else reported")


def direct(env, kinds, steps):
    """The metric by itself."""
    from txstatsd.metrics.slimetric import SLIMetricReporter
    conditions = {}
    specs = {}
    for i in range(len(kinds)):
        label = "abc"[i]
        conditions[label], specs[label] = condition(env, kinds[i])
    m = SLIMetricReporter("name", conditions)
    samples = []
    for i in range(steps):
        step = env.choice("step", ["plain", "sized", "error", "flush"])
        if step == "flush":
            check(env, m.flush(10, 1234), "name", specs, samples)
            samples = []
            continue
        if step == "error":
            m.update("error")
            samples.append((None, 1))
            continue
        v = env.real("value", -1000000.0, 1000000.0)
        if step == "plain":
            m.update(v)
            samples.append((v, 1))
        else:
            size = env.real("size", -1000.0, 1000.0)
            m.update(v, size)
            samples.append((v, size))
    check(env, m.flush(10, 1234), "name", specs, samples)
    check(env, m.flush(10, 1234), "name", specs, [])


def crowd(env, mode, count, idle):
    """Many samples and many flushes."""
    clock = Clock(1000.0)
    p = make(env, mode, clock, prefix="pre",
             plugins=[sli_plugin("* => l IF above 5")])
    full = "pre.a" if mode == CONFIGURABLE else "stats.SLI.a"
    text, value = env.number_text("value", 5.5, 1000000.0)
    for i in range(count):
        p.process("a:3|sli")
        p.process("a:error|sli")
        p.process("a:" + text + "|sli")
    spec = ("above", 5, 0)
    samples = [(3, 1), (None, 1), (value, 1)]
    out = flush(p)
    env.check(one(env, out, full + ".count", "count") == 3 * count, "samples")
    env.check(one(env, out, full + ".error", "errors") == count, "errors")
    env.check(one(env, out, full + ".count_l", "condition") == count,
              "samples satisfying it")
    for i in range(idle):
        clock.now = clock.now + 60.0
        flushed(env, p, mode, full, spec, [])
    p.process("a:" + text + "|sli")
    flushed(env, p, mode, full, spec, samples[2:])


def number(env, name):
    """A number from a rules text."""
    text, v = env.number_text(name, -1000000.0, 1000000.0)
    return text, v


def server(env, mode, rule, steps):
    """Messages through a server."""
    a, x = number(env, "a")
    b, y = number(env, "b")
    rules = {"above": "* => l IF above " + a,
             "sloped": "* => l IF above " + a + " " + b,
             "below": "* => l IF below " + a + " " + b,
             "between": "* => l IF between " + a + " " + b}[rule]
    spec = {"above": ("above", x, 0), "sloped": ("above", x, y),
            "below": ("below", x, y), "between": ("between", x, y)}[rule]
    clock = Clock()
    p = make(env, mode, clock, prefix="pre", plugins=[sli_plugin(rules)])
    full = "pre." if mode == CONFIGURABLE else "stats.SLI."
    key = env.key("name", "a-z")
    samples = None
    for i in range(steps):
        step = env.choice("step", ["plain", "sized", "error", "sized error",
                                   "flush"])
        if step == "flush":
            flushed(env, p, mode, full + key, spec, samples)
            samples = None if samples is None else []
            continue
        samples = samples or []
        size = 1
        if step == "error":
            p.process(key + ":error|sli")
            samples.append((None, 1))
        elif step == "sized error":
            p.process(key + ":error|sli|5.5")
            samples.append((None, 1))
        else:
            text, v = number(env, "value")
            if step == "sized":
                stext, size = env.number_text("size", -1000.0, 1000.0)
                p.process(key + ":" + text + "|sli|" + stext)
            else:
                p.process(key + ":" + text + "|sli")
            samples.append((v, size))
    env.check(bad_lines(env) == 0, "nothing rejected")
    flushed(env, p, mode, full + key, spec, samples)


def flushed(env, p, mode, name, spec, samples):
    internal = "statsd." if mode == COMPLIANT else "pre.statsd."
    out = body(flush(p), internal)
    if samples is None:
        env.check(len(out) == 0, "nothing before the first sample")
        return
    check(env, out, name, {"l": spec}, samples)


def garbage(env, mode, where, known):
    """Values and sizes that are not numbers."""
    p = make(env, mode, Clock(), prefix="pre",
             plugins=[sli_plugin("* => l IF above 3 1")])
    if known:
        p.process("n:7|sli|2")
    text = env.text("text", 0, 2)
    if ":" in text or "|" in text:
        env.skip()
    if where == "size" and text.endswith(" "):
        env.skip()
    value, size = None, 1
    good = True
    try:
        v = env.number_of(text)
    except ValueError:
        good = False
    if where == "value":
        p.process("n:" + text + "|sli")
    elif where == "both":
        p.process("n:" + text + "|sli|2")
    elif where == "size":
        p.process("n:4|sli|" + text)
    else:
        p.process("n:error|sli|" + text)
        if good:
            v = None
    env.check(bad_lines(env) == (0 if good else 1), "rejected or not")
    internal = "statsd." if mode == COMPLIANT else "pre.statsd."
    name = ("pre." if mode == CONFIGURABLE else "stats.SLI.") + "n"
    out = body(flush(p), internal)
    samples = [(7, 2)] if known else []
    if good:
        if where == "value":
            samples.append((v, 1))
        elif where == "both":
            samples.append((v, 2))
        elif where == "size":
            samples.append((4, v))
        else:
            samples.append((None, 1))
    if not samples:
        env.check(len(out) == 0, "nothing of it is left")
    else:
        check(env, out, name, {"l": ("above", 3, 1)}, samples)


def nearly(env, mode, word):
    """Words that only look like the one for errors."""
    p = make(env, mode, Clock(), prefix="pre", plugins=[sli_plugin(
        "* => l IF above 3")])
    before = env.text("before", 0, 1)
    after = env.text("after", 0, 1)
    for c in ":| \t\n\v\f\r":
        if c in before or c in after:
            env.skip()
    text = before + word + after
    good = text == "error"
    p.process("n:" + text + "|sli")
    env.check(bad_lines(env) == (0 if good else 1), "rejected or not")
    internal = "statsd." if mode == COMPLIANT else "pre.statsd."
    name = ("pre." if mode == CONFIGURABLE else "stats.SLI.") + "n"
    out = body(flush(p), internal)
    if good:
        check(env, out, name, {"l": ("above", 3, 0)}, [(None, 1)])
    else:
        env.check(len(out) == 0, "nothing of it is left")


def apart(env):
    """Two metrics of the same factory."""
    p = make(env, COMPLIANT, Clock(),
             plugins=[sli_plugin("*a => l IF above 3\n*b => l IF below 3")])
    samples = {"a": [], "b": []}
    for i in range(2):
        text, v = number(env, "value")
        k = env.choice("which", ["a", "b"])
        p.process(k + ":" + text + "|sli")
        samples[k].append((v, 1))
    out = flush(p)
    for k, kind in (("a", "above"), ("b", "below")):
        if samples[k]:
            check(env, [d for d in out if d[0].startswith("stats.SLI." + k)],
                  "stats.SLI." + k, {"l": (kind, 3, 0)}, samples[k])


SCENARIOS = [(apart, {}, "quick")]
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((crowd, {"mode": m, "count": 500, "idle": 60}, "quick"))
for k in ("above", "below", "between"):
    SCENARIOS.append((direct, {"kinds": [k], "steps": 2}, "quick"))
    SCENARIOS.append((direct, {"kinds": [k], "steps": 4}, "thorough"))
SCENARIOS.append((direct, {"kinds": ["above", "below"], "steps": 2}, "quick"))
SCENARIOS.append((direct, {"kinds": ["above", "below", "between"],
                           "steps": 2}, "thorough"))
for m in (COMPLIANT, CONFIGURABLE):
    for r in ("above", "sloped", "below", "between"):
        SCENARIOS.append((server, {"mode": m, "rule": r, "steps": 2},
                          "quick"))
        SCENARIOS.append((server, {"mode": m, "rule": r, "steps": 3},
                          "thorough"))
    for w in ("value", "both", "size", "error size"):
        SCENARIOS.append((garbage, {"mode": m, "where": w,
                                    "known": w != "both"}, "quick"))
    SCENARIOS.append((garbage, {"mode": m, "where": "value", "known": False},
                      "quick"))
    for w in ("error", "err", "or", "ERROR"):
        SCENARIOS.append((nearly, {"mode": m, "word": w}, "quick"))
