from hlib import *

BOUNDS = ("arbitrary messages of up to 5 (quick) or 7 (thorough) arbitrary "
          "bytes; messages with arbitrary names and numbers and one field "
          "arbitrary (up to 4 bytes); with up to one earlier metric of every "
          "type in place")
ASSUMES = ["plugins other than the bundled service-level one are not loaded"]

TYPES = ["c", "ms", "g", "m", "sli"]
NOT_FIELD = ":|"
PRINTABLE = "!-9;-{}~"          # no white space, colon or bar


def pair(env, mode):
    """A server with one metric of each type, and a twin that never gets the
    message under test."""
    clock = Clock(1000.0)
    ps = [make(env, mode, clock, plugins=[sli_plugin()]) for i in (0, 1)]
    old = env.key("old")
    for p in ps:
        for t in TYPES:
            p.process(old + "." + t + ":" + SAMPLE[t] + "|" + t)
    clock.now = 1004.0
    return ps[0], ps[1], old, clock


def drain_both(env, p, q, clock, label):
    for i in (0, 1):
        clock.now = clock.now + 10.0
        same_reports(env, body(flush(p)), body(flush(q)),
                     "%s, flush %d" % (label, i + 1))


def is_number(env, text):
    try:
        env.number_of(text)
    except ValueError:
        return False
    return True


def malformed(env, mode, defect):
    p, q, old, clock = pair(env, mode)
    key = env.key("name")
    if env.flag("known name"):
        key = old + "." + env.choice("known", TYPES)
    number, value = env.number_text("value")
    if defect == "no colon":
        msg = key + "|" + env.choice("type", TYPES)
    elif defect == "no bar":
        msg = key + ":" + number
    elif defect == "no fields":
        msg = key
    elif defect == "fields":
        msg = key + ":" + number + "|" + env.choice("type", TYPES) + \
            "|" + env.choice("third", ["@1", "", "2"]) + "|" + \
            env.text("fourth", 0, 1, PRINTABLE)
    elif defect == "type":
        t = env.text("type", 0, 3, PRINTABLE)
        env.assume(t not in TYPES)
        msg = key + ":" + number + "|" + t
        if env.flag("third"):
            msg = msg + "|@1"
    elif defect == "value":
        t = env.choice("type", TYPES)
        text = env.text("text", 0, 3 if env.thorough else 2, PRINTABLE)
        if is_number(env, text):
            env.skip()
        msg = key + ":" + text + "|" + t
        if env.flag("third"):
            msg = msg + "|" + env.choice("rate", ["@0.5", "1"])
            if t == "c" and not msg.endswith("@0.5"):
                env.skip()
            if t == "sli" and not msg.endswith("|1"):
                env.skip()
    elif defect == "value words":
        t = env.choice("type", TYPES)
        msg = key + ":" + env.choice("text", [
            "1.2.3", "0x10", "1,5", "--1", "1e", "e5", "1 2", "abcdef", "1L",
            "nano", "infin"]) + "|" + t
    elif defect == "colon":
        t = env.choice("type", TYPES)
        second, _ = env.number_text("second")
        msg = key + ":" + number + ":" + second + "|" + t
    elif defect == "rate":
        text = env.text("rate", 0, 4 if env.thorough else 2, PRINTABLE)
        if text.startswith("@"):
            if is_number(env, text[1:]):
                env.skip()
        msg = key + ":" + number + "|c|" + text
    elif defect == "rate words":
        text = env.choice("rate", ["@0", "@0.0", "@00", "@.", "@1.2.3", "@",
                                   "@0.5x", "0.5", "@0.1@0.2", "@1e", "@e5",
                                   "@0e5"])
        msg = key + ":" + number + "|c|" + text
    elif defect == "size":
        text = env.text("size", 0, 3 if env.thorough else 2, PRINTABLE)
        if is_number(env, text):
            env.skip()
        msg = key + ":" + env.choice("sli", [number, "error"]) + "|sli|" + text
    if defect not in ("value", "size", "rate") or env.thorough:
        msg = env.choice("before", ["", " "]) + msg + \
            env.choice("after", ["", "\n"])
    bad = processed(env, p, msg)
    env.check(bad == 1, "a malformed message is reported once")
    drain_both(env, p, q, clock, "a malformed message has no effect")


def wellformed(env, mode, kind):
    """Exactly one sample, of the metric of that name and type."""
    p, q, old, clock = pair(env, mode)
    where = env.choice("where", ["new", "other type", "same"])
    if where == "new":
        key = env.key("name")
        for t in TYPES:
            env.assume(key != old + "." + t)
    elif where == "same":
        key = old + "." + kind
    else:
        if mode == CONFIGURABLE:
            # same-named metrics of two types share datapoint names
            env.skip()
        key = old + "." + env.choice("other", [t for t in TYPES if t != kind])
    number, value = env.number_text("value", 0.001, 100000.0)
    msg = key + ":" + number + "|" + kind
    if env.flag("third"):
        if kind == "c":
            msg = msg + "|@1"
        elif kind == "sli":
            msg = msg + "|2"
        else:
            msg = msg + "|" + env.text("third", 0, 2, PRINTABLE)
    bad = processed(env, p, msg)
    env.check(bad == 0, "a well-formed message is not reported")
    clock.now = clock.now + 10.0
    a, b = body(flush(p)), body(flush(q))
    own = own_names(env, mode, kind, key)
    # nothing else changes
    rest_a = [d for d in a if d[0] not in own]
    rest_b = [d for d in b if d[0] not in own]
    same_reports(env, rest_a, rest_b, "other metrics")
    before = []
    if where == "same":
        before = [float(SAMPLE[kind])]
    last = ""
    if mode == COMPLIANT:
        last = {"c": "stats_counts.", "ms": "stats.timers.",
                "g": "stats.gauge.", "m": "stats.meter.",
                "sli": "stats.SLI."}[kind]
    if kind == "c" and mode == COMPLIANT:
        v = one(env, a, last + key, "total")
        if v is not None:
            env.equal(v, sum(before) + value, "one sample counted")
    elif kind == "c":
        pass
    elif kind == "g":
        vs = named(a, last + key + ".value")
        env.check(len(vs) >= 1, "the gauge is reported")
        if vs:
            env.equal(vs[-1], value, "the gauge has the value")
    elif kind == "m":
        v = one(env, a, last + key + ".count", "count")
        if v is not None:
            near(env, v, sum(before) + value, "one sample counted")
    else:
        v = one(env, a, last + key + ".count", "count")
        if v is not None:
            env.equal(v, len(before) + 1, "one sample counted")
        if kind == "ms":
            v = one(env, a, last + key + ".mean", "mean")
            if v is not None:
                near(env, v, (sum(before) + value) / (len(before) + 1),
                     "the sample has the value")


def own_names(env, mode, kind, key):
    if mode == COMPLIANT:
        if kind == "c":
            return ["stats." + key, "stats_counts." + key]
        base = {"ms": "stats.timers.", "g": "stats.gauge.",
                "m": "stats.meter.", "sli": "stats.SLI."}[kind] + key
    else:
        base = key
    items = {"c": ["count"], "g": ["value"], "m": ["count", "rate"],
             "sli": ["count", "error"],
             "ms": ["count", "lower", "mean", "upper", "upper_90", "min",
                    "max", "stddev", "99percentile", "999percentile",
                    "rate"]}[kind]
    return [base + "." + i for i in items]


def arbitrary(env, mode, size):
    """Any short text at all."""
    clock = Clock(1000.0)
    p = make(env, mode, clock, plugins=[sli_plugin()])
    text = env.text("message", size, size)
    bad = processed(env, p, text)
    clock.now = 1010.0
    out = body(flush(p))
    kind = reference(env, mode, text)
    if kind is None:
        env.check(bad == 1, "a malformed message is reported once")
        env.check(len(out) == 0, "a malformed message records nothing")
        return
    if kind == "either":
        env.check(bad in (0, 1), "reported at most once")
        env.check((bad == 1) == (len(out) == 0), "recorded or reported")
        return
    env.check(bad == 0, "a well-formed message is not reported")
    n = {"c": 2, "g": 1, "m": 2, "ms": 5, "sli": 2}[kind]
    if mode == CONFIGURABLE:
        n = {"c": 1, "g": 1, "m": 2, "ms": 8, "sli": 2}[kind]
    env.check(len(out) == n, "a well-formed message records one metric")


def reference(env, mode, text):
    """The type a message adds a sample to; None when malformed."""
    if ":" not in text:
        return None
    data = text.strip().split(":", 1)[1]
    fields = data.split("|")
    if len(fields) < 2 or len(fields) > 3:
        return None
    kind = None
    for t in TYPES:
        if fields[1] == t:
            kind = t
    if kind is None:
        return None
    if kind == "sli":
        if fields[0] != "error" and not is_number(env, fields[0]):
            return None
    elif not is_number(env, fields[0]):
        return None
    if len(fields) == 3:
        if kind == "sli" and not is_number(env, fields[2]):
            return None
        if kind == "c" and mode == COMPLIANT:
            if not fields[2].startswith("@"):
                return None
            if not is_number(env, fields[2][1:]):
                return None
            if env.number_of(fields[2][1:]) == 0:
                return None
            if not fields[2][1:].isdigit():
                return "either"
    return kind


DEFECTS = ["no colon", "no bar", "no fields", "fields", "type", "value",
           "value words", "colon", "size"]
SCENARIOS = []
for m in (COMPLIANT, CONFIGURABLE):
    for d in DEFECTS:
        SCENARIOS.append((malformed, {"mode": m, "defect": d}, "quick"))
    if m == COMPLIANT:
        for d in ("rate", "rate words"):
            SCENARIOS.append((malformed, {"mode": m, "defect": d}, "quick"))
    for k in TYPES:
        SCENARIOS.append((wellformed, {"mode": m, "kind": k}, "quick"))
    for n in range(6):
        SCENARIOS.append((arbitrary, {"mode": m, "size": n}, "quick"))
    for n in (6, 7):
        SCENARIOS.append((arbitrary, {"mode": m, "size": n}, "thorough"))
