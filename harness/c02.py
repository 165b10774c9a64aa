from hlib import *

BOUNDS = ("names of up to 4 (quick) or 5 (thorough) arbitrary bytes without "
          "colon, surrounded by up to two bytes of white space, followed by "
          "arbitrary values and third fields of up to 2 bytes")
ASSUMES = []

WHITE = "\t\n\x0b\x0c\r "
GOOD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
NOT_COLON = "\x00-9;-\xff"
NO_BAR = "!-9;-{}~"


def reference(text):
    """The name a sample is reported under."""
    out = ""
    last = None
    for c in text:
        if c in WHITE:
            if last != "white":
                out = out + "_"
            last = "white"
        elif c == "/":
            if last != "slash":
                out = out + "-"
            last = "slash"
        else:
            last = None
            if c in GOOD:
                out = out + c
    return out


def trimmed(text):
    while len(text) > 0 and text[0] in WHITE:
        text = text[1:]
    return text


def reported(env, mode, routed, size, third):
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    target = p
    if routed:
        from txstatsd.server.router import Router
        target = Router(p, "")
    name = env.text("name", size, size, NOT_COLON)
    lead = env.choice("lead", ["", " ", "\t\n"])
    number, value = env.number_text("value", whole=True)
    kind = env.choice("kind", ["g", "ms"])
    msg = lead + name + ":" + number + "|" + kind
    if third:
        msg = msg + "|" + env.text("third", 0, 2, NO_BAR)
    msg = msg + env.choice("trail", ["", " \n"])
    target.process(msg)
    clock.now = 1001.0
    out = body(flush(p))
    expected = reference(trimmed(name))
    prefix = ""
    if mode == COMPLIANT:
        prefix = {"g": "stats.gauge.", "ms": "stats.timers."}[kind]
    names = [n for n, v, t in out]
    env.check(len(names) > 0, "the sample is recorded")
    if kind == "g":
        env.check(len(names) == 1, "one datapoint")
        if len(names) == 1:
            env.equal(names[0], prefix + expected + ".value", "the name")
    else:
        for n in names:
            env.check(n.startswith(prefix + expected + "."), "the name")
    env.check(bad_lines(env) == 0, "not reported as malformed")


def known(env, mode, size):
    """The name listed is the normalised one, and normalising is stable."""
    p = make(env, mode, Clock(1000.0))
    name = env.text("name", size, size, NOT_COLON)
    p.process(name + ":1|c")
    once = p.get_metric_names()
    env.check(len(once) == 1, "one name")
    if len(once) != 1:
        return
    env.equal(once[0], reference(trimmed(name)), "the name listed")
    p.process(once[0] + ":2|c")
    twice = p.get_metric_names()
    env.check(len(twice) == 1, "normalising again changes nothing")


def long_runs(env, mode):
    """Runs of separators between name parts of any length."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    a, b = env.key("a"), env.key("b")
    sep = env.choice("sep", ["  ", " \t \n ", "//", "///", " / ", "/ /", "*",
                             "|", "*/*", "@#", "\xe9", " * ", "\x1c", "\x85",
                             "\xa0", "/*/", " * ", "__", "--", ".."])
    p.process(a + sep + b + ":1|g")
    out = body(flush(p))
    env.check(len(out) == 1, "recorded once")
    prefix = "stats.gauge." if mode == COMPLIANT else ""
    if len(out) == 1:
        env.equal(out[0][0], prefix + a + reference(sep) + b + ".value",
                  "the name")


def two_names(env, mode):
    """Messages whose names normalise to one are samples of one metric."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    a, b = env.key("a"), env.key("b")
    p.process(a + " " + b + ":1|c")
    p.process(" " + a + "\t " + b + ":2|c\n")
    p.process(a + "_" + b + "*:4|c")
    clock.now = 1010.0
    out = body(flush(p))
    if mode == COMPLIANT:
        v = one(env, out, "stats_counts." + a + "_" + b, "total")
        if v is not None:
            env.equal(v, 7, "samples of one metric")
    else:
        v = one(env, out, a + "_" + b + ".count", "value")
        if v is not None:
            env.equal(v, 4, "samples of one metric")


SCENARIOS = []
for m in (COMPLIANT, CONFIGURABLE):
    for r in (False, True):
        for n in range(0, 5):
            SCENARIOS.append((reported, {"mode": m, "routed": r, "size": n,
                                         "third": n < 2},
                              "quick" if n < 4 and (n < 3 or not r)
                              else "thorough"))
    for n in range(0, 6):
        SCENARIOS.append((known, {"mode": m, "size": n},
                          "quick" if n < 5 else "thorough"))
    SCENARIOS.append((long_runs, {"mode": m}, "quick"))
    SCENARIOS.append((two_names, {"mode": m}, "quick"))
