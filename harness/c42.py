from hlib import *

BOUNDS = ("up to 3 (quick) or 4 (thorough) messages of any types, values and "
          "rates over two names, in every order, after an earlier interval "
          "with or without messages; both modes")
ASSUMES = ["messages of one interval arrive within one reading of the clock",
           "fewer samples than a reservoir holds"]

# (type, name) of each message; one name may have several types
LISTS = [["c", "c"], ["ms", "ms"], ["m", "m"], ["sli", "sli"], ["g", "c"],
         ["ms", "c", "ms"], ["m", "g", "m"], ["c", "ms", "c"],
         ["sli", "ms", "sli"], ["pd", "c", "pd"], ["ms", "ms", "ms"],
         ["c", "c", "c"]]
DEEP = [["ms", "c", "ms", "c"], ["m", "sli", "m", "sli"],
        ["ms", "ms", "ms", "g"], ["c", "m", "g", "ms"]]


def orders(n):
    """Every order of n things."""
    if n == 0:
        return [[]]
    out = []
    for rest in orders(n - 1):
        for i in range(n):
            out.append(rest[:i] + [n - 1] + rest[i:])
    return out


def draws(env):
    """Different draws, the same for each server."""
    state = [0]

    def draw():
        state[0] = (state[0] * 7 + 3) % 97
        return (state[0] + 1) / 100.0
    env.set_random(draw)


def reordered(env, mode, kinds, before):
    from twisted.plugins.distinct_plugin import DistinctMetricFactory
    env.set_randint(lambda a, b: 7)
    clock = Clock(1000.0)
    env.set_time(clock)
    servers = []
    for i in range(2):
        servers.append(make(env, mode, clock,
                            "pre" if mode == CONFIGURABLE else "", "statsd.",
                            [sli_plugin(), DistinctMetricFactory()]))
    if before:
        for p in servers:
            draws(env)
            for k in kinds:
                p.process("load:3|" + k)
                if before == "names":
                    p.process("load.one:4|" + k)
            flush(p)
    clock.now = clock.now + 10.0
    messages = []
    for i in range(len(kinds)):
        name = env.choice("name", ["load", "load.one"])
        if kinds[i] == "pd":
            text = env.choice("item", ["red", "blue"])
        else:
            text, value = env.number_text("value", -1000000.0, 1000000.0)
        message = name + ":" + text + "|" + kinds[i]
        if kinds[i] == "c" and i == 0 and env.flag("rate"):
            message = message + "|@" + env.choice("sampled", ["0.5", "0.1"])
        messages.append((name, kinds[i], message))
    order = env.choice("order", orders(len(kinds))[1:])
    # the last of the values that are kept as they come stays the last
    last = "g" if mode == COMPLIANT else "gc"
    for i in range(len(order)):
        for j in range(i):
            a, b = messages[order[j]], messages[order[i]]
            if a[:2] == b[:2] and a[1] in last and order[j] > order[i]:
                env.skip()
    draws(env)
    for name, kind, message in messages:
        servers[0].process(message)
    draws(env)
    for i in order:
        servers[1].process(messages[i][2])
    clock.now = clock.now + 10.0
    for i in range(2):
        alike(env, flush(servers[1]), flush(servers[0]), "flush %d" % i)
        clock.now = clock.now + 10.0


SCENARIOS = []
for mode in (COMPLIANT, CONFIGURABLE):
    for kinds in LISTS:
        for before in ("", "names"):
            if before and len(kinds) == 3 and kinds[0] == kinds[1]:
                continue
            SCENARIOS.append((reordered, {
                "mode": mode, "kinds": kinds, "before": before}, "quick"))
    for kinds in DEEP:
        SCENARIOS.append((reordered, {
            "mode": mode, "kinds": kinds, "before": "one"}, "thorough"))
