from hlib import *

BOUNDS = ("up to 3 (quick) or 4 (thorough) steps, each gathering an "
          "arbitrary amount of one of several statistics, of destinations "
          "(any names of up to 3 bytes among letters, digits, dots, colons "
          "and underscores, and realistic ones) and others, or reporting; 90 destinations over 8 "
          "reports")
ASSUMES = ["no two statistics differ only in colons and underscores"]

OTHERS = ["metricsReceived", "destination", "committedPoints", "cpuUsage",
          "my.destinations.a:1", "Destinations.a:1"]
REALISTIC = ["destinations.10_0_0_1:2004:None.attemptedRelays",
             "destinations.10_0_0_1:2004:None.sent",
             "destinations.carbon:2014:b.fullQueueDrops",
             "destinations.::1:2004:a.relayMaxQueueLength"]


def gather(stats, name, amount):
    stats[name] = stats.get(name, 0) + amount


def underscored(name):
    out = ""
    for c in name:
        out = out + (c if c != ":" else "_")
    return out


def check(env, stats, expected):
    from txstatsd.service import report_client_manager_stats
    got = report_client_manager_stats()
    n = 0
    for name in expected:
        if not name.startswith("destinations"):
            continue
        n += 1
        safe = underscored(name)
        env.check(safe in got, "reported under its safe name")
        if safe in got:
            env.equal(got[safe], expected[name], "what was gathered")
    env.check(len(got) == n, "nothing else is reported")
    for name in expected:
        expected[name] = 0
        env.check(name in stats, "still known")
        if name in stats:
            env.equal(stats[name], 0, "reset")
    env.check(len(stats) == len(expected), "no statistic appears")
    # what is done with the report does not matter
    got.clear()


def history(env, steps, way):
    from carbon.instrumentation import stats
    stats.clear()
    expected = {}
    if way == "text":
        names = ["destinations." + env.text("name", 1, 3, "a.:_0"),
                 "destinations." + env.text("other", 1, 2, "a.:_0")]
        env.assume(underscored(names[0]) != underscored(names[1]))
    else:
        names = REALISTIC + OTHERS
    for i in range(steps):
        step = env.choice("step", ["gather", "report"])
        if step == "report":
            check(env, stats, expected)
            continue
        name = env.choice("which", names)
        amount = env.int("amount", 0, 10 ** 9)
        gather(stats, name, amount)
        gather(expected, name, amount)
    check(env, stats, expected)
    gather(stats, names[0], 1)
    gather(expected, names[0], 1)
    check(env, stats, expected)


def many(env):
    """Everything at once."""
    from carbon.instrumentation import stats
    stats.clear()
    expected = {}
    for turn in (0, 1):
        for name in REALISTIC + OTHERS:
            amount = env.int("amount", 0, 10 ** 9)
            gather(stats, name, amount)
            gather(expected, name, amount)
        check(env, stats, expected)


def crowd(env, number):
    """Many destinations, over many reports."""
    from carbon.instrumentation import stats
    stats.clear()
    expected = {}
    names = ["destinations.10_0_%d_%d:2004:%d.sent" % (i // 250, i % 250, i)
             for i in range(number)]
    for turn in range(3):
        for i in range(number):
            amount = i + turn
            if i % 50 == turn:
                amount = env.int("amount", 0, 10 ** 9)
            gather(stats, names[i], amount)
            gather(expected, names[i], amount)
        check(env, stats, expected)
    for turn in range(15):
        amount = env.int("amount", 0, 10 ** 9)
        gather(stats, names[turn], amount)
        gather(expected, names[turn], amount)
        if turn % 3 == 2:
            check(env, stats, expected)


def nothing(env):
    from carbon.instrumentation import stats
    stats.clear()
    check(env, stats, {})


SCENARIOS = [
    (nothing, {}, "quick"),
    (many, {}, "quick"),
    (crowd, {"number": 90}, "quick"),
    (history, {"steps": 3, "way": "realistic"}, "quick"),
    (history, {"steps": 2, "way": "text"}, "quick"),
    (history, {"steps": 4, "way": "text"}, "thorough"),
]
