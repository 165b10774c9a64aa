from hlib import *

BOUNDS = ("every client call with any name and namespace, whole values in "
          "+-1e9 and real ones in +-1e6, any sample rate from 1e-9 to 1000 "
          "and any draw; up to 2 calls (3 for extended counters) before a "
          "flush")
ASSUMES = ["a name is used for one kind of metric and with one sample rate, "
           "as metrics are created once per name"]


def client(env, kind, p, namespace):
    from txstatsd.client import InternalClient
    connection = InternalClient(p)
    if kind == "extended":
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        return ExtendedMetrics(connection, namespace)
    from txstatsd.metrics.metrics import Metrics
    return Metrics(connection, namespace)


def names(env):
    """(namespace, name, recorded name)"""
    way = env.choice("way", ["plain", "spaced", "slashed", "odd", "bare"])
    ns, name = env.key("namespace"), env.key("name")
    if way == "bare":
        return "", name, name
    if way == "spaced":
        return ns, name + " x", ns + "." + name + "_x"
    if way == "slashed":
        return ns, name + "//x", ns + "." + name + "-x"
    if way == "odd":
        return ns, name + "(%)", ns + "." + name
    return ns, name, ns + "." + name


def quantity(env, name):
    if env.flag("whole " + name):
        return env.int(name, -1000000000, 1000000000)
    return env.real(name, -1000000.0, 1000000.0)


def same(env, a, b, label):
    """Equal to the printed precision and to six decimals."""
    size = env.ite(b >= 0, b, -b)
    t = 0.000001 + size * 0.000000001
    env.check(env.both(a - b <= t, b - a <= t), label, (a, b, None))


def reported(env, mode, client_kind, op, sampled):
    clock = Clock(1000.0)
    p = make(env, mode, clock, plugins=[sli_plugin()])
    ns, name, full = names(env)
    m = client(env, client_kind, p, ns)
    rate = 1
    if sampled:
        rate = env.real("rate", 0.000000001, 1000.0)
    env.set_random(lambda: env.real("draw", 0.0, 0.9999999999))
    value = quantity(env, "value")
    sent = True
    if sampled:
        draw = env.real("draw is", 0.0, 0.9999999999)
        env.set_random(lambda: draw)
        sent = not (rate < 1 and draw > rate)
        getattr(m, op)(name, value, rate)
    else:
        getattr(m, op)(name, value)
    clock.now = 1010.0
    out = flush(p)
    env.check(bad_lines(env) == 0, "the server understands the client")
    if not sent:
        env.check(len(body(out)) == 0, "not sampled, not recorded")
        return
    recorded(env, mode, op, full, value, rate, out)


def recorded(env, mode, op, full, value, rate, out):
    compliant = mode == COMPLIANT
    if op == "gauge":
        name = "stats.gauge." + full if compliant else full
        v = one(env, out, name + ".value", "gauge")
        if v is not None:
            same(env, v, value, "gauge as given")
    elif op == "meter":
        name = "stats.meter." + full if compliant else full
        v = one(env, out, name + ".count", "meter")
        if v is not None:
            same(env, v, value, "meter as given")
    elif op in ("increment", "decrement"):
        want = value if op == "increment" else -value
        if compliant:
            v = one(env, out, "stats_counts." + full, "counter")
            if rate < 1:
                if v is not None:
                    # |v * rate - want| small next to want
                    env.close(v * rate, want * 1.0, "counter scaled")
            elif v is not None:
                same(env, v, want, "counter as given")
        else:
            v = one(env, out, full + ".count", "counter")
            if v is not None:
                size = env.ite(want >= 0, want, -want)
                t = 1.000001 + size * 0.000000001
                env.check(env.both(v - want < t, want - v < t),
                          "counter as given")
    elif op == "timing":
        name = "stats.timers." + full if compliant else full
        ms = value * 1000
        if compliant:
            for s in (".lower", ".upper", ".mean"):
                v = one(env, out, name + s, "timer")
                if v is not None:
                    same(env, v, ms, "milliseconds")
        elif value >= 0:
            for s in (".min", ".max", ".mean"):
                v = one(env, out, name + s, "timer")
                if v is not None:
                    same(env, v, ms, "milliseconds")
    elif op in ("sli", "sli_error"):
        name = "stats.SLI." + full if compliant else full
        v = one(env, out, name + ".count", "service level")
        e = one(env, out, name + ".error", "service level errors")
        if v is not None and e is not None:
            env.equal(v, 1, "one sample")
            env.equal(e, 1 if op == "sli_error" else 0, "errors")


def service_level(env, mode):
    clock = Clock(1000.0)
    rules = "*x* => slow IF above 10 2"
    p = make(env, mode, clock, plugins=[sli_plugin(rules)])
    m = client(env, "plain", p, "n")
    value = env.real("value", -1000.0, 1000.0)
    size = 1
    if env.flag("sized"):
        size = env.real("size", 0.0, 1000.0)
        m.sli("x", value, size)
    else:
        m.sli("x", value)
    m.sli_error("y")
    env.assume(env.either(value - 10 - 2 * size > 0.001,
                          value - 10 - 2 * size < -0.001))
    clock.now = 1010.0
    out = flush(p)
    env.check(bad_lines(env) == 0, "the server understands the client")
    name = "stats.SLI.n." if mode == COMPLIANT else "n."
    v = one(env, out, name + "x.count_slow", "condition")
    if v is not None:
        if value > 10 + 2 * size:
            env.equal(v, 1, "slow")
        else:
            env.equal(v, 0, "not slow")
    recorded(env, mode, "sli_error", "n.y", None, 1, out)


def totals(env, mode, steps):
    """The running total of an extended counter."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    m = client(env, "extended", p, "")
    total = 0
    for i in range(steps):
        value = env.int("value", -1000000, 1000000)
        if env.flag("down"):
            m.decrement("c", value)
            total = total - value
        else:
            m.increment("c", value)
            total = total + value
        if env.flag("flush"):
            clock.now = clock.now + 10.0
            v = one(env, flush(p), "c.count", "counter")
            if v is not None:
                env.equal(v, total, "running total")
    clock.now = clock.now + 10.0
    v = one(env, flush(p), "c.count", "counter")
    if v is not None:
        env.equal(v, total, "running total")
    env.check(bad_lines(env) == 0, "the server understands the client")


SCENARIOS = [(totals, {"mode": CONFIGURABLE, "steps": 2}, "quick"),
             (totals, {"mode": CONFIGURABLE, "steps": 4}, "thorough")]
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((service_level, {"mode": m}, "quick"))
    for op in ("gauge", "meter", "increment", "decrement", "timing"):
        for k in ("plain", "extended"):
            for s in (False, True):
                tier = "quick"
                if k == "extended" and (op in ("gauge", "meter") or
                                        m == COMPLIANT):
                    tier = "thorough"
                SCENARIOS.append((reported, {"mode": m, "client_kind": k,
                                             "op": op, "sampled": s}, tier))
