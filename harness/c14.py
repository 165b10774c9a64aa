from hlib import *

BOUNDS = ("every client call with any name and namespace (opaque, or up to 3 "
          "arbitrary bytes), whole and real values in +-1e6, any sample rate "
          "in (0, 1000], any draw; sequences of up to 3 (quick) or 5 "
          "(thorough) counter calls; "
          "1200 metrics of one client and 1200 calls for one of them, once")
ASSUMES = ["a name is used for one kind of metric and with one sample rate, "
           "as metrics are created once per name"]

CALLS = {"gauge": "g", "meter": "m", "increment": "c", "decrement": "c",
         "timing": "ms"}


class Connection(Fake):
    def __init__(self):
        self.sent = []

    def write(self, data):
        self.sent.append(data)


def client(env, kind, connection, namespace):
    if kind == "extended":
        from txstatsd.metrics.extendedmetrics import ExtendedMetrics
        return ExtendedMetrics(connection, namespace)
    from txstatsd.metrics.metrics import Metrics
    return Metrics(connection, namespace)


def names(env, way):
    """(namespace, name, fully qualified name)"""
    if way == "bytes":
        name = env.text("name", 1, 3)
        ns = env.text("namespace", 0, 2)
    else:
        name = env.key("name")
        ns = env.key("namespace")
        which = env.choice("namespace kind", ["some", "empty", "none"])
        if which == "empty":
            ns = ""
        elif which == "none":
            ns = None
    full = name
    if ns is not None and len(ns) > 0:
        full = ns + "." + name
    return ns, name, full


def quantity(env, name):
    if env.flag("whole " + name):
        return env.int(name, -1000000, 1000000)
    return env.real(name, -1000000.0, 1000000.0)


def line(env, sent, full, kind, value, suffix, label):
    """One line: the name, a number that reads back, the type, the rate."""
    env.check(len(sent) == 1, label + ": one line")
    if len(sent) != 1:
        return
    data = sent[0]
    head = full + ":"
    tail = "|" + kind
    env.check(data.startswith(head), label + ": name")
    rest = data[len(head):]
    fields = rest.split("|")
    env.check(len(fields) == (3 if suffix is not None else 2),
              label + ": fields")
    if len(fields) < 2:
        return
    env.equal(fields[1], kind, label + ": type")
    try:
        number = env.number_of(fields[0])
    except ValueError:
        env.fail(label + ": not a number")
        return
    env.close(number, value, label + ": value")
    if suffix is not None and len(fields) == 3:
        env.check(fields[2].startswith("@"), label + ": rate mark")
        try:
            env.close(env.number_of(fields[2][1:]), suffix, label + ": rate")
        except ValueError:
            env.fail(label + ": rate not a number")


def call(env, m, op, name, value, rate):
    f = getattr(m, op)
    if rate is None:
        f(name, value)
    elif env.flag("keyword"):
        f(name, value, sample_rate=rate)
    else:
        f(name, value, rate)


def calls(env, kind, op, way):
    c = Connection()
    ns, name, full = names(env, way)
    m = client(env, kind, c, ns)
    value = quantity(env, "value")
    rate = None
    how = env.choice("rate", ["default", "below", "above"])
    draws = []

    def draw():
        draws.append(env.real("draw", 0.0, 0.9999999))
        return draws[len(draws) - 1]
    env.set_random(draw)
    if how == "below":
        rate = env.real("rate", 0.00001, 0.99999)
    elif how == "above":
        rate = quantity(env, "rate above")
        env.assume(rate >= 1)
    call(env, m, op, name, value, rate)
    want = value
    if op == "decrement":
        want = -value
    elif op == "timing":
        want = value * 1000
    if how == "below":
        env.check(len(draws) == 1, "one draw")
        if len(draws) != 1:
            return
        if draws[0] > rate:
            env.check(len(c.sent) == 0, "not sampled, not sent")
            return
        line(env, c.sent, full, CALLS[op], want, rate, op + " sampled")
    else:
        line(env, c.sent, full, CALLS[op], want, None, op)


def others(env, kind, way):
    """distinct, sli and reports of plugin metrics."""
    c = Connection()
    ns, name, full = names(env, way)
    m = client(env, kind, c, ns)
    op = env.choice("op", ["distinct", "sli", "sli_error", "report"])
    for i in (0, 1):
        c.sent = []
        if op == "distinct":
            item = env.key("item")
            m.distinct(name, item)
            env.equal(c.sent, [full + ":" + item + "|d"], "distinct")
        elif op == "sli":
            value = quantity(env, "duration")
            if env.flag("sized"):
                size = quantity(env, "size")
                m.sli(name, value, size)
                env.check(len(c.sent) == 1, "sli: one line")
                if len(c.sent) == 1:
                    env.check(c.sent[0].startswith(full + ":"), "sli: name")
                    parts = c.sent[0][len(full + ":"):].split("|")
                    env.check(len(parts) == 3, "sli: size")
                    line(env, [full + ":" + "|".join(parts[:2])], full, "sli", value,
                         None, "sli")
                    env.close(env.number_of(parts[2]), size, "sli: size")
            else:
                m.sli(name, value)
                line(env, c.sent, full, "sli", value, None, "sli")
        elif op == "sli_error":
            m.sli_error(name)
            env.equal(c.sent, [full + ":error|sli"], "sli error")
        else:
            text = env.key("text")
            if env.flag("extra"):
                extra = env.key("extra")
                m.report(name, text, "zz", extra)
                env.equal(c.sent, [full + ":" + text + "|zz|" + extra],
                          "report")
            else:
                m.report(name, text, "zz")
                env.equal(c.sent, [full + ":" + text + "|zz"], "report")


def totals(env, steps):
    """Extended counters send the running total."""
    c = Connection()
    ns, name, full = names(env, "key")
    m = client(env, "extended", c, ns)
    other = env.key("other")
    env.assume(other != name)
    total = 0
    for i in range(steps):
        op = env.choice("op", ["increment", "decrement", "clear", "other"])
        c.sent = []
        if op == "clear":
            m.clear(name)
            total = 0
            continue
        if op == "other":
            m.increment(other, 3)
            continue
        value = 1
        if env.flag("default"):
            getattr(m, op)(name)
        else:
            value = env.int("value", -1000, 1000)
            getattr(m, op)(name, value)
        total = total + value if op == "increment" else total - value
        line(env, c.sent, full, "c", total, None, "running total")


def repeated(env, kind, op):
    """A second call says what it was given, like the first."""
    c = Connection()
    ns, name, full = names(env, "key")
    m = client(env, kind, c, ns)
    total = 0
    for i in (0, 1):
        c.sent = []
        value = quantity(env, "value")
        getattr(m, op)(name, value)
        want = value
        if op == "decrement":
            want = -value
        elif op == "timing":
            want = value * 1000
        if kind == "extended" and CALLS[op] == "c":
            total = total + want
            want = total
        line(env, c.sent, full, CALLS[op], want, None, "repeated " + op)


def elapsed(env, kind):
    """timing() without a duration reports the time since the last one."""
    clock = Clock(env.real("now", 1000.0, 2000000.0))
    env.set_time(clock)
    c = Connection()
    m = client(env, kind, c, "ns")
    m.reset_timing()
    for i in (0, 1):
        d = env.real("duration", 0.0, 1000.0)
        clock.now = clock.now + d
        c.sent = []
        m.timing("t")
        line(env, c.sent, "ns.t", "ms", d * 1000, None, "elapsed")
        if env.flag("reset"):
            clock.now = clock.now + 7.5
            m.reset_timing()


def unconnected(env, kind):
    """Without a connection nothing is sent and nothing raises."""
    m = client(env, kind, None, env.choice("namespace", [None, "", "ns"]))
    env.set_random(lambda: env.real("draw", 0.0, 0.9999999))
    name = env.text("name", 1, 2)
    op = env.choice("op", ["gauge", "meter", "increment", "decrement",
                           "timing", "distinct", "sli", "sli_error"])
    rate = env.choice("rate", [1, 0.5])
    if op in ("distinct", "sli"):
        getattr(m, op)(name, 3)
    elif op == "sli_error":
        m.sli_error(name)
    else:
        getattr(m, op)(name, env.int("value", -10, 10), rate)
    m.clear(name)
    env.check(True, "nothing raised")


def crowd(env, kind, count):
    """A client that reports many metrics, often."""
    connection = Connection()
    m = client(env, kind, connection, "")
    key = env.key("name", "a-f")
    by = env.int("by", -1000000, 1000000)
    m.increment(key, by)
    m.gauge(key + ".g", 1)
    del connection.sent[:]
    for i in range(count):
        name = "other.%d" % i
        op = ["increment", "gauge", "meter", "timing"][i % 4]
        getattr(m, op)(name, 2)
        env.check(len(connection.sent) == i + 1, "a line for each")
    del connection.sent[:]
    for i in range(count):
        m.increment(key)
    total = by + count if kind == "extended" else 1
    env.check(len(connection.sent) == count, "one line for each")
    line(env, connection.sent[-1:], key, "c", total, None, "the last")
    del connection.sent[:]
    m.increment("other.0", 3)
    line(env, connection.sent, "other.0", "c",
         5 if kind == "extended" else 3, None, "an earlier one")


SCENARIOS = [(crowd, {"kind": "plain", "count": 1200}, "quick"),
             (crowd, {"kind": "extended", "count": 1200}, "quick"),
             (totals, {"steps": 3}, "quick"),
             (totals, {"steps": 5}, "thorough")]
for k in ("plain", "extended"):
    for w in ("key", "bytes"):
        for o in sorted(CALLS):
            SCENARIOS.append((calls, {"kind": k, "op": o, "way": w},
                              "quick" if w == "key" else "thorough"))
        SCENARIOS.append((others, {"kind": k, "way": w}, "quick"))
    SCENARIOS.append((calls, {"kind": k, "op": "gauge", "way": "bytes"},
                      "quick"))
    for o in sorted(CALLS):
        SCENARIOS.append((repeated, {"kind": k, "op": o}, "quick"))
    SCENARIOS.append((elapsed, {"kind": k}, "quick"))
    SCENARIOS.append((unconnected, {"kind": k}, "quick"))
