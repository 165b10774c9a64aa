from hlib import *

BOUNDS = ("every list of up to 2 (quick) or 3 (thorough) rules over 9 "
          "(single rules: 16) conditions and 9 (37) targets, 4 longer lists "
          "of up to 6, any 1, 2 or 4 types negated up to 3 times, for messages with any name of 1..3 "
          "(quick) or 1..4 (thorough) characters of a, b, digits and dot, "
          "arbitrary type, value and rate fields; "
          "once 90 rules, and 7 duplicating ones")
ASSUMES = ["path_like and rewrite patterns are drawn from 18 literal ones, "
           "each with an independent reference in the harness"]


# -- reference semantics ---------------------------------------------------------

def glob(pattern, name):
    if not pattern:
        return len(name) == 0
    c = pattern[0]
    if c == "*":
        for i in range(len(name) + 1):
            if glob(pattern[1:], name[i:]):
                return True
        return False
    if len(name) == 0:
        return False
    if c == "[":
        end = pattern.index("]")
        inside = pattern[1:end]
        negated = inside[0] == "!"
        if negated:
            inside = inside[1:]
        if inside == "a-c":
            inside = "abc"
        if (name[0] in list(inside)) == negated:
            return False
        return glob(pattern[end + 1:], name[1:])
    if c != "?" and name[0] != c:
        return False
    return glob(pattern[1:], name[1:])


def replace_all(name):
    """a -> xy, everywhere"""
    out, hit = "", False
    for c in name:
        if c == "a":
            out, hit = out + "xy", True
        else:
            out = out + c
    return out, hit


def strip_head(name):
    """^a -> z"""
    if len(name) > 0 and name[0] == "a":
        return "z" + name[1:], True
    return name, False


def digits(name):
    """[0-9]+ -> N"""
    out, hit, run = "", False, False
    for c in name:
        if c in list("0123456789"):
            if not run:
                out, hit = out + "N", True
            run = True
        else:
            out, run = out + c, False
    return out, hit


def swap(name):
    """(.)b -> <group>.b"""
    out, hit, i = "", False, 0
    while i < len(name):
        if i + 1 < len(name) and name[i + 1] == "b":
            out, hit = out + name[i] + ".b", True
            i += 2
        else:
            out = out + name[i]
            i += 1
    return out, hit


def each(old, new):
    """one character -> another text, everywhere"""
    def f(name):
        out, hit = "", False
        for c in name:
            if c in list(old):
                out, hit = out + new, True
            else:
                out = out + c
        return out, hit
    return f


def last(name):
    """b$ -> end"""
    if len(name) > 0 and name[-1] == "b":
        return name[:-1] + "end", True
    return name, False


def turn(name):
    """(a)(b) -> ba"""
    out, hit, i = "", False, 0
    while i < len(name):
        if name[i:i + 2] == "ab":
            out, hit = out + "ba", True
            i += 2
        else:
            out = out + name[i]
            i += 1
    return out, hit


def others(name):
    """[^a]+ -> -"""
    out, hit, run = "", False, False
    for c in name:
        if c == "a":
            out, run = out + c, False
        else:
            if not run:
                out, hit = out + "-", True
            run = True
    return out, hit


REWRITES = {"\\. _": each(".", "_"), "b$ end": last, "(a)(b) \\2\\1": turn,
            "a|b X": each("ab", "X"), "[^a]+ -": others,
            "a \\g<0>a": each("a", "aa"),
            "a b": each("a", "b"), "a c": each("a", "c"),
            "b a": each("b", "a"), "b c": each("b", "c"),
            "a xy": replace_all, "^a z": strip_head, "[0-9]+ N": digits,
            "(.)b \\1.b": swap}


def holds(condition, kind, name):
    words = condition.split(" ")
    if words[0] == "any":
        return True
    if words[0] == "not":
        return not holds(" ".join(words[1:]), kind, name)
    if words[0] == "metric_type":
        for t in words[1:]:
            if kind == t:
                return True
        return False
    return glob(words[1], name)


def apply_rule(condition, target, messages):
    out = []
    for kind, name in messages:
        if not holds(condition, kind, name):
            out.append((kind, name))
            continue
        words = target.split(" ")
        dup = words[len(words) - 1] == "dup"
        if words[0] == "drop":
            continue
        if words[0] == "set_metric_type":
            if dup:
                out.append((kind, name))
            out.append((words[1], name))
            continue
        new, hit = REWRITES[words[1] + " " + words[2]](name)
        if dup and hit:
            out.append((kind, name))
        out.append((kind, new))
    return out


CONDITIONS = ["any", "metric_type c", "path_like a*", "not metric_type c g",
              "not path_like *b", "not not metric_type g",
              "path_like ?[ab]*", "not any", "path_like a"]
MORE = ["path_like [!a]*", "path_like [a-c]?", "path_like *.*",
        "path_like a.b", "path_like *a", "metric_type c g ms m",
        "not metric_type x y z c"]
WRITES = ["rewrite %s %s" % tuple(k.split(" ")) + d for k in sorted(REWRITES)
          for d in ("", " dup")]
TARGETS = ["drop", "rewrite a xy", "rewrite a xy dup", "rewrite ^a z dup",
           "set_metric_type g", "set_metric_type c dup",
           "rewrite [0-9]+ N", "rewrite (.)b \\1.b dup",
           "rewrite (.)b \\1.b no-dup"]


def routed(env, conditions, targets, lines, length, kinds):
    from txstatsd.server.router import Router
    rules = []
    for i in range(lines):
        rules.append((env.choice("condition", conditions),
                      env.choice("target", targets)))
    config = "\n".join(["%s => %s" % r for r in rules])
    if env.flag("spaced"):
        config = "\n" + "\n\n".join(["%s  =>  %s " % r for r in rules]) + "\n"
    sink = Sink()
    router = Router(sink, config)
    kind = env.choice("kind", kinds)
    if kind == "any":
        kind = env.key("type", "a-z")
        for t in ("c", "g"):
            env.assume(kind != t)
    name = env.text("name", 1, length, "ab7.")
    value = env.key("value", "0-9.a-z-")
    fields = [value, kind]
    if env.flag("rate"):
        fields.append("@" + env.key("rate", "0-9."))
    router.process(name + ":" + "|".join(fields))
    want = [(kind, name)]
    for condition, target in rules:
        want = apply_rule(condition, target, want)
    env.check(len(sink.got) == len(want), "as many messages as the rules say")
    if len(sink.got) != len(want):
        return
    for i in range(len(want)):
        message, k, n, f = sink.got[i]
        env.equal(k, want[i][0], "type")
        env.equal(n, want[i][1], "name")
        env.equal(f[0], value, "value field untouched")
        env.equal(f[2:], fields[2:], "rate field untouched")
        rebuilt = [value, k] + fields[2:]
        env.equal(message, n + ":" + "|".join(rebuilt), "message text")


def no_rules(env, length):
    """Without rules every message reaches the processor unchanged."""
    from txstatsd.server.router import Router
    sink = Sink()
    router = Router(sink, env.choice("rules", ["", "\n"]))
    key = env.key("name")
    fields = [env.text("value", 0, length, "!-9;-{}~"),
              env.text("type", 0, length, "!-9;-{}~")]
    if env.flag("third"):
        fields.append(env.text("rate", 0, length, "!-9;-{}~"))
    message = key + ":" + "|".join(fields)
    router.process(message)
    env.check(len(sink.got) == 1, "reaches the processor once")
    if len(sink.got) == 1:
        text, k, n, f = sink.got[0]
        env.equal(text, message, "message unchanged")
        env.equal((k, n), (fields[1], key), "type and name unchanged")
        env.equal(list(f), fields, "fields unchanged")


def conditions(env, nots, types):
    """Any types, negated any number of times."""
    from txstatsd.server.router import Router
    words = [env.key("type%d" % i, "a-z") for i in range(types)]
    sink = Sink()
    router = Router(sink, "not " * nots + "metric_type " + " ".join(words) +
                    " => drop")
    kind = env.key("kind", "a-z")
    router.process("name:5|" + kind)
    matched = nots % 2 == 1
    for w in words:
        if w == kind:
            matched = not matched
            break
    env.check(len(sink.got) == (0 if matched else 1), "dropped if it matches")


def chain(env, rules, length, domain):
    """Many rules, applied in their order."""
    from txstatsd.server.router import Router
    sink = Sink()
    router = Router(sink, "\n".join(["%s => %s" % tuple(r) for r in rules]))
    kind = env.choice("kind", ["c", "g", "ms"])
    name = env.text("name", 1, length, domain)
    for i in range(env.choice("times", [1, 2])):
        sink.got = []
        router.process(name + ":5|" + kind)
        want = [(kind, name)]
        for condition, target in rules:
            want = apply_rule(condition, target, want)
        env.equal([(k, n) for m, k, n, f in sink.got], want,
                  "the rules in order, every time")


CHAINS = [
    [("metric_type ms", "set_metric_type c"), ("metric_type c g",
      "set_metric_type m dup"), ("metric_type m", "rewrite a b dup"),
     ("path_like *b*", "rewrite b c dup"), ("not metric_type m", "drop"),
     ("path_like c*", "set_metric_type x")],
    [("path_like a*", "rewrite ^a z"), ("path_like a*", "drop"),
     ("not path_like z*", "set_metric_type g dup"),
     ("metric_type g", "rewrite b$ end dup"), ("any", "set_metric_type c"),
     ("path_like *end", "drop")],
    [("any", "rewrite a b dup"), ("any", "rewrite a c dup"),
     ("any", "set_metric_type c dup"), ("metric_type c", "rewrite b a"),
     ("not not path_like *a", "set_metric_type g")],
    [("metric_type c", "drop"), ("metric_type c", "rewrite a b"),
     ("any", "rewrite (a)(b) \\2\\1 dup"), ("path_like b*", "drop"),
     ("any", "rewrite a|b X dup")],
]


def same_flush(env):
    """With a real server behind it: what survives is what is flushed."""
    from txstatsd.server.router import Router
    clock = Clock(1000.0)
    p, q = make(env, COMPLIANT, clock), make(env, COMPLIANT, clock)
    router = Router(p, "metric_type g => set_metric_type m\n"
                       "path_like a* => rewrite a b dup")
    name = env.text("name", 1, 3, "ab")
    text, value = env.number_text("value")
    kind = env.choice("kind", ["c", "g", "ms"])
    router.process(name + ":" + text + "|" + kind)
    k = "m" if kind == "g" else kind
    q.process(name + ":" + text + "|" + k)
    new = "".join(["b" if c == "a" else c for c in name])
    if name.startswith("a"):
        q.process(new + ":" + text + "|" + k)
    clock.now = 1010.0
    out = []
    for n, v, t in router.flush(10000, 90):
        out.append((n, v, t))
    same_reports(env, body(out), body(flush(q)), "routed server")


def long_list(env, count):
    """Many rules, each in its turn, and many messages."""
    from txstatsd.server.router import Router
    sink = Sink()
    lines = ["path_like m%d => rewrite ^m%d$ m%d" % (i, i, i + 1)
             for i in range(count)]
    lines += ["metric_type t%d => set_metric_type t%d" % (i, i + 1)
              for i in range(count)]
    lines += ["path_like z%d => drop" % i for i in range(count)]
    router = Router(sink, "\n".join(lines))
    value = env.key("value", "0-9")
    router.process("m0:" + value + "|t0")
    env.check(len(sink.got) == 1, "one message")
    message, kind, key, fields = sink.got[0]
    env.equal(key, "m%d" % count, "renamed by every rule")
    env.equal(kind, "t%d" % count, "retyped by every rule")
    env.equal(fields[0], value, "the value untouched")
    del sink.got[:]
    for i in range(count):
        router.process("z%d:1|c" % i)
        router.process("y%d:1|c" % i)
    env.check(len(sink.got) == count, "dropped by any rule")


def fan_out(env, count):
    """Every message goes on, however many there are by now."""
    from txstatsd.server.router import Router
    sink = Sink()
    lines = ["any => set_metric_type t%d dup" % i for i in range(count)]
    router = Router(sink, "\n".join(lines))
    value = env.key("value", "0-9")
    router.process("m:" + value + "|c")
    env.check(len(sink.got) == 2 ** count, "twice as many by every rule")
    for i in range(count):
        env.check(len([g for g in sink.got if g[1] == "t%d" % i]) == 2 ** i,
                  "as many of every type")
    for message, kind, key, fields in sink.got:
        env.equal(fields[0], value, "the value untouched")


SCENARIOS = [
    (long_list, {"count": 30}, "quick"),
    (fan_out, {"count": 7}, "quick"),
    (routed, {"conditions": CONDITIONS, "targets": TARGETS, "lines": 1,
              "length": 3, "kinds": ["c", "g", "any"]}, "quick"),
    (routed, {"conditions": CONDITIONS[:6], "targets": TARGETS[:6],
              "lines": 2, "length": 2, "kinds": ["c"]}, "quick"),
    (routed, {"conditions": CONDITIONS, "targets": TARGETS, "lines": 1,
              "length": 4, "kinds": ["c", "g", "any"]}, "thorough"),
    (routed, {"conditions": MORE, "targets": ["drop", "rewrite a xy dup"],
              "lines": 1, "length": 3, "kinds": ["c", "any"]}, "quick"),
    (routed, {"conditions": ["any", "path_like a*"], "targets": WRITES,
              "lines": 1, "length": 3, "kinds": ["c"]}, "quick"),
    (routed, {"conditions": MORE, "targets": WRITES, "lines": 1,
              "length": 4, "kinds": ["c"]}, "thorough"),
    (no_rules, {"length": 2}, "quick"),
    (same_flush, {}, "quick"),
]
for nots in range(4):
    for types in (1, 2, 4):
        SCENARIOS.append((conditions, {"nots": nots, "types": types},
                          "quick"))
for rules in CHAINS:
    SCENARIOS.append((chain, {"rules": rules, "length": 3,
                              "domain": "abA.-"}, "quick"))
    SCENARIOS.append((chain, {"rules": rules, "length": 5,
                              "domain": "abA.-"}, "thorough"))
for c in CONDITIONS:
    SCENARIOS.append((routed, {
        "conditions": [c, "any", "path_like a*"], "targets": TARGETS,
        "lines": 2, "length": 3, "kinds": ["c", "g", "any"]}, "thorough"))
for t in TARGETS:
    SCENARIOS.append((routed, {
        "conditions": ["metric_type c", "not path_like *b", "any"],
        "targets": [t, "rewrite a xy dup", "set_metric_type c dup"],
        "lines": 3, "length": 2, "kinds": ["c"]}, "thorough"))
