from hlib import *

BOUNDS = ("up to 3 rules over 8 patterns with any numbers, metric names of 1 "
          "to 3 (thorough: 4) characters of a, b, dot and dash under any "
          "prefix; rule lines with up to 3 (thorough: 4) arbitrary characters "
          "at any one of their joints, and any condition name of lower "
          "letters or among the attributes of the factory; "
          "once 60 rules")
ASSUMES = ["patterns matching one metric do not share a label"]

PATTERNS = ["*", "a*", "*b", "?b*", "pre.a", "pre.*", "a.b", "a?-*"]


def glob(pattern, text):
    """Does the whole text match?"""
    if pattern == "":
        return len(text) == 0
    if pattern[0] == "*":
        for i in range(len(text) + 1):
            if glob(pattern[1:], text[i:]):
                return True
        return False
    if len(text) == 0:
        return False
    if pattern[0] != "?" and text[0] != pattern[0]:
        return False
    return glob(pattern[1:], text[1:])


def holds(env, kind, numbers, value, size):
    if kind == "between":
        return env.both(numbers[0] < value, value < numbers[1])
    slope = numbers[1] if len(numbers) > 1 else 0
    edge = numbers[0] + slope * size
    return value > edge if kind == "above" else value < edge


def attached(env, metric, full, expected, label):
    """expected: (label, kind, numbers) of the conditions it should have."""
    value = env.real("value", -1000000.0, 1000000.0)
    size = env.int("size", -9, 9)
    metric.update(value, size)
    metric.update("error", 1)
    out = metric.flush(10, 1234)
    env.check(len(out) == 2 + len(expected), label + ": only these conditions")
    env.equal(one(env, out, full + ".count", "count"), 2, "samples")
    env.equal(one(env, out, full + ".error", "errors"), 1, "errors")
    for name, kind, numbers in expected:
        v = one(env, out, full + ".count_" + name, label + ": condition")
        if v is not None:
            env.equal(v, env.ite(holds(env, kind, numbers, value, size), 1, 0),
                      label + ": its numbers")


def matching(env, patterns, prefix, size):
    """Which rules a metric gets."""
    rules = []
    lines = []
    for i in range(len(patterns)):
        label = "label_%d" % i
        kind = ["above", "below", "between"][i % 3]
        numbers = []
        texts = []
        for k in range(2 if i else 1):
            text, v = env.number_text("n", -1000000.0, 1000000.0)
            texts.append(text)
            numbers.append(v)
        lines.append(patterns[i] + " => " + label + " IF " + kind + " " +
                     " ".join(texts))
        rules.append((patterns[i], label, kind, numbers))
    factory = sli_plugin("\n".join(lines))
    name = env.text("name", 1, size, "ab.-")
    full = name
    if prefix:
        full = prefix + name if prefix[-1] == "." else prefix + "." + name
    metric = factory.build_metric(prefix, name)
    want = [(l, k, n) for p, l, k, n in rules if glob(p, full)]
    attached(env, metric, full, want, "matching")


def long_list(env, count):
    """Many rules, of which many match."""
    lines = []
    rules = []
    for i in range(count):
        text = str(3 * i - 40)
        kind = ["above", "below"][i % 2]
        pattern = ["a*", "b*", "*a", "ab"][i % 4]
        lines.append(pattern + " => l%d IF " % i + kind + " " + text)
        rules.append((pattern, "l%d" % i, kind, [3 * i - 40]))
    factory = sli_plugin("\n".join(lines))
    for i in range(count):
        factory.build_metric("", "other%d" % i)
    name = env.choice("name", ["a", "b", "ab", "ba", "c"])
    metric = factory.build_metric("", name)
    attached(env, metric, name,
             [(l, k, n) for p, l, k, n in rules if glob(p, name)], "many")


def well_formed(env, line):
    """(label, kind, numbers) of a well-formed rule, or None."""
    parts = line.split(" ")
    if len(parts) < 5 or parts[1] != "=>" or parts[3] != "IF":
        return None
    allowed = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
               "0123456789_")
    for c in parts[0]:
        if c not in allowed + ".*?-":
            return None
    for c in parts[2]:
        if c not in allowed:
            return None
    if len(parts[0]) == 0 or len(parts[2]) == 0:
        return None
    kind = None
    for k in ("above", "below", "between"):
        if parts[4] == k:
            kind = k
    texts = parts[5:]
    if kind is None or not (len(texts) == 2 or
                            len(texts) == 1 and kind != "between"):
        return None
    numbers = []
    for t in texts:
        try:
            numbers.append(env.number_of(t))
        except ValueError:
            return None
    return parts[2], kind, numbers


def configured(env, rules):
    """The factory, or None when the rules are refused."""
    try:
        return sli_plugin(rules)
    except (TypeError, ValueError):
        return None


def corrupted(env, before, after, size, second):
    """Arbitrary text somewhere in a rule."""
    middle = env.text("text", 0, size)
    if "\n" in middle:
        env.skip()
    line = before + middle + after
    want = well_formed(env, line.strip())
    rules = line
    if second:
        rules = "*zz => other IF above 1\n" + line + "\n*zz => k IF below 2"
        if after == "" or before == "":
            env.gap("spaces at the end of a line in between")
    factory = configured(env, rules)
    env.check((factory is not None) == (want is not None),
              "refused when not a rule")
    if factory is None or want is None:
        return
    pattern = line.strip().split(" ")[0]
    if before.startswith("a =>"):
        metric = factory.build_metric("", "a")
        attached(env, metric, "a", [want], "accepted")


def conditions(env, numbers):
    """Any name of a condition."""
    name = env.key("name", "a-z")
    rest = " ".join(["3", "4", "5"][:numbers])
    rules = "* => l IF " + name + " " + rest
    factory = configured(env, rules)
    known = numbers in (1, 2) and (name == "above" or name == "below") or \
        numbers == 2 and name == "between"
    env.check((factory is not None) == known, "only known conditions")


def attributes(env, name, numbers):
    """Names of other things."""
    rest = " ".join(["3", "4", "5"][:numbers])
    factory = configured(env, "* => l IF " + name + " " + rest)
    env.check(factory is None, "only known conditions")


def unmatched(env, rules):
    """No conditions, but still counted."""
    factory = sli_plugin(rules)
    prefix = env.choice("prefix", ["", "pre", "pre."])
    name = env.key("name", "a-z")
    full = ("pre." if prefix else "") + name
    metric = factory.build_metric(prefix, name)
    attached(env, metric, full, [], "no conditions")


SCENARIOS = [(long_list, {"count": 60}, "quick")]
for prefix in ("", "pre", "pre."):
    SCENARIOS.append((matching, {"patterns": ["*", "a*", "pre.a"],
                                 "prefix": prefix, "size": 2}, "quick"))
    SCENARIOS.append((matching, {"patterns": ["?b*", "pre.*"],
                                 "prefix": prefix, "size": 2}, "quick"))
SCENARIOS.append((matching, {"patterns": ["a.b", "*b"], "prefix": "",
                             "size": 3}, "quick"))
SCENARIOS.append((matching, {"patterns": ["a?-*"], "prefix": "",
                             "size": 3}, "quick"))
SCENARIOS.append((matching, {"patterns": ["*b", "pre.*", "*b"],
                             "prefix": "pre", "size": 2}, "quick"))
SCENARIOS.append((matching, {"patterns": ["a*", "a*", "a*"],
                             "prefix": "", "size": 2}, "quick"))
for prefix in ("a.b", "a.b.", "a-b"):
    SCENARIOS.append((matching, {"patterns": ["a.b.*", "*.a", "a?b.b"],
                                 "prefix": prefix, "size": 2}, "quick"))
SCENARIOS.append((matching, {"patterns": PATTERNS[:3], "prefix": "",
                             "size": 4}, "thorough"))
SCENARIOS.append((matching, {"patterns": PATTERNS[5:], "prefix": "pre",
                             "size": 4}, "thorough"))
SCENARIOS.append((unmatched, {"rules": None}, "quick"))
SCENARIOS.append((unmatched, {"rules": "q.* => l IF above 1"}, "quick"))
JOINTS = [("a => l IF above", "5"), ("a => l IF above", " 5"),
          ("a => l IF above 5", ""), ("a => l IF below 5", ""),
          ("a => l IF between 5", ""), ("a => l IF ", " 5 6"),
          ("a => l IF", "above 5"), ("a => ", " IF above 5"),
          ("a", "l IF above 5"), ("", " => l IF above 5"),
          ("a =", "> l IF above 5"), ("a => l I", "F above 5")]
for before, after in JOINTS:
    SCENARIOS.append((corrupted, {"before": before, "after": after, "size": 2,
                                  "second": False}, "quick"))
    SCENARIOS.append((corrupted, {"before": before, "after": after, "size": 3,
                                  "second": False}, "thorough"))
for before, after in JOINTS[:2]:
    SCENARIOS.append((corrupted, {"before": before, "after": after, "size": 2,
                                  "second": True}, "quick"))
for n in (0, 1, 2, 3):
    SCENARIOS.append((conditions, {"numbers": n}, "quick"))
for n in (1, 2, 3):
    for name in ("metric", "config", "configure", "name", "", "_above",
                 "_metric", "Above"):
        SCENARIOS.append((attributes, {"name": name, "numbers": n}, "quick"))
