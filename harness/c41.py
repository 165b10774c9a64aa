from hlib import *

BOUNDS = ("rules of every documented form with any words; up to 2 (quick) or "
          "3 (thorough) arbitrary characters put at any place between the "
          "words of a rule or in place of one; 11 regular expressions, 10 "
          "replacements and 11 globs, sound and unsound, in every "
          "combination; one or two rules, messages of any short name")
ASSUMES = ["what the documentation leaves open (no type given to metric_type, "
           "a word other than dup after a rewriting) may be taken or refused"]

TAKEN, REFUSED, OPEN = "taken", "refused", "open"


def words(text):
    return [w for w in text.split(" ") if w]


def condition_form(parts):
    if not parts:
        return REFUSED
    name, args = parts[0], parts[1:]
    if name == "any":
        return REFUSED if args else TAKEN
    if name == "metric_type":
        return TAKEN if args else OPEN
    if name == "path_like":
        return TAKEN if len(args) == 1 else REFUSED
    if name == "not":
        return condition_form(args)
    return REFUSED


def target_form(parts, service):
    if not parts:
        return REFUSED
    name, args = parts[0], parts[1:]
    if name == "drop":
        return REFUSED if args else TAKEN
    if name == "set_metric_type" or name == "rewrite":
        needed = 1 if name == "set_metric_type" else 2
        if len(args) == needed:
            return TAKEN
        if len(args) == needed + 1:
            return TAKEN if args[-1] == "dup" else OPEN
        return REFUSED
    if name == "redirect_udp" or name == "redirect_tcp":
        if len(args) != 2:
            return REFUSED
        if is_port(args[1]):
            return TAKEN
        if len(args[1]) > 5 or args[1][:1] in ("+", "-"):
            return OPEN
        return REFUSED if service else OPEN
    return REFUSED


def is_port(text):
    if len(text) == 0 or len(text) > 5:
        return False
    for c in text:
        if not ("0" <= c and c <= "9"):
            return False
    return True


def form(line, service):
    """What becomes of a rule, by the documentation."""
    for c in "\t\x0b\x0c\r\x00":
        if c in line:
            return OPEN
    if len(line) == 0:
        return TAKEN
    halves = line.split("=>")
    if len(halves) != 2:
        return REFUSED
    a = condition_form(words(halves[0]))
    b = target_form(words(halves[1]), service)
    if REFUSED in (a, b):
        return REFUSED
    if OPEN in (a, b):
        return OPEN
    return TAKEN


def router(env, rules, service):
    """The router, or None when the rules are refused."""
    from txstatsd.server.router import Router
    parent = None
    if service:
        from twisted.application.service import MultiService
        parent = MultiService()
        env.set_reactor(FakeReactor())
    sink = Sink()
    try:
        return Router(sink, rules, parent), sink
    except Exception:
        return None, sink


def judged(env, rules, expected, service, name, kind):
    r, sink = router(env, rules, service)
    if expected == TAKEN:
        env.check(r is not None, "documented rules are taken")
    elif expected == REFUSED:
        env.check(r is None, "other rules are refused at once")
    else:
        env.check(True, "either")
    if r is not None:
        lines = bad_lines(env)
        r.process(name + ":5|" + kind)
        env.check(bad_lines(env) == lines, "no message is refused for a rule")
    return sink


CONDITIONS = [["any"], ["metric_type", "c"], ["metric_type", "c", "g"],
              ["path_like", "a*"], ["not", "any"], ["not", "path_like", "b?"],
              ["not", "not", "metric_type", "ms"]]
TARGETS = [["drop"], ["rewrite", "a", "b"], ["rewrite", "a", "b", "dup"],
           ["set_metric_type", "g"], ["set_metric_type", "g", "dup"],
           ["redirect_udp", "host", "9125"], ["redirect_tcp", "host", "9125"]]


def forms(env, service, c, t):
    """Every documented form, with any spacing."""
    gap = env.choice("gap", [" ", "  "])
    rule = gap.join(CONDITIONS[c]) + env.choice("before", [" ", "", "   "]) \
        + "=>" + env.choice("after", [" ", ""]) + gap.join(TARGETS[t])
    if form(rule, service) != TAKEN:
        env.gap("reference")
    second = env.choice("second", ["", "\n", "\n\nany => drop", "\nany =>",
                                   "\nanything => drop",
                                   "\nany => anything"])
    expected = REFUSED if "any =>" == second[-6:] or "anything" in second \
        else TAKEN
    name = env.text("name", 1, 1, "ab.")
    judged(env, rule + second, expected, service, name,
           env.choice("kind", ["c", "g"]))


def corrupted(env, service, c, t, n, replacing):
    """Arbitrary characters anywhere between the words, or for one."""
    parts = CONDITIONS[c] + ["=>"] + TARGETS[t]
    text = env.text("text", 0 if replacing else 1, n, " -~")
    places = list(range(len(parts) + (0 if replacing else 1)))
    for word in ("path_like", "rewrite"):
        if word in parts:
            # patterns of any text are not compiled, see expressions and globs
            at = parts.index(word) + 1
            gone = [at] if replacing else [at, at + 1]
            if word == "rewrite":
                gone = gone + [gone[-1] + 1]
            places = [w for w in places if w not in gone]
    where = env.choice("where", places)
    if replacing:
        parts = parts[:where] + [text] + parts[where + 1:]
        rule = " ".join(parts)
    elif where == 0:
        rule = text + " ".join(parts)
    else:
        rule = " ".join(parts[:where]) + text + \
            (" " if env.flag("space") else "") + " ".join(parts[where:])
    judged(env, rule, form(rule, service), service, "ab", "c")


PATTERNS = ["a", "(a)", "(a)|b", "(?P<x>a)b?", "a*", "", "(", "[", "a)", "*",
            "(?P<x"]
UNSOUND = PATTERNS[6:]
REPLACEMENTS = ["z", "\\1", "\\2", "<\\1\\1>", "\\g<x>", "\\g<1>", "\\g<x",
                "z\\", "\\n", "\\\\"]


def expressions(env, dup):
    """No regular expression and replacement makes a message fail."""
    pattern = env.choice("pattern", PATTERNS)
    if pattern == "":
        pattern = "x?"
    repl = env.choice("replacement", REPLACEMENTS)
    rule = "any => rewrite " + pattern + " " + repl + dup
    expected = REFUSED if pattern in UNSOUND else OPEN
    name = env.text("name", 1, 2, "abx.")
    sink = judged(env, rule, expected, False, name, "c")
    if pattern not in UNSOUND and repl in ("z", "\\\\"):
        env.check(len(sink.got) >= 1, "it goes on")


GLOBS = ["a", "*", "a?", "[ab]", "[!a]*", "[", "[]", "[z-a]", "[a-", "*[b-a]",
         "[a-a]"]


def globs(env, negated):
    """No glob makes a message fail."""
    pattern = env.choice("pattern", GLOBS)
    rule = ("not " if negated else "") + "path_like " + pattern + " => drop"
    name = env.text("name", 1, 2, "ab.[")
    judged(env, rule, OPEN, False, name, "c")


def served(env, rules):
    """Rules that are refused are refused when the service is built."""
    from txstatsd.service import StatsDOptions, createService
    o = StatsDOptions()
    o["routing"] = rules + env.choice("after", ["", "\nany => drop"])
    o["statsd-compliance"] = 1 if env.flag("compliant") else 0
    env.set_plugins([])
    env.set_node("box")
    reactor = FakeReactor(1000)
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    try:
        createService(o)
    except Exception:
        env.check(True, "refused")
        return
    env.fail("a service with rules it cannot apply")


SCENARIOS = [(served, {"rules": r}, "quick") for r in (
    "sometimes => drop", "any => forget", "any", "any => rewrite ( x",
    "any => redirect_udp here there", "not => drop", "any => ",
    "path_like => drop")]
for dup in ("", " dup"):
    SCENARIOS.append((expressions, {"dup": dup}, "quick"))
for negated in (False, True):
    SCENARIOS.append((globs, {"negated": negated}, "quick"))
for c in range(len(CONDITIONS)):
    SCENARIOS.append((forms, {"service": c % 2 == 0, "c": c,
                              "t": c % len(TARGETS)}, "quick"))
    for replacing in (False, True):
        t = (c + 3) % len(TARGETS)
        SCENARIOS.append((corrupted, {
            "service": t > 4, "c": c, "t": t, "n": 2,
            "replacing": replacing}, "quick"))
        SCENARIOS.append((corrupted, {
            "service": t > 4, "c": c, "t": t, "n": 3,
            "replacing": replacing}, "thorough"))
