from hlib import *

BOUNDS = ("every option of the service, in long and short form, glued or "
          "apart, given or not on the command line and in the file with any "
          "value, alone and together with every other (quick: some others); "
          "up to 3 carbon-cache sections in any order in the file; one "
          "plugin section with any values")
ASSUMES = ["texts are letters, digits, dots and dashes; numbers are whole and "
           "ports are at most 65535"]

# long and short name, default, whether it is a number
ALL = [
    ("listen-port", "l", 8125, True),
    ("flush-interval", "i", 60000, True),
    ("prefix", "x", None, False),
    ("instance-name", "N", None, False),
    ("report", "r", None, False),
    ("monitor-message", "m", "txstatsd ping", False),
    ("monitor-response", "o", "txstatsd pong", False),
    ("statsd-compliance", "s", 1, True),
    ("dump-mode", "d", 0, True),
    ("routing", "g", "", False),
    ("listen-tcp-port", "t", None, True),
    ("max-queue-size", "Q", 20000, True),
    ("max-datapoints-per-message", "M", 1000, True),
    ("http-port", "P", None, True),
]
CARBON = [("carbon-cache-host", "h", False), ("carbon-cache-port", "p", True),
          ("carbon-cache-name", "n", False)]
NAMES = [o[0] for o in ALL]
FORMS = ["absent", "long", "equals", "short", "glued"]


def options(env):
    from txstatsd.service import StatsDOptions
    return StatsDOptions()


def value(env, name, number, most=1000000, empty=False):
    """A text and what it means."""
    if number:
        return env.number_text(name, 0, most, True)
    if empty and env.flag("empty"):
        return "", ""
    t = env.key(name, "A-Za-z0-9.%_/-")
    return t, t


def given(form, name, short, text):
    """The arguments giving an option."""
    if form == "long":
        return ["--" + name, text]
    if form == "equals":
        return ["--" + name + "=" + text]
    if form == "short":
        return ["-" + short, text]
    if form == "glued":
        return ["-" + short + text]
    return []


def parse(env, arguments, lines, how):
    """Options from arguments and the lines of a file."""
    o = options(env)
    if lines is not None:
        path = env.set_file("/etc/txstatsd.conf", "\n".join(lines) + "\n")
        config = ["--config", path]
        if how == "short":
            config = ["-c", path]
        elif how == "last":
            arguments, config = config, arguments
        arguments = config + arguments
    o.parseOptions(arguments)
    return o


def effective(env, names, forms, how, extra):
    empty = len(names) == 1
    arguments = []
    lines = ["[statsd]"]
    want = {}
    for name, short, default, number in ALL:
        want[name] = default
        if name not in names:
            continue
        if how != "none" and env.flag("in file"):
            text, v = value(env, "file", number, 1000000, empty)
            sep = env.choice("separator", [": ", " = ", "="])
            lines.append(name + sep + text)
            want[name] = v
        form = env.choice("form", forms)
        if form != "absent":
            text, v = value(env, "argument", number, 1000000,
                            empty and form in ("long", "equals", "short"))
            arguments.extend(given(form, name, short, text))
            want[name] = v
    if extra:
        lines.append("unknown-name: 17")
        lines.append("config: /nowhere")
        lines.append("help: 1")
    o = parse(env, arguments, None if how == "none" else lines, how)
    for name, short, default, number in ALL:
        env.equal(o[name], want[name], "value of " + name)
        if number and want[name] is not None:
            env.check(isinstance(o[name], int), name + " is a number")
    for name, short, number in CARBON:
        env.equal(list(o[name]), [], "no carbon caches")
    if extra:
        env.check("unknown-name" not in o, "unknown names are ignored")


def twice(env, name):
    """The last of several on the command line."""
    for n, short, default, number in ALL:
        if n == name:
            break
    a, x = value(env, "first", number)
    b, y = value(env, "second", number)
    f = env.choice("form", FORMS[1:])
    g = env.choice("form", FORMS[1:])
    o = parse(env, given(f, name, short, a) + given(g, name, short, b),
              ["[statsd]", name + ": 5"], "long")
    env.equal(o[name], y, "the last one counts")


def destinations(env, sections, main, forms):
    """Carbon caches from sections of the file and from the command line."""
    lines = ["[statsd]"]
    want = {"host": [], "port": [], "name": []}

    def put(kind, where):
        text, v = value(env, kind + where, kind == "port", 65535)
        want[kind].append(v)
        return text
    if main:
        lines.append("carbon-cache-host: " + put("host", "main"))
        lines.append("carbon-cache-port: " + put("port", "main"))
    found = {}
    for s in sections:
        found[s] = [(k, value(env, k + s, k == "port", 65535))
                    for k in ("host", "port", "name")]
        lines.append("[carbon-cache" + s + "]")
        for k, (text, v) in found[s]:
            lines.append("carbon-cache-" + k + " = " + text)
    for s in sorted(sections):
        for k, (text, v) in found[s]:
            want[k].append(v)
    arguments = []
    for name, short, number in CARBON:
        form = env.choice("form", forms)
        if form == "absent":
            continue
        kind = name[len("carbon-cache-"):]
        want[kind] = []
        for i in range(2 if kind == "host" else 1):
            arguments.extend(given(form, name, short, put(kind, "argument")))
    o = parse(env, arguments, lines, "long")
    for kind in ("host", "port", "name"):
        env.equal(list(o["carbon-cache-" + kind]), want[kind],
                  "carbon caches: " + kind)


def plugin(env, present):
    lines = ["[statsd]", "listen-port: 99"]
    items = []
    for k in ("rules", "listen-port", "other"):
        if env.flag(k):
            t = env.key(k, "A-Za-z0-9.%_/-")
            items.append((k, t))
    if present:
        lines.append("[plugin_sli]")
        for k, t in items:
            lines.append(k + " = " + t)
    o = parse(env, [], lines, "long")
    if present:
        env.equal(sorted(dict(o["plugin_sli"]).items()), sorted(items),
                  "plugin section")
    else:
        env.check("plugin_sli" not in o, "no plugin section")
    env.equal(o["listen-port"], 99, "plugin sections are not options")


def reserved(env, long_name, short):
    """No other option may be called config."""
    from txstatsd.service import OptionsGlue

    class Mine(OptionsGlue):
        optParameters = [["other", "z", 1, "help"],
                         [long_name, short, "default", "help"]]
    refused = False
    try:
        Mine()
    except ValueError:
        refused = True
    env.check(refused == (long_name == "config" or short == "c"),
              "config is reserved")


def generic(env, form):
    """Options of a class of one's own."""
    from txstatsd.service import OptionsGlue

    class Base(OptionsGlue):
        optParameters = [["from-base", "b", "x", "help"]]
        config_section = "mine"

    class Mine(Base):
        optParameters = [["number", "n", 5, "help", int],
                         ["real", "e", 1.5, "help", float],
                         ["text", "t", "default", "help"]]
    o = Mine()
    want = {"from-base": "x", "number": 5, "real": 1.5, "text": "default"}
    lines = ["[other]", "number: 77", "[mine]"]
    arguments = []
    for name, short in (("number", "n"), ("real", "e"), ("text", "t"),
                        ("from-base", "b")):
        for source in ("file", "arguments"):
            if source == "arguments" and name == "real":
                continue
            if not env.flag(source):
                continue
            if name == "real":
                text, v = env.number_text("v", -1000.0, 1000.0)
            else:
                text, v = value(env, "v", name == "number")
            want[name] = v
            if source == "file":
                lines.append(name + ": " + text)
            else:
                arguments.extend(given(form, name, short, text))
    path = env.set_file("/etc/mine.conf", "\n".join(lines) + "\n")
    o.parseOptions(arguments + ["--config", path])
    for name in want:
        env.equal(o[name], want[name], "value of " + name)


def wrong(env, where):
    """What is not a number is refused for a number."""
    from twisted.python import usage
    text = env.key("text", "g-z")
    env.assume(text != "inf")
    o = options(env)
    arguments = []
    if where == "file":
        path = env.set_file("/etc/txstatsd.conf", "[statsd]\nlisten-port: " +
                            text + "\n")
        arguments = ["--config", path]
    else:
        arguments = ["--listen-port", text]
    refused = False
    try:
        o.parseOptions(arguments)
    except (usage.UsageError, ValueError):
        refused = True
    env.check(refused, "not a number")


SCENARIOS = [(effective, {"names": [n], "forms": FORMS, "how": "long",
                          "extra": False}, "quick") for n in NAMES]
for i in range(len(NAMES)):
    pair = [NAMES[i], NAMES[(i + 5) % len(NAMES)]]
    SCENARIOS.append((effective, {"names": pair, "how": ["short", "last"][i % 2],
                                  "forms": ["absent", FORMS[1 + i % 4]],
                                  "extra": i % 3 == 0}, "quick"))
    for j in range(i):
        SCENARIOS.append((effective, {"names": [NAMES[i], NAMES[j]],
                                      "forms": ["absent", "long", "short"],
                                      "how": "long", "extra": False},
                          "thorough"))
SCENARIOS.append((effective, {"names": NAMES[:3], "forms": ["absent", "equals"],
                              "how": "none", "extra": False}, "quick"))
for n in ("listen-port", "prefix", "routing"):
    SCENARIOS.append((twice, {"name": n}, "quick"))
for s in ([], ["-a"], ["-b", "-a"], ["-a", "-b", "-c"], ["", "-z", "-10"]):
    for main in (False, True):
        SCENARIOS.append((destinations, {"sections": s, "main": main,
                                         "forms": ["absent", "long"]},
                          "quick"))
SCENARIOS.append((destinations, {"sections": ["-b", "-a"], "main": True,
                                 "forms": FORMS}, "quick"))
SCENARIOS.append((plugin, {"present": True}, "quick"))
SCENARIOS.append((plugin, {"present": False}, "quick"))
for l, s in (("config", "z"), ("config", "c"), ("cfg", "c"), ("cfg", "d")):
    SCENARIOS.append((reserved, {"long_name": l, "short": s}, "quick"))
for f in ("long", "short"):
    SCENARIOS.append((generic, {"form": f}, "quick"))
for w in ("file", "arguments"):
    SCENARIOS.append((wrong, {"where": w}, "quick"))
