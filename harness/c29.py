from hlib import *

BOUNDS = ("sequences of up to 4 (quick) or 6 (thorough) readings of two "
          "keys, each present or not, with arbitrary values in +-1e12, any "
          "of the readings failing; two reports side by side; the reports "
          "of the process and of the system over 3 readings; 120 readings with up to 20 "
          "failing in a row")
ASSUMES = ["a reading is a new mapping every time"]


class Reader(object):
    """Gives the reading the harness has prepared."""

    def __init__(self):
        self.reading = None
        self.calls = 0
        self.given = []
        self.func_name = self.__name__ = "reader"
        self.__doc__ = "Reads."

    def __call__(self, *args, **kwargs):
        self.calls += 1
        self.given.append((args, kwargs))
        if self.reading is None:
            raise RuntimeError("cannot read")
        return dict(self.reading)


class Book(object):
    """What the report must say."""

    def __init__(self, env):
        self.env = env
        self.last = None
        self.sums = {}
        self.first = {}
        self.gaps = {}

    def read(self, report, reader, reading):
        env = self.env
        reader.reading = reading
        if reading is None:
            try:
                got = report()
            except RuntimeError:
                got = {}
            env.check(len(got) == 0, "nothing from a failing reading")
            return
        got = report()
        expected = {}
        if self.last is not None:
            for k in reading:
                if k in self.last:
                    expected[k] = reading[k] - self.last[k]
        env.check(len(got) == len(expected), "a difference per known key")
        for k in expected:
            env.check(k in got, "difference reported")
            if k in got:
                env.equal(got[k], expected[k], "exact difference")
        # what is done with the report does not matter
        got.clear()
        self.last = reading


def reading_of(env, keys, whole):
    """One reading: any of the keys, any values."""
    out = {}
    for k in keys:
        if env.flag("present"):
            if whole:
                out[k] = env.int("value", 0, 10 ** 12)
            else:
                out[k] = env.real("value", -1000000000000.0,
                                  1000000000000.0)
    return out


def history(env, steps, keys, whole, named):
    from txstatsd.process import report_counters
    reader = Reader()
    report = report_counters(reader, 7, prefix="x")
    book = Book(env)
    names = ["a", "b"][:keys]
    if named:
        names[0] = env.key("key")
        for n in names[1:]:
            env.assume(names[0] != n)
    for i in range(steps):
        if env.flag("fails"):
            book.read(report, reader, None)
        else:
            book.read(report, reader, reading_of(env, names, whole))
    env.check(reader.calls == steps, "one reading per report")
    for args, kwargs in reader.given:
        env.check(args == (7,) and kwargs == {"prefix": "x"},
                  "read as configured")


def long_run(env, steps):
    """Many readings, many of them failing in a row."""
    from txstatsd.process import report_counters
    reader = Reader()
    report = report_counters(reader)
    book = Book(env)
    for i in range(steps):
        if 10 <= i % 40 < 30:
            book.read(report, reader, None)
        else:
            book.read(report, reader, {
                "a": env.real("value", -1000000.0, 1000000.0),
                "b%d" % (i % 9 // 5): env.int("whole", 0, 10 ** 12)})
    env.check(reader.calls == steps, "one reading per report")


def adding_up(env, steps):
    """With steady keys the differences add up to the overall change, also
    across failures."""
    from txstatsd.process import report_counters
    reader = Reader()
    report = report_counters(reader)
    total = 0
    values = []
    for i in range(steps):
        if env.flag("fails"):
            reader.reading = None
            try:
                report()
            except RuntimeError:
                pass
            continue
        values.append(env.real("value", -1000000.0, 1000000.0))
        reader.reading = {"a": values[-1]}
        got = report()
        if len(values) == 1:
            env.check(got == {}, "nothing at first")
        else:
            env.check(sorted(got) == ["a"], "then one difference")
            total = total + got.get("a", 0)
    env.reached("all read")
    if values:
        env.equal(total, values[-1] - values[0], "the overall change")


def apart(env):
    """Two reports do not know of each other."""
    from txstatsd.process import report_counters
    readers = [Reader(), Reader()]
    books = [Book(env), Book(env)]
    if env.flag("same function"):
        readers[1] = readers[0]
    reports = [report_counters(readers[0]), report_counters(readers[1])]
    for i in range(4):
        k = env.choice("report", [0, 1])
        books[k].read(reports[k], readers[k], reading_of(env, ["a"], False))


class Tuple(object):
    """Named values of a psutil reading."""

    def __init__(self, values):
        self.values = values

    def _asdict(self):
        return dict(self.values)


class Process(Fake):
    def __init__(self, owner):
        self.owner = owner

    def cpu_times(self):
        self.owner.ask()
        return (self.owner.values["user"], self.owner.values["system"])

    def io_counters(self):
        self.owner.ask()
        v = self.owner.values
        return (v["reads"], v["writes"], v["rbytes"], v["wbytes"])


class System(object):
    """Stands in for psutil."""

    def __init__(self):
        self.values = None
        self.process = Process(self)

    def ask(self):
        if self.values is None:
            raise RuntimeError("cannot read")

    def __call__(self, name, *args, **kwargs):
        if name == "Process":
            return self.process
        if name == "cpu_times":
            self.ask()
            return Tuple({"user": self.values["user"],
                          "idle": self.values["system"]})
        raise HarnessGap("psutil has no " + name)


FIELDS = {
    "cpu": {"proc.cpu.user": "user", "proc.cpu.system": "system"},
    "io": {"proc.io.read.count": "reads", "proc.io.write.count": "writes",
           "proc.io.read.bytes": "rbytes", "proc.io.write.bytes": "wbytes"},
    "system": {"sys.cpu.user": "user", "sys.cpu.idle": "system"},
    "net": {"sys.net.eth0.bytes.received": "reads",
            "sys.net.eth0.packets.received": "writes",
            "sys.net.eth0.bytes.sent": "rbytes",
            "sys.net.eth0.packets.sent": "wbytes"},
}


def wired(env, which):
    """The reports of the process and of the system are differences."""
    from txstatsd import process
    system = System()
    env.set_psutil(system)
    report = {"cpu": process.COUNTER_STATS[0], "io": process.IO_STATS[0],
              "system": process.SYSTEM_STATS[3],
              "net": process.SYSTEM_STATS[2]}[which]
    fields = FIELDS[which]
    last = None
    for turn in range(4):
        fails = turn and env.flag("fails")
        values = {}
        texts = {}
        for f in sorted(fields.values()):
            if which == "net":
                texts[f], values[f] = env.number_text(f, 0, 10 ** 12,
                                                      whole=True)
            else:
                values[f] = env.real(f, 0.0, 1000000000000.0)
        if which == "net":
            env.set_file("/proc/net/dev", "garbage" if fails else
                         "Inter-| Receive | Transmit\n"
                         " face |bytes packets|bytes packets\n"
                         "  eth0: " + texts["reads"] + " " + texts["writes"] +
                         " " + texts["rbytes"] + " " + texts["wbytes"] + "\n")
        system.values = None if fails else values
        if fails:
            try:
                got = report()
            except (RuntimeError, IndexError, ValueError):
                got = {}
            env.check(len(got) == 0, "nothing from a failing reading")
            continue
        got = report()
        if last is None:
            env.check(got == {}, "nothing at first")
        else:
            env.check(len(got) == len(fields), "one difference each")
            for name in fields:
                env.check(name in got, "difference reported")
                if name in got:
                    env.equal(got[name], values[fields[name]] -
                              last[fields[name]], "exact difference")
        last = values


SCENARIOS = [
    (history, {"steps": 4, "keys": 1, "whole": True, "named": False},
     "quick"),
    (history, {"steps": 3, "keys": 2, "whole": False, "named": False},
     "quick"),
    (history, {"steps": 3, "keys": 2, "whole": False, "named": True},
     "quick"),
    (history, {"steps": 4, "keys": 2, "whole": False, "named": False},
     "thorough"),
    (history, {"steps": 6, "keys": 1, "whole": False, "named": False},
     "thorough"),
    (adding_up, {"steps": 5}, "quick"),
    (long_run, {"steps": 120}, "quick"),
    (adding_up, {"steps": 9}, "thorough"),
    (apart, {}, "quick"),
    (wired, {"which": "cpu"}, "quick"),
    (wired, {"which": "io"}, "quick"),
    (wired, {"which": "system"}, "quick"),
    (wired, {"which": "net"}, "quick"),
]
