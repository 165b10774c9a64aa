from hlib import *

BOUNDS = ("readings of any value; up to 4 (thorough 6) connections of any "
          "type in any of five states; up to 3 processors; pools and reactors "
          "of up to 3 of everything; 401 connections and 130 processors; every report by name, alone and with "
          "others, over up to 3 minutes of the assembled service")
ASSUMES = ["psutil 2.0 to 3.4, as required: named memory readings, plain "
           "tuples of two processor times and four io counters",
           "the watchdog, which runs in a thread, is judged in C31"]

STATES = ["ESTABLISHED", "SYN_SENT", "CLOSING", "NONE", "TIME_WAIT"]


class Memory(object):
    """psutil's named tuple."""

    def __init__(self, rss, vms):
        self.rss = rss
        self.vms = vms

    def __iter__(self):
        return iter([self.rss, self.vms])

    def __len__(self):
        return 2

    def __getitem__(self, i):
        return [self.rss, self.vms][i]


class Times(object):
    def __init__(self, values):
        self.values = values

    def _asdict(self):
        return dict(self.values)


class Process(object):
    """The readings of a process, as the harness sets them."""
    num_threads = None
    io_counters = None
    connections = None

    def __init__(self, env):
        self.env = env
        self.rss = env.int("rss", 0, 10 ** 13)
        self.vms = env.int("vms", 0, 10 ** 13)
        self.percent = env.real("cpu", 0.0, 6400.0)
        self.memory = env.real("memory", 0.0, 100.0)

    def memory_info(self):
        return Memory(self.rss, self.vms)

    def cpu_percent(self, interval=None):
        return self.percent

    def memory_percent(self):
        return self.memory

    def cpu_times(self):
        return (self.user, self.system)


def exactly(env, got, want, label):
    env.check(len(got) == len(want), label + ": nothing else")
    for name in sorted(want):
        env.check(name in got, label + ": reported")
        if name in got:
            env.equal(got[name], want[name], label + ": value")


def report_of(env, process):
    from txstatsd.process import ProcessReport
    return ProcessReport(process=process)


def memory(env, prefixed):
    p = Process(env)
    prefix = env.key("prefix", "a-z.") if prefixed else "proc"
    want = {prefix + ".cpu.percent": p.percent,
            prefix + ".memory.percent": p.memory,
            prefix + ".memory.vsize": p.vms,
            prefix + ".memory.rss": p.rss}
    if env.flag("threads"):
        n = env.int("threads", 1, 100000)
        p.num_threads = lambda: n
        want[prefix + ".threads"] = n
    r = report_of(env, p)
    got = r.get_memory_and_cpu(prefix) if prefixed else r.get_memory_and_cpu()
    exactly(env, got, want, "memory")


def counters(env, prefixed):
    p = Process(env)
    p.user = env.real("user", 0.0, 1e9)
    p.system = env.real("system", 0.0, 1e9)
    prefix = env.key("prefix", "a-z.") if prefixed else "proc"
    r = report_of(env, p)
    got = r.get_cpu_counters(prefix) if prefixed else r.get_cpu_counters()
    exactly(env, got, {prefix + ".cpu.user": p.user,
                       prefix + ".cpu.system": p.system}, "times")
    prefix = env.key("prefix", "a-z.") if prefixed else "proc.io"
    want = {}
    if env.flag("io"):
        v = [env.int("io%d" % i, 0, 10 ** 13) for i in range(4)]
        p.io_counters = lambda: tuple(v)
        want = {prefix + ".read.count": v[0], prefix + ".write.count": v[1],
                prefix + ".read.bytes": v[2], prefix + ".write.bytes": v[3]}
    got = r.get_io_counters(prefix) if prefixed else r.get_io_counters()
    exactly(env, got, want, "io")


def connections(env, number, prefixed):
    """As many in each state as there are."""
    import socket
    p = Process(env)
    prefix = env.key("prefix", "a-z.") if prefixed else "proc.net"
    rows = []
    want = {}
    for i in range(number):
        state = env.choice("state", STATES)
        stream = env.flag("stream")
        rows.append((3 + i, 2, socket.SOCK_STREAM if stream else
                     socket.SOCK_DGRAM, ("10.0.0.1", 1000 + i),
                     ("10.0.0.2", 80) if i % 2 else (), state))
        if stream:
            name = prefix + ".status." + state.lower()
            want[name] = want.get(name, 0) + 1
    if number or env.flag("offered"):
        p.connections = lambda: list(rows)
    r = report_of(env, p)
    for i in range(2):
        got = r.get_net_stats(prefix) if prefixed else r.get_net_stats()
        exactly(env, got, want, "connections")


def crowd(env, number):
    """Many connections and processors."""
    import socket
    p = Process(env)
    rows = []
    want = {}
    for i in range(number):
        state = STATES[i * i % 7 % 5]
        stream = i % 11 != 3
        rows.append((3 + i, 2, socket.SOCK_STREAM if stream else
                     socket.SOCK_DGRAM, ("10.0.0.1", 1000 + i),
                     ("10.0.0.2", 80), state))
        if stream:
            name = "proc.net.status." + state.lower()
            want[name] = want.get(name, 0) + 1
    # one more of any
    state = env.choice("state", STATES)
    rows.append((3, 2, socket.SOCK_STREAM, (), (), state))
    name = "proc.net.status." + state.lower()
    want[name] = want.get(name, 0) + 1
    p.connections = lambda: list(rows)
    exactly(env, report_of(env, p).get_net_stats(), want, "connections")

    times = []
    want = {}
    for i in range(130):
        v = {"user": env.real("user", 0.0, 1e9) if i % 40 == 9 else i * 1.5,
             "idle": i * 2.5}
        times.append(Times(v))
        for m in sorted(v):
            want["sys.cpu.%03d." % i + m] = v[m]
    env.set_psutil(lambda name, *args, **kw: times)
    from txstatsd.process import report_system_stats
    exactly(env, report_system_stats(percpu=True), want, "processors")


def current(env):
    """The report looks at this very process, and only once."""
    import os
    made = []
    p = Process(env)

    def psutil(name, *args, **kw):
        if name != "Process":
            raise HarnessGap("psutil has no " + name)
        made.append(args)
        return p
    env.set_psutil(psutil)
    from txstatsd.process import PROCESS_STATS
    env.check(made == [], "not before it is asked")
    for i in range(2):
        got = PROCESS_STATS[0]()
        exactly(env, got, {"proc.cpu.percent": p.percent,
                           "proc.memory.percent": p.memory,
                           "proc.memory.vsize": p.vms,
                           "proc.memory.rss": p.rss}, "memory")
    env.check(made in ([(os.getpid(),)], [()]), "this process")


def processors(env, number, prefixed):
    """Times of all processors, or of each."""
    rows = []
    want = {}
    prefix = env.key("prefix", "a-z.") if prefixed else "sys"
    percpu = number > 0
    for i in range(number or 1):
        v = dict((m, env.real(m, 0.0, 1e9)) for m in ("user", "idle"))
        rows.append(Times(v))
        for m in sorted(v):
            name = prefix + ".cpu." + ("%03d." % i if percpu else "") + m
            want[name] = v[m]

    def psutil(name, *args, **kw):
        if name != "cpu_times":
            raise HarnessGap("psutil has no " + name)
        each = args[0] if args else kw.get("percpu", False)
        env.check(bool(each) == percpu, "asks for what it wants")
        return rows if percpu else rows[0]
    env.set_psutil(psutil)
    from txstatsd.process import report_system_stats
    kw = {}
    if prefixed:
        kw["prefix"] = prefix
    if percpu:
        kw["percpu"] = True
    exactly(env, report_system_stats(**kw), want, "processors")


class Queue(object):
    size = 0

    def qsize(self):
        return self.size


class Pool(Fake):
    def __init__(self):
        self.q = Queue()
        self.threads = []
        self.waiters = []
        self.working = []


def pool(env, prefixed):
    """A pool and a reactor, as they are when asked."""
    from txstatsd.process import report_threadpool_stats, report_reactor_stats
    p = Pool()
    reactor = Selecting()
    tp, rp = "threadpool", "reactor"
    if prefixed:
        tp, rp = env.key("tp", "a-z."), env.key("rp", "a-z.")
        threads = report_threadpool_stats(p, tp)
        files = report_reactor_stats(reactor, rp)
    else:
        threads = report_threadpool_stats(p)
        files = report_reactor_stats(reactor)
    for i in range(2):
        p.q.size = env.int("queue", 0, 100000)
        p.threads = [None] * env.choice("threads", [0, 3])
        p.waiters = [None] * env.choice("waiters", [0, 1])
        p.working = [None] * env.choice("working", [0, 2])
        exactly(env, threads(), {tp + ".queue": p.q.size,
                                 tp + ".threads": len(p.threads),
                                 tp + ".waiters": len(p.waiters),
                                 tp + ".working": len(p.working)}, "pool")
        reactor.readers = [None] * env.choice("readers", [0, 3])
        reactor.writers = [None] * env.choice("writers", [0, 2])
        exactly(env, files(), {rp + ".readers": len(reactor.readers),
                               rp + ".writers": len(reactor.writers)},
                "reactor")


class Selecting(FakeReactor):
    def __init__(self, now=0.0):
        FakeReactor.__init__(self, now)
        self.readers = []
        self.writers = []

    def getReaders(self):
        return self.readers

    def getWriters(self):
        return self.writers


NAMES = {
    "process": ["proc.cpu.percent", "proc.memory.percent",
                "proc.memory.vsize", "proc.memory.rss"],
    "counter": ["proc.cpu.user", "proc.cpu.system"],
    "net": ["proc.net.status.established"],
    "io": ["proc.io.read.count", "proc.io.write.count",
           "proc.io.read.bytes", "proc.io.write.bytes"],
    "system": ["sys.mem.MemTotal", "sys.loadavg.oneminute",
               "sys.loadavg.fiveminutes", "sys.loadavg.fifthteenminutes",
               "sys.net.eth0.bytes.received", "sys.net.eth0.bytes.sent",
               "sys.net.eth0.packets.received", "sys.net.eth0.packets.sent",
               "sys.cpu.user"],
}
DIFFERENCES = ("proc.cpu.u", "proc.cpu.s", "proc.io", "sys.net", "sys.cpu")


class System(object):
    """Everything a report may ask for, rising every minute."""

    def __init__(self, env):
        import socket
        self.env = env
        self.p = Process(env)
        self.p.io_counters = self.io
        self.stream = socket.SOCK_STREAM
        self.p.connections = self.connections
        self.step = env.int("step", 1, 1000000)
        self.set(0)

    def set(self, minute):
        self.minute = minute
        v = self.step * minute
        self.p.user = 5 + v
        self.p.system = 7 + 2 * v

    def io(self):
        v = self.step * self.minute
        return (v, 2 * v, 3 * v, 4 * v)

    def connections(self):
        return [(3, 2, self.stream, (), (), "ESTABLISHED")]

    def __call__(self, name, *args, **kw):
        if name == "Process":
            return self.p
        if name == "cpu_times":
            return Times({"user": 5 + self.step * self.minute})
        raise HarnessGap("psutil has no " + name)


def scheduled(env, mode, reports):
    """The reports asked for arrive as gauges of the instance, every
    minute."""
    from twisted.python import log
    from txstatsd.service import StatsDOptions, createService
    o = StatsDOptions()
    o["statsd-compliance"] = 1 if mode == COMPLIANT else 0
    o["instance-name"] = "inst"
    o["prefix"] = "p"
    o["report"] = reports
    # flushes after every report
    o["flush-interval"] = 61000
    env.set_plugins([])
    env.set_random(lambda: 0.5)
    system = System(env)
    env.set_psutil(system)
    env.set_file("/proc/meminfo", "MemTotal: 17 kB\n")
    env.set_file("/proc/loadavg", "1.5 2.5 3.5 1/80 11206\n")
    env.set_file("/proc/net/dev",
                 "Inter-| Receive | Transmit\n"
                 " face |bytes packets|bytes packets\n"
                 "  eth0: 1 2 3 4\n")
    reactor = Selecting(1000)
    reactor.readers = [None] * env.choice("readers", [1, 4])
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    root = createService(o)
    root.startService()
    carbon = env.carbon_managers()[-1]
    asked = [] if reports is None else \
        [n.strip() for n in reports.split(",")]
    want = []
    if reports is not None:
        want = ["reactor.readers", "reactor.writers"]
    for n in asked:
        want.extend(NAMES.get(n, []))
    twin = make(env, mode, lambda: 1000.0, "p", "p.inst.")
    for i in range(len(want)):
        twin.process("inst." + want[i] + ":" + str(i) + ".25|g")
    places = {}
    for n, v, t in flush(twin):
        for i in range(len(want)):
            if v == i + 0.25 and n not in places:
                places[n] = want[i]
    twin = make(env, mode, lambda: 1000.0, "p", "p.inst.")
    twin.process("other:9.125|g")
    own = [n for n, v, t in flush(twin)]
    for minute in range(1, 3):
        system.set(minute)
        reactor.run_calls(1000 + 60 * minute)
        reactor.now = 1000 + 60 * minute
        sent = len(carbon.sent)
        reactor.run_calls(1000 + 61 * minute + 0.001)
        got = {}
        for n, (t, v) in carbon.sent[sent:]:
            if n not in own:
                got[n] = v
        found = []
        for n in got:
            env.check(n in places, "nothing but what was asked for")
            if n in places and places[n] not in found:
                found.append(places[n])
        due = [n for n in want
               if minute > 1 or not n.startswith(DIFFERENCES)]
        for n in due:
            env.check(n in found, "reported every minute")
        values = {"reactor.readers": len(reactor.readers),
                  "reactor.writers": 0,
                  "proc.memory.rss": system.p.rss,
                  "proc.memory.vsize": system.p.vms,
                  "proc.cpu.user": system.step,
                  "proc.cpu.system": 2 * system.step,
                  "proc.net.status.established": 1,
                  "proc.io.write.bytes": 4 * system.step,
                  "sys.mem.MemTotal": 17 * 1024,
                  "sys.loadavg.fiveminutes": 2.5,
                  "sys.cpu.user": system.step,
                  "sys.net.eth0.bytes.sent": 0}
        for n in sorted(got):
            if n in places and places[n] in values:
                env.close(got[n], values[places[n]], "the value")
    root.stopService()
    n = len(carbon.sent)
    reactor.run_calls(2000)
    env.check(len(carbon.sent) == n, "no report once stopped")


SCENARIOS = [(current, {}, "quick"), (crowd, {"number": 400}, "quick")]
for prefixed in (False, True):
    SCENARIOS.append((memory, {"prefixed": prefixed}, "quick"))
    SCENARIOS.append((counters, {"prefixed": prefixed}, "quick"))
    SCENARIOS.append((pool, {"prefixed": prefixed}, "quick"))
    for n in range(4):
        SCENARIOS.append((processors, {"number": n, "prefixed": prefixed},
                          "quick"))
    SCENARIOS.append((connections, {"number": 2, "prefixed": prefixed},
                      "quick"))
SCENARIOS.append((connections, {"number": 0, "prefixed": False}, "quick"))
SCENARIOS.append((connections, {"number": 3, "prefixed": False}, "quick"))
SCENARIOS.append((connections, {"number": 4, "prefixed": False}, "thorough"))
for mode in (COMPLIANT, CONFIGURABLE):
    for reports in (None, "process", "counter,nothing", "io , net", "system",
                    "net, process,counter"):
        SCENARIOS.append((scheduled, {"mode": mode, "reports": reports},
                          "quick"))
    SCENARIOS.append((scheduled, {"mode": mode, "reports":
                                  "system,process , io,net,counter"},
                      "thorough"))
