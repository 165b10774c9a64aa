from hlib import *

BOUNDS = ("histories of 4 (quick) or 6 (thorough) steps: messages of every "
          "kind to two names, rejected messages and flushes, with arbitrary "
          "times spent in processing and in flushing; "
          "2400 messages to 480 metrics, once")

KINDS = ["c", "g", "m", "ms", "p"]
PER_KIND = ["counter", "timer", "gauge", "meter", "plugin"]
OF = {"c": "counter", "ms": "timer", "g": "gauge", "m": "meter",
      "p": "plugin"}


class Slow(object):
    """A plugin whose metrics take a known time to process and to flush."""
    name = "slow"
    metric_type = "p"

    def __init__(self, env, clock):
        self.env = env
        self.clock = clock
        self.processing = 0
        self.flushing = 0
        self.reports = 1

    def build_metric(self, prefix, name, wall_time_func=None):
        return SlowMetric(self, name)

    def configure(self, options):
        pass


class SlowMetric(object):
    def __init__(self, owner, name):
        self.owner = owner
        self.name = name

    def process(self, fields):
        d = self.owner.env.real("processing", 0.0, 100.0)
        self.owner.clock.now = self.owner.clock.now + d
        self.owner.processing = self.owner.processing + d

    def flush(self, interval, timestamp):
        d = self.owner.env.real("flushing", 0.0, 100.0)
        self.owner.clock.now = self.owner.clock.now + d
        self.owner.flushing = self.owner.flushing + d
        # none, one or two datapoints
        return [("slow." + self.name, i, timestamp)
                for i in range(self.owner.reports)]


def history(env, mode, steps, kinds):
    clock = Clock(1000.0)
    slow = Slow(env, clock)
    slow.reports = 2
    if "p" in kinds and len(kinds) < len(KINDS):
        slow.reports = env.choice("reports", [0, 1, 2])
    p = make(env, mode, clock, plugins=[slow])
    live = {}
    for k in KINDS:
        live[k] = []
    received = {}
    options = kinds + ["bad", "flush"]
    for i in range(steps):
        step = env.choice("step", options)
        clock.now = clock.now + 1.5
        if step == "flush":
            check(env, p, mode, clock, slow, live, received)
            continue
        if step == "bad":
            p.process(["a:1|zz", "a|c", "a:1|c|1|2", "a:1"][i % 4])
            continue
        name = env.choice("name", ["a", "b"]) + "." + step + "x"
        p.process(name + ":1|" + step)
        received[step] = received.get(step, 0) + 1
        if name not in live[step]:
            live[step].append(name)
    check(env, p, mode, clock, slow, live, received)
    check(env, p, mode, clock, slow, live, received)


def check(env, p, mode, clock, slow, live, received):
    slow.flushing = 0
    clock.now = clock.now + 10.0
    out = flush(p)
    total = 0
    durations = 0
    for kind in PER_KIND:
        n = one(env, out, "statsd.flush.%s.count" % kind, "flush count")
        d = one(env, out, "statsd.flush.%s.duration" % kind, "flush duration")
        if n is None or d is None:
            return
        expected = 0
        for k in KINDS:
            if OF[k] == kind:
                expected = len(live[k])
        env.equal(n, expected, "number of %s metrics flushed" % kind)
        total = total + n
        durations = durations + d
        env.equal(d, slow.flushing * 1000 if kind == "plugin" else 0,
                  "time spent flushing")
    stats = one(env, out, "statsd.numStats", "numStats")
    if stats is not None:
        env.equal(stats, total, "numStats is the sum")
    env.equal(p.last_flush_duration, durations, "last flush duration")
    spent = 0
    for k in KINDS:
        counts = named(out, "statsd.receive.%s.count" % k)
        times = named(out, "statsd.receive.%s.duration" % k)
        n = received.get(k, 0)
        if not n:
            env.check(len(counts) == 0 and len(times) == 0,
                      "nothing received, nothing said")
            continue
        env.check(len(counts) == 1 and len(times) == 1, "receive statistics")
        if len(counts) != 1 or len(times) != 1:
            continue
        env.equal(counts[0], n, "messages received")
        env.equal(times[0], slow.processing * 1000 if k == "p" else 0,
                  "time spent processing")
        spent = spent + times[0]
    env.equal(p.last_process_duration, spent, "last process duration")
    others = [n for n, v, t in out if n.startswith("statsd.receive.")]
    env.check(len(others) == 2 * len([k for k in KINDS if received.get(k)]),
              "no other receive statistics")
    received.clear()
    slow.processing = 0
    if mode == COMPLIANT:
        live["ms"] = []
    # nothing but what the counts account for
    names = []
    for n, v, t in body(out):
        for k in KINDS:
            for base in ("a." + k + "x", "b." + k + "x"):
                if base in n and base not in names:
                    names.append(base)
    env.check(len(names) <= total, "every metric is accounted")


def arriving(env, mode):
    """Messages that arrive while the summary is drained are counted in the
    next one."""
    clock = Clock(1000.0)
    slow = Slow(env, clock)
    p = make(env, mode, clock, plugins=[slow])
    p.process("a.c:1|c")
    p.process("a.p:1|p")
    sent = {"c": 1, "p": 1}
    late = env.choice("kind", KINDS)
    place = env.choice("place", range(24))
    outs = []
    for turn in (0, 1):
        out = []
        gen = iter(p.flush(10000, 90))
        i = 0
        while True:
            if turn == 0 and place == i:
                p.process("b." + late + ":1|" + late)
                sent[late] = sent.get(late, 0) + 1
            try:
                out.append(gen.next())
            except StopIteration:
                break
            i += 1
        outs.append(out)
        env.check(p.last_process_duration >= 0, "duration known")
        clock.now = clock.now + 10.0
    got = {}
    spent = 0
    for out in outs:
        for k in KINDS:
            for n, v, t in out:
                if n == "statsd.receive.%s.count" % k:
                    got[k] = got.get(k, 0) + v
                if n == "statsd.receive.%s.duration" % k:
                    spent = spent + v
    for k in KINDS:
        env.equal(got.get(k, 0), sent.get(k, 0), "each counted once")
    env.equal(spent, slow.processing * 1000, "their time counted once")


def crowd(env, mode, names, rounds):
    """Many messages of many metrics."""
    clock = Clock(1000.0)
    p = make(env, mode, clock)
    key = env.key("name", "a-f")
    for r in range(rounds):
        for i in range(names):
            for k in ("c", "g", "m", "ms"):
                p.process("%s%d:1|%s" % (k, i, k))
        p.process(key + ":1|c")
    clock.now = clock.now + 10.0
    out = flush(p)
    for kind in PER_KIND:
        n = one(env, out, "statsd.flush.%s.count" % kind, "flush count")
        env.equal(n, names + 1 if kind == "counter" else
                  0 if kind == "plugin" else names,
                  "number of %s metrics flushed" % kind)
    env.equal(one(env, out, "statsd.numStats", "numStats"), 4 * names + 1,
              "numStats is the sum")
    for k in ("c", "g", "m", "ms"):
        env.equal(one(env, out, "statsd.receive.%s.count" % k, "received"),
                  rounds * (names + (1 if k == "c" else 0)),
                  "messages received")


SCENARIOS = []
for m in (COMPLIANT, CONFIGURABLE):
    SCENARIOS.append((history, {"mode": m, "steps": 3, "kinds": KINDS},
                      "quick"))
    for a, b in (("c", "p"), ("g", "ms"), ("m", "p"), ("ms", "p")):
        SCENARIOS.append((history, {"mode": m, "steps": 4, "kinds": [a, b]},
                          "quick"))
        SCENARIOS.append((history, {"mode": m, "steps": 6, "kinds": [a, b]},
                          "thorough"))
    SCENARIOS.append((history, {"mode": m, "steps": 4, "kinds": KINDS},
                      "thorough"))
    SCENARIOS.append((crowd, {"mode": m, "names": 120, "rounds": 5}, "quick"))
    SCENARIOS.append((arriving, {"mode": m}, "quick"))
