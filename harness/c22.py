from hlib import *

BOUNDS = ("1 or 2 hash functions with any tables, 2 or 3 buckets, up to 3 "
          "(quick) or 4 (thorough) items out of 2 or 3 at any non-decreasing "
          "times, any window start; the reporter with its 32 hash functions "
          "of 32 buckets, up to 3 items at any times; one character with any "
          "two table entries, and texts of up to 300 characters")
ASSUMES = ["items are single characters (the hash of a longer text is a "
           "function of it too)",
           "times are later than a day after the epoch",
           "hashes end in at most one zero bit more than there are buckets"]

LETTERS = "ab"


class Tables(object):
    """The same random tables whenever they are drawn from the start."""

    def __init__(self, env, buckets, letters):
        self.env = env
        self.buckets = buckets
        self.letters = letters
        self.drawn = 0
        self.known = {}
        env.set_randint(self)

    def __call__(self, lo, hi):
        k = self.drawn
        self.drawn += 1
        if chr(k % 256) not in self.letters:
            return lo
        if k not in self.known:
            t = self.env.int("entry%d" % k, 0, 0xFFFFFFFE)
            self.env.assume(self.env.either(
                t == 0, t % 2 ** (self.buckets + 1) != 0))
            self.known[k] = t
        return self.known[k]


class Expected(object):
    """Last time each bucket was touched, and the estimate from it."""

    def __init__(self, hashes, buckets):
        self.hashes = hashes
        self.buckets = buckets
        self.seen = []
        self.known = {}

    def bucket(self, i, item):
        if (i, item) not in self.known:
            v = self.hashes[i].hash(item)
            n = 0
            if v != 0:
                while n < self.buckets - 1 and (v >> n) % 2 == 0:
                    n += 1
            self.known[i, item] = n
        return self.known[i, item]

    def add(self, when, item):
        self.seen.append((when, item))

    def estimate(self, since):
        total = 0
        for i in range(len(self.hashes)):
            run = 0
            while run < self.buckets:
                touched = False
                for when, item in self.seen:
                    if self.bucket(i, item) == run and when > since:
                        touched = True
                if not touched:
                    break
                run += 1
            total += run
        return int(2 ** (total / float(len(self.hashes))) / 0.77351)


def counter(env, hashes, buckets):
    from txstatsd.metrics.distinctmetric import (SBoxHash,
                                                 SlidingDistinctCounter)
    tables = Tables(env, buckets, LETTERS)
    own = [SBoxHash() for i in range(hashes)]
    tables.drawn = 0
    c = SlidingDistinctCounter(hashes, buckets)
    if tables.drawn != 256 * hashes:
        env.gap("hash functions draw their tables otherwise")
    return c, Expected(own, buckets)


def moment(env, after=None):
    t = env.real("when", 90000.0, 2000000000.0)
    if after is not None:
        env.assume(t >= after)
    return t


def estimates(env, hashes, buckets, items):
    c, e = counter(env, hashes, buckets)
    env.equal(c.distinct(), 1, "nothing seen")
    now = None
    for i in range(items):
        now = moment(env, now)
        item = env.choice("item", list(LETTERS))
        c.add(now, item)
        e.add(now, item)
    since = env.real("since", 0.0, 2000000000.0)
    env.equal(c.distinct(since), e.estimate(since), "in the window")
    env.equal(c.distinct(), e.estimate(0), "of all time")


def laws(env, hashes, buckets, items):
    c, e = counter(env, hashes, buckets)
    since = env.real("since", 0.0, 2000000000.0)
    later = env.real("later", 0.0, 2000000000.0)
    env.assume(since <= later)
    now = None
    before = c.distinct(since)
    for i in range(items):
        now = moment(env, now)
        item = env.choice("item", list(LETTERS))
        c.add(now, item)
        after = c.distinct(since)
        env.check(before <= after, "never less")
        env.check(c.distinct(later) <= after, "shorter window, no more")
        env.check(after <= c.distinct(), "no window, no less")
        c.add(now, item)
        env.check(c.distinct(since) == after, "again at the same time")
        before = after


def order(env, hashes, buckets):
    """Items of one moment, in either order."""
    from txstatsd.metrics.distinctmetric import SlidingDistinctCounter
    a, e = counter(env, hashes, buckets)
    tables = Tables(env, buckets, LETTERS)
    tables.known = {}
    b, f = counter(env, hashes, buckets)
    # the same hash functions in both
    for i in range(hashes):
        for x in LETTERS:
            env.assume(e.hashes[i].hash(x) == f.hashes[i].hash(x))
    early = moment(env)
    now = moment(env, early)
    since = env.real("since", 0.0, 2000000000.0)
    for c in (a, b):
        c.add(early, env.choice("first", ["a"]))
    for x in "ab":
        a.add(now, x)
    for x in "ba":
        b.add(now, x)
    env.equal(a.distinct(since), b.distinct(since), "order does not matter")


def apart(env, lengths):
    """Items that differ in one character only are different items."""
    from txstatsd.metrics.distinctmetric import SBoxHash
    drawn = []

    def draw(lo, hi):
        drawn.append(1)
        return lo + (2654435761 * len(drawn) + 12345) % (hi - lo + 1)
    env.set_randint(draw)
    h = SBoxHash()
    n = env.choice("length", lengths)
    place = env.choice("place", sorted(set([0, 1, n // 2, n - 2, n - 1])))
    a = "x" * place + "a" + "y" * (n - place - 1)
    b = "x" * place + "b" + "y" * (n - place - 1)
    env.check(h.hash(a) == h.hash(a), "always hashed alike")
    env.check(h.hash(a) != h.hash(b), "hashed apart")


def entries(env):
    """The hash of a character tells its table entries apart."""
    from txstatsd.metrics.distinctmetric import SBoxHash
    drawn = []
    first = env.int("first", 0, 0xFFFFFFFE)
    second = env.int("second", 0, 0xFFFFFFFE)
    env.assume(first != second)

    def draw(lo, hi):
        drawn.append(1)
        k = (len(drawn) - 1) % 256
        if chr(k) == "a":
            return first
        if chr(k) == "b":
            return second
        return hi if chr(k) == "c" else lo
    env.set_randint(draw)
    h = SBoxHash()
    env.check(h.hash("a") != h.hash("b"), "hashed apart")
    env.check(h.hash("ca") != h.hash("cb"), "hashed apart at the end")
    env.check(h.hash("ac") != h.hash("bc"), "hashed apart at the start")
    env.check(h.hash("a") >= 0, "not negative")


def report(env, via, items):
    """What a flush reports: every hash function has the same table."""
    from txstatsd.metrics.distinctmetric import SBoxHash, \
        DistinctMetricReporter
    table = {}
    drawn = []

    def draw(lo, hi):
        drawn.append(1)
        k = (len(drawn) - 1) % 256
        if chr(k) == "a":
            return 1
        if chr(k) == "b":
            return 2
        if chr(k) == "c":
            return 4
        return 8
    env.set_randint(draw)
    own = SBoxHash()
    clock = Clock(moment(env))
    env.set_time(clock)
    if via == "plugin":
        from twisted.plugins.distinct_plugin import DistinctMetricFactory
        p = make(env, CONFIGURABLE, clock, prefix="pre",
                 plugins=[DistinctMetricFactory()])
        mark = lambda item: p.process("visitors:" + item + "|pd")
        flushed = lambda: [x for x in flush(p)
                           if x[0].startswith("pre.visitors")]
        name = "pre.visitors"
    else:
        prefix = env.choice("prefix", ["", "pre"])
        r = DistinctMetricReporter("visitors", clock, prefix)
        mark = lambda item: r.process([item, "pd"])
        flushed = lambda: r.flush(10, 1234)
        name = "pre.visitors" if prefix else "visitors"
    e = Expected([own], 32)
    n = 1 + env.choice("more", list(range(items)))
    for i in range(n):
        if i:
            clock.now = moment(env, clock.now)
        item = env.choice("item", ["a", "b", "c"][:items])
        mark(item)
        e.add(clock.now, item)
    clock.now = moment(env, clock.now)
    out = flushed()
    env.check(len(out) == 4, "four datapoints")
    for suffix, window in ((".count", None), (".count_1min", 60),
                           (".count_1hour", 3600), (".count_1day", 86400)):
        v = one(env, out, name + suffix, suffix)
        since = 0 if window is None else clock.now - window
        if v is not None:
            env.equal(v, e.estimate(since), "estimate" + suffix)
    if via != "plugin":
        for m, v, t in out:
            env.equal(t, 1234, "at the time of the flush")


SCENARIOS = [
    (estimates, {"hashes": 1, "buckets": 2, "items": 3}, "quick"),
    (estimates, {"hashes": 2, "buckets": 2, "items": 2}, "quick"),
    (estimates, {"hashes": 1, "buckets": 3, "items": 2}, "quick"),
    (estimates, {"hashes": 2, "buckets": 2, "items": 3}, "thorough"),
    (estimates, {"hashes": 1, "buckets": 3, "items": 4}, "thorough"),
    (laws, {"hashes": 1, "buckets": 2, "items": 2}, "quick"),
    (laws, {"hashes": 2, "buckets": 2, "items": 2}, "thorough"),
    (order, {"hashes": 1, "buckets": 2}, "quick"),
    (order, {"hashes": 2, "buckets": 2}, "thorough"),
    (apart, {"lengths": [1, 2, 3, 9, 20]}, "quick"),
    (apart, {"lengths": [40, 80, 300]}, "quick"),
    (entries, {}, "quick"),
    (report, {"via": "plugin", "items": 2}, "quick"),
    (report, {"via": "reporter", "items": 2}, "quick"),
    (report, {"via": "reporter", "items": 3}, "thorough"),
]
