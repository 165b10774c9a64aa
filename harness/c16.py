from hlib import *

BOUNDS = ("rings of up to 3 nodes (quick: 2 replicas of 2 nodes or 1 of 3; "
          "thorough: 2 of 3) at any distinct positions of 32 bits, keys of "
          "any hash, histories of up to 3 (quick) or 4 (thorough) additions "
          "and removals; 2 or 4 nodes of 2 or 3 replicas in 5 given orders on "
          "the ring, any key; lines of any metric name")
ASSUMES = ["no two replicas share a ring position",
           "a node's replicas are at the hash of one text each, whatever "
           "that text is"]


class Hashes(object):
    """A hash function of arbitrary values."""

    def __init__(self, env):
        self.env = env
        self.known = []
        env.set_md5(self)

    def __call__(self, text):
        for t, digest, value in self.known:
            if t == text:
                return digest
        a, x = self.env.hex_text("high", 4)
        b, y = self.env.hex_text("low", 4)
        digest = a + b + "0" * 24
        self.known.append((text, digest, x * 65536 + y))
        return digest

    def value(self, text):
        self(text)
        for t, digest, value in self.known:
            if t == text:
                return value


class Names(object):
    """What the nodes of a ring are: where their replicas stand."""

    def __init__(self, env, hashes, nodes, replicas):
        from txstatsd.hashing import ConsistentHashRing
        self.env = env
        self.positions = []
        for node in nodes:
            before = len(hashes.known)
            ConsistentHashRing([node], replicas)
            mine = [v for t, d, v in hashes.known[before:]]
            env.check(len(mine) == replicas, "as many positions as replicas")
            for p in mine:
                for q, other in self.positions:
                    env.assume(env.negate(env.same(p, q)))
                self.positions.append((p, node))

    def owned(self, node, h, nodes):
        """Is node the owner of the first position at or after h?"""
        env = self.env
        ring = [(p, n) for p, n in self.positions if n in nodes]
        cases = []
        wrap = env.both(*[p < h for p, n in ring])
        for p, n in ring:
            if n != node:
                continue
            ahead = env.both(p >= h, *[env.either(q < h, q >= p)
                                       for q, m in ring if q is not p])
            lowest = env.both(wrap, *[q >= p for q, m in ring if q is not p])
            cases.append(env.either(ahead, lowest))
        return env.either(*cases)


def check_ring(env, ring, names, h, nodes, label):
    got = ring.get_node("akey")
    env.check(got in nodes, label + ": one of the nodes")
    env.check(names.owned(got, h, nodes), label + ": owner of the position")
    prefer = ring.get_nodes("akey")
    env.check(len(prefer) == len(nodes), label + ": every node preferred")
    env.check(prefer[0] == got, label + ": its node comes first")
    for n in nodes:
        env.check(prefer.count(n) == 1, label + ": every node once")
    env.check(ring.get_node("akey") == got, label + ": asking again")
    return got


def lookup(env, nodes, replicas):
    from txstatsd.hashing import ConsistentHashRing
    hashes = Hashes(env)
    names = Names(env, hashes, nodes, replicas)
    order = list(nodes)
    if env.flag("backwards"):
        order.reverse()
    h = hashes.value("akey")
    ring = ConsistentHashRing(order, replicas)
    check_ring(env, ring, names, h, nodes, "ring")


def history(env, nodes, start, steps, replicas):
    """Additions and removals."""
    from txstatsd.hashing import ConsistentHashRing
    hashes = Hashes(env)
    names = Names(env, hashes, nodes, replicas)
    h = hashes.value("akey")
    have = list(start)
    ring = ConsistentHashRing(start, replicas)
    before = None
    if have:
        before = check_ring(env, ring, names, h, have, "at first")
    for i in range(steps):
        node = env.choice("node", nodes)
        if node in have:
            ring.remove_node(node)
            have.remove(node)
        else:
            ring.add_node(node)
            have.append(node)
        if not have:
            before = None
            continue
        after = check_ring(env, ring, names, h, have, "afterwards")
        if before is not None:
            if before in have and node not in have:
                env.check(after == before, "only keys of the node move")
            elif node in have:
                env.check(after == before or after == node,
                          "keys only move to the new node")
        before = after


def interleaved(env, order):
    """A ring of given positions, any key."""
    from txstatsd.hashing import ConsistentHashRing
    digest, h = env.hex_text("key", 8)
    names = []
    for i in range(len(order)):
        n = order[:i].count(order[i])
        names.append(("%s:%d" % (order[i], n), (i + 1) * 16 ** 7))
    def md5(text):
        for name, at in names:
            if text == name:
                return "%08x" % at + "f" * 24
        env.equal(text, "akey", "hashed by key")
        return digest + "0" * 24
    env.set_md5(md5)
    nodes = sorted(set(order))
    replicas = order.count(nodes[0])
    if env.flag("backwards"):
        nodes.reverse()
    ring = ConsistentHashRing(nodes, replicas)
    k = 0
    while k < len(order) and h > names[k][1]:
        k += 1
    k = k % len(order)
    want = []
    for i in range(len(order)):
        node = order[(k + i) % len(order)]
        if node not in want:
            want.append(node)
    env.equal(ring.get_node("akey"), want[0], "owner of the position")
    env.equal(ring.get_nodes("akey"), want, "nodes in order of preference")
    gone = env.choice("gone", nodes)
    ring.remove_node(gone)
    want.remove(gone)
    env.equal(ring.get_nodes("akey"), want, "preference without one")
    ring.add_node(gone)
    env.equal(ring.get_node("akey"), order[k], "as it was")


class Node(Fake):
    def __init__(self, name):
        self.name = name
        self.got = []
        self.connected = 0
        self.disconnected = 0

    def __str__(self):
        return self.name

    def write(self, data):
        self.got.append(data)

    def connect(self):
        self.connected += 1

    def disconnect(self):
        self.disconnected += 1


def client(env, count, field):
    """Lines go to the client of their metric name."""
    from txstatsd.client import ConsistentHashingClient
    name = env.key("name", "a-zA-Z0-9._-")
    def md5(text):
        # spread out, all replicas of a client together
        for i in range(count):
            if text.startswith("client%d" % i):
                return "%d0000000" % (i + 1) + "0" * 24
        env.equal(text, name, "hashed by metric name")
        env.reached("hash of the name")
        return digest
    digest, value = env.hex_text("name", 8)
    digest = digest + "0" * 24
    env.set_md5(md5)
    clients = [Node("client%d" % i) for i in range(count)]
    c = ConsistentHashingClient(clients)
    c.connect()
    rest = {"plain": ":1|c", "colons": ":1:2|g", "long": ":1|c|@0.5",
            "spaces": ": 1 | c "}[field]
    line = name + rest
    c.write(line)
    c.write(line)
    # client i stands at (i + 1) * 16**7
    want = None
    for i in range(count):
        edge = (i + 1) * 16 ** 7
        if want is None and value <= edge:
            want = i
    if want is None:
        want = 0
    for i in range(count):
        if i == want:
            env.equal(clients[i].got, [line, line], "sent there, unmodified")
        else:
            env.check(clients[i].got == [], "sent nowhere else")
    c.disconnect()
    for n in clients:
        env.check(n.connected == 1, "connected once")
        env.check(n.disconnected == 1, "disconnected once")


SCENARIOS = [
    (lookup, {"nodes": ["a"], "replicas": 3}, "quick"),
    (lookup, {"nodes": ["a", "b"], "replicas": 2}, "quick"),
    (lookup, {"nodes": ["a", "b", "c"], "replicas": 1}, "quick"),
    (lookup, {"nodes": ["b", "a", "c"], "replicas": 2}, "thorough"),
    (history, {"nodes": ["a", "b"], "start": [], "steps": 3,
               "replicas": 1}, "quick"),
    (history, {"nodes": ["a", "b"], "start": ["a", "b"], "steps": 2,
               "replicas": 2}, "quick"),
    (history, {"nodes": ["a", "b", "c"], "start": ["b", "c"], "steps": 2,
               "replicas": 1}, "quick"),
    (history, {"nodes": ["a", "b", "c"], "start": ["a", "b"], "steps": 4,
               "replicas": 1}, "thorough"),
    (history, {"nodes": ["a", "b", "c"], "start": ["a", "c", "b"],
               "steps": 2, "replicas": 2}, "thorough"),
]
for order in ("abacbc", "aabbcc", "abcabc", "aaabbb", "abacdbdc"):
    SCENARIOS.append((interleaved, {"order": list(order)}, "quick"))
for f in ("plain", "colons", "long", "spaces"):
    SCENARIOS.append((client, {"count": 3, "field": f}, "quick"))
