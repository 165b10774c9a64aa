from hlib import *

BOUNDS = ("sequences of up to 5 (quick) or 7 (thorough) of connect, "
          "disconnect and write, a fault of any kind at any send, messages "
          "of any text, any outcome of the resolution; 60 faults of one kind in "
          "a row, with reconnecting in between")
ASSUMES = ["creating and closing a socket succeeds"]

FAULTS = ["none", "unavailable", "unreachable", "gaierror", "timeout",
          "herror", "too long", "unknown"]


def fault(kind):
    import socket
    if kind == "unavailable":
        raise planted(socket.error(11, "Resource temporarily unavailable"))
    if kind == "unreachable":
        raise planted(socket.error(101, "Network is unreachable"))
    if kind == "too long":
        raise planted(socket.error(90, "Message too long"))
    if kind == "unknown":
        raise planted(socket.error("no number"))
    if kind == "gaierror":
        raise planted(socket.gaierror(-2, "Name or service not known"))
    if kind == "timeout":
        raise planted(socket.timeout("timed out"))
    if kind == "herror":
        raise planted(socket.herror(1, "unknown host"))


class Socket(Fake):
    # the fault there is, when it is prescribed
    kind = None

    def __init__(self, net, args):
        self.net = net
        self.args = args
        self.blocking = True
        self.closed = False
        self.sent = []

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, value):
        self.blocking = value is None or value > 0

    def connect(self, address):
        self.peer = address

    def send(self, data, flags=0):
        return self.sendto(data, self.peer)

    def sendall(self, data, flags=0):
        self.sendto(data, self.peer)

    def sendto(self, data, *rest):
        import socket
        env = self.net.env
        address = rest[-1]
        if self.closed:
            raise planted(socket.error(9, "Bad file descriptor"))
        env.check(not self.blocking, "sending never waits")
        self.net.sent.append((self, data, address))
        if self.kind:
            fault(self.kind)
        if self.net.faults:
            fault(env.choice("fault", FAULTS))
        return len(data)

    def close(self):
        self.closed = True


class Net(object):
    def __init__(self, env, faults):
        self.env = env
        self.faults = faults
        self.sockets = []
        self.sent = []
        self.asked = []
        env.set_socket(self.make)
        env.set_resolver(self.resolve)
        self.outcome = "resolved"

    def make(self, *args):
        s = Socket(self, args)
        self.sockets.append(s)
        return s

    def resolve(self, *args):
        self.asked.append(args)
        if self.outcome == "resolved":
            return [(2, 2, 17, "", ("10.0.0.7", args[1])),
                    (2, 2, 17, "", ("10.0.0.8", args[1]))]
        if self.outcome == "empty":
            return []
        if self.outcome == "TypeError":
            raise planted(TypeError("getaddrinfo() argument 2 must be integer or "
                            "string"))
        fault(self.outcome)


def history(env, steps, faults, where):
    import socket
    from txstatsd.client import UdpStatsDClient
    net = Net(env, faults)
    port = 8125
    if where == "address":
        port = env.int("port", 1, 65535)
        client = UdpStatsDClient("collector", port)
    elif where == "no host":
        client = UdpStatsDClient(port=8125)
    elif where == "no port":
        client = UdpStatsDClient("collector")
    else:
        client = UdpStatsDClient()
    expected = []
    current = None
    for i in range(steps):
        step = env.choice("step", ["connect", "write", "disconnect"])
        if step == "connect":
            before = len(net.sockets)
            client.connect()
            env.check(len(net.sockets) <= before + 1, "at most one socket")
            env.check(len(net.sockets) > 0, "a socket")
            current = net.sockets[-1]
            env.check(current.args[:2] == (socket.AF_INET,
                                           socket.SOCK_DGRAM),
                      "a datagram socket")
        elif step == "disconnect":
            client.disconnect()
            if current is not None:
                env.check(current.closed, "the socket is closed")
            current = None
        else:
            data = "m%d:" % i + env.key("text")
            client.write(data)
            if current is not None and where == "address":
                expected.append((current, data))
        env.check(len(net.sent) == len(expected),
                  "one datagram per message while connected")
    env.check(len(net.sent) == len(expected), "as many datagrams as messages")
    for i in range(min(len(expected), len(net.sent))):
        s, data, address = net.sent[i]
        env.check(s is expected[i][0], "through the present socket")
        env.equal(data, expected[i][1], "the message")
        env.equal(address, ("10.0.0.7", port), "the resolved address")


def persistent(env, kind, times):
    """However often sending fails, the next message is sent again, also
    after reconnecting."""
    from txstatsd.client import UdpStatsDClient
    net = Net(env, False)
    client = UdpStatsDClient("collector", 8125)
    client.connect()
    text = env.key("text")
    for i in range(times):
        net.sockets[-1].kind = kind
        client.write("m%d:" % i + text)
        env.check(len(net.sent) == i + 1, "one datagram per message")
        if i % 10 == 9:
            client.disconnect()
            client.write("lost:1|c")
            client.connect()
    net.sockets[-1].kind = "none"
    client.write("last:" + text)
    env.check(len(net.sent) == times + 1, "still sending")
    s, data, address = net.sent[-1]
    env.check(s is net.sockets[-1], "through the present socket")
    env.equal(data, "last:" + text, "the message")
    env.equal(address, ("10.0.0.7", 8125), "the resolved address")
    env.check(not s.closed, "open")
    for other in net.sockets[:-1]:
        env.check(other.closed, "the socket is closed")


def resolution(env):
    """An address that cannot be resolved is refused."""
    from txstatsd.client import UdpStatsDClient
    net = Net(env, False)
    net.outcome = env.choice("outcome", ["resolved", "empty", "TypeError",
                                         "unreachable", "gaierror", "herror",
                                         "timeout"])
    refused = False
    host = env.key("host")
    try:
        client = UdpStatsDClient(host, 8125)
    except ValueError:
        refused = True
    env.check(refused == (net.outcome != "resolved"),
              "refused when it cannot be resolved")
    env.check(len(net.asked) == 1, "resolved once")
    env.equal(net.asked[0][:2], (host, 8125), "as given")
    if not refused:
        client.connect()
        client.write("a:1|c")
        client.write("b:1|c")
        env.check(len(net.asked) == 1, "resolved once")
        env.check([x[1] for x in net.sent] == ["a:1|c", "b:1|c"],
                  "both messages are sent")


def reporting(env):
    """Nothing reported through it fails for the network."""
    from txstatsd.client import UdpStatsDClient
    from txstatsd.metrics.metrics import Metrics
    from txstatsd.metrics.extendedmetrics import ExtendedMetrics
    net = Net(env, True)
    client = UdpStatsDClient("collector", 8125)
    kind = env.choice("metrics", [Metrics, ExtendedMetrics])
    metrics = kind(client, "app")
    connected = env.flag("connected")
    if connected:
        client.connect()
    for i in range(2):
        call = env.choice("call", ["gauge", "increment", "decrement",
                                   "timing", "meter", "report"])
        if call == "gauge":
            metrics.gauge("a", 1.5)
        elif call == "increment":
            metrics.increment("b")
        elif call == "decrement":
            metrics.decrement("b")
        elif call == "timing":
            metrics.timing("c", 2)
        elif call == "meter":
            metrics.meter("d")
        else:
            metrics.report("e", "x", "p")
        env.check(len(net.sent) == (i + 1 if connected else 0),
                  "one datagram each")


SCENARIOS = [
    (resolution, {}, "quick"),
    (reporting, {}, "quick"),
    (history, {"steps": 4, "faults": True, "where": "address"}, "quick"),
    (history, {"steps": 5, "faults": False, "where": "address"}, "quick"),
    (history, {"steps": 5, "faults": True, "where": "address"}, "thorough"),
    (history, {"steps": 7, "faults": False, "where": "address"}, "thorough"),
]
for kind in FAULTS:
    SCENARIOS.append((persistent, {"kind": kind, "times": 60}, "quick"))
for where in ("no host", "no port", "neither"):
    SCENARIOS.append((history, {"steps": 4, "faults": True,
                                "where": where}, "quick"))
