from hlib import *

BOUNDS = ("any port, texts, names, prefix and flush interval of up to an "
          "hour; up to 3 (thorough 4) carbon destinations, each with or "
          "without a port and a name of its own; every combination of "
          "compliance, dump mode, TCP and HTTP; one or two messages of every "
          "type, over datagrams and connections, flushed once or twice")
ASSUMES = ["flush intervals are whole seconds",
           "ports and names, when fewer than hosts, belong to the first hosts",
           "dump mode is off where compliant processing is judged (it "
           "replaces it)"]

FROM = ("10.0.0.9", 5353)


def options(env, **given):
    from twisted.python import log
    from txstatsd.service import StatsDOptions
    if hasattr(log, "info"):
        # left by an earlier case of this process
        del log.info
    o = StatsDOptions()
    for name in sorted(given):
        o[name.replace("_", "-")] = given[name]
    return o


class Running(object):
    """The service built from options, and the world around it."""

    def __init__(self, env, o, interval=10000, plugins=(), node="box"):
        from txstatsd.service import createService
        self.env = env
        self.interval = interval
        env.set_node(node)
        env.set_plugins(list(plugins))
        env.set_random(lambda: 0.5)
        self.reactor = FakeReactor(1000)
        env.set_reactor(self.reactor)
        env.set_time(lambda: self.reactor.now)
        self.root = createService(o)
        managers = env.carbon_managers()
        env.check(len(managers) == 1, "one carbon client")
        self.carbon = managers[-1]
        self.due = 1000

    def start(self):
        self.root.startService()

    def pass_interval(self):
        self.due = self.due + self.interval // 1000
        self.reactor.run_calls(self.due)
        self.reactor.now = self.due
        self.reactor.run_calls(self.due + 0.001)
        self.reactor.now = self.due

    def datagram(self, data):
        port, protocol, transport = self.reactor.udp[0]
        protocol.datagramReceived(data, FROM)
        self.reactor.run_calls(self.reactor.now)
        return [d for d, to in transport.written]

    def connection(self, data):
        port, factory = self.reactor.listening[0]
        p = factory.buildProtocol(None)
        t = FakeTransport(self.reactor)
        p.makeConnection(t)
        p.dataReceived(data)
        self.reactor.run_calls(self.reactor.now)
        return [d for d, to in t.written]


def listening(env):
    """Where it listens, and where not."""
    o = {"listen_port": env.int("port", 1, 65535)}
    tcp = http = None
    if env.flag("tcp"):
        tcp = o["listen_tcp_port"] = env.int("tcp", 1, 65535)
    if env.flag("http"):
        http = o["http_port"] = env.int("http", 1, 65535)
    if env.flag("compliant"):
        o["statsd_compliance"] = 1
    else:
        o["statsd_compliance"] = 0
    if env.flag("dump"):
        o["dump_mode"] = 1
    if env.flag("default"):
        del o["listen_port"]
    r = Running(env, options(env, **o))
    env.check(r.reactor.udp == [] and r.reactor.listening == [],
              "nothing before the start")
    r.start()
    env.check(len(r.reactor.udp) == 1, "one UDP port")
    env.equal(r.reactor.udp[0][0], o.get("listen_port", 8125), "UDP port")
    env.check(r.reactor.udp[0][2].max_size >= 8192, "whole datagrams")
    want = [p for p in (tcp, http) if p is not None]
    env.check(len(r.reactor.listening) == len(want), "TCP ports as given")
    pages = [p for p, f in r.reactor.listening if hasattr(f, "resource")]
    lines = [p for p, f in r.reactor.listening if not hasattr(f, "resource")]
    env.check(len(pages) == (http is not None), "pages only when asked for")
    env.check(len(lines) == (tcp is not None), "lines only when asked for")
    if pages:
        env.equal(pages[0], http, "HTTP port")
    if lines:
        env.equal(lines[0], tcp, "TCP port")
    udp = r.reactor.udp[0][2]
    r.root.stopService()
    env.check(udp.lost == 1, "the port is closed in the end")


def destinations(env, hosts, ports, names):
    """One destination per host, in order."""
    o = options(env)
    want = []
    more = env.choice("limits", [False, True])
    if more:
        o["max-queue-size"] = env.int("queue", 1, 1000000)
        o["max-datapoints-per-message"] = env.int("points", 1, 100000)
    for i in range(hosts):
        host = env.key("host%d" % i, "a-z0-9.")
        port, name = 2004, None
        o["carbon-cache-host"].append(host)
        if i < ports:
            port = env.int("port%d" % i, 1, 65535)
            o["carbon-cache-port"].append(port)
        if i < names:
            name = env.key("name%d" % i, "a-z")
            o["carbon-cache-name"].append(name)
        want.append((host, port, name))
    if not hosts:
        want.append(("127.0.0.1", 2004, None))
    r = Running(env, o)
    got = list(r.carbon.started)
    env.check(len(got) == len(want), "every destination once")
    if len(got) == len(want):
        for i in range(len(want)):
            env.equal(tuple(got[i]), want[i], "destination %d" % i)
    from carbon.conf import settings
    env.equal(getattr(settings, "MAX_QUEUE_SIZE", None),
              o["max-queue-size"], "queue size")
    env.equal(getattr(settings, "MAX_DATAPOINTS_PER_MESSAGE", None),
              o["max-datapoints-per-message"], "datapoints per message")
    env.check(r.carbon.running == 0, "not started yet")
    r.start()
    env.check(r.carbon.running, "started with the service")


def configured_only(env, what):
    """Only a port or a name is configured: of the local default."""
    o = options(env)
    port, name = 2004, None
    if "p" in what:
        port = env.int("port", 1, 65535)
        o["carbon-cache-port"].append(port)
    if "n" in what:
        name = env.key("name", "a-z")
        o["carbon-cache-name"].append(name)
    r = Running(env, o)
    env.check(len(r.carbon.started) == 1, "one destination")
    env.equal(tuple(r.carbon.started[0]), ("127.0.0.1", port, name),
              "the local default")


def pings(env, kind):
    """The texts of the monitoring agent."""
    ping, pong = "txstatsd ping", "txstatsd pong"
    o = {"listen_tcp_port": 8126}
    if env.flag("texts"):
        ping = o["monitor_message"] = env.key("ping", "a-z ")
        pong = o["monitor_response"] = env.key("pong", "a-z ")
    r = Running(env, options(env, **o))
    r.start()
    for data in ("txstatsd ping", ping):
        if kind == "udp":
            r.reactor.udp[0][2].written = []
            answers = r.datagram(data)
        else:
            answers = r.connection(data + "\r\n")
        if data == ping:
            env.check(len(answers) == 1, "answered")
            env.equal(answers[0], pong, "the configured answer")
        else:
            env.check(answers == [], "only the configured text is a ping")


KINDS = ["c", "ms", "g", "m", "sli"]


def end_to_end(env, mode, dump, kinds, over, names):
    """What is received is what carbon gets."""
    o = {"listen_tcp_port": 8126, "http_port": 8080,
         "statsd_compliance": 1 if mode == COMPLIANT else 0}
    seconds = 10
    if over != "tcp":
        seconds = env.choice("seconds", [1, 3600])
    o["flush_interval"] = seconds * 1000
    if dump:
        o["dump_mode"] = 1
    prefix, instance, node = "statsd", "box", "box"
    if names == "given":
        prefix = o["prefix"] = env.key("prefix", "a-z")
        instance = o["instance_name"] = env.key("instance", "a-z")
    elif names == "node":
        instance = node = env.key("node", "a-z")
        o["instance_name"] = env.choice("instance", [None, ""])
        o["prefix"] = env.choice("prefix", [None, ""])
        if o["prefix"] is not None:
            prefix = ""
    r = Running(env, options(env, **o), o["flush_interval"], [sli_plugin()],
                node)
    twin = make(env, mode, lambda: r.reactor.now, prefix,
                prefix + "." + instance + ".", [sli_plugin()])
    r.start()
    before = len(env.logs)
    for i in range(2):
        for k in kinds:
            text, value = env.number_text("value", 0.0, 1000000.0)
            data = "some.name:" + text + "|" + k
            if over == "udp":
                r.datagram(data)
            else:
                r.connection(data + "\r\n")
            twin.process(data)
        sent = len(r.carbon.sent)
        r.pass_interval()
        expected = flush(twin, o["flush_interval"])
        got = r.carbon.sent[sent:]
        env.check(len(got) == len(expected), "as many datapoints")
        for j in range(min(len(got), len(expected))):
            name, (timestamp, value) = got[j]
            env.equal(name, expected[j][0], "the name")
            if not name.endswith(".duration"):
                env.equal(value, expected[j][1], "the value")
            env.equal(timestamp, expected[j][2], "the time")
    logged = [a[0] for k, a, w in env.logs[before:]
              if k == "msg" and a and a[0].startswith("In: ")]
    env.check(len(logged) == (2 * len(kinds) if dump else 0),
              "dumped only in dump mode")
    pages = [f.resource for p, f in r.reactor.listening
             if hasattr(f, "resource")]
    env.check(len(pages) == 1, "pages")
    import json
    code, text = get(pages[0], "list_metrics")
    env.check("some.name" in json.loads(text)["names"],
              "the pages show the same processor")
    code, text = get(pages[0], "status")
    env.equal(json.loads(text)["flush_interval"], o["flush_interval"],
              "the status page shows the interval")
    sent = len(r.carbon.sent)
    r.root.stopService()
    r.pass_interval()
    env.check(len(r.carbon.sent) == sent, "nothing once stopped")


def routing(env, mode, over):
    """The configured rules stand before the processor."""
    o = {"listen_tcp_port": 8126,
         "statsd_compliance": 1 if mode == COMPLIANT else 0, "prefix": "p",
         "routing": env.choice("rules", [
             "path_like secret.* => drop",
             "path_like secret.* => rewrite secret public",
             "path_like secret.* => redirect_udp 10.0.0.7 9125"])}
    r = Running(env, options(env, **o), 60000)
    r.start()
    text, value = env.number_text("value", 0.0, 1000000.0)
    # the port of the listener is the one that is not for sending
    listener = [u for u in r.reactor.udp if u[0] == 8125]
    others = [u for u in r.reactor.udp if u[0] != 8125]
    env.check(len(listener) == 1, "one listener")
    for host, d in r.reactor.resolving:
        d.callback(host)
    lines = ["secret.a:" + text + "|g", "open.b:" + text + "|g"]
    if over == "udp":
        for data in lines:
            listener[0][1].datagramReceived(data, FROM)
    else:
        r.connection("\r\n".join(lines) + "\r\n")
    r.reactor.run_calls(r.reactor.now)
    r.reactor.run_threads()
    r.pass_interval()
    seen = {}
    for name, (timestamp, v) in r.carbon.sent:
        seen[name] = v
    open_name = [n for n in seen if "open.b" in n]
    secret = [n for n in seen if "secret.a" in n]
    public = [n for n in seen if "public.a" in n]
    env.check(len(open_name) > 0, "others are not touched")
    if "drop" in o["routing"]:
        env.check(secret == [], "dropped")
        env.check(others == [], "nothing is redirected")
    elif "rewrite" in o["routing"]:
        env.check(secret == [] and len(public) > 0, "rewritten")
        env.check(others == [], "nothing is redirected")
    else:
        env.check(len(secret) > 0, "goes on")
        env.check(len(others) == 1, "one port to send from")
        if len(others) == 1:
            env.equal([(d, to) for d, to in others[0][2].written],
                      [("secret.a:" + text + "|g", ("10.0.0.7", 9125))],
                      "redirected once")


def own_statistics(env, mode):
    """The statistics of the carbon client come as gauges of the instance."""
    seconds = env.choice("seconds", [1, 60])
    o = {"statsd_compliance": 1 if mode == COMPLIANT else 0, "prefix": "p",
         "instance_name": "inst", "flush_interval": seconds * 1000}
    r = Running(env, options(env, **o), seconds * 1000)
    r.start()
    from carbon.instrumentation import stats
    value = env.int("value", 1, 1000000)
    stats["destinations.a:2004:None.sent"] = value
    twin = make(env, mode, lambda: r.reactor.now, "p", "p.inst.")
    r.pass_interval()
    r.pass_interval()
    twin.process("inst.destinations.a_2004_None.sent:7.25|g")
    name = [n for n, v, t in flush(twin) if v == 7.25]
    env.check(len(name) >= 1, "a gauge has a name")
    got = [v for n, (t, v) in r.carbon.sent if n == name[0]]
    env.check(len(got) > 0, "reported")
    env.check(env.either(*[v == value for v in got]), "its value")
    env.equal(stats["destinations.a:2004:None.sent"], 0, "counted again")


SCENARIOS = [(listening, {}, "quick")]
for hosts in range(4):
    for ports in sorted(set([0, 1, hosts])):
        for names in sorted(set([0, 1, hosts])):
            if ports <= hosts and names <= hosts:
                SCENARIOS.append((destinations, {
                    "hosts": hosts, "ports": ports, "names": names},
                    "quick"))
for what in ("p", "n", "pn"):
    SCENARIOS.append((configured_only, {"what": what}, "quick"))
SCENARIOS.append((destinations, {"hosts": 4, "ports": 2, "names": 3},
                  "thorough"))
for kind in ("udp", "tcp"):
    SCENARIOS.append((pings, {"kind": kind}, "quick"))
for mode in (COMPLIANT, CONFIGURABLE):
    for over in ("udp", "tcp"):
        SCENARIOS.append((routing, {"mode": mode, "over": over}, "quick"))
    SCENARIOS.append((own_statistics, {"mode": mode}, "quick"))
    for dump in (False, True):
        if dump and mode == COMPLIANT:
            continue
        for i, k in enumerate(KINDS):
            SCENARIOS.append((end_to_end, {
                "mode": mode, "dump": dump, "kinds": [k],
                "over": ["udp", "tcp"][i % 2],
                "names": ["given", "node", "default"][i % 3]}, "quick"))
        SCENARIOS.append((end_to_end, {
            "mode": mode, "dump": dump, "kinds": ["c", "g"], "over": "udp",
            "names": "node"}, "quick"))
        SCENARIOS.append((end_to_end, {
            "mode": mode, "dump": dump, "kinds": ["ms", "m", "sli"],
            "over": "udp", "names": "given"}, "thorough"))
