from hlib import *

BOUNDS = ("every combination of line and page ports, reports, a UDP and a "
          "TCP redirect; stopped at any of 8 moments of a redirect's "
          "connection (first attempt pending, failed and waiting, trying "
          "again, connected, paused, lost and waiting, connected again, "
          "stopping the moment it begins), after up to 2 flushes and at any "
          "instant within an interval, with or without samples not flushed "
          "yet; watched for two hours; up to 3 reporters scheduled before and "
          "while running")
ASSUMES = ["ports close at once",
           "a flush under way is drained and datagrams received are sent on before the "
           "stop",
           "the retry delay of a connection has no jitter"]

FROM = ("10.0.0.9", 5353)
MOMENTS = ["pending", "failed", "retrying", "connected", "paused", "lost",
           "again", "at once"]


class Reactor(FakeReactor):
    def getReaders(self):
        return []

    def getWriters(self):
        return []


class Stopped(Exception):
    pass


def running(env, o):
    from twisted.python import log
    from txstatsd.service import StatsDOptions, createService
    if hasattr(log, "info"):
        del log.info
    options = StatsDOptions()
    for name in sorted(o):
        options[name.replace("_", "-")] = o[name]
    env.set_node("box")
    env.set_plugins([])
    env.set_random(lambda: 0.5)
    reactor = Reactor(1000)
    env.set_reactor(reactor)
    env.set_time(lambda: reactor.now)
    return reactor, createService(options, reactor)


def outcome(env, connector, moment):
    """Brings the connection of a redirect to a moment."""
    reactor = connector.reactor
    connector.factory.jitter = 0
    env.check(connector.attempts == 1, "one attempt at first")
    if moment in ("failed", "retrying"):
        connector.fails()
        env.check(connector.attempts == 1, "not at once")
        if moment == "retrying":
            reactor.run_calls(reactor.now + 4)
            env.check(connector.attempts == 2, "tries again")
    elif moment in ("connected", "paused", "lost", "again"):
        connector.succeeds()
        if moment == "paused":
            connector.transport.producer.pauseProducing()
        elif moment != "connected":
            connector.lost()
            if moment == "again":
                reactor.run_calls(reactor.now + 4)
                env.check(connector.attempts == 2, "connects again")
                connector.succeeds()


def stop(env, moment, proto, features):
    seconds = env.choice("seconds", [10, 60])
    o = {"flush_interval": seconds * 1000, "statsd_compliance": 0,
         "prefix": "p"}
    count = 0
    if "t" in features:
        o["listen_tcp_port"] = 8126
        count += 1
    if "h" in features:
        o["http_port"] = 8080
        count += 1
    if "r" in features:
        o["report"] = "reactor"
    if "f" in features:
        o["statsd_compliance"] = 1
    rules = ["any => redirect_%s collector 9125" % p for p in proto]
    o["routing"] = "\n".join(rules)
    import threading
    started = []
    normal = threading.Thread.start
    if "r" in features:
        threading.Thread.start = lambda self: started.append(self)
    try:
        r, root = running(env, o)
        root.startService()
    finally:
        threading.Thread.start = normal
    carbon = env.carbon_managers()[-1]
    env.check(carbon.running, "started")
    for host, d in r.resolving:
        d.callback("10.0.0.7")
    for c in r.connectors:
        outcome(env, c, moment)
    due = 1000
    if moment != "at once":
        for i in range(env.choice("flushes", [0, 1, 2])):
            due += seconds
            r.run_calls(due)
            r.now = due
            r.run_calls(due + 0.001)
        if env.flag("pending"):
            for port, protocol, t in r.udp:
                if port == 8125:
                    protocol.datagramReceived("some.name:1|c", FROM)
            r.run_calls(r.now)
        past = env.real("past", 0.25, 0.75)
        r.run_calls(due + past * seconds)
    sent = len(carbon.sent)
    r.run_threads()
    attempts = [c.attempts for c in r.connectors]
    written = [len(t.written) for p, f, t in r.udp]

    results = []
    d = root.stopService()
    d.addCallback(results.append)
    env.check(len(results) == 1, "the stop ends")
    if len(results) != 1:
        return
    for success, result in results[0]:
        env.check(success, "every part stops")
    env.check(not root.running, "not running")
    env.check(not carbon.running, "the carbon client is stopped")
    env.check(len(r.ports) == count, "ports as asked for")
    for t in r.ports:
        env.check(t.lost == 1, "the port is closed")
    for port, protocol, t in r.udp:
        env.check(t.lost == 1, "the UDP port is closed")
    for c in r.connectors:
        if c.state == "connected":
            env.check(c.transport.lost >= 1, "the connection is given up")
            c.lost()
        env.check(c.state == "disconnected", "no attempt goes on")
    r.run_calls(r.now + 7200)
    r.run_threads()
    r.run_calls(r.now + 7200)
    for i in range(len(attempts)):
        env.check(r.connectors[i].attempts == attempts[i],
                  "no further attempt")
    env.check(len(r.connectors) == len(attempts), "no other connection")
    env.check([c for c in r.calls if not c.off] == [],
              "nothing is left to happen")
    env.check(len(carbon.sent) == sent, "no datapoint any more")
    for i in range(len(written)):
        env.check(len(r.udp[i][2].written) == written[i],
                  "nothing is redirected any more")
    if "r" in features:
        env.check(len(started) == 1, "one watchdog")
        slept = []

        def sleep(delay):
            slept.append(delay)
            if len(slept) > 1:
                raise planted(Stopped())
        env.set_sleep(sleep)
        started[0].run()
        env.check(len(slept) <= 1, "the watchdog ends")
    else:
        env.check(started == [], "no watchdog")


def watchdog(env, rounds):
    """Started once, on the reactor's thread; ends at the next look."""
    import threading
    from txstatsd.report import ReactorInspectorService
    clock = Clock(1000.0)
    env.set_time(clock)
    r = FakeReactor()
    told = []

    class Metrics(Fake):
        def gauge(self, name, value, *args):
            told.append((name, value))
    started = []
    normal = threading.Thread.start
    threading.Thread.start = lambda self: started.append(self)
    try:
        service = ReactorInspectorService(
            r, Metrics(), loop_time=env.real("loop", 0.01, 10.0))
        env.check(started == [], "not before the start")
        service.startService()
    finally:
        threading.Thread.start = normal
    env.check(len(started) == 1, "started once")
    env.check(service.running, "running")
    if len(started) != 1:
        return
    slept = []

    def sleep(delay):
        slept.append(delay)
        clock.now = clock.now + delay
        r.run_threads()
        if len(slept) == rounds:
            service.stopService()
        if len(slept) > rounds:
            raise planted(Stopped())
    env.set_sleep(sleep)
    started[0].run()
    env.check(len(slept) == rounds, "until it is stopped")
    env.check(len(told) == rounds, "one delay for each round")
    env.check(not service.running, "not running")


def reports(env, before, later):
    """Reporters stop with the service, whenever they were scheduled."""
    from twisted.internet.task import Clock as Twisted
    from txstatsd.report import ReportingService
    clock = Twisted()
    env.set_time(clock.seconds)
    s = ReportingService(clock=clock)
    calls = []
    told = []

    def reporter(i):
        def report():
            calls.append(i)
            return {"n": i}
        return report
    intervals = []
    for i in range(before + later):
        if i == before:
            s.startService()
        intervals.append(env.choice("every", [10, 60]))
        s.schedule(reporter(i), intervals[i],
                   lambda name, value: told.append((name, value)))
    if not later:
        s.startService()
    passed = env.choice("passed", [0, 65])
    for i in range(passed // 5):
        clock.advance(5)
    # those scheduled while it runs report at once
    want = []
    for i in range(before + later):
        n = passed // intervals[i] + (1 if i >= before else 0)
        want.append(n)
        env.check(len([c for c in calls if c == i]) == n, "reports")
    env.check(len(told) == len(calls), "each is passed on")
    s.stopService()
    env.check(not s.running, "stopped")
    for i in range(30):
        clock.advance(5)
    env.check(len(calls) == sum(want), "no report once stopped")
    env.check(clock.getDelayedCalls() == [], "nothing is left to happen")


SCENARIOS = []
for before, later in ((1, 0), (0, 1), (1, 1), (2, 1)):
    SCENARIOS.append((reports, {"before": before, "later": later}, "quick"))
for moment in MOMENTS:
    for proto in (["tcp"], ["tcp", "udp"]):
        SCENARIOS.append((stop, {
            "moment": moment, "proto": proto, "features": ""}, "quick"))
for features in ("t", "h", "r", "thr", "thrf", "f"):
    SCENARIOS.append((stop, {"moment": "connected", "proto": ["udp"],
                             "features": features}, "quick"))
    for moment in ("pending", "lost", "paused"):
        SCENARIOS.append((stop, {
            "moment": moment, "proto": ["tcp", "tcp"],
            "features": features}, "thorough"))
for rounds in (1, 2):
    SCENARIOS.append((watchdog, {"rounds": rounds}, "quick"))
SCENARIOS.append((watchdog, {"rounds": 4}, "thorough"))
