"""Runs harness cases against the real code under Jython.

    jython driver.py CASES.json OUT.jsonl

Every case names a harness function and concrete values for its inputs.  The
code under test is imported afresh for every case; clock, randomness, hashing,
sockets and the reactor are stand-ins the harness provides.  One line of
output per case."""
import __builtin__
import json
import os
import sys
import time as real_time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
sys.dont_write_bytecode = True

_clock = real_time.time
_sleep = real_time.sleep


class Current(object):
    env = None


class Now(object):
    """Like a builtin: does not bind when kept as a class attribute."""

    def __call__(self):
        e = Current.env
        if e is not None and e._time is not None:
            return e._time()
        return _clock()


class SleepFor(object):
    def __call__(self, dt):
        e = Current.env
        if e is not None and e._sleep is not None:
            return e._sleep(dt)
        return _sleep(dt)


now = Now()
sleep = SleepFor()
real_time.time = now
real_time.sleep = sleep

import random as real_random
_random = real_random.random
_randint = real_random.randint


def random_():
    e = Current.env
    if e is not None and e._random is not None:
        return e._random()
    return _random()


def randint_(a, b):
    e = Current.env
    if e is not None and e._randint is not None:
        return e._randint(a, b)
    return _randint(a, b)


real_random.random = random_
real_random.randint = randint_
real_random.randrange = lambda a, b=None: randint_(0, a - 1) if b is None \
    else randint_(a, b - 1)
real_random.uniform = lambda a, b: a + (b - a) * random_()
real_random.choice = lambda seq: seq[randint_(0, len(seq) - 1)]

import hashlib as real_hashlib
_md5 = real_hashlib.md5


class Hash(object):
    def __init__(self, text=""):
        self.text = text

    def update(self, text):
        self.text += text

    def hexdigest(self):
        e = Current.env
        if e is not None and e._md5 is not None:
            return e._md5(self.text)
        return _md5(self.text).hexdigest()

    def digest(self):
        return self.hexdigest().decode("hex")


real_hashlib.md5 = Hash
real_hashlib.sha1 = Hash
real_hashlib.sha256 = Hash
try:
    import md5 as _md5mod
    _md5mod.new = _md5mod.md5 = Hash
except ImportError:
    pass

import socket as real_socket
_getaddrinfo = real_socket.getaddrinfo
_socket = real_socket.socket


def getaddrinfo(*a):
    e = Current.env
    if e is not None and e._resolver is not None:
        return e._resolver(*a)
    raise real_socket.gaierror("no resolver")


class SocketStandIn(object):
    def __call__(self, *a):
        e = Current.env
        if e is not None and e._socket is not None:
            return e._socket(*a)
        raise real_socket.error("no sockets here")


real_socket.getaddrinfo = getaddrinfo
if not hasattr(real_socket, "SOL_UDP"):
    # not known to Jython, but to every other Python
    real_socket.SOL_UDP = 17
real_socket.gethostbyname = lambda h: getaddrinfo(h, None)[0][4][0]
real_socket.socket = SocketStandIn()

import platform as real_platform


def node():
    e = Current.env
    if e is not None:
        return e._node
    return "node"


real_platform.node = node

import types


class Dispatch(types.ModuleType):
    """twisted.internet.reactor"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        e = Current.env
        if e is None or e._reactor is None:
            raise RuntimeError("reactor used without a stand-in")
        return getattr(e._reactor, name)


# As in the sandbox's sitecustomize: Jython cannot import submodules through
# the module proxies Twisted uses for deprecations.
from twisted.python import deprecate as _deprecate
_deprecate.deprecatedModuleAttribute = lambda *args: None

import twisted.internet
_reactor = Dispatch("twisted.internet.reactor")
sys.modules["twisted.internet.reactor"] = _reactor
twisted.internet.reactor = _reactor

from twisted.python import log as tlog


class Psutil(types.ModuleType):
    class NoSuchProcess(Exception):
        pass

    class AccessDenied(Exception):
        pass

    def _call(self, name, *a, **k):
        e = Current.env
        if e is None or e._psutil is None:
            raise RuntimeError("psutil used without a stand-in")
        return e._psutil(name, *a, **k)

    def Process(self, *a):
        return self._call("Process", *a)

    def cpu_times(self, *a, **k):
        return self._call("cpu_times", *a, **k)

    def virtual_memory(self, *a, **k):
        return self._call("virtual_memory", *a, **k)


class StdLogger(object):
    def _log(self, *a, **k):
        e = Current.env
        if e is not None:
            e.logs.append(("logging", a, k))
    debug = info = warn = warning = error = critical = exception = _log

    def log(self, level, *a, **k):
        self._log(*a, **k)

    def setLevel(self, *a):
        pass
    addHandler = setLevel


plain_open = open


def opener(name, *a, **k):
    e = Current.env
    if e is not None and name in e._files:
        name = e._files[name]
    return plain_open(name, *a, **k)


__builtin__.open = opener


class Skip(BaseException):
    pass


class Gap(BaseException):
    pass


class Diverged(BaseException):
    pass


def is_num(x):
    return isinstance(x, (int, long, float)) or isinstance(x, bool)


import re
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def close(a, b, tol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if a in (float("inf"), float("-inf")) or \
            b in (float("inf"), float("-inf")):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b)) + tol


def deep_eq(a, b):
    if is_num(a) and is_num(b):
        return close(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(
            k in b and deep_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, basestring) and isinstance(b, basestring):
        if a == b:
            return True
        if NUMBER.sub("#", a) != NUMBER.sub("#", b):
            return False
        try:
            return all(close(float(x), float(y), 1e-9) for x, y in
                       zip(NUMBER.findall(a), NUMBER.findall(b)))
        except ValueError:
            return False
    return a == b


def jsonable(x):
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, long)):
        return x
    if isinstance(x, float):
        if x != x:
            return {"_f": "nan"}
        if x in (float("inf"), float("-inf")):
            return {"_f": "inf" if x > 0 else "-inf"}
        return x
    if isinstance(x, str):
        return x.decode("latin-1")
    if isinstance(x, unicode):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return sorted([[jsonable(k), jsonable(v)] for k, v in x.items()],
                      key=repr)
    if isinstance(x, (set, frozenset)):
        return sorted([jsonable(k) for k in x], key=repr)
    return "<%s>" % type(x).__name__


class Env(object):
    symbolic = False

    def __init__(self, case):
        self._inputs = case["inputs"]
        self._used = {}
        self.tier = case.get("tier", "quick")
        self.thorough = self.tier == "thorough"
        self.logs = []
        self._time = self._sleep = self._random = self._randint = None
        self._reactor = self._md5 = self._resolver = self._socket = None
        self._psutil = self._plugins = None
        self._plugins_set = False
        self._node = "node"
        self._files = {}
        self._carbon = []
        self.failures = []
        self.labels = []
        self.observations = []
        self.diverged = []

    # -- inputs
    def _get(self, name, default):
        n = self._used.get(name, 0)
        self._used[name] = n + 1
        if n:
            name = "%s#%d" % (name, n)
        if name not in self._inputs:
            self.diverged.append("input " + name)
            return default
        v = self._inputs[name]
        if isinstance(v, dict):
            return v["_t"].encode("latin-1")
        return v

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0.0))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, 0)
        if i >= len(options):
            self.diverged.append("choice " + name)
            i = 0
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, min, max, alphabet=None):
        return self._get(name, "a" * min)

    def key(self, name, alphabet=None):
        return self._get(name, "key")

    def number_text(self, name, lo=-1000000.0, hi=1000000.0, whole=False):
        v = self._get(name, lo)
        if whole:
            return str(int(v)), int(v)
        t = plain_decimal(v)
        return t, float(t)

    def hex_text(self, name, width, lo=None, hi=None):
        v = self._get(name, 0)
        return ("%%0%dx" % width) % v, v

    # -- property
    def assume(self, cond):
        if not cond:
            self.diverged.append("assumption")
            raise Skip()

    def check(self, cond, label, detail=None):
        self.labels.append(label)
        if not cond:
            self.failures.append([label, None])

    def equal(self, a, b, label):
        self.labels.append(label)
        if not deep_eq(a, b):
            self.failures.append([label, "%r should be %r" % (
                jsonable(a), jsonable(b))])

    close = equal

    def near(self, a, b, label, tol=6e-7):
        self.labels.append(label)
        if not (is_num(a) and is_num(b) and
                (close(a, b, 1e-9) or abs(a - b) <= tol)):
            self.failures.append([label, "%r should be %r" % (
                jsonable(a), jsonable(b))])

    def differ(self, a, b, label):
        self.labels.append(label)
        if deep_eq(a, b):
            self.failures.append([label, "%r equals %r" % (
                jsonable(a), jsonable(b))])

    def le(self, a, b, label):
        self.labels.append(label)
        if not (a <= b or (is_num(a) and is_num(b) and close(a, b))):
            self.failures.append([label, "%r <= %r does not hold" % (a, b)])

    def lt(self, a, b, label):
        self.labels.append(label)
        if not a < b:
            self.failures.append([label, "%r < %r does not hold" % (a, b)])

    def same(self, a, b):
        return deep_eq(a, b)

    def fail(self, label):
        self.check(False, label)

    def reached(self, label):
        self.labels.append(label)

    def observe(self, name, value):
        self.observations.append([name, jsonable(value)])

    def skip(self):
        raise Skip()

    def gap(self, what):
        raise Gap(what)

    def both(self, *xs):
        return all(xs)

    def either(self, *xs):
        return any(xs)

    def negate(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def is_nan(self, x):
        return x != x

    def number_of(self, text):
        return float(text)

    # -- surroundings
    def set_time(self, f):
        self._time = f

    def set_sleep(self, f):
        self._sleep = f

    def set_random(self, f):
        self._random = f

    def set_randint(self, f):
        self._randint = f

    def set_reactor(self, r):
        self._reactor = r

    def set_md5(self, f):
        self._md5 = f

    def set_resolver(self, f):
        self._resolver = f

    def set_socket(self, f):
        self._socket = f

    def set_psutil(self, f):
        self._psutil = f

    def set_plugins(self, plugins):
        self._plugins = plugins
        self._plugins_set = True

    def set_node(self, name):
        self._node = name

    def set_file(self, name, text):
        path = os.path.join(SCRATCH, "%d-%s" % (len(os.listdir(SCRATCH)),
                                                name.replace("/", "_")))
        f = plain_open(path, "wb")
        f.write(text)
        f.close()
        if name.startswith("/"):
            # stands for the file of that name
            self._files[name] = path
            return name
        return path

    def carbon_managers(self):
        return self._carbon

    def errors_logged(self):
        return len([1 for k, a, w in self.logs if k == "err"])


def plain_decimal(v):
    s = "%.12f" % v
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s if s != "-0" else "0"


def observer(event):
    e = Current.env
    if e is not None:
        e.logs.append(("err" if event.get("isError") else "msg",
                       event.get("message", ()), event))


tlog.theLogPublisher.addObserver(observer)


def install_plugins():
    import twisted.plugin
    original = twisted.plugin.getPlugins

    def getPlugins(interface, package=None):
        e = Current.env
        if e is not None and e._plugins_set:
            return iter(list(e._plugins or []))
        if package is None:
            # the plug-ins of the repository, without scanning for others
            out = []
            for name in ("distinct_plugin", "sli_plugin"):
                mod = __import__("twisted.plugins." + name, {}, {}, ["x"])
                for v in vars(mod).values():
                    if not isinstance(v, type) and interface.providedBy(v):
                        out.append(v)
            return iter(out)
        return original(interface, package)
    twisted.plugin.getPlugins = getPlugins


install_plugins()


class Settings(dict):
    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, v):
        self[name] = v


def install_carbon():
    """Stand-ins for the parts of carbon the service uses (carbon itself does
    not import under Jython), anew for every case."""
    from twisted.application import service

    class CarbonClientManager(service.Service):
        def __init__(self, router):
            self.router = router
            self.started = []
            self.sent = []
            if Current.env is not None:
                Current.env._carbon.append(self)

        def startClient(self, destination):
            self.started.append(destination)

        def sendDatapoint(self, metric, datapoint):
            self.sent.append((metric, datapoint))

    class ConsistentHashingRouter(object):
        def __init__(self, *a, **k):
            pass

    carbon = types.ModuleType("carbon")
    carbon.__path__ = []
    sys.modules["carbon"] = carbon
    for name, content in (
            ("instrumentation", {"stats": {}}),
            ("conf", {"settings": Settings()}),
            ("routers", {"ConsistentHashingRouter": ConsistentHashingRouter}),
            ("client", {"CarbonClientManager": CarbonClientManager})):
        m = types.ModuleType("carbon." + name)
        m.__dict__.update(content)
        setattr(carbon, name, m)
        sys.modules["carbon." + name] = m


import logging as real_logging
_getLogger = real_logging.getLogger


def getLogger(*a):
    if Current.env is not None:
        return StdLogger()
    return _getLogger(*a)


real_logging.getLogger = getLogger


def purge():
    for name in list(sys.modules):
        if name == "txstatsd" or name.startswith("txstatsd.") or \
                name.startswith("twisted.plugins.distinct") or \
                name.startswith("twisted.plugins.sli"):
            del sys.modules[name]


def last_control(tb):
    """'code' if the exception went through the code under test after the
    harness last had control."""
    origin = None
    where = []
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        where.append("%s:%d:%s" % (os.path.basename(name), tb.tb_lineno,
                                   tb.tb_frame.f_code.co_name))
        if name.startswith(REPO + "/"):
            origin = "code"
        elif "/harness/" in name:
            origin = "harness"
        tb = tb.tb_next
    return origin, where[-4:]


def run_case(case):
    env = Env(case)
    out = {"exception": None, "gap": None}
    purge()
    try:
        real_time.time = now
        Current.env = env
        try:
            install_carbon()
            mod = __import__(case["harness"])
            getattr(mod, case["func"])(env, **dict(
                (str(k), v) for k, v in case["params"].items()))
        except Skip:
            out["skipped"] = True
        except Gap, e:
            out["gap"] = str(e)
        except Exception, e:
            origin, where = last_control(sys.exc_info()[2])
            if getattr(e, "planted", False) or origin == "code" and \
                    not getattr(e, "harness_gap", False):
                out["exception"] = [type(e).__name__, str(e)[:300], where]
            else:
                out["gap"] = "exception in harness %s: %s %r" % (
                    type(e).__name__, e, where)
        except:
            e = sys.exc_info()[1]
            origin, where = last_control(sys.exc_info()[2])
            out["exception"] = [type(e).__name__, str(e)[:300], where]
    finally:
        Current.env = None
    out["failures"] = env.failures
    out["labels"] = sorted(set(env.labels))
    out["observations"] = env.observations
    out["diverged"] = env.diverged
    return out


def run_limited(case, seconds):
    """The case on its own thread: a case that hangs is a finding too.  One
    that a busy machine keeps from running is not: what counts is the time it
    had the processor, or that it does nothing but wait."""
    import threading
    from java.lang import Thread
    from java.lang.management import ManagementFactory
    bean = ManagementFactory.getThreadMXBean()
    box = {}

    def go():
        box["thread"] = Thread.currentThread()
        try:
            box["out"] = run_case(case)
        except:
            box["out"] = {"gap": "driver: " + traceback.format_exc()[-800:],
                          "failures": [], "exception": None, "labels": [],
                          "observations": [], "diverged": []}
    t = threading.Thread(target=go)
    t.daemon = True
    t.setDaemon(True)
    t.start()
    started = _clock()
    used, since = 0.0, started
    while True:
        t.join(1.0)
        if not t.isAlive():
            return box["out"]
        now = _clock()
        thread = box.get("thread")
        cpu = used
        if thread is not None:
            cpu = max(0, bean.getThreadCpuTime(thread.getId())) / 1e9
        waits = thread is not None and str(thread.getState()) in (
            "WAITING", "TIMED_WAITING", "BLOCKED")
        if cpu > used + 0.01 or not waits:
            since = now
        used = cpu
        if cpu > seconds or now - since > 2 * seconds:
            return None
        if now - started > 10 * seconds:
            return {"late": True, "gap": "the real code was not given the time to run",
                    "failures": [], "exception": None, "labels": [],
                    "observations": [], "diverged": []}


def main(argv):
    global SCRATCH
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="verif-case-")
    sys.modules["psutil"] = Psutil("psutil")
    sys.path.insert(0, REPO)
    outf = open(argv[2], "a")
    limit = float(os.environ.get("VERIF_CASE_LIMIT", "20"))
    # import the libraries once, outside the first case's time limit
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        case = json.loads(line)
        started = _clock()
        res = run_limited(case, limit)
        if res is None:
            res = {"hang": True, "failures": [], "exception": None,
                   "gap": None, "labels": [], "observations": [],
                   "diverged": []}
        res["id"] = case["id"]
        res["s"] = round(_clock() - started, 3)
        outf.write(json.dumps(res) + "\n")
        outf.flush()
        sys.stdout.write("done %s\n" % case["id"])
        sys.stdout.flush()
        if res.get("hang") or res.get("late"):
            break
    outf.close()
    import shutil
    shutil.rmtree(SCRATCH, True)
    sys.stdout.flush()
    from java.lang import Runtime
    Runtime.getRuntime().halt(0)


main(sys.argv)
