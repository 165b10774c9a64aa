"""Environment stubs: the modules code under test imports that are not loaded
from source.  Each builder fills one module object of one world."""
import collections as native_collections
import datetime as native_datetime
import functools as native_functools
import inspect as native_inspect
import keyword as native_keyword
import logging as native_logging
import math
import os as native_os
import string as native_string
import sys as native_sys
import textwrap as native_textwrap
import traceback as native_traceback
import types as native_types
import warnings as native_warnings

import z3

import core
from core import cur
import rex
import rope
import runtime
import values
from runtime import iterate, truth, op_eq, op_lt
from values import Sym, SymInt, SymFloat, SymBool, zreal, zint

BUILDERS = {}
PACKAGES = set()


def stub(*names):
    def deco(f):
        for n in names:
            BUILDERS[n] = f
            while "." in n:
                n = n.rpartition(".")[0]
                PACKAGES.add(n)
        return f
    return deco


def has(name):
    return name in BUILDERS


def is_package(name):
    return name in PACKAGES


def build(world, name, module):
    if name in PACKAGES:
        module.__path__ = []
        module.__package__ = name
    BUILDERS[name](world, module)


def unavailable(what):
    def f(*a, **k):
        cur().unsupported(what)
    f.__name__ = what.split(".")[-1]
    return f


class FakeFile(object):
    """A readable text file."""

    def __init__(self, text):
        self.text = text
        self.lines = None
        self.closed = False

    def _lines(self):
        if self.lines is None:
            self.lines = runtime.call_attr(self.text, "splitlines", True)
        return self.lines

    def read(self, *a):
        t, self.text = self.text, ""
        self.lines = None
        return t

    def readline(self, *a):
        ls = self._lines()
        return ls.pop(0) if ls else ""

    def readlines(self):
        ls = list(self._lines())
        del self._lines()[:]
        return ls

    def __iter__(self):
        while True:
            l = self.readline()
            if isinstance(l, str) and l == "":
                return
            yield l

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# -- standard library ---------------------------------------------------------

@stub("time")
def _(w, m):
    def time():
        return w.time_func() if w.time_func is not None else 1000000000.0

    def sleep(dt):
        if w.sleep_func is not None:
            return w.sleep_func(dt)
    m.time = time
    m.sleep = sleep
    m.strftime = lambda *a: "date"
    m.localtime = m.gmtime = lambda *a: (2000, 1, 1, 0, 0, 0, 0, 1, 0)
    m.clock = time
    m.altzone = m.timezone = 0


@stub("random")
def _(w, m):
    def random():
        if w.random_func is None:
            cur().unsupported("random() without a source")
        return w.random_func()

    def randint(a, b):
        if w.randint_func is not None:
            return w.randint_func(a, b)
        cur().unsupported("randint() without a source")
    m.random = random
    m.randint = randint
    m.randrange = lambda a, b=None: randint(0, a - 1) if b is None else \
        randint(a, b - 1)
    m.uniform = lambda a, b: a + (b - a) * random()
    m.choice = lambda seq: seq[runtime.getitem(
        list(range(len(seq))), randint(0, len(seq) - 1))]
    m.normalvariate = unavailable("random.normalvariate")
    m.sample = unavailable("random.sample")
    m.shuffle = unavailable("random.shuffle")
    m.seed = lambda *a: None

    class Random(object):
        def __init__(self, *a):
            pass
    Random.random = staticmethod(random)
    Random.randint = staticmethod(randint)
    m.Random = Random
    m.SystemRandom = Random


@stub("math")
def _(w, m):
    def num(x):
        if isinstance(x, (str, rope.Rope)) or not values.is_num(x):
            raise TypeError("a float is required")
        return x

    def log(x, *base):
        x = num(x)
        if isinstance(x, SymInt):
            x = cur().concretise_int(x.e, "log argument")
        if isinstance(x, Sym):
            cur().unsupported("log of a symbolic real")
        if x <= 0:
            raise ValueError("math domain error")
        return math.log(x, *base)

    m.floor = lambda x: values.floor_(num(x))
    m.ceil = lambda x: values.ceil_(num(x))
    m.trunc = lambda x: values.trunc_(num(x))
    m.sqrt = lambda x: values.sqrt_(num(x))
    m.exp = lambda x: values.exp_(num(x))
    m.log = log
    m.log10 = lambda x: log(x, 10)
    m.pow = lambda a, b: values.to_float(values.power(a, b))
    m.fabs = lambda x: values.to_float(abs(num(x)))
    m.isnan = lambda x: isinstance(x, float) and x != x
    m.isinf = lambda x: isinstance(x, float) and x in (math.inf, -math.inf)
    m.pi = math.pi
    m.e = math.e
    m.modf = lambda x: (values.sub(x, values.to_float(values.trunc_(x))),
                        values.to_float(values.trunc_(x)))
    m.fsum = runtime.sum_
    m.fmod = unavailable("math.fmod")
    m.hypot = unavailable("math.hypot")
    m.copysign = unavailable("math.copysign")


@stub("bisect")
def _(w, m):
    def bisect_right(a, x, lo=0, hi=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            if truth(op_lt(x, a[mid])):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def bisect_left(a, x, lo=0, hi=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            if truth(op_lt(a[mid], x)):
                lo = mid + 1
            else:
                hi = mid
        return lo

    def insort_right(a, x, lo=0, hi=None):
        a.insert(bisect_right(a, x, lo, hi), x)

    def insort_left(a, x, lo=0, hi=None):
        a.insert(bisect_left(a, x, lo, hi), x)
    m.bisect = m.bisect_right = bisect_right
    m.bisect_left = bisect_left
    m.insort = m.insort_right = insort_right
    m.insort_left = insort_left


@stub("heapq")
def _(w, m):
    def heappush(h, x):
        h.append(x)
        i = len(h) - 1
        while i > 0:
            p = (i - 1) // 2
            if not truth(op_lt(h[i], h[p])):
                break
            h[i], h[p] = h[p], h[i]
            i = p

    def down(h, i):
        while True:
            c = 2 * i + 1
            if c >= len(h):
                break
            if c + 1 < len(h) and truth(op_lt(h[c + 1], h[c])):
                c += 1
            if not truth(op_lt(h[c], h[i])):
                break
            h[i], h[c] = h[c], h[i]
            i = c

    def heappop(h):
        last = h.pop()
        if not h:
            return last
        top, h[0] = h[0], last
        down(h, 0)
        return top

    def heapreplace(h, x):
        top, h[0] = h[0], x
        down(h, 0)
        return top

    def heappushpop(h, x):
        if h and truth(op_lt(h[0], x)):
            x, h[0] = h[0], x
            down(h, 0)
        return x

    def heapify(h):
        for i in range(len(h) // 2 - 1, -1, -1):
            down(h, i)
    m.heappush, m.heappop, m.heapreplace = heappush, heappop, heapreplace
    m.heappushpop, m.heapify = heappushpop, heapify
    m.nlargest = lambda n, it, key=None: runtime.sorted_(
        it, key=key, reverse=True)[:n]
    m.nsmallest = lambda n, it, key=None: runtime.sorted_(it, key=key)[:n]


class Deque(object):
    """collections.deque; as in Jython, iterating one that changes raises."""

    def __init__(self, it=(), maxlen=None):
        self._l = []
        self._v = 0
        self.maxlen = maxlen
        for x in iterate(it):
            self.append(x)

    def append(self, x):
        self._v += 1
        self._l.append(x)
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop(0)

    def appendleft(self, x):
        self._v += 1
        self._l.insert(0, x)
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop()

    def extend(self, it):
        for x in iterate(it):
            self.append(x)

    def extendleft(self, it):
        for x in iterate(it):
            self.appendleft(x)

    def pop(self):
        if not self._l:
            raise IndexError("pop from an empty deque")
        self._v += 1
        return self._l.pop()

    def popleft(self):
        if not self._l:
            raise IndexError("pop from an empty deque")
        self._v += 1
        return self._l.pop(0)

    def clear(self):
        self._v += 1
        self._l = []

    def remove(self, x):
        for i, y in enumerate(self._l):
            if truth(op_eq(x, y)):
                self._v += 1
                del self._l[i]
                return
        raise ValueError("deque.remove(x): x not in deque")

    def rotate(self, n=1):
        self._v += 1
        if self._l:
            n %= len(self._l)
            self._l = self._l[-n:] + self._l[:-n] if n else self._l

    def count(self, x):
        return sum(1 for y in self._l if truth(op_eq(x, y)))

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        return self._l[i]

    def __setitem__(self, i, v):
        self._l[i] = v

    def __delitem__(self, i):
        self._v += 1
        del self._l[i]

    def __iter__(self):
        v = self._v
        i = 0
        while i < len(self._l):
            x = self._l[i]
            i += 1
            yield x
            if self._v != v:
                raise RuntimeError("deque changed size during iteration")

    def __reversed__(self):
        return iter(self._l[::-1])

    def __contains__(self, x):
        return any(y is x or truth(op_eq(x, y)) for y in self._l)

    def __eq__(self, o):
        return isinstance(o, Deque) and truth(op_eq(self._l, o._l))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __repr__(self):
        return runtime.py_str(["deque"])


Deque.__name__ = "deque"


@stub("collections")
def _(w, m):
    class defaultdict(runtime.SymDict):
        def __init__(self, factory=None, *a, **k):
            self.default_factory = factory
            runtime.SymDict.__init__(self, *a, **k)

        def __missing__(self, key):
            if self.default_factory is None:
                raise KeyError(key)
            v = self.default_factory()
            self[key] = v
            return v

    class Counter(runtime.SymDict):
        def __init__(self, it=None, **k):
            runtime.SymDict.__init__(self)
            if it is not None:
                self.update(it)

        def __missing__(self, key):
            return 0

        def update(self, it=(), **k):
            if isinstance(it, runtime.SymDict):
                for key, v in it.items():
                    self[key] = self.get(key, 0) + v
            else:
                for x in iterate(it):
                    self[x] = self.get(x, 0) + 1

    m.deque = Deque
    m.defaultdict = defaultdict
    m.OrderedDict = runtime.SymDict
    m.Counter = Counter
    m.namedtuple = native_collections.namedtuple
    m.Mapping = runtime.SymDict
    m.Callable = object


@stub("re", "sre")
def _(w, m):
    for k, v in vars(rex).items():
        if not k.startswith("__"):
            setattr(m, k, v)
    import re
    for k in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X",
              "VERBOSE", "U", "UNICODE", "L", "LOCALE"):
        v = getattr(re, k)
        setattr(m, k, 0 if k in ("U", "UNICODE", "L", "LOCALE") else int(v))
    m.error = rex.error


class Token(object):
    pass


JSON_CHARS = core.MASK_ALL


def to_jsonable(x):
    if isinstance(x, (str, rope.Rope, int, float, Sym)) or x is None:
        return x
    if isinstance(x, (dict, runtime.SymDict)):
        return [("dict",)] and {"__dict__": [
            (k if isinstance(k, (str, rope.Rope)) else runtime.py_str(k),
             to_jsonable(v)) for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [to_jsonable(y) for y in x]
    raise TypeError("%s is not JSON serializable" % runtime.py_repr(x))


def from_jsonable(x):
    if isinstance(x, dict):
        return runtime.SymDict([(k, from_jsonable(v))
                                for k, v in x["__dict__"]])
    if isinstance(x, list):
        return [from_jsonable(y) for y in x]
    return x


@stub("json", "simplejson")
def _(w, m):
    def dumps(x, *a, **k):
        data = to_jsonable(x)
        t = rope.Tok(cur().fresh_name("json"), JSON_CHARS)
        t.json = data
        return rope.Rope([t])

    def loads(text, *a, **k):
        us = rope.units(text)
        if len(us) == 1 and hasattr(us[0], "json"):
            return from_jsonable(us[0].json)
        if isinstance(text, str):
            import json

            def conv(x):
                if isinstance(x, dict):
                    return runtime.SymDict([(k, conv(v))
                                            for k, v in x.items()])
                if isinstance(x, list):
                    return [conv(y) for y in x]
                return x
            return conv(json.loads(text))
        cur().unsupported("json of composed text")
    m.dumps = dumps
    m.loads = loads


class HexTok(rope.Tok):
    pass


def hex_text(value, width):
    """Text of exactly `width` hexadecimal digits of a symbolic integer."""
    t = rope.Tok(cur().fresh_name("hex"), rope.DIGITS | core.mask_of("abcdef"),
                 num=value)
    t.origin = ("hex", value)
    t.width = width
    e = zint(value)
    t.text = lambda mo: ("%%0%dx" % width) % mo.eval(e, True).as_long()
    return rope.Rope([t])


@stub("hashlib")
def _(w, m):
    def make(algo):
        class Hash(object):
            def __init__(self, text=""):
                self.parts = [text]

            def update(self, text):
                self.parts.append(text)

            def _run(self):
                text = rope.join("", self.parts)
                if w.md5_func is None:
                    if isinstance(text, str):
                        import hashlib
                        return getattr(hashlib, algo)(
                            text.encode("latin-1")).hexdigest()
                    cur().unsupported("hash of symbolic text")
                return w.md5_func(text)

            def hexdigest(self):
                return self._run()

            def digest(self):
                h = self._run()
                if isinstance(h, str):
                    return bytes.fromhex(h).decode("latin-1")
                cur().unsupported("digest of symbolic text")
        return Hash
    m.md5 = make("md5")
    m.sha1 = make("sha1")
    m.sha256 = make("sha256")


@stub("sys")
def _(w, m):
    m.maxint = 2147483647
    m.maxsize = 2147483647
    m.version_info = (2, 7, 3, "final", 0)
    m.version = "2.7.3"
    m.platform = "java"
    m.argv = ["prog"]
    m.modules = w.modules
    m.path = []
    m.byteorder = "big"
    m.maxunicode = 1114111
    m.exc_info = native_sys.exc_info
    m.exc_clear = lambda: None
    m._getframe = native_sys._getframe
    m._current_frames = lambda: runtime.SymDict()
    m.stdout = m.stderr = Sink()
    m.getdefaultencoding = lambda: "ascii"
    m.getrecursionlimit = lambda: 1000
    m.exit = unavailable("sys.exit")


class Sink(object):
    encoding = None

    def write(self, *a):
        pass

    def flush(self):
        pass


@stub("os.path")
def _(w, m):
    import posixpath
    for k in ("basename", "dirname", "splitext"):
        setattr(m, k, getattr(posixpath, k))
    m.join = lambda *a: runtime.rope.join("/", a)
    m.exists = lambda p: rope.fix_text(p) in w.files
    m.abspath = lambda p: p
    m.normcase = lambda p: p


@stub("os")
def _(w, m):
    m.path = w.load("os.path")
    m.getpid = lambda: 4242
    m.environ = runtime.SymDict()
    m.name = "java"
    m.sep = "/"
    m.linesep = "\n"
    m.error = OSError
    m.getcwd = lambda: "/"
    m.getuid = m.getgid = lambda: 0


@stub("platform")
def _(w, m):
    m.node = lambda: w.node_name
    m.system = lambda: "Java"


class SocketError(OSError):
    pass


class GaiError(SocketError):
    pass


class HError(SocketError):
    pass


class SocketTimeout(SocketError):
    pass


@stub("socket")
def _(w, m):
    m.error = SocketError
    m.gaierror = GaiError
    m.herror = HError
    m.timeout = SocketTimeout
    m.AF_INET, m.AF_INET6, m.AF_UNIX = 2, 23, 1
    m.SOCK_STREAM, m.SOCK_DGRAM = 1, 2
    m.SOL_UDP, m.SOL_TCP, m.SOL_SOCKET = 17, 6, 1
    m.IPPROTO_UDP, m.IPPROTO_TCP = 17, 6

    def getaddrinfo(*a):
        if w.resolver is None:
            cur().unsupported("getaddrinfo without a resolver")
        return w.resolver(*a)

    def socket(*a):
        if w.socket_factory is None:
            cur().unsupported("socket without a factory")
        return w.socket_factory(*a)

    def gethostbyname(host):
        return getaddrinfo(host, None)[0][4][0]
    m.getaddrinfo = getaddrinfo
    m.socket = socket
    m.gethostbyname = gethostbyname


@stub("errno")
def _(w, m):
    import errno
    for k in dir(errno):
        if k[0].isupper():
            setattr(m, k, getattr(errno, k))


@stub("logging")
def _(w, m):
    for k in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL",
              "FATAL", "NOTSET"):
        setattr(m, k, getattr(native_logging, k))
    m.getLogger = lambda *a: w.std_logger()
    for k in ("debug", "info", "warning", "error", "critical", "exception"):
        setattr(m, k, lambda *a, **kw: None)


@stub("threading")
def _(w, m):
    class Thread(object):
        """A thread that never runs by itself: harnesses call run()."""
        ident = 1
        name = "thread"

        def __init__(self, group=None, target=None, name=None, args=(),
                     kwargs=None):
            self.daemon = False
            self.started = False

        def start(self):
            if self.started:
                raise RuntimeError("threads can only be started once")
            self.started = True

        def run(self):
            pass

        def join(self, *a):
            pass

        def isAlive(self):
            return self.started
        is_alive = isAlive

        def setDaemon(self, v):
            self.daemon = v

        def getName(self):
            return self.name

    main = Thread()
    m.Thread = Thread
    m.currentThread = m.current_thread = lambda: main

    class Lock(object):
        def acquire(self, *a):
            return True

        def release(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Event(object):
        def __init__(self):
            self.flag = False

        def set(self):
            self.flag = True

        def clear(self):
            self.flag = False

        def isSet(self):
            return self.flag
        is_set = isSet

        def wait(self, timeout=None):
            if w.sleep_func is not None and timeout is not None and \
                    not self.flag:
                w.sleep_func(timeout)
            return self.flag
    m.Lock = m.RLock = Lock
    m.Event = Event


@stub("Queue")
def _(w, m):
    class Empty(Exception):
        pass

    class Full(Exception):
        pass

    class Queue(object):
        def __init__(self, maxsize=0):
            self._q = []
            self.maxsize = maxsize

        def put(self, x, *a, **k):
            self._q.append(x)
        put_nowait = put

        def get(self, block=True, timeout=None):
            if not self._q:
                if block and timeout is not None and \
                        w.sleep_func is not None:
                    w.sleep_func(timeout)
                if not self._q:
                    raise Empty()
            return self._q.pop(0)

        def get_nowait(self):
            return self.get(False)

        def empty(self):
            return not self._q

        def qsize(self):
            return len(self._q)
    m.Queue, m.Empty, m.Full = Queue, Empty, Full


@stub("traceback")
def _(w, m):
    m.format_stack = lambda *a: ["stack"]
    m.format_exc = lambda *a: "traceback"
    m.print_exc = lambda *a: None
    m.extract_tb = lambda *a: []
    m.format_exception = lambda *a: ["traceback"]
    m.format_tb = lambda *a: []


@stub("functools")
def _(w, m):
    def update_wrapper(wrapper, wrapped, assigned=("__module__", "__name__",
                                                   "__doc__"),
                       updated=("__dict__",)):
        # Python 2: a missing attribute is an error
        for a in assigned:
            setattr(wrapper, a, getattr(wrapped, a))
        for a in updated:
            getattr(wrapper, a).update(getattr(wrapped, a, {}))
        return wrapper

    def wraps(wrapped, **k):
        return lambda f: update_wrapper(f, wrapped, **k)
    m.update_wrapper = update_wrapper
    m.wraps = wraps
    m.partial = native_functools.partial
    m.reduce = runtime.reduce_
    m.cmp_to_key = lambda f: (lambda k: runtime.CmpKey(k, f))


@stub("itertools")
def _(w, m):
    import itertools
    m.chain = itertools.chain
    m.count = itertools.count
    m.repeat = itertools.repeat
    m.islice = itertools.islice
    m.cycle = itertools.cycle
    m.izip = lambda *a: iter(runtime.zip_(*a))
    m.imap = lambda f, *a: iter(runtime.map_(f, *a))
    m.ifilter = lambda f, it: iter(runtime.filter_(f, list(iterate(it))))
    m.takewhile = itertools.takewhile
    m.dropwhile = itertools.dropwhile
    m.product = itertools.product
    m.izip_longest = itertools.zip_longest

    def groupby(it, key=None):
        cur_key, group = None, None
        for x in iterate(it):
            k = x if key is None else key(x)
            if group is not None and truth(op_eq(k, cur_key)):
                group.append(x)
            else:
                if group is not None:
                    yield cur_key, group
                cur_key, group = k, [x]
        if group is not None:
            yield cur_key, group
    m.groupby = groupby


@stub("operator")
def _(w, m):
    import operator
    m.itemgetter = lambda *i: (lambda x: runtime.getitem(x, i[0])
                               if len(i) == 1 else
                               tuple(runtime.getitem(x, j) for j in i))
    m.attrgetter = operator.attrgetter
    m.add = operator.add
    m.mul = operator.mul
    m.sub = operator.sub
    m.div = runtime.op_div
    m.truediv = runtime.op_truediv
    m.lt, m.gt, m.eq = op_lt, runtime.op_gt, op_eq
    m.le, m.ge, m.ne = runtime.op_le, runtime.op_ge, runtime.op_ne


@stub("copy")
def _(w, m):
    def copy(x):
        if isinstance(x, (Sym, str, int, float, tuple)) or x is None:
            return x
        if isinstance(x, list):
            return list(x)
        if isinstance(x, (runtime.SymDict, runtime.SymSet)):
            return x.copy()
        if isinstance(x, Deque):
            return Deque(x._l, x.maxlen)
        cur().unsupported("copy of an object")

    def deepcopy(x, memo=None):
        if isinstance(x, (Sym, str, int, float)) or x is None:
            return x
        if isinstance(x, list):
            return [deepcopy(y) for y in x]
        if isinstance(x, tuple):
            return tuple(deepcopy(y) for y in x)
        if isinstance(x, runtime.SymDict):
            return runtime.SymDict([(k, deepcopy(v)) for k, v in x.items()])
        cur().unsupported("deepcopy of an object")
    m.copy, m.deepcopy = copy, deepcopy


@stub("types")
def _(w, m):
    for k in ("FunctionType", "MethodType", "GeneratorType", "ModuleType",
              "LambdaType", "BuiltinFunctionType"):
        setattr(m, k, getattr(native_types, k))
    m.NoneType = type(None)
    m.StringType = runtime.str_
    m.StringTypes = (runtime.str_,)
    m.UnicodeType = runtime.unicode_
    m.InstanceType = Token
    m.ClassType = Token
    m.ListType, m.TupleType, m.DictType = list, tuple, runtime.SymDict
    m.IntType, m.FloatType = runtime.int_, runtime.float_


def simple(name, module, names=None):
    def f(w, m):
        for k in names or [k for k in dir(module) if not k.startswith("__")]:
            setattr(m, k, getattr(module, k))
    BUILDERS[name] = f


simple("textwrap", native_textwrap)
simple("string", native_string)
simple("keyword", native_keyword)
simple("datetime", native_datetime)
simple("contextlib", __import__("contextlib"))
simple("abc", __import__("abc"))
simple("decimal", __import__("decimal"))
simple("struct", __import__("struct"))


@stub("inspect")
def _(w, m):
    for k in ("ismethod", "isfunction", "isclass", "getmro"):
        setattr(m, k, getattr(native_inspect, k))
    m.getargspec = native_inspect.getfullargspec


@stub("warnings")
def _(w, m):
    m.warn = m.warn_explicit = m.simplefilter = m.filterwarnings = \
        lambda *a, **k: None
    m.catch_warnings = native_warnings.catch_warnings


@stub("gc")
def _(w, m):
    m.collect = lambda *a: 0


@stub("weakref")
def _(w, m):
    import weakref
    m.ref = weakref.ref
    m.WeakKeyDictionary = weakref.WeakKeyDictionary


class StringIO_(object):
    def __init__(self, text=""):
        self.parts = [text]
        self.reader = None

    def write(self, t):
        self.parts.append(t)

    def getvalue(self):
        return rope.join("", self.parts)

    def _r(self):
        if self.reader is None:
            self.reader = FakeFile(self.getvalue())
        return self.reader

    def read(self, *a):
        return self._r().read()

    def readline(self, *a):
        return self._r().readline()

    def readlines(self):
        return self._r().readlines()

    def __iter__(self):
        return iter(self._r())

    def seek(self, *a):
        self.reader = None

    def close(self):
        pass


@stub("StringIO", "cStringIO", "io")
def _(w, m):
    m.StringIO = StringIO_
    m.BytesIO = StringIO_
    m.open = w.open_file


@stub("UserDict")
def _(w, m):
    class DictMixin(object):
        def __iter__(self):
            for k in self.keys():
                yield k

        def has_key(self, key):
            return key in self

        def iteritems(self):
            for k in self.keys():
                yield (k, self[k])

        def get(self, key, default=None):
            try:
                return self[key]
            except KeyError:
                return default

        def items(self):
            return [(k, self[k]) for k in self.keys()]

        def values(self):
            return [self[k] for k in self.keys()]
    m.DictMixin = DictMixin
    m.UserDict = runtime.SymDict


@stub("__builtin__")
def _(w, m):
    for k, v in w.builtins.items():
        if not k.startswith("__"):
            setattr(m, k, v)


@stub("psutil")
def _(w, m):
    m.Process = lambda *a: w.psutil("Process", *a)
    m.cpu_times = lambda *a, **k: w.psutil("cpu_times", *a, **k)
    m.virtual_memory = lambda *a, **k: w.psutil("virtual_memory", *a, **k)
    m.NoSuchProcess = type("NoSuchProcess", (Exception,), {})
    m.AccessDenied = type("AccessDenied", (Exception,), {})


# -- zope -----------------------------------------------------------------------

@stub("zope.interface", "zope.interface.declarations",
      "zope.interface.interface")
def _(w, m):
    class InterfaceMeta(type):
        def __call__(cls, *a, **k):
            if a:
                return a[0]
            return type.__call__(cls)

        def providedBy(cls, obj):
            return any(cls in getattr(c, "__provides__list__", ())
                       for c in type(obj).__mro__) or \
                cls in getattr(obj, "__provides__own__", ())

        def implementedBy(cls, klass):
            return cls in getattr(klass, "__provides__list__", ())

        def names(cls):
            return []

    class Interface(object, metaclass=InterfaceMeta):
        pass

    def implements(*ifaces):
        ns = native_sys._getframe(1).f_locals
        ns["__provides__list__"] = list(ifaces)

    def implementer(*ifaces):
        def deco(cls):
            old = list(getattr(cls, "__provides__list__", ()))
            try:
                cls.__provides__list__ = old + list(ifaces)
            except (TypeError, AttributeError):
                pass
            return cls
        return deco
    m.Interface = Interface
    m.Attribute = lambda *a: None
    m.implements = implements
    m.implementer = implementer
    m.implementsOnly = implements
    m.classProvides = lambda *a: None
    m.moduleProvides = lambda *a: None
    m.directlyProvides = lambda o, *i: setattr(o, "__provides__own__", i)
    m.alsoProvides = m.directlyProvides
    m.classImplements = lambda c, *i: implementer(*i)(c)
    m.provider = lambda *i: (lambda o: o)
    m.providedBy = lambda o: getattr(o, "__provides__list__", ())
    m.declarations = m
    m.interface = m


@stub("zope")
def _(w, m):
    m.__path__ = []


@stub("zope.interface.verify")
def _(w, m):
    m.verifyObject = lambda *a: True


# -- twisted --------------------------------------------------------------------

@stub("twisted")
def _(w, m):
    m.__path__ = []
    m.__version__ = "15.4.0"


@stub("twisted.python")
def _(w, m):
    m.__path__ = []


@stub("twisted.internet")
def _(w, m):
    m.__path__ = []

    m.reactor = w.load("twisted.internet.reactor")


@stub("twisted.internet.reactor")
def _(w, m):
    def getattr_(name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(w.get_reactor(), name)
    m.__getattr__ = getattr_


@stub("twisted.python.log")
def _(w, m):
    class Failure(object):
        pass

    def msg(*message, **kw):
        w.log("msg", message, kw)

    def err(_stuff=None, _why=None, **kw):
        w.log("err", (_stuff, _why), kw)
    m.msg = msg
    m.err = m.deferr = err
    m.startLogging = m.addObserver = m.removeObserver = lambda *a, **k: None
    m.callWithLogger = lambda l, f, *a, **k: f(*a, **k)
    m.callWithContext = lambda c, f, *a, **k: f(*a, **k)
    m.Logger = type("Logger", (object,), {"logPrefix": lambda s: "-"})


@stub("twisted.logger")
def _(w, m):
    class Logger(object):
        def __init__(self, *a, **k):
            pass

        def __get__(self, obj, cls=None):
            return self

        def failure(self, fmt, *a, **k):
            w.log("err", (k.get("failure"), fmt), k)

        def info(self, *a, **k):
            w.log("msg", a, k)
        debug = warn = error = critical = info
    m.Logger = Logger


@stub("twisted.python.failure")
def _(w, m):
    class Failure(Exception):
        def __init__(self, exc_value=None, exc_type=None, exc_tb=None,
                     captureVars=False):
            if exc_value is None:
                exc_value = native_sys.exc_info()[1]
                if exc_value is None:
                    raise NoCurrentExceptionError()
            self.value = exc_value
            self.type = type(exc_value) if exc_type is None else exc_type
            self.tb = None
            self.frames = []
            self.stack = []

        def check(self, *types):
            for t in types:
                if isinstance(self.value, t):
                    return t
            return None

        def trap(self, *types):
            r = self.check(*types)
            if not r:
                raise self.value
            return r

        def raiseException(self):
            raise self.value

        def throwExceptionIntoGenerator(self, g):
            return g.throw(self.value)

        def getErrorMessage(self):
            return runtime.py_str(self.value)

        def getTraceback(self, *a, **k):
            return "traceback"
        getBriefTraceback = getTraceback

        def printTraceback(self, *a, **k):
            pass
        printBriefTraceback = printDetailedTraceback = printTraceback

        def cleanFailure(self):
            pass

        def _findFailure(self):
            return None

        def __str__(self):
            return "[Failure instance]"
        __repr__ = __str__

    class NoCurrentExceptionError(Exception):
        pass
    m.Failure = Failure
    m.NoCurrentExceptionError = NoCurrentExceptionError
    m.startDebugMode = lambda: None


@stub("twisted.python.reflect")
def _(w, m):
    def accumulateClassList(classObj, attr, listObj, baseClass=None):
        for base in classObj.__bases__:
            accumulateClassList(base, attr, listObj)
        if baseClass is None or baseClass in classObj.__bases__:
            listObj.extend(classObj.__dict__.get(attr, []))

    def accumulateClassDict(classObj, attr, adict, baseClass=None):
        for base in classObj.__bases__:
            accumulateClassDict(base, attr, adict)
        if baseClass is None or baseClass in classObj.__bases__:
            adict.update(classObj.__dict__.get(attr, {}))

    def addMethodNamesToDict(classObj, dict, prefix, baseClass=None):
        for base in classObj.__bases__:
            addMethodNamesToDict(base, dict, prefix, baseClass)
        if baseClass is None or baseClass in classObj.__bases__:
            for name, method in classObj.__dict__.items():
                if type(method) is native_types.FunctionType and \
                        name[:len(prefix)] == prefix and len(name):
                    dict[name[len(prefix):]] = 1

    def prefixedMethodNames(classObj, prefix):
        d = {}
        addMethodNamesToDict(classObj, d, prefix)
        return list(d.keys())

    m.accumulateClassList = accumulateClassList
    m.accumulateClassDict = accumulateClassDict
    m.addMethodNamesToDict = addMethodNamesToDict
    m.prefixedMethodNames = prefixedMethodNames
    m.safe_str = runtime.py_str
    m.safe_repr = runtime.py_repr
    m.qual = m.fullyQualifiedName = lambda c: getattr(c, "__name__", "object")
    m.namedAny = unavailable("namedAny")
    m.isinst = lambda o, c: isinstance(o, c)


@stub("twisted.python.util")
def _(w, m):
    def uniquify(lst):
        out = []
        for x in lst:
            if x not in out:
                out.append(x)
        return out
    m.uniquify = uniquify

    def pad_to(n, seq, default=None):
        if len(seq) > n:
            raise ValueError("%d elements is more than %d." % (len(seq), n))
        return list(seq) + [default] * (n - len(seq))
    m.padTo = pad_to
    m.makeStatBar = lambda *a: None
    m.nameToLabel = lambda s: s
    m.mergeFunctionMetadata = lambda f, g: g
    m.unsignedID = id
    m.runWithWarningsSuppressed = lambda s, f, *a, **k: f(*a, **k)
    m.FancyEqMixin = object
    m.FancyStrMixin = object


@stub("twisted.python.compat")
def _(w, m):
    m._PY3 = False
    m.unicode = runtime.unicode_
    m.nativeString = lambda s: s
    m.networkString = lambda s: s
    m.cmp = runtime.cmp_
    m.comparable = lambda c: c
    m.range = range
    m.iterbytes = lambda s: iter(list(s))
    m.reraise = lambda e, tb: (_ for _ in ()).throw(e)
    m.long = runtime.long_
    m.intToBytes = lambda n: runtime.py_str(n)
    m.lazyByteSlice = lambda s, o=0, size=None: s[o:]
    m.iteritems = lambda d: iter(d.items())
    m.itervalues = lambda d: iter(d.values())
    m.items = lambda d: list(d.items())
    m.inet_pton = unavailable("inet_pton")
    m.isabs = lambda p: p[:1] == "/"
    m.escape = lambda s: s
    m.NativeStringIO = StringIO_
    m.urllib_parse = Token()
    m.unquote = lambda s: s


@stub("twisted.python.components")
def _(w, m):
    m.registerAdapter = lambda *a: None
    m.proxyForInterface = lambda *a, **k: object
    m.Componentized = object
    m.Adapter = object


@stub("twisted.python.deprecate", "twisted.python.versions",
      "twisted.python.lockfile", "twisted.persisted.sob",
      "twisted.python.runtime", "twisted.python.filepath",
      "twisted.python._oldstyle", "twisted.python.context")
def _(w, m):
    ident = lambda *a, **k: (lambda f: f)
    m.deprecated = ident
    m.warnAboutFunction = m.deprecatedModuleAttribute = lambda *a, **k: None
    m.getDeprecationWarningString = lambda *a, **k: ""
    m.Version = lambda *a, **k: a
    m._oldStyle = lambda c: c
    m.Persistent = object
    m.IPersistable = object
    m.platform = Token()
    m.platformType = "java"
    m.FilesystemLock = object


@stub("twisted.internet.interfaces")
def _(w, m):
    iface = w.load("zope.interface").Interface
    made = {}

    def getattr_(name):
        if name.startswith("I") and name[1:2].isupper():
            if name not in made:
                made[name] = type(iface)(name, (iface,), {})
            return made[name]
        raise AttributeError(name)
    m.__getattr__ = getattr_


@stub("twisted.internet.error")
def _(w, m):
    made = {}

    def getattr_(name):
        if not name[:1].isupper():
            raise AttributeError(name)
        if name not in made:
            made[name] = type(name, (Exception,), {})
        return made[name]
    m.__getattr__ = getattr_
    m.MessageLengthError = type("MessageLengthError", (Exception,), {})


@stub("twisted.internet.main")
def _(w, m):
    m.CONNECTION_DONE = Exception("done")
    m.CONNECTION_LOST = Exception("lost")


@stub("twisted.internet.base")
def _(w, m):
    err = w.load("twisted.internet.error")

    class DelayedCall(object):
        def __init__(self, time, func, args, kw, cancel, reset, seconds=None):
            self.time, self.func, self.args, self.kw = time, func, args, kw
            self.canceller = cancel
            self.resetter = reset
            self.seconds = seconds
            self.cancelled = self.called = 0
            self.delayed_time = 0

        def getTime(self):
            return self.time

        def cancel(self):
            if self.cancelled:
                raise err.AlreadyCancelled()
            if self.called:
                raise err.AlreadyCalled()
            self.canceller(self)
            self.cancelled = 1

        def active(self):
            return not (self.cancelled or self.called)
    m.DelayedCall = DelayedCall


@stub("twisted.internet.abstract")
def _(w, m):
    def isIPAddress(addr):
        dotted = runtime.call_attr(addr, "split", ".")
        if len(dotted) != 4:
            return False
        octets = []
        for p in dotted:
            try:
                octets.append(rope.parse_int(p))
            except ValueError:
                return False
        for o in octets:
            if not truth(values.and_(runtime.op_ge(o, 0),
                                     runtime.op_le(o, 255))):
                return False
        return True
    m.isIPAddress = isIPAddress
    m.isIPv6Address = lambda a: False


@stub("twisted.plugin")
def _(w, m):
    iface = w.load("zope.interface").Interface
    m.IPlugin = type(iface)("IPlugin", (iface,), {})

    def getPlugins(interface, package=None):
        if w.plugins is not None:
            return iter(list(w.plugins))
        out = []
        for name in ("twisted.plugins.distinct_plugin",
                     "twisted.plugins.sli_plugin"):
            mod = w.load(name)
            for v in list(vars(mod).values()):
                if not isinstance(v, type) and \
                        getattr(type(v), "__provides__list__", None) and \
                        interface.providedBy(v):
                    out.append(v)
        return iter(out)
    m.getPlugins = getPlugins


@stub("twisted.plugins")
def _(w, m):
    m.__path__ = []


@stub("twisted.application")
def _(w, m):
    m.__path__ = []


@stub("twisted.protocols")
def _(w, m):
    m.__path__ = []


@stub("twisted.web")
def _(w, m):
    m.__path__ = []


@stub("twisted.persisted")
def _(w, m):
    m.__path__ = []


@stub("twisted.web._responses", "twisted.web.http")
def _(w, m):
    m.OK, m.NOT_FOUND, m.FORBIDDEN = 200, 404, 403
    m.INTERNAL_SERVER_ERROR = 500
    m.BAD_REQUEST, m.SERVICE_UNAVAILABLE = 400, 503
    m.HTTPFactory = object


@stub("twisted.web.error")
def _(w, m):
    m.UnsupportedMethod = type("UnsupportedMethod", (Exception,), {})


@stub("twisted.web.resource")
def _(w, m):
    class Resource(object):
        isLeaf = 0
        server = None

        def __init__(self):
            self.children = {}

        def putChild(self, path, child):
            self.children[path] = child
            child.server = self.server

        def getChild(self, path, request):
            return NoResource("No such child resource.")

        def getChildWithDefault(self, path, request):
            for k, v in self.children.items():
                if truth(op_eq(k, path)):
                    return v
            return self.getChild(path, request)

        def render(self, request):
            meth = request.method
            f = getattr(self, "render_" + meth, None)
            if f is None:
                raise w.load("twisted.web.error").UnsupportedMethod(meth)
            return f(request)

        def render_HEAD(self, request):
            return self.render_GET(request)

    class ErrorPage(Resource):
        def __init__(self, status, brief, detail):
            Resource.__init__(self)
            self.code, self.brief, self.detail = status, brief, detail

        def render(self, request):
            request.setResponseCode(self.code)
            return "error page"

        def getChild(self, path, request):
            return self

    class NoResource(ErrorPage):
        def __init__(self, message="Sorry. No luck finding that resource."):
            ErrorPage.__init__(self, 404, "No Such Resource", message)

    class ForbiddenResource(ErrorPage):
        def __init__(self, message="Sorry, resource is forbidden."):
            ErrorPage.__init__(self, 403, "Forbidden Resource", message)
    m.Resource = Resource
    m.ErrorPage = ErrorPage
    m.NoResource = NoResource
    m.ForbiddenResource = ForbiddenResource
    m.IResource = object


@stub("twisted.web.server")
def _(w, m):
    class Site(object):
        def __init__(self, resource, *a, **k):
            self.resource = resource
    m.Site = Site
    m.NOT_DONE_YET = 1


# -- carbon ------------------------------------------------------------------------

@stub("carbon")
def _(w, m):
    m.__path__ = []


@stub("carbon.instrumentation")
def _(w, m):
    m.stats = runtime.SymDict()


@stub("carbon.conf")
def _(w, m):
    class Settings(runtime.SymDict):
        def __getattr__(self, name):
            try:
                return self[name]
            except KeyError:
                raise AttributeError(name)

        def __setattr__(self, name, v):
            if name in ("_e", "_i", "_s", "_dead"):
                object.__setattr__(self, name, v)
            else:
                self[name] = v
    m.settings = Settings()


@stub("carbon.routers")
def _(w, m):
    class ConsistentHashingRouter(object):
        def __init__(self, *a, **k):
            pass
    m.ConsistentHashingRouter = ConsistentHashingRouter


@stub("carbon.client")
def _(w, m):
    service = w.load("twisted.application.service")

    class CarbonClientManager(service.Service):
        def __init__(self, router):
            self.router = router
            self.started = []
            self.sent = []
            w.carbon_managers.append(self)

        def startClient(self, destination):
            self.started.append(destination)

        def sendDatapoint(self, metric, datapoint):
            self.sent.append((metric, datapoint))
    m.CarbonClientManager = CarbonClientManager
