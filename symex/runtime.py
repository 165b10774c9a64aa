"""Python 2 builtins and operators over native and symbolic values."""
import builtins as nb
import functools
import math
import sys
import types

import z3

import core
from core import cur, Abort
import values
from values import (Sym, SymBool, SymInt, SymFloat, SymNum, and_, or_, not_,
                    ite, is_num, is_intlike, is_special, zint, zreal, mkbool,
                    trunc_, round_, to_float)
import rope
from rope import Rope, mkrope, fix_text, jy_str_float, jy_repr_float

MISSING = object()


def is_text(x):
    return isinstance(x, (str, Rope))


def is_concrete(x):
    """No symbolic part inside (as far as hashing is concerned)."""
    if isinstance(x, Sym):
        return False
    if isinstance(x, tuple):
        return all(is_concrete(y) for y in x)
    return True


# -- dictionaries and sets ---------------------------------------------------

class DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymDict:
            return isinstance(x, dict) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)


class Entry(object):
    __slots__ = ("key", "value", "alive")

    def __init__(self, key, value):
        self.key = key
        self.value = value
        self.alive = True


class SymDict(object, metaclass=DictMeta):
    """Insertion-ordered dictionary; symbolic keys are told apart by forking.
    Iteration is weakly consistent, as in Jython: changes made while iterating
    raise nothing, deleted keys are skipped and new keys are not visited."""

    def __init__(self, *args, **kw):
        self._e = []
        self._i = {}
        self._s = 0         # number of symbolic keys alive
        self._dead = 0
        self.update(*args, **kw)

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self._e = []
        self._i = {}
        self._s = 0
        self._dead = 0
        return self

    # native lookups
    def _find(self, key):
        if is_concrete(key):
            try:
                e = self._i.get(key)
            except TypeError:
                raise TypeError("unhashable type")
            if e is not None:
                return e
            if not self._s:
                return None
            for e in self._e:
                if e.alive and not is_concrete(e.key):
                    if truth(op_eq(e.key, key)):
                        return e
            return None
        for e in self._e:
            if e.alive and e.key is key:
                return e
        for e in list(self._e):
            if e.alive and truth(op_eq(e.key, key)):
                return e
        return None

    def _compact(self):
        if self._dead > 32 and self._dead > len(self._e) // 2:
            self._e = [e for e in self._e if e.alive]
            self._dead = 0

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            f = getattr(type(self), "__missing__", None)
            if f is not None:
                return f(self, key)
            raise KeyError(key)
        return e.value

    def __setitem__(self, key, value):
        e = self._find(key)
        if e is not None:
            e.value = value
            return
        if isinstance(key, (list, dict, SymDict)) or (
                isinstance(key, set)):
            raise TypeError("unhashable type")
        e = Entry(key, value)
        self._e.append(e)
        if is_concrete(key):
            self._i[key] = e
        else:
            self._s += 1

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._kill(e)

    def _kill(self, e):
        e.alive = False
        self._dead += 1
        if is_concrete(e.key):
            del self._i[e.key]
        else:
            self._s -= 1
        self._compact()

    def __contains__(self, key):
        return self._find(key) is not None

    has_key = __contains__

    def __len__(self):
        return len(self._e) - self._dead

    def __bool__(self):
        return len(self) > 0

    def get(self, key, default=None):
        e = self._find(key)
        return default if e is None else e.value

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is None:
            self[key] = default
            return default
        return e.value

    def pop(self, key, *default):
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError(key)
        self._kill(e)
        return e.value

    def popitem(self):
        for e in self._e:
            if e.alive:
                self._kill(e)
                return (e.key, e.value)
        raise KeyError("popitem(): dictionary is empty")

    def clear(self):
        for e in self._e:
            e.alive = False
        self._e = []
        self._i = {}
        self._s = 0
        self._dead = 0

    def copy(self):
        return SymDict(self)

    def update(self, *args, **kw):
        for a in args:
            if isinstance(a, SymDict):
                if type.__instancecheck__(SymDict, a):
                    for e in list(a._e):
                        if e.alive:
                            self[e.key] = e.value
                else:
                    for k, v in a.items():
                        self[k] = v
            elif hasattr(a, "keys"):
                for k in a.keys():
                    self[k] = a[k]
            else:
                for k, v in iterate(a):
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def keys(self):
        return [e.key for e in self._e if e.alive]

    def values(self):
        return [e.value for e in self._e if e.alive]

    def items(self):
        return [(e.key, e.value) for e in self._e if e.alive]

    def iterkeys(self):
        for e in list(self._e):
            if e.alive:
                yield e.key

    def itervalues(self):
        for e in list(self._e):
            if e.alive:
                yield e.value

    def iteritems(self):
        for e in list(self._e):
            if e.alive:
                yield (e.key, e.value)

    viewkeys = keys
    viewvalues = values
    viewitems = items
    __iter__ = iterkeys

    def __eq__(self, other):
        if not isinstance(other, SymDict):
            return False
        if len(self) != len(other):
            return False
        conds = []
        for k, v in self.items():
            o = d_get(other, k)
            if o is MISSING:
                return False
            c = op_eq(v, o)
            if c is False:
                return False
            conds.append(c)
        return and_(*conds)

    def __ne__(self, other):
        return not_(self == other)

    __hash__ = None

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in iterate(keys):
            d[k] = value
        return d

    def __repr__(self):
        return "SymDict(%r)" % (self.items(),)


def d_get(d, k):
    if isinstance(d, dict):
        if is_concrete(k):
            return d.get(k, MISSING)
        for k2, v in d.items():
            if truth(op_eq(k2, k)):
                return v
        return MISSING
    e = d._find(k)
    return MISSING if e is None else e.value


class SetMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymSet:
            return isinstance(x, (set, frozenset)) or \
                type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)


class SymSet(object, metaclass=SetMeta):
    def __init__(self, it=()):
        self._d = SymDict()
        for x in iterate(it):
            self._d[x] = None

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def update(self, *its):
        for it in its:
            for x in iterate(it):
                self._d[x] = None

    def clear(self):
        self._d.clear()

    def copy(self):
        return SymSet(self)

    def __contains__(self, x):
        return x in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d.keys())

    def __bool__(self):
        return len(self._d) > 0

    def union(self, *its):
        s = SymSet(self)
        s.update(*its)
        return s

    def intersection(self, it):
        o = SymSet(it)
        return SymSet([x for x in self if x in o])

    def difference(self, it):
        o = SymSet(it)
        return SymSet([x for x in self if x not in o])

    def symmetric_difference(self, it):
        o = SymSet(it)
        return self.difference(o).union(o.difference(self))

    def issubset(self, it):
        o = SymSet(it)
        return all(x in o for x in self)

    def issuperset(self, it):
        return all(x in self for x in iterate(it))

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def __eq__(self, o):
        if not isinstance(o, SymSet):
            return False
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    __hash__ = object.__hash__


# -- truth and iteration -----------------------------------------------------

def truth(x):
    return True if x is True else False if x is False else bool(x)


def iterate(x):
    if isinstance(x, dict):
        return native_dict_iter(x)
    try:
        it = type(x).__iter__
    except AttributeError:
        it = None
    if it is None:
        if hasattr(type(x), "__getitem__"):
            return getitem_iter(x)
        raise TypeError("'%s' object is not iterable" % type_name(x))
    return iter(x)


def native_dict_iter(d):
    for k in list(d):
        if k in d:
            yield k


def getitem_iter(x):
    i = 0
    while True:
        try:
            v = x[i]
        except IndexError:
            return
        yield v
        i += 1


def type_name(x):
    if isinstance(x, Rope):
        return "str"
    if isinstance(x, SymInt):
        return "int"
    if isinstance(x, SymFloat):
        return "float"
    return type(x).__name__


# -- comparison ---------------------------------------------------------------

def op_eq(a, b):
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = op_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return and_(*conds)
    if isinstance(a, dict) and isinstance(b, SymDict):
        return SymDict(a) == (SymDict(b) if isinstance(b, dict) else b)
    if isinstance(a, (set, frozenset)) and isinstance(b, SymSet):
        return SymSet(a) == b
    return a == b


def op_ne(a, b):
    if isinstance(a, (tuple, list, dict, Sym)) or isinstance(b, Sym):
        return not_(op_eq(a, b))
    return a != b


def rank(x):
    if x is None:
        return (0, "")
    if is_num(x):
        return (1, "")
    return (2, type_name(x) if not is_text(x) else "str")


def py2_lt(a, b):
    """a < b with Python 2's ordering of unlike types."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
            isinstance(a, tuple) == isinstance(b, tuple):
        for x, y in zip(a, b):
            if x is y:
                continue
            if truth(op_eq(x, y)):
                continue
            return op_lt(x, y)
        return len(a) < len(b)
    ra, rb = rank(a), rank(b)
    if ra != rb:
        return ra < rb
    if ra[0] == 0:
        return False
    try:
        return a < b
    except TypeError:
        pass
    c = getattr(type(a), "__cmp__", None)
    if c is not None:
        return op_lt(c(a, b), 0)
    order = cur().cache.setdefault("addresses", [])
    for x in (a, b):
        if not any(x is y for y in order):
            order.append(x)
    pos = lambda x: next(i for i, y in enumerate(order) if y is x)
    return pos(a) < pos(b)


PLAIN = (int, float, str)


def op_lt(a, b):
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)) \
            and is_num(a) and is_num(b):
        return a < b
    if type(a) is str and type(b) is str:
        return a < b
    r = getattr(type(a), "__lt__", None)
    if r is not None and not isinstance(a, (tuple, list, str)):
        v = r(a, b) if not isinstance(a, Rope) else NotImplemented
        if v is not NotImplemented:
            return v
    if isinstance(a, (str, Rope)) and isinstance(b, (str, Rope)):
        return rope.rope_cmp(a, b) < 0
    if isinstance(a, SymSet) and isinstance(b, SymSet):
        return a <= b and not a == b
    return py2_lt(a, b)


def op_le(a, b):
    if is_num(a) and is_num(b):
        return a <= b
    if type(a) is str and type(b) is str:
        return a <= b
    if isinstance(a, SymSet):
        return a <= b
    if hasattr(type(a), "__dict__") and "__le__" in type(a).__dict__ and \
            not isinstance(a, (str, Rope, tuple, list, SymNum)):
        return a <= b
    return not_(op_lt(b, a))


def op_gt(a, b):
    if is_num(a) and is_num(b):
        return a > b
    if "__gt__" in type(a).__dict__ and \
            not isinstance(a, (str, Rope, tuple, list, SymNum)) and \
            type(a).__module__ not in ("builtins",):
        return a > b
    return op_lt(b, a)


def op_ge(a, b):
    if is_num(a) and is_num(b):
        return a >= b
    if isinstance(a, SymSet):
        return a >= b
    return op_le(b, a)


def op_in(a, b):
    if isinstance(b, (str, Rope)):
        if not is_text(a):
            raise TypeError("'in <string>' requires string as left operand")
        return rope.contains(b, a)
    if isinstance(b, dict):
        return d_get(b, a) is not MISSING
    if isinstance(b, (set, frozenset)) and not is_concrete(a):
        return any(truth(op_eq(x, a)) for x in b)
    if isinstance(b, (list, tuple)):
        for x in b:
            if x is a or truth(op_eq(x, a)):
                return True
        return False
    if hasattr(type(b), "__contains__"):
        return b.__contains__(a)
    for x in iterate(b):
        if x is a or truth(op_eq(x, a)):
            return True
    return False


def op_notin(a, b):
    return not_(op_in(a, b))


def op_not(x):
    if isinstance(x, SymBool):
        return not_(x)
    return not x


CMP = {"Lt": op_lt, "LtE": op_le, "Gt": op_gt, "GtE": op_ge, "Eq": op_eq,
       "NotEq": op_ne, "In": op_in, "NotIn": op_notin,
       "Is": lambda a, b: a is b, "IsNot": lambda a, b: a is not b}


def op_chain(left, ops, rights):
    r = True
    conds = []
    for op, f in zip(ops, rights):
        right = f()
        r = CMP[op](left, right)
        if isinstance(r, SymBool):
            conds.append(r)
        elif not r:
            return r
        left = right
    return and_(*conds) if conds else r


# -- arithmetic ---------------------------------------------------------------

def has(x, name):
    return not isinstance(x, (Sym, int, float)) and hasattr(type(x), name)


def op_div(a, b):
    if is_num(a) and is_num(b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, float) or isinstance(b, float):
                return a / b
            return a // b
        return values.div2(a, b)
    if has(a, "__div__"):
        return type(a).__div__(a, b)
    if has(b, "__rdiv__"):
        return type(b).__rdiv__(b, a)
    return a / b


def op_truediv(a, b):
    if is_num(a) and is_num(b):
        return values.truediv(a, b)
    return a / b


def op_floordiv(a, b):
    return a // b


def op_mod(a, b):
    if isinstance(a, (str, Rope)):
        return rope.percent_format(a, b)
    return a % b


def op_pow(a, b):
    if is_num(a) and is_num(b):
        return values.power(a, b)
    return a ** b


def op_mul(a, b):
    return a * b


def bits(x):
    return x if not isinstance(x, SymBool) else x.as_int()


def op_rshift(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(b, Sym):
            b = cur().concretise_int(zint(b), "shift")
        return values.floordiv(bits(a), 1 << b)
    return a >> b


def op_lshift(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(b, Sym):
            b = cur().concretise_int(zint(b), "shift")
        return values.mul(bits(a), 1 << b)
    return a << b


def op_and(a, b):
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return and_(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            cur().unsupported("bitwise and of symbolic integers")
        x, m = (a, b) if isinstance(a, Sym) else (b, a)
        x = bits(x)
        if m >= 0 and (m & (m + 1)) == 0:
            return SymInt(x.e % (m + 1)) if m else 0
        if m > 0:
            # sum of the selected runs of bits
            out = None
            k = 0
            while m >> k:
                n = 0
                while m >> (k + n) & 1:
                    n += 1
                if n:
                    t = ((x.e / (1 << k)) % (1 << n)) * (1 << k)
                    out = t if out is None else out + t
                k += n + 1
            return SymInt(out)
        cur().unsupported("bitwise and with a negative mask")
    return a & b


def op_xor(a, b):
    if isinstance(a, (SymInt,)) or isinstance(b, (SymInt,)):
        x, m = (a, b) if isinstance(a, Sym) else (b, a)
        if not isinstance(m, Sym) and m == 0:
            return x
        if not isinstance(m, Sym) and m > 0:
            return x + m - 2 * op_and(x, m)
        cur().unsupported("bitwise xor of symbolic integers")
    return a ^ b


def op_or(a, b):
    if isinstance(a, (SymInt,)) or isinstance(b, (SymInt,)):
        x, m = (a, b) if isinstance(a, Sym) else (b, a)
        if isinstance(m, Sym):
            cur().unsupported("bitwise or of symbolic integers")
        if m == 0:
            return x
        if m > 0:
            return x + m - op_and(x, m)
        cur().unsupported("bitwise or with a negative number")
    return a | b


# -- text -----------------------------------------------------------------------

def user_method(x, name):
    """A __str__/__repr__ defined by code under test (or by a stub)."""
    for c in type(x).__mro__:
        if c in (object, BaseException, Exception) or \
                c.__module__ == "builtins":
            return None
        f = c.__dict__.get(name)
        if f is not None:
            return f
    return None


def py_str(x):
    if isinstance(x, (str, Rope)):
        return x
    if x is None or x is True or x is False:
        return str(x)
    if isinstance(x, Sym):
        return rope.number_text(x)
    if isinstance(x, float):
        return jy_str_float(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, (list, tuple, dict, SymDict, SymSet)):
        return py_repr(x)
    f = user_method(x, "__str__")
    if f is not None:
        return f(x)
    if isinstance(x, BaseException):
        if len(x.args) == 0:
            return ""
        if len(x.args) == 1:
            if isinstance(x, KeyError):
                return py_repr(x.args[0])
            return py_str(x.args[0])
        if isinstance(x, OSError):
            return str(x)
        return py_repr(x.args)
    f = user_method(x, "__repr__")
    if f is not None:
        return f(x)
    if isinstance(x, type):
        return "<type '%s'>" % x.__name__
    return "<%s instance>" % type(x).__name__


def py_repr(x):
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, Rope):
        # escapes are not modelled: the repr only ever reaches the log
        cur().abstractions.add("repr of symbolic text does not show escapes")
        return mkrope(["'", x, "'"])
    if x is None or isinstance(x, bool):
        return str(x)
    if isinstance(x, Sym):
        return rope.number_text(x, "r") if isinstance(x, SymFloat) \
            else rope.number_text(x)
    if isinstance(x, float):
        return jy_repr_float(x)
    if isinstance(x, int):
        return repr(x)
    if isinstance(x, list):
        return mkrope(["[", rope.join(", ", [py_repr(y) for y in x]), "]"])
    if isinstance(x, tuple):
        inner = rope.join(", ", [py_repr(y) for y in x])
        return mkrope(["(", inner, ",)" if len(x) == 1 else ")"])
    if isinstance(x, (dict, SymDict)):
        return mkrope(["{", rope.join(", ", [
            mkrope([py_repr(k), ": ", py_repr(v)])
            for k, v in x.items()]), "}"])
    if isinstance(x, SymSet):
        return mkrope(["set([", rope.join(", ", [py_repr(k) for k in x]),
                       "])"])
    f = user_method(x, "__repr__")
    if f is not None:
        return f(x)
    if isinstance(x, BaseException):
        return mkrope([type(x).__name__, "(",
                       rope.join(", ", [py_repr(a) for a in x.args]),
                       ",)" if x.args else ")"])
    return "<%s instance>" % type(x).__name__


# -- type shims -----------------------------------------------------------------

class ShimMeta(type):
    def __instancecheck__(cls, x):
        t = cls.__dict__.get("_accepts")
        if t is not None:
            return t(x)
        return type.__instancecheck__(cls, x)

    def __repr__(cls):
        return "<type '%s'>" % cls.__name__

    def __subclasscheck__(cls, c):
        n = cls.__dict__.get("_native")
        if n is not None and issubclass(c, n):
            return True
        return type.__subclasscheck__(cls, c)


def is_str(x):
    return isinstance(x, (str, Rope))


class str_(object, metaclass=ShimMeta):
    _accepts = staticmethod(is_str)
    _native = str

    def __new__(cls, x=""):
        return py_str(x)


def _add_str_methods():
    for name in ("lower upper strip lstrip rstrip split join replace encode "
                 "decode startswith endswith find index count format isdigit "
                 "title capitalize splitlines").split():
        setattr(str_, name, (lambda n: staticmethod(
            lambda s, *a, **k: call_attr(s, n, *a, **k)))(name))


_add_str_methods()
str_.__name__ = "str"


class basestring_(object, metaclass=ShimMeta):
    _accepts = staticmethod(is_str)


class unicode_(object, metaclass=ShimMeta):
    _accepts = staticmethod(lambda x: False)

    def __new__(cls, x="", *a):
        return py_str(x)


class int_(object, metaclass=ShimMeta):
    _accepts = staticmethod(lambda x: isinstance(x, (int, SymInt, SymBool)))
    _native = int

    def __new__(cls, x=0, base=10):
        if is_text(x):
            return rope.parse_int(x, int(base))
        if isinstance(x, (int, float, Sym)):
            return trunc_(x)
        for n in ("__int__", "__trunc__"):
            if hasattr(type(x), n):
                return getattr(type(x), n)(x)
        raise TypeError("int() argument must be a string or a number, not '%s'"
                        % type_name(x))


int_.__name__ = "int"


class long_(object, metaclass=ShimMeta):
    _accepts = staticmethod(lambda x: isinstance(x, int) and
                            abs(x) > 0x7fffffff)

    def __new__(cls, x=0, base=10):
        return int_(x, base)


class float_(object, metaclass=ShimMeta):
    _accepts = staticmethod(lambda x: isinstance(x, (float, SymFloat)))
    _native = float

    def __new__(cls, x=0.0):
        if is_text(x):
            return rope.parse_float(x)
        if isinstance(x, (SymBool,)):
            return to_float(x.as_int())
        if isinstance(x, (int, float, Sym)):
            return to_float(x)
        if hasattr(type(x), "__float__"):
            return type(x).__float__(x)
        raise TypeError("float() argument must be a string or a number")


float_.__name__ = "float"


class bool_(object, metaclass=ShimMeta):
    _accepts = staticmethod(lambda x: isinstance(x, (bool, SymBool)))
    _native = bool

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        return truth(x)


bool_.__name__ = "bool"


class TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, nb.type)

    def __subclasscheck__(cls, c):
        return issubclass(c, nb.type)


TYPE_OF = {str: str_, Rope: str_, int: int_, SymInt: int_, float: float_,
           SymFloat: float_, bool: bool_, SymBool: bool_, dict: SymDict,
           rope.SymChar: bool_, rope.SymConj: bool_, set: SymSet}


class type_(object, metaclass=TypeMeta):
    def __new__(cls, *args):
        if len(args) == 1:
            return TYPE_OF.get(nb.type(args[0]), nb.type(args[0]))
        name, bases, d = args
        ns = dict(d.items()) if not isinstance(d, dict) else d
        return nb.type(name, tuple(bases), ns)


def resolve_type(t):
    return t


def isinstance_(x, t):
    if isinstance(t, tuple):
        return any(isinstance_(x, u) for u in t)
    if t is type_:
        return isinstance(x, nb.type)
    if t is list or t is tuple:
        return isinstance(x, t)
    return isinstance(x, t)


def issubclass_(c, t):
    if isinstance(t, tuple):
        return any(issubclass_(c, u) for u in t)
    return issubclass(c, t)


# -- functions --------------------------------------------------------------------

def abs_(x):
    return abs(x)


def map_(f, *its):
    if len(its) == 1:
        if f is None:
            return list(iterate(its[0]))
        return [f(x) for x in iterate(its[0])]
    lists = [list(iterate(i)) for i in its]
    n = max(len(l) for l in lists)
    rows = [tuple(l[i] if i < len(l) else None for l in lists)
            for i in range(n)]
    return rows if f is None else [f(*r) for r in rows]


def filter_(f, it):
    keep = [x for x in iterate(it) if truth(x if f is None else f(x))]
    if is_text(it):
        return rope.join("", keep)
    if isinstance(it, tuple):
        return tuple(keep)
    return keep


def zip_(*its):
    return [tuple(r) for r in zip(*[iterate(i) for i in its])]


def range_(*a):
    return list(range(*[x if not isinstance(x, Sym) else
                        cur().concretise_int(zint(x), "range") for x in a]))


def xrange_(*a):
    return range_(*a)


def len_(x):
    if isinstance(x, Rope):
        return rope.length(x)
    if isinstance(x, (str, list, tuple, dict, set, SymDict)):
        return len(x)
    f = getattr(type(x), "__len__", None)
    if f is None:
        raise TypeError("object of type '%s' has no len()" % type_name(x))
    return f(x)


class SortKey(object):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return truth(op_lt(self.k, o.k))


class CmpKey(object):
    __slots__ = ("k", "f")

    def __init__(self, k, f):
        self.k = k
        self.f = f

    def __lt__(self, o):
        return truth(op_lt(self.f(self.k, o.k), 0))


def numeric_symbolic(xs):
    sym = False
    for x in xs:
        if isinstance(x, (SymInt, SymFloat)):
            sym = True
        elif isinstance(x, bool) or not isinstance(x, (int, float)) or \
                is_special(x):
            return False
    return sym


def network_sort(xs):
    """Sort without forking: min/max exchanges over solver terms."""
    xs = list(xs)
    n = len(xs)
    kinds = all(is_intlike(x) for x in xs) or \
        not any(is_intlike(x) for x in xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                if b < a:
                    xs[j], xs[j + 1] = b, a
                continue
            c = a <= b
            xs[j], xs[j + 1] = ite(c, a, b), ite(c, b, a)
    return xs


def insertion_sort(xs):
    """Sort many concrete numbers and put the few symbolic ones among them by
    binary search, forking where their place is not settled."""
    ys = sorted(x for x in xs if not isinstance(x, Sym))
    for x in xs:
        if not isinstance(x, Sym):
            continue
        lo, hi = 0, len(ys)
        while lo < hi:
            mid = (lo + hi) // 2
            if truth(x < ys[mid]):
                hi = mid
            else:
                lo = mid + 1
        ys.insert(lo, x)
    return ys


def sort_list(xs, cmp=None, key=None, reverse=False):
    xs = list(xs)
    if cmp is None and key is None and len(xs) > 1 and numeric_symbolic(xs):
        if len(xs) > 200:
            ys = insertion_sort(xs)
        else:
            ys = network_sort(xs)
        return list(reversed(ys)) if truth(reverse) else ys
    if cmp is not None:
        kf = (lambda x: CmpKey(x if key is None else key(x), cmp))
    else:
        kf = (lambda x: SortKey(x if key is None else key(x)))
    # insertion by binary search keeps the number of comparisons low and every
    # outcome of a comparison leads to a valid run
    return sorted(xs, key=kf, reverse=truth(reverse))


def sorted_(it, cmp=None, key=None, reverse=False):
    return sort_list(iterate(it), cmp, key, reverse)


def pick(args, key, less):
    it = list(iterate(args[0])) if len(args) == 1 else list(args)
    if not it:
        raise ValueError("arg is an empty sequence")
    if key is None and numeric_symbolic(it):
        best = it[0]
        for x in it[1:]:
            c = less(x, best)
            best = ite(c, x, best)
        return best
    best = it[0]
    kb = best if key is None else key(best)
    for x in it[1:]:
        k = x if key is None else key(x)
        if truth(less(k, kb)):
            best, kb = x, k
    return best


def min_(*args, **kw):
    return pick(args, kw.get("key"), op_lt)


def max_(*args, **kw):
    return pick(args, kw.get("key"), op_gt)


def sum_(it, start=0):
    total = start
    for x in iterate(it):
        total = total + x
    return total


def any_(it):
    for x in iterate(it):
        if truth(x):
            return True
    return False


def all_(it):
    for x in iterate(it):
        if not truth(x):
            return False
    return True


def cmp_(a, b):
    if truth(op_eq(a, b)):
        return 0
    return -1 if truth(op_lt(a, b)) else 1


def reduce_(f, it, *init):
    it = iter(iterate(it))
    acc = init[0] if init else next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def getattr_(obj, name, *default):
    if isinstance(name, Rope):
        name = fix_text(name)
    try:
        return get_attr(obj, name)
    except AttributeError:
        if default:
            return default[0]
        raise


def hasattr_(obj, name):
    try:
        getattr_(obj, name)
        return True
    except AttributeError:
        return False


def setattr_(obj, name, v):
    setattr(obj, fix_text(name), v)


def ord_(c):
    if isinstance(c, str):
        return ord(c)
    if not is_text(c):
        raise TypeError("ord() expected string of length 1")
    us = rope.expand_all(c)
    if len(us) != 1:
        raise TypeError("ord() expected a character")
    u = us[0]
    if isinstance(u, str):
        return ord(u)
    return SymInt(cur().link(u))


def chr_(n):
    if isinstance(n, Sym):
        p = cur()
        e = zint(n)
        if not p.decide(z3.And(e >= 0, e < 256)):
            raise ValueError("chr() arg not in range(256)")
        c = core.CharVar(p.fresh_name("chr"), is_input=False)
        p.link(c)
        p.add_axiom(c.var == e)
        return Rope([c])
    return chr(n)


def divmod_(a, b):
    return (op_floordiv(a, b), op_mod(a, b))


def pow_(a, b, *m):
    if m:
        return pow(a, b, *m)
    return op_pow(a, b)


def hash_(x):
    if is_concrete(x):
        try:
            return hash(x) & 0x7fffffff
        except TypeError:
            raise TypeError("unhashable type")
    if isinstance(x, Rope):
        table = cur().cache.setdefault("hash", [])
        for y, h in table:
            if truth(op_eq(x, y)):
                return h
        h = SymInt(cur().int("hash"))
        table.append((x, h))
        return h
    return hash(x)


def list__(x=()):
    return list(iterate(x))


def enumerate_(it, start=0):
    return enumerate(iterate(it), start)


def reversed_(it):
    if isinstance(it, Rope):
        return iter(list(it)[::-1])
    return reversed(it)


def iter_(x, *a):
    if a:
        return iter(x, *a)
    return iter(iterate(x))


def next_(it, *default):
    if hasattr(type(it), "__next__"):
        return next(it, *default)
    return it.next()


def round__(x, n=0):
    if not is_num(x):
        raise TypeError("a float is required")
    return round_(x, n if not isinstance(n, Sym) else
                  cur().concretise_int(zint(n), "digits"))


def callable_(x):
    return callable(x)


def id_(x):
    return id(x)


def unsupported(what):
    cur().unsupported(what)


def py_print(*a, **k):
    pass


class ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)


# list and tuple stay the native types; symbolic iterables reach them through
# __iter__, and dictionaries through native_dict_iter.


# -- attribute calls on native receivers ---------------------------------------

def native_list_method(obj, name):
    if name == "sort":
        def sort(cmp=None, key=None, reverse=False):
            obj[:] = sort_list(obj, cmp, key, reverse)
        return sort
    if name == "index":
        def index(x, *a):
            for i, y in enumerate(obj):
                if truth(op_eq(x, y)):
                    return i
            raise ValueError("%r is not in list" % (x,))
        return index
    if name == "count":
        return lambda x: sum(1 for y in obj if truth(op_eq(x, y)))
    return None


def native_dict_method(d, name):
    if name in ("iterkeys", "viewkeys"):
        return lambda: native_dict_iter(d)
    if name in ("itervalues", "viewvalues"):
        return lambda: iter(list(d.values()))
    if name in ("iteritems", "viewitems"):
        return lambda: iter(list(d.items()))
    if name == "keys":
        return lambda: list(d.keys())
    if name == "values":
        return lambda: list(d.values())
    if name == "items":
        return lambda: list(d.items())
    if name == "has_key":
        return lambda k: d_get(d, k) is not MISSING
    return None


def any_sym(args):
    for a in args:
        if isinstance(a, Sym):
            return True
        if isinstance(a, (tuple, list)) and any_sym(a):
            return True
    return False


def native_str_method(s, name):
    if name == "join":
        def join(it):
            parts = list(iterate(it))
            return rope.join(s, parts)
        return join
    if name == "encode":
        def encode(enc="utf-8", *a):
            # a byte string: Jython encodes its code points
            if all(ord(c) < 128 for c in s):
                return s
            return s.encode(enc).decode("latin-1")
        return encode
    if name == "decode":
        def decode(enc="utf-8", *a):
            if all(ord(c) < 128 for c in s):
                return s
            try:
                return s.encode("latin-1").decode(enc, *a)
            except UnicodeDecodeError:
                raise
        return decode
    if name == "format":
        def fmt(*a, **k):
            if any_sym(a) or any_sym(k.values()):
                return sym_format(s, a, k)
            return s.format(*a, **k)
        return fmt
    if name in ("strip", "lstrip", "rstrip"):
        def strip(chars=None):
            if chars is None:
                return getattr(s, name)("\t\n\x0b\x0c\r ")
            return getattr(s, name)(fix_text(chars))
        return strip
    if name == "split":
        def split(sep=None, maxsplit=-1):
            if sep is None:
                return ascii_split(s, maxsplit)
            return rope.split(s, sep, int(maxsplit))
        return split
    if name == "splitlines":
        def splitlines(keepends=False):
            return rope.Rope.splitlines(rope.Rope([s]), keepends) if s else []
        return splitlines
    if name in ("startswith", "endswith", "find", "index", "count",
                "replace", "rfind", "partition", "rpartition", "rindex"):
        def generic(*a):
            if any_sym(a):
                if name == "startswith":
                    return rope.startswith(s, *a)
                if name == "endswith":
                    return rope.endswith(s, *a)
                return getattr(rope.Rope([s]), name)(*a)
            return getattr(s, name)(*a)
        return generic
    if name == "lower":
        return lambda: "".join(c.lower() if ord(c) < 128 else c for c in s)
    if name == "upper":
        return lambda: "".join(c.upper() if ord(c) < 128 else c for c in s)
    return None


def ascii_split(s, maxsplit=-1):
    import re
    t = s.strip("\t\n\x0b\x0c\r ")
    if not t:
        return []
    if maxsplit == 0:
        return [s.lstrip("\t\n\x0b\x0c\r ")]
    return re.split("[\t\n\x0b\x0c\r ]+", t,
                    maxsplit=max(0, maxsplit))


def sym_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec:
            cur().unsupported("format specification on a symbolic value")
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            cur().unsupported("format field " + field)
        out.append(py_repr(v) if conv == "r" else py_str(v))
    return mkrope(out)


def get_attr(obj, name):
    if isinstance(obj, str):
        m = native_str_method(obj, name)
        if m is not None:
            return m
    elif isinstance(obj, list):
        m = native_list_method(obj, name)
        if m is not None:
            return m
    elif isinstance(obj, dict):
        m = native_dict_method(obj, name)
        if m is not None:
            return m
    if name == "next" and not hasattr(obj, "next") and \
            hasattr(type(obj), "__next__"):
        return lambda: next(obj)
    if name == "func_name":
        return obj.__name__
    return getattr(obj, name)


def call_attr(obj, name, *args, **kw):
    return get_attr(obj, name)(*args, **kw)


def getitem(obj, i):
    if isinstance(obj, dict) and not is_concrete(i):
        v = d_get(obj, i)
        if v is MISSING:
            raise KeyError(i)
        return v
    if isinstance(obj, (list, tuple)) and isinstance(i, SymInt):
        n = len(obj)
        e = i.e
        p = cur()
        if not p.decide(z3.And(e >= -n, e < n)):
            raise IndexError("index out of range")
        if n and all(is_num(x) and not is_special(x) for x in obj) and \
                n <= 256:
            # numeric table: no fork
            r = obj[-1]
            idx = z3.If(e < 0, e + n, e)
            for k in range(n - 2, -1, -1):
                r = ite(SymBool(idx == k), obj[k], r)
            return r
    return obj[i]


def slice_op(obj, lo, hi, step):
    return obj[lo:hi:step]


# -- exceptions -----------------------------------------------------------------

def mkexc(t, *inst):
    if isinstance(t, type):
        if not inst or inst[0] is None:
            return t()
        v = inst[0]
        if isinstance(v, t):
            return v
        if isinstance(v, tuple):
            return t(*v)
        return t(v)
    return t


def exctype(t):
    return t


def compile_unsupported(*a, **k):
    cur().unsupported("eval/exec/compile")


class _Print(object):
    pass


def cov(qual):
    p = cur()
    if p is not None:
        p.ex.stats.functions.add(qual)



def tick():
    p = cur()
    if p is not None:
        p.tick()


def property_(*a, **k):
    return property(*a, **k)


def make_builtins(importer):
    b = {}
    for name in ("None True False object property staticmethod classmethod "
                 "super NotImplemented Ellipsis vars dir delattr slice "
                 "locals globals __build_class__ __debug__").split():
        if hasattr(nb, name):
            b[name] = getattr(nb, name)
    for name in dir(nb):
        v = getattr(nb, name)
        if isinstance(v, type) and issubclass(v, BaseException):
            b[name] = v
    b["StandardError"] = Exception
    b["IOError"] = OSError
    b.update({
        "str": str_, "basestring": basestring_, "unicode": unicode_,
        "int": int_, "long": long_, "float": float_, "bool": bool_,
        "dict": SymDict, "set": SymSet, "frozenset": SymSet, "type": type_,
        "list": list, "tuple": tuple,
        "isinstance": isinstance_, "issubclass": issubclass_, "abs": abs_,
        "map": map_, "filter": filter_, "zip": zip_, "range": range_,
        "xrange": xrange_, "len": len_, "sorted": sorted_, "min": min_,
        "max": max_, "sum": sum_, "any": any_, "all": all_, "cmp": cmp_,
        "reduce": reduce_, "getattr": getattr_, "hasattr": hasattr_,
        "setattr": setattr_, "ord": ord_, "chr": chr_, "divmod": divmod_,
        "pow": pow_, "hash": hash_, "enumerate": enumerate_,
        "reversed": reversed_, "iter": iter_, "next": next_,
        "round": round__, "callable": callable_, "id": id_,
        "repr": py_repr, "eval": compile_unsupported,
        "execfile": compile_unsupported, "compile": compile_unsupported,
        "open": None, "file": None, "print": py_print,
        "intern": lambda x: x, "hex": hex, "oct": oct, "bin": bin,
        "unichr": chr_, "bytes": str_, "bytearray": bytearray,
        "coerce": lambda a, b: (a, b), "apply": lambda f, a, **k: f(*a, **k),
        "input": compile_unsupported, "raw_input": compile_unsupported,
        "complex": complex, "__import__": importer,
        "__name__": "__builtin__",
        "__cov__": cov, "__tick__": tick, "__iter__": iterate,
        "__mkdict__": lambda pairs: SymDict(pairs),
        "__mkset__": lambda items: SymSet(items),
        "__call_attr__": call_attr, "__get_attr__": get_attr,
        "__getitem__": getitem, "__slice__": slice_op,
        "__op_div__": op_div, "__op_truediv__": op_truediv,
        "__op_mod__": op_mod, "__op_pow__": op_pow,
        "__op_floordiv__": op_floordiv, "__op_mul__": op_mul,
        "__op_rshift__": op_rshift, "__op_lshift__": op_lshift,
        "__op_and__": op_and, "__op_xor__": op_xor, "__op_or__": op_or,
        "__op_lt__": op_lt, "__op_le__": op_le, "__op_gt__": op_gt,
        "__op_ge__": op_ge, "__op_eq__": op_eq, "__op_ne__": op_ne,
        "__op_in__": op_in, "__op_notin__": op_notin,
        "__op_chain__": op_chain, "__op_not__": op_not,
        "__print__": py_print, "__mkexc__": mkexc, "__exctype__": exctype,
        "__Abort__": Abort, "__StopIteration__": StopIteration,
        "__object__": object, "__unsupported__": unsupported,
    })
    return b
