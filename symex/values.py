"""Symbolic booleans, integers and reals."""
import math
from fractions import Fraction

import z3

import core
from core import cur


def frac(f):
    """Native float -> rational.  Literals are read as the decimal they print
    as (0.7 is seven tenths): floats are idealised to reals throughout."""
    return Fraction(repr(f))


def is_special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        return self.as_int() == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return and_(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return or_(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __add__(self, o):
        return self.as_int() + o

    def __radd__(self, o):
        return o + self.as_int()

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return "<bool %s>" % self.e


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def not_(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(*es)) if len(es) > 1 else SymBool(es[0])


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3.Or(*es)) if len(es) > 1 else SymBool(es[0])


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


NUM = (int, float)


def zreal(x):
    """z3 real expression of a (finite) number."""
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(frac(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise TypeError(repr(x))


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    return z3.IntVal(int(x))


def is_num(x):
    return isinstance(x, (int, float, SymInt, SymFloat, SymBool))


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(x, float)


class SymNum(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __pos__(self):
        return self

    def __hash__(self):
        # the code under test put a symbolic number into a native hashed
        # container: fix its value (recorded as an under-approximation)
        return hash(concrete(self))

    # comparisons
    def _cmp(self, o, op, inf_pos, inf_neg):
        if isinstance(o, Sym) or isinstance(o, (int, float)):
            if is_special(o):
                if o != o:
                    return False
                return inf_pos if o > 0 else inf_neg
            if is_num(o):
                if isinstance(self, SymInt) and is_intlike(o):
                    return mkbool(op(self.e, zint(o)))
                a, b = zreal(self), zreal(o)
                if "positive" in cur().cache:
                    d = cancel_positive(a - b)
                    if d is not None:
                        return mkbool(op(d, z3.RealVal(0)))
                return mkbool(op(a, b))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        if self is o:
            return True
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self == o)

    # arithmetic
    def __neg__(self):
        return type(self)(-self.e)

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div2(self, o)

    def __rtruediv__(self, o):
        return div2(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), mod(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __format__(self, spec):
        raise TypeError("native formatting of a symbolic number")


class SymInt(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return cur().concretise_int(self.e, "index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise core.PathUnsupported("native float() of a symbolic integer")

    def __repr__(self):
        return "<int %s>" % self.e

    # bit operations are handled by runtime.op_* (constant masks and shifts)


class SymFloat(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<real %s>" % self.e

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __float__(self):
        raise core.PathUnsupported("native float() of a symbolic real")

    def __int__(self):
        raise core.PathUnsupported("native int() of a symbolic real")


def _both_int(a, b):
    return is_intlike(a) and is_intlike(b)


def _special(a, b, op):
    """Arithmetic where one operand is inf/nan and the other symbolic."""
    if is_special(a) or is_special(b):
        x = a if is_special(a) else b
        other = b if is_special(a) else a
        if x != x:
            return math.nan
        if op == "+":
            return x
        if op == "-":
            return x if x is a else -x
        if op == "*":
            if not isinstance(other, Sym):
                return other * x
            if cur().decide(zreal(other) == 0):
                return math.nan
            return x if cur().decide(zreal(other) > 0) else -x
        if op == "/":
            if x is b and not is_special(a):
                return 0.0
            if cur().decide(zreal(other) == 0):
                raise ZeroDivisionError("float division by zero")
            return x if cur().decide(zreal(other) > 0) else -x
    return None


def add(a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    s = _special(a, b, "+")
    if s is not None:
        return s
    if _both_int(a, b):
        return SymInt(zint(a) + zint(b))
    return SymFloat(zreal(a) + zreal(b))


def sub(a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    s = _special(a, b, "-")
    if s is not None:
        return s
    if _both_int(a, b):
        return SymInt(zint(a) - zint(b))
    return SymFloat(zreal(a) - zreal(b))


def mul(a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    s = _special(a, b, "*")
    if s is not None:
        return s
    if _both_int(a, b):
        return SymInt(zint(a) * zint(b))
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        return SymFloat(zreal(a) * zreal(b))
    return SymFloat(product(zreal(a), zreal(b)))


# -- products and quotients -------------------------------------------------------
#
# Terms stay linear: every product of unknowns is a variable of its own, named
# after its factors, so that equal polynomials are equal linear terms.  The
# nonlinear meaning of these variables is given to the solver only when the
# linear view does not settle a question (Path.add_def, Path.check).

def linear(e):
    """(constant, [(coefficient, atom)]) of a simplified term."""
    e = z3.simplify(e)
    const = Fraction(0)
    terms = []
    for t in (e.children() if z3.is_add(e) else [e]):
        if z3.is_rational_value(t):
            const += t.as_fraction()
        elif z3.is_mul(t) and t.num_args() == 2 and \
                z3.is_rational_value(t.arg(0)):
            terms.append((t.arg(0).as_fraction(), t.arg(1)))
        else:
            terms.append((Fraction(1), t))
    return const, terms


def combine(const, terms):
    out = [z3.RealVal(c) * t if c != 1 else t for c, t in terms]
    if const != 0 or not out:
        out.append(z3.RealVal(const))
    return z3.simplify(z3.Sum(out) if len(out) > 1 else out[0])


def atomise(e):
    p = cur()
    e = z3.simplify(e)
    key = ("atom", e.get_id())
    if key not in p.cache:
        v = p.real("term")
        p.cache[key] = (v, e)
        p.add_axiom(v == e)
    return p.cache[key][0]


def factors_of(atom):
    return cur().cache.get("factors", {}).get(atom.get_id(), (atom,))


def monomial(x, y):
    """The variable for the product of two atoms (or monomials); a number when
    they cancel."""
    p = cur()
    fs = list(factors_of(x)) + list(factors_of(y))
    inverse = p.cache.setdefault("inverse", {})
    for f in list(fs):
        other = inverse.get(f.get_id())
        if other is not None and f in fs:
            for g in fs:
                if g.get_id() == other.get_id():
                    fs = remove_ast(remove_ast(fs, f), g)
                    break
    if not fs:
        return z3.RealVal(1)
    fs.sort(key=lambda f: f.get_id())
    if len(fs) == 1:
        return fs[0]
    table = p.cache.setdefault("monomials", {})
    key = tuple(f.get_id() for f in fs)
    if key in table:
        return table[key][0]
    head = fs[0]
    for f in fs[1:-1]:
        head = monomial(head, f)
    last = fs[-1]
    v = p.real("product")
    table[key] = (v, fs)
    p.keep.append(v)
    p.cache.setdefault("factors", {})[v.get_id()] = tuple(fs)
    if len(fs) == 2 and fs[0].get_id() == fs[1].get_id():
        lemma = z3.And(v >= 0, (v == 0) == (last == 0))
    else:
        lemma = sign_lemma(v, head, last)
    p.add_def(v, list(fs), lemma)
    return v


def remove_ast(fs, f):
    for i in range(len(fs)):
        if fs[i].get_id() == f.get_id():
            return fs[:i] + fs[i + 1:]
    return fs


def sign_lemma(v, x, y):
    return z3.And((v == 0) == z3.Or(x == 0, y == 0),
                  (v > 0) == z3.Or(z3.And(x > 0, y > 0),
                                   z3.And(x < 0, y < 0)))


def product(a, b):
    p = cur()
    ca, ta = linear(a)
    cb, tb = linear(b)
    if not ta or not tb:
        return z3.simplify(a * b)
    if len(ta) * len(tb) > 36:
        if len(ta) > 1:
            ca, ta = Fraction(0), [(Fraction(1), atomise(a))]
        if len(ta) * len(tb) > 36 and len(tb) > 1:
            cb, tb = Fraction(0), [(Fraction(1), atomise(b))]
    terms = [(ca * c, t) for c, t in tb if ca] + \
        [(cb * c, t) for c, t in ta if cb]
    const = ca * cb
    for c1, x in ta:
        for c2, y in tb:
            terms.append((c1 * c2, monomial(x, y)))
    e = combine(const, terms)
    if len(ta) + len(tb) + (ca != 0) + (cb != 0) > 2 and \
            not z3.is_rational_value(e):
        key = ("signs", e.get_id())
        if key not in p.cache:
            p.cache[key] = e
            p.add_axiom(sign_lemma(e, z3.simplify(a), z3.simplify(b)))
    return e


def inverse_of(d):
    """(coefficient, atom) whose product is 1/d, d known not to be zero."""
    p = cur()
    const, terms = linear(d)
    if const == 0 and len(terms) == 1:
        lead, atom = terms[0]
        fs = factors_of(atom)
        inv = None
        for f in fs:
            i = inverse_atom(f)
            inv = i if inv is None else monomial(inv, i)
        return 1 / lead, inv
    lead = terms[0][0]
    atom = atomise(combine(const / lead, [(c / lead, t) for c, t in terms]))
    return 1 / lead, inverse_atom(atom)


def inverse_atom(atom):
    p = cur()
    table = p.cache.setdefault("inverse", {})
    if atom.get_id() in table:
        return table[atom.get_id()]
    known = p.cache.setdefault("denominators", [])
    for other, inv in known:
        if p.entails_equal(atom, other):
            table[atom.get_id()] = inv
            p.keep.append(atom)
            return inv
    v = p.real("inverse")
    known.append((atom, v))
    p.keep.append(v)
    p.keep.append(atom)
    one = p.real("one")
    p.add_axiom(z3.And(
        one == 1, v != 0, (v > 0) == (atom > 0),
        z3.Implies(atom >= 1, v <= 1),
        z3.Implies(z3.And(atom > 0, atom <= 1), v >= 1)))
    p.add_def(one, [v, atom], z3.BoolVal(True))
    table[atom.get_id()] = v
    table[v.get_id()] = atom
    return v


def quotient(a, b):
    p = cur()
    ca, ta = linear(a)
    cb, tb = linear(b)
    if not ta and ca == 0:
        return z3.RealVal(0)
    # proportional terms
    if len(ta) == len(tb) and tb:
        k = ta[0][0] / tb[0][0]
        if ca == k * cb and all(
                x.get_id() == y.get_id() and c == k * d
                for (c, x), (d, y) in zip(ta, tb)):
            return z3.RealVal(k)
    coef, inv = inverse_of(b)
    e = combine(0, [(1, z3.RealVal(coef) * product(a, inv))])
    if len(ta) + (ca != 0) > 1 and not z3.is_rational_value(e):
        key = ("signs", e.get_id())
        if key not in p.cache:
            p.cache[key] = e
            a, b = z3.simplify(a), z3.simplify(b)
            p.add_axiom(z3.And(
                (e == 0) == (a == 0),
                z3.Implies(a > 0, (e > 0) == (b > 0)),
                z3.Implies(a < 0, (e > 0) == (b < 0))))
    return e


def div2(a, b):
    """Python 2 division."""
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if _both_int(a, b):
        return floordiv(a, b)
    return truediv(a, b)


def truediv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a / b
    s = _special(a, b, "/")
    if s is not None:
        return s
    zb = zreal(b)
    if isinstance(b, Sym):
        if cur().decide(zb == 0):
            raise ZeroDivisionError("float division by zero")
    elif b == 0:
        raise ZeroDivisionError("float division by zero")
    if not isinstance(b, Sym) or z3.is_rational_value(z3.simplify(zb)):
        return SymFloat(zreal(a) / zb)
    return SymFloat(quotient(zreal(a), zb))


def floordiv(a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if _both_int(a, b):
        zb = zint(b)
        if cur().decide(zb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        za = zint(a)
        if not isinstance(b, Sym):
            if b > 0:
                return SymInt(za / zb)
            return SymInt((-za) / z3.IntVal(-b))
        if cur().decide(zb > 0):
            return SymInt(za / zb)
        return SymInt((-za) / (-zb))
    q = truediv(a, b)
    return floor_(q)


def mod(a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if _both_int(a, b):
        return SymInt(zint(a) - zint(floordiv(a, b)) * zint(b))
    q = truediv(a, b)
    if is_special(q) or is_special(a) or is_special(b):
        return math.nan
    return sub(a, mul(floor_(q), b))


def floor_int(e):
    """z3 integer: the floor of a real expression.  A fresh integer between
    e - 1 and e; easier on the solver than ToInt."""
    e = z3.simplify(e)
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.as_fraction().__floor__())
    p = cur()
    key = ("floor", e.get_id())
    if key not in p.cache:
        k = p.int("floor")
        cond = z3.And(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1)
        p.set_in_model(k, lambda m: m.eval(z3.ToInt(e), True))
        p.add_axiom(cond)
        p.cache[key] = (k, e)
        # branch and bound does not find these by itself
        table = p.cache.setdefault("floors", [])
        for k0, e0 in table[-24:]:
            p.add_axiom(z3.And(z3.Implies(e <= e0, k <= k0),
                               z3.Implies(e0 <= e, k0 <= k)))
        table.append((k, e))
    return p.cache[key][0]


def floor_(x):
    """Largest integral value, as a float."""
    if not isinstance(x, Sym):
        return float(math.floor(x)) if not is_special(x) else x
    if isinstance(x, SymInt):
        return SymFloat(z3.ToReal(x.e))
    return SymFloat(z3.ToReal(floor_int(zreal(x))))


def ceil_(x):
    if not isinstance(x, Sym):
        return float(math.ceil(x)) if not is_special(x) else x
    return SymFloat(-z3.ToReal(floor_int(-zreal(x))))


def trunc_(x):
    """int(x)"""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymFloat):
        if cur().decide(x.e >= 0):
            return SymInt(floor_int(x.e))
        return SymInt(-floor_int(-x.e))
    if isinstance(x, float):
        if x != x:
            raise ValueError("cannot convert float NaN to integer")
        if is_special(x):
            raise OverflowError("cannot convert float infinity to integer")
    return int(x)


def round_(x, n=0):
    """Python 2 round: half away from zero, always a float."""
    if isinstance(x, (SymBool, SymInt)):
        if isinstance(n, int) and n >= 0:
            return SymFloat(zreal(x))
        x = SymFloat(zreal(x))
    if not isinstance(x, Sym):
        x = float(x)
        if is_special(x):
            return x
        if n == 0:
            return math.copysign(math.floor(abs(x) + 0.5), x)
        f = frac(abs(x))
        scaled = f * Fraction(10) ** n
        q = (scaled + Fraction(1, 2)).__floor__()
        return math.copysign(float(Fraction(q) / Fraction(10) ** n), x)
    p = cur()
    if n == 0:
        if p.decide(x.e >= 0):
            return SymFloat(z3.ToReal(floor_int(x.e + z3.RealVal("1/2"))))
        return SymFloat(-z3.ToReal(floor_int(-x.e + z3.RealVal("1/2"))))
    n = int(n)
    e = z3.simplify(x.e)
    key = ("round", e.get_id(), n)
    if key not in p.cache:
        r = p.real("round")
        half = z3.RealVal(Fraction(1, 2) / Fraction(10) ** n)
        p.set_in_model(r, lambda m: m.eval(x.e, True))
        p.add_axiom(z3.And(r - x.e <= half, x.e - r <= half,
                           z3.Implies(x.e >= 0, r >= 0),
                           z3.Implies(x.e <= 0, r <= 0)))
        p.abstractions.add("round(x, %d) is any value within half a unit" % n)
        p.cache[key] = (SymFloat(r), e)
    return p.cache[key][0]


def power(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a ** b
    if isinstance(b, Sym):
        if isinstance(b, SymInt):
            b = cur().concretise_int(b.e, "exponent")
        else:
            b = concrete(b)
            if float(b).is_integer():
                b = int(b)
            if not isinstance(a, Sym):
                return a ** b
    if isinstance(b, float) and b.is_integer():
        b = int(b)
        a = to_float(a)
    if isinstance(b, float) and b == 0.5:
        return sqrt_(a)
    if not isinstance(b, int) or abs(b) > 12:
        cur().unsupported("power with exponent %r" % (b,))
    r = 1
    for _ in range(abs(b)):
        r = mul(r, a)
    if b == 0:
        r = 1 if is_intlike(a) else 1.0
    if b < 0:
        return truediv(1.0, r)
    return r


def to_float(x):
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat(zreal(x))
    if isinstance(x, SymFloat):
        return x
    return float(x)


def sqrt_(x):
    if not isinstance(x, Sym):
        if x != x:
            return x
        if x < 0:
            raise ValueError("math domain error")
        return math.sqrt(x)
    p = cur()
    e = z3.simplify(zreal(x))
    if p.decide(e < 0):
        raise ValueError("math domain error")
    key = ("sqrt", e.get_id())
    if key not in p.cache:
        s = p.real("sqrt")
        p.add_axiom(z3.And(s >= 0, (s == 0) == (e == 0),
                           z3.Implies(e >= 1, s <= e),
                           z3.Implies(e <= 1, s >= e)))
        p.add_axiom(product(s, s) == e)
        p.cache[key] = (SymFloat(s), e)
    return p.cache[key][0]


def exp_(x):
    if not isinstance(x, Sym):
        if is_special(x):
            return math.exp(x)
        if x > 700:
            raise OverflowError("math range error")
        return math.exp(x)
    p = cur()
    e = z3.simplify(zreal(x))
    const, terms = linear(e)
    if not terms:
        return math.exp(float(const))
    table = p.cache.setdefault("exp", [])
    for (e0, r0) in table:
        if e0.get_id() == e.get_id():
            return SymFloat(r0)
    r = None
    for c, atom in terms:
        base = exp_atom(abs(c), atom)
        f = base if c > 0 else inverse_atom(base)
        r = f if r is None else monomial(r, f)
    if const != 0:
        r = z3.simplify(z3.RealVal(Fraction(math.exp(float(const)))) * r)
    ax = [r > 0, (e == 0) == (r == 1), (e > 0) == (r > 1)]
    for (e0, r0) in table:
        ax.append((e0 < e) == (r0 < r))
        ax.append((e0 == e) == (r0 == r))
    p.add_axiom(z3.And(*ax))
    p.abstractions.add("exp is positive, monotone, exp(0)=1 and "
                       "multiplicative on the arguments met")
    table.append((e, r))
    p.keep.append(e)
    return SymFloat(r)


def exp_atom(c, atom):
    """exp(c * atom), c > 0: a variable known to be positive."""
    p = cur()
    table = p.cache.setdefault("exp atoms", {})
    key = (c, atom.get_id())
    if key in table:
        return table[key][0]
    v = p.real("exp")
    ax = [v > 0, (atom > 0) == (v > 1), (atom == 0) == (v == 1)]
    for (c0, _), (v0, atom0) in table.items():
        if c0 == c:
            ax.append((atom0 < atom) == (v0 < v))
            ax.append((atom0 == atom) == (v0 == v))
    p.add_axiom(z3.And(*ax))
    table[key] = (v, atom)
    p.cache.setdefault("positive", {})[v.get_id()] = v
    return v


def cancel_positive(d):
    """A term of the same sign, without the common factors known to be
    positive."""
    p = cur()
    positive = p.cache["positive"]
    inverse = p.cache.get("inverse", {})
    const, terms = linear(d)
    rows = []
    for c, t in terms + ([(const, None)] if const else []):
        powers = {}
        rest = []
        for f in (factors_of(t) if t is not None else ()):
            k = f.get_id()
            if k in positive:
                powers[k] = powers.get(k, 0) + 1
            elif k in inverse and inverse[k].get_id() in positive:
                k = inverse[k].get_id()
                powers[k] = powers.get(k, 0) - 1
            else:
                rest.append(f)
        rows.append((c, powers, rest))
    keys = sorted(set(k for _, powers, _ in rows for k in powers))
    low = {k: min(powers.get(k, 0) for _, powers, _ in rows) for k in keys}
    if not any(low.values()):
        return None
    out = []
    const = Fraction(0)
    for c, powers, rest in rows:
        fs = list(rest)
        for k in keys:
            fs += [positive[k]] * (powers.get(k, 0) - low[k])
        if not fs:
            const += c
            continue
        t = fs[0]
        for f in fs[1:]:
            t = monomial(t, f)
        out.append((c, t))
    return combine(const, out)


def concrete(x):
    """Fix a symbolic value to its value in the current model."""
    if not isinstance(x, Sym):
        return x
    p = cur()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return p.concretise_int(x.e, "integer", limit=12)
    v = p.pin(x.e, "real value")
    return float(v)


def ite(c, a, b):
    """Merge two numbers without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if is_special(a) or is_special(b):
        return a if c else b
    if _both_int(a, b):
        return SymInt(z3.If(c.e, zint(a), zint(b)))
    return SymFloat(z3.If(c.e, zreal(a), zreal(b)))
