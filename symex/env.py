"""The harness environment on the symbolic side.

A harness is Python 2 source run through the same converter as the code under
test.  The same file runs under Jython against the real libraries, with
jy/driver.py's Env in place of this one."""
import os
import sys
import time
import traceback
from fractions import Fraction

import z3

import core
import loader
import rope
import runtime
import values
from core import cur, CharVar, mask_of
from rope import Rope, Tok, mkrope
from runtime import iterate, truth, op_eq, SymDict, SymSet
from values import (Sym, SymBool, SymInt, SymFloat, SymNum, zreal, zint,
                    is_num, is_special, and_, or_, not_)

KEYCHARS = rope.WORD | mask_of("-")
TOL = Fraction(1, 10 ** 9)


class EnvFailure(Exception):
    pass


def expand_class(spec):
    """'a-z0-9_' style character classes -> mask."""
    if isinstance(spec, int):
        return spec
    out = 0
    i = 0
    while i < len(spec):
        if i + 2 < len(spec) and spec[i + 1] == "-":
            for o in range(ord(spec[i]), ord(spec[i + 2]) + 1):
                out |= 1 << o
            i += 3
        else:
            out |= 1 << ord(spec[i])
            i += 1
    return out


def deep_eq(a, b):
    """Structural equality: sequences by items, numbers by value, nan = nan."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = deep_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return rope.conj(conds) if conds else True
    if isinstance(a, SymDict) and isinstance(b, SymDict):
        a, b = SymDict(a), SymDict(b)
        if len(a) != len(b):
            return False
        conds = []
        for k, v in a.items():
            o = runtime.d_get(b, k)
            if o is runtime.MISSING:
                return False
            conds.append(deep_eq(v, o))
        return and_(*conds)
    if is_special(a) or is_special(b):
        if not (is_special(a) and is_special(b)):
            return False
        return (a != a and b != b) or a == b
    return op_eq(a, b)


def approx(a, b):
    """|a - b| within the tolerance of printed numbers."""
    if is_special(a) or is_special(b):
        return deep_eq(a, b)
    if not (is_num(a) and is_num(b)):
        return False
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-9
    x, y = zreal(a), zreal(b)
    d = x - y
    t = z3.RealVal(TOL)
    ay = z3.If(y >= 0, y, -y)
    return values.mkbool(z3.simplify(z3.And(d <= t * ay + t, -d <= t * ay + t)))


class Env(object):
    symbolic = True

    def __init__(self, path, world, tier="quick"):
        self._p = path
        self._w = world
        self._used = {}
        self.tier = tier
        self.thorough = tier == "thorough"
        self.logs = []
        world.log_func = self._log

    # -- inputs ------------------------------------------------------------
    def _name(self, name):
        n = self._used.get(name, 0)
        self._used[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def real(self, name, lo=None, hi=None):
        n = self._name(name)
        v = z3.Real("in!" + n)
        self._p.inputs.append((n, "real", v))
        if lo is not None:
            self._p.assume(v >= z3.RealVal(Fraction(repr(lo))))
        if hi is not None:
            self._p.assume(v <= z3.RealVal(Fraction(repr(hi))))
        return SymFloat(v)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = z3.Int("in!" + n)
        self._p.inputs.append((n, "int", v))
        if lo is not None:
            self._p.assume(v >= zint(lo))
        if hi is not None:
            self._p.assume(v <= zint(hi))
        return SymInt(v)

    def bool(self, name):
        n = self._name(name)
        v = z3.Bool("in!" + n)
        self._p.inputs.append((n, "bool", v))
        return SymBool(v)

    def choice(self, name, options):
        """One of the options; every one is explored."""
        n = self._name(name)
        options = list(options)
        i = self._p.choice(len(options), n)
        self._p.inputs.append((n, "choice", i))
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, min, max, alphabet=None):
        """Symbolic text of min..max bytes (every length explored)."""
        n = self._name(name)
        k = min + self._p.choice(max - min + 1, n)
        dom = core.MASK_ALL if alphabet is None else expand_class(alphabet)
        r = mkrope([CharVar("%s.%d" % (n, i), dom) for i in range(k)])
        self._p.inputs.append((n, "text", r))
        return r

    def key(self, name, alphabet=None):
        """An opaque non-empty name over the alphabet; two keys may be equal."""
        n = self._name(name)
        ident = z3.Int("key!" + n)
        self._p.assume(ident >= 0)
        dom = KEYCHARS if alphabet is None else expand_class(alphabet)
        t = Tok(n, dom, ident=ident)
        r = Rope([t])
        self._p.inputs.append((n, "text", r))
        return r

    def number_text(self, name, lo=-1000000.0, hi=1000000.0, whole=False):
        """Text of a number, and the number."""
        n = self._name(name)
        if whole:
            v = z3.Int("in!" + n)
            num = SymInt(v)
        else:
            v = z3.Real("in!" + n)
            num = SymFloat(v)
        self._p.assume(v >= (z3.IntVal(int(lo)) if whole else
                             z3.RealVal(Fraction(repr(lo)))))
        self._p.assume(v <= (z3.IntVal(int(hi)) if whole else
                             z3.RealVal(Fraction(repr(hi)))))
        self._p.inputs.append((n, "int" if whole else "real", v))
        dom = rope.DIGITS
        if not whole:
            dom |= mask_of(".")
        if lo < 0:
            dom |= mask_of("-")
        t = Tok(n, dom, num=num)
        t.origin = ("input" + n, num)
        if whole:
            t.text = lambda m: str(m.eval(v, True).as_long())
        else:
            t.text = lambda m: plain_decimal(
                rope.real_value(m.eval(v, True)))

        if lo < 0:
            def expander(tok):
                if self._p.decide(v < 0):
                    u = Tok(n + "abs", dom & ~mask_of("-"), num=-num)
                    u.text = lambda m: tok.text(m).lstrip("-")
                    u.origin = ("abs" + n, num)
                    return ["-", u]
                u = Tok(n + "pos", dom & ~mask_of("-"), num=num)
                u.text = tok.text
                u.origin = ("abs" + n, num)
                return [u]
            t.expander = expander
        return Rope([t]), num

    def hex_text(self, name, width, lo=None, hi=None):
        """Hexadecimal text of a symbolic integer of `width` digits."""
        v = self.int(name, 0 if lo is None else lo,
                     16 ** width - 1 if hi is None else hi)
        import stubs
        return stubs.hex_text(v, width), v

    # -- property --------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, (rope.SymChar, rope.SymConj)):
            if not cond:
                self._p.abort(core.PathInfeasible("assumption"))
            return
        if isinstance(cond, SymBool):
            self._p.assume(cond.e)
        else:
            self._p.assume(truth(cond))

    def check(self, cond, label, detail=None):
        if isinstance(cond, SymBool):
            self._p.check_property(cond.e, label, detail)
        else:
            self._p.check_property(truth(cond), label, detail)

    def equal(self, a, b, label):
        c = deep_eq(a, b)
        pref = None
        if is_num(a) and is_num(b) and not is_special(a) and \
                not is_special(b) and isinstance(c, SymBool):
            d = zreal(a) - zreal(b)
            pref = z3.Or(d >= 1, -d >= 1)
        self.check(c, label, (a, b, pref))

    def differ(self, a, b, label):
        self.check(not_(deep_eq(a, b)), label, (a, b, None))

    def close(self, a, b, label):
        c = approx(a, b)
        pref = None
        if isinstance(c, SymBool):
            d = zreal(a) - zreal(b)
            pref = z3.Or(d >= 1, -d >= 1)
        self.check(c, label, (a, b, pref))

    def near(self, a, b, label, tol=6e-7):
        """Equal up to the rounding to six decimals."""
        c = False
        pref = None
        if is_special(a) or is_special(b):
            c = deep_eq(a, b)
        elif is_num(a) and is_num(b):
            d = zreal(a) - zreal(b)
            t = z3.RealVal(Fraction(repr(tol)))
            c = values.mkbool(z3.simplify(z3.And(d <= t, -d <= t)))
            pref = z3.Or(d >= 1, -d >= 1)
        self.check(c, label, (a, b, pref))

    def le(self, a, b, label):
        c = runtime.op_le(a, b)
        pref = None
        if isinstance(c, SymBool) and not is_special(a) and not is_special(b):
            pref = zreal(a) - zreal(b) >= 1
        self.check(c, label, (a, b, pref))

    def lt(self, a, b, label):
        c = runtime.op_lt(a, b)
        pref = None
        if isinstance(c, SymBool):
            pref = zreal(a) - zreal(b) >= 1
        self.check(c, label, (a, b, pref))

    def same(self, a, b):
        """Structural equality as a condition (exact)."""
        return deep_eq(a, b)

    def fail(self, label):
        self.check(False, label)

    def reached(self, label):
        self._p.labels.add(label)
        ex = self._p.ex
        ex.labels[label] = ex.labels.get(label, 0) + 1

    def observe(self, name, value):
        self._p.observations.append((name, value))

    def skip(self):
        """The path is outside the scenario."""
        self._p.abort(core.PathInfeasible("skipped"))

    def gap(self, what):
        self._p.unsupported("harness gap: " + what)

    # -- logic helpers ----------------------------------------------------------
    def both(self, *xs):
        return and_(*xs)

    def either(self, *xs):
        return or_(*xs)

    def negate(self, x):
        return not_(x)

    def implies(self, a, b):
        return or_(not_(a), b)

    def ite(self, c, a, b):
        return values.ite(c, a, b)

    def is_nan(self, x):
        return isinstance(x, float) and x != x

    def number_of(self, text):
        return rope.parse_float(text)

    # -- surroundings ------------------------------------------------------------
    def set_time(self, f):
        self._w.time_func = f

    def set_sleep(self, f):
        self._w.sleep_func = f

    def set_random(self, f):
        self._w.random_func = f

    def set_randint(self, f):
        self._w.randint_func = f

    def set_reactor(self, r):
        self._w.reactor = r

    def set_md5(self, f):
        self._w.md5_func = f

    def set_resolver(self, f):
        self._w.resolver = f

    def set_socket(self, f):
        self._w.socket_factory = f

    def set_psutil(self, f):
        self._w.psutil_func = f

    def set_plugins(self, plugins):
        self._w.plugins = plugins

    def set_node(self, name):
        self._w.node_name = name

    def set_file(self, name, text):
        self._w.files[name] = text
        return name

    def carbon_managers(self):
        return self._w.carbon_managers

    def _log(self, kind, args, kw):
        self.logs.append((kind, args, kw))

    def errors_logged(self):
        return len([1 for k, a, w in self.logs if k == "err"])


def plain_decimal(f):
    """A fraction as plain decimal text (rounded to 12 places)."""
    neg = f < 0
    f = abs(f)
    scaled = int(f * 10 ** 12 + Fraction(1, 2))
    whole, part = divmod(scaled, 10 ** 12)
    s = str(whole)
    if part:
        s += "." + ("%012d" % part).rstrip("0")
    return ("-" if neg and scaled else "") + s


# -- running one scenario -------------------------------------------------------

def evaluate(x, model, path):
    """Concrete JSON value of a symbolic value under a model."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.e, True))
    if isinstance(x, SymInt):
        return model.eval(x.e, True).as_long()
    if isinstance(x, SymFloat):
        return float(rope.real_value(model.eval(x.e, True)))
    if isinstance(x, float):
        if x != x:
            return {"_f": "nan"}
        if is_special(x):
            return {"_f": "inf" if x > 0 else "-inf"}
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, (str, Rope)):
        return rope.concrete_text(x, model, path.literal_ids)
    if isinstance(x, (list, tuple)):
        return [evaluate(y, model, path) for y in x]
    if isinstance(x, SymDict):
        return sorted(([evaluate(k, model, path), evaluate(v, model, path)]
                       for k, v in x.items()), key=repr)
    if isinstance(x, SymSet):
        return sorted((evaluate(k, model, path) for k in x), key=repr)
    return "<%s>" % type(x).__name__


# numbers that do not survive being cut to a few digits
ROUGH = {"real": [Fraction("86421.9753124689"), Fraction("7531.8642097531"),
                  Fraction("987654321.123456")],
         "int": [86421975, 9753124, 75318]}
ROUGH_PART = Fraction("0.7391462538")


class ScenarioExplorer(core.Explorer):
    def __init__(self, program, harness, func, params, tier, code_prefix,
                 **kw):
        core.Explorer.__init__(self, **kw)
        self.program = program
        self.harness = harness
        self.func = func
        self.params = params
        self.tier = tier
        self.code_prefix = code_prefix
        self.witnesses = []
        self.witness_cap = 12
        self.seen_labels = set()
        self.unsupported_cases = []
        self.samples = 0

    # -- model selection ---------------------------------------------------
    def nice_model(self, path, extra, budget_s=1.5, rough=False):
        """A model with small whole or dyadic numbers where possible; a rough
        one has numbers with many digits instead, which is what it takes
        where digits are lost."""
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*path.constraints)
        s.add(*extra)
        end = time.time() + budget_s
        r = s.check()
        if r != z3.sat:
            return None
        m = s.model()
        at = 0
        for n, kind, v in path.inputs:
            if kind not in ("real", "int"):
                continue
            if time.time() > end:
                break
            at += 1
            cur_v = m.eval(v, True)
            f = rope.real_value(cur_v)
            cands = []
            if rough:
                cands = [sign * (large + at) for large in ROUGH[kind]
                         for sign in (1, -1)]
                if kind == "real":
                    cands.insert(0, int(f) + ROUGH_PART + at)
                    cands.insert(0, int(f) + ROUGH_PART)
                    cands.append(ROUGH_PART)
            elif kind == "real":
                if f.denominator == 1 and abs(f) < 1000:
                    s.add(v == cur_v)
                    continue
                base = int(f // 1)
                cands = [Fraction(base), Fraction(base + 1),
                         Fraction(int(f * 4), 4), Fraction(int(f * 64), 64),
                         Fraction(int(f * 1024), 1024)]
            else:
                if abs(f) < 1000:
                    s.add(v == cur_v)
                    continue
                cands = [0, 1, 7, 100]
            done = False
            for c in cands:
                s.push()
                s.add(v == (z3.RealVal(c) if kind == "real" else c))
                s.set("timeout", 400)
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                    done = True
                    break
                s.pop()
                if time.time() > end:
                    break
            if not done and not z3.is_algebraic_value(cur_v):
                s.push()
                s.add(v == m.eval(v, True))
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
        return m

    def case(self, path, model):
        inputs = {}
        for n, kind, v in path.inputs:
            if kind == "choice":
                inputs[n] = v
            elif kind == "real":
                inputs[n] = float(rope.real_value(model.eval(v, True)))
            elif kind == "int":
                inputs[n] = model.eval(v, True).as_long()
            elif kind == "bool":
                inputs[n] = z3.is_true(model.eval(v, True))
            else:
                inputs[n] = {"_t": rope.concrete_text(v, model,
                                                      path.literal_ids)}
        return {"harness": self.harness, "func": self.func,
                "params": self.params, "tier": self.tier, "inputs": inputs}

    def on_failure(self, path, label, negated, detail, model):
        n = self.failure_counts.get(label, 0)
        core.Explorer.on_failure(self, path, label, negated, detail, model)
        if n < self.failure_cap and any(kind in ("real", "int")
                                        for _, kind, _ in path.inputs):
            self.failures.append(self.extract(path, label, negated, detail,
                                              model, True))

    def extract(self, path, label, negated, detail, model, rough=False):
        extra = [] if negated is None else [negated]
        m = None
        d = None
        if rough:
            m = self.nice_model(path, extra, rough=True)
            if m is None:
                return {"label": label, "case": None}
        elif isinstance(detail, tuple) and len(detail) == 3:
            if detail[2] is not None:
                m = self.nice_model(path, extra + [detail[2]])
        if m is None:
            m = self.nice_model(path, extra)
        if m is None:
            m = model if model is not None else path.get_model()
        if m is None:
            return {"label": label, "case": None}
        c = self.case(path, m)
        c["label"] = label
        if isinstance(detail, tuple) and len(detail) == 3:
            try:
                d = [evaluate(detail[0], m, path),
                     evaluate(detail[1], m, path)]
            except Exception as e:
                d = repr(e)
        elif detail is not None:
            d = str(detail)
        return {"label": label, "case": c, "detail": d}

    def on_unsupported(self, path, reason):
        if len(self.unsupported_cases) >= 6:
            return
        try:
            path.aborted = None
            m = path.model
            if m is None:
                r, m = path.check()
                if r != z3.sat:
                    return
            self.unsupported_cases.append(
                {"reason": reason, "case": self.case(path, m)})
        except Exception:
            pass

    # -- one path ---------------------------------------------------------------
    def classify(self, tb):
        """Did the exception pass through the code under test after the
        harness last had control?"""
        origin = None
        for frame, _ in traceback.walk_tb(tb):
            f = frame.f_code.co_filename
            if f.startswith(self.code_prefix):
                origin = "code"
            elif "/harness/" in f:
                origin = "harness"
        return origin

    def run_path(self, path):
        world = loader.World(self.program)
        env = Env(path, world, self.tier)
        try:
            mod = world.load(self.harness)
            getattr(mod, self.func)(env, **self.params)
        except core.Abort as e:
            raise
        except RecursionError:
            path.alive()
            raise core.PathUnsupported("recursion limit")
        except Exception as e:
            path.alive()
            where = self.classify(e.__traceback__)
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            path.flush_checks()
            if getattr(e, "planted", False) or where == "code" and \
                    not getattr(e, "harness_gap", False):
                path.labels.add("exception")
                self.on_failure(path, "exception:" + type(e).__name__, None,
                                short_tb(e), None)
                self.stats.obligations += 1
                return
            raise core.PathUnsupported("exception in harness: " + short_tb(e))
        path.alive()
        path.flush_checks()
        self.witness(path)

    def witness(self, path):
        new = path.labels - self.seen_labels
        self.seen_labels |= path.labels
        n = self.stats.paths
        if not new and (len(self.witnesses) >= self.witness_cap or
                        (n > 8 and n & (n - 1))):
            return
        if len(self.witnesses) >= 3 * self.witness_cap:
            return
        try:
            m = self.nice_model(path, [], budget_s=0.5) or path.get_model()
        except core.Abort:
            return
        if m is None:
            return
        c = self.case(path, m)
        obs = []
        for name, v in path.observations:
            try:
                obs.append([name, evaluate(v, m, path)])
            except Exception as e:
                obs.append([name, {"_error": repr(e)}])
        self.witnesses.append({"case": c, "observations": obs,
                               "labels": sorted(path.labels),
                               "approx": bool(path.abstractions)})


def short_tb(e):
    frames = traceback.extract_tb(e.__traceback__)
    keep = [f for f in frames if "/symex/" not in f.filename][-4:]
    return "%s: %s at %s" % (
        type(e).__name__, str(e.args)[:200],
        " < ".join("%s:%s:%s" % (os.path.basename(f.filename), f.lineno,
                                 f.name) for f in reversed(keep)))
