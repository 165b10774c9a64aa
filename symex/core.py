"""Path exploration: decisions, constraints, queries."""
import os
import time
from fractions import Fraction

import z3

SLOW = os.environ.get("VERIF_SLOW")     # debugging: keep slow queries
MASK_ALL = (1 << 256) - 1


class Abort(BaseException):
    """Ends the current path.  Never swallowed by the code under test."""


class PathInfeasible(Abort):
    pass


class PathUnsupported(Abort):
    """The engine cannot carry on with this path (recorded as inconclusive)."""


class PathTimeout(PathUnsupported):
    pass


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def chars_of(mask):
    out = []
    c = 0
    while mask:
        if mask & 1:
            out.append(c)
        mask >>= 1
        c += 1
    return out


class CharVar(object):
    """One symbolic byte.  Its domain is tracked as a bit set; the solver only
    sees it once it takes part in arithmetic or in a comparison with another
    symbolic character."""
    __slots__ = ("name", "dom", "var", "is_input")

    def __init__(self, name, dom=MASK_ALL, is_input=True):
        self.name = name
        self.dom = dom
        self.var = None
        self.is_input = is_input

    def __repr__(self):
        return "<char %s>" % self.name


def in_mask(var, mask):
    """z3 condition: integer var lies in the set of code points."""
    ors = []
    cs = chars_of(mask & MASK_ALL)
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        if i == j:
            ors.append(var == cs[i])
        else:
            ors.append(z3.And(var >= cs[i], var <= cs[j]))
        i = j + 1
    return z3.Or(*ors) if ors else z3.BoolVal(False)


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.unsupported = {}
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.concretised = {}
        self.functions = set()


class Path(object):
    """State of one execution."""

    def __init__(self, explorer, prefix, model):
        self.ex = explorer
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.branch_timeout_ms)
        self.model = model
        self.known = {}
        self.keep = []
        self.constraints = []
        self.defs = []            # (monomial variable, its factors)
        self.def_conds = []
        self.aborted = None
        self.ticks = 0
        self.counter = {}
        self.inputs = []          # (name, kind, value)
        self.extra_constraints = 0
        self.concretised = []
        self.abstractions = set()
        self.literal_ids = {}
        self.cache = {}
        self.observations = []
        self.pending_checks = []  # (label, z3 cond or bool, detail)
        self.labels = set()
        self.deadline = time.time() + explorer.path_timeout_s
        self.log = []
        self.depth = 0
        self.chars = []

    # -- naming ----------------------------------------------------------
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def real(self, base):
        return z3.Real(self.fresh_name(base))

    def int(self, base):
        return z3.Int(self.fresh_name(base))

    # -- constraints -----------------------------------------------------
    def add(self, cond):
        self.solver.add(cond)
        self.constraints.append(cond)

    def add_axiom(self, cond):
        """A constraint defining a fresh variable; the model must be redone."""
        self.add(cond)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(cond, True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def set_in_model(self, var, value):
        """Extend the current model to a fresh variable."""
        if self.model is None:
            return
        try:
            m = self.model.__copy__()
            m.update_value(var, value(self.model))
            self.model = m
        except (z3.Z3Exception, AttributeError):
            self.model = None

    def add_def(self, var, factors, lemma):
        """var is the product of factors.  The incremental solver only gets
        the lemma; the product itself is consulted when a model needs it."""
        prod = factors[0]
        for f in factors[1:]:
            prod = prod * f
        cond = var == prod
        self.constraints.append(cond)
        self.defs.append((var, factors))
        self.def_conds.append(cond)
        self.solver.add(lemma)
        self.constraints.append(lemma)
        if self.model is not None:
            try:
                v = self.model.eval(prod, True)
                if z3.is_algebraic_value(v) or not z3.is_rational_value(v):
                    self.model = None
                    return
                m = self.model.__copy__()
                m.update_value(var, v)
                self.model = m
            except (z3.Z3Exception, AttributeError):
                self.model = None

    def consistent(self, m):
        for c in self.def_conds:
            if not z3.is_true(m.eval(c, True)):
                return False
        return True

    def repair(self, m, extra):
        """A model in which the products are right, near the given one."""
        s = z3.Solver()
        s.set("timeout", self.ex.branch_timeout_ms)
        defs = set(c.get_id() for c in self.def_conds)
        s.add(*[c for c in self.constraints if c.get_id() not in defs])
        s.add(*extra)
        pinned = {}
        for var, factors in self.defs:
            free = None
            coef = Fraction(1)
            for f in factors:
                k = f.get_id()
                if k in pinned:
                    coef *= pinned[k]
                    continue
                if free is None:
                    free = f
                    continue
                if f.get_id() == free.get_id():
                    # a power: fix its base
                    f, free = free, None
                v = m.eval(f, True)
                if not z3.is_rational_value(v):
                    return None
                v = v.as_fraction()
                pinned[k] = v
                s.add(f == z3.RealVal(v))
                coef *= v
                if free is None:
                    coef *= v
            if free is None:
                s.add(var == z3.RealVal(coef))
            else:
                s.add(var == z3.RealVal(coef) * free)
        if s.check() == z3.sat:
            m = s.model()
            if self.consistent(m):
                return m
        return None

    def entails_equal(self, a, b):
        """Do the constraints force a == b?  (False when not known.)"""
        m = self.model
        if m is not None and not z3.is_true(m.eval(a == b, True)):
            return False
        t = time.time()
        self.solver.push()
        self.solver.add(a != b)
        r = self.solver.check()
        self.solver.pop()
        self.ex.stats.queries += 1
        self.ex.stats.solver_s += time.time() - t
        return r == z3.unsat

    def link(self, ch):
        if ch.var is None:
            ch.var = z3.Int("char!" + ch.name)
            self.add_axiom(in_mask(ch.var, ch.dom))
        return ch.var

    def check(self, *extra):
        st = self.ex.stats
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        if extra:
            self.solver.pop()
        st.queries += 1
        st.solver_s += time.time() - t
        if SLOW and time.time() - t > 1:
            with open("%s-%d.smt2" % (SLOW, st.queries), "w") as f:
                z = z3.Solver()
                z.add(*self.solver.assertions())
                z.add(*extra)
                f.write("; %s %.1f s\n" % (r, time.time() - t))
                f.write(z.to_smt2())
        if r == z3.sat and self.def_conds and not self.consistent(m):
            t = time.time()
            m = self.repair(m, extra)
            st.queries += 1
            st.solver_s += time.time() - t
            if m is None:
                r = z3.unknown
        if r == z3.unknown:
            r, m = self.hard_check(*extra)
        return r, m

    def hard_check(self, *extra):
        """A second opinion from fresh solvers when the incremental one gives up."""
        st = self.ex.stats
        cons = list(self.constraints) + list(extra)
        for make in self.ex.backends:
            t = time.time()
            try:
                s = make()
                s.set("timeout", self.ex.hard_timeout_ms)
                s.add(*cons)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            st.queries += 1
            st.solver_s += time.time() - t
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        st.unknown += 1
        return z3.unknown, None

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                self.abort(PathInfeasible("constraints unsatisfiable"))
            self.model = m
        return self.model

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def unsupported(self, what):
        self.abort(PathUnsupported(what))

    def alive(self):
        if self.aborted is not None:
            raise self.aborted

    # -- decisions -------------------------------------------------------
    def eval_bool(self, cond):
        m = self.model
        if m is None:
            return None
        v = m.eval(cond, True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, cond):
        self.alive()
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.known:
            return self.known[key]
        self.keep.append(cond)
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
            if not forced:
                self.add(cond if val else z3.Not(cond))
            self._note(cond, val, forced)
            return val
        self.ex.stats.decisions += 1
        if time.time() > self.deadline:
            self.abort(PathTimeout("path time limit"))
        self.get_model()
        v = self.eval_bool(cond)
        if v is None:
            r, m = self.check(cond)
            if r == z3.unsat:
                self._note(cond, False, True)
                return False
            v = True
            newmodel = m
        else:
            newmodel = self.model
        other = z3.Not(cond) if v else cond
        r, m = self.check(other)
        if r == z3.unsat:
            self._note(cond, v, True)
            return v
        self.ex.push(self.trace + [(not v, False)], m)
        self.ex.stats.forks += 1
        self.add(cond if v else z3.Not(cond))
        self.model = newmodel
        self._note(cond, v, False)
        return v

    def _note(self, cond, val, forced):
        self.trace.append((val, forced))
        self.known[cond.get_id()] = val
        neg = z3.simplify(z3.Not(cond))
        self.keep.append(neg)
        self.known[neg.get_id()] = not val

    def decide_char(self, ch, mask):
        """Is the symbolic byte ch in mask?"""
        self.alive()
        inter = ch.dom & mask
        if inter == 0:
            return False
        if inter == ch.dom:
            return True
        if ch.var is not None:
            cond = in_mask(ch.var, inter)
            r = self.decide(cond)
            ch.dom = inter if r else ch.dom & ~mask
            return r
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            self.ex.stats.decisions += 1
            if time.time() > self.deadline:
                self.abort(PathTimeout("path time limit"))
            val = True
            self.ex.push(self.trace + [(False, False)], self.model)
            self.ex.stats.forks += 1
        self.trace.append((val, False))
        ch.dom = inter if val else ch.dom & ~mask
        return val

    def choice(self, n, what="choice"):
        self.alive()
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            self.ex.stats.decisions += 1
            val = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trace + [(k, False)], self.model)
                self.ex.stats.forks += 1
        self.trace.append((val, False))
        return val

    def assume(self, cond):
        """cond: python bool or z3 Bool."""
        self.alive()
        self.flush_checks()
        if cond is True:
            return
        if cond is False:
            self.abort(PathInfeasible("assumption"))
        self.add(cond)
        if self.model is not None and self.eval_bool(cond) is not True:
            self.model = None
        # keep the path feasible so that vacuity is noticed
        if self.pos >= len(self.prefix):
            self.get_model()

    def concretise_int(self, expr, what, limit=64):
        """Enumerate the values of an integer expression (complete: every value
        is explored on its own path)."""
        self.alive()
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            key = ("conc", self.pos)
            if self.pos < len(self.prefix):
                val, forced = self.prefix[self.pos]
                if isinstance(val, tuple):
                    self.pos += 1
                    num, isit = val
                    self.trace.append((val, forced))
                    if not forced:
                        self.add(e == num if isit else e != num)
                    if isit:
                        return num
                    continue
            m = self.get_model()
            if m is None:
                self.unsupported("no model for " + what)
            num = m.eval(e, True)
            if not z3.is_int_value(num):
                self.unsupported("no integer model for " + what)
            num = num.as_long()
            r, m2 = self.check(e != num)
            if r == z3.unsat:
                self.trace.append(((num, True), True))
                return num
            self.ex.push(self.trace + [((num, False), False)], m2)
            self.ex.stats.forks += 1
            self.add(e == num)
            self.trace.append(((num, True), False))
            return num
        self.note_concretised(what + " (more than %d values)" % limit)
        m = self.get_model()
        num = m.eval(e, True).as_long()
        self.add(e == num)
        return num

    def pin(self, expr, what):
        """Under-approximation: fix an expression to its value in the model."""
        self.alive()
        self.note_concretised(what)
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
            num = val
        else:
            m = self.get_model()
            if m is None:
                self.unsupported("no model for " + what)
            num = m.eval(expr, True)
            if z3.is_algebraic_value(num):
                self.unsupported("algebraic value for " + what)
            num = (num.as_long() if z3.is_int_value(num) else
                   num.as_fraction() if z3.is_rational_value(num) else
                   z3.is_true(num))
        self.trace.append((num, False))
        if isinstance(num, Fraction):
            self.add(expr == z3.RealVal(num))
        elif isinstance(num, bool):
            self.add(expr if num else z3.Not(expr))
        else:
            self.add(expr == num)
        return num

    def note_concretised(self, what):
        self.concretised.append(what)
        d = self.ex.stats.concretised
        d[what] = d.get(what, 0) + 1

    def tick(self):
        self.ticks += 1
        if self.ticks > self.ex.max_ticks:
            self.abort(PathUnsupported("loop bound exceeded"))
        if self.ticks % 256 == 0 and time.time() > self.deadline:
            self.abort(PathTimeout("path time limit"))

    # -- property assertions ---------------------------------------------
    def check_property(self, cond, label, detail=None):
        self.alive()
        self.labels.add(label)
        self.ex.stats.obligations += 1
        self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
        if cond is True:
            self.ex.stats.discharged += 1
            return
        if cond is False:
            self.flush_checks()
            self.record_failure(label, None, detail)
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.ex.stats.discharged += 1
            return
        self.pending_checks.append((label, cond, detail))

    def flush_checks(self):
        if not self.pending_checks:
            return
        checks, self.pending_checks = self.pending_checks, []
        r, m = self.check(z3.Not(z3.And(*[c for _, c, _ in checks])))
        if r == z3.unsat:
            self.ex.stats.discharged += len(checks)
            return
        if r == z3.unknown and len(checks) == 1:
            self.ex.undecided.append(checks[0][0])
            return
        seen = set()
        for label, cond, detail in checks:
            r, m = self.check(z3.Not(cond))
            if r == z3.unsat:
                self.ex.stats.discharged += 1
            elif r == z3.sat:
                if label not in seen:
                    seen.add(label)
                    self.record_failure(label, z3.Not(cond), detail, m)
            else:
                self.ex.undecided.append(label)

    def record_failure(self, label, negated, detail, model=None):
        self.ex.on_failure(self, label, negated, detail, model)


def nlsat():
    return z3.Tactic("qfnra-nlsat").solver()


def fresh_solver():
    return z3.SimpleSolver()


def smt_tactic():
    return z3.Then("simplify", "solve-eqs", "smt").solver()


class Explorer(object):
    """Depth-first exploration of all paths of one scenario."""

    def __init__(self, budget_s=60, path_timeout_s=30, branch_timeout_ms=4000,
                 hard_timeout_ms=15000, max_paths=200000, max_ticks=60000):
        self.stats = Stats()
        self.stack = []
        self.labels = {}
        self.undecided = []
        self.failures = []
        self.budget_s = budget_s
        self.path_timeout_s = path_timeout_s
        self.branch_timeout_ms = branch_timeout_ms
        self.hard_timeout_ms = hard_timeout_ms
        self.max_paths = max_paths
        self.max_ticks = max_ticks
        self.backends = [fresh_solver, nlsat]
        self.exhausted = False
        self.failure_cap = 6
        self.failure_counts = {}
        self.witnesses = []
        self.abstractions = set()

    def push(self, prefix, model):
        self.stack.append((prefix, model))

    def on_failure(self, path, label, negated, detail, model):
        n = self.failure_counts.get(label, 0)
        self.failure_counts[label] = n + 1
        if n < self.failure_cap:
            self.failures.append(self.extract(path, label, negated, detail,
                                              model))

    def extract(self, path, label, negated, detail, model):
        raise NotImplementedError

    def explore(self, run):
        """run(path) executes the scenario once."""
        self.stack = [([], None)]
        self.run_stack(run)

    def run_stack(self, run):
        start = time.time()
        while self.stack:
            if time.time() - start > self.budget_s:
                break
            if self.stats.paths + self.stats.infeasible >= self.max_paths:
                break
            prefix, model = self.stack.pop()
            path = Path(self, prefix, model)
            set_path(path)
            try:
                run(path)
            except PathInfeasible:
                self.stats.infeasible += 1
                continue
            except PathUnsupported as e:
                k = str(e)
                self.stats.unsupported[k] = self.stats.unsupported.get(k, 0) + 1
                self.on_unsupported(path, k)
                continue
            finally:
                set_path(None)
                self.abstractions |= path.abstractions
            self.stats.paths += 1
        self.exhausted = not self.stack
        self.wall_s = time.time() - start

    def on_unsupported(self, path, reason):
        pass


P = None


def set_path(p):
    global P
    P = p


def cur():
    return P
