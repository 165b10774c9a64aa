"""Symbolic text: sequences of native text, symbolic bytes and opaque tokens."""
import math
import re as native_re
from fractions import Fraction

import z3

import core
from core import cur, CharVar, mask_of, chars_of, MASK_ALL, in_mask
from values import (Sym, SymBool, SymInt, SymFloat, SymNum, and_, or_, not_,
                    mkbool, zreal, zint, is_special, is_num, trunc_, round_,
                    concrete)

WS = mask_of("\t\n\x0b\x0c\r ")
DIGITS = mask_of("0123456789")
LOWER = mask_of("abcdefghijklmnopqrstuvwxyz")
UPPER = mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
ALPHA = LOWER | UPPER
WORD = ALPHA | DIGITS | mask_of("_")


class Tok(object):
    """A non-empty stretch of text whose characters all lie in `charset` and
    which is otherwise only known by identity (`ident`: equal texts have equal
    idents)."""

    def __init__(self, name, charset, ident=None, num=None, text=None):
        self.name = name
        self.charset = charset
        self.ident = ident
        self.num = num            # numeric value of the text, if it is a number
        self.text = text          # callable(model) -> concrete text
        self.expansion = None
        self.expander = None
        self.width = None         # exact number of characters, when known
        self.origin = None        # ("fmt", value) for formatted numbers

    def __repr__(self):
        return "<%s>" % self.name

    def expand(self):
        if self.expansion is None:
            if self.expander is not None:
                self.expansion = self.expander(self)
            if self.expansion is None:
                self.expansion = list(pin_token(self))
        return self.expansion


def literal_id(text):
    p = cur()
    if text not in p.literal_ids:
        p.literal_ids[text] = -1 - len(p.literal_ids)
    return p.literal_ids[text]


def name_for(num, charset, literals):
    """The concrete text of an opaque name whose ident is num."""
    for text, i in literals.items():
        if i == num:
            return text
    letters = [chr(c) for c in chars_of(charset & LOWER)] or \
        [chr(c) for c in chars_of(charset & ALPHA)] or \
        [chr(c) for c in chars_of(charset & DIGITS)] or \
        [chr(c) for c in chars_of(charset)]
    n = 2 * num if num >= 0 else -2 * num - 1
    out = ""
    while True:
        out = letters[n % len(letters)] + out
        n //= len(letters)
        if n == 0:
            break
    head = "k" if "k" in letters else letters[0]
    out = head + out
    while out in literals:
        out = head + out
    return out


def pin_token(tok):
    p = cur()
    if tok.ident is not None:
        num = p.pin(tok.ident, "text of token " + tok.name)
        return name_for(num, tok.charset, p.literal_ids)
    m = p.get_model()
    if tok.text is not None and tok.num is not None:
        # a number: fix its value
        v = tok.num
        if isinstance(v, Sym):
            p.pin(v.e, "text of number " + tok.name)
        return tok.text(p.get_model())
    p.unsupported("character access to opaque text " + tok.name)


def mkrope(segs):
    out = []
    for s in segs:
        if isinstance(s, Rope):
            for t in s.segs:
                if isinstance(t, str) and out and isinstance(out[-1], str):
                    out[-1] += t
                else:
                    out.append(t)
        elif isinstance(s, str):
            if s:
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
        else:
            out.append(s)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Rope(out)


def units(x):
    """Flatten into single native chars, CharVars and Toks."""
    if isinstance(x, str):
        return list(x)
    out = []
    for s in x.segs:
        if isinstance(s, str):
            out.extend(s)
        elif isinstance(s, Tok) and s.expansion is not None:
            stack = list(s.expansion)
            for u in stack:
                if isinstance(u, Tok) and u.expansion is not None:
                    out.extend(units(Rope([u])))
                else:
                    out.append(u)
        else:
            out.append(s)
    return out


def from_units(us):
    return mkrope(us)


class NeedExpand(Exception):
    def __init__(self, tok):
        self.tok = tok


def unit_in(u, mask):
    """Single-character test; a token must be expandable to be examined unless
    its charset settles the question."""
    if isinstance(u, str):
        o = ord(u)
        return bool(mask >> o & 1) if o < 256 else bool(mask == MASK_ALL)
    if isinstance(u, CharVar):
        return cur().decide_char(u, mask)
    if u.charset & mask == 0:
        return False
    raise NeedExpand(u)


def retry(f):
    """Run f(), expanding tokens as it asks for it."""
    for _ in range(50):
        try:
            return f()
        except NeedExpand as e:
            e.tok.expand()
    cur().unsupported("token expansion does not settle")


def char_eq(a, b):
    """Condition: two single characters are equal."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        bit = 1 << ord(b) if ord(b) < 256 else 0
        if not a.dom & bit:
            return False
        if a.dom == bit:
            return True
        return SymChar(a, bit)
    if a is b:
        return True
    if not a.dom & b.dom:
        return False
    p = cur()
    return mkbool(p.link(a) == p.link(b))


class SymChar(SymBool):
    """The condition `ch in mask`, decided on the domain when forced."""
    __slots__ = ("ch", "mask")

    def __init__(self, ch, mask):
        self.ch = ch
        self.mask = mask

    @property
    def e(self):
        return in_mask(cur().link(self.ch), self.mask)

    @e.setter
    def e(self, v):
        pass

    def __bool__(self):
        return cur().decide_char(self.ch, self.mask)


class SymConj(SymBool):
    """A conjunction decided conjunct by conjunct (keeps character tests off
    the solver)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    @property
    def e(self):
        return z3.And(*[p.e for p in self.parts])

    @e.setter
    def e(self, v):
        pass

    def __bool__(self):
        for p in self.parts:
            if not p:
                return False
        return True


def conj(parts):
    ps = []
    for p in parts:
        if isinstance(p, SymBool):
            ps.append(p)
        elif not p:
            return False
    if not ps:
        return True
    return ps[0] if len(ps) == 1 else SymConj(ps)


def tok_eq(a, b):
    if a is b:
        return True
    if not a.charset & b.charset:
        return False
    if a.ident is not None and b.ident is not None:
        return mkbool(a.ident == b.ident)
    if a.origin and b.origin and a.origin[0] == b.origin[0]:
        return a.origin[1] == b.origin[1]
    raise NeedExpand(a if a.ident is None else b)


def tok_literal(tok, text):
    """tok == native text."""
    if not text:
        return False
    m = mask_of(text)
    if m & ~tok.charset:
        return False
    if tok.ident is not None:
        return mkbool(tok.ident == literal_id(text))
    raise NeedExpand(tok)


def rope_eq(a, b):
    return retry(lambda: _eq(units(a), units(b)))


def _eq(A, B):
    conds = []
    # common prefix
    while A and B:
        x, y = A[0], B[0]
        if isinstance(x, Tok) or isinstance(y, Tok):
            if x is y:
                A, B = A[1:], B[1:]
                continue
            break
        c = char_eq(x, y)
        if c is False:
            return False
        conds.append(c)
        A, B = A[1:], B[1:]
    while A and B:
        x, y = A[-1], B[-1]
        if isinstance(x, Tok) or isinstance(y, Tok):
            if x is y:
                A, B = A[:-1], B[:-1]
                continue
            break
        c = char_eq(x, y)
        if c is False:
            return False
        conds.append(c)
        A, B = A[:-1], B[:-1]
    if not A and not B:
        return conj(conds)
    if not A or not B:
        return False
    # lengths: without tokens they must agree
    toks = [u for u in A + B if isinstance(u, Tok)]
    if not toks:
        return False
    conds.append(_eq_tok(A, B))
    return conj(conds)


def _eq_tok(A, B):
    if len(A) == 1 and len(B) == 1 and isinstance(A[0], Tok) \
            and isinstance(B[0], Tok):
        return tok_eq(A[0], B[0])
    union = 0
    for u in A + B:
        if isinstance(u, Tok):
            union |= u.charset
    for side, other in ((A, B), (B, A)):
        # a fixed character which no token can contain splits both sides
        for i, u in enumerate(side):
            if isinstance(u, str) and not (union >> ord(u)) & 1:
                for j, v in enumerate(other):
                    if isinstance(v, str) and v == u:
                        return conj([_eq(side[:i], other[:j]),
                                     _eq(side[i + 1:], other[j + 1:])])
                    if isinstance(v, CharVar):
                        if v.dom >> ord(u) & 1:
                            raise NeedExpand(next(
                                t for t in A + B if isinstance(t, Tok)))
                return False
    for one, other in ((A, B), (B, A)):
        if len(one) == 1 and isinstance(one[0], Tok):
            if all(isinstance(u, str) for u in other):
                return tok_literal(one[0], "".join(other))
            for u in other:
                if isinstance(u, str) and not one[0].charset >> ord(u) & 1:
                    return False
                if isinstance(u, CharVar) and not one[0].charset & u.dom:
                    return False
                if isinstance(u, Tok) and not one[0].charset & u.charset:
                    return False
    raise NeedExpand(next(u for u in A + B if isinstance(u, Tok)))


def rope_cmp(a, b):
    """-1, 0, 1 (forks)."""
    def go():
        A, B = units(a), units(b)
        i = 0
        while i < len(A) and i < len(B):
            x, y = A[i], B[i]
            if x is y:
                i += 1
                continue
            if isinstance(x, Tok) or isinstance(y, Tok):
                if (isinstance(x, Tok) and isinstance(y, Tok) and
                        x.ident is not None and y.ident is not None and
                        i == len(A) - 1 and i == len(B) - 1):
                    if cur().decide(x.ident == y.ident):
                        return 0
                raise NeedExpand(x if isinstance(x, Tok) else y)
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return -1 if x < y else 1
                i += 1
                continue
            if char_eq(x, y):
                i += 1
                continue
            p = cur()
            zx = z3.IntVal(ord(x)) if isinstance(x, str) else p.link(x)
            zy = z3.IntVal(ord(y)) if isinstance(y, str) else p.link(y)
            return -1 if p.decide(zx < zy) else 1
        if len(A) == len(B):
            return 0
        return -1 if len(A) < len(B) else 1
    return retry(go)


class Rope(Sym):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return "<rope %r>" % (self.segs,)

    def __str__(self):
        raise core.PathUnsupported("native str() of symbolic text")

    def __hash__(self):
        return hash(fix_text(self))

    # comparisons
    def __eq__(self, o):
        if isinstance(o, (str, Rope)):
            return rope_eq(self, o)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return rope_cmp(self, o) < 0 if isinstance(o, (str, Rope)) \
            else NotImplemented

    def __le__(self, o):
        return rope_cmp(self, o) <= 0 if isinstance(o, (str, Rope)) \
            else NotImplemented

    def __gt__(self, o):
        return rope_cmp(self, o) > 0 if isinstance(o, (str, Rope)) \
            else NotImplemented

    def __ge__(self, o):
        return rope_cmp(self, o) >= 0 if isinstance(o, (str, Rope)) \
            else NotImplemented

    def __bool__(self):
        return True

    def __add__(self, o):
        if isinstance(o, (str, Rope)):
            return mkrope([self, o])
        raise TypeError("cannot concatenate 'str' and '%s' objects"
                        % type(o).__name__)

    def __radd__(self, o):
        if isinstance(o, (str, Rope)):
            return mkrope([o, self])
        raise TypeError("unsupported operand type(s) for +")

    def __mul__(self, n):
        return mkrope([self] * int(n))
    __rmul__ = __mul__

    def __len__(self):
        n = length(self)
        return int(n)

    def __iter__(self):
        us = expand_all(self)
        return iter([u if isinstance(u, str) else Rope([u]) for u in us])

    def __contains__(self, sub):
        return contains(self, sub)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return slice_(self, i.start, i.stop, i.step)
        i = int(i)
        us = units(self)
        # fixed-length stretches at the ends do not need tokens expanded
        if i >= 0 and not any(isinstance(u, Tok) for u in us[:i + 1]):
            if i >= len(us):
                raise IndexError("string index out of range")
            return from_units([us[i]])
        if i < 0 and not any(isinstance(u, Tok) for u in us[i:]) \
                and len(us) >= -i:
            return from_units([us[i]])
        us = expand_all(self)
        return from_units([us[i]])

    def __mod__(self, args):
        return percent_format(self, args)

    def __format__(self, spec):
        raise core.PathUnsupported("native format of symbolic text")

    # methods
    def split(self, sep=None, maxsplit=-1):
        return split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return split(self, sep, maxsplit)
        parts = split(self, sep, -1)
        if len(parts) <= maxsplit + 1:
            return parts
        if sep is None:
            cur().unsupported("rsplit on whitespace with limit")
        head = join(sep, parts[:len(parts) - maxsplit])
        return [head] + parts[len(parts) - maxsplit:]

    def partition(self, sep):
        i = find_unit(self, sep)
        if i is None:
            return (self, "", "")
        us = units(self)
        return (from_units(us[:i]), sep, from_units(us[i + len(units(sep)):]))

    def rpartition(self, sep):
        parts = split(self, sep, -1)
        if len(parts) == 1:
            return ("", "", self)
        return (join(sep, parts[:-1]), sep, parts[-1])

    def strip(self, chars=None):
        return strip(self, chars, True, True)

    def lstrip(self, chars=None):
        return strip(self, chars, True, False)

    def rstrip(self, chars=None):
        return strip(self, chars, False, True)

    def startswith(self, prefix, start=0, end=None):
        if start or end is not None:
            return startswith(slice_(self, start, end, None), prefix)
        if isinstance(prefix, tuple):
            return or_(*[startswith(self, p) for p in prefix])
        return startswith(self, prefix)

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return or_(*[endswith(self, p) for p in suffix])
        return endswith(self, suffix)

    def find(self, sub, start=0, end=None):
        if start or end is not None:
            us = expand_all(self)
            sl = us[start:end]
            i = find_unit(from_units(sl), sub)
            return -1 if i is None else i + (start if start >= 0 else
                                             max(0, len(us) + start))
        i = find_unit(self, sub)
        if i is None:
            return -1
        return position(self, i)

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if isinstance(i, int) and i < 0:
            raise ValueError("substring not found")
        return i

    def rfind(self, sub):
        parts = split(self, sub, -1)
        if len(parts) == 1:
            return -1
        head = join(sub, parts[:-1])
        return length(head)

    def count(self, sub):
        return len(split(self, sub, -1)) - 1

    def replace(self, old, new, count=-1):
        if old == "":
            cur().unsupported("replace of empty string")
        return join(new, split(self, old, count))

    def join(self, it):
        return join(self, it)

    def encode(self, *a):
        out = []
        for u in units(self):
            if isinstance(u, CharVar) and not unit_in(u, (1 << 128) - 1):
                c = chr(cur().concretise_int(cur().link(u), "non-ascii char",
                                             limit=128))
                out.append(c.encode("utf-8").decode("latin-1"))
            elif isinstance(u, str) and ord(u) > 127:
                out.append(u.encode("utf-8").decode("latin-1"))
            else:
                out.append(u)
        return from_units(out)

    def decode(self, *a):
        for u in units(self):
            if not isinstance(u, Tok) and not unit_in(u, (1 << 128) - 1):
                cur().unsupported("decode of non-ascii text")
        return self

    def lower(self):
        return map_chars(self, LOWER, UPPER, 32)

    def upper(self):
        return map_chars(self, UPPER, LOWER, -32)

    def isdigit(self):
        return all_in(self, DIGITS)

    def isalpha(self):
        return all_in(self, ALPHA)

    def isalnum(self):
        return all_in(self, ALPHA | DIGITS)

    def isspace(self):
        return all_in(self, WS)

    def splitlines(self, keepends=False):
        def go():
            us = units(self)
            lines, line = [], []
            i = 0
            while i < len(us):
                u = us[i]
                if unit_in(u, mask_of("\r\n")):
                    end = [u]
                    if unit_in(u, mask_of("\r")) and i + 1 < len(us) and \
                            unit_in(us[i + 1], mask_of("\n")):
                        end.append(us[i + 1])
                        i += 1
                    lines.append(from_units(line + (end if keepends else [])))
                    line = []
                else:
                    line.append(u)
                i += 1
            if line:
                lines.append(from_units(line))
            return lines
        return retry(go)

    def format(self, *a, **k):
        cur().unsupported("format with symbolic template")

    def title(self):
        cur().unsupported("title")

    def zfill(self, n):
        us = expand_all(self)
        return mkrope(["0" * max(0, n - len(us))] + us)

    def ljust(self, n, c=" "):
        us = expand_all(self)
        return mkrope(us + [c * max(0, n - len(us))])

    def rjust(self, n, c=" "):
        us = expand_all(self)
        return mkrope([c * max(0, n - len(us))] + us)

    def isupper(self):
        cur().unsupported("isupper")

    def islower(self):
        cur().unsupported("islower")

    def translate(self, *a):
        cur().unsupported("translate")

    def capitalize(self):
        us = units(self)
        return mkrope([mkrope([us[0]]).upper() if not isinstance(us[0], str)
                       else us[0].upper(), from_units(us[1:]).lower()])


def all_in(r, mask):
    def go():
        for u in units(r):
            if isinstance(u, Tok) and not u.charset & ~mask:
                continue
            if not unit_in(u, mask):
                return False
        return True
    return retry(go)


def map_chars(r, keep, change, delta):
    def go():
        out = []
        for u in units(r):
            if isinstance(u, str):
                out.append(u.lower() if delta > 0 else u.upper())
            elif not unit_in(u, change):
                out.append(u)
            else:
                p = cur()
                v = p.link(u)
                c = CharVar(p.fresh_name("case"), is_input=False)
                dom = 0
                for x in chars_of(u.dom):
                    dom |= 1 << (x + delta)
                c.dom = dom
                p.link(c)
                p.add_axiom(c.var == v + delta)
                out.append(c)
        return from_units(out)
    return retry(go)


def expand_all(r):
    if isinstance(r, str):
        return list(r)
    for _ in range(20):
        us = units(r)
        toks = [u for u in us if isinstance(u, Tok)]
        if not toks:
            return us
        for t in toks:
            t.expand()
    cur().unsupported("expansion")


def fix_text(r):
    """Pin symbolic text to one concrete value (under-approximation)."""
    if isinstance(r, str):
        return r
    out = []
    for u in expand_all(r):
        if isinstance(u, CharVar):
            v = cur().concretise_int(cur().link(u), "symbolic byte", limit=8)
            out.append(chr(v))
        else:
            out.append(u)
    return "".join(out)


def length(r):
    if isinstance(r, str):
        return len(r)
    n = 0
    p = cur()
    sym = None
    for u in units(r):
        if isinstance(u, Tok) and u.width is not None:
            n += u.width
        elif isinstance(u, Tok):
            key = ("len", id(u))
            if key not in p.cache:
                v = p.int("len!" + u.name)
                p.add_axiom(z3.And(v >= 1, v <= 64))
                p.cache[key] = (v, u)
                p.abstractions.add("length of opaque text is unconstrained")
            sym = p.cache[key][0] if sym is None else sym + p.cache[key][0]
        else:
            n += 1
    if sym is None:
        return n
    return SymInt(sym + n)


def position(r, i):
    return length(from_units(units(r)[:i]))


def boundary(us, i):
    """Index of the unit at symbolic position i, when i provably is one."""
    lengths = [length(from_units([u])) if isinstance(u, Tok) else 1
               for u in us]
    total = 0
    positions = [0]
    for n in lengths:
        total = total + n
        positions.append(total)
    for k, p in enumerate(positions):
        if isinstance(i, SymInt) or isinstance(p, SymInt):
            d = z3.simplify(zint(p) - zint(i))
            if z3.is_int_value(d) and d.as_long() == 0:
                return k
            # counted from the end
            d = z3.simplify(zint(p) - zint(i) - zint(total))
            if z3.is_int_value(d) and d.as_long() == 0 and k < len(us):
                return k
    return None


def fixed_slice(us, start, stop):
    """Slice of text of known total width along unit boundaries, or None."""
    widths = [(u.width if isinstance(u, Tok) else 1) for u in us]
    if None in widths:
        return None
    cuts = [0]
    for w in widths:
        cuts.append(cuts[-1] + w)
    a, b, _ = slice(start, stop).indices(cuts[-1])
    b = max(a, b)
    if a in cuts and b in cuts:
        return from_units(us[cuts.index(a):cuts.index(b)])
    return None


def slice_(r, start, stop, step):
    us = units(r)
    if step in (None, 1) and not isinstance(start, Sym) and \
            not isinstance(stop, Sym) and \
            any(isinstance(u, Tok) and u.width for u in us):
        out = fixed_slice(us, None if start is None else int(start),
                          None if stop is None else int(stop))
        if out is not None:
            return out
    if step in (None, 1) and (isinstance(start, SymInt) or
                              isinstance(stop, SymInt)):
        a = boundary(us, start) if isinstance(start, SymInt) else start
        b = boundary(us, stop) if isinstance(stop, SymInt) else stop
        if (a is not None or start is None) and \
                (b is not None or stop is None):
            if not isinstance(start, SymInt):
                # plain positions: only among leading single characters
                a = boundary(us, start) if start else 0
            if not isinstance(stop, SymInt) and stop is not None:
                b = boundary(us, stop)
            if a is not None and (b is not None or stop is None):
                return from_units(us[a:b])
    if step in (None, 1):
        start = 0 if start is None else int(start)
        n_front = 0
        while n_front < len(us) and not isinstance(us[n_front], Tok):
            n_front += 1
        n_back = 0
        while n_back < len(us) and not isinstance(us[-1 - n_back], Tok):
            n_back += 1
        if n_front == len(us):
            return from_units(us[start:None if stop is None else int(stop)])
        stop_i = None if stop is None else int(stop)
        ok_start = (0 <= start <= n_front) or (start < 0 and -start <= n_back)
        ok_stop = stop_i is None or 0 <= stop_i <= n_front or \
            (stop_i < 0 and -stop_i <= n_back)
        if ok_start and ok_stop:
            s = start if start >= 0 else len(us) + start
            e = len(us) if stop_i is None else \
                (stop_i if stop_i >= 0 else len(us) + stop_i)
            return from_units(us[s:e])
    us = expand_all(r)
    return from_units(us[slice(
        None if start is None else int(start),
        None if stop is None else int(stop),
        None if step is None else int(step))])


def match_at(us, i, sub):
    """Does sub (units) occur at unit i?  Forks."""
    for k, s in enumerate(sub):
        if i + k >= len(us):
            return False
        u = us[i + k]
        if isinstance(u, Tok) or isinstance(s, Tok):
            if u is s:
                continue
            if isinstance(u, Tok) and isinstance(s, str) and \
                    not u.charset >> ord(s) & 1:
                return False
            if isinstance(s, Tok) and isinstance(u, str) and \
                    not s.charset >> ord(u) & 1:
                return False
            raise NeedExpand(u if isinstance(u, Tok) else s)
        if not char_eq(u, s):
            return False
    return True


def find_unit(r, sub, start=0):
    def go():
        us, ss = units(r), units(sub)
        for i in range(start, len(us) - len(ss) + 1):
            if match_at(us, i, ss):
                return i
        return None
    return retry(go)


def contains(r, sub):
    if sub == "" and isinstance(sub, str):
        return True
    if isinstance(r, str) and isinstance(sub, str):
        return sub in r
    if not isinstance(sub, (str, Rope)):
        raise TypeError("'in <string>' requires string as left operand")
    def go():
        us, ss = units(r), units(sub)
        if len(ss) == 1 and isinstance(ss[0], CharVar) and \
                all(isinstance(u, str) for u in us):
            return bool(unit_in(ss[0], mask_of("".join(us))))
        if any(isinstance(u, Tok) for u in ss) and len(us) <= len(ss):
            return bool(_eq(us, ss))
        for i in range(0, len(us) - len(ss) + 1):
            if match_at(us, i, ss):
                return True
        # a multi-character needle might straddle a token
        if len(ss) > 1 or any(isinstance(u, Tok) for u in ss):
            need = 0
            for s in ss:
                need |= s.charset if isinstance(s, Tok) else (
                    s.dom if isinstance(s, CharVar) else 1 << ord(s))
            for u in us:
                if isinstance(u, Tok) and u.charset & need and \
                        _could_straddle(u, ss):
                    raise NeedExpand(u)
        return False
    return retry(go)


def _could_straddle(tok, ss):
    for s in ss:
        if isinstance(s, str) and not tok.charset >> ord(s) & 1:
            continue
        return True
    return False


def startswith(r, prefix):
    def go():
        us, ps = units(r), units(prefix)
        return match_at(us, 0, ps)
    return retry(go)


def endswith(r, suffix):
    def go():
        us, ps = units(r), units(suffix)
        if not ps:
            return True
        us = list(reversed(us))
        ps = list(reversed(ps))
        return match_at(us, 0, ps)
    return retry(go)


def split(r, sep, maxsplit):
    if isinstance(r, str) and (sep is None or isinstance(sep, str)):
        return r.split(sep, maxsplit)
    if sep is None:
        def go():
            us = units(r)
            out, word = [], []
            i = 0
            while i < len(us):
                u = us[i]
                if isinstance(u, Tok) and not u.charset & ~WS:
                    inws = True
                else:
                    inws = unit_in(u, WS)
                if inws:
                    if word:
                        out.append(from_units(word))
                        word = []
                else:
                    if not word and maxsplit >= 0 and len(out) == maxsplit:
                        rest = strip(from_units(us[i:]), None, False, True)
                        out.append(rest)
                        return out
                    word.append(u)
                i += 1
            if word:
                out.append(from_units(word))
            return out
        return retry(go)
    if isinstance(sep, str) and sep == "":
        raise ValueError("empty separator")

    def go2():
        us, ss = units(r), units(sep)
        out, piece = [], []
        i = 0
        while i < len(us):
            if (maxsplit < 0 or len(out) < maxsplit) and match_at(us, i, ss):
                out.append(from_units(piece))
                piece = []
                i += len(ss)
            else:
                piece.append(us[i])
                i += 1
        out.append(from_units(piece))
        return out
    return retry(go2)


def strip(r, chars, left, right):
    mask = WS if chars is None else mask_of(fix_text(chars))

    def test(u):
        if isinstance(u, Tok):
            if not u.charset & ~mask:
                return True
            if not u.charset & mask:
                return False
            raise NeedExpand(u)
        return unit_in(u, mask)

    def go():
        us = units(r)
        i, j = 0, len(us)
        if left:
            while i < j and test(us[i]):
                i += 1
        if right:
            while j > i and test(us[j - 1]):
                j -= 1
        return from_units(us[i:j])
    return retry(go)


def join(sep, it):
    out = []
    first = True
    for x in it:
        if not isinstance(x, (str, Rope)):
            raise TypeError("sequence item: expected string, %s found"
                            % type(x).__name__)
        if not first:
            out.append(sep)
        first = False
        out.append(x)
    return mkrope(out)


# -- numbers ---------------------------------------------------------------

FLOAT_TEXT = mask_of("0123456789.+-einfa")
PLAIN = DIGITS | mask_of(".")


def native_float(text):
    """float() of Jython 2.7 on a native string."""
    t = text.strip("\t\n\x0b\x0c\r ")
    if native_re.match(r"^[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\Z", t,
                       native_re.ASCII) or \
            native_re.match(r"(?i)^[-+]?(inf|infinity|nan)\Z", t):
        return float(t)
    raise ValueError("invalid literal for float: %s" % text)


def native_int(text, base=10):
    t = text.strip("\t\n\x0b\x0c\r ")
    if "_" in t or not t.isascii():
        raise ValueError("invalid literal for int()")
    if t[-1:] in ("L", "l") and base != 36:
        pass
    return int(t, base)


def number_of(us):
    """If the units are exactly the text of a known number, its value."""
    if len(us) == 1 and isinstance(us[0], Tok) and us[0].num is not None:
        return us[0].num
    table = cur().cache.get("composite", [])
    for parts, value in table:
        if len(parts) == len(us) and all(a is b or a == b if
                                         isinstance(a, str) else a is b
                                         for a, b in zip(parts, us)):
            return value
    return None


def register_composite(us, value):
    cur().cache.setdefault("composite", []).append((list(us), value))


def parse_float(r):
    if isinstance(r, str):
        return native_float(r)

    def go():
        us = units(strip(r, None, True, True))
        if not us:
            raise ValueError("empty string for float()")
        v = number_of(us)
        if v is not None:
            return to_f(v)
        if all(isinstance(u, str) for u in us):
            return native_float("".join(us))
        if len(us) > 1 and isinstance(us[0], str) and us[0] in "+-":
            v = number_of(us[1:])
            if v is not None and isinstance(us[1], Tok) and \
                    not us[1].charset & mask_of("+-"):
                return to_f(v) if us[0] == "+" else -to_f(v)
        for u in us:
            if isinstance(u, Tok):
                if not u.charset & FLOAT_TEXT or (
                        u.num is None and not u.charset & DIGITS and
                        not u.charset & mask_of("infaINFAtyTYeE")):
                    raise ValueError("could not convert string to float")
                if u.num is None and u.ident is not None and len(us) == 1 \
                        and not u.charset & DIGITS:
                    # only inf / nan spellings could be numbers
                    raise NeedExpand(u)
                raise NeedExpand(u)
        return parse_float_chars(us)
    return retry(go)


def to_f(v):
    if isinstance(v, SymInt):
        return SymFloat(zreal(v))
    if isinstance(v, Sym):
        return v
    return float(v)


def bad_float():
    raise ValueError("invalid literal for float")


def digit_value(u):
    if isinstance(u, str):
        return ord(u) - 48
    return cur().link(u) - 48


def parse_float_chars(us):
    neg = False
    i = 0
    n = len(us)
    if unit_in(us[0], mask_of("+-")):
        neg = bool(unit_in(us[0], mask_of("-")))
        i = 1
    if i >= n:
        bad_float()
    if unit_in(us[i], mask_of("iInN")):
        word = ""
        for u in us[i:]:
            for c in "infatyINFATY":
                if unit_in(u, mask_of(c)):
                    word += c.lower()
                    break
            else:
                bad_float()
        if word in ("inf", "infinity"):
            return -math.inf if neg else math.inf
        if word == "nan":
            return math.nan
        bad_float()
    mant = 0
    digits = 0
    fraction = 0
    seen_dot = False
    exp = None
    while i < n:
        u = us[i]
        if unit_in(u, DIGITS):
            mant = mant * 10 + digit_value(u)
            digits += 1
            if seen_dot:
                fraction += 1
        elif not seen_dot and unit_in(u, mask_of(".")):
            seen_dot = True
        elif digits and unit_in(u, mask_of("eE")):
            i += 1
            eneg = False
            if i < n and unit_in(us[i], mask_of("+-")):
                eneg = bool(unit_in(us[i], mask_of("-")))
                i += 1
            if i >= n:
                bad_float()
            exp = 0
            for u in us[i:]:
                if not unit_in(u, DIGITS):
                    bad_float()
                d = digit_value(u)
                if not isinstance(d, int):
                    d = cur().concretise_int(d, "exponent digit")
                exp = exp * 10 + d
            if eneg:
                exp = -exp
            break
        else:
            bad_float()
        i += 1
    if not digits:
        bad_float()
    scale = (exp or 0) - fraction
    if isinstance(mant, int):
        v = Fraction(mant) * Fraction(10) ** scale if abs(scale) < 400 else \
            (Fraction(0) if scale < 0 or not mant else None)
        if v is None or v > Fraction(10) ** 309:
            return -math.inf if neg else math.inf
        return -float(v) if neg else float(v)
    e = z3.ToReal(mant)
    if abs(scale) > 300:
        # overflow or underflow of the double range
        if cur().decide(e == 0):
            return 0.0
        if scale > 0:
            return -math.inf if neg else math.inf
        return 0.0
    e = e * z3.RealVal(Fraction(10) ** scale)
    return SymFloat(-e if neg else e)


def parse_int(r, base=10):
    if isinstance(r, str):
        return native_int(r, base)

    def go():
        us = units(strip(r, None, True, True))
        if len(us) == 1 and isinstance(us[0], Tok) and us[0].origin and \
                us[0].origin[0] == "hex":
            if base == 16:
                return us[0].num
        if base == 16 and len(us) > 1 and all(
                isinstance(u, str) and u in "0123456789abcdefABCDEF" or
                isinstance(u, Tok) and u.origin and u.origin[0] == "hex"
                for u in us):
            val = 0
            for u in us:
                if isinstance(u, Tok):
                    val = val * 16 ** u.width + u.num
                else:
                    val = val * 16 + int(u, 16)
            return val
        if base != 10:
            return int(fix_text(r), base)
        v = number_of(us)
        if v is not None:
            if isinstance(v, (SymInt, int)):
                return v
            tok = us[0]
            if isinstance(tok, Tok):
                raise NeedExpand(tok)
        neg = False
        i = 0
        if us and not isinstance(us[0], Tok) and \
                unit_in(us[0], mask_of("+-")):
            neg = bool(unit_in(us[0], mask_of("-")))
            i = 1
        if i >= len(us):
            raise ValueError("invalid literal for int() with base 10")
        v = number_of(us[i:])
        if v is not None and isinstance(v, (SymInt, int)):
            return -v if neg else v
        val = 0
        for u in us[i:]:
            if isinstance(u, Tok) and not u.charset & DIGITS:
                raise ValueError("invalid literal for int()")
            if not unit_in(u, DIGITS):
                raise ValueError("invalid literal for int()")
            val = val * 10 + digit_value(u)
        if isinstance(val, int):
            return -val if neg else val
        return SymInt(-val if neg else val)
    return retry(go)


def jy_str_float(f):
    """str() of a float in Jython 2.7: 12 significant digits."""
    if f != f:
        return "nan"
    if f in (math.inf, -math.inf):
        return "inf" if f > 0 else "-inf"
    s = "%.12g" % f
    if "e" not in s and "." not in s:
        if abs(f) >= 1e11:
            s = "%.11e" % f
            m, e = s.split("e")
            m = m.rstrip("0").rstrip(".")
            return m + "e" + e
        s += ".0"
    return s


def jy_repr_float(f):
    if f != f:
        return "nan"
    return repr(f)


def to_text(model_eval, tok):
    pass


NUMTEXT = DIGITS | mask_of(".+-e")


def number_text(v, how="s", spec=None):
    """The text of a symbolic number as str()/%s prints it."""
    p = cur()
    if isinstance(v, SymBool):
        return "True" if v else "False"
    if isinstance(v, SymInt):
        key = ("inttext", v.e.get_id())
        if key in p.cache:
            return p.cache[key][0]
        t = Tok(p.fresh_name("int"), DIGITS | mask_of("-"), num=v)
        t.origin = ("int", v)
        e = v.e
        t.text = lambda m: str(m.eval(e, True).as_long())

        def expander(tok):
            if p.decide(e < 0):
                u = Tok(tok.name + "abs", DIGITS, num=SymInt(-e))
                u.text = lambda m: str(-m.eval(e, True).as_long())
                u.origin = ("absint", SymInt(-e))
                u.expander = digits_expander(u, -e)
                return ["-", u]
            tok2 = Tok(tok.name + "abs", DIGITS, num=v)
            tok2.text = tok.text
            tok2.origin = ("absint", v)
            tok2.expander = digits_expander(tok2, e)
            return [tok2]
        t.expander = expander
        r = Rope([t])
        p.cache[key] = (r, v.e)
        return r
    # real
    e = z3.simplify(v.e)
    key = ("realtext", e.get_id(), how)
    if key in p.cache:
        return p.cache[key][0]
    printed = p.real("printed")
    dev = printed - e
    tol = z3.RealVal(Fraction(1, 10 ** 11))
    p.add_axiom(z3.And(
        z3.Implies(e >= 0, z3.And(dev <= tol * e, -dev <= tol * e)),
        z3.Implies(e <= 0, z3.And(dev <= -tol * e, -dev <= -tol * e))))
    p.abstractions.add("printed reals are within 1e-11 relative of the value")
    pv = SymFloat(printed)
    t = Tok(p.fresh_name("real"), NUMTEXT, num=pv)
    t.origin = ("real" + how, v)

    def text(m):
        x = m.eval(e, True)
        f = real_value(x)
        return jy_str_float(float(f)) if how == "s" else repr(float(f))
    t.text = text

    def expander(tok):
        out = []
        mag = e
        if p.decide(e < 0):
            out.append("-")
            mag = -e
        pm = printed if mag is e else -printed
        if p.decide(z3.And(mag != 0, mag < z3.RealVal("1/10000"))):
            # exponent notation: d.ddde-XX
            for k in range(5, 13):
                lo = z3.RealVal(Fraction(1, 10 ** k))
                if p.decide(mag >= lo) or k == 12:
                    break
            p.assume(mag >= lo)
            m = Tok(tok.name + "mant", PLAIN,
                    num=SymFloat(pm * z3.RealVal(10 ** k)))
            m.text = lambda mod: tok.text(mod).lstrip("-").split("e")[0]
            out += [m, "e", "-"] + list("%02d" % k)
        elif p.decide(mag >= z3.RealVal(10 ** 11)):
            p.assume(mag < z3.RealVal(10 ** 15))
            for k in range(11, 16):
                if p.decide(mag < z3.RealVal(10 ** (k + 1))):
                    break
            m = Tok(tok.name + "mant", PLAIN,
                    num=SymFloat(pm / z3.RealVal(10 ** k)))
            m.text = lambda mod: tok.text(mod).lstrip("-").split("e")[0]
            out += [m, "e", "+"] + list("%02d" % k)
        else:
            m = Tok(tok.name + "abs", PLAIN, num=SymFloat(pm))
            m.text = lambda mod: tok.text(mod).lstrip("-")
            out.append(m)
        register_composite(out, pv)
        if out[0] == "-":
            register_composite(out[1:], SymFloat(pm))
        return out
    t.expander = expander
    r = Rope([t])
    p.cache[key] = (r, e)
    return r


def digits_expander(tok, e):
    """Expand a non-negative integer into its decimal digits."""
    def go(tok):
        p = cur()
        n = 1
        while n < 12 and not p.decide(e < 10 ** n):
            n += 1
        out = []
        for k in range(n - 1, -1, -1):
            c = CharVar(p.fresh_name("digit"), DIGITS, is_input=False)
            v = p.link(c)
            p.add_axiom(v == 48 + (e / (10 ** k)) % 10)
            out.append(c)
        return out
    return go


def real_value(x):
    """z3 value -> Fraction."""
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return x.as_fraction()
    if z3.is_algebraic_value(x):
        return x.approx(20).as_fraction()
    return Fraction(0)


# -- formatting --------------------------------------------------------------

FMT = native_re.compile(
    r"%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?"
    r"(\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrs%])")


def percent_format(fmt, args):
    from runtime import py_str, py_repr, SymDict
    if isinstance(fmt, Rope):
        # split at symbolic parts: only native pieces may hold directives
        out = []
        args = args if isinstance(args, tuple) else (args,)
        used = 0
        for s in fmt.segs:
            if isinstance(s, str):
                n = len([m for m in FMT.finditer(s) if m.group("conv") != "%"])
                if isinstance(args, tuple):
                    out.append(percent_format(s, args[used:used + n]))
                    used += n
            elif isinstance(s, Tok) and not s.charset >> ord("%") & 1:
                out.append(s)
            elif isinstance(s, CharVar) and not unit_in(s, mask_of("%")):
                out.append(s)
            else:
                cur().unsupported("symbolic format string")
        if used < len(args):
            raise TypeError("not all arguments converted during string "
                            "formatting")
        return mkrope(out)
    out = []
    pos = 0
    mapping = None
    if not isinstance(args, tuple):
        if isinstance(args, (dict, SymDict)):
            mapping = args
        args = (args,)
    k = 0
    i = 0
    used_mapping = False
    while True:
        j = fmt.find("%", i)
        if j < 0:
            out.append(fmt[i:])
            break
        out.append(fmt[i:j])
        m = FMT.match(fmt, j)
        if m is None:
            if j + 1 >= len(fmt):
                raise ValueError("incomplete format")
            raise ValueError("unsupported format character")
        i = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            if mapping is None:
                raise TypeError("format requires a mapping")
            arg = mapping[m.group("key")]
            used_mapping = True
        else:
            if k >= len(args):
                raise TypeError("not enough arguments for format string")
            arg = args[k]
            k += 1
        prec = m.group("prec")
        width = m.group("width")
        spec = "%" + m.group("flags") + (width or "") + \
            ("." + prec if prec is not None else "") + conv
        if "*" in spec:
            cur().unsupported("* in format")
        if conv in "sr":
            t = py_str(arg) if conv == "s" else py_repr(arg)
            if isinstance(t, str) and (width or prec is not None):
                t = spec.replace("r", "s") % t
            elif width or prec is not None:
                cur().unsupported("padded symbolic text")
            out.append(t)
        elif conv in "diu":
            if isinstance(arg, (str, Rope)) or not is_num(arg):
                raise TypeError("%d format: a number is required")
            if isinstance(arg, Sym):
                v = trunc_(arg)
                if m.group("flags") or width:
                    out.append(spec.replace("u", "d") %
                               concrete(v))
                else:
                    out.append(number_text(v))
            else:
                out.append(spec.replace("u", "d") % trunc_(arg))
        elif conv in "eEfFgG":
            if isinstance(arg, (str, Rope)) or not is_num(arg):
                raise TypeError("float argument required")
            if isinstance(arg, Sym):
                out.append(fixed_text(arg, conv, prec, width))
            else:
                out.append(spec % arg)
        elif conv in "xXo":
            if isinstance(arg, Sym):
                arg = concrete(trunc_(arg))
            out.append(spec % trunc_(arg))
        elif conv == "c":
            if isinstance(arg, Sym):
                cur().unsupported("%c")
            out.append(spec % arg)
    if mapping is None and k < len(args) and not used_mapping:
        raise TypeError("not all arguments converted during string formatting")
    return mkrope(out)


def fixed_text(arg, conv, prec, width):
    p = cur()
    n = 6 if prec is None else int(prec)
    e = zreal(arg)
    if conv in "fF":
        v = round_(SymFloat(e), n) if n else round_(SymFloat(e))
    else:
        v = SymFloat(p.real("printed"))
    e = z3.simplify(e)
    key = ("fixed", e.get_id(), conv, n)
    if key in p.cache:
        return p.cache[key][0]
    t = Tok(p.fresh_name("fixed"), NUMTEXT, num=v)
    spec = "%." + str(n) + conv
    t.text = lambda m: spec % float(real_value(m.eval(e, True)))
    t.origin = ("fixed%d" % n, v)
    r = Rope([t])
    p.cache[key] = (r, e)
    return r


# -- reading back ------------------------------------------------------------

def concrete_text(r, model, literals):
    """The text under a model (for witnesses)."""
    if isinstance(r, str):
        return r
    out = []
    for s in r.segs:
        out.append(seg_text(s, model, literals))
    return "".join(out)


def seg_text(s, model, literals):
    if isinstance(s, str):
        return s
    if isinstance(s, CharVar):
        return chr(char_value(s, model))
    if s.expansion is not None:
        return "".join(seg_text(u, model, literals) for u in s.expansion)
    if s.ident is not None:
        return name_for(model.eval(s.ident, True).as_long(), s.charset,
                        literals)
    if s.text is not None:
        return s.text(model)
    return "?"


PREFERRED = [ord(c) for c in "a1x0Z9_-. /"]


def char_value(c, model):
    if c.var is not None and model is not None:
        v = model.eval(c.var, True)
        if z3.is_int_value(v) and 0 <= v.as_long() < 256 and \
                c.dom >> v.as_long() & 1:
            return v.as_long()
    for o in PREFERRED:
        if c.dom >> o & 1:
            return o
    cs = chars_of(c.dom)
    printable = [x for x in cs if 33 <= x < 127]
    return (printable or cs)[0]
