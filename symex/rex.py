"""A backtracking regular-expression matcher over symbolic text (module `re`)."""
import re as native
import re._parser as sre_parse
import re._constants as C

from core import cur, CharVar, mask_of, MASK_ALL
from rope import (Rope, Tok, units, from_units, unit_in, retry, NeedExpand,
                  mkrope, WS, DIGITS, WORD, LOWER, UPPER)

IGNORECASE = I = native.I
MULTILINE = M = native.M
DOTALL = S = native.S
VERBOSE = X = native.X
LOCALE = L = 4
UNICODE = U = native.U
error = native.error
NEWLINE = mask_of("\n")


def fold(mask):
    m = mask
    for c in range(65, 91):
        if mask >> c & 1 or mask >> (c + 32) & 1:
            m |= (1 << c) | (1 << (c + 32))
    return m


CATS = {C.CATEGORY_DIGIT: DIGITS, C.CATEGORY_NOT_DIGIT: MASK_ALL & ~DIGITS,
        C.CATEGORY_SPACE: WS, C.CATEGORY_NOT_SPACE: MASK_ALL & ~WS,
        C.CATEGORY_WORD: WORD, C.CATEGORY_NOT_WORD: MASK_ALL & ~WORD}


def set_mask(items):
    m = 0
    negate = False
    for op, av in items:
        if op is C.NEGATE:
            negate = True
        elif op is C.LITERAL:
            if av < 256:
                m |= 1 << av
        elif op is C.RANGE:
            for c in range(av[0], min(av[1], 255) + 1):
                m |= 1 << c
        elif op is C.CATEGORY:
            m |= CATS[av]
        else:
            raise NotImplementedError(str(op))
    return MASK_ALL & ~m if negate else m


def node_mask(node, flags):
    """Mask of a node that matches exactly one character, else None."""
    op, av = node
    if op is C.LITERAL:
        m = 1 << av if av < 256 else 0
    elif op is C.NOT_LITERAL:
        m = MASK_ALL & ~(1 << av)
    elif op is C.ANY:
        m = MASK_ALL if flags & native.S else MASK_ALL & ~NEWLINE
    elif op is C.IN:
        m = set_mask(av)
    else:
        return None
    return fold(m) if flags & native.I and op is not C.NOT_LITERAL else m


class Matcher(object):
    def __init__(self, us, flags):
        self.us = us
        self.flags = flags

    def seq(self, nodes, idx, i, groups):
        """Yields (end, groups) in priority order."""
        if idx == len(nodes):
            yield i, groups
            return
        for j, g in self.node(nodes[idx], i, groups):
            for r in self.seq(nodes, idx + 1, j, g):
                yield r

    def one(self, mask, i):
        if i >= len(self.us):
            return False
        return unit_in(self.us[i], mask)

    def node(self, node, i, groups):
        op, av = node
        us = self.us
        mask = node_mask(node, self.flags)
        if mask is not None:
            if self.one(mask, i):
                yield i + 1, groups
            return
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            old = self.flags
            self.flags = (old | add) & ~rem
            for j, g in self.seq(list(sub), 0, i, groups):
                saved, self.flags = self.flags, old
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                yield j, g
                self.flags = saved
            self.flags = old
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for r in self.seq(list(alt), 0, i, groups):
                    yield r
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = 1 << 30 if hi is C.MAXREPEAT else hi
            sub = list(sub)
            if len(sub) == 1:
                m = node_mask(sub[0], self.flags)
                if m is not None:
                    gen = self.repeat_one(m, lo, hi, i, groups,
                                          op is C.MAX_REPEAT)
                    for r in gen:
                        yield r
                    return
            for r in self.repeat(sub, lo, hi, i, groups, 0,
                                 op is C.MAX_REPEAT):
                yield r
            return
        if op is C.AT:
            if self.at(av, i):
                yield i, groups
            return
        if op is C.GROUPREF:
            span = groups.get(av)
            if span is None:
                return
            j = i
            for k in range(span[0], span[1]):
                if j >= len(us):
                    return
                a, b = us[k], us[j]
                if isinstance(a, Tok) or isinstance(b, Tok):
                    if a is not b:
                        raise NeedExpand(a if isinstance(a, Tok) else b)
                else:
                    from rope import char_eq
                    if not char_eq(a, b):
                        return
                j += 1
            yield j, groups
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                width = sub.getwidth()
                if width[0] != width[1]:
                    raise error("look-behind requires fixed-width pattern")
                start = i - width[0]
                found = None
                if start >= 0:
                    for j, g in self.seq(list(sub), 0, start, groups):
                        if j == i:
                            found = g
                            break
            else:
                found = None
                for j, g in self.seq(list(sub), 0, i, groups):
                    found = g
                    break
            if (found is not None) == (op is C.ASSERT):
                yield i, found if op is C.ASSERT else groups
            return
        raise NotImplementedError(str(op))

    def repeat_one(self, mask, lo, hi, i, groups, greedy):
        us = self.us
        if greedy:
            ends = [i]
            j = i
            n = 0
            while n < hi and j < len(us):
                u = us[j]
                if isinstance(u, Tok):
                    if u.charset & mask == 0:
                        break
                    if u.charset & ~mask or hi < (1 << 30):
                        raise NeedExpand(u)
                    j += 1
                    n += 1
                elif unit_in(u, mask):
                    j += 1
                    n += 1
                else:
                    break
                ends.append(j)
            for k in range(len(ends) - 1, -1, -1):
                if k < lo:
                    # fewer repetitions than required, unless a token in
                    # there provides more than one character
                    if any(isinstance(us[x], Tok) for x in range(i, ends[k])):
                        raise NeedExpand(next(
                            us[x] for x in range(i, ends[k])
                            if isinstance(us[x], Tok)))
                    return
                yield ends[k], groups
                if k > 0 and isinstance(us[ends[k] - 1], Tok):
                    # giving back part of a token
                    raise NeedExpand(us[ends[k] - 1])
            return
        j, n = i, 0
        while True:
            if n >= lo:
                yield j, groups
            if n >= hi or j >= len(us):
                return
            if isinstance(us[j], Tok):
                if us[j].charset & mask == 0:
                    return
                raise NeedExpand(us[j])
            if not unit_in(us[j], mask):
                return
            j += 1
            n += 1

    def repeat(self, sub, lo, hi, i, groups, n, greedy):
        if not greedy and n >= lo:
            yield i, groups
        if n < hi:
            for j, g in self.seq(sub, 0, i, groups):
                if j == i and n >= lo:
                    continue
                for r in self.repeat(sub, lo, hi, j, g, n + 1, greedy):
                    yield r
        if greedy and n >= lo:
            yield i, groups

    def at(self, av, i):
        us = self.us
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & native.M and i > 0:
                return unit_in(us[i - 1], NEWLINE)
            return i == 0
        if av is C.AT_END_STRING:
            return i == len(us)
        if av is C.AT_END:
            if i == len(us):
                return True
            if self.flags & native.M:
                return unit_in(us[i], NEWLINE)
            if i == len(us) - 1:
                u = us[i]
                if isinstance(u, Tok):
                    return False if not u.charset & NEWLINE else \
                        unit_in(u, NEWLINE)
                return unit_in(u, NEWLINE)
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and self.edge(us[i - 1], True)
            b = i < len(us) and self.edge(us[i], False)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise NotImplementedError(str(av))

    def edge(self, u, last):
        if isinstance(u, Tok) and not u.charset & ~WORD:
            return True
        return unit_in(u, WORD)


class Match(object):
    def __init__(self, pattern, string, us, start, end, groups):
        self.re = pattern
        self.string = string
        self._us = us
        self._spans = dict(groups)
        self._spans[0] = (start, end)
        self.lastindex = max(groups) if groups else None

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def _one(self, g, default=None):
        g = self._gid(g)
        if g > self.re.groups:
            raise IndexError("no such group")
        span = self._spans.get(g)
        if span is None:
            return default
        return from_units(self._us[span[0]:span[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default)
                     for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from runtime import SymDict
        return SymDict([(k, self._one(v, default))
                        for k, v in self.re.groupindex.items()])

    def _pos(self, i):
        from rope import length
        return length(from_units(self._us[:i]))

    def span(self, g=0):
        s = self._spans.get(self._gid(g))
        return (-1, -1) if s is None else (self._pos(s[0]), self._pos(s[1]))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return self.re._expand(template, self)


LETTERS = {"i": native.I, "m": native.M, "s": native.S, "x": native.X,
           "u": 0, "L": 0}


def hoist_flags(pattern, flags):
    """Python 2 takes inline flags anywhere in a pattern."""
    out = []
    i = 0
    n = len(pattern)
    inset = False
    while i < n:
        c = pattern[i]
        if c == "\\":
            out.append(pattern[i:i + 2])
            i += 2
            continue
        if inset:
            if c == "]":
                inset = False
        elif c == "[":
            inset = True
            out.append(c)
            i += 1
            if pattern[i:i + 1] == "^":
                out.append("^")
                i += 1
            if pattern[i:i + 1] == "]":
                out.append("\\]")
                i += 1
            continue
        elif c == "(" and pattern[i:i + 2] == "(?":
            j = i + 2
            while j < n and pattern[j] in LETTERS:
                j += 1
            if j > i + 2 and pattern[j:j + 1] == ")":
                for f in pattern[i + 2:j]:
                    flags |= LETTERS[f]
                i = j + 1
                continue
        out.append(c)
        i += 1
    return "".join(out), flags


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Rope):
            from rope import fix_text
            pattern = fix_text(pattern)
        if not isinstance(pattern, str):
            raise TypeError("first argument must be string or compiled pattern")
        self.pattern = pattern
        self.flags = flags
        pattern, flags = hoist_flags(pattern, flags)
        self.native = native.compile(pattern, flags | native.ASCII)
        parsed = sre_parse.parse(pattern, flags)
        self._flags = parsed.state.flags | flags
        self._nodes = list(parsed)
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)

    def __deepcopy__(self, memo):
        return self

    def _search(self, us, start, anchored, end_anchor=False):
        for i in range(start, len(us) + 1):
            m = Matcher(us, self._flags)
            for j, g in m.seq(self._nodes, 0, i, {}):
                if end_anchor and j != len(us):
                    continue
                return i, j, g
            if anchored:
                return None
        return None

    def _do(self, s, anchored, end_anchor=False, pos=0):
        if not isinstance(s, (str, Rope)):
            raise TypeError("expected string or buffer")

        def go():
            us = units(s)
            r = self._search(us, pos, anchored, end_anchor)
            if r is None:
                return None
            return Match(self, s, us, r[0], r[1], r[2])
        return retry(go)

    def match(self, s, pos=0):
        if isinstance(s, str):
            return self.native.match(s, pos)
        return self._do(s, True, pos=pos)

    def fullmatch(self, s):
        if isinstance(s, str):
            return self.native.fullmatch(s)
        return self._do(s, True, True)

    def search(self, s, pos=0):
        if isinstance(s, str):
            return self.native.search(s, pos)
        return self._do(s, False, pos=pos)

    def _all(self, us):
        pos = 0
        out = []
        while pos <= len(us):
            r = self._search(us, pos, False)
            if r is None:
                break
            out.append(r)
            pos = r[1] if r[1] > r[0] else r[1] + 1
        return out

    def finditer(self, s):
        if isinstance(s, str):
            return self.native.finditer(s)

        def go():
            us = units(s)
            return [Match(self, s, us, a, b, g) for a, b, g in self._all(us)]
        return iter(retry(go))

    def findall(self, s):
        if isinstance(s, str):
            return self.native.findall(s)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.native.split(s, maxsplit)

        def go():
            us = units(s)
            out, pos = [], 0
            for a, b, g in self._all(us):
                if a == b:
                    continue
                if maxsplit and len(out) >= maxsplit:
                    break
                out.append(from_units(us[pos:a]))
                m = Match(self, s, us, a, b, g)
                out.extend(m.groups())
                pos = b
            out.append(from_units(us[pos:]))
            return out
        return retry(go)

    def _expand(self, repl, m):
        if isinstance(repl, Rope):
            for u in units(repl):
                if unit_in(u, mask_of("\\")):
                    cur().unsupported("symbolic replacement template")
            return repl
        out, i = [], 0
        while i < len(repl):
            c = repl[i]
            if c != "\\":
                out.append(c)
                i += 1
                continue
            i += 1
            if i >= len(repl):
                raise error("bad escape (end of pattern)")
            c = repl[i]
            if c == "g" and repl[i + 1:i + 2] == "<":
                j = repl.find(">", i)
                if j < 0:
                    raise error("unterminated group name")
                name = repl[i + 2:j]
                out.append(self._group(m, int(name) if name.isdigit()
                                       else name))
                i = j + 1
            elif c.isdigit() and c != "0":
                j = i + 1
                if j < len(repl) and repl[j].isdigit():
                    j += 1
                out.append(self._group(m, int(repl[i:j])))
                i = j
            elif c in "ntrabfv":
                out.append({"n": "\n", "t": "\t", "r": "\r", "a": "\a",
                            "b": "\b", "f": "\f", "v": "\v"}[c])
                i += 1
            elif c == "\\":
                out.append("\\")
                i += 1
            else:
                out.append("\\" + c)
                i += 1
        return mkrope(out)

    def _group(self, m, g):
        if isinstance(g, int) and g > self.groups:
            raise error("invalid group reference")
        if isinstance(g, str) and g not in self.groupindex:
            raise IndexError("unknown group name")
        v = m.group(g)
        if v is None:
            raise error("unmatched group")
        return v

    def _check_template(self, repl):
        """What is wrong with a template whether or not anything matches."""
        if not isinstance(repl, str):
            return
        i = 0
        while i < len(repl):
            if repl[i] != "\\":
                i += 1
                continue
            if i + 1 >= len(repl):
                raise error("bogus escape (end of line)")
            if repl[i + 1] == "g" and repl[i + 2:i + 3] == "<" and \
                    repl.find(">", i) < 0:
                raise error("unterminated group name")
            i += 2

    def subn(self, repl, s, count=0):
        self._check_template(repl)
        if isinstance(s, str) and isinstance(repl, str):
            return self.native.subn(self._native_repl(repl), s, count)
        if not isinstance(s, (str, Rope)):
            raise TypeError("expected string or buffer")

        def go():
            us = units(s)
            out, pos, n = [], 0, 0
            start = 0
            while start <= len(us):
                if count and n >= count:
                    break
                r = self._search(us, start, False)
                if r is None:
                    break
                a, b, g = r
                out.extend(us[pos:a])
                m = Match(self, s, us, a, b, g)
                if callable(repl):
                    out.append(repl(m))
                else:
                    out.append(self._expand(repl, m))
                n += 1
                pos = b
                if b > a:
                    start = b
                else:
                    start = b + 1
            out.extend(us[pos:])
            return mkrope(out), n
        return retry(go)

    def _native_repl(self, repl):
        return lambda m: self._expand(repl, m)

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def scanner(self, *a):
        cur().unsupported("re scanner")


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    key = (pattern, int(flags)) if isinstance(pattern, str) else None
    if key in _cache:
        return _cache[key]
    p = Pattern(pattern, int(flags))
    if key is not None:
        _cache[key] = p
    return p


def match(pattern, s, flags=0):
    return compile(pattern, flags).match(s)


def search(pattern, s, flags=0):
    return compile(pattern, flags).search(s)


def sub(pattern, repl, s, count=0, flags=0):
    return compile(pattern, flags).sub(repl, s, count)


def subn(pattern, repl, s, count=0, flags=0):
    return compile(pattern, flags).subn(repl, s, count)


def split(pattern, s, maxsplit=0, flags=0):
    return compile(pattern, flags).split(s, maxsplit)


def findall(pattern, s, flags=0):
    return compile(pattern, flags).findall(s)


def finditer(pattern, s, flags=0):
    return compile(pattern, flags).finditer(s)


def escape(s):
    if isinstance(s, str):
        return "".join(c if c.isalnum() and ord(c) < 128 else "\\" + c
                       for c in s)
    cur().unsupported("re.escape of symbolic text")


def purge():
    pass
