"""Symbolic text.

``SymStr``  : a whole string that is one z3 String term (verdicts, labels).
``SymText`` : a string of known length whose characters are concrete
              characters or symbolic ASCII codes (free-form replies).
``SymRe``   : Python's ``re`` on SymText: the pattern is parsed by the real
              parser of the standard library and matched by a backtracking
              matcher that asks the solver about every symbolic character.
"""
from __future__ import annotations

import builtins
import re as rre
import re._constants as C
import re._parser as P

import z3

from . import core
from .core import Sym, SymBase, SymBool, and_, mkbool, not_, or_

POOL = ["yes", "no", "idk", "Yes", "YES", " yes", "yes ", "maybe", "", "unsure", "true"]


def _unsup(what):
    core.engine().unsupported.append(what)


class SymStr(SymBase):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return mkbool(z3.simplify(self.t == o.t))
        if isinstance(o, str):
            return mkbool(z3.simplify(self.t == z3.StringVal(o)))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        for p in POOL:
            if bool(self == p):
                return hash(p)
        return hash(("symx", self.t.get_id()))

    def force(self, why="str"):
        """decide the value: a member of the pool, else one model value."""
        for p in POOL:
            if bool(self == p):
                return p
        _unsup(why)
        e = core.engine()
        i = len(e.decisions)
        if i < len(e.prefix):
            v = e.prefix[i]
            e.model = None
        else:
            v = zstr(e._ensure_model().eval(self.t, model_completion=True))
        e.decisions.append(v)
        e.add(self.t == z3.StringVal(v))
        e.model = None
        return v

    def __bool__(self):
        return bool(self != "")

    def __len__(self):
        return core.engine().concretize(Sym(z3.Length(self.t), "i"))

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        t = sub.t if isinstance(sub, SymStr) else z3.StringVal(sub)
        return mkbool(z3.simplify(z3.Contains(self.t, t)))

    def startswith(self, p):
        return or_(*[mkbool(z3.simplify(z3.PrefixOf(z3.StringVal(x), self.t))) for x in (p if isinstance(p, tuple) else (p,))])

    def endswith(self, p):
        return or_(*[mkbool(z3.simplify(z3.SuffixOf(z3.StringVal(x), self.t))) for x in (p if isinstance(p, tuple) else (p,))])

    def __add__(self, o):
        return SymStr(z3.Concat(self.t, o.t if isinstance(o, SymStr) else z3.StringVal(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(z3.StringVal(o), self.t))

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __lt__(self, o):
        return self.force() < o

    def __gt__(self, o):
        return self.force() > o

    def __le__(self, o):
        return self.force() <= o

    def __ge__(self, o):
        return self.force() >= o

    def __repr__(self):
        return f"<symstr {self.t}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.force(), name)


def zstr(v):
    """z3 string value -> Python string."""
    s = v.as_string() if z3.is_string_value(v) else ""
    return rre.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def _code(c):
    return ord(c) if isinstance(c, str) else c


def _ceq(a, b):
    """character equality, possibly symbolic."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return _code(a) == _code(b)


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"


class SymText(SymBase):
    """characters: each a 1-char str or a Sym integer code (ASCII)."""

    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)

    @staticmethod
    def of(x):
        return x if isinstance(x, SymText) else SymText(x)

    def simp(self):
        """plain str when no character is symbolic."""
        out = []
        for c in self.cs:
            if isinstance(c, int):
                c = chr(c)
            if not isinstance(c, str):
                return self
            out.append(c)
        return "".join(out)

    def force(self, why="text"):
        e = core.engine()
        out = []
        for c in self.cs:
            if isinstance(c, Sym):
                _unsup(why)
                i = len(e.decisions)
                if i < len(e.prefix):
                    v = e.prefix[i]
                    e.model = None
                else:
                    v = e._ensure_model().eval(c.t, model_completion=True).as_long()
                e.decisions.append(v)
                e.add(c.t == v)
                e.model = None
                c = chr(v)
            out.append(c)
        return "".join(out)

    def by_class(self, classes):
        """decide each symbolic character up to the given character classes:
        a member of `classes` (string of singletons), white space, a digit or
        any other character; used where only these distinctions matter."""
        out = []
        for c in self.cs:
            if isinstance(c, Sym):
                for k in classes:
                    if bool(_ceq(c, k)):
                        c = k
                        break
                else:
                    if bool(or_(*[_ceq(c, k) for k in " \t\n\r"])):
                        c = " "
                    elif bool(and_(c >= 48, c <= 57)):
                        c = "1"
                    else:
                        c = "x"
            out.append(c)
        return "".join(out)

    # -- str protocol
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield SymText([c]).simp()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymText(self.cs[i]).simp()
        return SymText([self.cs[i]]).simp()

    def __add__(self, o):
        return SymText(self.cs + SymText.of(o).cs)

    def __radd__(self, o):
        return SymText(list(o) + self.cs)

    def _at(self, i, sub):
        sub = SymText.of(sub).cs
        if i < 0 or i + len(sub) > len(self.cs):
            return False
        return and_(True, *[_ceq(a, b) for a, b in zip(self.cs[i:], sub)])

    def __eq__(self, o):
        if not isinstance(o, (str, SymText)) or len(o) != len(self.cs):
            return False
        return self._at(0, o)

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(self.force("hash"))

    def _rng(self, a, b):
        return range(len(self.cs))[slice(a, b)]

    def find(self, sub, start=None, end=None):
        r = self._rng(start, end)
        for i in r:
            if i + len(sub) <= r.stop and bool(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        r = self._rng(start, end)
        for i in reversed(r):
            if i + len(sub) <= r.stop and bool(self._at(i, sub)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def contains(self, sub):
        return or_(False, *[self._at(i, sub) for i in range(len(self.cs))]) if len(sub) else True

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def count(self, sub):
        n = i = 0
        while i < len(self.cs):
            if bool(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        return any(bool(self._at(start, x)) for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p):
        return any(bool(self._at(len(self.cs) - len(x), x)) for x in (p if isinstance(p, tuple) else (p,)))

    def _strip(self, chars, left, right):
        chars = WS if chars is None else chars
        a, b = 0, len(self.cs)
        isin = lambda c: bool(or_(*[_ceq(c, k) for k in chars]))
        while left and a < b and isin(self.cs[a]):
            a += 1
        while right and b > a and isin(self.cs[b - 1]):
            b -= 1
        return SymText(self.cs[a:b]).simp()

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _all(self, test):
        return bool(self.cs) and all(bool(test(_code(c))) for c in self.cs)

    def isdigit(self):
        return self._all(lambda c: and_(c >= 48, c <= 57))

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(lambda c: or_(*[_ceq(c, ord(k)) for k in WS]))

    def partition(self, sep):
        i = self.find(sep)
        return (self, "", "") if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ("", "", self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        while i < len(self.cs):
            if sep is None:
                hit, n = bool(or_(*[_ceq(self.cs[i], k) for k in WS])), 1
            else:
                hit, n = bool(self._at(i, sep)), len(sep)
            if hit and (maxsplit < 0 or len(out) < maxsplit):
                out.append(cur)
                cur = []
                i += n
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(cur)
        if sep is None:
            out = [x for x in out if x]
        return [SymText(x).simp() for x in out]

    def __repr__(self):
        return "<symtext " + "".join(c if isinstance(c, str) else "?" for c in self.cs) + ">"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def to_int(self):
        s = self.strip()
        if isinstance(s, str):
            return builtins.int(s)
        cs = s.cs
        sign, i = 1, 0
        if cs and bool(_ceq(cs[0], "-")):
            sign, i = -1, 1
        elif cs and bool(_ceq(cs[0], "+")):
            i = 1
        if i == len(cs):
            raise ValueError(f"invalid literal for int() with base 10: {self!r}")
        v = 0
        for c in cs[i:]:
            c = _code(c)
            if not bool(and_(c >= 48, c <= 57)):
                raise ValueError(f"invalid literal for int() with base 10: {self!r}")
            v = v * 10 + (c - 48)
        return v * sign


# ---------------------------------------------------------------- matching


def _cat(cat, c):
    if cat == C.CATEGORY_DIGIT:
        return and_(c >= 48, c <= 57)
    if cat == C.CATEGORY_SPACE:
        return or_(*[_ceq(c, ord(k)) for k in WS])
    if cat == C.CATEGORY_WORD:
        return or_(and_(c >= 48, c <= 57), and_(c >= 65, c <= 90), and_(c >= 97, c <= 122), _ceq(c, 95))
    neg = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
    return not_(_cat(neg[cat], c))


class Unsupported(Exception):
    pass


def _in(items, c):
    negate, alts = False, []
    for op, av in items:
        if op == C.NEGATE:
            negate = True
        elif op == C.LITERAL:
            alts.append(_ceq(c, av))
        elif op == C.RANGE:
            alts.append(and_(c >= av[0], c <= av[1]))
        elif op == C.CATEGORY:
            alts.append(_cat(av, c))
        else:
            raise Unsupported(str(op))
    r = or_(False, *alts)
    return not_(r) if negate else r


class Matcher:
    def __init__(self, text, flags):
        self.cs = [_code(c) for c in text.cs]
        self.n = len(self.cs)
        self.flags = flags
        if flags & rre.IGNORECASE:
            raise Unsupported("ignorecase")

    def one(self, op, av, i):
        """does the single-character item match at i (decided)?"""
        if i >= self.n:
            return False
        c = self.cs[i]
        if op == C.LITERAL:
            return bool(_ceq(c, av))
        if op == C.NOT_LITERAL:
            return bool(not_(_ceq(c, av)))
        if op == C.ANY:
            return True if self.flags & rre.DOTALL else bool(not_(_ceq(c, 10)))
        return bool(_in(av, c))

    SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)

    def m(self, items, k, i, g, cont):
        """match items[k:] at i with groups g, then cont(i, g)."""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, h: self.m(items, k + 1, j, h, cont)
        if op in self.SINGLE:
            return nxt(i + 1, g) if self.one(op, av, i) else None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = self.n + 1 if hi is C.MAXREPEAT else hi
            if len(sub) == 1 and sub[0][0] in self.SINGLE:
                o, a = sub[0]
                if op == C.MAX_REPEAT:
                    e = i
                    while e - i < hi and self.one(o, a, e):
                        e += 1
                    while e - i >= lo:
                        r = nxt(e, g)
                        if r is not None:
                            return r
                        e -= 1
                    return None
                e = i
                while e - i < lo:
                    if not self.one(o, a, e):
                        return None
                    e += 1
                while True:
                    r = nxt(e, g)
                    if r is not None:
                        return r
                    if e - i >= hi or not self.one(o, a, e):
                        return None
                    e += 1

            def rep(cnt, j, h, last):
                more = None
                if op == C.MIN_REPEAT and cnt >= lo:
                    r = nxt(j, h)
                    if r is not None:
                        return r
                if cnt < hi and j != last:
                    more = self.m(sub, 0, j, h, lambda q, hh: rep(cnt + 1, q, hh, j))
                    if more is not None:
                        return more
                if op == C.MAX_REPEAT and cnt >= lo:
                    return nxt(j, h)
                return None

            return rep(0, i, g, None)
        if op == C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                raise Unsupported("inline flags")

            def close(j, h):
                if gid is not None:
                    h = {**h, gid: (i, j)}
                return nxt(j, h)

            return self.m(p, 0, i, g, close)
        if op == C.BRANCH:
            for p in av[1]:
                r = self.m(p, 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op == C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
                if not ok and av == C.AT_BEGINNING and self.flags & rre.MULTILINE:
                    ok = bool(_ceq(self.cs[i - 1], 10))
            elif av == C.AT_END:
                ok = i == self.n or (i == self.n - 1 and bool(_ceq(self.cs[i], 10)))
                if not ok and self.flags & rre.MULTILINE:
                    ok = bool(_ceq(self.cs[i], 10))
            elif av == C.AT_END_STRING:
                ok = i == self.n
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = lambda j: 0 <= j < self.n and bool(_cat(C.CATEGORY_WORD, self.cs[j]))
                ok = (w(i - 1) != w(i)) == (av == C.AT_BOUNDARY)
            else:
                raise Unsupported(str(av))
            return nxt(i, g) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d == 1:
                r = self.m(p, 0, i, g, lambda j, h: (j, h))
            else:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("lookbehind")
                r = None if i < w[0] else self.m(p, 0, i - w[0], g, lambda j, h: (j, h) if j == i else None)
            if op == C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        raise Unsupported(str(op))


class SymMatch:
    def __init__(self, text, start, end, groups, pat):
        self.string, self._s, self.re = text, {0: (start, end), **groups}, pat

    def _id(self, k):
        return self.re.groupindex[k] if isinstance(k, str) else k

    def span(self, k=0):
        return self._s.get(self._id(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def group(self, *ks):
        r = []
        for k in ks or (0,):
            a, b = self.span(k)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if i in self._s else default for i in range(1, self.re.groups + 1))


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.real = rre.compile(pattern, flags)
        self.pattern = pattern

    def __getattr__(self, n):
        return getattr(self.real, n)

    def _run(self, text, pos, full=False, anchored=False):
        p = P.parse(self.real.pattern, self.real.flags & ~rre.UNICODE)
        for i in range(pos, len(text.cs) + 1):
            m = Matcher(text, self.real.flags)
            r = m.m(p, 0, i, {}, lambda j, h: (j, h) if not full or j == m.n else None)
            if r is not None:
                return SymMatch(text, i, r[0], r[1], self.real)
            if full or anchored:
                return None
        return None

    def _sym(self, text):
        if isinstance(text, SymText):
            text = text.simp()
        elif isinstance(text, SymStr):
            text = text.force("re")
        return text

    def search(self, text, pos=0):
        text = self._sym(text)
        return self.real.search(text, pos) if isinstance(text, str) else self._run(text, pos)

    def match(self, text, pos=0):
        text = self._sym(text)
        return self.real.match(text, pos) if isinstance(text, str) else self._run(text, pos, anchored=True)

    def fullmatch(self, text, pos=0):
        text = self._sym(text)
        return self.real.fullmatch(text, pos) if isinstance(text, str) else self._run(text, pos, full=True)

    def finditer(self, text):
        text = self._sym(text)
        if isinstance(text, str):
            yield from self.real.finditer(text)
            return
        pos = 0
        while pos <= len(text.cs):
            m = self._run(text, pos)
            if m is None:
                return
            yield m
            pos = m.end() + (1 if m.end() == m.start() else 0)

    def findall(self, text):
        text = self._sym(text)
        if isinstance(text, str):
            return self.real.findall(text)
        out = []
        for m in self.finditer(text):
            n = self.real.groups
            out.append(m.group() if n == 0 else m.group(1) if n == 1 else m.groups(""))
        return out

    def sub(self, repl, text, count=0):
        text = self._sym(text)
        if isinstance(text, str) or not isinstance(repl, str) or "\\" in repl:
            return self.real.sub(repl, text if isinstance(text, str) else text.force("re.sub"), count)
        out, pos = SymText(""), 0
        for n, m in enumerate(self.finditer(text)):
            if count and n >= count:
                break
            out = out + text[pos:m.start()] + repl
            pos = m.end()
        return (out + text[pos:]).simp()

    def split(self, text, maxsplit=0):
        text = self._sym(text)
        return self.real.split(text if isinstance(text, str) else text.force("re.split"), maxsplit)


class SymRe:
    """the re module of the symbolic world."""

    def __init__(self):
        for n in dir(rre):
            if not n.startswith("__") and not hasattr(type(self), n):
                setattr(self, n, getattr(rre, n))
        self.__name__ = "re"

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, SymPattern) else SymPattern(p, flags)

    def search(self, p, t, flags=0):
        return self.compile(p, flags).search(t)

    def match(self, p, t, flags=0):
        return self.compile(p, flags).match(t)

    def fullmatch(self, p, t, flags=0):
        return self.compile(p, flags).fullmatch(t)

    def findall(self, p, t, flags=0):
        return self.compile(p, flags).findall(t)

    def finditer(self, p, t, flags=0):
        return self.compile(p, flags).finditer(t)

    def sub(self, p, r, t, count=0, flags=0):
        return self.compile(p, flags).sub(r, t, count)

    def split(self, p, t, maxsplit=0, flags=0):
        return self.compile(p, flags).split(t, maxsplit)


# ---------------------------------------------------------------- builtins


def s_in(a, b):
    """`a in b` without a decision when a (or b) is symbolic text."""
    if isinstance(b, SymStr) or isinstance(b, SymText):
        return b.contains(a)
    if isinstance(a, (SymStr, Sym)) and isinstance(b, (set, frozenset, list, tuple, dict, type({}.keys()), type({}.values()))):
        return or_(False, *[a == x for x in b])
    return a in b


def s_notin(a, b):
    return not_(s_in(a, b))


def s_isinstance(x, t):
    if isinstance(x, (SymStr, SymText)):
        return _has_str(t)
    return builtins.isinstance(x, t)


def _has_str(t):
    if isinstance(t, tuple):
        return any(_has_str(x) for x in t)
    if t is object:
        return True
    if hasattr(t, "__args__") and not isinstance(t, type):
        return any(_has_str(x) for x in t.__args__)
    return t is str or getattr(t, "__symx_real__", None) is str


def s_str(*a, **k):
    return a[0] if len(a) == 1 and isinstance(a[0], (SymStr, SymText)) else builtins.str(*a, **k)
