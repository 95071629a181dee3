"""Symbolic strings.

A SymStr is a tuple of items: concrete code points (int), symbolic code points
(z3 Int terms) and opaque number tokens (Tok).  The number of items is concrete
on each path; lengths are bounded by the harness.
"""
from __future__ import annotations

import re
import re._constants as rc
import re._parser as rp
import unicodedata

import z3

from sx import core
from sx.core import Sym, SymBool, SymFloat, SymInt, mkbool, sand, snot, sor

# code points str.strip() removes
WS = tuple(c for c in range(0x3001) if chr(c).isspace())
WS_SET = frozenset(WS)


def _ranges(cps):
    out = []
    for c in sorted(cps):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


def in_ranges(t, ranges):
    return z3.Or(*[t == a if a == b else z3.And(t >= a, t <= b) for a, b in ranges])


WS_RANGES = _ranges(WS)
DIGIT_ALL = None


class CharSet:
    """A set of code points given by ranges, possibly negated."""

    def __init__(self, ranges, neg=False):
        self.ranges = ranges
        self.neg = neg

    def has(self, c):
        r = any(a <= c <= b for a, b in self.ranges)
        return r != self.neg

    def term(self, t):
        r = in_ranges(t, self.ranges) if self.ranges else z3.BoolVal(False)
        return z3.Not(r) if self.neg else r


WSCLASS = CharSet(WS_RANGES)
DIGITS = CharSet([(48, 57)])
UPPER = CharSet([(65, 90)])
LOWER = CharSet([(97, 122)])
CASED = CharSet([(65, 90), (97, 122)])


class Tok:
    """Opaque text of a number.

    kind: 'repr' (shortest repr of a finite float), 'dec' (decimal of an int),
    'fixed' (%.pf of a float), 'fmt' (other format), 'pyrepr' (repr of a value).
    value: what float()/int()/eval of the text gives back.
    """

    __slots__ = ("kind", "src", "value", "spec")

    def __init__(self, kind, src, value, spec=""):
        self.kind = kind
        self.src = src
        self.value = value
        self.spec = spec

    ALPHA = frozenset(map(ord, "0123456789+-.eE"))

    def same(self, o):
        """Equality as text with another token: True/False/SymBool/None (unknown)."""
        if self is o:
            return True
        if self.kind == o.kind and self.spec == o.spec:
            if self.src is o.src:
                return True
            if self.kind in ("repr", "dec", "pyrepr"):
                if self.kind == "pyrepr" and type(self.src) is not type(o.src):
                    return None
                return self.src == o.src
            if self.kind == "fixed":
                return self.value == o.value
        return None

    def concretise(self):
        v = self.src.concretise() if core.issym(self.src) else self.src
        if self.kind == "repr":
            return repr(v)
        if self.kind == "dec":
            return str(v)
        if self.kind in ("fixed", "fmt"):
            return format(v, self.spec)
        return repr(v)

    def text(self, model):
        v = eval_sym(self.src, model)
        if self.kind in ("fixed", "fmt"):
            return format(v, self.spec)
        return repr(v) if self.kind != "dec" else str(v)


def eval_sym(x, model):
    """Concrete value of a symbolic value under a model."""
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.t, model_completion=True))
    if isinstance(x, SymInt):
        return model.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        return core.real_to_float(model.eval(x.t, model_completion=True))
    if isinstance(x, SymStr):
        out = []
        for it in x.items:
            if isinstance(it, int):
                out.append(chr(it))
            elif isinstance(it, Tok):
                out.append(it.text(model))
            else:
                out.append(chr(model.eval(it, model_completion=True).as_long()))
        return "".join(out)
    return x


def ceq(a, b):
    """Equality of two code-point items (ints or z3 terms)."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return mkbool(z3.simplify(a == b))


def cin(it, cs):
    """Membership of an item in a CharSet: bool / SymBool; Tok -> bool or None."""
    if isinstance(it, int):
        return cs.has(it)
    if isinstance(it, Tok):
        hits = [cs.has(c) for c in Tok.ALPHA]
        if not any(hits):
            return False
        return None
    return mkbool(z3.simplify(cs.term(it)))


def mkstr(items):
    items = tuple(items)
    if all(isinstance(i, int) for i in items):
        return "".join(map(chr, items))
    return SymStr(items)


def items_of(s):
    if isinstance(s, SymStr):
        return s.items
    if type(s) is str or issubclass(type(s), str):
        return tuple(map(ord, s))
    raise TypeError(f"expected string, got {type(s).__name__}")


class SymStr(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return str

    def __repr__(self):
        return "'<symstr>'"

    def __str__(self):
        core.CUR.unsupported("C-level str of symbolic string")
        return self.concretise()

    def __format__(self, spec):
        core.CUR.unsupported("C-level format of symbolic string")
        return format(self.concretise(), spec)

    def __hash__(self):
        core.CUR.unsupported("hash of symbolic string")
        return hash(self.concretise())

    # -- concretisation -----------------------------------------------------
    def concretise(self):
        """A concrete value of this path: where there is no model for what
        follows, a few telling values are tried, each on a path of its own."""
        eng = core.CUR
        free = {i.get_id(): i for i in self.items if not isinstance(i, (int, Tok))}
        if free:
            for w in telling(self.items):
                if eng.decide(z3.And(*[i == ord(c) for i, c in zip(self.items, w) if not isinstance(i, int)])):
                    break
            else:
                kinds = [z3.And(*[z3.And(t >= lo, t <= hi) for t in free.values()])
                         for lo, hi in ((97, 122), (65, 90), (48, 57), (33, 47), (0xC0, 0x2C1), (9, 32))]
                for kind in kinds:
                    if eng.decide(kind):
                        break
        out = []
        for it in self.items:
            if isinstance(it, int):
                out.append(chr(it))
            elif isinstance(it, Tok):
                out.append(it.concretise())
            else:
                out.append(chr(eng.fix(it)))
        return "".join(out)

    def expand(self):
        """Replace number tokens by characters (exact for ints, else concrete)."""
        if not any(isinstance(i, Tok) for i in self.items):
            return self
        out = []
        for it in self.items:
            if isinstance(it, Tok):
                out.extend(expand_tok(it))
            else:
                out.append(it)
        return mkstr(out)

    # -- basics ----------------------------------------------------------------
    def __bool__(self):
        return len(self.items) > 0

    def __len__(self):
        if any(isinstance(i, Tok) for i in self.items):
            return len(self.expand())
        return len(self.items)

    def __iter__(self):
        s = self.expand()
        if not isinstance(s, SymStr):
            return iter(s)
        return iter([mkstr((i,)) for i in s.items])

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None, None, None):
            return self
        if isinstance(k, slice) and k.step is None and self._plain(k.start) and self._plain(k.stop):
            return mkstr(self.items[k])
        s = self.expand()
        if not isinstance(s, SymStr):
            return s[k]
        r = s.items[k]
        return mkstr(r) if isinstance(k, slice) else mkstr((r,))

    def _plain(self, i):
        """Does position i count single characters only?"""
        if i is None:
            return True
        if not isinstance(i, int) or abs(i) > len(self.items):
            return False
        return not any(isinstance(x, Tok) for x in (self.items[:i] if i >= 0 else self.items[i:]))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.items + items_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(items_of(o) + self.items)

    def __mul__(self, n):
        return mkstr(self.items * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from sx import models
        return models.percent_format(self, args)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return False
        return str_eq(self.items, items_of(o))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.expand(), o.expand() if isinstance(o, SymStr) else o
        ia, ib = items_of(a), items_of(b)
        for x, y in zip(ia, ib):
            if ceq(x, y):
                continue
            return mkbool(z3.simplify((z3.IntVal(x) if isinstance(x, int) else x) < y))
        return len(ia) < len(ib)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(items_of(o)).__lt__(self)

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else snot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else snot(r)

    def __contains__(self, sub):
        return bool(contains(self, sub))

    # -- methods -----------------------------------------------------------------
    def _cs(self, chars):
        if chars is None:
            return WSCLASS
        if isinstance(chars, SymStr):
            chars = chars.concretise()
        return CharSet([(ord(c), ord(c)) for c in chars])

    def _isin(self, it, cs):
        r = cin(it, cs)
        if r is None:
            raise _NeedExpand
        return bool(r)

    def lstrip(self, chars=None):
        cs = self._cs(chars)
        items = self.items
        i = 0
        try:
            while i < len(items) and self._isin(items[i], cs):
                i += 1
        except _NeedExpand:
            return self._x().lstrip(chars)
        return mkstr(items[i:])

    def rstrip(self, chars=None):
        cs = self._cs(chars)
        items = self.items
        j = len(items)
        try:
            while j > 0 and self._isin(items[j - 1], cs):
                j -= 1
        except _NeedExpand:
            return self._x().rstrip(chars)
        return mkstr(items[:j])

    def _x(self):
        return self.expand()

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            cs = WSCLASS
            out, cur, n = [], [], 0
            items = self.items
            i = 0
            try:
                while i < len(items):
                    it = items[i]
                    if self._isin(it, cs):
                        if cur:
                            out.append(mkstr(cur))
                            cur = []
                            n += 1
                            if maxsplit >= 0 and n >= maxsplit:
                                rest = mkstr(items[i:])
                                rest = rest.lstrip()
                                if rest:
                                    out.append(rest)
                                return out
                    else:
                        cur.append(it)
                    i += 1
            except _NeedExpand:
                return self._x().split(sep, maxsplit)
            if cur:
                out.append(mkstr(cur))
            return out
        if not sep:
            raise ValueError("empty separator")
        sit = items_of(sep)
        out, cur, i, n = [], [], 0, 0
        items = self.items
        while i < len(items):
            if (maxsplit < 0 or n < maxsplit) and self._match_at(items, i, sit):
                out.append(mkstr(cur))
                cur = []
                i += len(sit)
                n += 1
            else:
                cur.append(items[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        if sep is None:
            core.CUR.unsupported("rsplit(None, n)")
            return self.concretise().rsplit(sep, maxsplit)
        k = len(parts) - maxsplit
        head = sym_join(sep, parts[:k])
        return [head, *parts[k:]]

    @staticmethod
    def _match_at(items, i, sit):
        if i + len(sit) > len(items):
            return False
        for k, s in enumerate(sit):
            it = items[i + k]
            if isinstance(it, Tok) or isinstance(s, Tok):
                if isinstance(it, Tok) and isinstance(s, int):
                    if s not in Tok.ALPHA:
                        return False
                    core.CUR.unsupported("search inside a number token")
                    return False
                return it is s
            if not bool(ceq(it, s)):
                return False
        return True

    def _find(self, sub, start=0, end=None, rev=False):
        s = self.expand()
        if not isinstance(s, SymStr):
            if isinstance(sub, str) and not isinstance(sub, SymStr):
                return s.rfind(sub, start or 0, end) if rev else s.find(sub, start or 0, end)
            s = SymStr(items_of(s))
        items = s.items
        n = len(items)
        start, end, _ = slice(start, end).indices(n)
        sit = items_of(sub)
        rng = range(start, end - len(sit) + 1)
        for i in (reversed(rng) if rev else rng):
            if self._match_at(items, i, sit):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        return self._find(sub, start, end)

    def rfind(self, sub, start=0, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        if a:
            return self[slice(*a)].count(sub)
        return len(self.split(sub)) - 1 if sub else len(self) + 1

    def replace(self, old, new, count=-1):
        if not old:
            core.CUR.unsupported("replace('')")
            return self.concretise().replace(old, new, count)
        return sym_join(new, self.split(old, count))

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def startswith(self, pre, start=0, end=None):
        s = self if not start and end is None else self[start:end]
        if isinstance(pre, tuple):
            return any(s.startswith(p) for p in pre)
        pit = items_of(pre)
        if isinstance(s, str) and not isinstance(s, SymStr):
            s = SymStr(items_of(s))
        if any(isinstance(i, Tok) for i in s.items[:len(pit)]) and pit:
            first = s.items[0]
            if isinstance(first, Tok) and isinstance(pit[0], int) and pit[0] not in Tok.ALPHA:
                return False
            s = s.expand()
            return s.startswith(pre)
        return self._match_at(s.items, 0, pit)

    def endswith(self, suf, start=0, end=None):
        s = self if not start and end is None else self[start:end]
        if isinstance(suf, tuple):
            return any(s.endswith(p) for p in suf)
        pit = items_of(suf)
        if isinstance(s, str) and not isinstance(s, SymStr):
            s = SymStr(items_of(s))
        if len(pit) == 0:
            return True
        if any(isinstance(i, Tok) for i in s.items[-len(pit):]):
            s = s.expand()
            return s.endswith(suf)
        if len(pit) > len(s.items):
            return False
        return self._match_at(s.items, len(s.items) - len(pit), pit)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    def _map(self, fn_c, fn_t):
        out = []
        for it in self.items:
            if isinstance(it, int):
                out.extend(map(ord, fn_c(chr(it))))
            elif isinstance(it, Tok):
                out.append(it)
            else:
                out.append(z3.simplify(fn_t(it)))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower, lambda t: z3.If(z3.And(t >= 65, t <= 90), t + 32, t))

    def casefold(self):
        return self._map(str.casefold, lambda t: z3.If(z3.And(t >= 65, t <= 90), t + 32, t))

    def upper(self):
        return self._map(str.upper, lambda t: z3.If(z3.And(t >= 97, t <= 122), t - 32, t))

    def swapcase(self):
        return self._map(str.swapcase, lambda t: z3.If(z3.And(t >= 65, t <= 90), t + 32, z3.If(z3.And(t >= 97, t <= 122), t - 32, t)))

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        out, inside = [], False
        for c in self:
            out.append(c.lower() if inside else c.upper())
            inside = bool(cin(items_of(c)[0], CASED))
        return sym_join("", out)

    def _cased(self, up, low):
        some = False
        for it in items_of(self.expand()):
            if bool(cin(it, low)):
                return False
            if bool(cin(it, up)):
                some = True
        return some

    def isupper(self):
        return self._cased(UPPER, LOWER)

    def islower(self):
        return self._cased(LOWER, UPPER)

    def istitle(self):
        some = inside = False
        for it in items_of(self.expand()):
            if bool(cin(it, UPPER)):
                if inside:
                    return False
                some = inside = True
            elif bool(cin(it, LOWER)):
                if not inside:
                    return False
            else:
                inside = False
        return some

    def center(self, n, c=" "):
        k = n - len(self)
        if k <= 0:
            return self
        left = k // 2 + (k & n & 1)
        return c * left + self + c * (k - left)

    def _all(self, cs):
        if not self.items:
            return False
        s = self.expand()
        return all(bool(cin(i, cs)) for i in items_of(s))

    def isspace(self):
        if any(isinstance(i, Tok) for i in self.items):
            return False
        return self._all(WSCLASS)

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all(CharSet([(65, 90), (97, 122), (0xAA, 0xAA), (0xB5, 0xB5), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2C1)]))

    def isalnum(self):
        return self._all(CharSet([(48, 57), (65, 90), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2C1)]))

    def isascii(self):
        return not self.items or self._all(CharSet([(0, 127)]))

    def isprintable(self):
        return not self.items or self._all(CharSet([(32, 126), (0xA1, 0xAC), (0xAE, 0x377)]))

    def isidentifier(self):
        return self.concretise().isidentifier()

    def splitlines(self, keepends=False):
        s = self.expand()
        if not isinstance(s, SymStr):
            return s.splitlines(keepends)
        cs = CharSet([(10, 13), (0x1C, 0x1E), (0x85, 0x85), (0x2028, 0x2029)])
        out, cur = [], []
        for it in s.items:
            if bool(cin(it, cs)):
                out.append(mkstr(cur + ([it] if keepends else [])))
                cur = []
            else:
                cur.append(it)
        if cur:
            out.append(mkstr(cur))
        return out

    def join(self, parts):
        return sym_join(self, list(parts))

    def zfill(self, n):
        s = self.expand()
        if not isinstance(s, SymStr):
            return s.zfill(n)
        k = n - len(s.items)
        return s if k <= 0 else mkstr((48,) * k + s.items)

    def ljust(self, n, c=" "):
        k = n - len(self)
        return self + c * k if k > 0 else self

    def rjust(self, n, c=" "):
        k = n - len(self)
        return c * k + self if k > 0 else self

    def format(self, *a, **k):
        from sx import models
        return models.str_format(self.concretise(), *a, **k)

    def encode(self, *a, **k):
        core.CUR.unsupported("encode")
        return self.concretise().encode(*a, **k)

    def translate(self, table):
        out = []
        for it in self.expand() if any(isinstance(i, Tok) for i in self.items) else self:
            done = False
            for k, v in table.items():
                if bool(it == chr(k)):
                    if v is not None:
                        out.extend(items_of(chr(v) if isinstance(v, int) else v))
                    done = True
                    break
            if not done:
                out.extend(items_of(it))
        return mkstr(out)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        core.CUR.unsupported(f"str.{name}")
        return getattr(self.concretise(), name)


WORDS = ("true", "false", "yes", "no", "on", "off", "none", "null", "nan", "inf", "1", "0", "-1", "+1", "1.5", "1e5", "01", "1_0", "0x1",
         "a b", " a", "a ", "#a", "a#b", "a,b", "<a", "&", "kml", "gx", "atom", "..", "a/b", "%s", "{}", "\\n", "$[a]")


def telling(items, most=24):
    """Words that fit the constant characters of a string."""
    n = len(items)
    if any(isinstance(i, Tok) for i in items):
        return []
    words = [*WORDS]
    enums = __import__("sys").modules.get("fastkml.enums")
    for e in vars(enums).values() if enums else ():
        if isinstance(e, type) and hasattr(e, "__members__"):
            words.extend(m.value for m in e.__members__.values() if isinstance(m.value, str))
    out = []
    for w in words:
        for v in (w, w.upper(), w.title(), w.lower()):
            for x in (v, v + " ", " " + v) if len(v) < n else (v,):
                if len(x) == n and x not in out and all(not isinstance(i, int) or i == ord(c) for i, c in zip(items, x)):
                    out.append(x)
    return out[:most]


class _NeedExpand(Exception):
    pass


def str_eq(a, b):
    ta = [i for i in a if isinstance(i, Tok)]
    tb = [i for i in b if isinstance(i, Tok)]
    if not ta and not tb:
        if len(a) != len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = ceq(x, y)
            if r is False:
                return False
            rs.append(r)
        return sand(*rs)
    # same shape, token against token
    if len(a) == len(b):
        rs = []
        ok = True
        for x, y in zip(a, b):
            if isinstance(x, Tok) and isinstance(y, Tok):
                r = x.same(y)
                if r is None:
                    ok = False
                    break
                rs.append(r)
            elif isinstance(x, Tok) or isinstance(y, Tok):
                ok = False
                break
            else:
                rs.append(ceq(x, y))
        if ok:
            return sand(*rs)
    # one token against a constant
    for p, q in ((a, b), (b, a)):
        if len(p) == 1 and isinstance(p[0], Tok) and all(isinstance(i, int) for i in q):
            r = tok_eq_const(p[0], "".join(map(chr, q)))
            if r is not None:
                return r
    r = tok_match(a, b)
    if r is not None:
        return r
    # characters of a token matter: expand
    sa, sb = mkstr(a), mkstr(b)
    ea = sa.expand() if isinstance(sa, SymStr) else sa
    eb = sb.expand() if isinstance(sb, SymStr) else sb
    return str_eq(items_of(ea), items_of(eb))


def tok_match(a, b):
    """Equality piece by piece, where every token ends at a character no number
    contains; None when that does not decide it."""
    conds = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if isinstance(x, Tok) or isinstance(y, Tok):
            if isinstance(x, Tok) and isinstance(y, Tok):
                if not (tok_ends(a, i) and tok_ends(b, j)):
                    return None
                r = x.same(y)
                if r is None:
                    return None
                i, j = i + 1, j + 1
            else:
                swap = isinstance(y, Tok)
                tok, p, k, q, m = (y, b, j, a, i) if swap else (x, a, i, b, j)
                if tok.kind not in ("repr", "dec", "fixed") or not tok_ends(p, k):
                    return None
                n = m
                while n < len(q) and isinstance(q[n], int) and q[n] in Tok.ALPHA:
                    n += 1
                if n < len(q) and not isinstance(q[n], int):
                    return None
                r = tok_eq_const(tok, "".join(map(chr, q[m:n]))) if n > m else False
                if r is None:
                    return None
                i, j = (n, j + 1) if swap else (i + 1, n)
        else:
            r = ceq(x, y)
            i, j = i + 1, j + 1
        if r is False:
            return False
        conds.append(r)
    if i < len(a) or j < len(b):
        return False            # tokens are not empty
    return sand(*conds)


def tok_ends(items, i):
    """Is the token at i followed by the end or by what no number contains?"""
    return i + 1 == len(items) or (isinstance(items[i + 1], int) and items[i + 1] not in Tok.ALPHA)


def tok_eq_const(tok, s):
    if tok.kind == "dec":
        try:
            v = int(s)
        except ValueError:
            return False
        return tok.src == v if str(v) == s else False
    if tok.kind == "repr":
        try:
            v = float(s)
        except ValueError:
            return False
        if repr(v) != s:
            return False
        return tok.src == v
    if tok.kind == "fixed":
        try:
            v = float(s)
        except ValueError:
            return False
        return None
    return None


def expand_tok(tok):
    """Characters of a token on this path."""
    eng = core.CUR
    if tok.kind == "dec":
        return dec_chars(tok.src)
    key = ("tok", id(tok))
    if key not in eng.cache:
        eng.unsupported(f"characters of a {tok.kind} token")
        eng.keep.append(tok)
        eng.cache[key] = tuple(map(ord, tok.concretise()))
    return eng.cache[key]


def dec_chars(v, width=0, maxdigits=12):
    """Decimal digits of a symbolic integer; forks on sign and length."""
    eng = core.CUR
    t = v.t
    if isinstance(z3.simplify(t), z3.IntNumRef):
        return tuple(map(ord, f"{z3.simplify(t).as_long():0{width}d}"))
    key = ("dec", t.get_id(), width)
    if key in eng.cache:
        return eng.cache[key]
    if width and eng.must(z3.And(t >= 0, t < 10 ** width)):
        neg, a, n = False, t, width
    else:
        neg = eng.decide(t < 0)
        a = z3.simplify(-t) if neg else t
        n = 1
        while n < maxdigits and not eng.decide(a < 10 ** n):
            n += 1
        if n == maxdigits:
            eng.unsupported("more than 12 digits")
            eng.assume(a < 10 ** maxdigits)
    w = max(n, width - (1 if neg else 0))
    ds = [z3.Int(eng.name("d")) for _ in range(n)]
    for d in ds:
        eng.define(z3.And(d >= 48, d <= 57))
    total = z3.Sum([(d - 48) * 10 ** (n - 1 - i) for i, d in enumerate(ds)])
    eng.define(total == a)
    out = ([45] if neg else []) + [48] * (w - n) + ds
    eng.keep.append(t)
    eng.cache[key] = tuple(out)
    # value lookup for int() of exactly these characters
    eng.cache[("intof", tuple(x if isinstance(x, int) else x.get_id() for x in out))] = v
    return eng.cache[key]


def sym_join(sep, parts):
    its = []
    sit = items_of(sep)
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError(f"sequence item {i}: expected str instance, {type(p).__name__} found")
        if i:
            its.extend(sit)
        its.extend(items_of(p))
    return mkstr(its)


def contains(s, sub):
    """sub in s as a condition."""
    if not isinstance(sub, str):
        raise TypeError("'in <string>' requires string as left operand")
    a = items_of(s)
    b = items_of(sub)
    if any(isinstance(i, Tok) for i in a):
        if b and all(isinstance(i, int) and i not in Tok.ALPHA for i in b):
            pass  # tokens cannot match
        else:
            e = s.expand()
            if any(isinstance(i, Tok) for i in b):
                sub = sub.expand()
            return contains(e, sub) if isinstance(e, SymStr) or isinstance(sub, SymStr) else sub in e
    n, m = len(a), len(b)
    alts = []
    for i in range(n - m + 1):
        rs = []
        bad = False
        for x, y in zip(a[i:i + m], b):
            if isinstance(x, Tok) or isinstance(y, Tok):
                r = x is y
            else:
                r = ceq(x, y)
            if r is False:
                bad = True
                break
            rs.append(r)
        if not bad:
            alts.append(sand(*rs))
    return sor(*alts)


# ---------------------------------------------------------------------------
# number parsing of character strings

def _digit(c):
    return DIGITS.has(c) if isinstance(c, int) else z3.And(c >= 48, c <= 57)


def _is(c, *codes):
    if isinstance(c, int):
        return c in codes
    return z3.Or(*[c == k for k in codes])


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _nfa(chars, start, trans, accept):
    """Run an NFA symbolically: formula for 'chars is accepted'."""
    states = {s: _b(s == start) for s in trans}
    states[start] = z3.BoolVal(True)
    for c in chars:
        nxt = {s: [] for s in states}
        for s, edges in trans.items():
            for pred, t in edges:
                p = pred(c)
                if p is False:
                    continue
                nxt.setdefault(t, []).append(z3.And(states[s], _b(p)))
        states = {s: (z3.simplify(z3.Or(*v)) if v else z3.BoolVal(False)) for s, v in nxt.items()}
    return z3.simplify(z3.Or(*[states[a] for a in accept]))


_SIGN = lambda c: _is(c, 43, 45)
_US = lambda c: _is(c, 95)
_DOT = lambda c: _is(c, 46)
_E = lambda c: _is(c, 101, 69)
_INT = {
    "s": [(_SIGN, "g"), (_digit, "d")],
    "g": [(_digit, "d")],
    "d": [(_digit, "d"), (_US, "u")],
    "u": [(_digit, "d")],
}
_FLT = {
    "s": [(_SIGN, "g"), (_digit, "d"), (_DOT, "p")],
    "g": [(_digit, "d"), (_DOT, "p")],
    "d": [(_digit, "d"), (_US, "du"), (_DOT, "q"), (_E, "e")],
    "du": [(_digit, "d")],
    "p": [(_digit, "f")],            # dot without digits so far
    "q": [(_digit, "f"), (_E, "e")],  # dot after digits
    "f": [(_digit, "f"), (_US, "fu"), (_E, "e")],
    "fu": [(_digit, "f")],
    "e": [(_SIGN, "es"), (_digit, "x")],
    "es": [(_digit, "x")],
    "x": [(_digit, "x"), (_US, "xu")],
    "xu": [(_digit, "x")],
}


def _word(chars, word):
    """Case-insensitive optional-sign word."""
    alts = []
    for off in (0, 1):
        body = chars[off:]
        if len(body) != len(word):
            continue
        cs = [_b(_is(c, ord(w), ord(w.upper()))) for c, w in zip(body, word)]
        if off:
            cs.append(_b(_SIGN(chars[0])))
        alts.append(z3.And(*cs))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def parse_int(s, base=10):
    eng = core.CUR
    if base != 10:
        eng.unsupported("int with base")
        return int(s.concretise(), base)
    s = s.strip()
    if not isinstance(s, SymStr):
        return int(s)
    if len(s.items) == 1 and isinstance(s.items[0], Tok):
        tok = s.items[0]
        if tok.kind == "dec":
            return tok.value
        if tok.kind == "repr":
            raise ValueError("invalid literal for int(): a float repr")
        if tok.kind == "fixed" and tok.spec != ".0f":
            raise ValueError("invalid literal for int()")
    s = s.expand()
    if not isinstance(s, SymStr):
        return int(s)
    chars = s.items
    key = ("intof", tuple(x if isinstance(x, int) else x.get_id() for x in chars))
    if key in eng.cache:
        return eng.cache[key]
    ok = _nfa(chars, "s", _INT, ("d",))
    if not eng.decide(ok):
        raise ValueError("invalid literal for int() with base 10")
    v = z3.IntVal(0)
    for c in chars:
        if isinstance(c, int):
            if 48 <= c <= 57:
                v = v * 10 + (c - 48)
        else:
            v = z3.If(_digit(c), v * 10 + (c - 48), v)
    neg = _b(_is(chars[0], 45))
    return SymInt(z3.simplify(z3.If(neg, -v, v)))


def parse_float(s):
    eng = core.CUR
    s = s.strip()
    if not isinstance(s, SymStr):
        return float(s)
    if len(s.items) == 1 and isinstance(s.items[0], Tok):
        v = s.items[0].value
        if isinstance(v, SymInt):
            return SymFloat(z3.ToReal(v.t))
        if isinstance(v, (SymFloat, int, float)):
            return v
    s = s.expand()
    if not isinstance(s, SymStr):
        return float(s)
    chars = s.items
    special = z3.Or(_word(chars, "nan"), _word(chars, "inf"), _word(chars, "infinity"))
    ok = _nfa(chars, "s", _FLT, ("d", "q", "f", "x"))
    if not eng.decide(z3.Or(ok, special)):
        raise ValueError("could not convert string to float")
    if eng.decide(special):
        if eng.decide(_word(chars, "nan")):
            return float("nan")
        neg = eng.decide(_b(_is(chars[0], 45)))
        return float("-inf") if neg else float("inf")
    key = ("fltof", tuple(x if isinstance(x, int) else x.get_id() for x in chars))
    if key in eng.cache:
        return eng.cache[key]
    # value: exact decimal value when there is no exponent, an uninterpreted
    # real with the right zero-ness and sign otherwise
    intv, scale, seen_dot, exp, allzero = z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(True)
    hasexp = z3.Or(*[_b(_E(c)) for c in chars])
    before = z3.BoolVal(True)
    for c in chars:
        ise = _b(_E(c))
        before = z3.And(before, z3.Not(ise))
        isd = z3.And(before, _b(_digit(c)))
        cv = (c - 48)
        allzero = z3.And(allzero, z3.Or(z3.Not(isd), z3.IntVal(cv) == 0 if isinstance(c, int) else cv == 0))
        intv = z3.If(isd, intv * 10 + cv, intv)
        scale = z3.If(z3.And(isd, seen_dot), scale + 1, scale)
        seen_dot = z3.Or(seen_dot, _b(_DOT(c)))
    neg = _b(_is(chars[0], 45))
    r = z3.Real(eng.name("flt"))
    eng.define(allzero == (r == 0))
    eng.define(z3.Or(r == 0, (r < 0) == neg))
    mag = z3.If(r < 0, -r, r)
    for k in range(len(chars)):
        eng.define(z3.Implies(z3.And(z3.Not(hasexp), scale == k), mag * (10 ** k) == z3.ToReal(intv)))
    out = SymFloat(r)
    eng.cache[key] = out
    eng.keep.extend(c for c in chars if not isinstance(c, int))
    return out


# ---------------------------------------------------------------------------
# regular expressions: backtracking over items

class _RxUnsupported(Exception):
    pass


_CATS = {
    rc.CATEGORY_DIGIT: CharSet([(48, 57)]),
    rc.CATEGORY_NOT_DIGIT: CharSet([(48, 57)], True),
    rc.CATEGORY_SPACE: WSCLASS,
    rc.CATEGORY_NOT_SPACE: CharSet(WS_RANGES, True),
    rc.CATEGORY_WORD: CharSet([(48, 57), (65, 90), (95, 95), (97, 122)]),
    rc.CATEGORY_NOT_WORD: CharSet([(48, 57), (65, 90), (95, 95), (97, 122)], True),
}
if True:  # \d matches every Unicode decimal digit
    _nd = _ranges([c for c in range(0x20000) if unicodedata.category(chr(c)) == "Nd"])
    _CATS[rc.CATEGORY_DIGIT] = CharSet(_nd)
    _CATS[rc.CATEGORY_NOT_DIGIT] = CharSet(_nd, True)


def _set(av, flags):
    neg, ranges = False, []
    for op, v in av:
        if op is rc.NEGATE:
            neg = True
        elif op is rc.LITERAL:
            ranges.append((v, v))
        elif op is rc.RANGE:
            ranges.append(v)
        elif op is rc.CATEGORY:
            cs = _CATS[v]
            if cs.neg:
                if len(av) == 1 + neg:
                    return CharSet(cs.ranges, not neg)
                raise _RxUnsupported("negated category in set")
            ranges.extend(cs.ranges)
        else:
            raise _RxUnsupported(str(op))
    if flags & re.I:
        extra = []
        for a, b in ranges:
            if b - a < 200:
                for c in range(a, b + 1):
                    for d in (chr(c).lower(), chr(c).upper()):
                        if len(d) == 1:
                            extra.append((ord(d), ord(d)))
        ranges = ranges + extra
    return CharSet(ranges, neg)


class _Rx:
    def __init__(self, pat, flags):
        self.tree = rp.parse(pat, flags & ~re.U.value if False else flags & (re.I | re.M | re.S | re.X | re.A))
        self.flags = self.tree.state.flags

    def one(self, it, cs):
        r = cin(it, cs)
        if r is None:
            raise _NeedExpand
        return bool(r)

    def m(self, nodes, k, items, i, groups):
        """Generate (end, groups) for nodes[k:] matched from i, greedy order."""
        if k == len(nodes):
            yield i, groups
            return
        op, av = nodes[k]
        fl = self.flags
        if op in (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN):
            if op is rc.LITERAL:
                cs = _set([(rc.LITERAL, av)], fl)
            elif op is rc.NOT_LITERAL:
                cs = _set([(rc.NEGATE, None), (rc.LITERAL, av)], fl)
            elif op is rc.ANY:
                cs = CharSet([], True) if fl & re.S else CharSet([(10, 10)], True)
            else:
                cs = _set(av, fl)
            if i < len(items) and self.one(items[i], cs):
                yield from self.m(nodes, k + 1, items, i + 1, groups)
        elif op is rc.AT:
            n = len(items)
            if av in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
                ok = i == 0
                if fl & re.M and av is rc.AT_BEGINNING:
                    raise _RxUnsupported("multiline")
            elif av is rc.AT_END:
                if fl & re.M:
                    raise _RxUnsupported("multiline")
                ok = i == n or (i == n - 1 and self.one(items[i], CharSet([(10, 10)])))
            elif av is rc.AT_END_STRING:
                ok = i == n
            elif av in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
                w = _CATS[rc.CATEGORY_WORD]
                a = i > 0 and self.one(items[i - 1], w)
                b = i < n and self.one(items[i], w)
                ok = (a != b) == (av is rc.AT_BOUNDARY)
            else:
                raise _RxUnsupported(str(av))
            if ok:
                yield from self.m(nodes, k + 1, items, i, groups)
        elif op is rc.SUBPATTERN:
            gid, _add, _del, sub = av
            for e, g in self.m(list(sub), 0, items, i, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, e)
                yield from self.m(nodes, k + 1, items, e, g)
        elif op is rc.BRANCH:
            for alt in av[1]:
                for e, g in self.m(list(alt), 0, items, i, groups):
                    yield from self.m(nodes, k + 1, items, e, g)
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, sub = av
            yield from self.rep(list(sub), lo, hi, op is rc.MAX_REPEAT, 0, nodes, k, items, i, groups)
        elif op in (rc.ASSERT, rc.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise _RxUnsupported("lookbehind")
            hit = next(self.m(list(sub), 0, items, i, groups), None)
            if (hit is not None) == (op is rc.ASSERT):
                yield from self.m(nodes, k + 1, items, i, groups)
        else:
            raise _RxUnsupported(str(op))

    def rep(self, sub, lo, hi, greedy, n, nodes, k, items, i, groups):
        def more():
            if hi is rc.MAXREPEAT or n < hi:
                for e, g in self.m(sub, 0, items, i, groups):
                    if e == i and n >= lo:
                        continue
                    yield from self.rep(sub, lo, hi, greedy, n + 1, nodes, k, items, e, g)
        def rest():
            if n >= lo:
                yield from self.m(nodes, k + 1, items, i, groups)
        if greedy:
            yield from more()
            yield from rest()
        else:
            yield from rest()
            yield from more()

    def at(self, items, i):
        return next(self.m(list(self.tree), 0, items, i, {}), None)


_RXC = {}


def rx(pattern):
    key = (pattern.pattern, pattern.flags)
    if key not in _RXC:
        _RXC[key] = _Rx(pattern.pattern, pattern.flags)
    return _RXC[key]


class SymMatch:
    def __init__(self, pattern, string, items, start, end, groups):
        self.re = pattern
        self.string = string
        self._items = items
        self._g = {0: (start, end), **groups}

    def _id(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def _one(self, g, default=None):
        gid = self._id(g)
        if gid > self.re.groups:
            raise IndexError("no such group")
        if gid not in self._g:
            return default
        a, b = self._g[gid]
        return mkstr(self._items[a:b])

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        return self._g.get(self._id(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._id(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._id(g), (-1, -1))


def rx_call(pattern, name, s, *args, **kw):
    """pattern.<name>(..., s, ...) for symbolic s."""
    eng = core.CUR
    try:
        return _rx_call(pattern, name, s, *args, **kw)
    except _NeedExpand:
        e = s.expand()
        if isinstance(e, SymStr):
            return _rx_call(pattern, name, e, *args, **kw)
        return getattr(pattern, name)(*([args[0], e] if name in ("sub", "subn") else [e]), *(args[1:] if name in ("sub", "subn") else args), **kw)
    except _RxUnsupported as exc:
        eng.unsupported(f"regex {exc}")
        e = s.concretise()
        if name in ("sub", "subn"):
            return getattr(pattern, name)(args[0], e, *args[1:], **kw)
        return getattr(pattern, name)(e, *args, **kw)


def _rx_call(pattern, name, s, *args, **kw):
    r = rx(pattern)
    items = s.items
    if name in ("match", "fullmatch", "search"):
        if args or kw:
            raise _RxUnsupported("pos/endpos")
        starts = range(len(items) + 1) if name == "search" else (0,)
        for i in starts:
            if name == "fullmatch":
                hit = None
                for e, g in r.m(list(r.tree), 0, items, i, {}):
                    if e == len(items):
                        hit = (e, g)
                        break
            else:
                hit = r.at(items, i)
            if hit is not None:
                return SymMatch(pattern, s, items, i, hit[0], hit[1])
        return None
    matches = []
    i = 0
    lastend = -1
    while i <= len(items):
        hit = r.at(items, i)
        if hit is not None and not (hit[0] == i and i == lastend):
            matches.append(SymMatch(pattern, s, items, i, hit[0], hit[1]))
            lastend = hit[0]
            i = hit[0] if hit[0] > i else i + 1
        else:
            i += 1
    if name == "finditer":
        return iter(matches)
    if name == "findall":
        out = []
        for m in matches:
            if pattern.groups == 0:
                out.append(m.group())
            elif pattern.groups == 1:
                out.append(m._one(1, ""))
            else:
                out.append(m.groups(""))
        return out
    if name == "split":
        out, pos = [], 0
        for m in matches:
            a, b = m.span()
            out.append(mkstr(items[pos:a]))
            out.extend(m.groups())
            pos = b
        out.append(mkstr(items[pos:]))
        return out
    if name in ("sub", "subn"):
        repl = args[0]
        count = args[1] if len(args) > 1 else kw.get("count", 0)
        out, pos, n = [], 0, 0
        for m in matches:
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(items[pos:a])
            if callable(repl):
                out.extend(items_of(repl(m)))
            else:
                if isinstance(repl, SymStr):
                    out.extend(repl.items)
                elif "\\" in repl:
                    tmpl = rp.parse_template(repl, pattern)
                    for part in tmpl:
                        if isinstance(part, int):
                            out.extend(items_of(m._one(part, "")))
                        elif part:
                            out.extend(items_of(part))
                else:
                    out.extend(items_of(repl))
            pos = b
            n += 1
        out.extend(items[pos:])
        res = mkstr(out)
        return (res, n) if name == "subn" else res
    raise _RxUnsupported(name)
