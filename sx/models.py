"""Models of builtins and C functions on symbolic arguments, and the entry
points the rewritten code calls."""
from __future__ import annotations

import builtins
import enum
import functools
import itertools
import math
import operator
import re
import string
import types

import z3

from sx import core
from sx.core import Sym, SymBool, SymFloat, SymInt, fval, issym, mkbool, sand, snot, sor
from sx.symstr import (SymMatch, SymStr, Tok, contains, dec_chars, items_of, mkstr, parse_float,
                       parse_int, rx_call, sym_join)

INSTRUMENTED = set()   # names of rewritten modules


def anysym(args, kw):
    for a in args:
        if Sym in type(a).__mro__:
            return True
    for a in kw.values():
        if Sym in type(a).__mro__:
            return True
    return False


def conc(x):
    return x.concretise() if issym(x) and hasattr(type(x), "concretise") else (bool(x) if isinstance(x, SymBool) else x)


# ---------------------------------------------------------------------------
# str / repr / format

def m_str(*args, **kw):
    if not args:
        return str(**kw)
    x = args[0]
    if len(args) > 1 or kw:
        return str(*map(conc, args), **kw)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymInt):
        return num_str(x)
    if isinstance(x, SymFloat):
        return num_str(x)
    t = type(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)) and t.__str__ is object.__str__:
        return sx_repr(x)
    if t.__module__ in INSTRUMENTED and isinstance(t.__str__, types.FunctionType):
        r = t.__str__(x)
        if not isinstance(r, str):
            raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
        return r
    if t.__module__ in INSTRUMENTED and t.__str__ is object.__str__:
        return sx_repr(x)
    if isinstance(x, BaseException) and len(x.args) == 1 and isinstance(x.args[0], SymStr):
        return x.args[0]
    return str(x)


def num_str(x):
    s = z3.simplify(x.t)
    if isinstance(x, SymInt):
        if z3.is_int_value(s):
            return str(s.as_long())
        return SymStr((Tok("dec", x, x),))
    if z3.is_rational_value(s):
        return repr(float(s.as_fraction()))
    return SymStr((Tok("repr", x, x),))


_DEPTH = [0]


def sx_repr(x):
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, (SymInt, SymFloat)):
        return num_str(x)
    if isinstance(x, SymStr):
        return SymStr((Tok("pyrepr", x, x),))
    t = type(x)
    if t in (str, int, float, bool, type(None)):
        return repr(x)
    if _DEPTH[0] > 60:
        raise RecursionError("repr")
    _DEPTH[0] += 1
    try:
        if t is tuple:
            inner = sym_join(", ", [sx_repr(i) for i in x])
            return "(" + inner + (",)" if len(x) == 1 else ")")
        if t is list:
            return "[" + sym_join(", ", [sx_repr(i) for i in x]) + "]"
        if t is dict:
            return "{" + sym_join(", ", [sx_repr(k) + ": " + sx_repr(v) for k, v in x.items()]) + "}"
        r = t.__repr__
        if isinstance(r, types.FunctionType):
            if getattr(x, "__dataclass_fields__", None) is not None and hasattr(r, "__wrapped__"):
                parts = [f.name + "=" + sx_repr(getattr(x, f.name)) for f in x.__dataclass_fields__.values() if f.repr]
                return t.__qualname__ + "(" + sym_join(", ", parts) + ")"
            out = r(x)
            if not isinstance(out, str):
                raise TypeError(f"__repr__ returned non-string (type {type(out).__name__})")
            return out
        return repr(x)
    finally:
        _DEPTH[0] -= 1


def m_format(x, spec=""):
    if isinstance(spec, SymStr):
        spec = spec.concretise()
    if not issym(x):
        t = type(x)
        if not spec and not isinstance(x, (str, int, float)) and t.__format__ is object.__format__:
            return m_str(x)
        return format(x, spec)
    if not spec:
        return m_str(x)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    if isinstance(x, SymInt):
        m = re.fullmatch(r"(0?)(\d*)d?", spec)
        if m:
            if m.group(1):
                return mkstr(dec_chars(x, int(m.group(2) or 0)))
            if not m.group(2):
                return num_str(x)
        if spec.endswith(("f", "g", "e", "F", "G", "E")):
            return m_format(SymFloat(z3.ToReal(x.t)), spec)
    if isinstance(x, SymFloat):
        m = re.fullmatch(r"\.(\d+)f", spec)
        if m or spec == "f":
            return fixed(x, int(m.group(1)) if m else 6)
        m = re.fullmatch(r"(?:\.(\d+))?([geGE]?)", spec)
        if m and (m.group(1) or m.group(2)):
            p = int(m.group(1)) if m.group(1) else 6
            if m.group(2) in "eE" and m.group(2):
                p += 1
            p = max(p, 1)
            key = ("fmt", x.t.get_id(), spec)
            c = core.CUR.cache
            if key not in c:
                core.CUR.keep.append(x)
                r = z3.Real(core.CUR.name("fmt"))
                a = z3.If(x.t < 0, -x.t, x.t)
                err = a * z3.RealVal(f"1/{2 * 10 ** (p - 1)}")
                if p < 17:
                    core.CUR.define(z3.And(r - x.t <= err, x.t - r <= err))
                    c[key] = Tok("fmt", x, SymFloat(r), spec)
                else:
                    c[key] = Tok("fmt", x, x, spec)
            return SymStr((c[key],))
    if isinstance(x, SymStr) and spec == "s":
        return x
    core.CUR.unsupported(f"format spec {spec!r}")
    return format(conc(x), spec)


def fixed(x, p):
    """Text of x with p decimals: a token whose value is within half a unit."""
    key = ("fixed", x.t.get_id(), p)
    c = core.CUR.cache
    if key not in c:
        core.CUR.keep.append(x)
        k = z3.Int(core.CUR.name("fx"))
        sc = 10 ** p
        r = z3.ToReal(k) / sc
        core.CUR.define(z3.And(2 * sc * (r - x.t) <= 1, 2 * sc * (x.t - r) <= 1))
        c[key] = Tok("fixed", x, SymFloat(r), f".{p}f")
    return SymStr((c[key],))


def m_round(x, nd=None):
    if not isinstance(x, SymFloat):
        if isinstance(x, SymInt):
            return x
        if issym(nd):
            nd = nd.__index__()
        return round(x) if nd is None else round(x, nd)
    if issym(nd):
        nd = nd.__index__()
    k = z3.Int(core.CUR.name("rnd"))
    sc = 10 ** max(nd or 0, 0)
    r = z3.ToReal(k) / sc
    core.CUR.define(z3.And(2 * sc * (r - x.t) <= 1, 2 * sc * (x.t - r) <= 1))
    return SymInt(k) if nd is None else SymFloat(r)


def sx_fstr(*parts):
    """parts: plain strings, or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = m_str(v)
        elif conv == 97:
            v = ascii(conc(v))
        out.append(m_format(v, spec))
    if all(type(o) is str for o in out):
        return "".join(out)
    return sym_join("", out)


def percent_format(fmt, args):
    if isinstance(fmt, SymStr):
        core.CUR.unsupported("symbolic % format")
        fmt = fmt.concretise()
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not anysym_deep(tup):
        return fmt % args
    out, pos, k = [], 0, 0
    spec = r"%(?:%|(0?)(\d*)(?:\.(\d+))?([sdfrgiec]))"
    if "%" in re.sub(spec, "", fmt):
        core.CUR.unsupported("% format directive")
        return fmt % tuple(conc(v) for v in tup)
    for m in re.finditer(spec, fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            out.append("%")
            continue
        if k >= len(tup):
            raise TypeError("not enough arguments for format string")
        v = tup[k]
        k += 1
        z, w, p, c = m.groups()
        if c == "s":
            out.append(m_str(v))
        elif c == "c":
            out.append(v if isinstance(v, str) else m_chr(v))
        elif c == "r":
            out.append(sx_repr(v))
        elif c in "di":
            if isinstance(v, str) or v is None:
                raise TypeError("%d format: a real number is required")
            out.append(m_format(m_int(v), (z or "") + (w or "") + "d"))
        else:
            if isinstance(v, str) or v is None:
                raise TypeError("must be real number")
            out.append(m_format(m_float(v), (f".{p}" if p else ("" if c != "f" else ".6")) + c))
    out.append(fmt[pos:])
    if k != len(tup):
        raise TypeError("not all arguments converted during string formatting")
    return sym_join("", out)


def anysym_deep(x, d=0):
    if issym(x):
        return True
    if d < 4 and type(x) in (tuple, list):
        return any(anysym_deep(i, d + 1) for i in x)
    return type(x).__module__ in INSTRUMENTED


def str_format(fmt, *args, **kw):
    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if name is None:
            continue
        first, rest = _split_field(name)
        if first == "":
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for is_attr, key in rest:
            v = getattr(v, key) if is_attr else sx_getitem(v, key)
        if conv == "r":
            v = sx_repr(v)
        elif conv == "s":
            v = m_str(v)
        if spec and "{" in spec:
            spec = str_format(spec, *args[auto:], **kw)
        out.append(m_format(v, spec))
    return sym_join("", out)


def _split_field(name):
    import _string
    first, rest = _string.formatter_field_name_split(name)
    return str(first), list(rest)


# ---------------------------------------------------------------------------
# numbers

def m_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    if not issym(x):
        return int(*map(conc, a), **k)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymFloat):
        return x.__trunc__()
    return parse_int(x, *a[1:], **k)


def m_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if not issym(x):
        return float(*a)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(z3.ToReal(x.t))
    if isinstance(x, SymBool):
        return SymFloat(z3.ToReal(x._int().t))
    return parse_float(x)


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymFloat)):
        return mkbool(z3.simplify(x.t != 0))
    return bool(x)


def m_abs(x):
    return abs(x)


def m_len(x):
    return len(x)


def m_type(*a, **k):
    if len(a) == 1 and not k and issym(a[0]):
        return a[0].__class__
    return type(*a, **k)


def _minmax(name):
    real = getattr(builtins, name)

    def m(*a, **k):
        vals = list(a[0]) if len(a) == 1 else list(a)
        if "key" in k or not vals or not all(isinstance(v, (int, float)) for v in vals) or not anysym(vals, {}):
            return real(*( [vals] if len(a) == 1 else vals), **k)
        r = vals[0]
        for v in vals[1:]:
            less = (v < r) if name == "min" else (v > r)
            if less is True:
                r = v
            elif less is False:
                continue
            else:
                a1, a2 = core._Num.lift(v), core._Num.lift(r)
                if isinstance(a1[0], str) or isinstance(a2[0], str):
                    r = v if less else r
                    continue
                t1 = z3.ToReal(a1[0]) if z3.is_int(a1[0]) else a1[0]
                t2 = z3.ToReal(a2[0]) if z3.is_int(a2[0]) else a2[0]
                if z3.is_int(a1[0]) and z3.is_int(a2[0]):
                    r = SymInt(z3.If(less.t, a1[0], a2[0]))
                else:
                    r = SymFloat(z3.If(less.t, t1, t2))
        return r
    return m


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (issym(a) or issym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if a is b:
        return True
    la, lb = core._Num.lift(a), core._Num.lift(b)
    if la is None or lb is None:
        raise TypeError("must be real number")
    if isinstance(la[0], str) or isinstance(lb[0], str):
        return False
    x = z3.ToReal(la[0]) if z3.is_int(la[0]) else la[0]
    y = z3.ToReal(lb[0]) if z3.is_int(lb[0]) else lb[0]
    if x.eq(y):
        return True
    d = z3.If(x - y < 0, y - x, x - y)
    ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
    big = z3.If(ax > ay, ax, ay)
    return mkbool(z3.simplify(z3.Or(x == y, d <= fval(rel_tol) * big, d <= fval(abs_tol))))


def _const_num(result):
    def m(x):
        if isinstance(x, (SymFloat, SymInt, SymBool)):
            return result
        if isinstance(x, SymStr):
            raise TypeError("must be real number, not str")
        return None
    return m


def m_isnan(x):
    return False if issym(x) and not isinstance(x, SymStr) else math.isnan(x)


def m_isinf(x):
    return False if issym(x) and not isinstance(x, SymStr) else math.isinf(x)


def m_isfinite(x):
    return True if issym(x) and not isinstance(x, SymStr) else math.isfinite(x)


def m_floor(x):
    return SymInt(z3.ToInt(x.t)) if isinstance(x, SymFloat) else (x if isinstance(x, SymInt) else math.floor(x))


def m_ceil(x):
    return SymInt(-z3.ToInt(-x.t)) if isinstance(x, SymFloat) else (x if isinstance(x, SymInt) else math.ceil(x))


def m_fabs(x):
    return abs(m_float(x)) if issym(x) else math.fabs(x)


def m_index(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, (SymFloat, SymStr)):
        raise TypeError("object cannot be interpreted as an integer")
    return operator.index(x)


def m_divmod(a, b):
    if issym(a) or issym(b):
        return (a // b, a % b)
    return divmod(a, b)


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_map(f, *its):
    for args in zip(*its):
        yield sx_call(f, *args)


def m_filter(f, it):
    for x in it:
        if (x if f is None else sx_call(f, x)):
            yield x


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_chr(x):
    if isinstance(x, SymInt):
        return mkstr((z3.simplify(x.t),)) if not z3.is_int_value(z3.simplify(x.t)) else chr(z3.simplify(x.t).as_long())
    return chr(x)


def m_ord(x):
    if isinstance(x, SymStr):
        s = x.expand()
        if len(s) != 1:
            raise TypeError("ord() expected a character")
        if isinstance(s, SymStr):
            return SymInt(s.items[0])
        return ord(s)
    return ord(x)


def m_isinstance(x, c):
    return isinstance(x, c)


def m_hasattr(o, n):
    return hasattr(o, conc(n))


def m_getattr(o, n, *d):
    return getattr(o, conc(n), *d)


def m_set(*a):
    vals = list(a[0]) if a else []
    if not any(issym(v) for v in vals):
        return set(vals)
    return SymSet(vals)


def m_frozenset(*a):
    return m_set(*a)


class SymSet:
    """A set holding symbolic values: membership by equality."""

    def __init__(self, vals):
        self.vals = []
        for v in vals:
            self.add(v)

    def add(self, v):
        if not bool(sx_in(v, self.vals)):
            self.vals.append(v)

    def __contains__(self, v):
        return bool(sx_in(v, self.vals))

    def __iter__(self):
        return iter(list(self.vals))

    def __len__(self):
        return len(self.vals)

    def __bool__(self):
        return bool(self.vals)

    def update(self, *its):
        for it in its:
            for v in it:
                self.add(v)

    def discard(self, v):
        for i, w in enumerate(self.vals):
            if v == w:
                del self.vals[i]
                return

    def remove(self, v):
        n = len(self.vals)
        self.discard(v)
        if len(self.vals) == n:
            raise KeyError(v)

    def pop(self):
        return self.vals.pop()

    def __or__(self, o):
        return SymSet([*self.vals, *o])

    def __and__(self, o):
        return SymSet([v for v in self.vals if bool(sx_in(v, list(o)))])

    def __sub__(self, o):
        return SymSet([v for v in self.vals if not bool(sx_in(v, list(o)))])

    def __eq__(self, o):
        return len(self) == len(o) and all(v in self for v in o)

    def issubset(self, o):
        return all(bool(sx_in(v, list(o))) for v in self.vals)


# ---------------------------------------------------------------------------
# containers

def sx_in(x, c):
    if isinstance(c, SymStr):
        return contains(c, x)
    if isinstance(x, SymStr) and isinstance(c, str):
        return contains(SymStr(items_of(c)), x)
    tc = type(c)
    if issym(x) and tc in (set, frozenset, tuple, list, dict, type({}.keys()), type({}.values())):
        rs = []
        for y in c:
            r = x == y
            if r is True:
                return True
            rs.append(r)
        return sor(*rs)
    if tc in (tuple, list):
        rs = []
        for y in c:
            if x is y:
                return True
            if issym(y):
                rs.append(y == x)
            elif x == y:
                return True
        return sor(*rs)
    return x in c


def sx_notin(x, c):
    return snot(sx_in(x, c))


def sx_is(a, b):
    if a is b:
        return True
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    return False


def sx_and(a, later):
    if type(a) is SymBool:
        b = _try(later)
        if type(b) in (bool, SymBool):
            return a & b
    return later() if a else a


def sx_or(a, later):
    if type(a) is SymBool:
        b = _try(later)
        if type(b) in (bool, SymBool):
            return a | b
    return a if a else later()


def _try(later):
    """The value of an operand that might not have been looked at."""
    try:
        return later()
    except Exception:       # noqa: BLE001
        return None


def sx_plain(x):
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymInt:
        return x.__index__()
    return x


def sx_isnot(a, b):
    return snot(sx_is(a, b))


def sx_getitem(c, k):
    if issym(k):
        if isinstance(c, dict):
            return dict_lookup(c, k)
        if isinstance(k, (SymInt, SymBool)):
            return c[k.__index__()]
        if isinstance(k, SymStr) and isinstance(type(c), type) and isinstance(c, enum.EnumMeta):
            for n, mem in c.__members__.items():
                if k == n:
                    return mem
            raise KeyError(k)
    return c[k]


_MISS = object()


def dict_lookup(d, k, default=_MISS):
    for key, v in list(d.items()):
        if k == key:
            return v
    if default is not _MISS:
        return default
    miss = getattr(type(d), "__missing__", None)
    if miss is not None:
        return miss(d, conc(k))
    raise KeyError(k)


def enum_call(cls, v):
    for mem in cls.__members__.values():
        if mem.value == v:
            return mem
    r = cls._missing_(v)
    if isinstance(r, cls):
        return r
    if r is None:
        raise ValueError(f"<symbolic> is not a valid {cls.__qualname__}")
    raise TypeError("error in _missing_")


def m_eval(src, *a):
    if not isinstance(src, SymStr):
        return eval(src, *a)
    ns, parts = {}, []
    for it in src.items:
        if isinstance(it, int):
            parts.append(chr(it))
        elif isinstance(it, Tok):
            n = f"__sxv{len(ns)}"
            ns[n] = it.value
            parts.append(n)
        else:
            core.CUR.unsupported("symbolic character in eval source")
            parts.append(mkstr((it,)).concretise())
    text = "".join(parts)
    if re.search(r"[\w]__sxv|__sxv\d+[.(\w]", re.sub(r"__sxv\d+", "__sxv0", text).replace("__sxv0", " __sxv0 ")) and False:
        pass
    g = dict(a[0]) if a else {}
    g.update(a[1] if len(a) > 1 else {})
    g.update(ns)
    return eval(text, g)


def lru_call(f, a, k):
    """functools.lru_cache: a path-local table, keys compared symbolically."""
    eng = core.CUR
    if eng is None:
        return f(*a, **k)
    eng.keep.append(f)
    table = eng.cache.setdefault(("lru", id(f)), [])
    for aa, kk, v in table:
        if len(aa) == len(a) and kk.keys() == k.keys():
            if all(_keyeq(x, y) for x, y in zip(aa, a)) and all(_keyeq(kk[n], k[n]) for n in k):
                return v
    for x in (*a, *k.values()):
        if not issym(x):
            hash(x)
    v = f.__wrapped__(*a, **k)
    table.append((a, dict(k), v))
    return v


def _keyeq(x, y):
    return x is y or bool(x == y)


# ---------------------------------------------------------------------------
# dispatch

def _re_func(name):
    real = getattr(re, name)

    def m(pattern, *a, **k):
        k = dict(k)
        flags = k.pop("flags", 0)
        a = list(a)
        nargs = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        for kw_name in ("repl", "string", "count", "maxsplit"):
            pass
        if "string" in k or "repl" in k:
            s = k.pop("string", None)
            if name in ("sub", "subn"):
                r = k.pop("repl", None)
                if r is not None:
                    a.insert(0, r)
                if s is not None:
                    a.insert(1, s)
            elif s is not None:
                a.insert(0, s)
        if name in ("sub", "subn"):
            if len(a) > 3:
                flags = a[3]
                a = a[:3]
            tgt = a[1]
        else:
            if len(a) > nargs:
                flags = a[nargs]
                a = a[:nargs]
            tgt = a[0]
        if not issym(tgt) and not any(issym(x) for x in a):
            return real(pattern, *a, **({"flags": flags} if flags else {}), **k)
        p = pattern if isinstance(pattern, re.Pattern) else re.compile(conc(pattern), flags)
        return pat_call(p, name, a, k)
    return m


def pat_call(p, name, a, k):
    a = list(a)
    if "string" in k:
        s = k.pop("string")
        a.insert(1 if name in ("sub", "subn") else 0, s)
    if name in ("sub", "subn"):
        repl, s, *rest = a
        if isinstance(s, SymStr):
            return rx_call(p, name, s, repl, *rest, **k)
        if isinstance(repl, SymStr):
            return rx_call(p, name, SymStr(items_of(s)), repl, *rest, **k)
        return getattr(p, name)(*a, **k)
    s, *rest = a
    if isinstance(s, SymStr):
        return rx_call(p, name, s, *rest, **k)
    return getattr(p, name)(*a, **k)


MODELS = {
    str: m_str, int: m_int, float: m_float, bool: m_bool, type: m_type,
    set: m_set, frozenset: m_frozenset,
    repr: sx_repr, format: m_format, round: m_round, any: m_any, all: m_all,
    min: _minmax("min"), max: _minmax("max"), map: m_map, filter: m_filter, sum: m_sum,
    chr: m_chr, ord: m_ord, eval: m_eval, divmod: m_divmod,
    math.isclose: m_isclose, math.isnan: m_isnan, math.isinf: m_isinf, math.isfinite: m_isfinite,
    math.floor: m_floor, math.ceil: m_ceil, math.trunc: m_int, math.fabs: m_fabs,
    operator.index: m_index,
    hasattr: m_hasattr, getattr: m_getattr,
}
for _n in ("sub", "subn", "match", "fullmatch", "search", "findall", "finditer", "split"):
    MODELS[getattr(re, _n)] = _re_func(_n)
_ID = {}


def _rebuild():
    _ID.clear()
    for f, m in MODELS.items():
        _ID[id(f)] = m


_rebuild()

# C callables that only move values around (or use ==/bool, which are modelled)
TRANSPARENT = {id(f) for f in (
    isinstance, issubclass, callable, len, iter, next, zip, enumerate, reversed, list, tuple, dict, id, print,
    setattr, delattr, vars, dir, abs, sorted, slice, object, super, property, classmethod, staticmethod,
    range, object.__setattr__, object.__getattribute__, object.__new__, functools.partial, functools.reduce,
    operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.not_, operator.truth,
    operator.is_, operator.is_not, operator.getitem, operator.contains, operator.attrgetter, operator.itemgetter,
    operator.methodcaller, operator.add,
)}
TRANSPARENT_MODULES = {"itertools", "collections", "typing", "contextlib", "copy", "dataclasses", "enum", "abc", "logging",
                       "weakref", "warnings"}
STR_OK = {"join", "format", "strip", "lstrip", "rstrip", "split", "startswith", "endswith", "replace", "find", "rfind",
          "index", "count", "partition", "rpartition", "removeprefix", "removesuffix", "rsplit", "zfill", "lower", "upper",
          "__eq__", "__ne__", "__contains__", "__add__", "__mod__", "ljust", "rjust", "casefold", "translate", "isdigit",
          "isspace", "isalpha", "isalnum", "isascii", "splitlines"}

_Builtin = types.BuiltinFunctionType
_MethodDesc = type(str.join)
_CMethod = type(re.compile('x').match)
_Wrapper = type((1).__add__)
_SlotWrap = type(int.__add__)
_Lru = type(functools.lru_cache(lambda: 0))


def sx_call(f, /, *a, **k):
    m = _ID.get(id(f))
    if m is not None:
        return m(*a, **k)
    tf = type(f)
    if tf is types.FunctionType:
        if f.__globals__.get("__sx__") or not anysym(a, k):
            return f(*a, **k)
        if f.__module__ in TRANSPARENT_MODULES or (f.__module__ or "").startswith("sx"):
            return f(*a, **k)
        return _unknown(f, a, k)
    if tf is types.MethodType:
        g = f.__func__
        if type(g) is _Lru:
            return lru_call(g, (f.__self__, *a), k)
        gg = getattr(g, "__globals__", None)
        if gg is None or gg.get("__sx__") or not anysym(a, k):
            return f(*a, **k)
        mod = g.__module__ or ""
        if mod.split(".")[0] in TRANSPARENT_MODULES or mod.startswith("sx") or mod.startswith("xml.etree") or issym(f.__self__):
            return f(*a, **k)
        return _unknown(f, a, k)
    if tf is _Builtin or tf is _CMethod:
        s = f.__self__
        ts = type(s)
        if ts is str:
            if f.__name__ == "join" and len(a) == 1:
                parts = list(a[0])
                if any(type(p) is not str for p in parts):
                    return sym_join(s, parts)
                return s.join(parts)
            if f.__name__ == "format":
                if anysym_deep(a) or anysym_deep(tuple(k.values())):
                    return str_format(s, *a, **k)
                return f(*a, **k)
            if anysym(a, k):
                if f.__name__ in STR_OK:
                    return getattr(SymStr(items_of(s)), f.__name__)(*a, **k)
                return _unknown(f, a, k)
            return f(*a, **k)
        if ts is re.Pattern:
            if anysym(a, k):
                return pat_call(s, f.__name__, a, k)
            return f(*a, **k)
        if ts in (list, object, type, types.GeneratorType, tuple):
            if a and f.__name__ == "__new__" and ts is type:
                return f(*a, **k)
            return f(*a, **k)
        if isinstance(s, dict) and a and issym(a[0]):
            n = f.__name__
            if n == "get":
                return dict_lookup(s, a[0], a[1] if len(a) > 1 else None)
            if n == "__getitem__":
                return dict_lookup(s, a[0])
            if n == "pop":
                for key in list(s):
                    if a[0] == key:
                        return s.pop(key)
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if n == "setdefault":
                for key in list(s):
                    if a[0] == key:
                        return s[key]
            return _unknown(f, a, k)
        if isinstance(s, (dict, list)) or id(f) in TRANSPARENT:
            return f(*a, **k)
        if isinstance(s, set) and a and issym(a[0]):
            return _unknown(f, a, k)
        if anysym(a, k):
            mod = getattr(f, "__module__", None) or ""
            if mod in TRANSPARENT_MODULES or mod.strip("_") in TRANSPARENT_MODULES or isinstance(s, (set, type({}.items()))):
                return f(*a, **k)
            return _unknown(f, a, k)
        return f(*a, **k)
    if tf is _Lru:
        return lru_call(f, a, k)
    if tf is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf is _MethodDesc:
        if anysym(a, k):
            oc = f.__objclass__
            if oc is str:
                s = a[0] if isinstance(a[0], SymStr) else SymStr(items_of(a[0]))
                return getattr(s, f.__name__)(*a[1:], **k)
            if oc in (list, dict, object, tuple):
                return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
            return _unknown(f, a, k)
        if f.__name__ == "join" and f.__objclass__ is str:
            return sx_call(a[0].join, *a[1:])
        return f(*a, **k)
    if isinstance(f, type):
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k and f.__members__:
            if issym(a[0]):
                return enum_call(f, a[0])
            return f(*a, **k)
        if id(f) in TRANSPARENT or f.__module__ in INSTRUMENTED or not anysym(a, k):
            return f(*a, **k)
        if issubclass(f, BaseException) or f.__module__ in TRANSPARENT_MODULES:
            return f(*a, **k)
        if f.__module__.startswith("sx") or f.__module__ == "xml.etree.ElementTree":
            return f(*a, **k)
        return _unknown(f, a, k)
    return f(*a, **k)


def _unknown(f, a, k):
    """No model: run the real callable on concrete values of this path."""
    core.CUR.unsupported(f"call of {getattr(f, '__qualname__', f)!s}")
    return f(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})


def sx_mod(a, b):
    if type(a) is str and (type(b) is tuple or issym(b) or type(b).__module__ in INSTRUMENTED):
        return percent_format(a, b)
    return a % b
