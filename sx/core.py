"""Path exploration engine and symbolic values.

Every symbolic value is a proxy carrying a z3 term.  Branching on a symbolic
condition asks the solver which sides are feasible and the path is re-executed
for each feasible side.  ``Engine.check`` asks the solver for a value of the
inputs that follows the current path and falsifies a condition.
"""
from __future__ import annotations

import math
import os
import time
from fractions import Fraction

import z3

CUR = None  # the running Engine
FORKS = {} if os.environ.get("SX_FORKS") else None


def _fork_site():
    import traceback
    st = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in traceback.extract_stack()
          if "/sx/" not in f.filename and "multiprocessing" not in f.filename][-4:]
    k = " < ".join(reversed(st))
    FORKS[k] = FORKS.get(k, 0) + 1


class PathEnd(BaseException):
    """Ends the current path (assumption failed, budget spent)."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded decisions."""


class JobTimeout(BaseException):
    pass


def engine():
    return CUR


class Engine:
    def __init__(self, *, max_paths=4000, time_limit=60.0, solver_timeout_ms=4000):
        self.max_paths = max_paths
        self.deadline = time.monotonic() + time_limit
        self.solver_timeout_ms = solver_timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.pending = [[]]
        self.stats = {
            "paths": 0, "forks": 0, "queries": 0, "solver_s": 0.0, "unknown": 0,
            "checks": 0, "checks_solver": 0, "diverged": 0, "ended": 0,
        }
        self.incomplete = {}
        self.findings = []
        self.reached = {}

    # -- path lifecycle -------------------------------------------------
    def start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.fps = []
        self.solver.reset()
        self.facts = {}
        self.keep = []
        self.fresh = 0
        self.inputs = {}
        self.cache = {}
        self.path_incomplete = False
        self.concretised = False

    def explore(self, fn, reset):
        """Run fn once per feasible path."""
        global CUR
        CUR = self
        complete = True
        try:
            while self.pending:
                if self.stats["paths"] >= self.max_paths:
                    self.note("path-budget")
                    complete = False
                    break
                if time.monotonic() > self.deadline:
                    self.note("time-budget")
                    complete = False
                    break
                prefix = self.pending.pop()
                reset()
                self.start_path(prefix)
                self.stats["paths"] += 1
                try:
                    fn()
                except PathEnd:
                    self.stats["ended"] += 1
                except Diverged:
                    self.stats["diverged"] += 1
                    self.note("diverged")
                except JobTimeout:
                    self.note("time-budget")
                    complete = False
                    break
                except RecursionError as exc:
                    self.exception(exc)
                except Exception as exc:  # noqa: BLE001
                    self.exception(exc)
        finally:
            CUR = None
        return complete

    def exception(self, exc):
        """An exception escaped the harness: a candidate violation."""
        import traceback
        tb = traceback.extract_tb(exc.__traceback__)
        where = ""
        for fr in tb:
            if "fastkml" in fr.filename and "/sx/" not in fr.filename:
                where = f"{fr.filename.rsplit('/', 1)[-1]}:{fr.name}"
        self.stats["checks"] += 1
        last = "".join(traceback.format_exception(exc)[-6:])[-1800:]
        if not self.feasible():
            return
        self.record(f"unexpected exception {type(exc).__name__}", f"{type(exc).__name__} at {where}\n{last}", "exc")

    def feasible(self):
        r = self._solve(())
        return r != z3.unsat

    # -- solver ----------------------------------------------------------
    def _solve(self, assumptions):
        if time.monotonic() > self.deadline:
            raise JobTimeout
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.note("solver-unknown")
        return r

    def add(self, cond):
        self.solver.add(cond)

    def assume(self, cond):
        """Constrain the inputs; ends the path when that is impossible."""
        if isinstance(cond, SymBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise PathEnd
        self.solver.add(cond)
        if len(self.trace) >= len(self.prefix) and self._solve(()) == z3.unsat:
            raise PathEnd

    def define(self, cond):
        """Definitional constraint on a fresh variable (always satisfiable)."""
        self.solver.add(cond)

    def decide(self, cond):
        if cond is True or cond is False:
            return cond
        key = cond.get_id()
        hit = self.facts.get(key)
        if hit is not None:
            return hit
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        skey = s.get_id()
        hit = self.facts.get(skey)
        if hit is not None:
            return hit
        self.keep.append(cond)
        self.keep.append(s)
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, bool):
                raise Diverged
        else:
            if self._solve((s,)) == z3.unsat:
                d = False
            elif self._solve((z3.Not(s),)) == z3.unsat:
                d = True
            else:
                d = True
                self.stats["forks"] += 1
                if FORKS is not None:
                    _fork_site()
                self.pending.append(self.trace + [False])
        self.trace.append(d)
        self.solver.add(s if d else z3.Not(s))
        self.facts[key] = d
        self.facts[skey] = d
        return d

    def must(self, cond):
        """Does the condition hold for every value on this path?"""
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._solve((z3.Not(s),)) == z3.unsat

    def choose(self, n):
        """Unconstrained n-way choice."""
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if isinstance(d, bool) or not isinstance(d, int):
                raise Diverged
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.trace + [alt])
            self.stats["forks"] += n - 1
        self.trace.append(d)
        return d

    # -- results -----------------------------------------------------------
    def note(self, what):
        self.incomplete[what] = self.incomplete.get(what, 0) + 1

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def check(self, cond, label, detail=""):
        self.reach(label)
        self.stats["checks"] += 1
        if isinstance(cond, SymBool):
            c = z3.simplify(cond.t)
            if z3.is_true(c):
                return
            self.stats["checks_solver"] += 1
            r = self._solve((z3.Not(c),))
            if r == z3.sat:
                self.record(label, detail, "check", extra=z3.Not(c))
            if r == z3.unsat:
                self.solver.add(c)
            else:
                self.assume(c)
            return
        if cond:
            return
        self.stats["checks_solver"] += 1
        if self.feasible():
            self.record(label, detail, "check")

    def record(self, label, detail, kind, extra=None):
        r = self._solve((extra,) if extra is not None else ())
        if r != z3.sat:
            if r == z3.unknown:
                self.note("candidate-unknown")
            return
        model = self.solver.model()
        nice = []
        for v in self.inputs.values():
            nice.extend(v.nice())
        base = (extra,) if extra is not None else ()
        for k in range(3):
            if not nice:
                break
            part = [c for lvl, c in nice if lvl >= k]
            if part and self._solve((*base, *part)) == z3.sat:
                model = self.solver.model()
                break
        values = {k: v.concrete(model) for k, v in self.inputs.items()}
        self.findings.append({"label": label, "detail": str(detail)[:2000], "kind": kind,
                              "inputs": values, "concretised": self.concretised})

    # -- fresh names ---------------------------------------------------------
    def name(self, base):
        self.fresh += 1
        return f"{base}!{self.fresh}"

    def unsupported(self, why):
        self.note(f"unsupported: {why}")
        self.concretised = True

    # -- concretisation ---------------------------------------------------------
    def pick_value(self, term, candidates, limit=6):
        """Fork over a few concrete values of term (an under-approximation)."""
        for c in candidates[:limit]:
            if self.decide(term == c):
                return c
        r = self._solve(())
        if r != z3.sat:
            raise PathEnd
        v = self.solver.model().eval(term, model_completion=True)
        self.solver.add(term == v)
        return v

    def fix(self, term):
        """Some value of an integer term; the path keeps it."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = z3.IntVal(self.prefix_val(i))
        else:
            if self._solve(()) != z3.sat:
                raise PathEnd
            v = self.solver.model().eval(term, model_completion=True)
        self.trace.append(("v", v.as_long(), True))
        self.solver.add(term == v)
        return v.as_long()

    def enumerate_int(self, term, limit=16):
        """Exhaustive fork over the values of a small-domain integer term."""
        s = z3.simplify(term)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(limit):
            i = len(self.trace)
            if self._replaying(i):
                v = z3.IntVal(self.prefix_val(i))
            else:
                if self._solve(()) != z3.sat:
                    raise PathEnd
                v = self.solver.model().eval(term, model_completion=True)
            if self._decide_val(term, v):
                return v.as_long()
        self.unsupported("large integer domain")
        raise PathEnd

    def _replaying(self, i):
        return i < len(self.prefix)

    def prefix_val(self, i):
        d = self.prefix[i]
        if not isinstance(d, tuple):
            raise Diverged
        return d[1]

    def _decide_val(self, term, v):
        val = v.as_long()
        i = len(self.trace)
        cond = term == v
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, tuple):
                raise Diverged
            taken = d[2]
        else:
            taken = True
            if self._solve((z3.Not(cond),)) != z3.unsat:
                self.pending.append(self.trace + [("v", val, False)])
                self.stats["forks"] += 1
        self.trace.append(("v", val, taken))
        self.solver.add(cond if taken else z3.Not(cond))
        return taken


# ---------------------------------------------------------------------------
# symbolic values


class Sym:
    __slots__ = ()


def issym(x):
    return Sym in type(x).__mro__


def mkbool(t):
    """z3 Bool term -> Python bool when constant, SymBool otherwise."""
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def sand(*xs):
    ts = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ts.append(bterm(x))
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def sor(*xs):
    ts = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ts.append(bterm(x))
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def snot(x):
    if x is True:
        return False
    if x is False:
        return True
    return mkbool(z3.Not(bterm(x)))


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.decide(self.t)

    def _int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, SymBool):
            return mkbool(z3.simplify(self.t == o.t))
        if isinstance(o, bool):
            return mkbool(self.t if o else z3.Not(self.t))
        if isinstance(o, (int, float)):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sand(self, o)
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sor(self, o)
        return self._int() | o

    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


INTERESTING_INT = (0, 1, -1, 7, 255, 100000)
INTERESTING_FLOAT = (0.0, 1.5, -0.25, 1e-07, 123456789.12345679, -181.5, 1e22)


def fval(f):
    """RealVal of a finite Python float, exactly."""
    fr = Fraction(f)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(fr.numerator)


class _Num(Sym):
    __slots__ = ()

    @staticmethod
    def lift(o):
        """(z3 term, is_float) or None; concrete inf/nan give ('special', value)."""
        if isinstance(o, SymInt):
            return o.t, False
        if isinstance(o, SymFloat):
            return o.t, True
        if isinstance(o, SymBool):
            return z3.If(o.t, z3.IntVal(1), z3.IntVal(0)), False
        if isinstance(o, bool):
            return z3.IntVal(int(o)), False
        if isinstance(o, int):
            return z3.IntVal(o), False
        if isinstance(o, float):
            if math.isnan(o) or math.isinf(o):
                return "special", o
            return fval(o), True
        if isinstance(o, Fraction):
            return z3.RealVal(f"{o.numerator}/{o.denominator}"), True
        return None

    def _cmp(self, o, op):
        lo = self.lift(o)
        if lo is None:
            return NotImplemented
        a = self.t
        b, isf = lo
        if isinstance(b, str):
            v = isf
            if math.isnan(v):
                return op == "ne"
            pos = v > 0
            return {"eq": False, "ne": True, "lt": pos, "le": pos, "gt": not pos, "ge": not pos}[op]
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        elif z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        if a.eq(b):
            return op in ("eq", "le", "ge")
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b,
             "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]()
        return mkbool(z3.simplify(r))

    def __eq__(self, o):
        if self is o:
            return True
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if self is o:
            return False
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return CUR.decide(self.t != 0)

    def _arith(self, o, fn, refl=False):
        lo = self.lift(o)
        if lo is None:
            return NotImplemented
        a, b = self.t, lo[0]
        if isinstance(b, str):
            CUR.unsupported("arithmetic with inf/nan")
            c = self.concretise()
            return fn(lo[1], c) if refl else fn(c, lo[1])
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        elif z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        r = fn(b, a) if refl else fn(a, b)
        if z3.is_real(r):
            CUR.cache["real-arith"] = True
            return SymFloat(r)
        return SymInt(r)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return type(self)(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.t < 0, -self.t, self.t))

    def _div(self, o, refl):
        lo = self.lift(o)
        if lo is None:
            return NotImplemented
        if isinstance(lo[0], str):
            CUR.unsupported("division with inf/nan")
            c = self.concretise()
            return lo[1] / c if refl else c / lo[1]
        a, b = (lo[0], self.t) if refl else (self.t, lo[0])
        if CUR.decide(b == 0):
            raise ZeroDivisionError("division by zero")
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
        return SymFloat(a / b)

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __float__(self):
        CUR.unsupported("C-level float()")
        return float(self.concretise())

    def __int__(self):
        CUR.unsupported("C-level int()")
        return int(self.concretise())

    def __hash__(self):
        CUR.unsupported("hash of symbolic number")
        return hash(self.concretise())

    def __str__(self):
        CUR.unsupported("C-level str()")
        return str(self.concretise())

    def __format__(self, spec):
        CUR.unsupported("C-level format()")
        return format(self.concretise(), spec)


class SymInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return "<symint>"

    def concretise(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        v = CUR.pick_value(self.t, INTERESTING_INT)
        return v if isinstance(v, int) else v.as_long()

    def __index__(self):
        return CUR.enumerate_int(self.t)

    def __floordiv__(self, o):
        if isinstance(o, float):
            CUR.unsupported("float floor division")
            return self.concretise() // o
        lo = self.lift(o)
        if lo is None:
            return NotImplemented
        if not CUR.decide(lo[0] > 0):
            CUR.unsupported("floor division by non-positive")
            return self.concretise() // (o.concretise() if issym(o) else o)
        return SymInt(self.t / lo[0])

    def __mod__(self, o):
        if isinstance(o, float):
            CUR.unsupported("float modulo")
            return self.concretise() % o
        lo = self.lift(o)
        if lo is None:
            return NotImplemented
        if not CUR.decide(lo[0] > 0):
            CUR.unsupported("modulo by non-positive")
            return self.concretise() % (o.concretise() if issym(o) else o)
        return SymInt(self.t % lo[0])

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __and__(self, o):
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def bit_length(self):
        return self.concretise().bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self


class SymFloat(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return "<symfloat>"

    def concretise(self):
        s = z3.simplify(self.t)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        for c in INTERESTING_FLOAT:
            if CUR.decide(self.t == fval(c)):
                return c
        if CUR._solve(()) != z3.sat:
            raise PathEnd
        f = real_to_float(CUR.solver.model().eval(self.t, model_completion=True))
        CUR.solver.add(self.t == fval(f))
        if CUR._solve(()) == z3.unsat:
            raise PathEnd
        return f

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __floordiv__(self, o):
        return self.concretise() // o

    def __mod__(self, o):
        if isinstance(o, (int, float)) and not issym(o) and o > 0:
            k = z3.Int(CUR.name("mod"))
            d = _Num.lift(o)[0]
            d = z3.ToReal(d) if z3.is_int(d) else d
            r = self.t - z3.ToReal(k) * d
            CUR.define(z3.And(r >= 0, r < d))
            return SymFloat(r)
        CUR.unsupported("float modulo")
        return self.concretise() % o

    def __rmod__(self, o):
        return o % self.concretise()

    def __pow__(self, o):
        return self.concretise() ** o

    def __trunc__(self):
        return SymInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __round__(self, nd=None):
        from sx import models
        return models.m_round(self, nd)


def real_to_float(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    return float(v.approx(20).as_fraction())
