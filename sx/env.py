"""Inputs of a harness.  SymEnv makes them symbolic; ConcreteEnv (env_concrete)
feeds recorded values to the same harness on the unmodified code."""
from __future__ import annotations

import z3

from sx import core
from sx.core import SymBool, SymFloat, SymInt
from sx.symstr import SymStr, WS_RANGES, eval_sym, in_ranges, mkstr

LO, HI = 0x20, 0xD7FF


def ranges_of(chars):
    out = []
    for c in sorted(set(map(ord, chars))):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


class _In:
    def __init__(self, value, nice=()):
        self.value = value
        self._nice = nice

    def concrete(self, model):
        return eval_sym(self.value, model)

    def nice(self):
        return self._nice


class _Text(_In):
    def concrete(self, model):
        return eval_sym(self.value, model) if isinstance(self.value, SymStr) else self.value


class SymEnv:
    symbolic = True

    def __init__(self, eng, params):
        self.eng = eng
        self.params = params

    # -- inputs ---------------------------------------------------------
    def _reg(self, name, v):
        assert name not in self.eng.inputs, f"duplicate input {name}"
        self.eng.inputs[name] = v

    def text(self, name, n, *, strip=False, alphabet=None, pre="", post="", ascii=False):
        """n symbolic characters between two constant parts."""
        its, nice = [], []
        for i in range(n):
            t = z3.Int(f"{name}.{i}")
            if alphabet is not None:
                self.eng.define(in_ranges(t, ranges_of(alphabet)))
            else:
                hi = 0x7E if ascii else HI
                self.eng.define(z3.Or(z3.And(t >= LO, t <= hi), t == 9, t == 10))
                nice.append((0, z3.And(t >= 97, t <= 122)))
                nice.append((1, z3.And(t >= 33, t <= 126)))
            its.append(t)
        if strip and n:
            for t in {0: its[0], 1: its[-1]}.values():
                self.eng.define(z3.Not(in_ranges(t, WS_RANGES)))
        v = mkstr(tuple(map(ord, pre)) + tuple(its) + tuple(map(ord, post)))
        self._reg(name, _Text(v, nice))
        return v

    def number(self, name, lo=-10 ** 300, hi=10 ** 300, nonzero=False):
        t = z3.Real(name)
        self.eng.define(z3.And(t >= lo, t <= hi))
        if nonzero:
            self.eng.define(t != 0)
        k = z3.Int(name + ".k")
        nice = [(0, z3.And(t == z3.ToReal(k) / 4, t < 100, t > -100)), (2, t * 65536 == z3.ToReal(k))]
        nice[0] = (0, nice[0][1])
        v = SymFloat(t)
        self._reg(name, _In(v, [(0, z3.And(t * 4 == z3.ToReal(k), t < 100, t > -100)),
                                (1, z3.And(t * 1024 == z3.ToReal(k), t < 10 ** 9, t > -10 ** 9))]))
        return v

    def integer(self, name, lo=-10 ** 9, hi=10 ** 9):
        t = z3.Int(name)
        self.eng.define(z3.And(t >= lo, t <= hi))
        v = SymInt(t)
        self._reg(name, _In(v, [(0, z3.And(t < 100, t > -100))]))
        return v

    def boolean(self, name):
        v = SymBool(z3.Bool(name))
        self._reg(name, _In(v))
        return v

    def pick(self, name, options):
        """One of the options: a fork."""
        options = list(options)
        i = self.eng.choose(len(options))
        self._reg(name, _In(i))
        return options[i]

    def index(self, name, n):
        i = self.eng.choose(n)
        self._reg(name, _In(i))
        return i

    # -- control ----------------------------------------------------------
    def assume(self, cond):
        self.eng.assume(cond if isinstance(cond, SymBool) else bool(cond))

    def check(self, cond, label, detail=""):
        self.eng.check(cond, label, detail)

    def fail(self, label, detail=""):
        self.eng.check(False, label, detail)

    def reach(self, label):
        self.eng.reach(label)
