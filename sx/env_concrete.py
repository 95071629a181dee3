"""Replay environment: recorded values, the unmodified code, no engine."""
from __future__ import annotations


class Stop(BaseException):
    """An assumption of the harness does not hold for the recorded values."""


class Violated(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class ConcreteEnv:
    symbolic = False

    def __init__(self, values, params):
        self.values = values
        self.params = params
        self.failed = []

    def text(self, name, n, **kw):
        return self.values[name]

    def number(self, name, lo=0, hi=0, nonzero=False):
        return float(self.values[name])

    def integer(self, name, lo=0, hi=0):
        return int(self.values[name])

    def boolean(self, name):
        return bool(self.values[name])

    def pick(self, name, options):
        return list(options)[self.values[name]]

    def index(self, name, n):
        return self.values[name]

    def assume(self, cond):
        if not cond:
            raise Stop

    def check(self, cond, label, detail=""):
        if not cond:
            self.failed.append((label, str(detail)[:1500]))

    def fail(self, label, detail=""):
        self.failed.append((label, str(detail)[:1500]))

    def reach(self, label):
        pass
