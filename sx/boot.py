"""Loads the code under check (from /repo's working tree, rewritten) together
with the rewritten libraries it leans on and the models of the rest."""
from __future__ import annotations

import importlib
import logging
import os
import sys
import types

REPO = os.environ.get("FASTKML_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
LIBS = {}


def boot():
    logging.disable(logging.CRITICAL)
    if VENV not in sys.path:
        sys.path.append(VENV)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    import z3

    from sx import arrow_model, core, etree, models, rewrite
    from sx.core import SymInt, mkbool, sor, sand

    import arrow as real_arrow
    arrow_model.real = real_arrow

    stdlib = os.path.dirname(os.__file__)
    # datetime: the pure Python implementation of the standard library
    dt = rewrite.load_as("sx_datetime", os.path.join(stdlib, "_pydatetime.py"))

    def is_leap(year):
        if isinstance(year, SymInt):
            y = year.t
            return mkbool(z3.simplify(z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))))
        return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)

    def days_in_month(year, month):
        if isinstance(month, SymInt) or isinstance(year, SymInt):
            lp = is_leap(year)
            lp = z3.BoolVal(lp) if isinstance(lp, bool) and not core.issym(lp) else lp.t
            m = month.t if isinstance(month, SymInt) else z3.IntVal(month)
            feb = z3.If(lp, z3.IntVal(29), z3.IntVal(28))
            return SymInt(z3.simplify(z3.If(m == 2, feb, z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11),
                                                               z3.IntVal(30), z3.IntVal(31)))))
        return dt._DAYS_IN_MONTH[month] if month != 2 or not is_leap(year) else 29

    dt._is_leap = is_leap
    dt._days_in_month = days_in_month
    dt._get_class_module = lambda self: "datetime"
    dt.__dict__["_wrap_strftime"] = lambda obj, fmt, timetuple: strftime(obj, fmt)
    dt.date.__module__ = dt.datetime.__module__ = dt.timezone.__module__ = dt.timedelta.__module__ = "sx_datetime"

    def strftime(obj, fmt):
        """glibc strftime for the numeric directives (%Y is not padded)."""
        from sx.symstr import SymStr, sym_join
        if isinstance(fmt, SymStr):
            fmt = fmt.concretise()
        out, i = [], 0
        while i < len(fmt):
            c = fmt[i]
            if c != "%" or i + 1 == len(fmt):
                out.append(c)
                i += 1
                continue
            d = fmt[i + 1]
            i += 2
            if d == "Y":
                out.append(models.m_format(obj.year, "d"))
            elif d in "mdHMSf":
                v = {"m": lambda: obj.month, "d": lambda: obj.day, "H": lambda: getattr(obj, "hour", 0),
                     "M": lambda: getattr(obj, "minute", 0), "S": lambda: getattr(obj, "second", 0),
                     "f": lambda: getattr(obj, "microsecond", 0)}[d]()
                out.append(models.m_format(v, "06d" if d == "f" else "02d"))
            elif d == "%":
                out.append("%")
            elif d == "F":
                out.append(strftime(obj, "%Y-%m-%d"))
            elif d == "T":
                out.append(strftime(obj, "%H:%M:%S"))
            elif d == "y":
                out.append(models.m_format(obj.year % 100, "02d"))
            elif d == "z":
                off = obj.utcoffset() if hasattr(obj, "utcoffset") else None
                out.append("" if off is None else dt._format_offset(off, sep=""))
            else:
                core.CUR.unsupported(f"strftime %{d}")
                import datetime as rdt
                out.append(rdt.date(models.conc(obj.year), models.conc(obj.month), models.conc(obj.day)).strftime("%" + d))
        return sym_join("", out)

    arrow_model.dt = dt
    rewrite.IMPORT_MAP["datetime"] = dt
    rewrite.IMPORT_MAP["arrow"] = arrow_model.module()
    up = rewrite.load_as("sx_urllib_parse", os.path.join(stdlib, "urllib", "parse.py"))
    up.unquote, up.quote = unquoting(up.unquote), quoting(up.quote)
    rewrite.IMPORT_MAP["urllib.parse"] = up
    lx, st = etree.make("lxml"), etree.make("std")
    LIBS.update(lxml=lx, std=st)
    rewrite.IMPORT_MAP["lxml.etree"] = lx
    lxml = types.ModuleType("lxml")
    lxml.etree = lx
    rewrite.IMPORT_MAP["lxml"] = lxml
    rewrite.IMPORT_MAP["xml.etree.ElementTree"] = st
    rewrite.install({"fastkml": REPO, "pygeoif": VENV, "harness": HERE})
    for m in [m for m in sys.modules if m.split(".")[0] in ("fastkml", "pygeoif", "harness")]:
        del sys.modules[m]
    fk = importlib.import_module("fastkml")
    pkg = os.path.join(REPO, "fastkml")
    for f in sorted(os.listdir(pkg)):
        if f.endswith(".py") and f not in ("__init__.py",):
            importlib.import_module("fastkml." + f[:-3])
    return types.SimpleNamespace(fastkml=fk, lxml=lx, std=st, dt=dt)


HEX = "0123456789abcdefABCDEF"


def unquoting(real):
    """urllib.parse.unquote of symbolic text: every '%' is decided, and so are
    the two digits after it; bytes above 7F are left to the real function."""
    from sx import core, symstr

    def unquote(string, encoding="utf-8", errors="replace"):
        if not isinstance(string, symstr.SymStr):
            return real(string, encoding, errors)
        out, i, n = [], 0, len(string)
        while i < n:
            c = string[i]
            if i + 2 < n and c == "%":
                v = 0
                for d in string[i + 1:i + 3]:
                    k = next((k for k, h in enumerate(HEX) if d == h), None)
                    v = None if k is None or v is None else v * 16 + (k if k < 16 else k - 6)
                if v is not None and v > 127:
                    core.CUR.unsupported("unquote above 7F")
                    return real(string.concretise(), encoding, errors)
                if v is not None:
                    out.append(chr(v))
                    i += 3
                    continue
            out.append(c)
            i += 1
        return symstr.sym_join("", out)
    return unquote


def quoting(real):
    """urllib.parse.quote of symbolic text: ASCII characters are kept or
    escaped, others are left to the real function."""
    from sx import core, symstr

    def quote(string, safe="/", encoding=None, errors=None):
        if not isinstance(string, symstr.SymStr):
            return real(string, safe, encoding, errors)
        keep = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~" + safe
        out = []
        for c in string:
            if c in keep:
                out.append(c)
                continue
            k = next((k for k in range(128) if c == chr(k)), None)
            if k is None:
                core.CUR.unsupported("quote above 7F")
                return real(string.concretise(), safe, encoding, errors)
            out.append("%%%02X" % k)
        return symstr.sym_join("", out)
    return quote


# ---------------------------------------------------------------------------
# module state, restored before every path

class State:
    """Snapshot of the mutable module and class state of the loaded code."""

    def __init__(self, prefixes=("fastkml", "pygeoif", "sx_urllib_parse")):
        self.saved = []
        self.lru = []
        self.attrs = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] not in prefixes or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__") or k.startswith("__sx"):
                    continue
                self.attrs.append((mod, k, v))
                self._add(v, seen)
        self.names = {}

    def _add(self, v, seen, depth=0):
        if id(v) in seen or depth > 4:
            return
        t = type(v)
        if t in (dict, list, set):
            seen.add(id(v))
            self.saved.append((v, v.copy()))
            for x in (v.values() if t is dict else v):
                if type(x) in (dict, list, set):
                    self._add(x, seen, depth + 1)
        elif hasattr(v, "cache_clear"):
            seen.add(id(v))
            self.lru.append(v)
        elif isinstance(v, types.FunctionType):
            seen.add(id(v))
            if not (v.__module__ or "").startswith(("fastkml", "pygeoif")):
                return
            for d in (v.__defaults__ or ()):
                self._add(d, seen, depth + 1)
            for d in (v.__kwdefaults__ or {}).values():
                self._add(d, seen, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    self._add(c.cell_contents, seen, depth + 1)
                except ValueError:
                    pass
            if v.__dict__:
                self._add(v.__dict__, seen, depth + 1)
        elif isinstance(v, (classmethod, staticmethod)):
            self._add(v.__func__, seen, depth + 1)
        elif isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._add(f, seen, depth + 1)
        elif isinstance(v, type):
            if (v.__module__ or "").split(".")[0] not in ("fastkml", "pygeoif"):
                return
            seen.add(id(v))
            for k, x in list(vars(v).items()):
                if k in ("__dict__", "__weakref__", "__doc__"):
                    continue
                if not k.startswith("__") and not isinstance(x, (types.FunctionType, classmethod, staticmethod, property)):
                    import enum
                    if not isinstance(v, enum.EnumMeta):
                        self.attrs.append((v, k, x))
                self._add(x, seen, depth + 1)
        elif t.__module__.split(".")[0] in ("fastkml",) and hasattr(v, "__dict__"):
            seen.add(id(v))
            self._add(v.__dict__, seen, depth + 1)

    def restore(self):
        for obj, copy in self.saved:
            if type(obj) is dict:
                if len(obj) != len(copy) or any(a is not b for a, b in zip(obj, copy)) or any(
                        a is not b for a, b in zip(obj.values(), copy.values())):
                    obj.clear()
                    obj.update(copy)
            elif type(obj) is list:
                if len(obj) != len(copy) or any(a is not b for a, b in zip(obj, copy)):
                    obj[:] = copy
            elif len(obj) != len(copy) or any(a is not b for a, b in zip(obj, copy)):
                obj.clear()
                obj.update(copy)
        for f in self.lru:
            f.cache_clear()
        for o, k, v in self.attrs:
            if vars(o).get(k, self) is not v:
                setattr(o, k, v)
