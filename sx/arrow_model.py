"""Stub of the arrow package: arrow.get(text).datetime.

* concrete text: the real arrow parser runs and its result is converted;
* text of symbolic characters that provably has the form
  YYYY-MM-DD[T ]HH:MM:SS[.f{1,6}][Z|+HH:MM|-HH:MM]: parsed exactly (fields in
  range, otherwise ValueError), offset-less text is UTC;
* symbolic text without four digits in a row: ParserError;
* symbolic text of less than seven digits and dashes, other than four digits:
  ParserError;
* any other symbolic text: an arbitrary outcome (ParserError or an arbitrary
  datetime), since arrow's tokenizer is not encoded.
"""
from __future__ import annotations

import types

import z3

from sx import core
from sx.symstr import DIGITS, CharSet, SymStr, cin, mkstr, parse_int

D = CharSet([(48, 57)])
DD = CharSet([(45, 45), (48, 57)])
dt = None       # the rewritten datetime module, set at boot
real = None     # the real arrow


class ParserError(ValueError):
    pass


class Arrow:
    def __init__(self, d):
        self.datetime = d


def conv_tz(tz, d):
    off = d.utcoffset()
    if off is None:
        return None
    if not off:
        return dt.timezone.utc
    return dt.timezone(dt.timedelta(days=off.days, seconds=off.seconds))


def from_real(d):
    return dt.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, conv_tz(d.tzinfo, d))


def _num(items):
    s = mkstr(items)
    return int(s) if not isinstance(s, SymStr) else parse_int(s)


def _must(it, cs):
    """True when the item provably is in cs on this path."""
    r = cin(it, cs)
    if r is True:
        return True
    if r is None or r is False:
        return False
    return core.CUR.must(r.t)


def _iso(items):
    """Field tuples when the text provably has the ISO shape, else None."""
    lits = {4: "-", 7: "-", 10: "T ", 13: ":", 16: ":"}
    if len(items) < 19:
        return None
    for i in range(19):
        if i in lits:
            if not (isinstance(items[i], int) and chr(items[i]) in lits[i]):
                return None
        elif not _must(items[i], D):
            return None
    pos = 19
    frac = ()
    if pos < len(items) and items[pos] == 46 if isinstance(items[pos] if pos < len(items) else None, int) else False:
        j = pos + 1
        while j < len(items) and _must(items[j], D):
            j += 1
        frac = items[pos + 1:j]
        if not 1 <= len(frac) <= 6:
            return None
        pos = j
    rest = items[pos:]
    if not rest:
        off = 0
    elif len(rest) == 1 and rest[0] == 90:
        off = 0
    elif len(rest) == 6 and rest[0] in (43, 45) and rest[3] == 58 and all(_must(rest[k], D) for k in (1, 2, 4, 5)):
        h, m = _num(rest[1:3]), _num(rest[4:6])
        off = (h * 60 + m) * (1 if rest[0] == 43 else -1)
    else:
        return None
    us = 0
    if frac:
        us = _num(frac) * 10 ** (6 - len(frac))
    f = [_num(items[a:b]) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
    return (*f, us, off)


def get(*args, **kw):
    if len(args) == 1 and not kw and isinstance(args[0], SymStr):
        s = args[0].expand()
        if isinstance(s, SymStr):
            f = _iso(s.items)
            if f is not None:
                y, mo, d, h, mi, sec, us, off = f
                if isinstance(off, core.SymInt):
                    core.CUR.unsupported("symbolic UTC offset")
                    off = off.concretise()
                if h == 24:
                    core.CUR.unsupported("arrow 24:00")
                    raise core.PathEnd
                if not (-1440 < off < 1440):
                    raise ParserError("offset")
                tz = dt.timezone.utc if off == 0 else dt.timezone(dt.timedelta(minutes=off))
                return Arrow(dt.datetime(y, mo, d, h, mi, sec, us, tz))
            return _other(s.items)
        args = (s,)
    if len(args) == 1 and not kw:
        try:
            return Arrow(from_real(real.get(args[0]).datetime))
        except real.parser.ParserError as exc:
            raise ParserError(str(exc)) from None
    core.CUR.unsupported("arrow.get with other arguments")
    raise core.PathEnd


def _other(items):
    """Every format arrow tries starts with a four digit year, so text without
    four digits in a row is rejected; anything else is arbitrary."""
    if len(items) < 7 and len(items) != 4 and all(_must(it, DD) for it in items):
        raise ParserError("digits and dashes, too few for a date")
    run = 0
    for it in items:
        run = run + 1 if bool(cin(it, DIGITS)) else 0
        if run == 4:
            return _arbitrary()
    raise ParserError("no year")


def _arbitrary():
    eng = core.CUR
    if eng.choose(2) == 0:
        raise ParserError("arbitrary")
    v = [z3.Int(eng.name("arw")) for _ in range(6)]
    lim = ((1, 9999), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59))
    for x, (a, b) in zip(v, lim):
        eng.define(z3.And(x >= a, x <= b))
    return Arrow(dt.datetime(*[core.SymInt(x) for x in v], tzinfo=dt.timezone.utc))


def module():
    m = types.ModuleType("arrow")
    m.get = get
    m.Arrow = Arrow
    m.ParserError = ParserError
    m.parser = types.SimpleNamespace(ParserError=ParserError)
    get.__module__ = "sx.arrow_model"
    return m
