"""Dates: text and value denote the same moment at the same resolution."""
import datetime

from harness import rec, util
from harness.spec import NS

RES = ("gYear", "gYearMonth", "date", "dateTime")
OFFSETS = (0, 60, -60, 330, -330, 765, 840, -720, 5, -5, 1439, -1439)


def kdt():
    return rec.fk("times").KmlDateTime


def fields(env, name, frac=None):
    y = env.integer(name + ".y", 1, 9999)
    m = env.integer(name + ".m", 1, 12)
    d = env.integer(name + ".d", 1, 31)
    env.assume(d <= rec.days_in(y, m))
    hh = env.integer(name + ".hh", 0, 23)
    mm = env.integer(name + ".mm", 0, 59)
    ss = env.integer(name + ".ss", 0, 59)
    us = env.integer(name + ".us", 1, 999999) if frac else 0
    return (y, m, d, hh, mm, ss, us)


def cut(f, res, off):
    """What a date with these fields means at a resolution."""
    if res == "gYear":
        return rec.Date(res, (f[0], 1, 1), None)
    if res == "gYearMonth":
        return rec.Date(res, (f[0], f[1], 1), None)
    if res == "date":
        return rec.Date(res, f[:3], None)
    return rec.Date(res, f, off)


def given(env, source, res, off, frac, flavour="lxml"):
    """A date or datetime given at a resolution (or none) is truncated to it,
    its text is the KML form, and the text reads back as the same value."""
    util.use(env, flavour)
    f = fields(env, "t", frac)
    if source == "date":
        value = datetime.date(*f[:3])
        eff = "date" if res in (None, "dateTime") else res
    else:
        value = datetime.datetime(*f, tzinfo=rec.tz_of(off))
        eff = "dateTime" if res is None else res
    want = cut(f, eff, off)
    obj = kdt()(value, rec.enum_member("DateTimeResolution", res)) if res else kdt()(value)
    what = f"{source} at {res}"
    out = []
    rec.diff_date(obj, want, "value", out)
    util.report(env, what, out)
    env.check(bool(obj), f"{what}: falsy")
    text = str(obj)
    env.check(rec.date_ok(text, want), f"{what}: text")
    back = kdt().parse(text)
    out = []
    rec.diff_date(back, want, "parsed", out)
    util.report(env, what, out)
    env.check(back == obj, f"{what}: parsed not equal")


def through(env, key, attr, res, off, frac, flavour="lxml"):
    """The same through an element of a document."""
    et = util.use(env, flavour)
    f = fields(env, "t", frac)
    want = cut(f, res, off)
    r = rec.Rec(key)
    r.val[attr] = want
    obj = rec.make(r)
    el = obj.etree_element()
    out = []
    rec.xml_diff(el, r, key, out)
    back = rec.cls_of(key).class_from_element(ns=NS[r.spec.ns], name_spaces=dict(NS), element=el, strict=True)
    rec.diff(back, r, key, out)
    util.report(env, "written", out)


def digits(env, name, n):
    return env.text(name, n, alphabet="0123456789")


def lexical(env, form, tail="", flavour="lxml"):
    """Text of every KML form, any digits: the value it denotes, or an error
    when there is no such date."""
    util.use(env, flavour)
    ty, tm, td = digits(env, "y", 4), None, None
    text = ty
    if form != "gYear":
        tm = digits(env, "m", 2)
        text = text + "-" + tm
    if form in ("date", "dateTime"):
        td = digits(env, "d", 2)
        text = text + "-" + td
    us = 0
    off = 0
    if form == "dateTime":
        th, ti, ts = digits(env, "hh", 2), digits(env, "mm", 2), digits(env, "ss", 2)
        env.assume(int(th) != 24)        # arrow reads 24:00 as the next day's midnight
        text = text + "T" + th + ":" + ti + ":" + ts
        if "." in tail:
            k = tail.count("f")
            tf = digits(env, "frac", k)
            text = text + "." + tf
            us = int(tf) * 10 ** (6 - k)
        zone = tail.lstrip(".f")
        text = text + zone
        if zone not in ("", "Z"):
            off = (int(zone[1:3]) * 60 + int(zone[4:6])) * (-1 if zone[0] == "-" else 1)
    y = int(ty)
    m = int(tm) if tm is not None else 1
    d = int(td) if td is not None else 1
    ok = y >= 1 and m >= 1 and m <= 12 and d >= 1
    if ok:
        ok = d <= rec.days_in(y, m)
    if ok and form == "dateTime":
        hh, mi, ss = int(th), int(ti), int(ts)
        ok = hh < 24 and mi < 60 and ss < 60
    try:
        got = kdt().parse(text)
    except ValueError:
        env.check(not ok, f"{form}{tail}: rejected a date")
        env.reach(f"{form}: rejected")
        return
    env.check(ok, f"{form}{tail}: accepted what is no date")
    if not ok:
        return
    env.reach(f"{form}: accepted")
    want = rec.Date(form, (y, m, d) if form != "dateTime" else (y, m, d, hh, mi, ss, us), off)
    out = []
    rec.diff_date(got, want, "value", out)
    util.report(env, f"{form}{tail}", out)


def loose(env, n, flavour="lxml"):
    """Any text of digits and dashes: with one, two, three or five digits it is
    no date, with four it is at most a year."""
    util.use(env, flavour)
    text = env.text("text", n, alphabet="0123456789-")
    count = 0
    for c in text:
        if c != "-":
            count = count + 1
    env.assume(count <= 6)
    try:
        got = kdt().parse(text)
    except ValueError:
        if n == 4:
            env.check(not (count == 4 and int(text) >= 1), "rejected a year")
        if n == 7 and count == 6 and text[4] == "-":
            env.check(int(text[:4]) < 1 or int(text[5:]) < 1 or int(text[5:]) > 12, "rejected a month")
        return
    env.check(count >= 4 and count != 5, "accepted what is no date")
    if count == 4:
        env.check(got.resolution.value == "gYear", "resolution of a year")
        env.check(text[:4] == str(got), "year")
    elif count == 6 and n == 7 and text[4] == "-":
        env.check(got.resolution.value == "gYearMonth", "resolution of a month")
        env.check(str(got) == text, "month")


def equality(env, a, b, flavour="lxml"):
    """Dates are equal exactly when moment and resolution are."""
    util.use(env, flavour)
    fa = (env.integer("a.y", 1, 9999), env.integer("a.m", 1, 12), env.integer("a.d", 1, 28), env.integer("a.h", 0, 23),
          env.integer("a.i", 0, 59), env.integer("a.s", 0, 59), 0)
    fb = (env.integer("b.y", 1, 9999), env.integer("b.m", 1, 12), env.integer("b.d", 1, 28), env.integer("b.h", 0, 23),
          env.integer("b.i", 0, 59), env.integer("b.s", 0, 59), 0)
    da, db = cut(fa, a, 0), cut(fb, b, 0)
    x, y = rec.make_date(da), rec.make_date(db)
    same = a == b
    if same:
        for i, j in zip(da.fields, db.fields):
            if i != j:
                same = False
    env.check((x == y) == same, f"{a} against {b}")
    env.check((y == x) == same, f"{b} against {a}")
    env.check((x != y) == (not same), f"{a} against {b}: !=")


def zones(env, a, b, flavour="lxml"):
    """Two moments of different zones are equal exactly when they are the same."""
    util.use(env, flavour)
    day = (env.integer("y", 2, 9998), env.integer("m", 1, 12), env.integer("d", 2, 27))
    fa = (*day, env.integer("a.h", 0, 23), env.integer("a.i", 0, 59), env.integer("a.s", 0, 59), 0)
    fb = (*day, env.integer("b.h", 0, 23), env.integer("b.i", 0, 59), env.integer("b.s", 0, 59), 0)
    x, y = rec.make_date(rec.Date("dateTime", fa, a)), rec.make_date(rec.Date("dateTime", fb, b))
    same = fa[3] * 60 + fa[4] - a == fb[3] * 60 + fb[4] - b and fa[5] == fb[5]
    env.check((x == y) == same, f"zones {a} and {b}")
    env.check((y == x) == same, f"zones {b} and {a}")
    env.check((x != y) == (not same), f"zones {a} and {b}: !=")
    env.check(x == kdt().parse(str(x)), f"zone {a}: parsed not equal")


def span(env, begin, end, flavour="lxml"):
    """Begin and end of a span keep their places."""
    util.use(env, flavour)
    r = rec.Rec("TimeSpan")
    if begin:
        r.val["begin"] = cut(fields(env, "b"), begin, 60)
    if end:
        r.val["end"] = cut(fields(env, "e"), end, -330)
    obj = rec.make(r)
    text = obj.to_string()
    back = rec.cls_of("TimeSpan").from_string(text)
    out = []
    rec.diff(back, r, "TimeSpan", out)
    util.report(env, f"span {begin} {end}", out)
