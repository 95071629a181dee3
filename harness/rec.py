"""Records: plain descriptions of KML objects, from which a harness builds the
real object, the expected XML, or an XML tree to read; and against which it
compares what the code produced."""
import datetime
import importlib

import pygeoif.geometry as geo

from harness.spec import ENUMS, NS, SEA_FLOOR, SPEC

TYPES = {"A": str, "T": str, "N": str, "B": bool, "I": int, "IA": int, "F": float, "FA": float}


class Rec:
    def __init__(self, key):
        self.key = key
        self.spec = SPEC[key]
        self.val = {}

    def __getitem__(self, a):
        return self.val[a]


class Date:
    """A date of one of the four KML resolutions."""

    def __init__(self, res, fields, off):
        self.res = res
        self.fields = fields
        self.off = off      # minutes, None for a date


class Item:
    """One track item."""

    def __init__(self, when, coord, angle):
        self.when = when
        self.coord = coord
        self.angle = angle


def fk(module):
    return importlib.import_module("fastkml." + module)


def cls_of(key):
    s = SPEC[key]
    return getattr(fk(s.module), s.name)


def enum_member(name, value):
    for m in getattr(fk("enums"), name):
        if m.value == value:
            return m
    raise LookupError(f"{name} has no member {value}")


# ---------------------------------------------------------------------------
# symbolic records

def gen(env, key, path, attrs, rich=(), n=2, plain=None):
    """Record of class key with the given fields set: attrs maps field name to
    the class (X) or classes (L) chosen for it, or True.  Values of a plain
    record stay away from the defaults (numbers >= 1000, booleans true)."""
    if "=text" in attrs:
        return gen_text(env, key, path, attrs["=text"])
    if "=bulk" in attrs:
        return gen_bulk(env, key, path, attrs["=bulk"])
    r = Rec(key)
    r.plain = len(attrs) > 3 if plain is None else plain
    for fl in r.spec.fields:
        if fl.attr in attrs:
            how = "edge" if "edge" in rich else "deep" if "deep" in rich and fl.kind in ("X", "L") else fl.attr in rich
            r.val[fl.attr] = gen_value(env, r, fl, f"{path}.{fl.attr}", attrs[fl.attr], how, n)
    return r


def gen_value(env, r, fl, path, how, rich, n):
    k = fl.kind
    if k in ("T", "A", "N"):
        return env.text(path, n, strip=True)
    if k == "B":
        return True if r.plain else env.boolean(path)
    if k in ("I", "IA"):
        return env.integer(path, 1000) if r.plain else env.integer(path)
    if k in ("F", "FA"):
        return env.number(path, 1000) if r.plain else env.number(path)
    if k in ("E", "EA"):
        members = ENUMS[fl.arg]
        return env.pick(path, members) if rich else members[1]
    if k == "D":
        return gen_date(env, path, rich)
    if k == "C":
        return gen_coords(env, path, r.key, rich)
    if k == "TR":
        return gen_items(env, path, rich)
    if k == "X":
        return gen_child(env, fl.arg[0] if how is True else how, path, rich)
    names = (fl.arg[0],) if how is True else how
    return [gen_child(env, nm, f"{path}.{i}", rich if len(names) == 1 else False) for i, nm in enumerate(names)]


def gen_child(env, key, path, rich):
    s = SPEC[key]
    if rich == "edge":
        # only what the child needs to be written, over the full range of values
        return gen(env, key, path, {a: True for a in (s.req[:1] if s.any_of else s.req)}, plain=False)
    if rich == "deep":
        return gen(env, key, path, {f.attr: True for f in s.fields}, tuple(f.attr for f in s.fields if f.kind in ("X", "L")),
                   plain=True)
    if rich:
        attrs = {f.attr: True for f in s.fields if f.kind not in ("X", "L") or f.attr in s.req}
    else:
        attrs = {a: True for a in (s.req[:1] if s.any_of else s.req)}
    return gen(env, key, path, attrs, plain=True)


# texts around one to four arbitrary characters
FORMS = (("", 4, ""), ("x" * 300, 1, "y" * 300), ("&", 1, "amp;"), ("<b>", 1, "</b>"), ("<![CDATA[", 1, "]]>"), ("a ", 1, " b"),
         ("a\n\n", 1, "\t\tb"), ("Non", 1, ""), ("tru", 1, ""), ("00", 1, "0"), ("-", 1, ".50"), ("{", 1, "}"), ("%", 1, "s"),
         ("\"", 1, "'"), ("\\", 1, "n"), ("AbC", 1, "Zz"), ("http://h/p?a=", 1, "&b=c#d e"), ("\u00e9\u0130", 1, "\U0001f600"),
         ("#", 2, ""), ("$[", 1, "]"), ("ff", 1, "FF00"), ("../", 1, "\\x.png"))


def needed(key):
    s = SPEC[key]
    return s.req[:1] if s.any_of else s.req


def gen_text(env, key, path, attr):
    """One text field holding text of every form."""
    base = {a: True for a in needed(key)}
    base.pop(attr, None)
    if key == "Schema" and attr != "id":
        base["id"] = True
    dates = [a for a in base if SPEC[key].field(a).kind == "D"]
    r = gen(env, key, path, {a: True for a in base if a not in dates}, plain=True)
    for a in dates:
        r.val[a] = Date("date", (2020, 5, 17), None)
    pre, n, post = FORMS[env.index(f"{path}.{attr}.form", len(FORMS))]
    r.val[attr] = env.text(f"{path}.{attr}", n, strip=True, pre=pre, post=post)
    r.val = {f.attr: r.val[f.attr] for f in r.spec.fields if f.attr in r.val}
    return r


def gen_bulk(env, key, path, what):
    """Larger objects: many members, deep nesting, many points."""
    kind, arg = what
    r = Rec(key)
    r.plain = True
    if kind == "points":
        n, d = arg
        r.val["coords"] = points(env, path, n, d)
    elif kind == "line":
        c = Rec("Coordinates")
        c.val["coords"] = points(env, path, *arg)
        r.val["kml_coordinates"] = c
    elif kind == "items":
        r.val["track_items"] = bulk_items(env, path, arg)
    elif kind == "tracks":
        r.val["tracks"] = []
        for i, n in enumerate(arg):
            t = Rec("Track")
            t.val["track_items"] = bulk_items(env, f"{path}.{i}", n)
            r.val["tracks"].append(t)
    elif kind == "holes":
        r.val["outer_boundary"] = gen_child(env, "OuterBoundaryIs", f"{path}.outer", False)
        r.val["inner_boundaries"] = [gen_child(env, "InnerBoundaryIs", f"{path}.{i}", False) for i in range(arg)]
    elif kind == "nest":
        attr, chain, leaf = arg
        at = r
        for i, k in enumerate(chain):
            kid = gen(env, k, f"{path}.{i}", {"id": True}, plain=True)
            side = gen_child(env, leaf, f"{path}.{i}.side", False)
            at.val[attr] = [kid, side] if i % 2 else [side, kid]
            at = kid
        at.val[attr] = [gen_child(env, leaf, f"{path}.last", False)]
    else:
        raise LookupError(kind)
    r.val = {f.attr: r.val[f.attr] for f in r.spec.fields if f.attr in r.val}
    return r


def points(env, path, n, d):
    """The first, middle and last point are arbitrary, the others constant."""
    free = {0, 1, n // 2, n - 1}
    return [tuple(env.number(f"{path}.{i}{c}", *((1000 + 10 * i, 1009 + 10 * i) if c == "x" else (-400, 400)))
                  if i in free else float(i * 4 + j) / 8 for j, c in enumerate("xyz"[:d]))
            for i in range(n)]


def bulk_items(env, path, n):
    out = []
    for i in range(n):
        free = i in (0, 1, n - 1)
        p = f"{path}.{i}"
        when = Date("dateTime", (env.integer(p + ".year", 1, 9999) if free else 1990 + i, 2, 3, 4, 5, 6, 0), 0)
        coord = tuple(env.number(f"{p}.{c}", *((1000 + 10 * i, 1009 + 10 * i) if c == "x" else (-400, 400))) if free else 0.25 + i
                      for c in "xyz")
        angle = tuple(env.number(f"{p}.a{j}", -400, 400) if free else 1.5 + i + j for j in range(3)) if i % 3 != 2 else (0.0, 0.0, 0.0)
        out.append(Item(when, coord, angle))
    return out


BULK = {
    "Coordinates": (("points", (25, 2)), ("points", (150, 3))),
    "LineString": (("line", (12, 3)), ("line", (120, 2))),
    "Track": (("items", 9), ("items", 70)),
    "MultiTrack": (("tracks", (2, 1, 3)), ("tracks", (1, 1, 1, 1, 1, 1))),
    "Polygon": (("holes", 3), ("holes", 6)),
    "KML": (("nest", ("features", ("Document", "Folder", "Folder", "Document", "Folder"), "Placemark")),),
    "Document": (("nest", ("features", ("Folder", "Folder", "Document", "Folder", "Folder", "Folder"), "Placemark")),),
    "Folder": (("nest", ("features", ("Folder",) * 8, "Placemark")), ("nest", ("features", ("Document", "Folder"), "GroundOverlay"))),
    "MultiGeometry": (("nest", ("kml_geometries", ("MultiGeometry",) * 4, "Point")),
                      ("nest", ("kml_geometries", ("MultiGeometry",) * 2, "Polygon"))),
}


def bulk_shapes(key):
    """Selections of larger objects."""
    s = SPEC[key]
    base = {"id": True} if key == "Schema" else {}
    out = [({"=bulk": w}, ()) for w in BULK.get(key, ())]
    for f in s.fields:
        if f.kind == "X":
            for nm in f.arg:
                if any(g.kind in ("X", "L") for g in SPEC[nm].fields):
                    out.append(({**base, f.attr: nm}, ("deep",)))
        if f.kind == "L":
            for nm in f.arg:
                if any(g.kind in ("X", "L") for g in SPEC[nm].fields):
                    out.append(({**base, f.attr: (nm,)}, ("deep",)))
            need = {**base, **({"outer_boundary": True} if key == "Polygon" else {})}
            for nm in f.arg:
                out.append(({**need, f.attr: (nm,) * 5}, ()))
            out.append(({**need, f.attr: (f.arg[0],) * 40}, ()))
            if len(f.arg) > 1:
                out.append(({**need, f.attr: (*f.arg, *f.arg)}, ()))
                out.append(({**need, f.attr: (*f.arg[::-1], *f.arg[::-1], *f.arg)}, ()))
    return out


def text_shapes(key):
    return [({"=text": f.attr}, ()) for f in SPEC[key].fields if f.kind in ("T", "A", "N")]


def gen_date(env, path, rich):
    res = env.pick(path + ".res", ("gYear", "gYearMonth", "date", "dateTime")) if rich else "date"
    y = env.integer(path + ".y", 1, 9999)
    m = env.integer(path + ".m", 1, 12) if res != "gYear" else 1
    d = env.integer(path + ".d", 1, 31 if rich else 28) if res in ("date", "dateTime") else 1
    if rich and res in ("date", "dateTime"):
        env.assume(d <= days_in(y, m))
    if res != "dateTime":
        return Date(res, (y, m, d), None)
    hh = env.integer(path + ".hh", 0, 23)
    mm = env.integer(path + ".mm", 0, 59)
    ss = env.integer(path + ".ss", 0, 59)
    us = env.integer(path + ".us", 1, 999999) if env.pick(path + ".frac", (False, True)) else 0
    off = env.pick(path + ".off", (0, 60, -330, 840, -720))
    return Date(res, (y, m, d, hh, mm, ss, us), off)


def days_in(y, m):
    if m == 2:
        if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0):
            return 29
        return 28
    return 30 if m in (4, 6, 9, 11) else 31


def gen_coords(env, path, key, rich):
    if key == "Coordinates1":
        n, d = 1, env.pick(path + ".dim", (2, 3)) if rich else 2
    elif key == "CoordinatesR":
        n, d = 3, 2
    elif rich:
        n, d = env.pick(path + ".n", (1, 2, 3)), env.pick(path + ".dim", (2, 3))
    else:
        n, d = 2, 3
    # points that are not rich are pairwise distinct
    pts = [tuple(env.number(f"{path}.{i}{c}", -400, 400) if c == "y" or (c == "x" and rich) else
                 env.number(f"{path}.{i}{c}", 40 * i, 40 * i + 39) if c == "x" else env.number(f"{path}.{i}{c}")
                 for c in "xyz"[:d]) for i in range(n)]
    if key == "CoordinatesR":
        pts.append(pts[0])
    return pts


def gen_items(env, path, rich):
    out = []
    n = env.pick(path + ".n", (1, 2)) if rich else 1
    d = env.pick(path + ".dim", (2, 3)) if rich else 3
    ang = env.pick(path + ".angles", (True, False)) if rich else True
    for i in range(n):
        p = f"{path}.{i}"
        when = Date("dateTime", (env.integer(p + ".year", 1, 9999), 2, env.integer(p + ".day", 1, 28),
                                 env.integer(p + ".hour", 0, 23), 5, 6, 0), 0)
        coord = tuple(env.number(f"{p}.{c}", -400, 400) for c in "xyz"[:d])
        angle = tuple(env.number(f"{p}.a{j}", -400, 400) for j in range(3)) if ang else None
        out.append(Item(when, coord, angle))
    return out


# ---------------------------------------------------------------------------
# real objects

def make(r, **extra):
    kw = {a: make_value(r.spec.field(a), v) for a, v in r.val.items()}
    return cls_of(r.key)(**kw, **extra)


def make_value(fl, v):
    k = fl.kind
    if k in ("E", "EA"):
        return enum_member(fl.arg, v)
    if k == "D":
        return make_date(v)
    if k == "TR":
        return [make_item(i) for i in v]
    if k == "X":
        return make(v)
    if k == "L":
        return [make(x) for x in v]
    if k == "C":
        return list(v)
    return v


def tz_of(off):
    if off == 0:
        return datetime.timezone.utc
    return datetime.timezone(datetime.timedelta(minutes=off))


def make_dt(d):
    if d.res == "dateTime":
        return datetime.datetime(*d.fields, tzinfo=tz_of(d.off))
    return datetime.date(*d.fields)


def make_date(d):
    return fk("times").KmlDateTime(make_dt(d), enum_member("DateTimeResolution", d.res))


def make_item(i, bare=False):
    """bare: an item without orientation holds none, else a zero one."""
    gx = fk("gx")
    angle = gx.Angle(*i.angle) if i.angle is not None else None if bare else gx.Angle()
    return gx.TrackItem(when=make_date(i.when), coord=geo.Point(*i.coord), angle=angle)


# ---------------------------------------------------------------------------
# comparison of an object with a record

def diff(obj, r, path, out, skip=()):
    """Append (where, condition that the values agree) for every field."""
    c = cls_of(r.key)
    out.append((path, type(obj) is c))
    if type(obj) is not c:
        return
    for fl in r.spec.fields:
        if fl.attr in skip:
            continue
        got = getattr(obj, fl.attr)
        p = f"{path}.{fl.attr}"
        if fl.attr in r.val:
            diff_value(got, fl, r.val[fl.attr], p, out)
        else:
            out.append((p, is_unset(got)))


def is_unset(v):
    if v is None:
        return True
    if isinstance(v, (str, list, tuple)):
        return len(v) == 0
    return False


def diff_value(got, fl, want, p, out):
    k = fl.kind
    if k in ("E", "EA"):
        m = enum_member(fl.arg, want)
        out.append((p, got is m))
    elif k == "D":
        diff_date(got, want, p, out)
    elif k == "TR":
        out.append((p, len(got) == len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            diff_date(g.when, w.when, f"{p}.{i}.when", out)
            tuple_diff(g.coord.coords[0], w.coord, f"{p}.{i}.coord", out)
            a = w.angle if w.angle is not None else (0.0, 0.0, 0.0)
            if g.angle is None:
                out.append((f"{p}.{i}.angle", False))
            else:
                tuple_diff((g.angle.heading, g.angle.tilt, g.angle.roll), a, f"{p}.{i}.angle", out)
    elif k == "X":
        if got is None:
            out.append((p, False))
        else:
            diff(got, want, p, out)
    elif k == "L":
        # the library reads mixed lists class by class: order is judged within a class
        out.append((p + ".len", len(got) == len(want)))
        for key in dict.fromkeys(w.key for w in want):
            c = cls_of(key)
            ws = [w for w in want if w.key == key]
            gs = [g for g in got if type(g) is c]
            out.append((f"{p}.len.{key}", len(gs) == len(ws)))
            for i, (g, w) in enumerate(zip(gs, ws)):
                diff(g, w, f"{p}.{key}{i}", out)
    elif k == "C":
        out.append((p + ".len", len(got) == len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            tuple_diff(g, w, f"{p}.{i}", out)
    else:
        t = TYPES[k]
        out.append((p + ".type", isinstance(got, t) and (t is bool or not isinstance(got, bool))))
        if got is None or not isinstance(got, t):
            return
        out.append((p, got == want))


def tuple_diff(g, w, p, out):
    out.append((p + ".len", len(g) == len(w)))
    for i, (a, b) in enumerate(zip(g, w)):
        out.append((f"{p}.{i}", a == b))


def mixed(r):
    """Does the record hold a list of more than one class?"""
    for v in r.val.values():
        if isinstance(v, Rec):
            if mixed(v):
                return True
        elif isinstance(v, list) and v and isinstance(v[0], Rec):
            if len({x.key for x in v}) > 1 or any(mixed(x) for x in v):
                return True
    return False


def same_tuple(g, w, precision=None):
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if precision is None:
            if not (a == b):
                return False
        elif not rounded(a, b, precision):
            return False
    return True


def rounded(a, b, precision):
    """Is a the number b rounded to the given number of decimals?"""
    tol = 0.5000001 * 10 ** -precision + 1e-9
    if not (a - b <= tol and b - a <= tol):
        return False
    k = a * 10 ** precision
    e = k - round(k)
    return e <= 1e-4 and -e <= 1e-4


def diff_date(got, want, p, out):
    if got is None:
        out.append((p, False))
        return
    out.append((p + ".resolution", got.resolution.value == want.res))
    isdt = isinstance(got.dt, datetime.datetime)
    out.append((p + ".type", isdt == (want.res == "dateTime")))
    if isdt != (want.res == "dateTime"):
        return
    g = got.dt
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    for nm, w in zip(names, want.fields):
        out.append((f"{p}.{nm}", getattr(g, nm) == w))
    if isdt:
        off = g.utcoffset()
        out.append((p + ".offset", off is not None and off == datetime.timedelta(minutes=want.off)))


# ---------------------------------------------------------------------------
# XML

def ns_of(r, nsmap):
    return nsmap[r.spec.ns]


def parts(r, nsmap=NS):
    """(attributes, text, children) the XML of a record consists of.

    children: list of (qualified tag, kind, value)."""
    attrs, text, kids = {}, None, []
    ns = nsmap[r.spec.ns]
    for fl in r.spec.fields:
        if fl.attr not in r.val:
            continue
        v = r.val[fl.attr]
        k = fl.kind
        if k in ("A", "IA", "FA", "EA"):
            attrs[fl.node] = (k, v)
        elif k == "N":
            text = ("T", v)
        elif k == "C":
            text = ("C", v)
        elif k == "X":
            kids.append((nsmap[SPEC[v.key].ns] + SPEC[v.key].tag, k, v))
        elif k == "L":
            kids.extend((nsmap[SPEC[x.key].ns] + SPEC[x.key].tag, "X", x) for x in v)
        elif k == "TR":
            kids.extend((nsmap["kml"] + "when", "D", i.when) for i in v)
            kids.extend((nsmap["gx"] + "coord", "TC", i.coord) for i in v)
            kids.extend((nsmap["gx"] + "angles", "TC", i.angle if i.angle is not None else (0.0, 0.0, 0.0)) for i in v)
        elif k == "E":
            own = ns
            if fl.arg == "AltitudeMode":
                own = nsmap["gx"] if v in SEA_FLOOR else nsmap["kml"]
            kids.append((own + fl.node, k, v))
        elif k == "D":
            kids.append((nsmap["kml"] + fl.node, k, v))
        else:
            kids.append((ns + fl.node, k, v))
    return attrs, text, kids


def two(n):
    return f"{n:02d}"


def date_text(d):
    f = d.fields
    s = f"{f[0]:04d}"
    if d.res == "gYear":
        return s
    s = s + "-" + two(f[1])
    if d.res == "gYearMonth":
        return s
    s = s + "-" + two(f[2])
    if d.res == "date":
        return s
    s = s + "T" + two(f[3]) + ":" + two(f[4]) + ":" + two(f[5])
    if len(f) > 6 and not (isinstance(f[6], int) and f[6] == 0):
        s = s + "." + f"{f[6]:06d}"
    if d.off == 0:
        return s + "+00:00"
    a = d.off if d.off > 0 else -d.off
    return s + ("+" if d.off > 0 else "-") + f"{a // 60:02d}:{a % 60:02d}"


def scalar_text(k, v):
    if k == "B":
        return "1" if v else "0"
    if k in ("T", "A", "E", "EA", "N"):
        return v
    if k == "D":
        return date_text(v)
    if k == "C":
        return " ".join(",".join(str(c) for c in p) for p in v)
    if k == "TC":
        return " ".join(str(c) for c in v)
    return str(v)


def build(etree, r, nsmap=NS, order=None, junk=None, pad="", cut=None):
    """An element for the record; order permutes the children, junk is called
    with the element after its children are in place, cut with every element
    that holds text and the kind of it."""
    el = etree.Element(nsmap[r.spec.ns] + r.spec.tag)
    attrs, text, kids = parts(r, nsmap)
    for a, (k, v) in attrs.items():
        el.set(a, scalar_text(k, v))
    if text is not None:
        el.text = pad + scalar_text(*text) + pad
        if cut is not None:
            cut(el, text[0])
    idx = list(range(len(kids)))
    if order is not None:
        idx = order(idx, kids)
    for i in idx:
        tag, k, v = kids[i]
        if k == "X":
            el.append(build(etree, v, nsmap, order, junk, pad, cut))
        else:
            sub = etree.SubElement(el, tag)
            sub.text = pad + scalar_text(k, v) + pad
            if cut is not None:
                cut(sub, k)
    if junk is not None:
        junk(el)
    return el


def text_ok(k, text, v, precision=None):
    """Does the written text denote the value?  With a precision, coordinates
    are rounded to that many decimals."""
    if text is None or not isinstance(text, str):
        return False
    if k in ("T", "A", "E", "EA", "N"):
        return text == v
    if k == "B":
        return text == ("1" if v else "0") or text == ("true" if v else "false")
    if k in ("I", "IA"):
        return int(text) == v
    if k in ("F", "FA"):
        return float(text) == v
    if k == "D":
        return date_ok(text, v)
    if k == "C":
        got = [tuple(float(c) for c in p.split(",")) for p in text.split()]
        return len(got) == len(v) and all(same_tuple(a, b, precision) for a, b in zip(got, v))
    if k == "TC":
        return same_tuple([float(c) for c in text.split()], v, precision)
    raise LookupError(k)


def date_ok(text, d):
    want = date_text(d)
    if text == want:
        return True
    if d.res == "dateTime" and d.off == 0:
        return text == want[:-6] + "Z"
    return False


def xml_diff(el, r, path, out, nsmap=NS, precision=None):
    """Append (where, condition) for: the element is exactly the record."""
    attrs, text, kids = parts(r, nsmap)
    out.append((path + ":tag", el.tag == nsmap[r.spec.ns] + r.spec.tag))
    have = dict(el.attrib)
    out.append((path + ":attributes", sorted(have) == sorted(attrs)))
    for a, (k, v) in attrs.items():
        if a in have:
            out.append((f"{path}@{a}", text_ok(k, have[a], v)))
    if text is None:
        out.append((path + ":text", el.text is None or len(el.text.strip()) == 0))
    else:
        out.append((path + ":text", el.text is not None and text_ok(text[0], el.text, text[1], precision)))
    got = list(el)
    out.append((path + ":children", sorted(c.tag for c in got) == sorted(t for t, _k, _v in kids)))
    # children of one name keep their order; order across names is another property
    left = list(got)
    for tag, k, v in kids:
        hit = None
        for c in left:
            if c.tag == tag:
                hit = c
                break
        if hit is None:
            continue
        left.remove(hit) if False else left.pop([i for i, c in enumerate(left) if c is hit][0])
        if k == "X":
            xml_diff(hit, v, f"{path}/{v.spec.tag}", out, nsmap, precision)
        else:
            nm = tag.rsplit("}", 1)[-1]
            out.append((f"{path}/{nm}", text_ok(k, hit.text, v, precision)))
            out.append((f"{path}/{nm}:plain", len(hit) == 0 and not hit.attrib))


# ---------------------------------------------------------------------------
# shapes: which fields are set

def light(shs, key):
    """The same selections with dates, coordinates and track items kept small."""
    heavy = {f.attr for f in SPEC[key].fields if f.kind in ("D", "TR")}
    return [(a, tuple(x for x in rich if x not in heavy)) for a, rich in shs]


def shapes(key, pairs=True):
    """Bounded list of (attrs, rich) selections for a class."""
    s = SPEC[key]
    base = {"id": True} if key == "Schema" else {}
    first = {f.attr: True for f in s.fields}
    out = [(dict(base), ())]
    for f in s.fields:
        if f.kind == "X":
            for nm in f.arg:
                out.append(({**base, f.attr: nm}, (f.attr,)))
                out.append(({**base, f.attr: nm}, ("edge",)))
        elif f.kind == "L":
            for nm in f.arg:
                out.append(({**base, f.attr: (nm,)}, (f.attr,)))
                out.append(({**base, f.attr: (nm,)}, ("edge",)))
            for a in f.arg:
                for b in f.arg:
                    if len(f.arg) <= 4 or f.arg.index(b) in (0, 2, f.arg.index(a), f.arg.index(a) - 1):
                        out.append(({**base, f.attr: (a, b)}, ()))
        else:
            out.append(({**base, f.attr: True}, (f.attr,)))
    fs = s.fields
    if pairs:
        for i in range(len(fs)):
            for j in range(i + 1, len(fs)):
                out.append(({**base, fs[i].attr: True, fs[j].attr: True}, ()))
    out.append((dict(first), ()))
    for f in fs:
        if f.attr not in base:
            out.append(({k: v for k, v in first.items() if k != f.attr}, ()))
    return out
