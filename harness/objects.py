"""Equality, repr, truth and purity of the objects of every class."""
import datetime

from harness import rec, util
from harness.spec import NS, SPEC

TWINS = (("Link", "Icon"), ("Author", "Contributor"), ("OuterBoundaryIs", "InnerBoundaryIs"), ("OverlayXY", "ScreenXY"),
         ("RotationXY", "Size"), ("OverlayXY", "Size"), ("LineString", "LinearRing"), ("Folder", "Document"),
         ("Camera", "LookAt"), ("LineStyle", "LabelStyle"), ("Orientation", "Scale"), ("Data", "SimpleData"),
         ("TimeStamp", "TimeSpan"), ("Style", "StyleMap"))


# ---------------------------------------------------------------------------
# equality

def same(a, b):
    """Do two records describe the same object?"""
    if a.key != b.key or sorted(a.val) != sorted(b.val):
        return False
    for k, v in a.val.items():
        if not same_value(v, b.val[k]):
            return False
    return True


def same_value(v, w):
    if isinstance(v, rec.Rec):
        return isinstance(w, rec.Rec) and same(v, w)
    if isinstance(v, rec.Date):
        return v.res == w.res and same_seq(v.fields, w.fields) and v.off == w.off
    if isinstance(v, rec.Item):
        if (v.angle is None) != (w.angle is None):
            return same_seq(v.angle or (0.0, 0.0, 0.0), w.angle or (0.0, 0.0, 0.0)) and same_value(v.when, w.when) and same_seq(
                v.coord, w.coord)
        return same_value(v.when, w.when) and same_seq(v.coord, w.coord) and (v.angle is None or same_seq(v.angle, w.angle))
    if isinstance(v, (list, tuple)):
        return same_seq(v, w)
    if v == w:
        return True
    return False


def same_seq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not same_value(x, y):
            return False
    return True


def apart(env, r1, r2):
    """Coordinates of the second record: those of the first with one number
    replaced.  Geometries are compared with a tolerance of 1e-9 of the larger
    number, so numbers are below 10**6, and equal or at least 1 apart."""
    for k, v in r1.val.items():
        if r2.val[k] is not v:
            pairs(env, v, r2.val[k], k)


def pairs(env, v, w, path):
    if isinstance(v, rec.Rec):
        for k, x in v.val.items():
            if v.key.startswith("Coordinates"):
                one_off(env, x, w.val[k], v.key == "CoordinatesR", path)
            elif k in w.val:
                pairs(env, x, w.val[k], f"{path}.{k}")
    elif isinstance(v, list) and v and isinstance(v[0], rec.Rec):
        for i, (p, q) in enumerate(zip(v, w)):
            pairs(env, p, q, f"{path}.{i}")
    elif isinstance(v, list) and v and isinstance(v[0], rec.Item):
        for i, (p, q) in enumerate(zip(v, w)):
            both = [p.coord], [q.coord]
            one_off(env, *both, False, f"{path}.{i}")
            q.coord = both[1][0]
    elif isinstance(v, list):
        one_off(env, v, w, False, path)


def one_off(env, xs, ys, ring, path):
    n = len(xs) - 1 if ring else len(xs)
    i = env.index(path + ".which point", n)
    j = env.index(path + ".which number", len(xs[0]))
    x, y = xs[i][j], ys[i][j]
    for t in (x, y):
        env.assume(-10 ** 6 <= t)
        env.assume(t <= 10 ** 6)
    for k, p in enumerate(xs):
        ys[k] = p if k != i else tuple(ys[i][m] if m == j else c for m, c in enumerate(p))
    if ring:
        ys[-1] = ys[0]
    if x == y:
        return
    if x < y:
        env.assume(y - x >= 1)
    else:
        env.assume(x - y >= 1)


def equality(env, key, attr, attrs, rich, flavour="lxml"):
    """Objects are equal exactly if their fields are."""
    util.use(env, flavour)
    r1 = rec.gen(env, key, "v", attrs, rich, n=1)
    r2 = rec.gen(env, key, "w", {attr: attrs[attr]}, rich, n=1)
    r2.val = {k: r2.val.get(k, v) for k, v in r1.val.items()}
    apart(env, r1, r2)
    a, b = rec.make(r1), rec.make(r2)
    want = same(r1, r2)
    got = a == b
    env.check(type(got) is bool or env.symbolic, f"{key}: equality is not a bool")
    env.check(bool(got) == want, f"{key}: == for {sorted(attrs)}")
    env.check((b == a) == want, f"{key}: == is not symmetric for {sorted(attrs)}")
    env.check((a != b) == (not want), f"{key}: != for {sorted(attrs)}")
    env.reach("equal" if want else "unequal")


def reflexive(env, key, shapes, flavour="lxml"):
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    a, b = rec.make(r), rec.make(r)
    env.check(a == a, f"{key}: not equal to itself")
    env.check(a == b and b == a, f"{key}: not equal to an object of the same fields")
    env.check(not (a != b), f"{key}: != an object of the same fields")
    for other in (None, 1, "x", object(), [], NS):
        env.check(not (a == other) and a != other, f"{key}: equal to {type(other).__name__}")


def lengths(env, key, attr, names, flavour="lxml"):
    """Lists differ if one continues the other or holds the same members in
    another order."""
    util.use(env, flavour)
    fl = SPEC[key].field(attr)
    base = {"id": True} if key == "Schema" else {"outer_boundary": True} if key == "Polygon" else {}
    r = rec.gen(env, key, "v", base, plain=True)
    leaf = rec.Rec(key)
    leaf.plain = True
    if fl.kind == "L":
        members = [rec.gen_child(env, nm, f"m{i}", False) for i, nm in enumerate(names)]
    elif fl.kind == "TR":
        members = [rec.gen_items(env, f"m{i}", False)[0] for i in range(3)]
    else:
        members = [tuple(env.number(f"m{i}.{c}", 10 * i, 10 * i + 5) for c in "xyz") for i in range(3)]
    for i, m in enumerate(members):
        place(m, 10.0 * i)
    order = env.pick("other", ((0,), (0, 1), (0, 1, 2, 0), (0, 1, 2, 2), (1, 0, 2), (0, 2, 1), (1, 2), (0, 2), (0, 1, 2)))
    r1, r2 = rec.Rec(key), rec.Rec(key)
    r1.val = {**r.val, attr: members}
    r2.val = {**r.val, attr: [members[i] for i in order]}
    a, b = rec.make(r1), rec.make(r2)
    want = same_seq(r1.val[attr], r2.val[attr])
    what = f"{key}.{attr}: == for members {order}"
    env.check(bool(a == b) == want, what)
    env.check(bool(b == a) == want, what + " reversed")
    env.check((a != b) == (not want), what + " !=")
    env.reach("equal" if want else "unequal")


def place(m, x):
    """Give the coordinates in a record fixed places."""
    if isinstance(m, rec.Item):
        m.coord = tuple(x + i for i in range(len(m.coord)))
    if not isinstance(m, rec.Rec):
        return
    for k, v in m.val.items():
        if m.key.startswith("Coordinates"):
            m.val[k] = [(x + i, x - i * i) for i in range(len(v))]
            if m.key == "CoordinatesR":
                m.val[k][-1] = m.val[k][0]
        for y in v if isinstance(v, list) else (v,):
            place(y, x)


def absent(env, key, attr, attrs, rich, flavour="lxml"):
    """An object with a field and one without it are not equal."""
    util.use(env, flavour)
    r1 = rec.gen(env, key, "v", attrs, rich)
    r2 = rec.Rec(key)
    r2.val = {k: v for k, v in r1.val.items() if k != attr}
    a, b = rec.make(r1), rec.make(r2)
    env.check(not (a == b) and not (b == a), f"{key}: equal without {attr}")


def vary(env, key, path, depth):
    """Two records of a class that agree but for one field somewhere below,
    which has two values or is missing in the second."""
    s = SPEC[key]
    plain = [g.attr for g in s.fields if g.kind not in ("X", "L")]
    f = s.field(env.pick(path + " field", [g.attr for g in s.fields] if depth > 0 or not plain else plain))
    base = [a for a in ("id",) if key == "Schema"] + [a for a in rec.needed(key)]
    if key == "Polygon" and f.attr == "inner_boundaries":
        base.append("outer_boundary")
    a = rec.gen(env, key, path, {x: True for x in base if x != f.attr}, plain=True)
    b = rec.Rec(key)
    b.val = dict(a.val)
    if f.kind in ("X", "L"):
        x, y = vary(env, env.pick(path + " part", f.arg), f"{path}.{f.attr}", depth - 1)
        if f.kind == "L":
            x, y = [x], [y]
    else:
        quick = f.kind not in ("D", "C", "TR")
        leaf = rec.Rec(key)
        leaf.plain = False
        x, y = (rec.gen_value(env, leaf, f, f"{path}.{f.attr} {i}", True, quick, 1) for i in "xy")
        if f.kind == "C":
            one_off(env, x, y, key == "CoordinatesR", path)
        elif f.kind == "TR":
            pairs(env, x, y, path)
    for r, v in ((a, x), (b, y)):
        if v is x or f.attr in base or f.kind == "C" or env.pick(path + " second", ("present", "absent")) == "present":
            r.val[f.attr] = v
        r.val = {g.attr: r.val[g.attr] for g in r.spec.fields if g.attr in r.val}
    return a, b


def nested(env, key, attr, nm, depth, flavour="lxml"):
    """A difference in one field of a part, at any depth, tells objects apart."""
    util.use(env, flavour)
    x, y = vary(env, nm, "p", depth)
    fl = SPEC[key].field(attr)
    base = {"id": True} if key == "Schema" else {"outer_boundary": True} if key == "Polygon" and attr == "inner_boundaries" else {}
    r1 = rec.gen(env, key, "v", base, plain=True)
    r2 = rec.Rec(key)
    r2.val = dict(r1.val)
    for r, v in ((r1, x), (r2, y)):
        r.val[attr] = [v] if fl.kind == "L" else v
        r.val = {g.attr: r.val[g.attr] for g in r.spec.fields if g.attr in r.val}
    a, b = rec.make(r1), rec.make(r2)
    want = same(x, y)
    env.check(bool(a == b) == want, f"{key}.{attr}: == for a difference inside {nm}")
    env.check((b == a) == want, f"{key}.{attr}: == is not symmetric for a difference inside {nm}")
    env.check((a != b) == (not want), f"{key}.{attr}: != for a difference inside {nm}")
    env.reach("equal" if want else "unequal")


def spaces(env, key, flavour="lxml"):
    """Objects of different namespaces, or with different prefixes, differ."""
    util.use(env, flavour)
    r = rec.gen(env, key, "v", {"id": True} if key == "Schema" else {}, ())
    a, b, c, d = (rec.make(r) for _ in range(4))
    other = env.text("uri", 2, alphabet="ab", pre="u:")
    b.ns = other
    env.check(not (a == b) and not (b == a) and a != b, f"{key}: equal in another namespace")
    c.ns = other
    env.check(b == c and not (b != c), f"{key}: not equal in the same other namespace")
    d.name_spaces = {**d.name_spaces, "zz": other}
    env.check(not (a == d) and not (d == a), f"{key}: equal with other prefixes")


def twins(env, a, b, flavour="lxml"):
    """Objects of different classes differ, whatever they hold."""
    util.use(env, flavour)
    both = [f.attr for f in SPEC[a].fields if any(g.attr == f.attr and g.kind == f.kind for g in SPEC[b].fields)]
    attrs = {x: True for x in both if SPEC[a].field(x).kind not in ("X", "L")}
    r = rec.gen(env, a, "v", attrs, ())
    x = rec.make(r)
    s = rec.Rec(b)
    s.val = dict(r.val)
    y = rec.make(s)
    env.check(not (x == y) and not (y == x) and x != y, f"{a} equals {b}")


def assigned(env, key, attr, attrs, rich, flavour="lxml"):
    """Assigning a field changes equality accordingly, and back."""
    util.use(env, flavour)
    r1 = rec.gen(env, key, "v", attrs, rich, n=1)
    r2 = rec.gen(env, key, "w", {attr: attrs[attr]}, rich, n=1)
    r2.val = {k: r2.val.get(k, v) for k, v in r1.val.items()}
    apart(env, r1, r2)
    a, b = rec.make(r1), rec.make(r1)
    c = rec.make(r2)
    setattr(a, attr, getattr(c, attr))
    want = same_value(r1.val[attr], r2.val[attr])
    env.check(bool(a == b) == want, f"{key}: == after assigning {attr}")
    setattr(b, attr, getattr(rec.make(r2), attr))
    env.check(a == b, f"{key}: == after assigning {attr} to both")


# ---------------------------------------------------------------------------
# repr

def names():
    import pygeoif.geometry as geo
    enums = rec.fk("enums")
    out = {"fastkml": __import__("fastkml"), "datetime": datetime, "Point": geo.Point, "LineString": geo.LineString,
           "LinearRing": geo.LinearRing, "Polygon": geo.Polygon, "MultiPoint": geo.MultiPoint,
           "MultiLineString": geo.MultiLineString, "MultiPolygon": geo.MultiPolygon,
           "GeometryCollection": geo.GeometryCollection}
    for n in dir(enums):
        if not n.startswith("_"):
            out[n] = getattr(enums, n)
    gx = rec.fk("gx")
    out.update(Angle=gx.Angle, TrackItem=gx.TrackItem)
    return out


def represent(env, key, shapes, ns=None, flavour="lxml"):
    """repr() is an expression that gives an equal object."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    a = rec.make(r) if ns is None else rec.make(r, ns=ns, name_spaces={"ex": "{http://e/}", "kml": "{http://k/}"})
    text = repr(a)
    try:
        b = eval(text, names())
    except (SyntaxError, NameError, AttributeError, TypeError, ValueError) as exc:
        env.fail(f"{key}: repr() cannot be evaluated ({type(exc).__name__})", f"{text} {exc}")
        return
    out = []
    rec.diff(b, r, key, out)
    util.report(env, "repr", out)
    env.check(a == b and b == a, f"{key}: evaluated repr() is not equal")
    out = []
    rec.diff(a, r, key, out)
    util.report(env, "after repr", out)


# ---------------------------------------------------------------------------
# truth

def truth(env, key, flavour="lxml"):
    """An object counts as present exactly if what its element must hold is
    there; zero and false are values."""
    util.use(env, flavour)
    s = SPEC[key]
    some = [f for f in s.fields if f.attr in s.req]
    have = [f.attr for f in some if key == "Schema" or env.pick("has " + f.attr, (True, False))]
    extra = env.pick("extra", (False, True))
    attrs = {a: True for a in have}
    if extra:
        attrs.update({f.attr: True for f in s.fields if f.attr not in s.req and f.kind not in ("X", "L")})
    r = rec.gen(env, key, "v", attrs, (), plain=False)
    full = (len(have) > 0) if s.any_of and s.req else len(have) == len(s.req)
    if key == "HotSpot":
        full = True
    env.check(bool(rec.make(r)) == full, f"{key}: truth with {' '.join(have) or 'nothing'}")


def zero(env, key, parent, attr, flavour="lxml"):
    """A child holding only zeros and falses is written and read back."""
    util.use(env, flavour)
    s = SPEC[key]
    child = rec.Rec(key)
    for f in s.fields:
        if f.attr in s.req or f.kind in ("F", "I", "B", "FA", "IA"):
            if f.kind in ("F", "FA"):
                child.val[f.attr] = 0.0
            elif f.kind in ("I", "IA"):
                child.val[f.attr] = 0
            elif f.kind == "B":
                child.val[f.attr] = False
            else:
                child.val[f.attr] = rec.gen_value(env, child_plain(child), f, "v." + f.attr, True, False, 2)
    r = rec.Rec(parent)
    if parent == "Schema":
        r.val["id"] = "s"
    for q in SPEC[parent].req:
        if q != attr and not SPEC[parent].any_of:
            r.val[q] = rec.gen_value(env, child_plain(r), SPEC[parent].field(q), "p." + q, True, False, 2)
    r.val[attr] = [child] if SPEC[parent].field(attr).kind == "L" else child
    obj = rec.make(r)
    out = []
    el = obj.etree_element()
    rec.xml_diff(el, r, parent, out)
    back = rec.cls_of(parent).class_from_element(ns=NS[SPEC[parent].ns], name_spaces=dict(NS), element=el, strict=True)
    rec.diff(back, r, parent, out)
    util.report(env, "zeros", out)


def mixed(env, key, parent, attr, flavour="lxml"):
    """Members that lack their content do not hide those beside them."""
    util.use(env, flavour)
    r = rec.Rec(parent)
    if parent == "Schema":
        r.val["id"] = "s"
    for q in SPEC[parent].req:
        if q != attr and not SPEC[parent].any_of:
            r.val[q] = rec.gen_value(env, child_plain(r), SPEC[parent].field(q), "p." + q, True, False, 2)
    layout = env.pick("members", ("fe", "ef", "efe", "fef", "eef", "fee"))
    full = [rec.gen_child(env, key, f"v.{i}", False) for i in range(layout.count("f"))]
    it = iter(full)
    kids = [rec.make(next(it)) if c == "f" else rec.cls_of(key)() for c in layout]
    if env.pick("how", ("given", "assigned")) == "given":
        val = {a: rec.make_value(r.spec.field(a), v) for a, v in r.val.items()}
        obj = rec.cls_of(parent)(**val, **{attr: list(kids)})
        held = list(getattr(obj, attr))
        want = [k for k, c in zip(kids, layout) if c == "f"]
        got = [h for h in held if any(h is w for w in want)]
        env.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), f"{parent}.{attr}: {key} given beside empty ones")
        at = 0
        for h in held:
            at = next((i + 1 for i in range(at, len(kids)) if kids[i] is h), None)
            env.check(at is not None, f"{parent}.{attr}: order of the members given")
            if at is None:
                return
    else:
        obj = rec.make(r)
        setattr(obj, attr, kids)
    r.val[attr] = full
    if SPEC[parent].req:
        env.check(bool(obj), f"{parent}: empty though {attr} has a {key} with content")
    out = []
    rec.xml_diff(obj.etree_element(), r, parent, out)
    util.report(env, f"{key} beside empty ones", out)


def child_plain(r):
    r.plain = True
    return r


# ---------------------------------------------------------------------------
# purity

def tree(el):
    """Plain description of an element tree."""
    return (el.tag, sorted(dict(el.attrib).items()), (el.text or "").strip() if el.text is not None else "",
            [tree(c) for c in el])


def tree_eq(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]) or len(a[3]) != len(b[3]):
        return False
    for (k, v), (m, w) in zip(a[1], b[1]):
        if k != m or v != w:
            return False
    if a[2] != b[2]:
        return False
    for x, y in zip(a[3], b[3]):
        if not tree_eq(x, y):
            return False
    return True


def writing(env, key, shapes, flavour="lxml"):
    """Writing, printing, comparing and asking leave an object as it was, and
    writing again gives the same."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    obj = rec.make(r)
    twin = rec.make(r)
    first = tree(obj.etree_element())
    what = env.pick("between", ("terse", "verbose", "precision", "text", "ask"))
    if what in ("terse", "verbose"):
        obj.etree_element(verbosity=util.verbosity(what))
        obj.to_string(verbosity=util.verbosity(what))
    elif what == "precision":
        obj.etree_element(precision=1)
        obj.to_string(precision=0, prettyprint=False)
    elif what == "text":
        str(obj)
        repr(obj)
    else:
        bool(obj)
        obj == twin
        for a in ("geometry", "icon_href", "normal", "highlight", "time_stamp", "begin", "end", "whens", "coords", "angles"):
            getattr(obj, a, None)
        list(rec.fk("utils").find_all(obj, of_type=rec.cls_of("Placemark"), name="x"))
    out = []
    rec.diff(obj, r, key, out)
    util.report(env, f"after {what}", out)
    env.check(tree_eq(first, tree(obj.etree_element())), f"{key}: written differently after {what}")
    env.check(obj == twin, f"{key}: no longer equal after {what}")


def reading(env, key, shapes, flavour="lxml"):
    """Reading leaves the tree as it was; two objects read from one tree are
    equal and share nothing that can be changed."""
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    el = rec.build(et, r)
    before = tree(el)
    ns = NS[SPEC[key].ns]
    a = rec.cls_of(key).class_from_element(ns=ns, name_spaces=dict(NS), element=el, strict=True)
    env.check(tree_eq(before, tree(el)), f"{key}: reading changed the tree")
    b = rec.cls_of(key).class_from_element(ns=ns, name_spaces=dict(NS), element=el, strict=False)
    env.check(tree_eq(before, tree(el)), f"{key}: lenient reading changed the tree")
    env.check(a == b, f"{key}: read twice, not equal")
    wreck(a, r)
    out = []
    rec.diff(b, r, key, out)
    util.report(env, "the other changed", out)


def wreck(obj, r):
    """Change everything reachable through the record's fields."""
    for fl in r.spec.fields:
        if fl.attr not in r.val:
            continue
        v = getattr(obj, fl.attr)
        if fl.kind == "X" and v is not None:
            wreck(v, r.val[fl.attr])
        elif fl.kind == "L" and isinstance(v, list):
            for x in v:
                for f in SPEC[key_of(x)].fields:
                    if f.kind not in ("X", "L"):
                        set_quiet(x, f.attr)
            v.append(None)
        set_quiet(obj, fl.attr)
    obj.name_spaces["wrecked"] = "{wrecked}"


def set_quiet(obj, attr):
    try:
        setattr(obj, attr, None)
    except AttributeError:
        pass


def key_of(obj):
    for k in SPEC:
        if rec.cls_of(k) is type(obj):
            return k
    raise LookupError(type(obj))


def given(env, key, attr, names, how, flavour="lxml"):
    """An object keeps the members it was given, however they were passed and
    whatever happens to the list afterwards."""
    util.use(env, flavour)
    fl = SPEC[key].field(attr)
    rs = [rec.gen_child(env, nm, f"v.{i}", False) for i, nm in enumerate(names)]
    objs = [rec.make(x) for x in rs]
    kw = {"id": "s"} if key == "Schema" else {}
    src = list(objs)
    if how == "list":
        arg = src
    elif how == "tuple":
        arg = tuple(src)
    elif how == "generator":
        arg = (o for o in src)
    else:
        arg = iter(src)
    a = rec.cls_of(key)(**{attr: arg}, **kw)
    src.append(None)
    src.pop(0) if objs else None
    got = getattr(a, attr)
    env.check(len(got) == len(objs), f"{key}.{attr}: number of members given as {how}")
    env.check(all(x is y for x, y in zip(got, objs)), f"{key}.{attr}: members given as {how}")
    r = rec.Rec(key)
    r.val = {attr: rs, **({"id": "s"} if key == "Schema" else {})}
    out = []
    rec.diff(a, r, key, out)
    rec.xml_diff(a.etree_element(), r, key, out)
    util.report(env, f"given as {how}", out)
    env.check(fl.kind == "L", "kind")


def given_coords(env, key, how, n=2, flavour="lxml"):
    """Coordinates keep their tuples, however these were passed and whatever
    happens to the list afterwards."""
    util.use(env, flavour)
    pts = [tuple(env.number(f"{i}{c}", 40 * i, 40 * i + 39) for c in "xyz") for i in range(n)]
    src = list(pts)
    c = rec.cls_of("Coordinates")
    mk = {"list": lambda: src, "tuple": lambda: tuple(src), "generator": lambda: (p for p in src), "iterator": lambda: iter(src)}[how]
    a = c(coords=mk())
    want = c(coords=list(pts))
    b = c(coords=mk())
    env.check(a == want and want == a and not (a != want), f"Coordinates given as {how}: equality")
    back = c.from_string(a.to_string())
    env.check(back == a and a == back, f"Coordinates given as {how}: equal after reading back")
    src.append((1.0, 2.0, 3.0))
    src[0] = (7.0, 8.0, 9.0)
    for x in (a, b):
        env.check(len(x.coords) == n, f"Coordinates given as {how}: number of tuples")
        for p, q in zip(x.coords, pts):
            env.check(rec.same_tuple(p, q), f"Coordinates given as {how}: tuples")
    if key != "Coordinates":
        holder = rec.cls_of(key)(kml_coordinates=a)
        other = rec.cls_of(key)(kml_coordinates=want)
        env.check(holder == other, f"{key}: with coordinates given as {how}")


def fresh(env, key, flavour="lxml"):
    """Objects made without arguments share no list."""
    util.use(env, flavour)
    kw = {"id": "s"} if key == "Schema" else {}
    c = rec.cls_of(key)
    a, b = c(**kw), c(**kw)
    tag = env.text("tag", 2, strip=True)
    for fl in SPEC[key].fields:
        v = getattr(a, fl.attr)
        if isinstance(v, list):
            v.append(tag)
            env.check(len(getattr(b, fl.attr)) == 0, f"{key}.{fl.attr} is shared")
            env.check(len(getattr(c(**kw), fl.attr)) == 0, f"{key}.{fl.attr} default changed")
