"""Coordinate text: what is read from it and what is written to it."""
from harness import rec, util
from harness.spec import NS

GAPS = {"space": " ", "spaces": "   ", "newline": "\n", "tab": "\t", "lines": "\n\t\t\n  "}
COMMAS = {"tight": ",", "spaced": ", ", "wide": ",   "}
PADS = {"none": "", "block": "\n      "}


def parse_error():
    return rec.fk("exceptions").KMLParseError


def element(et, text):
    el = et.Element(NS["kml"] + "coordinates")
    el.text = text
    return el


def load(el, strict=True):
    return rec.cls_of("Coordinates").class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=el, strict=strict)


def points(env, n, d, lo=-400, hi=400):
    return [tuple(env.number(f"p{i}.{c}", lo, hi) for c in "xyzw"[:d]) for i in range(n)]


def layout(env, n, d, gap, comma, pad, strict=True, flavour="lxml"):
    """Any white space between tuples, spaces after commas, padding around."""
    et = util.use(env, flavour)
    pts = points(env, n, d)
    text = PADS[pad] + GAPS[gap].join(COMMAS[comma].join(str(c) for c in p) for p in pts) + PADS[pad]
    got = load(element(et, text), strict).coords
    out = [("count", len(got) == n)]
    for i, (g, w) in enumerate(zip(got, pts)):
        rec.tuple_diff(g, w, str(i), out)
    util.report(env, f"read {gap} {comma} {pad}", out)


def expected(text):
    """The tuples a text denotes, None when one of the parts is no number."""
    t = text.strip()
    while ", " in t:
        t = t.replace(", ", ",")
    out = []
    for word in t.split():
        one = []
        for part in word.split(","):
            try:
                one.append(float(part))
            except ValueError:
                return None
        out.append(tuple(one))
    return out


def anytext(env, n, strict, alphabet="0123456789,.- \n", pre="", post="", flavour="lxml"):
    """Any text: its tuples, or an error (strict) / nothing (lenient)."""
    et = util.use(env, flavour)
    text = env.text("text", n, alphabet=alphabet, pre=pre, post=post)
    want = expected(text)
    what = "strict" if strict else "lenient"
    try:
        got = load(element(et, text), strict).coords
    except parse_error():
        env.check(strict, f"{what}: raised")
        if want is not None:
            env.check(any(len(w) not in (2, 3) for w in want), f"{what}: rejected coordinates")
        return
    if want is None:
        env.check(not strict, f"{what}: accepted malformed coordinates")
        env.check(len(got) == 0, f"{what}: coordinates from malformed text")
        return
    if all(len(w) in (2, 3) for w in want):
        out = [("count", len(got) == len(want))]
        for i, (g, w) in enumerate(zip(got, want)):
            rec.tuple_diff(g, w, str(i), out)
        util.report(env, what, out)


def written(text):
    return [tuple(float(c) for c in word.split(",")) for word in text.split()]


def holder(key, pts):
    """An object of the class holding the points, and where its text is."""
    c = rec.cls_of("Coordinates")
    if key == "Coordinates":
        return c(coords=pts), ()
    if key == "Polygon":
        ring = rec.cls_of("LinearRing")(kml_coordinates=c(coords=pts))
        hole = rec.cls_of("LinearRing")(kml_coordinates=c(coords=pts[::-1]))
        return rec.cls_of("Polygon")(outer_boundary=rec.cls_of("OuterBoundaryIs")(kml_geometry=ring),
                                     inner_boundaries=[rec.cls_of("InnerBoundaryIs")(kml_geometry=hole)]), (
            "outerBoundaryIs", "LinearRing", "coordinates")
    if key == "KML":
        line = rec.cls_of("LineString")(kml_coordinates=c(coords=pts))
        multi = rec.cls_of("MultiGeometry")(kml_geometries=[line])
        pm = rec.cls_of("Placemark")(kml_geometry=multi)
        doc = rec.cls_of("Document")(features=[rec.cls_of("Folder")(features=[pm])])
        return rec.cls_of("KML")(features=[doc]), ("Document", "Folder", "Placemark", "MultiGeometry", "LineString",
                                                   "coordinates")
    return rec.cls_of(key)(kml_coordinates=c(coords=pts)), ("coordinates",)


def write(env, key, n, d, precision, entry, flavour="lxml"):
    """The text holds the tuples in order; with a precision every number is
    rounded to that many decimals."""
    et = util.use(env, flavour)
    pts = points(env, n, d)
    if key in ("LinearRing", "Polygon"):
        pts = [(env.number(f"r{i}", 40 * i, 40 * i + 39),) + p[1:] for i, p in enumerate(pts)]
        pts.append(pts[0])
    obj, path = holder(key, pts)
    if entry == "element":
        el = obj.etree_element(precision=precision)
    else:
        el = et.fromstring(obj.to_string(precision=precision))
    for p in path:
        el = el.find(NS["kml"] + p)
    got = written(el.text)
    what = f"{key} precision {precision}"
    env.check(len(got) == len(pts), f"{what}: count")
    for g, w in zip(got, pts):
        env.check(len(g) == len(w), f"{what}: dimension")
        for a, b in zip(g, w):
            if precision is None:
                env.check(a == b, f"{what}: value")
            else:
                near(env, a, b, precision, what)


def near(env, a, b, precision, what):
    tol = 0.5000001 * 10 ** -precision + 1e-9
    env.check(a - b <= tol and b - a <= tol, f"{what}: rounding")
    k = a * 10 ** precision
    e = k - round(k)
    env.check(e <= 1e-4 and -e <= 1e-4, f"{what}: decimals")


def track(env, precision, flavour="lxml"):
    """The same for the coordinates and angles of a track."""
    util.use(env, flavour)
    items = [rec.Item(rec.Date("dateTime", (2001 + i, 2, 3, 4, 5, 6, 0), 0), tuple(env.number(f"c{i}{j}", -400, 400) for j in range(3)),
                      tuple(env.number(f"a{i}{j}", -400, 400) for j in range(3))) for i in range(2)]
    obj = rec.cls_of("Track")(track_items=[rec.make_item(i) for i in items])
    el = obj.etree_element(precision=precision)
    for tag, attr in (("coord", "coord"), ("angles", "angle")):
        got = [tuple(float(c) for c in s.text.split()) for s in el.findall(NS["gx"] + tag)]
        env.check(len(got) == 2, f"track {tag}: count")
        for g, i in zip(got, items):
            for a, b in zip(g, getattr(i, attr)):
                if precision is None:
                    env.check(a == b, f"track {tag}: value")
                else:
                    near(env, a, b, precision, f"track {tag} precision {precision}")


def rounding(env, key, shapes, precision, flavour="lxml"):
    """With a precision, all coordinates at every depth are rounded, and
    everything else is written as without."""
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    obj = rec.make(r)
    out = []
    rec.xml_diff(obj.etree_element(precision=precision), r, f"{key} precision {precision}", out, precision=precision)
    util.report(env, "written", out)


def mixed(env, dims, precision, flavour="lxml"):
    """Tuples of two and of three numbers in one list keep their numbers; a
    tuple of another dimension anywhere is refused."""
    util.use(env, flavour)
    pts = [tuple(env.number(f"p{i}.{c}", -400, 400) for c in "xyzw"[:d]) for i, d in enumerate(dims)]
    obj = rec.cls_of("Coordinates")(coords=pts)
    bad = any(d not in (2, 3) for d in dims)
    try:
        el = obj.etree_element(precision=precision)
    except rec.fk("exceptions").KMLWriteError:
        env.check(bad, f"dimensions {dims} were refused")
        return
    if bad:
        env.fail(f"dimensions {dims} were written")
        return
    env.check(rec.text_ok("C", el.text, pts, precision), f"dimensions {dims} precision {precision}")


def bad_dimension(env, key, d, n, precision=None, flavour="lxml"):
    """Points of one or four numbers are refused when writing."""
    util.use(env, flavour)
    pts = points(env, n, d)
    obj = rec.cls_of("Coordinates")(coords=pts)
    try:
        el = obj.etree_element(precision=precision)
    except rec.fk("exceptions").KMLWriteError:
        return
    env.fail(f"coordinates of dimension {d} were written")


def empty(env, flavour="lxml"):
    """No coordinates: nothing is written, nothing is read."""
    et = util.use(env, flavour)
    obj = rec.cls_of("Coordinates")(coords=[])
    env.check(not obj, "empty coordinates are truthy")
    el = obj.etree_element()
    env.check(not (el.text or "").strip(), "text for no coordinates")
    text = env.pick("text", (None, "", " ", "\n\t "))
    got = load(element(et, text), env.pick("strict", (True, False)))
    env.check(len(got.coords) == 0, "coordinates from no text")
