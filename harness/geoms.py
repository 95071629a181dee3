"""pygeoif geometries and KML geometries, tracks."""
import datetime

import pygeoif.geometry as geo

from harness import rec, util
from harness.spec import ENUMS, NS


def fg():
    return rec.fk("geometry")


class Src:
    """Coordinates for geometries."""

    def __init__(self, env, d):
        self.env, self.d, self.n = env, d, 0

    def point(self, lo=-400, hi=400):
        i = self.n
        self.n += 1
        return (self.env.number(f"p{i}.x", lo, hi), *[self.env.number(f"p{i}.{c}", -400, 400) for c in "yz"[:self.d - 1]])

    def line(self, n):
        return [self.point() for _ in range(n)]

    def ring(self, n=3, closed=True):
        """Corners are distinct."""
        pts = [self.point(40 * i, 40 * i + 39) for i in range(n)]
        return [*pts, pts[0]] if closed else pts


KINDS = {
    "Point": lambda s: geo.Point(*s.point()),
    "LineString": lambda s: geo.LineString(s.line(3)),
    "LinearRing": lambda s: geo.LinearRing(s.ring()),
    "open ring": lambda s: geo.LinearRing(s.ring(closed=False)),
    "Polygon": lambda s: geo.Polygon(s.ring()),
    "Polygon, one hole": lambda s: geo.Polygon(s.ring(), [s.ring()]),
    "Polygon, two holes": lambda s: geo.Polygon(s.ring(), [s.ring(), s.ring(4)]),
    "MultiPoint": lambda s: geo.MultiPoint(s.line(3)),
    "MultiPoint of one": lambda s: geo.MultiPoint(s.line(1)),
    "MultiLineString": lambda s: geo.MultiLineString([s.line(2), s.line(3)]),
    "MultiPolygon": lambda s: geo.MultiPolygon([(s.ring(), [s.ring()]), (s.ring(), [])]),
    "collection": lambda s: geo.GeometryCollection([geo.Point(*s.point()), geo.LineString(s.line(2)), geo.Polygon(s.ring())]),
    "rings": lambda s: geo.GeometryCollection([geo.LinearRing(s.ring()), geo.LinearRing(s.ring(4))]),
    "ring and line": lambda s: geo.GeometryCollection([geo.LinearRing(s.ring()), geo.LineString(s.line(2))]),
    "nested": lambda s: geo.GeometryCollection([geo.Point(*s.point()), geo.GeometryCollection(
        [geo.LineString(s.line(2)), geo.Point(*s.point())])]),
    "multi in collection": lambda s: geo.GeometryCollection([geo.LineString(s.line(2)), geo.MultiPoint(s.line(2))]),
}
SINGLE = ("Point", "LineString", "LinearRing", "open ring", "Polygon", "Polygon, one hole", "Polygon, two holes")


def same(g, w, p, out, grouped=False):
    """The two pygeoif geometries have the same type, parts and coordinates.
    grouped: mixed collections are read class by class, so the order of their
    parts is judged within a class only."""
    out.append((p + " missing", g is not None))
    if g is None:
        return
    out.append((f"{p} type", type(g).__name__ == type(w).__name__))
    if type(g).__name__ != type(w).__name__:
        return
    t = type(w).__name__
    if t == "Polygon":
        same(g.exterior, w.exterior, p + " exterior", out)
        gi, wi = list(g.interiors), list(w.interiors)
        out.append((p + " holes", len(gi) == len(wi)))
        for i, (a, b) in enumerate(zip(gi, wi)):
            same(a, b, f"{p} hole {i}", out)
    elif t.startswith("Multi") or t == "GeometryCollection":
        gs, ws = list(g.geoms), list(w.geoms)
        out.append((p + " parts", len(gs) == len(ws)))
        if grouped:
            for nm in dict.fromkeys(type(x).__name__ for x in ws):
                ga = [x for x in gs if type(x).__name__ == nm]
                wa = [x for x in ws if type(x).__name__ == nm]
                out.append((f"{p} {nm} parts", len(ga) == len(wa)))
                for i, (a, b) in enumerate(zip(ga, wa)):
                    same(a, b, f"{p} {nm} {i}", out, True)
            return
        for i, (a, b) in enumerate(zip(gs, ws)):
            same(a, b, f"{p} part {i}", out)
    else:
        gc, wc = list(g.coords), list(w.coords)
        out.append((p + " length", len(gc) == len(wc)))
        for i, (a, b) in enumerate(zip(gc, wc)):
            rec.tuple_diff(a, b, f"{p} {i}", out)


def leaves(k):
    """The simple KML geometries in a KML geometry."""
    if type(k).__name__ == "MultiGeometry":
        return [x for m in k.kml_geometries for x in leaves(m)]
    return [k]


CLASS = {"Point": "Point", "LineString": "LineString", "LinearRing": "LinearRing", "open ring": "LinearRing",
         "Polygon": "Polygon", "Polygon, one hole": "Polygon", "Polygon, two holes": "Polygon"}


class Foreign:
    """An object of another library."""

    def __init__(self, g):
        self.__geo_interface__ = g.__geo_interface__


def convert(env, kind, d, via, flavour="lxml"):
    """A KML geometry made from a pygeoif geometry has that geometry, before
    and after it went through a document."""
    util.use(env, flavour)
    g = KINDS[kind](Src(env, d))
    cls = CLASS.get(kind, "MultiGeometry")
    if via == "factory":
        k = fg().create_kml_geometry(geometry=g)
    elif via == "interface":
        k = fg().create_kml_geometry(geometry=Foreign(g))
    elif via == "class":
        k = getattr(fg(), cls)(geometry=g)
    else:
        k = rec.cls_of("Placemark")(geometry=g)
        env.check(k.kml_geometry is not None, f"{kind}: placemark without geometry")
        if k.kml_geometry is None:
            return
        env.check(type(k.kml_geometry) is getattr(fg(), cls), f"{kind}: class")
    if via != "placemark":
        env.check(type(k) is getattr(fg(), cls), f"{kind}: class")
    env.check(bool(k) or via == "placemark", f"{kind}: falsy")
    out = []
    same(k.geometry, g, kind, out)
    text = k.to_string()
    back = type(k).from_string(text)
    same(back.geometry, g, kind + " read back", out, grouped=True)
    util.report(env, "geometry", out)


def flags(env, kind, via, flavour="lxml"):
    """Extrude, tessellate and altitude mode reach every part."""
    util.use(env, flavour)
    g = KINDS[kind](Src(env, 2))
    extrude = env.pick("extrude", (None, True, False))
    tessellate = env.pick("tessellate", (None, True, False))
    mode = env.pick("mode", (None, *ENUMS["AltitudeMode"]))
    m = rec.enum_member("AltitudeMode", mode) if mode else None
    kw = {"geometry": g, "extrude": extrude, "tessellate": tessellate, "altitude_mode": m}
    ident = env.text("id", 1, strip=True)
    if via == "factory":
        k = fg().create_kml_geometry(id=ident, **kw)
    else:
        k = getattr(fg(), CLASS.get(kind, "MultiGeometry"))(id=ident, **kw)
    env.check(k.id == ident, f"{kind}: id")
    for x in leaves(k):
        env.check(x.extrude is extrude, f"{kind}: extrude of {type(x).__name__}")
        env.check(x.altitude_mode is m, f"{kind}: altitude mode of {type(x).__name__}")
        if type(x).__name__ != "Point":
            env.check(x.tessellate is tessellate, f"{kind}: tessellate of {type(x).__name__}")


def multi(env, kinds, flavour="lxml"):
    """The geometry of a MultiGeometry has exactly the parts given."""
    util.use(env, flavour)
    s = Src(env, 2)
    gs = [KINDS[k](s) for k in kinds]
    k = fg().MultiGeometry(kml_geometries=[fg().create_kml_geometry(geometry=g) for g in gs])
    got = k.geometry
    out = [("missing", got is not None)]
    if got is not None:
        parts = list(got.geoms)
        out.append(("parts", len(parts) == len(gs)))
        for i, (a, b) in enumerate(zip(parts, gs)):
            same(a, b, f"part {i}", out)
        names = {type(g).__name__ for g in gs}
        want = "GeometryCollection"
        if len(names) == 1 and names <= {"Point", "LineString", "Polygon"}:
            want = "Multi" + names.pop()
        out.append(("type", type(got).__name__ == want))
    util.report(env, "multi " + " ".join(kinds), out)


def points(env, n, d):
    return [tuple(env.number(f"p{i}.{c}", 40 * i, 40 * i + 39) for c in "xyzwv"[:d]) for i in range(n)]


def degenerate(env, key, n, d, flavour="lxml"):
    """Whatever the coordinates, the geometry is theirs or None."""
    util.use(env, flavour)
    pts = points(env, n, d)
    c = rec.cls_of("Coordinates")(coords=pts)
    k = getattr(fg(), key)(kml_coordinates=c)
    g = k.geometry
    what = f"{key} of {n} points of dimension {d}"
    env.check(bool(k) == (g is not None and not g.is_empty), f"{what}: truth")
    fits = d in (2, 3) and (n == 1 if key == "Point" else n >= 2 if key == "LineString" else n >= 3)
    if fits:
        out = []
        w = {"Point": lambda: geo.Point(*pts[0]), "LineString": lambda: geo.LineString(pts),
             "LinearRing": lambda: geo.LinearRing(pts)}[key]()
        same(g, w, what, out)
        util.report(env, "geometry", out)
    elif d not in (2, 3) or n == 0:
        env.check(g is None, f"{what}: a geometry")


def exclusive(env, key, flavour="lxml"):
    """A geometry and its KML form cannot both be given."""
    util.use(env, flavour)
    s = Src(env, 2)
    m = fg()
    co = m.Coordinates(coords=s.line(3))
    ring = m.LinearRing(kml_coordinates=m.Coordinates(coords=s.ring()))
    parts = [ring]
    if key != "Placemark" and env.pick("empty", (False, True)):
        co, ring, parts = m.Coordinates(), m.LinearRing(), []
    make = {
        "Point": lambda: m.Point(geometry=geo.Point(*s.point()), kml_coordinates=co),
        "LineString": lambda: m.LineString(geometry=geo.LineString(s.line(2)), kml_coordinates=co),
        "LinearRing": lambda: m.LinearRing(geometry=geo.LinearRing(s.ring()), kml_coordinates=co),
        "OuterBoundaryIs": lambda: m.OuterBoundaryIs(geometry=geo.LinearRing(s.ring()), kml_geometry=ring),
        "InnerBoundaryIs": lambda: m.InnerBoundaryIs(geometry=geo.LinearRing(s.ring()), kml_geometry=ring),
        "Polygon": lambda: m.Polygon(geometry=geo.Polygon(s.ring()), outer_boundary=m.OuterBoundaryIs(kml_geometry=ring)),
        "MultiGeometry": lambda: m.MultiGeometry(geometry=geo.MultiPoint(s.line(2)), kml_geometries=parts),
        "Placemark": lambda: rec.cls_of("Placemark")(geometry=geo.Point(*s.point()), kml_geometry=ring),
    }[key]
    try:
        make()
    except ValueError:
        return
    except rec.fk("exceptions").GeometryError:
        return
    env.fail(f"{key}: both accepted")


def model(env, alt, flavour="lxml"):
    """The geometry of a model is the point it is placed at."""
    util.use(env, flavour)
    lon, lat = env.number("lon", -180, 180), env.number("lat", -90, 90)
    z = env.number("alt", -1000, 1000) if alt else None
    loc = rec.cls_of("Location")(longitude=lon, latitude=lat, altitude=z)
    m = rec.cls_of("Model")(location=loc, link=rec.cls_of("Link")(href="x"))
    pm = rec.cls_of("Placemark")(kml_geometry=m)
    for g, what in ((loc.geometry, "location"), (m.geometry, "model"), (pm.geometry, "placemark")):
        env.check(g is not None, f"{what}: no geometry")
        if g is not None:
            want = (lon, lat) if z is None else (lon, lat, z)
            out = []
            rec.tuple_diff([c for c in g.coords[0]], want, what, out)
            util.report(env, "geometry", out)


def polygon_parts(env, holes, d, flavour="lxml"):
    """A polygon built from boundaries."""
    util.use(env, flavour)
    s = Src(env, d)
    m = fg()
    shell, inner = s.ring(), [s.ring(3 + i % 2) for i in range(holes)]
    k = m.Polygon(outer_boundary=m.OuterBoundaryIs(geometry=geo.LinearRing(shell)),
                  inner_boundaries=(m.InnerBoundaryIs(geometry=geo.LinearRing(h)) for h in inner))
    out = []
    same(k.geometry, geo.Polygon(shell, inner), "polygon", out)
    same(m.Polygon.from_string(k.to_string()).geometry, geo.Polygon(shell, inner), "polygon read back", out)
    util.report(env, f"{holes} holes", out)


def hollow(env, layout, what, flavour="lxml"):
    """Parts without coordinates do not count and do not hide the others."""
    util.use(env, flavour)
    s = Src(env, 2)
    m = fg()
    if what == "holes":
        shell = s.ring()
        inner = [s.ring(3 + i % 2) for i in range(layout.count("f"))]
        it = iter(inner)
        nothing = {"n": lambda: m.InnerBoundaryIs(), "r": lambda: m.InnerBoundaryIs(kml_geometry=m.LinearRing()),
                   "c": lambda: m.InnerBoundaryIs(kml_geometry=m.LinearRing(kml_coordinates=m.Coordinates()))}
        parts = [m.InnerBoundaryIs(geometry=geo.LinearRing(next(it))) if c == "f" else nothing[c]() for c in layout]
        k = m.Polygon(outer_boundary=m.OuterBoundaryIs(geometry=geo.LinearRing(shell)), inner_boundaries=parts)
        want = geo.Polygon(shell, inner)
    else:
        gs = [KINDS[what](s) for _ in range(layout.count("f"))]
        it = iter(gs)
        nothing = {"n": lambda: m.Point(), "r": lambda: m.MultiGeometry(kml_geometries=[m.Polygon()]),
                   "c": lambda: m.LineString(kml_coordinates=m.Coordinates())}
        parts = [m.create_kml_geometry(geometry=next(it)) if c == "f" else nothing[c]() for c in layout]
        k = m.MultiGeometry(kml_geometries=parts)
        want = {"Point": geo.MultiPoint.from_points, "LineString": geo.MultiLineString.from_linestrings,
                "Polygon": geo.MultiPolygon.from_polygons}[what](*gs) if gs else None
    holder = rec.cls_of("Placemark")(kml_geometry=k)
    for o in (k, holder):
        if want is None:
            env.check(o.geometry is None, f"{what} {layout}: a geometry of nothing")
            continue
        out = []
        same(o.geometry, want, f"{what} {layout}", out)
        util.report(env, "geometry", out)
    env.check(bool(k) == (want is not None), f"{what} {layout}: truth")
    if want is not None:
        out = []
        same(type(k).from_string(k.to_string()).geometry, want, f"{what} {layout} read back", out)
        util.report(env, "geometry", out)


# ---------------------------------------------------------------------------
# tracks

def gx():
    return rec.fk("gx")


def items_of(env, n, d, angles):
    out = []
    for i in range(n):
        p = f"i{i}"
        when = rec.Date("dateTime", (env.integer(p + ".year", 1, 9999), 2, env.integer(p + ".day", 1, 28),
                                     env.integer(p + ".hour", 0, 23), 5, 6, 0), 0)
        out.append(rec.Item(when, tuple(env.number(f"{p}.{c}", -400, 400) for c in "xyz"[:d]),
                            tuple(env.number(f"{p}.a{j}", -400, 400) for j in range(3))
                            if (i < angles if isinstance(angles, int) else i in angles) else None))
    return out


def check_track(env, t, items, what, bare=False):
    """bare: an item without orientation may hold none."""
    out = [("count", len(t.track_items) == len(items))]
    for i, (g, w) in enumerate(zip(t.track_items, items)):
        rec.diff_date(g.when, w.when, f"{i}.when", out)
        rec.tuple_diff(g.coord.coords[0], w.coord, f"{i}.coord", out)
        a = w.angle if w.angle is not None else (0.0, 0.0, 0.0)
        out.append((f"{i}.angle", g.angle is not None or (bare and w.angle is None)))
        if g.angle is not None:
            rec.tuple_diff((g.angle.heading, g.angle.tilt, g.angle.roll), a, f"{i}.angle", out)
    out.append(("whens", len(t.whens) == len(items)))
    for i, (g, w) in enumerate(zip(t.whens, items)):
        rec.diff_date(g, w.when, f"whens {i}", out)
    out.append(("coords", len(t.coords) == len(items)))
    for i, (g, w) in enumerate(zip(t.coords, items)):
        rec.tuple_diff(g, w.coord, f"coords {i}", out)
    some = [i for i in items if i.angle is not None]
    if some:
        out.append(("angles", len(t.angles) == len(items)))
    for i, (g, w) in enumerate(zip(t.angles, items)):
        rec.tuple_diff(g, w.angle if w.angle is not None else (0.0, 0.0, 0.0), f"angles {i}", out)
    util.report(env, what, out)


def track_build(env, n, d, angles, how, flavour="lxml"):
    """The i-th time, position and orientation belong together, however the
    track was given."""
    util.use(env, flavour)
    items = items_of(env, n, d, angles)
    if how == "items":
        t = gx().Track(track_items=[rec.make_item(i) for i in items])
    elif how == "bare":
        t = gx().Track(track_items=[rec.make_item(i, bare=True) for i in items])
    elif how == "generator":
        t = gx().Track(track_items=(rec.make_item(i) for i in items))
    else:
        t = gx().Track(whens=[rec.make_date(i.when) for i in items], coords=[i.coord for i in items],
                       angles=[i.angle for i in items if i.angle is not None])
    check_track(env, t, items, f"track by {how}", bare=how == "bare")
    env.check(bool(t), "track is falsy")
    back = gx().Track.from_string(t.to_string())
    check_track(env, back, items, f"track by {how} read back")
    if n >= 2:
        out = []
        same(t.geometry, geo.LineString([i.coord for i in items]), "track", out)
        same(back.geometry, geo.LineString([i.coord for i in items]), "track read back", out)
        util.report(env, "geometry", out)


def track_read(env, n, angles, layout, flavour="lxml"):
    """A track element, whatever the interleaving of its children."""
    et = util.use(env, flavour)
    items = items_of(env, n, 3, angles)
    whens = [(NS["kml"] + "when", rec.date_text(i.when)) for i in items]
    coords = [(NS["gx"] + "coord", " ".join(str(c) for c in i.coord)) for i in items]
    angs = [(NS["gx"] + "angles", " ".join(str(c) for c in i.angle)) for i in items if i.angle is not None]
    if layout == "grouped":
        kids = whens + coords + angs
    elif layout == "backwards":
        kids = angs + coords + whens
    else:
        kids = []
        for i in range(n):
            kids += [whens[i], coords[i], *angs[i:i + 1]]
    el = et.Element(NS["gx"] + "Track")
    for tag, text in kids:
        et.SubElement(el, tag).text = text
    strict = env.pick("strict", (True, False))
    t = gx().Track.class_from_element(ns=NS["gx"], name_spaces=dict(NS), element=el, strict=strict)
    check_track(env, t, items, f"{layout} track")


def track_write(env, n, d, angles, flavour="lxml"):
    """One when, coord and angles per item, in order."""
    util.use(env, flavour)
    items = items_of(env, n, d, angles)
    el = gx().Track(track_items=[rec.make_item(i) for i in items]).etree_element()
    tags = [c.tag for c in el]
    env.check(tags == [NS["kml"] + "when"] * n + [NS["gx"] + "coord"] * n + [NS["gx"] + "angles"] * n, "track children")
    kids = list(el)
    for i, it in enumerate(items[:len(kids) // 3]):
        env.check(rec.date_ok(kids[i].text, it.when), f"when {i}")
        env.check(rec.text_ok("TC", kids[n + i].text, it.coord), f"coord {i}")
        a = it.angle if it.angle is not None else (0.0, 0.0, 0.0)
        env.check(rec.text_ok("TC", kids[2 * n + i].text, a), f"angles {i}")


def track_both(env, what, flavour="lxml"):
    """Items and separate lists cannot both be given."""
    util.use(env, flavour)
    items = items_of(env, 1, 3, 1)
    kw = {}
    if "w" in what:
        kw["whens"] = [rec.make_date(items[0].when)]
    if "c" in what:
        kw["coords"] = [items[0].coord]
    try:
        gx().Track(track_items=[rec.make_item(i) for i in items], **kw)
    except ValueError:
        return
    env.fail(f"track accepted items and {what}")


def multitrack(env, sizes, flavour="lxml"):
    """Tracks keep their order; empty ones do not count; the geometry has one
    line per track."""
    util.use(env, flavour)
    all_items = []
    tracks = []
    for j, n in enumerate(sizes):
        items = []
        for i in range(n):
            p = f"t{j}i{i}"
            items.append(rec.Item(rec.Date("dateTime", (2001, 2, 3, env.integer(p + ".h", 0, 23), 5, 6, 0), 0),
                                  tuple(env.number(f"{p}.{c}", -400, 400) for c in "xy"), None))
        tracks.append(gx().Track(id=f"t{j}", track_items=[rec.make_item(i) for i in items]))
        all_items.append(items)
    interp = env.pick("interpolate", (None, True, False))
    mt = gx().MultiTrack(tracks=tracks, interpolate=interp)
    full = [(t, i) for t, i in zip(tracks, all_items) if i]
    back = gx().MultiTrack.from_string(mt.to_string())
    for m, what in ((mt, "multitrack"), (back, "multitrack read back")):
        env.check(len(m.tracks) == len(full), f"{what}: count")
        env.check(m.interpolate is interp, f"{what}: interpolate")
        for t, (o, items) in zip(m.tracks, full):
            env.check(t.id == o.id, f"{what}: order")
            check_track(env, t, items, what)
    if full and all(len(i) >= 2 for _, i in full):
        out = []
        same(mt.geometry, geo.MultiLineString([[x.coord for x in i] for _, i in full]), "multitrack", out)
        util.report(env, "geometry", out)


def track_times(env, n, flavour="lxml"):
    """Times of every resolution and zone in a track."""
    util.use(env, flavour)
    whens = []
    for i in range(n):
        res = env.pick(f"res{i}", ("gYear", "gYearMonth", "date", "dateTime"))
        y, m = env.integer(f"y{i}", 1, 9999), env.integer(f"m{i}", 1, 12)
        f = (y, 1, 1) if res == "gYear" else (y, m, 1) if res == "gYearMonth" else (y, m, 7)
        whens.append(rec.Date(res, f if res != "dateTime" else (*f, 1, 2, 3, 0), 90))
    t = gx().Track(whens=[rec.make_date(w) for w in whens], coords=[(1.0 + i, 2.0, 3.0) for i in range(n)])
    back = gx().Track.from_string(t.to_string())
    out = [("count", len(back.track_items) == n)]
    for i, (g, w) in enumerate(zip(back.track_items, whens)):
        rec.diff_date(g.when, w, f"when {i}", out)
        rec.tuple_diff(g.coord.coords[0], (1.0 + i, 2.0, 3.0), f"coord {i}", out)
    util.report(env, "track times", out)
