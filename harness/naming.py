"""Namespaces: what a document in another (or no) KML namespace gives, and
where the namespace tables live."""
import io

from harness import rec, util
from harness.spec import ENUMS, GX, KML, NS, SPEC

URIS = ("{http://earth.google.com/kml/2.2}", "{http://earth.google.com/kml/2.1}", "{http://earth.google.com/kml/2.0}",
        "{http://www.opengis.net/kml/2.3}")


def nsmap_of(uri):
    return {**NS, "kml": uri}


def dialect(env, key, shapes, uri, flavour="lxml"):
    """An element in another KML namespace is read when that namespace is
    given, and written back in it."""
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    m = nsmap_of(uri)
    el = rec.build(et, r, nsmap=m)
    given = {"kml": uri}
    obj = rec.cls_of(key).class_from_element(ns=m[SPEC[key].ns], name_spaces=given, element=el, strict=True)
    env.check(given == {"kml": uri}, "name_spaces of the caller changed")
    out = []
    rec.diff(obj, r, key, out)
    rec.xml_diff(obj.etree_element(), r, key, out, nsmap=m)
    util.report(env, f"namespace {uri}", out)
    env.check(util.config().NAME_SPACES == NS, "the default namespaces changed")


def bare(env, key, shapes, flavour="lxml"):
    """Elements without a namespace are read like KML elements."""
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    m = nsmap_of("")
    el = rec.build(et, r, nsmap=m)
    obj = rec.cls_of(key).class_from_element(ns=m[SPEC[key].ns], name_spaces=None, element=el, strict=True)
    out = []
    rec.diff(obj, r, key, out)
    util.report(env, "no namespace", out)


def parse(env, key, attrs, uri, by, flavour="lxml"):
    """A file is read in the namespace of its root element."""
    et = util.use(env, flavour)
    r = rec.Rec("KML")
    child = rec.gen(env, key, "v", attrs, ())
    r.val["features"] = [child]
    m = nsmap_of(uri)
    text = et.tostring(rec.build(et, r, nsmap=m), encoding="unicode")
    kml = rec.cls_of("KML")
    given = {"kml": KML, "other": "{http://example.com/other}"}
    before = dict(given)
    kw = {}
    if by == "other names":
        given["kml"] = before["kml"] = URIS[2]
    if by.endswith("names"):
        kw["name_spaces"] = given
    elif by == "ns":
        kw["ns"] = uri
    got = kml.parse(io.StringIO(text), validate=False, **kw)
    env.check(given == before, "name_spaces of the caller changed")
    env.check(util.config().NAME_SPACES == NS, "the default namespaces changed")
    out = []
    rec.diff(got, r, "KML", out)
    rec.xml_diff(got.etree_element(), r, "KML", out, nsmap=m)
    util.report(env, f"parsed {uri}", out)


def altitude(env, key, flavour="lxml"):
    """Sea floor modes are in the gx namespace, the others in KML's; both are
    read from either."""
    et = util.use(env, flavour)
    mode = env.pick("mode", ENUMS["AltitudeMode"])
    fl = SPEC[key].field("altitude_mode")
    m = rec.enum_member("AltitudeMode", mode)
    own = NS[SPEC[key].ns]
    el = rec.cls_of(key)(altitude_mode=m).etree_element()
    ns = GX if mode in ("clampToSeaFloor", "relativeToSeaFloor") else KML
    kids = [c for c in el if c.tag.endswith("altitudeMode")]
    env.check([c.tag for c in kids] == [ns + "altitudeMode"], f"{key}: {mode} namespace")
    env.check([c.text for c in kids] == [mode], f"{key}: {mode} text")
    for where in (KML, GX):
        src = et.Element(own + SPEC[key].tag)
        et.SubElement(src, where + "altitudeMode").text = mode
        obj = rec.cls_of(key).class_from_element(ns=own, name_spaces=dict(NS), element=src, strict=True)
        env.check(obj.altitude_mode is m, f"{key}: {mode} in {where}")


def tables(env, key, flavour="lxml"):
    """Every object has namespace tables of its own."""
    util.use(env, flavour)
    cfg = util.config()
    extra = env.text("uri", 2, strip=True)
    given = {"kml": KML, "ex": extra}
    kw = {"id": "s"} if key == "Schema" else {}
    c = rec.cls_of(key)
    a = c(name_spaces=given, **kw)
    b = c(**kw)
    env.check(given == {"kml": KML, "ex": extra}, f"{key}: name_spaces of the caller changed")
    env.check(a.name_spaces.get("ex") == extra, f"{key}: given namespace lost")
    for k, v in NS.items():
        env.check(a.name_spaces.get(k) == v and b.name_spaces.get(k) == v, f"{key}: default namespace {k}")
    env.check(b.ns == NS[SPEC[key].ns], f"{key}: default namespace of the element")
    env.check("ex" not in b.name_spaces and "ex" not in cfg.NAME_SPACES, f"{key}: namespace leaked")
    a.name_spaces["more"] = "{more}"
    env.check("more" not in given and "more" not in b.name_spaces and "more" not in cfg.NAME_SPACES, f"{key}: shared table")
    b.name_spaces["own"] = "{own}"
    fresh = c(**kw)
    shared = "own" in fresh.name_spaces or "own" in cfg.NAME_SPACES or "own" in a.name_spaces
    for t in (cfg.NAME_SPACES, fresh.name_spaces):
        t.pop("own", None)
    env.check(not shared, f"{key}: the table of an object built with defaults is shared")
    s = c(name_spaces=given, **kw).to_string()
    d = c.from_string(s, name_spaces=given)
    env.check(given == {"kml": KML, "ex": extra}, f"{key}: name_spaces of the caller changed by reading")
    d.name_spaces["yet"] = "{yet}"
    shared = "yet" in given or "yet" in cfg.NAME_SPACES
    cfg.NAME_SPACES.pop("yet", None)
    env.check(not shared, f"{key}: shared table after reading")
    e = c.from_string(c(**kw).to_string())
    f = c.from_string(c(**kw).to_string())
    e.name_spaces["last"] = "{last}"
    shared = "last" in cfg.NAME_SPACES or "last" in f.name_spaces or "last" in c(**kw).name_spaces
    for t in (cfg.NAME_SPACES, f.name_spaces):
        t.pop("last", None)
    env.check(not shared, f"{key}: objects read separately share their table")


def prefix(env, key, ns, flavour="lxml"):
    """The namespace given for an element is the one written."""
    util.use(env, flavour)
    uri = env.text("uri", 2, alphabet="abcdefgh0123", pre="{http://", post="}")
    kw = {"id": "s"} if key == "Schema" else {}
    el = rec.cls_of(key)(ns="{http://x}" if ns == "fixed" else "", **kw).etree_element()
    want = ("{http://x}" if ns == "fixed" else "") + SPEC[key].tag
    env.check(el.tag == want, f"{key}: tag for a given namespace")
    env.check(len(uri) > 0, "input")


def both(env, key, attr, nm, flavour="lxml"):
    """Where an element is there with and without the document's namespace,
    the one in the namespace counts."""
    et = util.use(env, flavour)
    fl = SPEC[key].field(attr)
    base = {"id": True} if key == "Schema" else {}
    how = {attr: True if nm is None else nm if fl.kind == "X" else (nm,)}
    r = rec.gen(env, key, "v", {**base, **how}, (attr,) if fl.kind not in ("X", "L", "D") else ())
    other = rec.gen(env, key, "w", how, ())
    el = rec.build(et, r)
    kids = list(rec.build(et, other, nsmap=nsmap_of("")))
    if env.pick("first", ("namespace", "none")) == "namespace":
        el.extend(kids)
    else:
        for i, k in enumerate(kids):
            el.insert(i, k)
    obj = rec.cls_of(key).class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=el, strict=True)
    out = []
    rec.diff(obj, r, key, out)
    util.report(env, "with and without the namespace", out)
