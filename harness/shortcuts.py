"""Convenience arguments and properties, and white space around text."""
from harness import rec, util
from harness.spec import FEATURES, NS, SPEC


# ---------------------------------------------------------------------------
# shortcuts

def icon_href(env, how, flavour="lxml"):
    """icon_href is the href of the icon."""
    util.use(env, flavour)
    href = env.text("href", 3, strip=True)
    other = env.text("other", 3, strip=True)
    st, ic = rec.cls_of("IconStyle"), rec.cls_of("Icon")
    if how == "href":
        s, want = st(icon_href=href), href
    elif how == "icon":
        s, want = st(icon=ic(href=href)), href
    elif how == "both":
        s, want = st(icon=ic(href=href), icon_href=other), href
    elif how == "ns":
        s, want = st(ns=NS["kml"], icon_href=href), href
    elif how == "padded":
        s, want = st(icon_href=" " + href + "\n"), href
    elif how == "changed":
        s, want = st(icon_href=other), href
        s.icon = ic(href=href)
    elif how == "blank":
        s, want = st(icon_href=" ", scale=1.0), None
    else:
        s, want = st(scale=2.0), None
    env.check((s.icon_href is None) == (want is None), f"icon_href by {how}")
    if want is not None:
        env.check(s.icon_href == want, f"icon_href by {how}")
        env.check(s.icon is not None and s.icon.href == want, f"icon by {how}")
    else:
        env.check(s.icon is None, f"icon by {how}")
    back = st.from_string(s.to_string())
    env.check((back.icon_href is None) == (want is None), f"icon_href by {how} read back")
    if want is not None and back.icon_href is not None:
        env.check(back.icon_href == want, f"icon_href by {how} read back")


def times(env, key, kind, flavour="lxml"):
    """time_stamp, begin and end of a feature or view are those of its times."""
    util.use(env, flavour)
    t = rec.fk("times")
    dates = {}
    for a in {"stamp": ("timestamp",), "span": ("begin", "end"), "begin": ("begin",), "end": ("end",)}.get(kind, ()):
        dates[a] = rec.gen_date(env, a, False)
    made = {a: rec.make_date(d) for a, d in dates.items()}
    ts = None
    if kind == "stamp":
        ts = t.TimeStamp(**made)
    elif kind != "none":
        ts = t.TimeSpan(**made)
    c = rec.cls_of(key)
    kw = {"link": rec.make(rec.gen_child(env, "Link", "link", False))} if key == "NetworkLink" else {}
    o = c(times=ts, **kw)
    back = c.from_string(o.to_string()) if key not in ("Camera", "LookAt") else None
    for x, what in ((o, "as given"), (back, "read back")):
        if x is None:
            continue
        for prop, a in (("time_stamp", "timestamp"), ("begin", "begin"), ("end", "end")):
            got = getattr(x, prop)
            if a not in dates:
                env.check(got is None, f"{key}.{prop} of {kind} {what}")
            else:
                out = []
                rec.diff_date(got, dates[a], f"{key}.{prop} of {kind} {what}", out)
                util.report(env, "times", out)


def placemark_geometry(env, key, flavour="lxml"):
    """The geometry of a placemark is the geometry of its KML geometry, and
    follows it."""
    util.use(env, flavour)
    pm = rec.cls_of("Placemark")
    env.check(pm().geometry is None, "a placemark without geometry has one")
    r = rec.gen(env, key, "v", {a: True for a in SPEC[key].req})
    k = rec.make(r)
    p = pm(kml_geometry=k)
    env.check(p.kml_geometry is k, f"{key}: not kept")
    same_geometry(env, p.geometry, k.geometry, key)
    q = pm()
    q.kml_geometry = k
    same_geometry(env, q.geometry, k.geometry, f"{key} assigned")
    q.kml_geometry = None
    env.check(q.geometry is None, f"{key}: geometry after removing it")


def same_geometry(env, a, b, what):
    from harness.geoms import same
    if b is None:
        env.check(a is None, f"{what}: geometry")
        return
    out = []
    same(a, b, what, out)
    util.report(env, "placemark", out)


def location(env, have, flavour="lxml"):
    """The geometry of a location or model, complete or not, zero or not."""
    util.use(env, flavour)
    val = {a: env.number(a, -90, 90) for a in have}
    loc = rec.cls_of("Location")(**val)
    g = loc.geometry
    m = rec.cls_of("Model")(location=loc, link=rec.cls_of("Link")(href="x"))
    full = "longitude" in have and "latitude" in have
    for x, what in ((g, "location"), (m.geometry, "model")):
        env.check((x is not None) == full, f"{what} with {have}: geometry")
        if full and x is not None:
            want = (val["longitude"], val["latitude"], *([val["altitude"]] if "altitude" in have else []))
            out = []
            rec.tuple_diff(x.coords[0], want, f"{what} with {have}", out)
            util.report(env, "geometry", out)
    env.check(rec.cls_of("Model")(link=rec.cls_of("Link")(href="x")).geometry is None, "model without a location")


def track_lists(env, n, d, flavour="lxml"):
    """whens, coords and angles of a track are those of its items."""
    from harness.geoms import gx, items_of
    util.use(env, flavour)
    items = items_of(env, n, d, n)
    t = gx().Track(track_items=[rec.make_item(i) for i in items])
    out = [("whens", len(t.whens) == n), ("coords", len(t.coords) == n), ("angles", len(t.angles) == n)]
    for i, it in enumerate(items):
        if i < len(t.whens):
            rec.diff_date(t.whens[i], it.when, f"when {i}", out)
        if i < len(t.coords):
            rec.tuple_diff(t.coords[i], it.coord, f"coord {i}", out)
        if i < len(t.angles):
            rec.tuple_diff(t.angles[i], it.angle, f"angles {i}", out)
    util.report(env, "track", out)
    if n:
        t.track_items.pop(0)
        out = [("whens", len(t.whens) == n - 1), ("coords", len(t.coords) == n - 1), ("angles", len(t.angles) == n - 1)]
        util.report(env, "track after removing an item", out)


# ---------------------------------------------------------------------------
# white space around text

EXACT = ("id", "target_id")


def base_of(key, attr):
    return {"id": "s"} if key == "Schema" and attr != "id" else {}


def blank_ok(key, attr):
    return not (key == "Schema" and attr == "id")


def cleaned(env, key, attr, n, flavour="lxml"):
    """Text given to a constructor is kept without the white space around it;
    blank text is no text."""
    util.use(env, flavour)
    raw = env.text("raw", n)
    fl = SPEC[key].field(attr)
    want = raw.strip()
    if len(want) == 0 and not blank_ok(key, attr):
        return
    o = rec.cls_of(key)(**{attr: raw}, **base_of(key, attr))
    got = getattr(o, attr)
    el = o.etree_element()
    if fl.kind in ("T",):
        kids = [c for c in el if c.tag == NS[SPEC[key].ns] + fl.node]
        texts = [c.text for c in kids]
    elif fl.kind == "A":
        texts = [el.get(fl.node)] if fl.node in el.attrib else []
    else:
        texts = [el.text] if el.text is not None and len(el.text.strip()) else []
    if len(want) == 0:
        env.check(got is None or len(got) == 0, f"{key}.{attr}: blank text is kept")
        env.check(len(texts) == 0, f"{key}.{attr}: blank text is written")
        env.reach("blank")
    else:
        env.check(got is not None and got == want, f"{key}.{attr}: text given")
        env.check(len(texts) == 1 and texts[0] is not None and texts[0] == want, f"{key}.{attr}: text written")


def read_text(env, key, attr, n, flavour="lxml"):
    """Text read from an element is the text without the white space around
    it; blank text is no text."""
    et = util.use(env, flavour)
    raw = env.text("raw", n)
    fl = SPEC[key].field(attr)
    want = raw.strip()
    if len(want) == 0 and not blank_ok(key, attr):
        return
    ns = NS[SPEC[key].ns]
    el = et.Element(ns + SPEC[key].tag)
    for a, v in base_of(key, attr).items():
        el.set(a, v)
    if fl.kind == "T":
        et.SubElement(el, ns + fl.node).text = raw
    elif fl.kind == "A":
        el.set(fl.node, raw)
    else:
        el.text = raw
    strict = env.pick("strict", (True, False))
    o = rec.cls_of(key).class_from_element(ns=ns, name_spaces=dict(NS), element=el, strict=strict)
    got = getattr(o, attr)
    if len(want) == 0:
        env.check(got is None or len(got) == 0, f"{key}.{attr}: blank text is read")
        env.reach("blank")
    else:
        env.check(got is not None and got == want, f"{key}.{attr}: text read")
