"""Typed values in documents: what strict and lenient reading do with any text."""
from harness import rec, util
from harness.spec import ENUMS, NS, SPEC

CHILD = ("B", "I", "F", "E", "D")
ATTRIBUTE = ("IA", "FA", "EA")


def parse_error():
    return rec.fk("exceptions").KMLParseError


def node_for(et, key, fl, text):
    s = SPEC[key]
    el = et.Element(NS[s.ns] + s.tag)
    if key == "Schema":
        el.set("id", "s")
    if fl.kind in ATTRIBUTE:
        el.set(fl.node, text)
    else:
        sub = et.SubElement(el, NS["kml" if fl.kind == "D" else fl.ns or s.ns] + fl.node)
        sub.text = text
    return el


def siblings(et, key, fl, el):
    """Up to two other well-formed values in the same element."""
    out = []
    s = SPEC[key]
    for o in s.fields:
        if o is fl or len(out) == 2:
            continue
        if o.kind in ("T", "F", "B", "I"):
            sub = et.SubElement(el, NS[s.ns] + o.node)
            sub.text = {"T": "some text", "F": "12.5", "B": "1", "I": "12"}[o.kind]
            out.append((o, {"T": "some text", "F": 12.5, "B": True, "I": 12}[o.kind]))
    return out


def meaning(kind, arg, text, strict):
    """('bad',) when the text is not a value of the type, else ('ok', value),
    ('empty',) for blank text, ('any',) where both answers are fine."""
    body = text.strip()
    if len(body) == 0:
        return ("empty",)
    if kind == "B":
        low = body if strict else body.lower()
        if low == "1" or low == "true":
            return ("ok", True)
        if low == "0" or low == "false":
            return ("ok", False)
        if strict:
            return ("bad",)
        try:
            float(body)
        except ValueError:
            return ("bad",)
        return ("any",)
    if kind in ("I", "IA"):
        try:
            return ("ok", int(body))
        except ValueError:
            return ("bad",)
    if kind in ("F", "FA"):
        try:
            return ("ok", float(body))
        except ValueError:
            return ("bad",)
    for v in ENUMS[arg]:
        if (body == v) if strict else (body.lower() == v.lower()):
            return ("ok", rec.enum_member(arg, v))
    return ("bad",)


def agree(kind, got, want):
    if kind in ("E", "EA"):
        return got is want
    if kind in ("F", "FA"):
        return isinstance(got, float) and (got == want or (got != got and want != want))
    if kind == "B":
        return isinstance(got, bool) and got == want
    return isinstance(got, int) and not isinstance(got, bool) and got == want


def typed(env, key, attr, n, strict, alphabet=None, pre="", post="", flavour="lxml"):
    et = util.use(env, flavour)
    fl = SPEC[key].field(attr)
    text = env.text("text", n, ascii=True, alphabet=alphabet, pre=pre, post=post)
    if fl.kind in ATTRIBUTE and n:
        env.assume(not text[0].isspace() and not text[-1].isspace())
    el = node_for(et, key, fl, text)
    rest = siblings(et, key, fl, el)
    what = f"{key}.{attr} {'strict' if strict else 'lenient'}"
    m = meaning(fl.kind, fl.arg, text, strict)
    try:
        obj = rec.cls_of(key).class_from_element(ns=NS[SPEC[key].ns], name_spaces=dict(NS), element=el, strict=strict)
    except parse_error():
        env.check(strict, f"{what}: raised")
        env.check(m[0] == "bad", f"{what}: rejected a value")
        return
    got = getattr(obj, attr)
    if m[0] == "ok":
        env.check(got is not None, f"{what}: lost a value")
        env.check(agree(fl.kind, got, m[1]), f"{what}: wrong value")
    elif m[0] == "bad":
        env.check(not strict, f"{what}: accepted malformed text")
        env.check(got is None, f"{what}: value for malformed text")
    elif m[0] == "empty":
        env.check(got is None, f"{what}: value for blank text")
    else:
        env.check(isinstance(got, bool), f"{what}: not a boolean")
    for o, v in rest:
        env.check(getattr(obj, o.attr) == v, f"{what}: sibling {o.attr}")


def dates(env, key, attr, n, strict, alphabet=None, pre="", post="", flavour="lxml"):
    """Any text in a date element: a value or KMLParseError when strict; a value
    or nothing when lenient, siblings untouched."""
    et = util.use(env, flavour)
    fl = SPEC[key].field(attr)
    text = env.text("text", n, ascii=True, alphabet=alphabet, pre=pre, post=post)
    el = node_for(et, key, fl, text)
    rest = siblings(et, key, fl, el)
    what = f"{key}.{attr} {'strict' if strict else 'lenient'}"
    try:
        obj = rec.cls_of(key).class_from_element(ns=NS[SPEC[key].ns], name_spaces=dict(NS), element=el, strict=strict)
    except parse_error():
        env.check(strict, f"{what}: raised")
        return
    got = getattr(obj, attr)
    body = text.strip()
    if len(body) == 0:
        env.check(got is None, f"{what}: value for blank text")
    elif len(body) < 4:
        env.check(not strict, f"{what}: accepted malformed text")
        env.check(got is None, f"{what}: value for malformed text")
    elif len(body) == 4:
        # a year, nothing else (arrow reads no other four characters)
        if all("0" <= c <= "9" for c in body) and body != "0000":
            env.check(got is not None, f"{what}: lost a value")
            env.check(got.resolution.value == "gYear", f"{what}: resolution")
            env.check(got.dt.year == int(body), f"{what}: year")
    for o, v in rest:
        env.check(getattr(obj, o.attr) == v, f"{what}: sibling {o.attr}")


# ---------------------------------------------------------------------------
# a bad value somewhere in a document

SPOTS = {
    # name: (path of element names from Document, kind of text)
    "visibility": ("Placemark", "visibility"),
    "open": ("open",),
    "longitude": ("Placemark", "LookAt", "longitude"),
    "extrude": ("Placemark", "Point", "extrude"),
    "altitudeMode": ("Placemark", "LookAt", "altitudeMode"),
    "when": ("Placemark", "TimeStamp", "when"),
    "scale": ("Style", "IconStyle", "scale"),
    "fill": ("Style", "PolyStyle", "fill"),
    "refreshInterval": ("NetworkLink", "Link", "refreshInterval"),
    "drawOrder": ("GroundOverlay", "drawOrder"),
    "minLodPixels": ("Placemark", "Region", "Lod", "minLodPixels"),
    "maxLines": ("Placemark", "Snippet", "@maxLines"),
    "hotSpot": ("Style", "IconStyle", "hotSpot", "@x"),
    "xunits": ("Style", "IconStyle", "hotSpot", "@xunits"),
    "coordinates": ("Placemark", "Point", "coordinates"),
    "displayMode": ("Style", "BalloonStyle", "displayMode"),
}

TEMPLATE = """<kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>doc</name><open>1</open>
<Style id="s1"><IconStyle><scale>2.5</scale><Icon><href>i.png</href></Icon><hotSpot x="1" y="1" xunits="pixels" yunits="pixels"/></IconStyle>
<PolyStyle><color>7f00ff00</color><fill>1</fill></PolyStyle>
<BalloonStyle><text>t</text><displayMode>default</displayMode></BalloonStyle></Style>
<Placemark id="p1"><name>place</name><visibility>1</visibility><Snippet maxLines="3">sn</Snippet>
<LookAt><longitude>1.5</longitude><latitude>2.5</latitude><altitudeMode>absolute</altitudeMode></LookAt>
<TimeStamp><when>2001-02-03</when></TimeStamp>
<Region><LatLonAltBox><north>1.5</north><south>0.5</south><east>1.5</east><west>0.5</west></LatLonAltBox><Lod><minLodPixels>8</minLodPixels></Lod></Region>
<Point><extrude>1</extrude><coordinates>1.5,2.5</coordinates></Point></Placemark>
<NetworkLink id="n1"><Link><href>h.kml</href><refreshInterval>3.5</refreshInterval></Link></NetworkLink>
<GroundOverlay id="g1"><drawOrder>4</drawOrder><Icon><href>o.png</href></Icon></GroundOverlay>
</Document></kml>"""

READ = {
    "open": lambda d: d.isopen,
    "scale": lambda d: d.styles[0].styles[0].scale,
    "icon": lambda d: d.styles[0].styles[0].icon.href,
    "hotSpot": lambda d: d.styles[0].styles[0].hot_spot.x,
    "xunits": lambda d: d.styles[0].styles[0].hot_spot.xunits,
    "polycolor": lambda d: [s for s in d.styles[0].styles if type(s).__name__ == "PolyStyle"][0].color,
    "fill": lambda d: [s for s in d.styles[0].styles if type(s).__name__ == "PolyStyle"][0].fill,
    "balloon": lambda d: [s for s in d.styles[0].styles if type(s).__name__ == "BalloonStyle"][0].text,
    "displayMode": lambda d: [s for s in d.styles[0].styles if type(s).__name__ == "BalloonStyle"][0].display_mode,
    "name": lambda d: d.name,
    "visibility": lambda d: pm(d).visibility,
    "placename": lambda d: pm(d).name,
    "snippet": lambda d: pm(d).snippet.text,
    "maxLines": lambda d: pm(d).snippet.max_lines,
    "longitude": lambda d: pm(d).view.longitude,
    "latitude": lambda d: pm(d).view.latitude,
    "altitudeMode": lambda d: pm(d).view.altitude_mode,
    "north": lambda d: pm(d).region.lat_lon_alt_box.north,
    "minLodPixels": lambda d: pm(d).region.lod.min_lod_pixels,
    "extrude": lambda d: pm(d).kml_geometry.extrude,
    "when": lambda d: str(pm(d).times.timestamp) if pm(d).times.timestamp is not None else None,
    "coordinates": lambda d: list(pm(d).kml_geometry.kml_coordinates.coords) or None,
    "href": lambda d: of(d, "NetworkLink").link.href,
    "refreshInterval": lambda d: of(d, "NetworkLink").link.refresh_interval,
    "drawOrder": lambda d: of(d, "GroundOverlay").draw_order,
    "icon2": lambda d: of(d, "GroundOverlay").icon.href,
}


def of(d, name):
    return [f for f in d.features if type(f).__name__ == name][0]


def pm(d):
    return of(d, "Placemark")


def document(env, spot, n, strict, alphabet=None, flavour="lxml"):
    """One value of a document is replaced by any text."""
    et = util.use(env, flavour)
    kml = rec.fk("kml").KML
    good = {k: f(kml.from_string(TEMPLATE).features[0]) for k, f in READ.items()}
    root = et.fromstring(TEMPLATE)
    el = root[0]
    path = SPOTS[spot]
    for p in path:
        if p.startswith("@"):
            break
        el = el.find(NS["kml"] + p)
    text = env.text("text", n, ascii=True, alphabet=alphabet)
    if path[-1].startswith("@"):
        el.set(path[-1][1:], text)
        env.assume(n == 0 or not text[0].isspace() and not text[-1].isspace())
    else:
        el.text = text
    what = f"document {spot} {'strict' if strict else 'lenient'}"
    try:
        d = kml.class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=root, strict=strict).features[0]
    except parse_error():
        env.check(strict, f"{what}: raised")
        env.reach(f"{what}: rejected")
        return
    env.reach(f"{what}: accepted")
    env.check(len(d.features) == 3, f"{what}: features")
    for k, f in READ.items():
        if k != spot:
            env.check(f(d) == good[k], f"{what}: {k} changed")


def held(env, key, parent, attr, strict, flavour="lxml"):
    """Malformed text in a part, wherever the part is held and whatever stands
    beside it, is refused or left out; all the rest is read."""
    et = util.use(env, flavour)
    s = SPEC[key]
    fl = s.field(env.pick("field", [f.attr for f in s.fields if f.kind in (*CHILD, *ATTRIBUTE, "C")]))
    if fl.attr in rec.needed(key) and not (fl.kind == "C" and s.tag == "coordinates"):
        base = {a: True for a in rec.needed(key)}
    else:
        base = {a: True for a in rec.needed(key) if a != fl.attr}
    bad = env.text("text", 1, alphabet="ghjkpqwz")
    mine = rec.gen(env, key, "v", {**base, fl.attr: True}, (), plain=True)
    at = SPEC[parent].field(attr)
    up = rec.gen(env, parent, "p", {a: True for a in rec.needed(parent) if a != attr}, (), plain=True)
    up.val.update({"id": "s"} if parent == "Schema" else {})
    if at.kind == "L":
        place = env.pick("place", ("alone", "first", "last"))
        beside = [rec.gen_child(env, nm, f"s.{nm}", False) for nm in at.arg]
        members = {"alone": [mine], "first": [mine, *beside], "last": [*beside, mine]}[place]
        up.val[attr] = members
    else:
        up.val[attr] = mine
    up.val = {f.attr: up.val[f.attr] for f in up.spec.fields if f.attr in up.val}
    el = rec.build(et, up)
    tag = NS[s.ns] + s.tag
    spot = [c for c in el if c.tag == tag]
    spot = spot[0] if at.kind == "X" or place != "last" else spot[-1]
    if fl.kind in ATTRIBUTE:
        spot.set(fl.node, bad)
    elif fl.kind == "C":
        spot.text = bad
    else:
        [c for c in spot if c.tag.rpartition("}")[2] == fl.node][0].text = bad
    what = f"{key}.{fl.attr} in {parent}.{attr} {'strict' if strict else 'lenient'}"
    try:
        got = rec.cls_of(parent).class_from_element(ns=NS[SPEC[parent].ns], name_spaces=dict(NS), element=el, strict=strict)
    except parse_error():
        env.check(strict, f"{what}: raised")
        return
    env.check(not strict, f"{what}: malformed text accepted")
    left = rec.Rec(key)
    left.val = {k: v for k, v in mine.val.items() if k != fl.attr}
    want = rec.Rec(parent)
    want.val = dict(up.val)
    out = []
    if fl.attr in rec.needed(key):
        # what is left lacks its content, it may be dropped
        del want.val[attr]
        rec.diff(got, want, parent, out, skip=(attr,))
        if at.kind == "L":
            have = getattr(got, attr)
            for i, m in enumerate(m for m in members if m is not mine):
                own = [h for h in have if type(h) is rec.cls_of(m.key)]
                own = own[-1:] if m.key == key and place == "first" else own[:1]
                env.check(len(own) == 1, f"{what}: {m.key} beside it lost")
                if own:
                    rec.diff(own[0], m, f"{what}: {m.key} beside it", out)
    else:
        want.val[attr] = [left if m is mine else m for m in members] if at.kind == "L" else left
        rec.diff(got, want, parent, out)
    util.report(env, what, out)


# ---------------------------------------------------------------------------
# tracks whose lists do not fit together

def track_counts(env, whens, coords, angles, strict, flavour="lxml"):
    """A track with different numbers of times, positions and orientations is
    reported when strict, and read without an exception when lenient."""
    et = util.use(env, flavour)
    el = et.Element(NS["gx"] + "Track")
    for i in range(whens):
        et.SubElement(el, NS["kml"] + "when").text = rec.date_text(
            rec.Date("date", (env.integer(f"y{i}", 1, 9999), 2, 3), None))
    for tag, n in (("coord", coords), ("angles", angles)):
        for i in range(n):
            et.SubElement(el, NS["gx"] + tag).text = " ".join(str(env.number(f"{tag}{i}{c}", -90, 90)) for c in "xyz")
    pm = et.Element(NS["kml"] + "Placemark")
    et.SubElement(pm, NS["kml"] + "name").text = "n"
    pm.append(el)
    what = f"track of {whens} times, {coords} positions, {angles} orientations {'strict' if strict else 'lenient'}"
    try:
        p = rec.cls_of("Placemark").class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=pm, strict=strict)
    except parse_error():
        env.check(strict, f"{what}: raised")
        return
    except Exception as exc:  # noqa: BLE001
        if env.symbolic and type(exc).__module__.startswith("sx"):
            raise
        env.fail(f"{what}: {type(exc).__name__}")
        return
    env.check(p.name == "n", f"{what}: name of the placemark")
    fits = whens == coords and angles <= coords
    env.check(fits or not strict, f"{what}: accepted")
    if p.kml_geometry is not None:
        env.check(len(p.kml_geometry.track_items) == (whens if fits else 0), f"{what}: items")


def track_text(env, where, n, strict, alphabet=None, pre="", post="", flavour="lxml"):
    """Any text as the time, position or orientation of a track inside a
    placemark: its value, or an error when strict; none when lenient."""
    et = util.use(env, flavour)
    text = env.text("text", n, ascii=True, alphabet=alphabet, pre=pre, post=post)
    pm = et.Element(NS["kml"] + "Placemark")
    et.SubElement(pm, NS["kml"] + "name").text = "n"
    el = et.SubElement(pm, NS["gx"] + "Track")
    el.set("id", "t")
    et.SubElement(el, NS["kml"] + "altitudeMode").text = "absolute"
    for ns, tag, good in (("kml", "when", "2001-02-03"), ("gx", "coord", "1.5 2.5 3.5"), ("gx", "angles", "4.5 5.5 6.5")):
        et.SubElement(el, NS[ns] + tag).text = text if tag == where else good
    what = f"track {where} {'strict' if strict else 'lenient'}"
    words = text.split()
    nums = []
    bad = False
    if where != "when":
        for w in words:
            try:
                nums.append(float(w))
            except ValueError:
                bad = True
        if where == "coord":
            bad = bad or len(words) not in (2, 3)
        else:
            bad = bad or len(words) > 3
    try:
        p = rec.cls_of("Placemark").class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=pm, strict=strict)
    except parse_error():
        env.check(strict, f"{what}: raised")
        env.check(where == "when" or bad, f"{what}: rejected a value")
        return
    t = p.kml_geometry
    env.check(p.name == "n", f"{what}: name of the placemark")
    env.check(t.id == "t", f"{what}: id of the track")
    env.check(t.altitude_mode.value == "absolute", f"{what}: altitude mode of the track")
    items = t.track_items
    if where == "coord" and bad:
        env.check(not strict, f"{what}: accepted malformed text")
        env.check(len(items) == 0, f"{what}: items")
        return
    if where == "angles" and bad:
        env.check(not strict, f"{what}: accepted malformed text")
        for i in items:
            env.check(i.coord.coords[0] == (1.5, 2.5, 3.5), f"{what}: position")
        return
    if where == "when":
        if len(text.strip()) < 4:
            env.check(not strict, f"{what}: accepted malformed text")
            env.check(len(items) == 0, f"{what}: items")
        for i in items:
            env.check(i.coord.coords[0] == (1.5, 2.5, 3.5), f"{what}: position")
        return
    env.check(len(items) == 1, f"{what}: items")
    if len(items) != 1:
        return
    i = items[0]
    env.check(str(i.when) == "2001-02-03", f"{what}: time")
    pos, ang = (1.5, 2.5, 3.5), (4.5, 5.5, 6.5)
    if where == "coord":
        pos = tuple(nums)
    else:
        ang = (tuple(nums) + (0.0, 0.0, 0.0))[:3]
    out = []
    same_numbers(i.coord.coords[0], pos, "position", out)
    same_numbers(i.angle.coords, ang, "orientation", out)
    util.report(env, what, out)


def same_numbers(got, want, p, out):
    out.append((p + ".len", len(got) == len(want)))
    for g, w in zip(got, want):
        out.append((p, g == w or (g != g and w != w)))
