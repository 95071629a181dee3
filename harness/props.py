"""The properties, the jobs that decide them, and their bounds."""
from harness import rec, spec, util


def job(name, module, fn, time=40.0, max_paths=4000, **params):
    return {"name": name, "module": module, "fn": fn, "params": params, "time": time, "max_paths": max_paths}


def sweep(tier, module, fn, pairs=False, size=12, keys=None, light=False, extra="", **params):
    """One job per class and chunk of field selections; extra: t for texts of
    every form, b for larger objects."""
    out = []
    for key in keys or spec.names():
        shs = rec.shapes(key, pairs=pairs)
        if "b" in extra:
            for i, sh in enumerate(rec.bulk_shapes(key)):
                out.append(job(f"{fn} {key} bulk {i} {' '.join(str(v) for v in params.values())}".strip(), module, fn, key=key,
                               shapes=[sh], **params))
        if "t" in extra:
            for i, ch in enumerate(util.chunks(rec.text_shapes(key), 4)):
                out.append(job(f"{fn} {key} texts {i} {' '.join(str(v) for v in params.values())}".strip(), module, fn, key=key,
                               shapes=ch, **params))
        if light:
            shs = rec.light(shs, key)
        tag = " ".join(str(v) for v in params.values())
        for i, ch in enumerate(util.chunks(shs, size)):
            out.append(job(f"{fn} {key} {i} {tag}".strip(), module, fn, key=key, shapes=ch, **params))
    return out


def roundtrip_jobs(tier):
    out = sweep(tier, "roundtrip", "roundtrip", pairs=tier == "thorough", extra="tb")
    out += sweep(tier, "roundtrip", "roundtrip", flavour="std")
    return out + coords_jobs()


def coords_jobs():
    return [job(f"given_coords {key} {how} {n}", "objects", "given_coords", key=key, how=how, n=n)
            for key in ("Coordinates", "LineString", "LinearRing") for how in ("list", "tuple", "generator", "iterator") for n in (2, 3)]


def write_jobs(tier):
    return sweep(tier, "generic", "write", pairs=tier == "thorough", extra="tb")


def order_jobs(tier):
    return sweep(tier, "generic", "order", pairs=True, size=40, extra="b") + sweep(tier, "generic", "order", verbosity="verbose")


def read_jobs(tier):
    return sweep(tier, "generic", "read", pairs=tier == "thorough", size=6, extra="tb")


def verbosity_jobs(tier):
    return [j for m in ("terse", "normal", "verbose")
            for j in sweep(tier, "generic", "verbosity", pairs=tier == "thorough", mode=m, extra="tb")]


NUM = "0123456789+-.eE_ nxIF"


AROUND = {"B": (("tru", 1, ""), ("", 1, "rue"), ("f", 2, "se"), ("1", 1, ""), ("0", 1, ""), ("tr", 1, "e"), ("1", 1, "0"), ("true", 2, ""),
                ("", 2, "false"), ("on", 1, ""), ("ye", 1, ""), ("0", 2, "0")),
          "N": (("1e", 2, ""), ("-0", 1, "0"), ("99999999999999999999", 1, ""), ("12", 1, "5"), ("0x", 1, ""), ("1", 2, "0"),
                ("1.", 1, ""), ("-", 1, "1"), ("1,", 1, ""), ("in", 1, ""), ("na", 1, ""), ("0.", 2, "5"), ("1 ", 1, ""), ("+", 2, ""),
                ("1e+", 1, "0"), ("0b", 1, ""), ("1000", 1, "000"), ("5", 1, "%"), ("0", 2, ""))}


def typed_jobs(strict):
    def jobs(tier):
        out = []
        deep = {}
        for key in spec.names():
            for fl in spec.SPEC[key].fields:
                k = fl.kind
                if k in ("B", "I", "F", "IA", "FA"):
                    first = k not in deep
                    deep[k] = True
                    hi = 3 if tier == "quick" else 4
                    for n in range(0, (hi if first else 2) + 1):
                        out.append(job(f"typed {key}.{fl.attr} {n}", "typed", "typed", key=key, attr=fl.attr, n=n, strict=strict))
                    if first:
                        for n in (4, 5):
                            out.append(job(f"typed {key}.{fl.attr} {n} numeric", "typed", "typed", key=key, attr=fl.attr, n=n,
                                           strict=strict, alphabet="0123456789+-.eE " if k != "B" else "truefalsTRUEFALS10 "))
                        for pre, n, post in AROUND["B" if k == "B" else "N"]:
                            out.append(job(f"typed {key}.{fl.attr} {pre!r} {n} {post!r}", "typed", "typed", key=key, attr=fl.attr, n=n,
                                           strict=strict, pre=pre, post=post))
                elif k in ("E", "EA"):
                    ls = sorted({len(v) for v in spec.ENUMS[fl.arg]})
                    full = (fl.arg, k) not in deep
                    deep[fl.arg, k] = True
                    for n in sorted({0, 1, *(ls if full or tier == "thorough" else ls[:1])}):
                        out.append(job(f"typed {key}.{fl.attr} {n}", "typed", "typed", key=key, attr=fl.attr, n=n, strict=strict))
                elif k == "D":
                    first = "D" not in deep
                    deep["D"] = True
                    for n in (0, 1, 2, 3, 4, 5) if first or tier == "thorough" else (0, 2):
                        out.append(job(f"dates {key}.{fl.attr} {n}", "typed", "dates", key=key, attr=fl.attr, n=n, strict=strict))
                    if first:
                        for n in (6, 7, 8, 10):
                            out.append(job(f"dates {key}.{fl.attr} {n} digits", "typed", "dates", key=key, attr=fl.attr, n=n,
                                           strict=strict, alphabet="0123456789-"))
        for spot in ("visibility", "open", "longitude", "extrude", "altitudeMode", "when", "scale", "fill", "refreshInterval",
                     "drawOrder", "minLodPixels", "maxLines", "hotSpot", "xunits", "coordinates", "displayMode"):
            for n in (1, 2) if tier == "quick" else (1, 2, 3):
                out.append(job(f"document {spot} {n}", "typed", "document", spot=spot, n=n, strict=strict))
        for where in ("when", "coord", "angles"):
            for n in (0, 1, 2, 3):
                out.append(job(f"track_text {where} {n}", "typed", "track_text", where=where, n=n, strict=strict))
            for pre, n, post in (("1 2", 1, ""), ("1", 1, "2"), ("1", 2, "2"), ("-1.5 2.5 3", 2, ""), ("", 2, "1 2 3"), ("1 2 3 4", 1, ""),
                                 ("1", 1, "2"), ("200", 1, "-01"), ("2001-02-0", 1, ""), ("2001", 2, "")):
                out.append(job(f"track_text {where} {pre!r} {n} {post!r}", "typed", "track_text", where=where, n=n, strict=strict,
                               pre=pre, post=post))
        for key in spec.names():
            if any(fl.kind in ("B", "I", "IA", "F", "FA", "E", "EA", "D", "C") for fl in spec.SPEC[key].fields):
                for p, attr in parents_of(key):
                    out.append(job(f"held {key} in {p}.{attr}", "typed", "held", key=key, parent=p, attr=attr, strict=strict))
        for w in range(3):
            for c in range(3):
                for a in range(3):
                    out.append(job(f"track_counts {w} {c} {a}", "typed", "track_counts", whens=w, coords=c, angles=a,
                                   strict=strict))
        return out
    return jobs


def date_jobs(tier):
    from harness.dates import OFFSETS, RES
    out = []
    offs = OFFSETS if tier == "thorough" else OFFSETS[:8]
    for res in (None, *RES):
        out.append(job(f"given date {res}", "dates", "given", source="date", res=res, off=0, frac=False))
        for off in offs:
            for frac in (False, True):
                out.append(job(f"given datetime {res} {off} {frac}", "dates", "given", source="datetime", res=res, off=off,
                               frac=frac))
    for key in spec.names():
        for fl in spec.SPEC[key].fields:
            if fl.kind == "D":
                for res in RES:
                    for off in offs if res == "dateTime" else (0,):
                        out.append(job(f"through {key}.{fl.attr} {res} {off}", "dates", "through", key=key, attr=fl.attr,
                                       res=res, off=off, frac=off == 60))
    for res in RES[:3]:
        out.append(job(f"lexical {res}", "dates", "lexical", form=res))
    for frac in ("", ".f", ".ff", ".fff", ".ffff", ".fffff", ".ffffff"):
        for zone in ("", "Z", "+01:00", "-05:30", "+14:00", "-00:30") if tier == "thorough" or not frac else ("", "-05:30"):
            out.append(job(f"lexical dateTime {frac}{zone}", "dates", "lexical", form="dateTime", tail=frac + zone))
    for n in range(1, 7):
        out.append(job(f"loose {n}", "dates", "loose", n=n))
    for a in RES:
        for b in RES:
            out.append(job(f"equality {a} {b}", "dates", "equality", a=a, b=b))
    for a, b in ((0, 60), (60, -330), (840, -720), (90, 90), (-60, 0), (5, -5), (1439, -1439), (330, 345)):
        out.append(job(f"zones {a} {b}", "dates", "zones", a=a, b=b))
    for a in (None, *RES):
        for b in (None, *RES):
            out.append(job(f"span {a} {b}", "dates", "span", begin=a, end=b))
    return out


PROPS = {
    "P08": {"jobs": date_jobs},
    "P01": {"jobs": roundtrip_jobs},
    "P02": {"jobs": write_jobs},
    "P03": {"jobs": order_jobs},
    "P04": {"jobs": read_jobs},
    "P06": {"jobs": typed_jobs(True)},
    "P07": {"jobs": typed_jobs(False)},
    "P05": {"jobs": verbosity_jobs},
}


def coord_jobs(tier):
    from harness import coords as c
    deep = tier == "thorough"
    out = []
    for gap in c.GAPS:
        for comma in c.COMMAS:
            for pad in c.PADS:
                for d in (2, 3):
                    out.append(job(f"layout {gap} {comma} {pad} {d}", "coords", "layout", n=4 if deep else 3, d=d, gap=gap,
                                   comma=comma, pad=pad, strict=d == 2))
    for strict in (True, False):
        for n in range(1, 7 if deep else 6):
            out.append(job(f"anytext {n} {strict}", "coords", "anytext", n=n, strict=strict,
                           alphabet="0123456789,.- \n" if n < 5 else "19,.- \n"))
        for pre, post in (("1.5,2.5 ", ""), ("", ",-2.5"), ("1.5,", " 3,4"), ("-1.25,2.5,", ""), ("1,2\n3,4,", "5")):
            for n in range(1, 5 if deep else 4):
                out.append(job(f"anytext {pre!r} {n} {post!r} {strict}", "coords", "anytext", n=n, strict=strict, pre=pre,
                               post=post, alphabet="0123456789,.- \n\teE+" if n < 3 else "19,.- \nex"))
        for n in (1, 2):
            out.append(job(f"anytext any {n} {strict}", "coords", "anytext", n=n, strict=strict, alphabet=None, pre="1,2 ",
                           post=",4"))
    for key in ("Coordinates", "LineString", "LinearRing", "Polygon", "KML"):
        for p in (None, 0, 1, 2, 3, 6, 9):
            for d in (2, 3):
                for entry in ("element", "text"):
                    out.append(job(f"write {key} {p} {d} {entry}", "coords", "write", key=key, n=3, d=d, precision=p, entry=entry))
    for p in (None, 0, 1, 3, 6, 9):
        out.append(job(f"track {p}", "coords", "track", precision=p))
        for d in (1, 4):
            for n in (1, 2):
                out.append(job(f"bad_dimension {d} {n} {p}", "coords", "bad_dimension", key="Coordinates", d=d, n=n, precision=p))
    out.append(job("empty", "coords", "empty"))
    for dims in ((2, 3), (3, 2), (2, 3, 2), (3, 3, 2), (2, 4), (3, 1), (2, 2, 1), (3, 3, 4), (2, 3, 0), (4, 2)):
        for p in (None, 0, 2):
            out.append(job(f"mixed {dims} {p}", "coords", "mixed", dims=dims, precision=p))
    for p in (0, 2, 5) if deep else (2,):
        out += sweep(tier, "coords", "rounding", extra="b", precision=p, pairs=deep, light=True)
    return out


PROPS["P09"] = {"jobs": coord_jobs}


def geometry_jobs(tier):
    from harness import geoms as g
    deep = tier == "thorough"
    out = []
    for kind in g.KINDS:
        for via in ("factory", "class", "placemark", "interface"):
            for d in (2, 3):
                out.append(job(f"convert {kind} {via} {d}", "geoms", "convert", kind=kind, d=d, via=via,
                               flavour="lxml" if d == 2 else "std"))
        for via in ("factory", "class"):
            out.append(job(f"flags {kind} {via}", "geoms", "flags", kind=kind, via=via))
    kinds = ("Point", "LineString", "LinearRing", "Polygon", "Polygon, one hole")
    for a in kinds:
        out.append(job(f"multi {a}", "geoms", "multi", kinds=[a]))
        for b in kinds:
            out.append(job(f"multi {a} + {b}", "geoms", "multi", kinds=[a, b]))
            for c in kinds if deep else ("Point",):
                out.append(job(f"multi {a} + {b} + {c}", "geoms", "multi", kinds=[a, b, c]))
    for key in ("Point", "LineString", "LinearRing"):
        for n in range(0, 5):
            for d in range(1, 6 if deep else 5):
                out.append(job(f"degenerate {key} {n} {d}", "geoms", "degenerate", key=key, n=n, d=d))
    for key in ("Point", "LineString", "LinearRing", "OuterBoundaryIs", "InnerBoundaryIs", "Polygon", "MultiGeometry",
                "Placemark"):
        out.append(job(f"exclusive {key}", "geoms", "exclusive", key=key))
    for alt in (False, True):
        out.append(job(f"model {alt}", "geoms", "model", alt=alt))
    for holes in range(4):
        for d in (2, 3):
            out.append(job(f"polygon_parts {holes} {d}", "geoms", "polygon_parts", holes=holes, d=d))
    import itertools
    for what in ("holes", "Point", "LineString", "Polygon"):
        for n in (1, 2, 3) if deep or what == "holes" else (1, 2):
            for lay in itertools.product("fnrc", repeat=n):
                if set(lay) != {"f"} and (deep or n < 3 or "f" in lay):
                    out.append(job(f"hollow {what} {''.join(lay)}", "geoms", "hollow", layout="".join(lay), what=what))
    return out


def track_jobs(tier):
    deep = tier == "thorough"
    out = []
    top = 4 if deep else 3
    for n in range(1, top + 1):
        for ang in range(0, n + 1):
            for how in ("items", "generator", "lists"):
                for d in (2, 3):
                    out.append(job(f"track_build {n} {d} {ang} {how}", "geoms", "track_build", n=n, d=d, angles=ang, how=how))
            if ang == 0:
                for mask in range(2 ** n):
                    have = tuple(i for i in range(n) if mask >> i & 1)
                    out.append(job(f"track_build {n} {have} bare", "geoms", "track_build", n=n, d=3, angles=have, how="bare"))
            for lay in ("grouped", "backwards", "interleaved"):
                out.append(job(f"track_read {n} {ang} {lay}", "geoms", "track_read", n=n, angles=ang, layout=lay))
            out.append(job(f"track_write {n} {ang}", "geoms", "track_write", n=n, d=3, angles=ang))
            out.append(job(f"track_write {n} {ang} 2d", "geoms", "track_write", n=n, d=2, angles=ang))
    for w in ("w", "c", "wc"):
        out.append(job(f"track_both {w}", "geoms", "track_both", what=w))
    for sizes in ([1], [2], [2, 2], [3, 2], [0, 2], [2, 0, 2], [0], [], [2, 2, 2]):
        out.append(job(f"multitrack {sizes}", "geoms", "multitrack", sizes=sizes))
    for n in (1, 2):
        out.append(job(f"track_times {n}", "geoms", "track_times", n=n))
    return out


PROPS["P10"] = {"jobs": geometry_jobs}
PROPS["P11"] = {"jobs": track_jobs}


def no_ns_shapes(key):
    return [s for s in rec.shapes(key, pairs=False)]


def namespace_jobs(tier):
    from harness.naming import URIS
    deep = tier == "thorough"
    out = []
    for i, uri in enumerate(URIS):
        if i == 0 or deep:
            out += sweep(tier, "naming", "dialect", size=12, uri=uri, extra="b")
    skip = ("KML",)
    for key in spec.names():
        if key in skip:
            continue
        for i, ch in enumerate(util.chunks(no_ns_shapes(key), 12)):
            out.append(job(f"bare {key} {i}", "naming", "bare", key=key, shapes=ch))
        out.append(job(f"tables {key}", "naming", "tables", key=key))
        out.append(job(f"prefix {key} fixed", "naming", "prefix", key=key, ns="fixed"))
        out.append(job(f"prefix {key} none", "naming", "prefix", key=key, ns="none"))
        if any(f.attr == "altitude_mode" for f in spec.SPEC[key].fields):
            out.append(job(f"altitude {key}", "naming", "altitude", key=key))
        if spec.SPEC[key].ns == "kml":
            for f in spec.SPEC[key].fields:
                for nm in f.arg if f.kind in ("X", "L") else (None,):
                    if f.kind in ("T", "B", "I", "F", "E", "D") or nm is not None and spec.SPEC[nm].ns == "kml":
                        out.append(job(f"both {key}.{f.attr} {nm or ''}", "naming", "both", key=key, attr=f.attr, nm=nm))
    for key in (*spec.FEATURES, "NetworkLinkControl"):
        first = {f.attr: True for f in spec.SPEC[key].fields}
        for uri in (spec.KML, *URIS):
            for by in ("root", "names", "other names", "ns"):
                for fl in ("lxml", "std"):
                    out.append(job(f"parse {key} {uri} {by} {fl}", "naming", "parse", key=key, attrs=first, uri=uri, by=by,
                                   flavour=fl))
    return out


PROPS["P12"] = {"jobs": namespace_jobs}


def single_shapes(key):
    """(attr, attrs, rich): one field at a time, plus what the class needs."""
    s = spec.SPEC[key]
    base = {"id": True} if key == "Schema" else {}
    out = []
    for f in s.fields:
        if f.kind == "X":
            for nm in f.arg:
                out.append((f.attr, {**base, f.attr: nm}, (f.attr,) if nm in SMALL else ("edge",)))
        elif f.kind == "L":
            for nm in f.arg:
                need = {"outer_boundary": True} if key == "Polygon" else base
                out.append((f.attr, {**need, f.attr: (nm,)}, ("edge",)))
        else:
            out.append((f.attr, {**base, f.attr: True}, (f.attr,) if f.kind not in ("D", "C", "TR") else ()))
    return out


SMALL = ("StyleUrl", "Snippet", "HotSpot", "Location", "Orientation", "Scale", "Alias")


def equality_jobs(tier):
    out = coords_jobs()
    for key in spec.names():
        for attr, attrs, rich in single_shapes(key):
            tag = f"{key}.{attr} {attrs[attr] if attrs[attr] is not True else ''}"
            out.append(job(f"equality {tag}", "objects", "equality", key=key, attr=attr, attrs=attrs, rich=rich))
            out.append(job(f"absent {tag}", "objects", "absent", key=key, attr=attr, attrs=attrs, rich=rich))
            out.append(job(f"assigned {tag}", "objects", "assigned", key=key, attr=attr, attrs=attrs, rich=rich))
        for f in spec.SPEC[key].fields:
            for nm in f.arg if f.kind in ("X", "L") else ():
                d = 2 if key in ("Polygon", "MultiGeometry", "MultiTrack") or tier == "thorough" else 1
                out.append(job(f"nested {key}.{f.attr} {nm}", "objects", "nested", key=key, attr=f.attr, nm=nm,
                               depth=1 if nm in spec.FEATURES else d))
            if f.kind == "L":
                for nm in f.arg:
                    out.append(job(f"lengths {key}.{f.attr} {nm}", "objects", "lengths", key=key, attr=f.attr, names=(nm,) * 3))
                if len(f.arg) > 1:
                    some = (f.arg[0], f.arg[-1], f.arg[len(f.arg) // 2])
                    out.append(job(f"lengths {key}.{f.attr}", "objects", "lengths", key=key, attr=f.attr, names=some))
            elif f.kind == "TR" or f.kind == "C" and key == "Coordinates":
                out.append(job(f"lengths {key}.{f.attr}", "objects", "lengths", key=key, attr=f.attr, names=()))
        out.append(job(f"spaces {key}", "objects", "spaces", key=key))
    out = [j for j in out if not (j["params"]["key"] == "Schema" and j["params"].get("attr") == "id")]
    out += sweep(tier, "objects", "reflexive", pairs=tier == "thorough", extra="tb")
    from harness.objects import TWINS
    for a, b in TWINS:
        out.append(job(f"twins {a} {b}", "objects", "twins", a=a, b=b))
    return out


PROPS["P15"] = {"jobs": equality_jobs}


def repr_jobs(tier):
    out = sweep(tier, "objects", "represent", pairs=tier == "thorough", extra="tb")
    for ns in ("", "{http://k/}"):
        out += sweep(tier, "objects", "represent", light=tier == "quick", ns=ns)
    return out


PROPS["P16"] = {"jobs": repr_jobs}


def parents_of(key):
    return [(p, f.attr) for p in spec.names() for f in spec.SPEC[p].fields if f.kind in ("X", "L") and key in f.arg]


def truth_jobs(tier):
    out = []
    for key in spec.names():
        if spec.SPEC[key].req:
            out.append(job(f"truth {key}", "objects", "truth", key=key))
        if spec.SPEC[key].req and key not in ("Schema", "HotSpot"):
            for p, attr in parents_of(key):
                if spec.SPEC[p].field(attr).kind == "L":
                    out.append(job(f"mixed {key} in {p}.{attr}", "objects", "mixed", key=key, parent=p, attr=attr))
        if any(f.kind in ("F", "FA", "I", "IA", "B") for f in spec.SPEC[key].fields):
            for p, attr in parents_of(key):
                out.append(job(f"zero {key} in {p}.{attr}", "objects", "zero", key=key, parent=p, attr=attr))
    return out


PROPS["P21"] = {"jobs": truth_jobs}


def purity_jobs(tier):
    out = sweep(tier, "objects", "writing", pairs=tier == "thorough", light=True, extra="b")
    out += sweep(tier, "objects", "reading", pairs=tier == "thorough", light=True, extra="b")
    out += coords_jobs()
    for key in spec.names():
        out.append(job(f"fresh {key}", "objects", "fresh", key=key))
        for f in spec.SPEC[key].fields:
            if f.kind == "L":
                for nm in f.arg:
                    for how in ("list", "tuple", "generator", "iterator"):
                        out.append(job(f"given {key}.{f.attr} {nm} {how}", "objects", "given", key=key, attr=f.attr,
                                       names=(nm, nm), how=how))
    return out


PROPS["P18"] = {"jobs": purity_jobs}


def find_jobs(tier):
    from harness.search import TREE
    deep = tier == "thorough"
    out = []
    for key in spec.names():
        for f in spec.SPEC[key].fields:
            if f.kind in ("X", "L"):
                for nm in f.arg:
                    out.append(job(f"child {key}.{f.attr} {nm}", "search", "child", key=key, attr=f.attr,
                                   names=(nm, nm) if f.kind == "L" else (nm,)))
    for tree in TREE:
        for by in ([], ["id"], ["name"], ["id", "name"], ["visibility"], ["id", "visibility"]):
            if len(by) > 1 and tree != "pair" and not deep:
                continue
            for types in ((), ("Placemark",), ("Placemark", "Folder"), ("Folder",), ("GroundOverlay", "NetworkLink")):
                if not by and not types:
                    continue
                out.append(job(f"query {tree} {by} {types}", "search", "query", tree=tree, by=by, types=types))
    for key, names in (("Document", ("Placemark", "Folder", "Placemark")), ("Folder", ("Folder", "Placemark", "Document")),
                       ("KML", ("Placemark", "Document", "Placemark")), ("Style", ("LineStyle", "IconStyle", "LineStyle")),
                       ("StyleMap", ("Pair", "Pair", "Pair")), ("MultiGeometry", ("Point", "LineString", "Point")),
                       ("ExtendedData", ("SchemaData", "Data", "SchemaData")), ("Schema", ("SimpleField", "SimpleField"))):
        out.append(job(f"order {key}", "search", "order", key=key, names=names))
    for key in ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay", "NetworkLink", "KML"):
        out.append(job(f"missing {key}", "search", "missing", key=key))
    return out


PROPS["P13"] = {"jobs": find_jobs}


def style_jobs(tier):
    from harness.search import SITES
    out = []
    bases = ("", "http://example.com/a.kml", "style.kml", "../x/y.kml", "file:///a/b.kml", "http://h/a?b=c&d#e".split("#")[0])
    for i, a in enumerate(SITES):
        for b in bases:
            out.append(job(f"style {a} {b}", "search", "style", sites=(a,), base=b))
        for j, b in enumerate(SITES):
            out.append(job(f"style {a} {b}", "search", "style", sites=(a, b), base=bases[(i + j) % len(bases)]))
            if tier == "thorough":
                for c in SITES:
                    out.append(job(f"style {a} {b} {c}", "search", "style", sites=(a, b, c), base=""))
    for n in range(1, 5):
        for m in range(0, 5):
            out.append(job(f"style of {n} by {m}", "search", "style", sites=("document",), base=bases[(n + m) % len(bases)], n=n, m=m))
    for n in range(0, 5 if tier == "quick" else 7):
        out.append(job(f"no_fragment {n}", "search", "no_fragment", n=n))
    some = ("replace", "set", "rename", "clear", "append", "insert", "move", "inner", "drop")
    for a in some:
        for b in some:
            for c in some if tier == "thorough" else (None,):
                ops = [o for o in (a, b, c) if o]
                out.append(job(f"lookups {' '.join(ops)}", "search", "lookups", ops=ops))
    out.append(job("map_changes", "search", "map_changes"))
    for kind in ("Style", "StyleMap"):
        out.append(job(f"read_style {kind}", "search", "read_style", kind=kind))
    opts = ("normal", "highlight", None)
    for a in (*opts, "end"):
        for b in (*opts, "end"):
            for kinds in (("StyleUrl", "Style", "StyleUrl"), ("Style", "StyleUrl", "Style")):
                keys = [k for k in (a, b) if k != "end"]
                out.append(job(f"style_map {keys} {kinds[0]}", "search", "style_map", keys=keys, kinds=kinds))
    for keys in (["normal", "highlight", "normal"], ["highlight", "highlight", "normal"], [None, "normal", "highlight"]):
        out.append(job(f"style_map {keys}", "search", "style_map", keys=keys, kinds=("Style", "StyleUrl", "Style")))
    return out


PROPS["P14"] = {"jobs": style_jobs}


def registry_jobs(tier):
    out = [job(f"history {n}", "registering", "history", n=n, time=100.0, max_paths=200000)
           for n in range(0, 4 if tier == "quick" else 5)]
    out.append(job("library", "registering", "library"))
    out.append(job("subclass", "registering", "subclass"))
    for key in spec.names():
        out.append(job(f"own {key}", "registering", "own", key=key))
    for where in ("Feature", "Container", "Placemark", "Base"):
        for kind in ("text", "int", "float", "bool", "attribute", "float attribute", "int attribute", "enum", "enum attribute", "date",
                     "xml", "xml list"):
            for use in ("Placemark", "Folder", "Document", "GroundOverlay", "Style", "NetworkLink"):
                out.append(job(f"custom {where} {kind} {use}", "registering", "custom", where=where, kind=kind, use=use))
    return out


PROPS["P17"] = {"jobs": registry_jobs}


def append_jobs(tier):
    from harness.lists import HOW
    top = 3 if tier == "quick" else 4
    out = []
    for key in HOW:
        for n in range(0, top + 1):
            for start in (0, 1, 2):
                out.append(job(f"sequence {key} {n} {start}", "lists", "sequence", key=key, n=n, start=start))
        out.append(job(f"same_twice {key}", "lists", "same_twice", key=key))
        out.append(job(f"separate {key}", "lists", "separate", key=key))
    for key in ("Document", "Folder"):
        for n in (0, 1, 2):
            out.append(job(f"itself {key} {n}", "lists", "itself", key=key, n=n))
    return out


PROPS["P20"] = {"jobs": append_jobs}


def file_jobs(tier):
    out = []
    for fl in ("lxml", "std"):
        for strict in (True, False):
            for validate in (None, True, False):
                for source in ("str", "path", "binary file", "text file", "bytes", "string"):
                    out.append(job(f"gate {fl} {strict} {validate} {source}", "files", "gate", strict=strict, validate=validate,
                                   source=source, flavour=fl))
        for how in ("element", "file", "schema", "object", "both", "none"):
            out.append(job(f"validator {fl} {how}", "files", "validator", how=how, flavour=fl))
        for suffix in (".kml", ".kmz", ".xml", ".txt", ""):
            for mode in (None, "terse", "normal", "verbose"):
                for precision in (None, 2):
                    for pretty in (None, False, True):
                        out.append(job(f"written {fl} {suffix} {mode} {precision} {pretty}", "files", "written", suffix=suffix,
                                       mode=mode, precision=precision, pretty=pretty, flavour=fl))
    for a in ("lxml", "std"):
        for b in ("lxml", "std"):
            out.append(job(f"switched {a} {b}", "files", "switched", first=a, then=b))
    return out


PROPS["P19"] = {"jobs": file_jobs}
PROPS["P22"] = {"jobs": lambda tier: sweep(tier, "files", "backends", pairs=tier == "thorough", light=True, extra="tb")}


def shortcut_jobs(tier):
    out = [job(f"icon_href {h} {fl}", "shortcuts", "icon_href", how=h, flavour=fl)
           for h in ("href", "icon", "both", "ns", "padded", "changed", "blank", "none") for fl in ("lxml", "std")]
    for key in spec.FEATURES:
        for kind in ("none", "stamp", "span", "begin", "end"):
            out.append(job(f"times {key} {kind}", "shortcuts", "times", key=key, kind=kind))
    for key in spec.GEOMS:
        out.append(job(f"placemark_geometry {key}", "shortcuts", "placemark_geometry", key=key))
    al = ("longitude", "latitude", "altitude")
    for m in range(8):
        out.append(job(f"location {m}", "shortcuts", "location", have=tuple(a for i, a in enumerate(al) if m >> i & 1)))
    for n in range(0, 4 if tier == "quick" else 6):
        for d in (2, 3):
            out.append(job(f"track_lists {n} {d}", "shortcuts", "track_lists", n=n, d=d))
    return out


def text_jobs(tier):
    out = []
    for key in spec.names():
        for f in spec.SPEC[key].fields:
            if f.kind in ("T", "N", "A") and f.attr not in ("id", "target_id"):
                for n in range(0, 4 if tier == "quick" else 6):
                    out.append(job(f"cleaned {key}.{f.attr} {n}", "shortcuts", "cleaned", key=key, attr=f.attr, n=n))
                    out.append(job(f"read_text {key}.{f.attr} {n}", "shortcuts", "read_text", key=key, attr=f.attr, n=n))
    return out


PROPS["P24"] = {"jobs": text_jobs}


def history_jobs(tier):
    from harness.histories import history_shapes
    out = []
    for key in spec.names():
        for i, ch in enumerate(util.chunks(history_shapes(key), 8)):
            out.append(job(f"changed {key} {i}", "histories", "changed", key=key, shapes=ch))
    return out


def derived_jobs(tier):
    """The histories of the classes with computed properties, and their parts."""
    keys = {*spec.FEATURES, *spec.GEOMS, "IconStyle", "StyleMap", "Location", "OuterBoundaryIs", "InnerBoundaryIs"}
    return [j for j in history_jobs(tier) if j["params"]["key"] in keys]


PROPS["P23"] = {"jobs": lambda tier: shortcut_jobs(tier) + derived_jobs(tier)}
PROPS["P27"] = {"jobs": history_jobs}


def schema_jobs(tier):
    from harness.xsd import in_schema
    keys = [k for k in spec.names() if in_schema(k)]
    out = sweep(tier, "xsd", "valid", pairs=tier == "thorough", keys=keys, extra="tb")
    for m in ("terse", "verbose"):
        out += sweep(tier, "xsd", "valid", pairs=tier == "thorough", keys=keys, verbosity=m, extra="b" if tier == "thorough" else "")
    if tier == "quick":
        # the many numbers a terse PhotoOverlay may drop are tried part by part
        for j in out:
            if j["name"].startswith("valid PhotoOverlay") and j["name"].endswith("terse"):
                j["params"]["shapes"] = [sh for sh in j["params"]["shapes"] if not {"view_volume", "image_pyramid"} <= set(sh[0])]
        out = [j for j in out if not j["name"].startswith(("valid Track bulk", "valid MultiTrack bulk 4"))]
    return [j for j in out if j["params"]["shapes"]]


PROPS["P26"] = {"jobs": schema_jobs}
