"""Harnesses over every class: writing, element order, reading, verbosity."""
from harness import rec, util
from harness.spec import NS, SPEC


def write(env, key, shapes, flavour="lxml"):
    """The element written for an object is exactly what its fields say."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    el = rec.make(r).etree_element()
    out = []
    rec.xml_diff(el, r, key, out)
    util.report(env, "written", out)


def order(env, key, shapes, verbosity="normal", flavour="lxml"):
    """Child elements come in the order the KML schema prescribes."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    el = rec.make(r).etree_element(verbosity=util.verbosity(verbosity))
    out = []
    check_order(el, key, key, out)
    util.report(env, "order", out)


def ranks(key):
    out = {}
    for i, fl in enumerate(SPEC[key].fields):
        if fl.kind in ("X", "L"):
            for nm in fl.arg:
                out[SPEC[nm].tag] = i
        elif fl.kind == "TR":
            out["when"], out["coord"], out["angles"] = i, i + 0.1, i + 0.2
        elif fl.node:
            out[fl.node] = i
    return out


def child_key(key, tag):
    for fl in SPEC[key].fields:
        if fl.kind in ("X", "L"):
            for nm in fl.arg:
                if SPEC[nm].tag == tag:
                    return nm
    return None


def check_order(el, key, path, out):
    rk = ranks(key)
    tags = [c.tag.rsplit("}", 1)[-1] for c in el]
    known = [rk[t] for t in tags if t in rk]
    out.append((f"{path}: {' '.join(tags) if known != sorted(known) else 'children'}", known == sorted(known)))
    for c, t in zip(list(el), tags):
        ck = child_key(key, t)
        if ck is not None:
            check_order(c, ck, f"{path}/{t}", out)


def reverse(idx, kids):
    return idx[::-1]


def interleave(idx, kids):
    return idx[1::2] + idx[0::2]


def keep(idx, kids):
    return idx


ORDERS = {"as in the schema": keep, "reversed": reverse, "interleaved": interleave}


def bulky(attrs):
    return "=bulk" in attrs or any(isinstance(v, (list, tuple)) and len(v) > 3 for v in attrs.values())


SPLITS = (("before", "comment"), ("inside", "comment"), ("inside", "instruction"), ("after", "comment"))


def read(env, key, shapes, flavour="lxml"):
    """Reading an element gives the fields it holds, whatever the order of
    siblings, the padding, and unknown content around them."""
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    hows = ("plain", "reversed", "interleaved", "padded", "junk", "comments", "split")
    how = env.pick("layout", ("plain",) if "=text" in attrs else hows[1:2] + hows[4:] if bulky(attrs) else hows)
    r = rec.gen(env, key, "v", attrs, rich if how == "plain" else ())
    perm = ORDERS.get(how)
    pad = "\n\t " if how == "padded" else ""

    def stable(idx, kids):
        """Children of one name keep their order."""
        order = perm(idx, kids)
        queue = {}
        for i in idx:
            queue.setdefault(kids[i][0], []).append(i)
        return [queue[kids[i][0]].pop(0) for i in order]

    def junk(el):
        have = [c.tag for c in el if isinstance(c.tag, str)]
        if how == "junk":
            first = et.Element("{http://example.com/other}unknown")
            first.text = "7"
            el.insert(0, first)
            for t in ("name", "href", "coordinates", "Placemark", "value", "altitudeMode", "when", "scale", "color"):
                sub = et.SubElement(el, "{http://example.com/other}" + t)
                sub.text = "other"
            sub = et.SubElement(el, NS["kml"] + "unknownElement")
            sub.text = "other"
            sub.set("id", "other")
            el.set("{http://example.com/other}id", "other")
            el.set("unknownAttribute", "other")
            # what the element says comes before the same name of a lesser namespace
            for a in [a for a in el.attrib if not a.startswith("{") and a != "unknownAttribute" and not el.tag.endswith("}Schema")]:
                el.set(NS["kml"] + a, "other")
            for tag in dict.fromkeys(have):
                if tag.startswith("{") and not len(el.find(tag)):
                    twin = et.Element(tag.rsplit("}", 1)[-1])
                    twin.text = "other"
                    el.insert(1, twin)
        if how == "comments" and getattr(env, "flavour", "lxml") == "lxml":
            el.insert(0, et.Comment("first"))
            el.append(et.Comment("last"))
            el.append(et.ProcessingInstruction("pi", "x"))

    el = rec.build(et, r, order=stable if perm else None, junk=junk if how in ("junk", "comments") else None, pad=pad,
                   cut=splitter(et, *env.pick("split", SPLITS if len(attrs) < 4 else SPLITS[1:2])) if how == "split" else None)
    ns = NS[SPEC[key].ns]
    strict = env.pick("strict", (True, False)) if how in ("plain", "junk") else True
    if how == "split":
        # XML text with comments and processing instructions inside the values
        obj = rec.cls_of(key).from_string(et.tostring(el, encoding="unicode"))
    else:
        obj = rec.cls_of(key).class_from_element(ns=ns, name_spaces=dict(NS), element=el, strict=strict)
    out = []
    rec.diff(obj, r, key, out)
    util.report(env, "read", out)


def splitter(et, place, what):
    """Puts a comment or processing instruction into the text of an element."""
    def cut(el, kind):
        node = et.Comment("note") if what == "comment" else et.ProcessingInstruction("pi", "note")
        text = el.text
        a, b = None, text
        if place == "after":
            a, b = text, None
        elif place == "inside" and kind in ("T", "N", "A"):
            a, b = text[:1], text[1:]
        elif place == "inside" and kind in ("C", "TC") and " " in text:
            first, *more = text.split(" ")
            a, b = first + " ", " ".join(more)
        el.text, node.tail = a, b
        el.insert(0, node)
    return cut


def verbosity(env, key, shapes, mode, flavour="lxml"):
    """Terse, normal and verbose output denote the same effective values."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    obj = rec.make(r)
    el = obj.etree_element(verbosity=util.verbosity(mode))
    back = rec.cls_of(key).class_from_element(ns=NS[SPEC[key].ns], name_spaces=dict(NS), element=el, strict=True)
    out = []
    effective(back, r, key, out, mode)
    if mode != "normal":
        # the choice is that of one call
        rec.xml_diff(obj.etree_element(), r, key + " afterwards", out)
    util.report(env, mode, out)


def effective(obj, r, path, out, mode):
    c = rec.cls_of(r.key)
    out.append((path, type(obj) is c))
    if type(obj) is not c:
        return
    for fl in r.spec.fields:
        p = f"{path}.{fl.attr}"
        got = getattr(obj, fl.attr)
        if fl.attr in r.val:
            want = r.val[fl.attr]
            if fl.kind == "X" and got is not None:
                # the icon of an icon style holds an address only
                part = "either" if mode == "verbose" and (r.key, fl.attr) == ("IconStyle", "icon") else mode
                effective(got, want, p, out, part)
            elif fl.kind == "L":
                out.append((p + ".len", len(got) == len(want)))
                for key in dict.fromkeys(w.key for w in want):
                    k = rec.cls_of(key)
                    gs = [g for g in got if type(g) is k]
                    ws = [w for w in want if w.key == key]
                    out.append((p + ".len." + key, len(gs) == len(ws)))
                    for i, (g, w) in enumerate(zip(gs, ws)):
                        effective(g, w, f"{p}.{key}{i}", out, mode)
            elif got is None and fl.default is not None and mode == "terse":
                out.append((p + ".dropped", is_default(fl, want)))
            elif fl.loose and got is None and mode == "terse":
                pass
            else:
                rec.diff_value(got, fl, want, p, out)
        elif fl.loose:
            pass
        elif rec.is_unset(got):
            if mode == "verbose" and fl.default is not None:
                out.append((p + ".spelled out", False))
        elif mode in ("verbose", "either") and fl.default is not None:
            out.append((p + ".default", got_default(fl, got)))
        else:
            out.append((p + ".extra", False))


def is_default(fl, want):
    return want == fl.default


def got_default(fl, got):
    if fl.kind in ("E", "EA"):
        return got is rec.enum_member(fl.arg, fl.default)
    return type(got) is type(fl.default) and got == fl.default
