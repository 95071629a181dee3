"""Searching object trees: find, find_all, shared styles."""
from harness import rec, util
from harness.spec import FEATURES, NS, SPEC


def utils():
    return rec.fk("utils")


def walk(obj, r):
    """(object, record) for an object and everything below it."""
    yield obj, r
    for fl in r.spec.fields:
        if fl.attr not in r.val:
            continue
        v = getattr(obj, fl.attr)
        w = r.val[fl.attr]
        if fl.kind == "X":
            yield from walk(v, w)
        elif fl.kind == "L":
            for a, b in zip(v, w):
                yield from walk(a, b)


def exactly(env, what, got, want):
    """got holds exactly the objects of want, each once."""
    env.check(len(got) == len(want), f"{what}: number found", f"{len(got)} instead of {len(want)}")
    for i, w in enumerate(want):
        n = sum(1 for g in got if g is w)
        env.check(n == 1, f"{what}: an object is found {'not at all' if n == 0 else 'more than once'}")


def bare(nm):
    """A record with nothing but what its class insists on."""
    r = rec.Rec(nm)
    if nm == "Schema":
        r.val["id"] = "s"
    return r


def child(env, key, attr, names, flavour="lxml"):
    """A part is found from the object that holds it, wherever it is held."""
    util.use(env, flavour)
    fl = SPEC[key].field(attr)
    r = rec.gen(env, key, "v", {attr: names if fl.kind == "L" else names[0], **({"id": True} if key == "Schema" else {})}, ())
    if env.pick("parts", ("with content", "without")) == "without":
        r.val[attr] = [bare(nm) for nm in (*names, *names)] if fl.kind == "L" else bare(names[0])
    obj = rec.make(r)
    nodes = list(walk(obj, r))
    for k in dict.fromkeys(x.key for _o, x in nodes):
        c = rec.cls_of(k)
        want = [o for o, _x in nodes if isinstance(o, c)]
        exactly(env, f"{key}.{attr}: {k}", list(utils().find_all(obj, of_type=c)), want)
        first = utils().find(obj, of_type=c)
        env.check(any(first is w for w in want), f"{key}.{attr}: find {k}")
    env.check(utils().find(obj, of_type=complex) is None, f"{key}.{attr}: finds what is not there")


TREE = {
    "flat": ("Document", ("Placemark", "Folder", "Placemark"), ()),
    "nested": ("Folder", ("Placemark",), (("Folder", ("Placemark", "Placemark")),)),
    "deep": ("KML", (), (("Document", ("Placemark", "NetworkLink"), (("Folder", ("Placemark",)),)),)),
    "pair": ("Folder", ("Placemark",), ()),
    "overlays": ("Document", ("GroundOverlay", "ScreenOverlay", "PhotoOverlay"), ()),
}


def plant(env, spec, path, attrs, nodes, depth=0):
    """A tree of features, each with its own symbolic values for attrs."""
    key, leaves, subs = (*spec, ())[:3]
    kids = []
    for i, nm in enumerate(leaves):
        kids.append(node(env, nm, f"{path}.{i}", attrs, nodes, []))
    for i, sub in enumerate(subs):
        kids.append(plant(env, sub, f"{path}.s{i}", attrs, nodes, depth + 1))
    if key == "KML":
        o = rec.cls_of("KML")(features=kids)
        nodes.append((o, "KML", {}))
        return o
    return node(env, key, path, attrs, nodes, kids)


def node(env, key, path, attrs, nodes, kids):
    vals = {}
    for a in attrs:
        has = env.pick(f"{path} has {a}", (True, False)) if a == "name" else True
        if not has:
            vals[a] = None
        elif a == "visibility":
            vals[a] = env.boolean(f"{path}.{a}")
        else:
            vals[a] = env.text(f"{path}.{a}", 1, strip=True)
    kw = {k: v for k, v in vals.items() if v is not None}
    if kids:
        kw["features"] = kids
    o = rec.cls_of(key)(**kw)
    nodes.append((o, key, vals))
    return o


def matching(nodes, types, want):
    out = []
    for o, key, vals in nodes:
        if types and not isinstance(o, types):
            continue
        ok = True
        for k, v in want.items():
            if k not in vals:
                ok = False
            elif v is None or vals[k] is None:
                ok = v is None and vals[k] is None
            elif not (vals[k] == v):
                ok = False
            if not ok:
                break
        if ok:
            out.append(o)
    return out


def query(env, tree, by, types, flavour="lxml"):
    """find_all gives the objects of the tree that have the wanted type and
    attribute values, each once; find gives the first of them, or None."""
    util.use(env, flavour)
    nodes = []
    root = plant(env, TREE[tree], "n", by, nodes)
    want = {}
    for a in by:
        if a == "visibility":
            want[a] = env.boolean("wanted " + a)
        elif a == "name" and env.pick("wanted name", ("given", "none")) == "none":
            want[a] = None
        else:
            want[a] = env.text("wanted " + a + " text", 1, strip=True)
    cs = tuple(rec.cls_of(t) for t in types)
    of_type = None if not cs else (cs[0] if len(cs) == 1 else cs)
    hits = matching(nodes, cs, want)
    got = list(utils().find_all(root, of_type=of_type, **want))
    exactly(env, f"{tree} by {' '.join(by)}", got, hits)
    one = utils().find(root, of_type=of_type, **want)
    if not hits:
        env.check(one is None, f"{tree}: find gives something though nothing matches")
    else:
        env.check(any(one is h for h in hits), f"{tree}: find gives what does not match")
        env.check(len(got) > 0 and one is got[0], f"{tree}: find is not the first of find_all")
    env.reach("none" if not hits else "some")


def order(env, key, names, flavour="lxml"):
    """Members of one list are found in the order of the list."""
    util.use(env, flavour)
    fl = next(f for f in SPEC[key].fields if f.kind == "L" and names[0] in f.arg)
    kids, full = [], []
    for i, nm in enumerate(names):
        empty = env.pick(f"member {i}", ("with content", "without")) == "without"
        kids.append(rec.make(bare(nm) if empty else rec.gen_child(env, nm, f"v.{i}", False)))
        if not empty:
            full.append(kids[-1])
    kw = {"id": "s"} if key == "Schema" else {}
    obj = rec.cls_of(key)(**{fl.attr: kids}, **kw)
    types = tuple({rec.cls_of(n) for n in names})
    held = list(getattr(obj, fl.attr))      # parts without content may be left out
    env.check(all(any(k is h for h in held) for k in full), f"{key}: a member is not held")
    kids = [k for k in kids if any(k is h for h in held)]
    got = [g for g in utils().find_all(obj, of_type=types) if any(g is k for k in kids)]
    env.check(len(got) == len(kids) and all(a is b for a, b in zip(got, kids)), f"{key}: members out of order")


def missing(env, key, flavour="lxml"):
    """Searching by an attribute no object has finds nothing and fails on
    nothing; the tree is as before."""
    util.use(env, flavour)
    attrs = {f.attr: True for f in SPEC[key].fields if f.kind in ("X", "L", "T", "A")}
    r = rec.gen(env, key, "v", attrs, ())
    obj = rec.make(r)
    t = env.text("wanted", 2, strip=True)
    env.check(list(utils().find_all(obj, no_such_attribute=t)) == [], f"{key}: found by an attribute that does not exist")
    env.check(utils().find(obj, of_type=rec.cls_of(key), no_such_attribute=t) is None, f"{key}: found by a missing attribute")
    got = list(utils().find_all(obj, of_type=rec.cls_of(key)))
    env.check(any(g is obj for g in got), f"{key}: the object itself is not found")
    out = []
    rec.diff(obj, r, key, out)
    util.report(env, "after searching", out)


# ---------------------------------------------------------------------------
# styles

SITES = ("document", "folder", "placemark", "nested document", "pair", "overlay")


def style_at(env, where, name, doc_kw, feats, n=2):
    """Put a style or style map with a symbolic id at a place; returns it."""
    kind = env.pick(name + " kind", ("Style", "StyleMap"))
    sid = env.text(name + ".id", n, alphabet=IDS)
    s = rec.cls_of(kind)(id=sid)
    if where == "document":
        doc_kw.append(s)
    elif where == "pair":
        # a style inside a pair of a style map without an id
        holder = rec.cls_of("Style")(id=sid)
        s = holder
        pk = rec.enum_member("PairKey", "normal")
        doc_kw.append(rec.cls_of("StyleMap")(pairs=[rec.cls_of("Pair")(key=pk, style=holder)]))
    elif where == "nested document":
        feats.append(rec.cls_of("Document")(styles=[s]))
    elif where == "folder":
        feats.append(rec.cls_of("Folder")(features=[rec.cls_of("Folder")(styles=[s])]))
    elif where == "overlay":
        feats.append(rec.cls_of("GroundOverlay")(styles=[s]))
    else:
        feats.append(rec.cls_of("Placemark")(styles=[s]))
    return s, sid


IDS = "abAB01_-.:/?=%&+~é"


def style(env, sites, base, n=2, m=2, flavour="lxml"):
    """A style is found by the fragment of its URL, and only by that."""
    util.use(env, flavour)
    doc_styles, feats, put = [], [], []
    for i, w in enumerate(sites):
        put.append(style_at(env, w, f"s{i}", doc_styles, feats, n))
    noise = rec.cls_of("Placemark")(id=env.text("noise.id", 2, alphabet=IDS))
    doc = rec.cls_of("Document")(styles=doc_styles, features=[noise, *feats])
    wanted = env.text("wanted", m, alphabet=IDS)
    got = doc.get_style_by_url(base + "#" + wanted)
    hits = []
    for s, sid in put:
        if sid == wanted:
            hits.append(s)
    if not hits:
        env.check(got is None, "a style is found under an id it does not have")
    else:
        env.check(any(got is h for h in hits), "the style is not found by its id")
        if all(w == sites[0] for w in sites):
            env.check(got is hits[0], "not the first style of that id")
    env.reach("found" if hits else "none")
    env.check(len(doc.styles) == len(doc_styles) and len(doc.features) == 1 + len(feats), "the document changed")


def no_fragment(env, n, flavour="lxml"):
    """A URL without a fragment names no style."""
    util.use(env, flavour)
    sid = env.text("id", 2, alphabet=IDS)
    url = env.text("url", n, alphabet="abAB01_-.:/?")
    doc = rec.cls_of("Document")(styles=[rec.cls_of("Style")(id=sid), rec.cls_of("StyleMap")()])
    env.check(doc.get_style_by_url(url) is None or doc.get_style_by_url(url).id != sid, "found without a fragment")


def read_style(env, kind, flavour="lxml"):
    """The same for a document that was read: the styleUrl of a placemark
    leads to the style it names."""
    et = util.use(env, flavour)
    sid = env.text("id", 2, alphabet=IDS)
    other = env.text("other", 2, alphabet=IDS)
    ns = NS["kml"]
    root = et.Element(ns + "Document")
    for x in (other, sid):
        el = et.SubElement(root, ns + kind)
        el.set("id", x)
    pm = et.SubElement(root, ns + "Placemark")
    et.SubElement(pm, ns + "styleUrl").text = "#" + sid
    doc = rec.cls_of("Document").class_from_element(ns=ns, name_spaces=dict(NS), element=root, strict=True)
    url = doc.features[0].style_url.url
    got = doc.get_style_by_url(url)
    env.check(got is not None, "the style of the placemark is not found")
    if got is not None:
        env.check(got.id == sid, "another style is found")
        env.check(type(got) is rec.cls_of(kind), "kind of style")
        env.check(any(got is s for s in doc.styles), "a style that is not in the document")


def style_map(env, keys, kinds, flavour="lxml"):
    """normal and highlight give the style of the first pair with that key."""
    util.use(env, flavour)
    pairs, made = [], []
    for i, (k, kind) in enumerate(zip(keys, kinds)):
        r = rec.gen_child(env, kind, f"s{i}", False)
        s = rec.make(r)
        made.append(s)
        pairs.append(rec.cls_of("Pair")(key=rec.enum_member("PairKey", k) if k else None, style=s))
    sm = rec.cls_of("StyleMap")(pairs=pairs)
    for k in ("normal", "highlight"):
        want = next((s for kk, s in zip(keys, made) if kk == k), None)
        env.check(getattr(sm, k) is want, f"{k} style of {keys}")
    full = [p for p in keys if p]
    if len(full) == len(keys):
        back = rec.cls_of("StyleMap").from_string(sm.to_string())
        for k in ("normal", "highlight"):
            a, b = getattr(sm, k), getattr(back, k)
            env.check((a is None) == (b is None), f"{k} style of {keys} after reading back")
            if a is not None and b is not None:
                env.check(a == b, f"{k} style of {keys} after reading back")


def lookups(env, ops, flavour="lxml"):
    """Looking up a style gives what the document holds at that time, whatever
    was looked up before, here or in another document."""
    util.use(env, flavour)
    c = rec.cls_of
    count = [0]

    def new():
        count[0] += 1
        return c("Style" if count[0] % 2 else "StyleMap")(id=env.text(f"id {count[0]}", 1, alphabet="abc"))

    pm = c("Placemark")(styles=[new()])
    doc = c("Document")(styles=[new()], features=[c("Folder")(features=[pm])])
    far = c("Document")(styles=[c("Style")(id="a"), c("Style")(id="b")])

    wanted = env.text("wanted", 1, alphabet="ab")

    def look(when):
        got = doc.get_style_by_url("#" + wanted)
        hits = []
        for s in held(doc):
            if s.id == wanted:
                hits.append(s)
        if hits:
            env.check(any(got is h for h in hits), f"the style is not found {when}")
            if all(any(h is s for s in doc.styles) for h in hits):
                env.check(got is hits[0], f"not the first style of that id {when}")
        else:
            env.check(got is None, f"a style is found under an id that is not there {when}")
        other = far.get_style_by_url("#" + wanted)
        env.check(any(other is s for s in far.styles) and other.id == wanted, f"the style of another document {when}")

    look("at first")
    for i, op in enumerate(ops):
        if op == "replace":
            doc.styles = [new()]
        elif op == "set":
            if doc.styles:
                doc.styles[0] = new()
        elif op == "rename":
            for s in held(doc)[-1:]:
                s.id = env.text(f"renamed {i}", 1, alphabet="ab")
        elif op == "clear":
            doc.styles.clear()
        elif op == "append":
            doc.append(c("Placemark")(styles=[new()]))
        elif op == "insert":
            doc.styles.insert(0, new())
        elif op == "move":
            pm.styles, doc.styles = doc.styles, pm.styles
        elif op == "inner":
            pm.styles = [new()]
        elif op == "drop" and doc.features:
            doc.features.pop()
        look(f"after {' '.join(ops[:i + 1])}")


def held(doc):
    out = list(doc.styles)
    at = list(doc.features)
    while at:
        f = at.pop(0)
        out.extend(f.styles)
        at.extend(getattr(f, "features", ()))
    return out


def map_changes(env, flavour="lxml"):
    """The styles of a style map follow its pairs."""
    util.use(env, flavour)
    c = rec.cls_of

    def pair(i, k):
        return c("Pair")(key=rec.enum_member("PairKey", k), style=c("StyleUrl")(url=env.text(f"u{i}", 1, strip=True)))

    sm = c("StyleMap")(pairs=[pair(0, "normal"), pair(1, "highlight")])

    def look(when):
        for k in ("normal", "highlight"):
            want = next((p.style for p in sm.pairs if p.key is rec.enum_member("PairKey", k)), None)
            env.check(getattr(sm, k) is want, f"{k} style after {when}")

    look("nothing")
    for i in range(2):
        op = env.pick(f"op {i}", ("style", "key", "replace", "insert", "pop", "clear"))
        if op == "style" and sm.pairs:
            sm.pairs[0].style = c("Style")(id="x")
        elif op == "key" and sm.pairs:
            sm.pairs[-1].key = rec.enum_member("PairKey", "normal")
            sm.pairs[0].key = rec.enum_member("PairKey", "highlight")
        elif op == "replace":
            sm.pairs = [pair(f"r{i}", "highlight"), pair(f"r{i}b", "normal")]
        elif op == "insert":
            sm.pairs.insert(0, pair(f"i{i}", "normal"))
        elif op == "pop" and sm.pairs:
            sm.pairs.pop(0)
        elif op == "clear":
            sm.pairs.clear()
        look(op)
