"""Containers: append, and what a sequence of appends leaves."""
from harness import rec, util
from harness.spec import FEATURES, NS, SPEC

HOW = {
    "KML": ("append", "features", (*FEATURES, "NetworkLinkControl")),
    "Document": ("append", "features", FEATURES),
    "Folder": ("append", "features", FEATURES),
    "Schema": ("append", "fields", ("SimpleField",)),
    "SchemaData": ("append_data", "data", ("SimpleData",)),
}


def sequence(env, key, n, start, flavour="lxml"):
    """Appending adds at the end and leaves the rest alone."""
    util.use(env, flavour)
    meth, attr, kinds = HOW[key]
    few = kinds if len(kinds) == 1 else ("Placemark", "Folder", "GroundOverlay")
    rs = [rec.gen_child(env, few[i % len(few)], f"s.{i}", False) for i in range(start)]
    objs = [rec.make(r) for r in rs]
    kw = {"id": "s"} if key == "Schema" else {}
    if key == "SchemaData":
        kw["schema_url"] = "#s"
    given = list(objs)
    box = rec.cls_of(key)(**({attr: given} if start else {}), **kw)
    for i in range(n):
        nm = env.pick(f"kind {i}", (*few, *range(len(objs))))
        if isinstance(nm, int):     # one that is there already
            r, o = rs[nm], objs[nm]
        else:
            r = rec.gen_child(env, nm, f"v.{i}", False)
            o = rec.make(r)
        res = getattr(box, meth)(o)
        env.check(res is None, f"{key}.{meth} gives something back")
        rs.append(r)
        objs.append(o)
        got = getattr(box, attr)
        env.check(len(got) == len(objs) and all(a is b for a, b in zip(got, objs)), f"{key}: members after appending")
    env.check(len(given) == start, f"{key}: appended to the caller's list")
    if key == "SchemaData" and not rs:
        return
    want = rec.Rec(key)
    want.val = {attr: rs, **kw} if rs else dict(kw)
    out = []
    el = box.etree_element()
    rec.xml_diff(el, want, key, out)
    tags = [c.tag for c in el]
    env.check(tags == [NS["kml"] + SPEC[r.key].tag for r in rs], f"{key}: order of the written members")
    back = rec.cls_of(key).class_from_element(ns=NS["kml"], name_spaces=dict(NS), element=el, strict=True)
    rec.diff(back, want, key, out)
    util.report(env, "appended", out)


def itself(env, key, n, flavour="lxml"):
    """A container refuses itself and stays as it was; an equal but different
    container is accepted."""
    util.use(env, flavour)
    nm = env.text("name", 2, strip=True)
    c = rec.cls_of(key)
    kids = [rec.make(rec.gen_child(env, "Placemark", f"v.{i}", False)) for i in range(n)]
    box = c(name=nm, features=kids)
    try:
        box.append(box)
    except ValueError:
        env.reach("refused")
    else:
        env.fail(f"{key}: appended to itself")
        return
    env.check(len(box.features) == n and all(a is b for a, b in zip(box.features, kids)), f"{key}: changed by a refused append")
    twin = c(name=nm, features=list(kids))
    box.append(twin)
    env.check(len(box.features) == n + 1 and box.features[-1] is twin, f"{key}: an equal container is refused")


def same_twice(env, key, flavour="lxml"):
    """The same feature may be appended twice, and equal features stay two."""
    util.use(env, flavour)
    meth, attr, kinds = HOW[key]
    nm = "Placemark" if "Placemark" in kinds else kinds[0]
    r = rec.gen_child(env, nm, "v", True)
    kw = {"id": "s"} if key == "Schema" else {}
    if key == "SchemaData":
        kw["schema_url"] = "#s"
    box = rec.cls_of(key)(**kw)
    a, b = rec.make(r), rec.make(r)
    order = env.pick("order", ((a, b, a), (a, a, b), (b, a, a), (a, a, a)))
    for o in order:
        getattr(box, meth)(o)
    got = getattr(box, attr)
    env.check(len(got) == 3 and all(x is y for x, y in zip(got, order)), f"{key}: equal members merged")
    env.check(len(list(box.etree_element())) == 3, f"{key}: equal members merged when written")


def separate(env, key, flavour="lxml"):
    """Appending to one container does not show in another."""
    util.use(env, flavour)
    meth, attr, kinds = HOW[key]
    kw = {"id": "s"} if key == "Schema" else {}
    c = rec.cls_of(key)
    start = [rec.make(rec.gen_child(env, kinds[0], "v", False))]
    for mk in (lambda: c(**kw), lambda: c(**{attr: start}, **kw), lambda: c(**{attr: []}, **kw), lambda: c(**{attr: None}, **kw),
               lambda: c.from_string(c(**kw).to_string())):
        a, b = mk(), mk()
        n = len(getattr(b, attr))
        getattr(a, meth)(rec.make(rec.gen_child(env, kinds[0], f"w{id(mk) * 0}{len(getattr(a, attr))}{n}{env_count(env)}", False)))
        env.check(len(getattr(b, attr)) == n and len(getattr(a, attr)) == n + 1, f"{key}: appending shows in another object")
    env.check(len(start) == 1, f"{key}: appended to the caller's list")


def env_count(env):
    env.count = getattr(env, "count", 0) + 1
    return env.count
