"""Objects that are used, changed in place and used again."""
from harness import rec, util
from harness.spec import NS, SPEC

SHORTCUTS = ("geometry", "whens", "coords", "angles", "time_stamp", "begin", "end", "icon_href", "normal", "highlight")
MOMENTS = (rec.Date("gYear", (1987, 1, 1), None), rec.Date("gYearMonth", (1987, 6, 1), None), rec.Date("date", (1987, 6, 5), None),
           rec.Date("dateTime", (1987, 6, 5, 4, 3, 2, 1), -330))


def observe(obj):
    """Everything a user may ask of an object without changing it."""
    repr(obj)
    bool(obj)
    hash_free = obj == obj
    el = obj.etree_element()
    shortcuts(obj)
    list(rec.fk("utils").find_all(obj, id="nothing of this name"))
    return hash_free, el


def shortcuts(obj):
    """Values of the properties computed from the parts, nested parts first."""
    out = {}
    for n in SHORTCUTS:
        if isinstance(getattr(type(obj), n, None), property):
            out[n] = getattr(obj, n)
    for v in list(vars(obj).values()):
        for x in v if isinstance(v, list) else (v,):
            if hasattr(x, "etree_element"):
                shortcuts(x)
    return out


def put(obj, r, inside):
    """Change the object in place so that it holds the record: inside changes
    the parts it has where it can, else they are replaced."""
    for fl in r.spec.fields:
        have = getattr(obj, fl.attr)
        if fl.attr not in r.val:
            if isinstance(have, list):
                if inside:
                    del have[:]
                else:
                    setattr(obj, fl.attr, [])
            elif not rec.is_unset(have):
                # what an object built without the field has: None or empty text
                setattr(obj, fl.attr, "" if fl.attr in ("id", "target_id") and fl.kind == "A" else None)
            continue
        v = r.val[fl.attr]
        if inside and fl.kind == "X" and type(have) is rec.cls_of(v.key):
            put(have, v, inside)
        elif inside and fl.kind == "L":
            for i, x in enumerate(v):
                if i < len(have) and type(have[i]) is rec.cls_of(x.key):
                    put(have[i], x, inside)
                elif i < len(have):
                    have[i] = rec.make(x)
                else:
                    have.append(rec.make(x))
            del have[len(v):]
        elif inside and fl.kind == "D" and have is not None:
            have.dt, have.resolution = rec.make_dt(v), rec.enum_member("DateTimeResolution", v.res)
        elif inside and fl.kind == "TR":
            have[:] = rec.make_value(fl, v)
        else:
            setattr(obj, fl.attr, rec.make_value(fl, v))


def changed(env, key, shapes, flavour="lxml"):
    """What is computed from an object comes from its current values."""
    util.use(env, flavour)
    old, new, how, looked, rich = env.pick("shape", shapes)
    a = rec.gen(env, key, "v", old, ())
    for attr in rich:
        a.val[attr] = MOMENTS[env.pick("moment", (0, 1, 2, 3))]
    b = rec.gen(env, key, "w", new, rich)
    obj = rec.make(a)
    if looked:
        observe(obj)
    put(obj, b, how == "inside")
    what = f"{key} changed {how}"
    out = []
    # whatever is asked first is answered before anything else is looked at
    first = env.pick("asked first", ("XML", "truth") if rich else ("XML", "shortcuts", "truth"))
    mine = shortcuts(obj) if first == "shortcuts" else None
    truth = bool(obj) if first == "truth" else None
    rec.xml_diff(obj.etree_element(), b, what, out)
    fresh = rec.make(b)
    out.append((f"{what}: ==", obj == fresh))
    out.append((f"{what}: == reversed", fresh == obj))
    out.append((f"{what}: bool", (bool(obj) if truth is None else truth) == bool(fresh)))
    follow(shortcuts(obj) if mine is None else mine, fresh, what, out)
    util.report(env, "changed", out)


def follow(mine, fresh, what, out):
    want = shortcuts(fresh)
    for n, w in want.items():
        g = mine[n]
        p = f"{what}: {n}"
        if n == "geometry":
            from harness.geoms import same
            if w is None:
                out.append((p, g is None))
            else:
                same(g, w, p, out)
        elif n in ("whens", "coords", "angles"):
            out.append((p, len(g) == len(w)))
            for i, (x, y) in enumerate(zip(g, w)):
                if n == "whens":
                    out.append((f"{p} {i}", x == y))
                else:
                    rec.tuple_diff(x, y, f"{p} {i}", out)
        else:
            out.append((p, (g is None) == (w is None)))
            if g is not None and w is not None:
                out.append((p, g == w))


def history_shapes(key):
    s = SPEC[key]
    base = {"id": True} if key == "Schema" else {}
    full = {f.attr: True for f in s.fields}
    out = []
    for how in ("inside", "replaced"):
        out.append((full, full, how, True, ()))
        for f in s.fields:
            if f.attr in base:
                continue
            picks = [nm for nm in f.arg] if f.kind == "X" else [(nm,) for nm in f.arg] if f.kind == "L" else [True]
            for i, p in enumerate(picks):
                one = {**base, f.attr: p}
                if f.kind in ("X", "L"):
                    out.append((one, one, how, True, ()))
                    other = picks[(i + 1) % len(picks)]
                    if other != p:
                        out.append((one, {**base, f.attr: other}, how, True, ()))
                    if f.kind == "L":
                        out.append((one, {**base, f.attr: p * 3}, how, True, ()))
                        out.append(({**base, f.attr: p * 3}, one, how, True, ()))
                elif how == "inside" and f.kind == "D":
                    out.append((one, one, how, True, (f.attr,)))
                elif how == "replaced":
                    out.append((one, one, how, True, ()))
                if how == "replaced":
                    out.append((one, base, how, True, ()))
                    out.append((base, one, how, True, ()))
    return out
