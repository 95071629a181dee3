"""The registry: histories of registrations, custom elements."""
from harness import rec, util
from harness.spec import KML, NS


def hierarchy():
    base = rec.fk("base")._XMLObject

    class A(base):
        _default_nsid = "kml"

    class B(A):
        pass

    class C(A):
        pass

    class M:
        pass

    class D(M, B):
        pass

    class E(D, C):
        pass

    return {"A": A, "B": B, "C": C, "D": D, "E": E}


def item(name, node):
    reg = rec.fk("registry")
    h = rec.fk("helpers")
    return reg.RegistryItem(ns_ids=("kml", ""), classes=(str,), attr_name=name, node_name=node, get_kwarg=h.subelement_text_kwarg,
                            set_element=h.text_subelement)


def expected(cs, history, key):
    """Ancestors first, most general first; registrations of a class in order."""
    out = []
    for parent in reversed(cs[key].__mro__):
        out += [it for k, it in history if cs[k] is parent]
    return out


def history(env, n, flavour="lxml"):
    """After any sequence of registrations, a class has the items of its
    ancestors and its own, in order, and no others."""
    util.use(env, flavour)
    cs = hierarchy()
    reg = rec.fk("registry").Registry()
    done = []
    for i in range(n):
        k = env.pick(f"class {i}", tuple(cs))
        it = item(f"a{i}", env.text(f"node {i}", 1, alphabet="abcdefgh"))
        reg.register(cs[k], it)
        done.append((k, it))
        if env.pick(f"look {i}", (False, True)):
            got = reg.get(cs["E"])
            got.append(None)        # the list belongs to the caller
            reg.get(cs[k]).clear()
    for k in cs:
        want = expected(cs, done, k)
        got = list(reg.get(cs[k]))
        env.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), f"items of {k}")
    env.check(list(rec.fk("registry").Registry().get(cs["E"])) == [], "a new registry is not empty")
    lib = rec.fk("registry").registry
    env.check(list(lib.get(cs["E"])) == list(lib.get(rec.fk("base")._XMLObject)), "registered elsewhere")


def library(env, flavour="lxml"):
    """Looking up the library's classes changes nothing and gives lists of
    their own."""
    util.use(env, flavour)
    from harness.spec import SPEC, names
    lib = rec.fk("registry").registry
    for key in names():
        c = rec.cls_of(key)
        a = lib.get(c)
        n = len(a)
        env.check(n >= 1, f"{key}: nothing is registered")
        first = list(a)
        a.clear()
        b = lib.get(c)
        env.check(len(b) == n and all(x is y for x, y in zip(first, b)), f"{key}: the registry's own list is handed out")
    t = env.text("t", 1)
    env.check(len(t) == 1, "input")


def custom(env, where, kind, use, flavour="lxml"):
    """A field registered for a class is written and read for it and its
    subclasses, and for no other class."""
    util.use(env, flavour)
    reg = rec.fk("registry")
    h = rec.fk("helpers")
    get, put, cls, val = {
        "text": (h.subelement_text_kwarg, h.text_subelement, str, lambda: env.text("value", 2, strip=True)),
        "int": (h.subelement_int_kwarg, h.int_subelement, int, lambda: env.integer("value")),
        "float": (h.subelement_float_kwarg, h.float_subelement, float, lambda: env.number("value")),
        "bool": (h.subelement_bool_kwarg, h.bool_subelement, bool, lambda: env.boolean("value")),
        "attribute": (h.attribute_text_kwarg, h.text_attribute, str, lambda: env.text("value", 2, strip=True)),
        "float attribute": (h.attribute_float_kwarg, h.float_attribute, float, lambda: env.number("value")),
        "int attribute": (h.attribute_int_kwarg, h.int_attribute, int, lambda: env.integer("value")),
        "enum": (h.subelement_enum_kwarg, h.enum_subelement, rec.fk("enums").ColorMode,
                 lambda: rec.enum_member("ColorMode", env.pick("value", ("normal", "random")))),
        "enum attribute": (h.attribute_enum_kwarg, h.enum_attribute, rec.fk("enums").ColorMode,
                           lambda: rec.enum_member("ColorMode", env.pick("value", ("normal", "random")))),
        "date": (h.datetime_subelement_kwarg, h.datetime_subelement, rec.fk("times").KmlDateTime,
                 lambda: rec.make_date(rec.gen_date(env, "value", False))),
        "xml": (h.xml_subelement_kwarg, h.xml_subelement, rec.cls_of("Data"),
                lambda: rec.cls_of("Data")(name=env.text("value", 2, strip=True), value="v")),
        "xml list": (h.xml_subelement_list_kwarg, h.xml_subelement_list, rec.cls_of("Data"),
                     lambda: [rec.cls_of("Data")(name=env.text(f"value {i}", 2, strip=True), value="v") for i in range(2)]),
    }[kind]
    node = "Data" if kind.startswith("xml") else "custom"
    targets = {"Feature": "features._Feature", "Container": "containers._Container", "Placemark": "features.Placemark",
               "Base": "kml_base._BaseObject"}
    mod, name = targets[where].split(".")
    c = getattr(rec.fk(mod), name)
    reg.registry.register(c, reg.RegistryItem(ns_ids=("kml", ""), classes=(cls,), attr_name="custom", node_name=node,
                                              get_kwarg=get, set_element=put))
    v = val()
    target = rec.cls_of(use)
    obj = target(custom=v, name="n") if use not in ("Style", "Region") else target(custom=v)
    el = obj.etree_element()
    has = issubclass(target, c)
    if "attribute" in kind:
        texts = [el.attrib["custom"]] if "custom" in el.attrib else []
    else:
        texts = [x.text for x in el if x.tag == KML + node]
    env.check(len(texts) == ((2 if kind == "xml list" else 1) if has else 0), f"{where} field on {use}: written {len(texts)} times")
    back = target.class_from_element(ns=KML, name_spaces=dict(NS), element=el, strict=True)
    got = getattr(back, "custom", None)
    if not has:
        env.check(got is None, f"{where} field on {use}: read though not registered")
    else:
        env.check(got is not None and got == v, f"{where} field on {use}: read back")
        env.check(type(got) is cls or env.symbolic or kind == "xml list", f"{where} field on {use}: type")
        env.check(back == obj, f"{where} field on {use}: equal")


def subclass(env, flavour="lxml"):
    """Fields registered for a user's subclass stay with it."""
    util.use(env, flavour)
    pm = rec.cls_of("Placemark")

    class Mine(pm):
        @classmethod
        def get_tag_name(cls):
            return "Placemark"

    rec.fk("registry").registry.register(Mine, item("mine", "mine"))
    t = env.text("value", 2, strip=True)
    nm = env.text("name", 2, strip=True)
    obj = Mine(mine=t, name=nm)
    el = obj.etree_element()
    env.check([c.tag for c in el] == [KML + "name", KML + "mine"], "inherited and own fields")
    env.check(el[1].text == t, "own field written")
    back = Mine.class_from_element(ns=KML, name_spaces=dict(NS), element=el, strict=True)
    env.check(back.mine == t and back.name == nm, "fields read back")
    plain = pm.class_from_element(ns=KML, name_spaces=dict(NS), element=el, strict=True)
    env.check(not hasattr(plain, "mine") and plain.name == nm, "the subclass's field is read for the parent")
    env.check([c.tag for c in pm(name=nm).etree_element()] == [KML + "name"], "written for the parent")


def own(env, key, flavour="lxml"):
    """A field registered for one class of the library."""
    util.use(env, flavour)
    from harness.spec import SPEC
    c = rec.cls_of(key)
    rec.fk("registry").registry.register(c, item("custom", "custom"))
    t = env.text("value", 2, strip=True)
    s = SPEC[key]
    r = rec.gen(env, key, "v", {a: True for a in (s.req[:1] if s.any_of else s.req)}, ())
    obj = rec.make(r, custom=t)
    el = obj.etree_element()
    mine = [x for x in el if x.tag == NS[s.ns] + "custom"]
    env.check([x.text for x in mine] == [t], f"{key}: registered field written")
    if s.ns != "kml":
        mine[0].tag = KML + "custom"
    back = c.class_from_element(ns=NS[s.ns], name_spaces=dict(NS), element=el, strict=True)
    env.check(getattr(back, "custom", None) == t, f"{key}: registered field read back")
    out = []
    rec.diff(back, r, key, out)
    util.report(env, "with a registered field", out)
    env.check(back == obj, f"{key}: equal with a registered field")
    env.check(not (back == rec.make(r)) and not (rec.make(r) == back), f"{key}: equal without the registered field")
