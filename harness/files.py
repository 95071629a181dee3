"""Files: reading, writing, validation."""
import io
import os
import pathlib
import shutil
import tempfile
import zipfile

from harness import generic, objects, rec, util
from harness.spec import KML, NS, SPEC


def flavour_of(env, flavour):
    return flavour if env.symbolic else getattr(env, "flavour", flavour)


class Verdict:
    """The schema processor's answer: given by the harness for the model, by
    libxml2 for the real one."""

    def __init__(self, env, valid):
        self.env = env
        self.valid = valid
        self.asked = None

    def __enter__(self):
        if self.env.symbolic:
            import importlib
            self.s = importlib.import_module("sx.etree").Schema
            self.s.log = []
            self.s.verdict = lambda tree: self.valid
        return self

    def __exit__(self, *a):
        if self.env.symbolic:
            self.asked = len(self.s.log)
            self.s.verdict = None
            self.s.log = []
        return False


def document(env, et, valid, cut=None):
    """A small document; not valid ones hold an unknown KML element."""
    r = rec.Rec("KML")
    d = rec.gen(env, "Document", "d", {"id": True, "name": True})
    d.val["id"] = "doc"
    p = rec.gen(env, "Placemark", "p", {"name": True, "visibility": True})
    d.val["features"] = [p]
    r.val["features"] = [d]
    root = rec.build(et, r, cut=cut)
    if not valid:
        et.SubElement(root[0], KML + "unknownElement").text = "x"
    return r, root


def gate(env, strict, validate, source, flavour="lxml"):
    """A file is validated before reading exactly if that was asked for, or
    left open while reading strictly; what is not valid is then refused."""
    et = util.use(env, flavour)
    fl = flavour_of(env, flavour)
    valid = env.pick("valid", (True, False))
    split = env.pick("comments inside values", (None, *generic.SPLITS))
    r, root = document(env, et, valid, split and generic.splitter(et, *split))
    text = et.tostring(root, encoding="unicode")
    must = fl == "lxml" and (validate is True or (validate is None and strict))
    tmp = tempfile.mkdtemp(prefix="sx-files-")
    try:
        kw = {} if validate is None else {"validate": validate}
        with Verdict(env, valid) as v:
            try:
                got = open_source(source, tmp, text, lambda f: rec.cls_of("KML").parse(f, strict=strict, **kw))
            except AssertionError:
                env.check(must and not valid, f"refused: {source}, strict={strict}, validate={validate}, valid={valid}")
                env.reach("refused")
                return
        env.check(valid or not must, f"accepted: {source}, strict={strict}, validate={validate}, not valid")
        if env.symbolic and v.asked is not None:
            env.check((v.asked > 0) == must, f"validated: {source}, strict={strict}, validate={validate}")
        out = []
        rec.diff(got, r, "KML", out)
        util.report(env, f"parsed from {source}", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def open_source(source, tmp, text, read):
    path = os.path.join(tmp, "a.kml")
    if source in ("str", "path", "binary file", "text file"):
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
    if source == "str":
        return read(path)
    if source == "path":
        return read(pathlib.Path(path))
    if source == "binary file":
        with open(path, "rb") as fh:
            return read(fh)
    if source == "text file":
        with open(path, encoding="utf-8") as fh:
            return read(fh)
    if source == "bytes":
        return read(io.BytesIO(text.encode("utf-8")))
    return read(io.StringIO(text))


def validator(env, how, flavour="lxml"):
    """validate(): True for what is valid, an AssertionError for what is not,
    None without a schema processor; exactly one thing to validate."""
    et = util.use(env, flavour)
    fl = flavour_of(env, flavour)
    val = rec.fk("validator")
    valid = env.pick("valid", (True, False)) if how != "object" else True
    r, root = document(env, et, valid)
    tmp = tempfile.mkdtemp(prefix="sx-files-")
    try:
        path = pathlib.Path(tmp) / "a.kml"
        path.write_text(et.tostring(root, encoding="unicode"), encoding="utf-8")
        if how in ("both", "none"):
            kw = {"element": root, "file_to_validate": path} if how == "both" else {}
            try:
                val.validate(**kw)
            except ValueError:
                env.reach("refused")
            else:
                env.fail(f"validate() with {how}")
            return
        with Verdict(env, valid):
            try:
                if how == "element":
                    got = val.validate(element=root)
                elif how == "file":
                    got = val.validate(file_to_validate=path)
                elif how == "schema":
                    xsd = pathlib.Path(val.__file__).parent / "schema" / "ogckml22.xsd"
                    got = val.validate(schema=xsd, element=root)
                else:
                    got = rec.make(r).validate()
            except AssertionError:
                env.check(fl == "lxml" and not valid, f"validate() refuses {how}, valid={valid}")
                env.reach("refused")
                return
        if fl == "lxml":
            env.check(got is True and valid, f"validate() accepts {how}, valid={valid}")
        else:
            env.check(got is None, f"validate() without a schema processor: {how}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def switched(env, first, then, flavour="lxml"):
    """What was configured before does not matter for validation."""
    libs = {"lxml": lib(env, "lxml"), "std": lib(env, "std")}
    cfg = util.config()
    name = env.text("name", 2, strip=True)
    for fl in (first, then):
        cfg.set_etree_implementation(libs[fl])
        with Verdict(env, True):
            got = rec.cls_of("KML")(features=[rec.cls_of("Placemark")(name=name)]).validate()
        env.check(got is (True if fl == "lxml" else None), f"validate() with {fl} after {first}")


def lib(env, flavour):
    if env.symbolic:
        import importlib
        return importlib.import_module("sx.boot").LIBS[flavour]
    if flavour == "std":
        import xml.etree.ElementTree as m
    else:
        import lxml.etree as m
    return m


STEMS = ("out", "out.kmz", "out.kml", "a b.kmz.v2", "kmz", "é")


def written(env, suffix, mode, precision, pretty, flavour="lxml"):
    """A written file holds what to_string gives, and reads back as it was."""
    util.use(env, flavour)
    r = rec.Rec("KML")
    d = rec.gen(env, "Document", "d", {"id": True, "name": True})
    d.val["id"] = "doc"
    p = rec.gen(env, "Placemark", "p", {"name": True, "visibility": True, "kml_geometry": "LineString"}, plain=False)
    d.val["features"] = [p]
    f = rec.gen(env, "Folder", "f", {"description": True, "name": True})
    f.val["name"] = "é€𐐷 <&>"
    r.val["features"] = [d, f]
    obj = rec.make(r)
    tmp = tempfile.mkdtemp(prefix="sx-files-")
    try:
        name = env.pick("stem", STEMS) + suffix
        suffix = ".kmz" if name.endswith(".kmz") else suffix
        path = pathlib.Path(tmp) / name
        kw = {} if mode is None else {"verbosity": util.verbosity(mode)}
        if precision is not None:
            kw["precision"] = precision
        if pretty is not None:
            kw["prettyprint"] = pretty
        obj.write(path, **kw)
        env.check(os.listdir(tmp) == [name], "files written")
        et = util.config().etree
        if suffix == ".kmz":
            with zipfile.ZipFile(path) as z:
                env.check(z.namelist() == ["doc.kml"], "members of the kmz file")
                text = z.read("doc.kml").decode("utf-8")
            got = et.fromstring(text)
        else:
            got = et.fromstring(path.read_bytes())
        want = et.fromstring(obj.to_string(**kw))
        env.check(objects.tree_eq(objects.tree(got), objects.tree(want)), f"what is written to {suffix}")
        out = []
        if precision is None and mode in (None, "normal"):
            if suffix == ".kmz":
                with zipfile.ZipFile(path) as z, z.open("doc.kml") as fh:
                    back = rec.cls_of("KML").parse(fh, validate=False)
            else:
                back = rec.cls_of("KML").parse(path, validate=False)
            rec.diff(back, r, "KML", out)
            util.report(env, f"read back from {suffix}", out)
            env.check(back == obj, f"equal after reading back from {suffix}")
        # writing again replaces the file
        obj.features = []
        obj.write(path, **kw)
        if suffix == ".kmz":
            with zipfile.ZipFile(path) as z:
                env.check(z.namelist() == ["doc.kml"], "members of the kmz file written again")
                again = et.fromstring(z.read("doc.kml").decode("utf-8"))
        else:
            again = et.fromstring(path.read_bytes())
        env.check(len(again) == 0, "the file written again")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------
# XML libraries

def backends(env, key, shapes, flavour="lxml"):
    """The XML written, and the object read, do not depend on the XML library;
    what one wrote the other reads."""
    libs = {f: lib(env, f) for f in ("lxml", "std")}
    cfg = util.config()
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    obj = rec.make(r)
    trees, texts = {}, {}
    for f in libs:
        cfg.set_etree_implementation(libs[f])
        cfg.set_default_namespaces()
        trees[f] = objects.tree(obj.etree_element())
        texts[f] = obj.to_string()
        objects_text = str(obj)
        env.check(len(objects_text) > 0, "text")
    env.check(objects.tree_eq(trees["lxml"], trees["std"]), f"{key}: the libraries write different trees")
    read = {}
    for f, g in (("lxml", "std"), ("std", "lxml")):
        cfg.set_etree_implementation(libs[g])
        read[g] = rec.cls_of(key).from_string(texts[f])
        out = []
        rec.diff(read[g], r, key, out)
        util.report(env, f"written with {f}, read with {g}", out)
    env.check(read["lxml"] == read["std"], f"{key}: the libraries read different objects")
