"""Validity against the OGC KML 2.2 schema (with the gx extension), read from
copies of the published schema files in harness/schema.

With symbolic inputs the schema is interpreted over the element tree; values
that depend on symbols give conditions.  In a replay the real validator of
libxml2 decides."""
import functools
import os
import xml.parsers.expat

from harness import rec, util
from harness.spec import NS, SPEC

XS = "{http://www.w3.org/2001/XMLSchema}"
HERE = os.path.join(os.path.dirname(__file__), "schema")
FILES = ("ogckml22.xsd", "kml22gx.xsd", "atom-author-link.xsd")
KNOWN = []      # texts of dates that need no second look
DIGITS = "0123456789"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Decl:
    def __init__(self, name, node, type_, group):
        self.name = name
        self.node = node
        self.type = type_
        self.group = group
        self.abstract = node.get("abstract") == "true"


class Node:
    """An element of a schema file."""

    def __init__(self, tag, attrib, names, target):
        self.tag = tag
        self.attrib = attrib
        self.names = names      # the namespace of every prefix
        self.target = target
        self.kids = []

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def __iter__(self):
        return iter(self.kids)


def load(path):
    names, stack, roots = {}, [], []
    p = xml.parsers.expat.ParserCreate()

    def start(tag, attrib):
        for a, v in attrib.items():
            if a == "xmlns" or a.startswith("xmlns:"):
                names[a[6:]] = v
        pre, _, local = tag.rpartition(":")
        target = stack[0].target if stack else "{" + attrib["targetNamespace"] + "}"
        node = Node("{" + names[pre] + "}" + local, dict(attrib), names, target)
        (stack[-1].kids if stack else roots).append(node)
        stack.append(node)

    def end(_tag):
        stack.pop()

    p.StartElementHandler = start
    p.EndElementHandler = end
    with open(path, "rb") as fh:
        p.Parse(fh.read(), True)
    return roots[0]


class Schema:
    def __init__(self):
        self.elements, self.types, self.groups, self.memo = {}, {}, {}, {}
        self.members = {}
        for fn in FILES:
            root = load(os.path.join(HERE, fn))
            target = root.target
            for node in root:
                if node.get("name") is None:
                    continue
                qn = target + node.get("name")
                if node.tag == XS + "element":
                    self.elements[qn] = Decl(qn, node, self.type_of(node), self.qname(node, node.get("substitutionGroup")))
                elif node.tag in (XS + "complexType", XS + "simpleType"):
                    self.types[qn] = node
                elif node.tag == XS + "attributeGroup":
                    self.groups[qn] = node
        for d in self.elements.values():
            at, seen = d, set()
            while at is not None and at.name not in seen:
                seen.add(at.name)
                self.members.setdefault(at.name, set())
                if not d.abstract:
                    self.members[at.name].add(d.name)
                at = self.elements.get(at.group)

    def qname(self, node, text):
        if text is None:
            return None
        pre, _, local = text.rpartition(":")
        uri = node.names.get(pre)
        return "{" + uri + "}" + local if uri else local

    def type_of(self, node):
        """The type of a declaration: its name, its own definition, or nothing."""
        if node.get("type") is not None:
            return self.qname(node, node.get("type"))
        for kid in node:
            if kid.tag in (XS + "complexType", XS + "simpleType"):
                return kid
        return None

    def node(self, type_):
        return self.types.get(type_) if isinstance(type_, str) else type_

    def declared(self, qn):
        """The declaration's type, looked up through the substitution group."""
        d = self.elements.get(qn)
        while d is not None and d.type is None and d.group is not None:
            d = self.elements.get(d.group)
        return d.type if d is not None else None

    # -- the parts of a complex type
    def content(self, type_):
        """(particles, attributes {name: (type, required)}, simple type or None)"""
        key = type_ if type_ is None or isinstance(type_, str) else id(type_)
        if key not in self.memo:
            self.memo[key] = self.analyse(type_)
        return self.memo[key]

    def analyse(self, type_):
        node = self.node(type_)
        parts, attrs, simple = [], {}, None
        if node is None or node.tag == XS + "simpleType":
            return parts, attrs, type_
        for kid in node:
            if kid.tag in (XS + "complexContent", XS + "simpleContent"):
                ext = next(k for k in kid if k.tag in (XS + "extension", XS + "restriction"))
                parts, attrs, simple = self.content(self.qname(ext, ext.get("base")))
                parts, attrs = list(parts), dict(attrs)
                if kid.tag == XS + "complexContent":
                    simple = None
                self.collect(ext, parts, attrs)
        self.collect(node, parts, attrs)
        return parts, attrs, simple

    def collect(self, node, parts, attrs):
        for kid in node:
            if kid.tag in (XS + "sequence", XS + "choice"):
                parts.append(kid)
            elif kid.tag == XS + "attribute":
                attrs[kid.get("name")] = (self.type_of(kid), kid.get("use") == "required")
            elif kid.tag == XS + "attributeGroup":
                self.collect(self.groups[self.qname(kid, kid.get("ref"))], parts, attrs)


@functools.lru_cache(maxsize=1)
def schema():
    return Schema()


def occurs(node):
    hi = node.get("maxOccurs", "1")
    return int(node.get("minOccurs", "1")), 10 ** 9 if hi == "unbounded" else int(hi)


def match(s, part, kids, i, types):
    """Index behind the children the particle takes, or None; the types they
    have there go to types."""
    lo, hi = occurs(part)
    n = 0
    while n < hi:
        j = once(s, part, kids, i, types)
        if j is None:
            break
        n += 1
        if j == i:
            n = max(n, lo)
            break
        i = j
    return i if n >= lo else None


def once(s, part, kids, i, types):
    if part.tag == XS + "element":
        if i >= len(kids):
            return None
        if part.get("ref") is None:     # an element of this type only
            if kids[i].tag != part.target + part.get("name"):
                return None
            types[i] = s.type_of(part)
            return i + 1
        if kids[i].tag not in s.members.get(s.qname(part, part.get("ref")), ()):
            return None
        types[i] = s.declared(kids[i].tag)
        return i + 1
    if part.tag == XS + "any":
        if i >= len(kids) or part.get("namespace") == "##other" and kids[i].tag.startswith(NS["kml"]):
            return None
        types[i] = s.declared(kids[i].tag)
        return i + 1
    inner = [k for k in part if k.tag != XS + "annotation"]
    if part.tag == XS + "choice":
        empty = None
        for p in inner:
            j = match(s, p, kids, i, types)
            if j is not None and j > i:
                return j
            if j is not None:
                empty = j
        return empty
    for p in inner:
        i = match(s, p, kids, i, types)
        if i is None:
            return None
    return i


def check_root(el, path, out):
    s = schema()
    if el.tag not in s.elements or s.elements[el.tag].abstract:
        out.append((f"{path}: no element {el.tag} in the schema", False))
    else:
        check(s, el, s.declared(el.tag), path, out)


def check(s, el, type_, path, out):
    """Append (where, condition) for the validity of an element of a type."""
    parts, attrs, simple = s.content(type_)
    kids = list(el)
    types = {}
    i = 0
    for p in parts:
        i = match(s, p, kids, i, types)
        if i is None:
            break
    tags = " ".join(k.tag.rsplit("}", 1)[-1] for k in kids)
    if i != len(kids):
        out.append((f"{path}: children {tags}", False))
        return
    for a, v in el.attrib.items():
        if a.startswith("xmlns"):
            continue
        if a not in attrs:
            out.append((f"{path}: attribute {a} is not in the schema", False))
        else:
            out.append((f"{path}@{a}", value_ok(s, attrs[a][0], v)))
    for a, (_t, req) in attrs.items():
        if req:
            out.append((f"{path}@{a} missing", a in el.attrib))
    if simple is not None:
        out.append((f"{path}: text", value_ok(s, simple, el.text if el.text is not None else "")))
    else:
        out.append((f"{path}: no text", el.text is None or len(el.text.strip()) == 0))
    for n, k in enumerate(kids):
        check(s, k, types[n], f"{path}/{k.tag.rsplit('}', 1)[-1]}", out)


def every(conds):
    out = True
    for c in conds:
        out = out & c
    return out


def some(conds):
    out = False
    for c in conds:
        out = out | c
    return out


def value_ok(s, type_, text):
    if type_ is None:
        return True
    node = s.node(type_)
    if node is None:
        return builtin_ok(type_[len(XS):], text)
    for kid in node:
        if kid.tag == XS + "list":
            item = s.qname(kid, kid.get("itemType"))
            return item == XS + "string" or every(value_ok(s, item, t) for t in text.split())
        if kid.tag == XS + "union":
            return any(value_ok(s, s.qname(kid, t), text) for t in kid.get("memberTypes").split())
        if kid.tag == XS + "restriction":
            members = [f.get("value") for f in kid if f.tag == XS + "enumeration"]
            if members:
                return some(text == m for m in members)
            base = s.qname(kid, kid.get("base"))
            ok = value_ok(s, base, text)
            for f in kid:
                v = f.get("value")
                if f.tag in (XS + "minInclusive", XS + "maxInclusive"):
                    try:
                        x = float(text)
                    except ValueError:
                        return False
                    ok = ok & (x >= float(v) if f.tag == XS + "minInclusive" else x <= float(v))
                if f.tag == XS + "length":
                    ok = ok & (len(text) == 2 * int(v))
                if f.tag == XS + "pattern":
                    ok = ok & pattern_ok(v, text)
            return ok
    return True


def pattern_ok(pattern, text):
    """The three patterns of the Atom schema."""
    if pattern == ".+@.+":
        return "@" in text[1:-1]
    if pattern == ".+/.+":
        return "/" in text[1:-1]
    return every((1 <= len(part) <= 8) & letters(part, LETTERS + DIGITS) for part in text.split("-"))


def letters(text, chars):
    return every(c in chars for c in text)


def builtin_ok(name, text):
    if name in ("string", "anySimpleType", "anyType", "anyURI"):
        return True
    if name in ("double", "float"):
        try:
            float(text)
        except ValueError:
            return False
        return True
    if name in ("int", "integer"):
        try:
            v = int(text)
        except ValueError:
            return False
        return name == "integer" or (v >= -2 ** 31) & (v < 2 ** 31)
    if name == "boolean":
        return some(text == t for t in ("0", "1", "true", "false"))
    if name == "hexBinary":
        return letters(text, "0123456789abcdefABCDEF")
    if name in ("ID", "NCName"):
        return len(text) > 0 and letters(text[0], LETTERS + "_") & letters(text, LETTERS + DIGITS + "._-")
    if name in ("dateTime", "date", "gYearMonth", "gYear"):
        return date_like(name, text)
    raise LookupError(name)


def digits(text, at, n):
    """The number written by n digits, or -1."""
    part = text[at:at + n]
    if len(part) != n or not letters(part, DIGITS):
        return -1
    return int(part)


def dates_of(r, out):
    """The texts the dates of the record have in the schema's form."""
    for fl in r.spec.fields:
        v = r.val.get(fl.attr)
        if fl.kind == "D" and v is not None:
            out.append(rec.date_text(v))
        elif fl.kind == "TR" and v is not None:
            out.extend(rec.date_text(i.when) for i in v)
        elif fl.kind == "X" and v is not None:
            dates_of(v, out)
        elif fl.kind == "L" and v is not None:
            for x in v:
                dates_of(x, out)


def date_like(name, text):
    same = [text == known for known in KNOWN]
    if any(c is True for c in same) or some(same):
        return True
    y = digits(text, 0, 4)
    if y < 1:
        return False
    if name == "gYear":
        return len(text) == 4
    m = digits(text, 5, 2)
    if len(text) < 7 or text[4] != "-" or m < 1 or m > 12:
        return False
    if name == "gYearMonth":
        return len(text) == 7
    d = digits(text, 8, 2)
    if len(text) < 10 or text[7] != "-" or d < 1 or d > rec.days_in(y, m):
        return False
    if name == "date":
        return len(text) == 10
    if len(text) < 19 or text[10] != "T" or text[13] != ":" or text[16] != ":":
        return False
    hh, mm, ss = digits(text, 11, 2), digits(text, 14, 2), digits(text, 17, 2)
    if hh < 0 or hh > 23 or mm < 0 or mm > 59 or ss < 0 or ss > 59:
        return False
    rest = text[19:]
    if len(rest) > 0 and rest[0] == ".":
        n = 1
        while n < len(rest) and rest[n] in DIGITS:
            n += 1
        if n == 1:
            return False
        rest = rest[n:]
    if len(rest) == 0 or rest == "Z":
        return True
    if len(rest) != 6 or not rest[0] in "+-" or rest[3] != ":":
        return False
    oh, om = digits(rest, 1, 2), digits(rest, 4, 2)
    return 0 <= oh <= 14 and 0 <= om <= 59 and (oh < 14 or om == 0)


# ---------------------------------------------------------------------------
# records whose values are of the schema's types

ORDERS = {("ExtendedData", "elements"): ("Data", "SchemaData"),
          ("Style", "styles"): ("IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle")}


def in_schema(key):
    s = schema()
    return NS[SPEC[key].ns] + SPEC[key].tag in s.elements


def conform(env, r, path):
    """Give the record values of the schema's types, and its lists an order and
    number of members the schema allows."""
    s = schema()
    spec = r.spec
    _parts, attrs, simple = s.content(s.declared(NS[spec.ns] + spec.tag))
    for fl in spec.fields:
        if fl.attr not in r.val:
            continue
        p = f"{path}.{fl.attr}"
        if fl.kind == "X":
            if (r.key, fl.attr) == ("IconStyle", "icon"):
                # the icon of an icon style holds an address only
                icon = r.val[fl.attr]
                icon.val = {a: v for a, v in icon.val.items() if a in ("id", "target_id", "href")}
            conform(env, r.val[fl.attr], p)
        elif fl.kind == "L":
            r.val[fl.attr] = allowed(r.key, fl.attr, r.val[fl.attr])
            for i, x in enumerate(r.val[fl.attr]):
                conform(env, x, f"{p}.{i}")
        elif fl.kind in ("A", "T", "N", "F", "FA", "I", "IA"):
            if fl.kind in ("A", "FA", "IA"):
                t = attrs[fl.node][0]
            elif fl.kind == "N":
                t = simple
            else:
                t = s.declared(NS[fl.ns or spec.ns] + fl.node)
            r.val[fl.attr] = of_type(env, s, t, p + ".typed", r.val[fl.attr], fl.kind)


def allowed(key, attr, members):
    if key == "KML":
        out = [x for x in members if x.key == "NetworkLinkControl"][:1]
        return out + [x for x in members if x.key != "NetworkLinkControl"][:1]
    order = ORDERS.get((key, attr))
    if order is None:
        return members
    out = sorted(members, key=lambda x: order.index(x.key))
    if key == "Style":
        return [x for i, x in enumerate(out) if x.key not in [y.key for y in out[:i]]]
    return out


def of_type(env, s, type_, name, value, kind):
    """A value of the type: the given one if every value of its kind is."""
    node = s.node(type_)
    if type_ is None:
        return value
    if node is None:
        base = type_[len(XS):]
        if base in ("ID", "NCName"):
            env.count = getattr(env, "count", 0) + 1
            return env.text(name, 2, pre=f"i{env.count}_", alphabet=LETTERS + "0123456789._-")
        if base == "anyURI":
            return env.text(name, 2, pre="http://h/", alphabet=LETTERS + "0123456789._-~")
        return value
    res = next((k for k in node if k.tag == XS + "restriction"), None)
    if res is None:
        return value
    for f in res:
        if f.tag == XS + "length":
            return env.text(name, 2 * int(f.get("value")), alphabet="0123456789abcdefABCDEF")
        if f.tag == XS + "pattern":
            v = f.get("value")
            if v == ".+@.+":
                return env.text(name, 2, pre="a@", alphabet=LETTERS)
            if v == ".+/.+":
                return env.text(name, 2, pre="a/", alphabet=LETTERS)
            return env.text(name, 2, alphabet=LETTERS)
    bounds = {f.tag[len(XS):]: float(f.get("value")) for f in res}
    if "minInclusive" in bounds:
        return env.number(name, int(bounds["minInclusive"]), int(bounds["maxInclusive"]))
    return value


@functools.lru_cache(maxsize=1)
def real_schema():
    from lxml import etree
    return etree.XMLSchema(etree.parse(os.path.join(HERE, "ogckml22.xsd")))


def valid(env, key, shapes, verbosity="normal", flavour="lxml"):
    """The XML written for an object of conforming values is valid."""
    util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    if not any(a.startswith("=") for a in attrs):
        attrs = {**{a: True for a in rec.needed(key)}, **attrs}
    r = rec.gen(env, key, "v", attrs, rich)
    conform(env, r, "v")
    obj = rec.make(r)
    out = []
    if env.symbolic:
        KNOWN.clear()
        dates_of(r, KNOWN)
        check_root(obj.etree_element(verbosity=util.verbosity(verbosity)), key, out)
    else:
        from lxml import etree
        text = obj.to_string(verbosity=util.verbosity(verbosity))
        sch = real_schema()
        ok = sch.validate(etree.fromstring(text))
        out.append(("valid", ok))
        if not ok:
            env.fail("valid", str(sch.error_log))
    util.report(env, "valid", out)
