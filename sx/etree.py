"""Model of the XML library.

Elements are ordinary objects whose text and attribute values may be symbolic.
``tostring`` hands out a placeholder document that names a deep copy of the
tree, and ``fromstring``/``parse`` of text holding that placeholder gives the
tree back: an XML writer/reader pair that is lossless on well-formed content
(the contract of lxml and the standard library, see DESIGN.md).  Text without a
placeholder is parsed for real with expat.

Two flavours: lxml-like (has LXML_VERSION, pretty_print, nsmap, moves nodes on
append) and standard-library-like.
"""
from __future__ import annotations

import io
import re
import types
from xml.etree import ElementPath
from xml.etree import ElementTree as _ET

from sx import core
from sx.symstr import SymStr

_MARK = "é€𐐷"      # characters that must survive whatever is done to the text of a document
_PLACE = re.compile(r'<sxdoc id="(\d+)" c="' + _MARK + r'"\s*/>')
_DOCS = {}


def reset():
    _DOCS.clear()


def isstr(x):
    return isinstance(x, str)


def Comment(text=None):
    el = Element(Comment)
    el.text = text
    return el


def ProcessingInstruction(target, text=None):
    el = Element(ProcessingInstruction)
    el.text = target
    return el


class Element:
    """One element; list of children, attribute dict, text and tail."""

    flavour = "std"

    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.attrib.update(extra)
        self._text = None
        self._tail = None
        self._kids = []
        self._parent = None
        self._nsmap = dict(nsmap or {})

    def __repr__(self):
        return f"<Element {self.tag!r}>"

    def _chk(self, v):
        if v is not None and not isstr(v) and self.flavour == "lxml":
            raise TypeError(f"Argument must be bytes or unicode, got '{type(v).__name__}'")

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, v):
        self._chk(v)
        self._text = v

    @property
    def tail(self):
        return self._tail

    @tail.setter
    def tail(self, v):
        self._chk(v)
        self._tail = v

    @property
    def nsmap(self):
        if self.flavour != "lxml":
            raise AttributeError("nsmap")
        out = {} if self._parent is None else self._parent.nsmap
        out.update(self._nsmap)
        return out

    @property
    def sourceline(self):
        return 1

    @property
    def prefix(self):
        return None

    # children
    def _adopt(self, el):
        if not isinstance(el, Element):
            raise TypeError(f"expected an Element, not {type(el).__name__}")
        if self.flavour == "lxml":
            if el._parent is not None:
                el._parent._kids = [k for k in el._parent._kids if k is not el]
            el._parent = self

    def append(self, el):
        self._adopt(el)
        self._kids.append(el)

    def extend(self, els):
        for e in list(els):
            self.append(e)

    def insert(self, i, el):
        self._adopt(el)
        self._kids.insert(i, el)

    def remove(self, el):
        for i, k in enumerate(self._kids):
            if k is el:
                del self._kids[i]
                el._parent = None
                return
        raise ValueError("Element is not a child of this node.")

    def clear(self):
        self.attrib.clear()
        self._kids = []
        self._text = self._tail = None

    def __len__(self):
        return len(self._kids)

    def __bool__(self):
        return len(self._kids) > 0

    def __iter__(self):
        return iter(list(self._kids))

    def __getitem__(self, i):
        return self._kids[i]

    def __delitem__(self, i):
        del self._kids[i]

    def __setitem__(self, i, el):
        self._kids[i] = el

    def __contains__(self, el):
        return any(k is el for k in self._kids)

    def index(self, el):
        for i, k in enumerate(self._kids):
            if k is el:
                return i
        raise ValueError("not a child")

    # attributes
    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def set(self, k, v):
        if self.flavour == "lxml":
            if not isstr(v) or not isstr(k):
                raise TypeError(f"Argument must be bytes or unicode, got '{type(v).__name__}'")
        self.attrib[k] = v

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def values(self):
        return self.attrib.values()

    # search
    def find(self, path, namespaces=None):
        return ElementPath.find(self, path, namespaces)

    def findall(self, path, namespaces=None):
        return ElementPath.findall(self, path, namespaces)

    def findtext(self, path, default=None, namespaces=None):
        return ElementPath.findtext(self, path, default, namespaces)

    def iterfind(self, path, namespaces=None):
        return ElementPath.iterfind(self, path, namespaces)

    def iter(self, *tags):
        tags = tuple(t for t in tags if t not in (None, "*"))
        if not tags or self.tag in tags:
            yield self
        for k in list(self._kids):
            yield from k.iter(*tags)

    def itertext(self):
        if not isstr(self.tag):
            return
        if self._text:
            yield self._text
        for k in self._kids:
            yield from k.itertext()
            if k._tail:
                yield k._tail

    def makeelement(self, tag, attrib=None):
        return type(self)(tag, attrib)

    def getparent(self):
        if self.flavour != "lxml":
            raise AttributeError("getparent")
        return self._parent

    def iterchildren(self, *tags, reversed=False):
        if self.flavour != "lxml":
            raise AttributeError("iterchildren")
        ks = [k for k in self._kids if not tags or k.tag in tags]
        return iter(ks[::-1] if reversed else ks)

    def xpath(self, path):
        if self.flavour != "lxml":
            raise AttributeError("xpath")
        return [self]

    def getchildren(self):
        return list(self._kids)

    def getroottree(self):
        r = self
        while r._parent is not None:
            r = r._parent
        return Tree(r)

    def __copy__(self):
        return copy_tree(self, type(self))

    def __deepcopy__(self, memo):
        return copy_tree(self, type(self))


class LxElement(Element):
    flavour = "lxml"


class StdElement(Element):
    flavour = "std"


def copy_tree(el, cls):
    n = cls(el.tag, el.attrib)
    n._text, n._tail = el._text, el._tail
    n._nsmap = dict(el._nsmap)
    for k in el._kids:
        c = copy_tree(k, cls)
        c._parent = n if cls.flavour == "lxml" else None
        n._kids.append(c)
    return n


def drop(el, comments, pis, blanks=False):
    """What a parser leaves out: comments, processing instructions, blanks."""
    kids, last = [], None
    for k in el._kids:
        if (comments and k.tag is Comment) or (pis and k.tag is ProcessingInstruction):
            tail = k._tail
            if tail is not None and last is None:
                el._text = tail if el._text is None else el._text + tail
            elif tail is not None:
                last._tail = tail if last._tail is None else last._tail + tail
            continue
        drop(k, comments, pis, blanks)
        kids.append(k)
        last = k
    el._kids[:] = kids
    if blanks and kids:
        if el._text is not None and not el._text.strip():
            el._text = None
        for k in kids:
            if k._tail is not None and not k._tail.strip():
                k._tail = None


class Tree:
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def find(self, path, namespaces=None):
        return self._root.find(path, namespaces)

    def findall(self, path, namespaces=None):
        return self._root.findall(path, namespaces)

    def iter(self, *t):
        return self._root.iter(*t)

    def xpath(self, path):
        return self._root.xpath(path)

    def write(self, f, encoding=None, **kw):
        text = _place(self._root)
        if hasattr(f, "write"):
            f.write(text if encoding in ("unicode", str) else text.encode())
        else:
            with open(f, "w", encoding="utf-8") as fh:
                fh.write(text)


def _place(root):
    n = len(_DOCS) + 1
    _DOCS[n] = root
    pad = " " * (12 * sum(1 for _ in nodes(root)))      # a larger document takes more room
    return f'<sxdoc id="{n}" c="{_MARK}"{pad}/>'


def _decode(data):
    """The text of a document, by its byte order mark or declared encoding."""
    data = bytes(data)
    if data[:2] in (b"\xff\xfe", b"\xfe\xff"):
        return data.decode("utf-16")
    said = re.match(rb"(?:\xef\xbb\xbf)?\s*<\?xml[^>]*encoding=[\"']([\w.-]+)[\"']", data)
    return data.decode(said.group(1).decode() if said else "utf-8-sig", "surrogateescape")


def nodes(el):
    yield el
    for k in el._kids:
        yield from nodes(k)


def _check_serialisable(el):
    if isstr(el.tag):
        for k, v in el.attrib.items():
            if not isstr(v) or not isstr(k):
                raise TypeError(f"cannot serialize {v!r} (type {type(v).__name__})")
    for v in (el._text, el._tail):
        if v is not None and not isstr(v):
            raise TypeError(f"cannot serialize {v!r} (type {type(v).__name__})")
    for k in el._kids:
        _check_serialisable(k)


def _normalise(el, ns=None):
    """What writing and reading back does to a tree."""
    if isstr(el.tag) and not el.tag.startswith("{"):
        if "xmlns" in el.attrib:
            ns = el.attrib.pop("xmlns")
        if ns:
            el.tag = "{" + ns + "}" + el.tag
    for v in ("_text", "_tail"):
        t = getattr(el, v)
        if t is not None and not isinstance(t, SymStr) and t == "":
            setattr(el, v, None)
    for k in el._kids:
        _normalise(k, ns)


def _indent(el, level):
    if not el._kids or el._text is not None or any(k._tail is not None for k in el._kids):
        return
    pad = "\n" + "  " * (level + 1)
    el._text = pad
    for k in el._kids:
        k._tail = pad
        _indent(k, level + 1)
    el._kids[-1]._tail = "\n" + "  " * level


def _from_real(el, cls):
    tag = el.tag
    if tag is _ET.Comment:
        tag = Comment
    elif tag is _ET.ProcessingInstruction:
        tag = ProcessingInstruction
    n = cls(tag, el.attrib)
    n._text, n._tail = el.text, el.tail
    for k in el:
        c = _from_real(k, cls)
        c._parent = n if cls.flavour == "lxml" else None
        n._kids.append(c)
    return n


def make(flavour):
    cls = LxElement if flavour == "lxml" else StdElement
    m = types.ModuleType("sx_etree_" + flavour)

    def element(tag, attrib=None, nsmap=None, **extra):
        if flavour != "lxml" and nsmap is not None:
            raise TypeError("Element() got an unexpected keyword argument 'nsmap'")
        if not isstr(tag):
            raise TypeError("tag must be a string")
        return cls(tag, attrib, nsmap, **extra)

    def subelement(parent, tag, attrib=None, nsmap=None, **extra):
        el = element(tag, attrib, nsmap, **extra)
        parent.append(el)
        return el

    def tostring(el, encoding=None, method=None, xml_declaration=None, default_namespace=None,
                 short_empty_elements=True, **kw):
        if isinstance(el, Tree):
            el = el.getroot()
        pretty = kw.pop("pretty_print", None)
        with_tail = kw.pop("with_tail", True)
        if pretty is not None and flavour != "lxml":
            raise TypeError("tostring() got an unexpected keyword argument 'pretty_print'")
        if kw and flavour != "lxml":
            raise TypeError(f"tostring() got an unexpected keyword argument {list(kw)[0]!r}")
        _check_serialisable(el)
        c = copy_tree(el, cls)
        if not with_tail:
            c._tail = None
        if pretty:
            _indent(c, 0)
        _normalise(c)
        text = _place(c)
        if encoding in ("unicode", str):
            return text
        name = encoding or "us-ascii"
        data = text.encode(name, "xmlcharrefreplace")
        if xml_declaration or (xml_declaration is None and name.lower() not in ("utf-8", "us-ascii", "utf8", "ascii")):
            data = f"<?xml version='1.0' encoding='{name}'?>\n".encode(name) + data
        return data

    def fromstring(text, parser=None):
        if isinstance(text, SymStr):
            text = text.concretise()
        if isinstance(text, (bytes, bytearray)):
            text = _decode(text)
        hit = _PLACE.search(re.sub(r"&#(\d+);", lambda c: chr(int(c.group(1))), text) if "&#" in text else text)
        if hit and "&#" in text:
            text = re.sub(r"&#(\d+);", lambda c: chr(int(c.group(1))), text)
        if not hit and "<sxdoc" in text:
            raise m.ParseError("damaged document")
        if hit:
            rest = re.sub(r"^(<\?xml[^>]*\?>)?\s*(<!--.*?-->\s*)*", "", text[:hit.start()]) + text[hit.end():].strip()
            if rest and not getattr(parser, "kw", {}).get("recover"):
                raise m.ParseError("junk around the document element")
            root = copy_tree(_DOCS[int(hit.group(1))], cls)
            root._tail = None
            return left(root, parser)
        tb = _ET.TreeBuilder(insert_comments=flavour == "lxml", insert_pis=flavour == "lxml")
        p = _ET.XMLParser(target=tb)
        try:
            p.feed(text)
            root = p.close()
        except _ET.ParseError as exc:
            raise m.ParseError(str(exc)) from None
        return left(_from_real(root, cls), parser)

    def left(root, parser):
        kw = getattr(parser, "kw", {})
        std = flavour != "lxml"
        drop(root, std or kw.get("remove_comments"), std or kw.get("remove_pis"), kw.get("remove_blank_text"))
        return root

    def parse(source, parser=None):
        if hasattr(source, "read"):
            data = source.read()
        else:
            with open(source, "rb") as fh:
                data = fh.read()
        return Tree(fromstring(data, parser))

    class XMLParser:
        def __init__(self, **kw):
            if flavour != "lxml":
                bad = [k for k in kw if k not in ("target", "encoding")]
                if bad:
                    raise TypeError(f"'{bad[0]}' is an invalid keyword argument for XMLParser()")
            self.kw = kw

    class ParseError(SyntaxError):
        pass

    m.Element, m.SubElement, m.tostring, m.fromstring, m.XML = element, subelement, tostring, fromstring, fromstring
    m.parse, m.XMLParser, m.ParseError = parse, XMLParser, ParseError
    m.Comment, m.ProcessingInstruction, m.ElementTree = Comment, ProcessingInstruction, Tree
    m.register_namespace = lambda prefix, uri: None
    m.iselement = lambda x: isinstance(x, Element)
    for f in (element, subelement, tostring, fromstring, parse):
        f.__module__ = m.__name__
    if flavour == "lxml":
        m.LXML_VERSION = (6, 1, 3, 0)
        m.XMLSyntaxError = ParseError
        m._Element = Element

        class XPathEvalError(Exception):
            pass

        class DocumentInvalid(Exception):
            pass

        m.XPathEvalError, m.DocumentInvalid = XPathEvalError, DocumentInvalid
        m.XMLSchema = Schema
        m.CDATA = lambda t: t
    return m


class Schema:
    """Nondeterministic schema validator: any tree may be valid or not."""

    verdict = None      # harness hook: callable(tree) -> bool
    log = []

    def __init__(self, tree=None, **kw):
        self.error_log = []

    def assertValid(self, tree):
        Schema.log.append(tree)
        if Schema.verdict is not None and not Schema.verdict(tree):
            self.error_log = [types.SimpleNamespace(path="/*", message="invalid", line=1, filename="", column=0,
                                                    domain_name="", type_name="", level_name="")]
            raise AssertionError("invalid document")

    assert_ = assertValid

    def validate(self, tree):
        try:
            self.assertValid(tree)
        except AssertionError:
            return False
        return True

    __call__ = validate
