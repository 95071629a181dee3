"""The properties: what they say, where the code behind them is, what their
checks cover.  tools/generate.py turns this into properties.jsonl and
MANIFEST.json; the runner copies explanation and bounds into the evidence."""

COMMON = ("The harness is executed symbolically on the current source of /repo/fastkml (and the installed pygeoif): inputs are z3 "
          "variables, every branch on them is split with solver queries, every assertion is a query for inputs that break it. "
          "Each counterexample is replayed on the unmodified code with the real XML libraries before it is reported. ")
VALUES = ("texts of 2 arbitrary characters (U+0020..U+D7FF, tab, newline), integers within 10^9, reals within 10^300 as exact "
          "rationals, all enumeration members, years 1-9999, up to 3 points per coordinate list, up to 2 members per list")
BIG = ("; larger objects (parts with all their fields, lists of 5, 40 and of every mixture of members, 150 points, 70 track items, "
       "6 holes, nesting 8 deep), in which only some values are symbolic")
TEXTS = "; 22 forms of text of up to 601 characters around 1-4 arbitrary ones, in every text field"
OUTSIDE = ("Outside: other long texts and lists, floating point rounding of decimal text (numbers and their text are tied by an exact "
           "round trip, as repr() guarantees), the C code of libxml2 and expat (modelled: trees, namespaces, text, attributes).")

FK = "fastkml/"


def P(id, title, statement, over, quant, why, files, mech, explanation, bounds, technique=None, note=None):
    return {"id": id, "title": title, "statement": statement, "over": over, "quant": quant, "why": why, "files": files,
            "mechanism": mech, "explanation": COMMON + explanation, "bounds": bounds, "technique": technique, "note": note}


ALL = [
    P("P01", "What is written to XML text reads back as the same object",
      "Any KML, gx or Atom object the library can build, written to XML text with the default settings and read back, gives an "
      "object of the same class in which every field has the same value and which compares equal to the original. This holds for "
      "every class, every combination of fields, both supported XML libraries, and nested objects at every level. Text counts "
      "without the white space around it, lists of several kinds of elements keep their order within each kind, parts that "
      "lack their mandatory content do not count, and a track item without an orientation may read back with a zero one.",
      ["inputs", "configurations"], "every class, every set of fields and their values, both XML libraries",
      "The tests round-trip single hand-written objects with one set of values each; the claim is over all values of all fields of "
      "some 60 classes, including zero, false, extreme and text values that look like something else.",
      ["base.py", "helpers.py", "registry.py", "kml.py", "features.py", "geometry.py", "gx.py", "times.py", "styles.py"],
      [("writing", FK + "base.py etree_element/to_string"), ("reading", FK + "base.py from_string/class_from_element"),
       ("field converters", FK + "helpers.py"), ("field table", FK + "registry.py")],
      "Objects of every class are built from symbolic field values, written to text, read back, and compared field by field and "
      "with ==, with the models of lxml and of xml.etree.",
      f"Every class; every single field with every child class; all fields; all but one field; {VALUES}{TEXTS}{BIG}; thorough adds every pair "
      f"of fields. {OUTSIDE}"),
    P("P02", "Written XML holds exactly the fields that are set",
      "The XML element written for an object has the name the KML, gx or Atom schema gives it and holds exactly one attribute or "
      "child element for each value that is set, under its schema name and namespace, whose text denotes exactly that value. "
      "Nothing is written for fields that are not set, and members of a list are written in list order.",
      ["inputs"], "every class, every set of fields and their values",
      "Tests look for a few substrings in a few outputs; a value written under a wrong name, twice, or in a changed form for some "
      "values only is not seen.",
      ["helpers.py", "base.py", "registry.py", "features.py", "styles.py", "views.py", "overlays.py", "links.py", "data.py", "model.py"],
      [("writers", FK + "helpers.py *_subelement, *_attribute"), ("write loop", FK + "base.py etree_element")],
      "The tree written for a symbolic object is compared with the tree the OGC schema prescribes for the same record (harness/spec.py "
      "is written from the schema, not from the code).",
      f"Every class; every single field with every child class; all fields; all but one field; {VALUES}{TEXTS}{BIG}; thorough adds every pair "
      f"of fields. {OUTSIDE}"),
    P("P03", "Child elements are written in the order the KML schema demands",
      "In every element written, at every level and every verbosity, child elements appear in the sequence the KML 2.2 schema "
      "prescribes for that element.",
      ["inputs", "configurations"], "every class, every pair of fields set together, every verbosity",
      "A wrong order only shows when two particular fields are set together; tests set few of the thousands of pairs.",
      ["registry.py", "features.py", "overlays.py", "styles.py", "views.py", "geometry.py", "containers.py", "network_link_control.py"],
      [("registration order", FK + "registry.py Registry.get"), ("registrations", FK + "*.py registry.register calls")],
      "Order of the children of written elements is compared with the sequence in the OGC schema.",
      f"Every class, every pair of fields, all fields, all but one; normal and verbose output; {VALUES}{BIG}. {OUTSIDE}"),
    P("P04", "Reading takes exactly what an element holds, whatever surrounds it",
      "Reading a well-formed element gives an object whose fields are exactly the values the element holds, in strict and in lenient "
      "mode. The order of sibling elements, white space around values, comments and processing instructions between elements (in XML text, "
      "inside values as well), and unknown elements or "
      "attributes (also of other namespaces) make no difference.",
      ["inputs"], "every class, every set of fields and values, every layout",
      "Tests read a few documents in one layout; the claim is over all layouts of all elements.",
      ["base.py", "helpers.py", "registry.py", "kml.py"],
      [("readers", FK + "helpers.py *_kwarg"), ("read loop", FK + "base.py _get_kwargs")],
      "Element trees are built from symbolic records by the schema table, laid out in seven ways, and read; every field of the result "
      "is compared with the record.",
      f"Every class; layouts: schema order, reversed, interleaved, padded, surrounded by unknown elements and attributes, with comments between elements and inside values; "
      f"{VALUES}{TEXTS}{BIG}; thorough adds every pair of fields. {OUTSIDE}"),
    P("P05", "Verbosity changes what is spelled out, never what it means",
      "Normal output holds the values that are set; terse output may leave out only values that equal the KML schema default of that "
      "element; verbose output adds an element or attribute for every unset value that has a schema default, holding that default, and "
      "nothing else (the icon of an IconStyle, where the schema allows an address only, may stay as it is). Read back, every field of "
      "all three has the same value, or both are the schema default.",
      ["inputs", "configurations"], "every class, fields, values and verbosity",
      "Whether a value may be dropped depends on the value being the default; tests try a handful of fields.",
      ["helpers.py", "base.py", "enums.py"],
      [("terse/verbose decisions", FK + "helpers.py get_value and *_subelement"), ("defaults", FK + "registry.py RegistryItem.default")],
      "Symbolic objects are written at each verbosity, read back, and each field compared: equal, or dropped though equal to the schema "
      "default (terse), or added with the schema default (verbose).",
      f"Every class; every single field, all fields, all but one; three verbosities; {VALUES}{TEXTS}{BIG}; thorough adds every pair of fields. "
      f"HotSpot x/y and Lod minLodPixels are not judged (the library's default differs from the schema's). {OUTSIDE}"),
    P("P06", "Strict reading accepts a typed value exactly if it is well formed",
      "When reading strictly, text in a boolean, integer, number, enumeration, date or coordinate field either is a well-formed value, "
      "which is then read exactly, or the library raises its parse error - never another exception, and never a silently wrong or "
      "dropped value. Blank text means no value, and neighbouring fields are not affected.",
      ["inputs"], "every text in every typed field",
      "The claim is over all texts; tests try a few malformed ones in a few places.",
      ["helpers.py", "exceptions.py", "enums.py", "times.py", "geometry.py"],
      [("error handling", FK + "helpers.py handle_error"), ("typed readers", FK + "helpers.py subelement_*_kwarg, attribute_*_kwarg")],
      "Every typed field of every class is read from an element whose text is symbolic, character by character; the verdict of an "
      "independent oracle for the type is compared. The same with one value of a full document replaced, and with malformed text in "
      "every class of part inside every class that holds it, alone, before and after parts of every other kind.",
      "Texts of up to 3 arbitrary ASCII characters (4 thorough), up to 5 over number and boolean alphabets, enumeration texts of every "
      "member's length, date texts up to 10 digits and dashes; texts of up to 2 arbitrary characters inside 19 number and 12 boolean "
      "texts; every typed field gets lengths 0-2; times, positions and orientations of a track, and 0-2 of each. Outside: longer texts; texts arrow "
      "alone decides (its parsing is modelled and checked against facts recorded from the real library)."),
    P("P07", "Lenient reading never fails on malformed values and keeps the rest",
      "When reading leniently, no text in a boolean, integer, number, enumeration, date or coordinate field makes reading fail: a "
      "malformed value leaves only its own field unset, and every other value of the document is read as if the malformed one were "
      "not there. Well-formed values are read exactly; booleans and enumerations in any letter case.",
      ["inputs"], "every text in every typed field of a document",
      "The claim is over all texts and all the other values of the document; tests try few combinations.",
      ["helpers.py", "base.py", "kml.py", "enums.py", "gx.py"],
      [("error handling", FK + "helpers.py handle_error"), ("enumerations", FK + "enums.py RelaxedEnum")],
      "As for strict reading, with strict off: no exception, the field unset for malformed text, all other fields of the document "
      "unchanged.",
      "As for strict reading."),
    P("P08", "Dates keep moment, time zone and resolution",
      "A date given as a date or an aware date and time, at year, month, day or full resolution, is truncated to that resolution, "
      "written in the KML text form of it, and read back with the same fields, offset and resolution. Text of every KML date form is "
      "read as the date it denotes, text that denotes no calendar date is refused, and two dates are equal exactly if moment and "
      "resolution are.",
      ["inputs"], "every date of years 1 to 9999, time, offset and resolution; every text of the four KML forms",
      "The claim is over all calendar dates, leap years, early years, fractions and offsets; tests use some twenty dates.",
      ["times.py", "helpers.py"],
      [("values", FK + "times.py KmlDateTime"), ("parsing", FK + "times.py KmlDateTime.parse"), ("truncation", FK + "times.py adjust_date_to_resolution")],
      "Dates with symbolic year, month, day, time, fraction; digits of date texts symbolic; every KML date field of every class.",
      "Years 1-9999 with calendar rules encoded, microseconds, 8 offsets (12 thorough) between -23:59 and +23:59, fractions of 1-6 "
      "digits; moments compared across pairs of these offsets; texts of up to 8 digits and dashes in any arrangement. Outside: naive datetimes, 24:00, week and ordinal dates, fractions over six digits."),
    P("P09", "Coordinates are read and written exactly, or rounded as asked",
      "Coordinate text with any white space between tuples and spaces after commas is read as its tuples, in order; malformed text is a "
      "parse error (strict) or no coordinates (lenient). Written text holds the tuples in order and exactly, or with a precision every "
      "number rounded to that many decimals, in every geometry and at every depth; tuples that are not of two or three numbers are "
      "refused.",
      ["inputs", "configurations"], "every coordinate list, layout, and precision",
      "The claim is over all numbers, counts, layouts and precisions; tests use short lists of small integers.",
      ["geometry.py", "helpers.py", "gx.py"],
      [("reader", FK + "helpers.py/geometry.py coordinates_subelement_kwarg"), ("writer", FK + "helpers.py coordinates_subelement")],
      "Symbolic numbers in every layout; symbolic characters as coordinate text; written text against the numbers, per precision.",
      "Up to 4 tuples of 2 or 3 numbers; texts of up to 6 symbolic characters inside constant text; precisions none, 0, 1, 2, 3, 6, 9; "
      "numbers within 400 as exact rationals. Lists of mixed dimension are written; with a precision every geometry of every class is. " + OUTSIDE),
    P("P10", "Geometries convert between KML and geo objects without loss",
      "A KML geometry, placemark or model made from a geometry object (or anything offering the geo interface) gives that geometry back: "
      "same type, same parts in the same order, same rings and coordinates, and again after writing and reading. Extrude, tessellate and "
      "altitude mode reach every part; coordinates that make no geometry give none instead of an error, parts without any do not hide the others, and giving both forms of a "
      "geometry is refused.",
      ["inputs"], "every geometry type, dimension, number of parts and holes, coordinates",
      "The claim is over all coordinates and nestings; tests use one instance of each type.",
      ["geometry.py", "features.py", "model.py", "gx.py"],
      [("factory", FK + "geometry.py create_kml_geometry"), ("geometry properties", FK + "geometry.py *.geometry"),
       ("collections", FK + "geometry.py create_multigeometry")],
      "pygeoif geometries with symbolic coordinates are converted by factory, class, placemark and geo interface and compared part by part.",
      "16 kinds of geometry of up to 3 parts, 2 and 3 dimensions, rings of 3-4 corners that are distinct, up to 3 holes, point counts "
      "0-4 of dimension 1-4; both forms given, the KML form with or without content. Order of parts after reading back is judged within one kind. " + OUTSIDE),
    P("P11", "The i-th time, position and orientation of a track belong together",
      "However a track is given - items, separate lists, or XML with any interleaving of its children - its i-th item holds the i-th "
      "time, position and orientation, missing orientations are zero, and writing gives them back in that order. Tracks of a multi track "
      "keep their order, empty ones do not count, and the geometry has one line per track.",
      ["inputs"], "every number of items and of orientations, every layout",
      "The claim is over all lengths and interleavings; tests use one layout.",
      ["gx.py", "helpers.py"],
      [("zipping", FK + "gx.py Track.__init__"), ("writing", FK + "helpers.py datetime_subelement_list, gx.py"),
       ("geometry", FK + "gx.py track_items_to_geometry, tracks_to_geometry")],
      "Tracks of symbolic times, positions and orientations built in three ways and read in three layouts; compared item by item.",
      "Up to 3 items (4 thorough), up to 3 tracks, dimensions 2 and 3, all four date resolutions; items without orientation. " + OUTSIDE),
    P("P12", "Namespaces of a document are respected and never leak",
      "A document in another KML namespace, with that namespace given or taken from its root element, is read like one in the standard "
      "namespace and written back in its own; elements without a namespace inside it are read as well, where there is no such element in "
      "the namespace. Altitude modes of the sea floor are written in the extension namespace and read from either. Namespace tables given by or handed to the caller are never shared "
      "or changed, nor are the library's defaults.",
      ["inputs", "configurations", "histories"], "every class, KML namespace, way of giving it, and later use",
      "Leaks only show in a later, unrelated operation; tests use fresh processes of one namespace.",
      ["base.py", "kml.py", "config.py", "helpers.py", "registry.py"],
      [("tables", FK + "base.py _XMLObject.__init__"), ("root namespace", FK + "kml.py KML.parse"), ("fallback", FK + "base.py _get_kwargs")],
      "Every class is read from and written to trees in other namespaces and none; tables are changed afterwards and looked at elsewhere.",
      f"Four other KML namespaces (one in quick for the class sweep), no namespace, given by root, table or argument; {VALUES}{BIG}. The root "
      f"of a file without any namespace is outside (it reads no features, as the tests demand). {OUTSIDE}"),
    P("P13", "Searching an object tree finds every match once and nothing else",
      "Searching from an object by type and attribute values yields exactly the objects at or below it that are of one of the types and "
      "have all the values, each once, wherever in the tree they are held; searching for one gives the first of them, or nothing. "
      "Attributes an object does not have never match, and searching changes nothing.",
      ["inputs"], "every tree within bounds, every search",
      "The claim is over all trees and all coincidences of attribute values; tests search two documents.",
      ["utils.py"], [("traversal", FK + "utils.py get_all_attrs"), ("matching", FK + "utils.py has_attribute_values, find_all, find")],
      "Trees whose ids, names and visibilities are symbolic are searched by symbolic values; the result is compared with a walk of the "
      "record the tree was built from.",
      "Every class holding every part it may hold, with content or without; feature trees of up to 5 features and depth 3; ids and names of 1 character."),
    P("P14", "A style is found by the fragment of its URL, and only by that",
      "Looking up a style URL in a document gives the style or style map in or below it whose id equals the part of the URL after the "
      "hash sign, and nothing if there is none; other objects with that id are never returned. A style map gives for normal and "
      "highlight the style of the first pair with that key. What was looked up before makes no difference.",
      ["inputs", "histories"], "every id and URL within bounds, every place of a style",
      "The claim is over all ids and URLs, including those that are prefixes of one another; tests use one.",
      ["containers.py", "styles.py", "utils.py"], [("lookup", FK + "containers.py Document.get_style_by_url"), ("style map", FK + "styles.py StyleMap.normal, highlight")],
      "Documents with styles of symbolic ids at symbolic places, looked up by a symbolic fragment after several bases.",
      "Ids of 1-4 and fragments of 0-4 characters over 18 (2 each where several styles are present), up to 2 styles (3 thorough) at 6 kinds of places, 6 base URLs, URLs without fragment up to "
      "4 characters (6), up to 3 pairs; lookups before, between and after every two (thorough: three) of nine kinds of changes."),
    P("P15", "Objects are equal exactly if class and every field are",
      "Two objects compare equal exactly if they are of the same class and every field, at every depth and including registered custom "
      "fields, has the same value, as have their namespaces and prefixes (coordinates compare as geometries do, with a small tolerance); "
      "equality is reflexive and symmetric, inequality is its opposite, and comparing with anything else is false. Assigning a field changes equality accordingly.",
      ["inputs", "histories"], "every class, every field, every pair of values",
      "A field left out of a comparison is invisible to tests that compare equal objects.",
      ["base.py", "geometry.py", "times.py", "gx.py"], [("equality", FK + "base.py __eq__"), ("geometries", FK + "geometry.py __eq__")],
      "Pairs of symbolic objects differing in one field (same or different values, decided by the solver) are compared both ways.",
      f"Every class, every field with every child class, one field differing, or absent, or assigned; another namespace or prefix; 14 pairs of similar classes; "
      f"{VALUES} (texts of 1 character). Geometries compare numbers with a relative tolerance of 1e-9: coordinates here are equal or at "
      f"least 1 apart, below 10^6. {OUTSIDE}"),
    P("P16", "The repr of an object evaluates to an equal object",
      "For every object, its repr is an expression that, evaluated with the library's names, gives an object of the same class with the "
      "same value in every field, equal to the original; taking the repr changes nothing.",
      ["inputs"], "every class, fields, values",
      "A field missing from a repr, or a value whose repr is no expression, needs that field set to show.",
      ["base.py", "features.py", "geometry.py", "styles.py", "times.py", "gx.py"], [("repr", FK + "*.py __repr__"), ("custom fields", FK + "base.py _get_splat")],
      "repr() runs symbolically, its text (with symbolic parts as opaque literals) is evaluated by the real eval(), and the result compared.",
      f"Every class; every single field with every child class; all fields; all but one; {VALUES}{TEXTS}{BIG}; thorough adds every pair. A polygon "
      f"without outer boundary is outside. {OUTSIDE}"),
    P("P17", "Registered fields reach their class and its subclasses, in order",
      "After any history of registrations and lookups, a class has the fields registered for its ancestors and itself, most general first "
      "and in order of registration, and no others; lists handed out belong to the caller. A custom field registered for a class is "
      "written, read, compared and shown for it and its subclasses and for no other class.",
      ["histories", "inputs"], "every history of registrations and lookups within bounds; every class",
      "The claim is over histories; tests register once.",
      ["registry.py", "base.py", "helpers.py"], [("registry", FK + "registry.py Registry"), ("use", FK + "base.py")],
      "Histories of registrations over a class hierarchy with multiple inheritance, interleaved with lookups whose results are wrecked; "
      "custom fields of seven kinds on four classes used by six; one on every class.",
      "Histories of up to 3 registrations (4 thorough) over 5 classes with a lookup or none after each."),
    P("P18", "Reading and writing change nothing and share nothing",
      "Writing, printing, comparing, converting and searching leave an object as it was, and writing again gives the same XML; reading "
      "leaves the XML tree as it was. Objects read from one tree, built from one list, or built with defaults share no mutable part, and "
      "lists may be given as any iterable, used once.",
      ["histories", "inputs"], "every class, every value, every interleaving of two operations",
      "Aliasing and hidden state show only in a later operation on another object.",
      ["base.py", "helpers.py", "features.py", "containers.py", "styles.py", "geometry.py", "data.py"],
      [("writers", FK + "helpers.py"), ("constructors", FK + "*.py __init__")],
      "Symbolic objects are written, put to another use, written again; trees read twice and one object wrecked; lists changed after use.",
      f"Every class; 5 kinds of use in between; lists of 2 members given in 4 ways; {VALUES}{BIG}. {OUTSIDE}"),
    P("P19", "Files are validated when asked and hold what the object holds",
      "Reading a file validates it exactly if that is asked for, or strict reading leaves it open and a schema processor is available, and "
      "refuses what is not valid; path, string, text and binary sources give the same object. A file, or a KMZ archive if its name ends in .kmz, holds "
      "exactly the document's XML at the given precision and verbosity, replaces what was there, and reads back as it was. The validator "
      "answers true, raises on invalid input, or says it is unavailable, whatever was configured before.",
      ["configurations", "inputs", "histories"], "every combination of source, strictness, validation, library, suffix, verbosity, precision",
      "The claim is over all combinations of options; tests try a few.",
      ["kml.py", "validator.py", "config.py"], [("gate", FK + "kml.py lxml_parse_and_validate"), ("writing", FK + "kml.py KML.write"), ("validator", FK + "validator.py validate")],
      "Documents with symbolic values go through files in every combination of options; the schema processor is a model whose verdict is "
      "chosen by the harness.",
      "2 XML libraries x 2 strictness x 3 validation x 6 sources x 5 placements of comments; 5 suffixes x 6 stems x 4 verbosities x 2 precisions x 3 pretty print. What the "
      "schema accepts is libxml2's business and outside."),
    P("P20", "Appending adds one member at the end and nothing else",
      "Appending to a document, folder, KML root, schema or schema data adds that very object at the end, keeps the others in order, and "
      "shows in the written XML; other objects and the caller's lists are not affected. A container refuses itself and stays as it was, "
      "and equal members stay separate members.",
      ["histories"], "every sequence of appends within bounds",
      "The claim is over sequences; tests append once or twice.",
      ["containers.py", "kml.py", "data.py"], [("append", FK + "containers.py, kml.py, data.py append*")],
      "Sequences of appends of symbolic members of symbolic kinds, or of members that are there already, after 0-2 initial members.",
      "Up to 3 appends (4 thorough) of 3 kinds, 5 containers."),
    P("P21", "Zero and false are values: only missing content hides an element",
      "An object counts as empty only if content its element cannot do without is missing; zero, false and default values are content. "
      "A part holding only zeros or falses is written inside its parent and read back with them, and a member of a list that lacks its "
      "content neither hides those beside it nor changes their order.",
      ["inputs"], "every class, subset of mandatory content, and value",
      "Only particular values (zero, false, empty list) at particular fields show the fault.",
      ["helpers.py", "base.py", "features.py", "styles.py", "views.py", "overlays.py", "model.py", "times.py"],
      [("truth", FK + "*.py __bool__"), ("presence", FK + "helpers.py get_value, xml_subelement")],
      "Every subset of mandatory fields with symbolic values (including zero), and all-zero parts inside every parent.",
      f"Every class with mandatory content, every subset of it, with and without the other plain fields; lists of 2-3 members of which 1-2 lack content. {OUTSIDE}"),
    P("P22", "Both XML libraries give the same XML and the same objects",
      "For every object, the element tree written does not depend on which of the two supported XML libraries is configured; text written "
      "with one is read with the other as the same object, and switching between them at run time takes effect at once.",
      ["inputs", "configurations"], "every class, fields, values, pair of libraries",
      "Differences (attribute order, prefixes, missing functions) show for particular fields only.",
      ["config.py", "base.py", "kml.py", "helpers.py"], [("choice", FK + "config.py set_etree_implementation"), ("use", FK + "base.py, kml.py")],
      "Each symbolic object is written with both library models and read crosswise.",
      f"Every class; every single field, all fields, all but one; {VALUES}{TEXTS}{BIG}. {OUTSIDE}"),
    P("P23", "Shortcuts give what the parts they stand for hold",
      "The icon address of an icon style is that of its icon however it was given; time stamp, begin and end of a feature are those of its "
      "time element and nothing for the other kind; the geometry of a placemark, model or location is that of its parts, or nothing if "
      "incomplete; the lists of a track are those of its items. They follow later changes of the parts.",
      ["inputs", "histories"], "every feature class, time kind, geometry class, subset of location values, number of track items",
      "The claim is over all classes and combinations, before and after changes.",
      ["styles.py", "mixins.py", "features.py", "model.py", "gx.py"],
      [("icon", FK + "styles.py IconStyle.icon_href"), ("times", FK + "mixins.py TimeMixin"), ("geometry", FK + "features.py, model.py, gx.py geometry")],
      "Symbolic parts are given in every way and the shortcuts compared with them, before and after writing, reading and assigning.",
      "8 ways of giving an icon, 7 feature classes x 5 time kinds, 8 geometry classes, every subset of location values, up to 3 track items "
      "(5 thorough)."),
    P("P24", "White space around text never counts; blank text is no text",
      "Text given to a constructor or read from an element or attribute is kept exactly, without the white space around it; text of white "
      "space only, or empty, leaves the field unset and is not written.",
      ["inputs"], "every text field of every class, every text within bounds",
      "The claim is over all texts and all text fields; tests try a few fields.",
      ["helpers.py", "features.py", "styles.py", "data.py", "atom.py", "links.py"],
      [("cleaning", FK + "helpers.py clean_string"), ("readers", FK + "helpers.py node_text_kwarg, subelement_text_kwarg, attribute_text_kwarg")],
      "Every text field of every class is given, and read from, a text of symbolic characters.",
      "Texts of up to 3 arbitrary characters (5 thorough). The ids of KML objects (id, targetId) are outside."),
    P("P27", "An object acts on its current values, however it came to hold them",
      "After any sequence of looking at an object (writing it, comparing it, asking for its representation, geometry or other shortcuts, "
      "searching it) and changing it in place - assigning fields, changing parts it holds, adding to and removing from its lists - its "
      "XML, equality, truth value, geometry and shortcuts are those of an object built with these values in the first place.",
      ["inputs", "histories"], "every class, every field, every change of its value, parts and lists, before and after use",
      "A value remembered from an earlier use shows only in a sequence of use, change and use; tests build, use once and stop.",
      ["base.py", "geometry.py", "gx.py", "features.py", "styles.py", "mixins.py", "model.py"],
      [("writing", FK + "base.py etree_element"), ("equality", FK + "base.py __eq__"), ("geometry", FK + "geometry.py, gx.py, features.py, model.py geometry"),
       ("shortcuts", FK + "mixins.py, styles.py")],
      "Two symbolic records of a class: an object made from the first is used, changed in place into the second, and compared with the "
      "tree the schema prescribes for the second and with a fresh object.",
      f"Every class; all fields; every field with every child class set, removed, replaced by another value or class; parts replaced or "
      f"changed inside; lists of 1 and 3 members; {VALUES}. {OUTSIDE}"),
    P("P26", "Written documents are valid against the OGC KML 2.2 schema",
      "What is written, at every verbosity, for an object whose mandatory content is present and whose values are of the schema's types "
      "is valid against the KML 2.2 schema with Google's gx extension: names, nesting, order and number of children, attributes and the "
      "lexical form of every value. Lists whose members the schema wants in a sequence are given in it.",
      ["inputs"], "every class of the schema, every combination of fields within bounds, every value of the schema's types",
      "Tests validate a few documents; a default that is outside its type, a child out of sequence or a value in another lexical form shows "
      "only for some combination of fields and values.",
      ["base.py", "helpers.py", "registry.py", "validator.py", "schema/ogckml22.xsd"],
      [("writing", FK + "base.py etree_element, helpers.py *_subelement, *_attribute"), ("order", FK + "registry.py and the registrations")],
      "The published schema files (copies in harness/schema) are interpreted over the element tree written for a symbolic object: "
      "content models, substitution groups, attributes, simple types with their facets. A counterexample is replayed with the real "
      "validator of libxml2.",
      f"Every class the schema has (all but Contributor), every field alone, all fields, all but one field, larger objects; the three "
      f"verbosities; URIs, ids, colours, e-mail addresses and media types of the form the schema asks for around 2 arbitrary letters, "
      f"angles within their ranges, {VALUES}. Outside: documents of more than one feature below the root, ids that occur twice."),
]

NOT_APPLICABLE = [
    {"id": "P25", "title": "Written text is well-formed XML for every string value",
     "statement": "Whatever characters the values of an object hold, the XML text written for it is well formed and denotes the same "
                  "characters, or writing is refused.",
     "over": ["inputs"], "quant": "every string value",
     "why": "Tests use plain ASCII values.",
     "files": ["base.py", "kml.py"], "mechanism": [("serialisation", FK + "base.py to_string, kml.py write")],
     "reason": "Escaping, encoding and the refusal of control characters are decided inside libxml2 and expat, C libraries without source "
               "here; they cannot be encoded, and a model of them would only repeat the assumption."},
]
BY_ID = {p["id"]: p for p in ALL}

# what the outcome is compared with
ORACLE = {
    "P01": "the record the object was built from, and the library's own ==.",
    "P02": "the schema table (harness/spec.py): names, namespaces, kinds; texts are compared by the value they denote.",
    "P03": "the sequence of the schema table.",
    "P04": "the record the element was built from.",
    "P05": "the record and the defaults of the schema table.",
    "P06": "the KML words for booleans and enumerations, the calendar for dates, and for numbers what Python reads as one (which is a little more than XML Schema allows), in harness/typed.py; the exception class.",
    "P07": "the same rules; the record without the malformed field.",
    "P08": "calendar arithmetic on the symbolic fields (harness/dates.py).",
    "P09": "the tuples themselves; for a precision, a half unit bound around each number and the number of digits.",
    "P10": "the geometry object given, compared part by part.",
    "P11": "the lists or items given, index by index.",
    "P12": "the record, the namespace chosen, and copies of every table made beforehand.",
    "P13": "a walk over the record the tree was built from.",
    "P14": "the ids given to the styles.",
    "P15": "equality of the records.",
    "P16": "the record, after evaluating the repr with the library's names.",
    "P17": "a list of registrations kept by the harness.",
    "P18": "a deep comparison with a copy of the record, and identity of parts.",
    "P19": "to_string() of the same object, the record, and the verdict chosen for the schema processor.",
    "P20": "a list kept by the harness, compared by identity.",
    "P21": "the mandatory content of the schema table.",
    "P22": "the other library's result.",
    "P23": "the parts, read directly.",
    "P24": "the text without the white space around it.",
    "P26": "the published schema files, interpreted (harness/xsd.py); libxml2's validator in the replay.",
    "P27": "an object built afresh from the values the history left.",
}

# seconds on 8 cores: (quick, thorough)
COST = {
    "P01": (37, "20 min"), "P02": (9, "10 min"), "P03": (12, "10 min"), "P04": (114, "20 min"), "P05": (53, "20 min"),
    "P06": (49, "10 min"), "P07": (31, "10 min"), "P08": (40, "20 min"), "P09": (21, "20 min"), "P10": (38, "2 min"),
    "P11": (15, "2 min"), "P12": (28, "10 min"), "P13": (5, "5 min"), "P14": (4, "2 min"), "P15": (42, "15 min"),
    "P16": (11, "10 min"), "P17": (3, "1 min"), "P18": (47, "15 min"), "P19": (15, "1 min"), "P20": (2, "10 s"),
    "P21": (2, "5 s"), "P22": (21, "10 min"), "P23": (4, "10 s"), "P24": (4, "1 min"), "P26": (111, "20 min"), "P27": (5, "2 min"),
}
