"""What the KML 2.2 schema (plus atom and gx) says about each class: element
name, fields, where each field lives in the XML, its default, and the order of
child elements.  Written against the OGC schema files; the code under check is
not consulted for it.

Field kinds
  A text attribute   IA integer attribute  FA float attribute  EA enum attribute
  N text of the element itself
  T text child   B boolean child   I integer child   F float child
  E enum child   D date/time child
  X one child object (one of the listed classes)   L list of child objects
  C coordinate text of the element itself
"""

KML = "{http://www.opengis.net/kml/2.2}"
ATOM = "{http://www.w3.org/2005/Atom}"
GX = "{http://www.google.com/kml/ext/2.2}"
NS = {"kml": KML, "atom": ATOM, "gx": GX}


class Fld:
    def __init__(self, attr, kind, node="", arg=None, default=None, ns=None):
        self.attr = attr
        self.kind = kind
        self.node = node
        self.arg = arg            # enum name, or names of the child classes
        self.default = default    # schema default (None: none)
        self.ns = ns              # namespace id of the child when not the parent's
        self.loose = False        # fastkml and the schema file disagree on the default: not judged

    def __repr__(self):
        return f"Fld({self.attr})"


class Cls:
    def __init__(self, key, module, name, tag, fields, req=(), ns="kml", ident=True, any_of=False):
        self.key = key
        self.module = module
        self.name = name
        self.tag = tag
        self.ns = ns
        base = [Fld("id", "A", "id"), Fld("target_id", "A", "targetId")] if ident else []
        self.fields = base + list(fields)
        self.req = tuple(req)     # fields that must be set for the element to be written inside a parent
        self.any_of = any_of      # one of req suffices

    def field(self, attr):
        for f in self.fields:
            if f.attr == attr:
                return f
        raise KeyError(attr)


def f(attr, kind, node="", arg=None, default=None, ns=None):
    return Fld(attr, kind, node, arg, default, ns)


ALT = f("altitude_mode", "E", "altitudeMode", "AltitudeMode", "clampToGround")
STYLES = ("IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle")
FEATURES = ("Document", "Folder", "Placemark", "GroundOverlay", "PhotoOverlay", "ScreenOverlay", "NetworkLink")
GEOMS = ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "MultiTrack", "Track")

FEATURE = [
    f("name", "T", "name"),
    f("visibility", "B", "visibility", default=True),
    f("isopen", "B", "open", default=False),
    f("atom_author", "X", "author", ("Author",), ns="atom"),
    f("atom_link", "X", "link", ("AtomLink",), ns="atom"),
    f("address", "T", "address"),
    f("phone_number", "T", "phoneNumber"),
    f("snippet", "X", "Snippet", ("Snippet",)),
    f("description", "T", "description"),
    f("view", "X", "", ("Camera", "LookAt")),
    f("times", "X", "", ("TimeSpan", "TimeStamp")),
    f("style_url", "X", "styleUrl", ("StyleUrl",)),
    f("styles", "L", "", ("Style", "StyleMap")),
    f("region", "X", "Region", ("Region",)),
    f("extended_data", "X", "ExtendedData", ("ExtendedData",)),
]
OVERLAY = [
    *FEATURE,
    f("color", "T", "color", default="ffffffff"),
    f("draw_order", "I", "drawOrder", default=0),
    f("icon", "X", "Icon", ("Icon",)),
]
LINK = [
    f("href", "T", "href"),
    f("refresh_mode", "E", "refreshMode", "RefreshMode", "onChange"),
    f("refresh_interval", "F", "refreshInterval", default=4.0),
    f("view_refresh_mode", "E", "viewRefreshMode", "ViewRefreshMode", "never"),
    f("view_refresh_time", "F", "viewRefreshTime", default=4.0),
    f("view_bound_scale", "F", "viewBoundScale", default=1.0),
    f("view_format", "T", "viewFormat", default="BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]"),
    f("http_query", "T", "httpQuery"),
]
COLOR = [f("color", "T", "color", default="ffffffff"), f("color_mode", "E", "colorMode", "ColorMode", "normal")]
VIEW = [f(a, "F", a, default=0.0) for a in ("longitude", "latitude", "altitude", "heading", "tilt")]
XY = [f("x", "FA", "x"), f("y", "FA", "y"),
      f("x_units", "EA", "xunits", "Units", "fraction"), f("y_units", "EA", "yunits", "Units", "fraction")]
PERSON = [f("name", "T", "name"), f("uri", "T", "uri"), f("email", "T", "email")]
BOX = [f(a, "F", a) for a in ("north", "south", "east", "west")]
LINE = [f("extrude", "B", "extrude", default=False), f("tessellate", "B", "tessellate", default=False), ALT,
        f("kml_coordinates", "X", "coordinates", ("Coordinates",))]

_ALL = [
    Cls("AtomLink", "atom", "Link", "link", [
        f("href", "A", "href"), f("rel", "A", "rel"), f("type", "A", "type"), f("hreflang", "A", "hreflang"),
        f("title", "A", "title"), f("length", "IA", "length")], ("href",), "atom", False),
    Cls("Author", "atom", "Author", "author", PERSON, ("name",), "atom", False),
    Cls("Contributor", "atom", "Contributor", "contributor", PERSON, ("name",), "atom", False),
    Cls("Data", "data", "Data", "Data", [
        f("name", "A", "name"), f("display_name", "T", "displayName"), f("value", "T", "value")], ("name", "value")),
    Cls("SimpleData", "data", "SimpleData", "SimpleData", [
        f("name", "A", "name"), f("value", "N")], ("name", "value"), ident=False),
    Cls("SchemaData", "data", "SchemaData", "SchemaData", [
        f("schema_url", "A", "schemaUrl"), f("data", "L", "", ("SimpleData",))], ("schema_url", "data")),
    Cls("ExtendedData", "data", "ExtendedData", "ExtendedData", [
        f("elements", "L", "", ("Data", "SchemaData"))], ("elements",), ident=False),
    Cls("SimpleField", "data", "SimpleField", "SimpleField", [
        f("name", "A", "name"), f("type_", "EA", "type", "DataType"), f("display_name", "T", "displayName")],
        ("name", "type_"), ident=False),
    Cls("Schema", "data", "Schema", "Schema", [
        f("id", "A", "id"), f("name", "A", "name"), f("fields", "L", "", ("SimpleField",))], ("id",), ident=False),
    Cls("Coordinates", "geometry", "Coordinates", "coordinates", [f("coords", "C")], ("coords",), ident=False),
    Cls("Point", "geometry", "Point", "Point", [
        f("extrude", "B", "extrude", default=False), ALT,
        f("kml_coordinates", "X", "coordinates", ("Coordinates1",))], ("kml_coordinates",)),
    Cls("LineString", "geometry", "LineString", "LineString", LINE, ("kml_coordinates",)),
    Cls("LinearRing", "geometry", "LinearRing", "LinearRing", LINE[:-1] + [
        f("kml_coordinates", "X", "coordinates", ("CoordinatesR",))], ("kml_coordinates",)),
    Cls("OuterBoundaryIs", "geometry", "OuterBoundaryIs", "outerBoundaryIs", [
        f("kml_geometry", "X", "LinearRing", ("LinearRing",))], ("kml_geometry",), ident=False),
    Cls("InnerBoundaryIs", "geometry", "InnerBoundaryIs", "innerBoundaryIs", [
        f("kml_geometry", "X", "LinearRing", ("LinearRing",))], ("kml_geometry",), ident=False),
    Cls("Polygon", "geometry", "Polygon", "Polygon", LINE[:3] + [
        f("outer_boundary", "X", "outerBoundaryIs", ("OuterBoundaryIs",)),
        f("inner_boundaries", "L", "", ("InnerBoundaryIs",))], ("outer_boundary",)),
    Cls("MultiGeometry", "geometry", "MultiGeometry", "MultiGeometry", [
        f("kml_geometries", "L", "", ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry"))],
        ("kml_geometries",)),
    Cls("Track", "gx", "Track", "Track", [
        ALT, f("track_items", "TR"), f("extended_data", "X", "ExtendedData", ("ExtendedData",), ns="kml")],
        ("track_items",), "gx"),
    Cls("MultiTrack", "gx", "MultiTrack", "MultiTrack", [
        ALT, f("interpolate", "B", "interpolate"), f("tracks", "L", "", ("Track",))], ("tracks",), "gx"),
    Cls("Link", "links", "Link", "Link", LINK, ("href",)),
    Cls("Icon", "links", "Icon", "Icon", LINK, ("href",)),
    Cls("Location", "model", "Location", "Location", [
        f("longitude", "F", "longitude"), f("latitude", "F", "latitude"), f("altitude", "F", "altitude", default=0.0)],
        ("longitude", "latitude"), ident=False),
    Cls("Orientation", "model", "Orientation", "Orientation", [
        f(a, "F", a, default=0.0) for a in ("heading", "tilt", "roll")], ("heading", "tilt", "roll"), ident=False,
        any_of=True),
    Cls("Scale", "model", "Scale", "Scale", [f(a, "F", a, default=1.0) for a in "xyz"], ("x", "y", "z"),
        ident=False, any_of=True),
    Cls("Alias", "model", "Alias", "Alias", [f("target_href", "T", "targetHref"), f("source_href", "T", "sourceHref")],
        ("target_href", "source_href"), ident=False, any_of=True),
    Cls("ResourceMap", "model", "ResourceMap", "ResourceMap", [f("aliases", "L", "", ("Alias",))], ("aliases",),
        ident=False),
    Cls("Model", "model", "Model", "Model", [
        ALT, f("location", "X", "Location", ("Location",)), f("orientation", "X", "Orientation", ("Orientation",)),
        f("scale", "X", "Scale", ("Scale",)), f("link", "X", "Link", ("Link",)),
        f("resource_map", "X", "ResourceMap", ("ResourceMap",))], ("location", "link")),
    Cls("NetworkLinkControl", "network_link_control", "NetworkLinkControl", "NetworkLinkControl", [
        f("min_refresh_period", "F", "minRefreshPeriod", default=0.0),
        f("max_session_length", "F", "maxSessionLength", default=-1.0),
        f("cookie", "T", "cookie"), f("message", "T", "message"), f("link_name", "T", "linkName"),
        f("link_description", "T", "linkDescription"), f("link_snippet", "T", "linkSnippet"),
        f("expires", "D", "expires"), f("view", "X", "", ("Camera", "LookAt"))], ident=False),
    Cls("ViewVolume", "overlays", "ViewVolume", "ViewVolume", [
        f("left_fov", "F", "leftFov", default=0.0), f("right_fov", "F", "rightFov", default=0.0),
        f("bottom_fov", "F", "bottomFov", default=0.0), f("top_fov", "F", "topFov", default=0.0),
        f("near", "F", "near", default=0.0)], ("left_fov", "right_fov", "bottom_fov", "top_fov", "near"), ident=False),
    Cls("ImagePyramid", "overlays", "ImagePyramid", "ImagePyramid", [
        f("tile_size", "I", "tileSize", default=256), f("max_width", "I", "maxWidth"), f("max_height", "I", "maxHeight"),
        f("grid_origin", "E", "gridOrigin", "GridOrigin", "lowerLeft")], ("max_width", "max_height"), ident=False),
    Cls("PhotoOverlay", "overlays", "PhotoOverlay", "PhotoOverlay", [
        *OVERLAY, f("rotation", "F", "rotation", default=0.0), f("view_volume", "X", "ViewVolume", ("ViewVolume",)),
        f("image_pyramid", "X", "ImagePyramid", ("ImagePyramid",)), f("point", "X", "Point", ("Point",)),
        f("shape", "E", "shape", "Shape", "rectangle")]),
    Cls("LatLonBox", "overlays", "LatLonBox", "LatLonBox", [*BOX, f("rotation", "F", "rotation", default=0.0)],
        ("north", "south", "east", "west"), ident=False),
    Cls("GroundOverlay", "overlays", "GroundOverlay", "GroundOverlay", [
        *OVERLAY, f("altitude", "F", "altitude", default=0.0), ALT,
        f("lat_lon_box", "X", "LatLonBox", ("LatLonBox",))]),
    Cls("OverlayXY", "overlays", "OverlayXY", "overlayXY", XY, ("x", "y"), ident=False),
    Cls("ScreenXY", "overlays", "ScreenXY", "screenXY", XY, ("x", "y"), ident=False),
    Cls("RotationXY", "overlays", "RotationXY", "rotationXY", XY, ("x", "y"), ident=False),
    Cls("Size", "overlays", "Size", "size", XY, ("x", "y"), ident=False),
    Cls("ScreenOverlay", "overlays", "ScreenOverlay", "ScreenOverlay", [
        *OVERLAY, f("overlay_xy", "X", "overlayXY", ("OverlayXY",)), f("screen_xy", "X", "screenXY", ("ScreenXY",)),
        f("rotation_xy", "X", "rotationXY", ("RotationXY",)), f("size", "X", "size", ("Size",)),
        f("rotation", "F", "rotation", default=0.0)]),
    Cls("StyleUrl", "styles", "StyleUrl", "styleUrl", [f("url", "N")], ("url",), ident=False),
    Cls("HotSpot", "styles", "HotSpot", "hotSpot", [
        f("x", "FA", "x"), f("y", "FA", "y"), f("xunits", "EA", "xunits", "Units", "fraction"),
        f("yunits", "EA", "yunits", "Units", "fraction")], ident=False),
    Cls("IconStyle", "styles", "IconStyle", "IconStyle", [
        *COLOR, f("scale", "F", "scale", default=1.0), f("heading", "F", "heading", default=0.0),
        f("icon", "X", "Icon", ("Icon",)), f("hot_spot", "X", "hotSpot", ("HotSpot",))],
        ("color", "color_mode", "scale", "heading", "icon", "hot_spot"), any_of=True),
    Cls("LineStyle", "styles", "LineStyle", "LineStyle", [*COLOR, f("width", "F", "width", default=1.0)],
        ("color", "color_mode", "width"), any_of=True),
    Cls("PolyStyle", "styles", "PolyStyle", "PolyStyle", [
        *COLOR, f("fill", "B", "fill", default=True), f("outline", "B", "outline", default=True)],
        ("color", "color_mode", "fill", "outline"), any_of=True),
    Cls("LabelStyle", "styles", "LabelStyle", "LabelStyle", [*COLOR, f("scale", "F", "scale", default=1.0)],
        ("color", "color_mode", "scale"), any_of=True),
    Cls("BalloonStyle", "styles", "BalloonStyle", "BalloonStyle", [
        f("bg_color", "T", "bgColor", default="ffffffff"), f("text_color", "T", "textColor", default="ff000000"),
        f("text", "T", "text"), f("display_mode", "E", "displayMode", "DisplayMode", "default")],
        ("bg_color", "text_color", "text", "display_mode"), any_of=True),
    Cls("Style", "styles", "Style", "Style", [f("styles", "L", "", STYLES)], ("styles",)),
    Cls("Pair", "styles", "Pair", "Pair", [
        f("key", "E", "key", "PairKey"), f("style", "X", "", ("StyleUrl", "Style"))], ("key", "style")),
    Cls("StyleMap", "styles", "StyleMap", "StyleMap", [f("pairs", "L", "", ("Pair",))], ("pairs",)),
    Cls("Camera", "views", "Camera", "Camera", [*VIEW, f("roll", "F", "roll", default=0.0), ALT]),
    Cls("LookAt", "views", "LookAt", "LookAt", [*VIEW, f("range", "F", "range"), ALT]),
    Cls("LatLonAltBox", "views", "LatLonAltBox", "LatLonAltBox", [
        *BOX, f("min_altitude", "F", "minAltitude", default=0.0), f("max_altitude", "F", "maxAltitude", default=0.0), ALT],
        ("north", "south", "east", "west"), ident=False),
    Cls("Lod", "views", "Lod", "Lod", [
        f("min_lod_pixels", "I", "minLodPixels"), f("max_lod_pixels", "I", "maxLodPixels", default=-1),
        f("min_fade_extent", "I", "minFadeExtent", default=0), f("max_fade_extent", "I", "maxFadeExtent", default=0)],
        ("min_lod_pixels",), ident=False),
    Cls("Region", "views", "Region", "Region", [
        f("lat_lon_alt_box", "X", "LatLonAltBox", ("LatLonAltBox",)), f("lod", "X", "Lod", ("Lod",))],
        ("lat_lon_alt_box",)),
    Cls("TimeStamp", "times", "TimeStamp", "TimeStamp", [f("timestamp", "D", "when")], ("timestamp",)),
    Cls("TimeSpan", "times", "TimeSpan", "TimeSpan", [f("begin", "D", "begin"), f("end", "D", "end")],
        ("begin", "end"), any_of=True),
    Cls("Snippet", "features", "Snippet", "Snippet", [
        f("text", "N"), f("max_lines", "IA", "maxLines", default=2)], ("text",), ident=False),
    Cls("Placemark", "features", "Placemark", "Placemark", [*FEATURE, f("kml_geometry", "X", "", GEOMS)]),
    Cls("NetworkLink", "features", "NetworkLink", "NetworkLink", [
        *FEATURE, f("refresh_visibility", "B", "refreshVisibility", default=False),
        f("fly_to_view", "B", "flyToView", default=False), f("link", "X", "Link", ("Link",))], ("link",)),
    Cls("Folder", "containers", "Folder", "Folder", [*FEATURE, f("features", "L", "", FEATURES)]),
    Cls("Document", "containers", "Document", "Document", [
        *FEATURE, f("schemata", "L", "", ("Schema",)), f("features", "L", "", FEATURES)]),
    Cls("KML", "kml", "KML", "kml", [f("features", "L", "", (*FEATURES, "NetworkLinkControl"))], ident=False),
]
SPEC = {c.key: c for c in _ALL}
for _c, _f in (("HotSpot", "x"), ("HotSpot", "y"), ("Lod", "min_lod_pixels")):
    SPEC[_c].field(_f).loose = True
# coordinate lists of other shapes
for _k in ("Coordinates1", "CoordinatesR"):
    SPEC[_k] = Cls(_k, "geometry", "Coordinates", "coordinates", [f("coords", "C")], ("coords",), ident=False)

ENUMS = {
    "AltitudeMode": ("clampToGround", "relativeToGround", "absolute", "clampToSeaFloor", "relativeToSeaFloor"),
    "DataType": ("string", "int", "uint", "short", "ushort", "float", "double", "bool"),
    "RefreshMode": ("onChange", "onInterval", "onExpire"),
    "ViewRefreshMode": ("never", "onStop", "onRequest", "onRegion"),
    "ColorMode": ("normal", "random"),
    "DisplayMode": ("default", "hide"),
    "Shape": ("rectangle", "cylinder", "sphere"),
    "GridOrigin": ("lowerLeft", "upperLeft"),
    "Units": ("fraction", "pixels", "insetPixels"),
    "PairKey": ("normal", "highlight"),
}
SEA_FLOOR = ("clampToSeaFloor", "relativeToSeaFloor")


def names():
    return [c.key for c in _ALL]
