From 806a4cd74487c933682dae096d3c8734506bdea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 01/24] fix: report malformed integer attributes as parse
 errors

attribute_int_kwarg let the ValueError of int() escape in strict and in
lenient mode.
---
 fastkml/helpers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..1049851 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -884,7 +884,18 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    if attr:
+        try:
+            return {kwarg: int(attr)}
+        except ValueError as exc:
+            handle_error(
+                error=exc,
+                strict=strict,
+                element=element,
+                node=element,
+                expected="Integer",
+            )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 49005b79b6fe3f4ae25761fbec910d8a37b9c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 02/24] fix: accept padded and report empty elements in date
 lists

<when> elements of a track raised TypeError when empty and were rejected
when surrounded by whitespace, unlike single date elements.
---
 fastkml/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 1049851..df6ec32 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1156,7 +1156,9 @@ def datetime_subelement_list_kwarg(
         for subelement in subelements:
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(  # type: ignore[attr-defined]
+                        (subelement.text or "").strip(),
+                    ),
                 )
             except ValueError as exc:  # noqa: PERF203
                 handle_error(
-- 
2.43.0


From a35c85307f293baf69f84d289dc0dd8122f8b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 03/24] fix: lines with coordinates of a wrong dimension have
 no geometry

LineString.geometry and LinearRing.geometry raised TypeError for tuples of
one or four numbers; Point.geometry already returned None.
---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..be369cf 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -661,7 +661,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -801,7 +801,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From 176e988193ff69103639352624ae10b225e05fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 04/24] fix: pad years to four digits

strftime("%Y") does not pad, so a year before 1000 was written as text that
is not a KML date and could not be read back.
---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 712cd0c87c8618887550fbdc6a0b41e51d26b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 05/24] fix: compare the altitude mode of lines and polygons

LineString, LinearRing and Polygon objects that differ in altitude_mode
compared equal.
---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index be369cf..eede19a 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From 98a2e69a22820d9f425b28f717b4b0466ab60864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 06/24] fix: KML.parse leaves the caller's name_spaces alone

---
 fastkml/kml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..d59cfc4 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,10 +237,9 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = {**config.NAME_SPACES, **(name_spaces or {})}
         if ns:
             name_spaces["kml"] = ns
-        name_spaces = {**config.NAME_SPACES, **name_spaces}
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
-- 
2.43.0


From b91d67b9cd7b52a21a00c321ec691e8901994e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 07/24] fix: write an IconStyle that has no icon

An IconStyle with only a color, scale, heading or hot spot was silently
dropped from its Style on serialisation.
---
 fastkml/styles.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index b5b9292..e8879b6 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -507,15 +507,22 @@ class IconStyle(_ColorStyle):
 
     def __bool__(self) -> bool:
         """
-        Check if the Style has an icon.
+        Check if the Style has anything to write.
 
         Returns
         -------
         bool
-            True if the Style has an icon, False otherwise.
+            True if any part of the Style is set, False otherwise.
 
         """
-        return bool(self.icon)
+        return (
+            bool(self.icon)
+            or self.scale is not None
+            or self.heading is not None
+            or self.hot_spot is not None
+            or self.color is not None
+            or self.color_mode is not None
+        )
 
     @property
     def icon_href(self) -> Optional[str]:
-- 
2.43.0


From 4c21ebf20fab0bf3eebbb12f3d2f4cef21abded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 08/24] fix: look for lists of elements in every registered
 namespace

An empty list counted as found, so the later namespaces were never tried.
---
 fastkml/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index df6ec32..81ec6bc 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1303,4 +1303,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From 75c9221895c88e2b64ff1b1b3d787b5a53e85aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 09/24] fix: read a ScreenOverlay at the top level of a KML
 file

It was written but silently ignored when read.
---
 fastkml/kml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index d59cfc4..ec6696b 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -299,12 +300,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 922f806ed93a247cbce206e8d178c566dfc265b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:46 +0000
Subject: [PATCH 10/24] fix: write the Schema elements of a Document before its
 features

The KML schema requires that order; the written document did not validate.
---
 fastkml/containers.py | 45 ++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..e812bb0 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -326,28 +326,6 @@ class Document(_Container):
         )
 
 
-registry.register(
-    _Container,
-    RegistryItem(
-        ns_ids=("kml", ""),
-        attr_name="features",
-        node_name=(
-            "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
-            "NetworkLink"
-        ),
-        classes=(
-            Document,
-            Folder,
-            Placemark,
-            GroundOverlay,
-            PhotoOverlay,
-            ScreenOverlay,
-            NetworkLink,
-        ),
-        get_kwarg=xml_subelement_list_kwarg,
-        set_element=xml_subelement_list,
-    ),
-)
 registry.register(
     Document,
     RegistryItem(
@@ -359,3 +337,26 @@ registry.register(
         set_element=xml_subelement_list,
     ),
 )
+for _container in (Folder, Document):
+    registry.register(
+        _container,
+        RegistryItem(
+            ns_ids=("kml", ""),
+            attr_name="features",
+            node_name=(
+                "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+                "NetworkLink"
+            ),
+            classes=(
+                Document,
+                Folder,
+                Placemark,
+                GroundOverlay,
+                PhotoOverlay,
+                ScreenOverlay,
+                NetworkLink,
+            ),
+            get_kwarg=xml_subelement_list_kwarg,
+            set_element=xml_subelement_list,
+        ),
+    )
-- 
2.43.0


From 6d9e17c260abca50d67d5d6ea99955962a247025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:12 +0000
Subject: [PATCH 11/24] fix: read NetworkLinkControl children without a
 namespace, as for every other element

---
 fastkml/network_link_control.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastkml/network_link_control.py b/fastkml/network_link_control.py
index 01d2d06..6285540 100644
--- a/fastkml/network_link_control.py
+++ b/fastkml/network_link_control.py
@@ -158,7 +158,7 @@ class NetworkLinkControl(_XMLObject):
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="min_refresh_period",
         node_name="minRefreshPeriod",
         classes=(float,),
@@ -170,7 +170,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="max_session_length",
         node_name="maxSessionLength",
         classes=(float,),
@@ -182,7 +182,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="cookie",
         node_name="cookie",
         classes=(str,),
@@ -193,7 +193,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="message",
         node_name="message",
         classes=(str,),
@@ -204,7 +204,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_name",
         node_name="linkName",
         classes=(str,),
@@ -215,7 +215,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_description",
         node_name="linkDescription",
         classes=(str,),
@@ -226,7 +226,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_snippet",
         node_name="linkSnippet",
         classes=(str,),
@@ -237,7 +237,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     item=RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         classes=(KmlDateTime,),
         attr_name="expires",
         node_name="expires",
@@ -248,7 +248,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="view",
         node_name="Camera,LookAt",
         classes=(
-- 
2.43.0


From 0dc5d3b75aefa374221e8b9fad699b0dc2ce90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:12 +0000
Subject: [PATCH 12/24] fix: read MultiTrack children without a namespace, as
 Track does

---
 fastkml/gx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..8d6946e 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -558,7 +558,7 @@ class MultiTrack(_Geometry):
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx", "kml"),
+        ns_ids=("gx", "kml", ""),
         classes=(AltitudeMode,),
         attr_name="altitude_mode",
         node_name="altitudeMode",
@@ -570,7 +570,7 @@ registry.register(
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx",),
+        ns_ids=("gx", ""),
         classes=(bool,),
         attr_name="interpolate",
         node_name="interpolate",
@@ -581,7 +581,7 @@ registry.register(
 registry.register(
     MultiTrack,
     item=RegistryItem(
-        ns_ids=("gx",),
+        ns_ids=("gx", ""),
         classes=(Track,),
         attr_name="tracks",
         node_name="gx:Track",
-- 
2.43.0


From 7fa6db5c5da5e9e55ac67a4ffe2d526e1f58b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:18 +0000
Subject: [PATCH 13/24] fix: geometries of different classes or with different
 extra attributes are not equal

---
 fastkml/geometry.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index eede19a..fc230ac 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -466,15 +466,14 @@ class Point(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
-        if isinstance(other, Point):
-            return all(
+        if isinstance(other, Point) and type(self) is type(other):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -633,8 +632,8 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
-            return all(
+        if isinstance(other, LineString) and type(self) is type(other):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -642,7 +641,6 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1118,8 +1116,8 @@ class Polygon(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
-        if isinstance(other, Polygon):
-            return all(
+        if isinstance(other, Polygon) and type(self) is type(other):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -1127,7 +1125,6 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From 9332bc4da2845a38c0e708947a16a2797752d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:07 +0000
Subject: [PATCH 14/24] fix: validation is unavailable without an XML schema
 processor, whatever was used before

---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From 766d9c1a9520b80d90deabe5037bdb7981d586d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:59 +0000
Subject: [PATCH 15/24] fix: overlays take registered custom fields, as every
 other feature does

---
 fastkml/overlays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..c8b8fd8 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -194,6 +195,8 @@ class _Overlay(_Feature):
             The draw order of the overlay.
         icon : Optional[Icon]
             The icon associated with the overlay.
+        **kwargs : Any
+            Additional keyword arguments.
 
         Returns
         -------
@@ -220,6 +223,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From 0a76c4bf625673ab42600295821d1e5137835f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:08 +0000
Subject: [PATCH 16/24] fix: the repr of lines and polygons keeps their parts
 as they are

---
 fastkml/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index fc230ac..f12c658 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -614,7 +614,7 @@ class LineString(_Geometry):
             f"extrude={self.extrude!r}, "
             f"tessellate={self.tessellate!r}, "
             f"altitude_mode={self.altitude_mode}, "
-            f"geometry={self.geometry!r}, "
+            f"kml_coordinates={self.kml_coordinates!r}, "
             f"**{self._get_splat()!r},"
             ")"
         )
@@ -1109,7 +1109,8 @@ class Polygon(_Geometry):
             f"extrude={self.extrude!r}, "
             f"tessellate={self.tessellate!r}, "
             f"altitude_mode={self.altitude_mode}, "
-            f"geometry={self.geometry!r}, "
+            f"outer_boundary={self.outer_boundary!r}, "
+            f"inner_boundaries={self.inner_boundaries!r}, "
             f"**{self._get_splat()!r},"
             ")"
         )
-- 
2.43.0


From 7474be2094932784f316cc9bb9acd03a8aba24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:53 +0000
Subject: [PATCH 17/24] fix: orientations of a track stay with their items when
 some items have none

---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 8d6946e..003e148 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -356,7 +356,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 54e78c5bf151b98cbd4ca8a712f1061b045745a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:35 +0000
Subject: [PATCH 18/24] fix: refuse coordinate tuples of a wrong dimension
 anywhere in the list

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index f12c658..5b6c468 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -164,7 +164,7 @@ def coordinates_subelement(
     """
     if getattr(obj, attr_name, None):
         coords = getattr(obj, attr_name)
-        if not coords or len(coords[0]) not in (2, 3):
+        if any(len(coord) not in (2, 3) for coord in coords):
             msg = f"Invalid dimensions in coordinates '{coords}'"
             raise KMLWriteError(msg)
         if precision is None:
-- 
2.43.0


From f8a643765940ff34eac34a12b0bfe77cd7b15bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:31 +0000
Subject: [PATCH 19/24] fix: report tracks whose times, positions and
 orientations do not fit together

---
 fastkml/gx.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 003e148..48a8842 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -102,6 +102,7 @@ from fastkml.helpers import coords_subelement_list_kwarg
 from fastkml.helpers import datetime_subelement_list
 from fastkml.helpers import datetime_subelement_list_kwarg
 from fastkml.helpers import enum_subelement
+from fastkml.helpers import handle_error
 from fastkml.helpers import subelement_bool_kwarg
 from fastkml.helpers import subelement_enum_kwarg
 from fastkml.helpers import xml_subelement
@@ -111,6 +112,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.times import KmlDateTime
+from fastkml.types import Element
 
 __all__ = [
     "Angle",
@@ -360,6 +362,47 @@ class Track(_Geometry):
             return ()
         return tuple((item.angle or Angle()).coords for item in self.track_items)
 
+    @classmethod
+    def _get_kwargs(
+        cls,
+        *,
+        ns: str,
+        name_spaces: Optional[Dict[str, str]] = None,
+        element: Element,
+        strict: bool,
+    ) -> Dict[str, Any]:
+        """
+        Get the keyword arguments for the construction of the track.
+
+        Times, positions and orientations that do not fit together are an error,
+        in lenient mode the track has no items then.
+        """
+        kwargs = super()._get_kwargs(
+            ns=ns,
+            name_spaces=name_spaces,
+            element=element,
+            strict=strict,
+        )
+        whens = kwargs.get("whens", ())
+        coords = kwargs.get("coords", ())
+        angles = kwargs.get("angles", ())
+        if (
+            len(whens) != len(coords)
+            or len(angles) > len(coords)
+            or any(len(coord) not in {2, 3} for coord in coords)
+            or any(len(angle) > 3 for angle in angles)  # noqa: PLR2004
+        ):
+            handle_error(
+                error=ValueError("Times, positions and orientations do not match"),
+                strict=strict,
+                element=element,
+                node=element,
+                expected="Track",
+            )
+            for key in ("whens", "coords", "angles"):
+                kwargs.pop(key, None)
+        return kwargs
+
     def __bool__(self) -> bool:
         """
         Check if the track has any track items.
-- 
2.43.0


From ad77b423bf475f8fd89ed9d4fb5be50afcf5f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:18 +0000
Subject: [PATCH 20/24] fix: polygons whose boundaries differ in other than
 their geometry are not equal

---
 fastkml/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 5b6c468..149d13d 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1124,7 +1124,8 @@ class Polygon(_Geometry):
                     "extrude",
                     "tessellate",
                     "altitude_mode",
-                    "geometry",
+                    "outer_boundary",
+                    "inner_boundaries",
                     *xml_attrs,
                 )
             )
-- 
2.43.0


From cc0ec331fc3e4742c80d5b64d97bce6288800ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:26 +0000
Subject: [PATCH 21/24] fix: read values in full that have a comment or
 processing instruction inside

---
 fastkml/base.py | 7 ++++++-
 fastkml/kml.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..072186d 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -441,12 +441,17 @@ class _XMLObject:
         name_spaces = name_spaces or {}
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
+        try:
+            parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+        except TypeError:
+            # the standard library never keeps comments
+            parser = None
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
             element=cast(
                 Element,
-                config.etree.fromstring(string),
+                config.etree.fromstring(string, parser=parser),
             ),
         )
diff --git a/fastkml/kml.py b/fastkml/kml.py
index ec6696b..be6c56e 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -102,6 +102,8 @@ def lxml_parse_and_validate(
         parser=config.etree.XMLParser(
             huge_tree=True,
             recover=True,
+            remove_comments=True,
+            remove_pis=True,
         ),
     )
     if validate:
-- 
2.43.0


From 18dbb029f23f8a91dcdf4200bc2db3436b0d6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:51 +0000
Subject: [PATCH 22/24] fix: verbose output of an IconStyle's icon keeps to the
 elements the schema allows

---
 fastkml/styles.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index e8879b6..33a0de3 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -36,6 +36,7 @@ from fastkml.enums import ColorMode
 from fastkml.enums import DisplayMode
 from fastkml.enums import PairKey
 from fastkml.enums import Units
+from fastkml.enums import Verbosity
 from fastkml.helpers import attribute_enum_kwarg
 from fastkml.helpers import attribute_float_kwarg
 from fastkml.helpers import bool_subelement
@@ -59,6 +60,7 @@ from fastkml.kml_base import _BaseObject
 from fastkml.links import Icon
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
+from fastkml.types import Element
 
 logger = logging.getLogger(__name__)
 
@@ -530,6 +532,35 @@ class IconStyle(_ColorStyle):
         return self.icon.href if self.icon else None
 
 
+def icon_subelement(
+    obj: _XMLObject,
+    *,
+    element: Element,
+    attr_name: str,
+    node_name: str,
+    precision: Optional[int],
+    verbosity: Verbosity,
+    default: Optional[_XMLObject],
+) -> None:
+    """
+    Add the icon of an IconStyle.
+
+    The schema allows an address only in this icon, the defaults of the refresh
+    elements of an overlay's icon must not be spelled out.
+    """
+    if verbosity == Verbosity.verbose:
+        verbosity = Verbosity.normal
+    xml_subelement(
+        obj,
+        element=element,
+        attr_name=attr_name,
+        node_name=node_name,
+        precision=precision,
+        verbosity=verbosity,
+        default=default,
+    )
+
+
 registry.register(
     IconStyle,
     RegistryItem(
@@ -562,7 +593,7 @@ registry.register(
         node_name="Icon",
         classes=(Icon,),
         get_kwarg=xml_subelement_kwarg,
-        set_element=xml_subelement,
+        set_element=icon_subelement,
     ),
 )
 registry.register(
-- 
2.43.0


From a46d74ae6f1bb82c90ac1d08963b8b32aea33cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:07 +0000
Subject: [PATCH 23/24] fix: the kml root element writes the fields registered
 for it

---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index be6c56e..0f7e6eb 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -188,15 +188,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From 9c0657599f77f6f771c1aa27e1cedb796bfbb21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:52 +0000
Subject: [PATCH 24/24] fix: coordinates keep a list of their own

Coordinates kept the sequence they were given: objects made from one list
shared it and followed its changes, and coordinates made from a tuple (as
from every geometry) did not equal what was read back for them.
---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 149d13d..e03fb66 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -266,7 +266,7 @@ class Coordinates(_XMLObject):
 
         """
         super().__init__(ns=ns, name_spaces=name_spaces, **kwargs)
-        self.coords = coords or []
+        self.coords = list(coords) if coords else []
 
     def __repr__(self) -> str:
         """Create a string (c)representation for Coordinates."""
-- 
2.43.0

