From 4c7bd7a35b8755282cc3cd24db01a80a541648f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 01/33] fix: write all parts of a symbol curve, not only its
 tail

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From 2f8eb7a5ac8a327762a7c5eb771c8be521b678c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:29 +0000
Subject: [PATCH 02/33] fix: remember the path a footprint was loaded from

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..0ded3b3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -932,7 +932,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From 427c18a542c7fa621dadd2cac73aee026c5ccd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 03/33] fix: let worksheets be saved with a chosen encoding
 like every other file

---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..07493f1 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From f637c716b290d0cfdad77e99fa0de28a1d961059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:27 +0000
Subject: [PATCH 04/33] fix: read render caches whose text is empty or whose id
 is a number

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f931a60 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -992,7 +992,7 @@ class RenderCache():
         object = cls()
         object.text = exp[1]
         object.id = exp[2]
-        for item in exp:
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 2ccd7c5a2400570acb56907d3594bd0fd68885c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 05/33] fix: recognise numbers that are followed by a line
 break or tab

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..134b983 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From c7b788f9a108f67facff484f16309f765c08aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:30 +0000
Subject: [PATCH 06/33] fix: read back numbers that were written in exponent
 notation

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 134b983..dc5c4cf 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
+        (?P<num>[+-]?\d+\.\d+(?:e[+-]\d+)?(?=[\s\)])|\-?\d+(?:e[+-]\d+)?(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From 0beb7ecdb4ae1bfc17fe88f6d3665d2c8e1d8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:32 +0000
Subject: [PATCH 07/33] fix: keep the caret in unquoted tokens

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index dc5c4cf..a320373 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?:e[+-]\d+)?(?=[\s\)])|\-?\d+(?:e[+-]\d+)?(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From 385197ce2548ff6329cfba7e4186f768f1a2e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:34 +0000
Subject: [PATCH 08/33] fix: keep all digits of large integers

---
 src/kiutils/utils/sexpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index a320373..ce7909b 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,11 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            try:
+                v = int(value)
+            except ValueError:
+                v = float(value)
+                if v.is_integer(): v = int(v)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From e58d67957d8dd2cfdd362502bd8c70a463bca7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 09/33] fix: read the text of locked board texts as it is
 written

---
 src/kiutils/items/gritems.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..b9dec66 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,15 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        # Extract "locked" token, if any is present
+        if exp[1] == 'locked' and len(exp) > 2 and not isinstance(exp[2], list):
+            object.locked = True
+            object.text = exp[2]
+            start_at = 3
+        else:
+            object.text = exp[1]
+            start_at = 2
+        for item in exp[start_at:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From e31808da3a8df074a8742234b1850206d9112575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 10/33] fix: read the angle of board lines and close its
 bracket when writing

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index b9dec66..dc08d79 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -335,6 +335,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -356,7 +357,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From 3368bf26c33de87c9fa1b9907615934f962c29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:52 +0000
Subject: [PATCH 11/33] fix: read the diameter of a junction into its diameter,
 not its color

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From bd055e59646f8ccc2211956e06ee5cb02e56bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:20 +0000
Subject: [PATCH 12/33] fix: write the locked flag of footprint lines

---
 src/kiutils/items/fpitems.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..a6f3ab6 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -155,8 +155,6 @@ class FpLine():
     stroke: Optional[Stroke] = None   # Used for KiCad >= 7
     """The ``stroke`` describes the line width and style of the line. (version 7)"""
 
-    # FIXME: This is not implemented in to_sexpr() because it does not seem to be used on lines
-    #        in footprints. Further testing required ..
     locked: bool = False
     """The optional ``locked`` token defines if the line cannot be edited"""
 
@@ -221,8 +219,9 @@ class FpLine():
             width = f' {self.stroke.to_sexpr(indent=0, newline=False)}'
         else:
             width = ''
+        locked = ' locked' if self.locked else ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{locked}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From 43a09fcf50e3ba90b31b5ce906849c9a25080a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 13/33] fix: write the auxiliary origin setting of the plot
 settings

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..5327d7b 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {str(self.useAuxOrigin).lower()})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From 003bea38c468b3276f6270f28e2f81124622737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:23 +0000
Subject: [PATCH 14/33] fix: omit the plot layer selection when none is set

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5327d7b..0da7878 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection:
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From c53bb8acb9c6aeb03d1d3b63bb394ac74e975a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:24 +0000
Subject: [PATCH 15/33] fix: write locked flag, quoted layer and missing tstamp
 of dimensions correctly

---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From 8957de806ec9ecb1f98c5193e3a029224e4b3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:26 +0000
Subject: [PATCH 16/33] fix: write targets without tstamp and with quotes in
 their layer correctly

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 0da7878..3f521a3 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1102,4 +1102,6 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From 0a2784b669adea0019b625656551d24cb7ec944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:27 +0000
Subject: [PATCH 17/33] fix: write segments without a tstamp so that they can
 be read again

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 3f521a3..59c2970 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -830,8 +830,9 @@ class Segment():
         indents = ' '*indent
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From e95145e60db3b894fbc9e8aec206a35d0957070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:28 +0000
Subject: [PATCH 18/33] fix: escape quotes in the type of stackup layers

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 59c2970..d213f46 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From 34863894eada51f93c3041dea7626a90c15879c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:30 +0000
Subject: [PATCH 19/33] fix: read groups named locked and write groups without
 an id correctly

---
 src/kiutils/items/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f931a60..b69f63c 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
@@ -624,7 +624,9 @@ class Group():
         endline = '\n' if newline else ''
         locked = f' locked' if self.locked else ''
 
-        expression =  f'{indents}(group "{dequote(self.name)}"{locked} (id {self.id})\n'
+        id = f' (id {self.id})' if self.id else ''
+
+        expression =  f'{indents}(group "{dequote(self.name)}"{locked}{id}\n'
         expression += f'{indents}  (members\n'
         for member in self.members:
             expression += f'{indents}    {member}\n'
-- 
2.43.0


From b50081ff7086ad28bb1bf04428efa89c09fea262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:32 +0000
Subject: [PATCH 20/33] fix: omit thermal settings of a zone fill when they are
 not set

---
 src/kiutils/items/zones.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..ca2a3e4 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -249,7 +249,10 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        gap = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        bridge = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
+
+        return f'{indents}(fill{yes}{mode}{gap}{bridge}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From c927db71638ba46cae134df9cc52c1478c8abab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 21/33] fix: create netclass flags with their own position and
 effects

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From b27cca69743596802df797c27545383350b14e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:52 +0000
Subject: [PATCH 22/33] fix: read drill definitions whose offset follows the
 diameter directly

---
 src/kiutils/footprint.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 0ded3b3..ee6fe45 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -259,14 +259,12 @@ class DrillDefinition():
 
         object = cls()
         # Depending on the ``oval`` token, the fields may be shifted ..
-        if exp[1] == 'oval':
+        values = [item for item in exp[1:] if not isinstance(item, list)]
+        if len(values) > 0 and values[0] == 'oval':
             object.oval = True
-            object.diameter = exp[2]
-            object.width = exp[3]
-        else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
-                object.width = exp[2]
+            values = values[1:]
+        if len(values) > 0: object.diameter = values[0]
+        if len(values) > 1: object.width = values[1]
 
         # The ``offset`` token may not be given
         for item in exp:
-- 
2.43.0


From cc4dae7794dbe8a938a71e6e19dbaa0b403053c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 23/33] fix: omit the generator of a symbol library when none
 is set

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..7cfbf50 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -585,7 +585,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 067c40fa0ec6e63ef9ae00e7bcae89496a2beb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:19 +0000
Subject: [PATCH 24/33] fix: give boards a default version and generator so
 that they can be read again

---
 src/kiutils/board.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..b70d882 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -37,10 +37,10 @@ class Board():
     Documentation:
         https://dev-docs.kicad.org/en/file-formats/sexpr-pcb/
     """
-    version: str = ""
+    version: str = KIUTILS_CREATE_NEW_VERSION_STR
     """The ``version`` token defines the board version using the YYYYMMDD date format"""
 
-    generator: str = ""
+    generator: str = KIUTILS_CREATE_NEW_GENERATOR_STR
     """The ``generator`` token defines the program used to write the file"""
 
     general: GeneralSettings = field(default_factory=lambda: GeneralSettings())
-- 
2.43.0


From 4d80d96c02027a4f84815a7d1ce02203509ff9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 25/33] fix: do not invent an edit time for footprints that
 have none

---
 src/kiutils/footprint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index ee6fe45..8f65611 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -724,7 +724,7 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
     """The ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
@@ -855,7 +855,7 @@ class Footprint():
         if exp[0] != 'module' and exp[0] != 'footprint':
             raise Exception("Expression does not have the correct type")
 
-        object = cls()
+        object = cls(tedit=None)
         object.libId = exp[1]
         for item in exp[2:]:
             if not isinstance(item, list):
@@ -1031,7 +1031,9 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        tedit = f' (tedit {self.tedit})' if self.tedit is not None else ''
+        if tedit or tstamp:
+            expression += f'{indents} {tedit}{tstamp}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From 2a1ca6522c2f1e62d2057996e2c6b7f89e065294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:22 +0000
Subject: [PATCH 26/33] fix: keep leading zeros in symbol names that end like
 unit ids

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 7cfbf50..3010f21 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From c636726d5207eec6804eb54b18b0097ad5e2fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:23 +0000
Subject: [PATCH 27/33] fix: read top-level symbols whose name ends like unit
 ids

---
 src/kiutils/symbol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 3010f21..aeb06d1 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -405,6 +405,13 @@ class Symbol():
             if item[0] == 'text': object.graphicItems.append(SyText().from_sexpr(item))
             if item[0] == 'text_box': object.graphicItems.append(SyTextBox().from_sexpr(item))
 
+        # Only top-level symbols can have properties or units, so what looked like unit and style
+        # IDs is a part of their name
+        if object.unitId is not None and (object.properties or object.units):
+            object.entryName = exp[1]
+            object.unitId = None
+            object.styleId = None
+
         return object
 
     @classmethod
-- 
2.43.0


From 5fe5d25bf2ed4742922a1714d9800153617bf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:25 +0000
Subject: [PATCH 28/33] fix: do not truncate an existing file when its new
 content cannot be generated

---
 src/kiutils/board.py     | 4 +++-
 src/kiutils/dru.py       | 4 +++-
 src/kiutils/footprint.py | 4 +++-
 src/kiutils/libraries.py | 4 +++-
 src/kiutils/schematic.py | 4 +++-
 src/kiutils/symbol.py    | 4 +++-
 src/kiutils/wks.py       | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index b70d882..5f6319c 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,10 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..94722f6 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,10 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 8f65611..187860b 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1003,8 +1003,10 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..7cf4b0f 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,10 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..d3e48ab 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,10 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index aeb06d1..563a951 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -576,8 +576,10 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index 07493f1..e36b097 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -939,8 +939,10 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Generate the data first to not destroy an existing file if this fails
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From 1dca5a5a919323b573aff03cec808ba556b3348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:23 +0000
Subject: [PATCH 29/33] fix: do not truncate an existing file when its new
 content cannot be encoded

---
 src/kiutils/board.py     | 4 +++-
 src/kiutils/dru.py       | 4 +++-
 src/kiutils/footprint.py | 4 +++-
 src/kiutils/libraries.py | 4 +++-
 src/kiutils/schematic.py | 4 +++-
 src/kiutils/symbol.py    | 4 +++-
 src/kiutils/wks.py       | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 5f6319c..f799247 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -15,6 +15,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
 from os import path
@@ -237,8 +238,9 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 94722f6..5c02dc6 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -15,6 +15,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
@@ -289,8 +290,9 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 187860b..77544fc 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 import calendar
 import datetime
+import io
 import re
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
@@ -1003,8 +1004,9 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 7cf4b0f..8786b55 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -12,6 +12,7 @@ Major changes:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
@@ -193,8 +194,9 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index d3e48ab..1889c49 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -15,6 +15,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List, Union
 from os import path
@@ -226,8 +227,9 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 563a951..4c9a9c9 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -14,6 +14,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
@@ -576,8 +577,9 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index e36b097..a22256f 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -15,6 +15,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import io
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
@@ -939,8 +940,9 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Generate the data first to not destroy an existing file if this fails
+        # Generate and encode the data first to not destroy an existing file if this fails
         data = self.to_sexpr()
+        io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(data)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
-- 
2.43.0


From 674e3e246f73e847d699b276ee28cede8ca7ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:00 +0000
Subject: [PATCH 30/33] fix: reject unbalanced brackets when Python runs with
 optimisation, too

The nesting of brackets was checked by assert statements only, which are
removed by python -O: '((kicad_pcb ...)' was accepted there.
---
 src/kiutils/utils/sexpr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index ce7909b..4ac433a 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -26,7 +26,7 @@ def parse_sexp(sexp):
             stack.append(out)
             out = []
         elif term == 'brackr':
-            assert stack, "Trouble with nesting of brackets"
+            if not stack: raise Exception("Trouble with nesting of brackets")
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
@@ -42,5 +42,5 @@ def parse_sexp(sexp):
             out.append(value)
         else:
             raise NotImplementedError("Error: %r" % (term, value))
-    assert not stack, "Trouble with nesting of brackets"
+    if stack: raise Exception("Trouble with nesting of brackets")
     return out[0]
\ No newline at end of file
-- 
2.43.0


From 7585274aa8c6cfcb327c31b20a11396753edc25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 31/33] fix: do not read words made of non-ASCII digits as
 numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 4ac433a..1f514f8 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?:e[+-]\d+)?(?=[\s\)])|\-?\d+(?:e[+-]\d+)?(?=[\s\)]))|
+        (?P<num>[+-]?[0-9]+\.[0-9]+(?:e[+-][0-9]+)?(?=[\s\)])|\-?[0-9]+(?:e[+-][0-9]+)?(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From bbdd11b1638803f300fb373ea0e0ddbbf43009ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:48 +0000
Subject: [PATCH 32/33] fix: quote pad layers with a wildcard or ampersand that
 are not a single word

---
 src/kiutils/footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 77544fc..c487f94 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -566,7 +566,7 @@ class Pad():
         for layer in self.layers:
             # For some reason KiCad does not escape a layer with double-quotes if it has a
             # wildcard (*) or an ampersant (&) in it
-            if "*." in layer or "&" in layer:
+            if ("*." in layer or "&" in layer) and not re.search(r'[\s()"]', layer):
                 layers += f' {layer}'
             else:
                 layers += f' "{dequote(layer)}"'
-- 
2.43.0


From 2d7f3df6377af101d8683fabb0b6d4dc2714f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:34 +0000
Subject: [PATCH 33/33] fix: refuse rule files whose brackets only balance with
 the added ones

---
 src/kiutils/dru.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 5c02dc6..091992f 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -257,9 +257,14 @@ class DesignRules():
             raise Exception("Given path is not a file!")
 
         with open(filepath, 'r', encoding=encoding) as infile:
+            rawData = infile.read()
+
+            # The brackets added below must not complete unbalanced ones of the file
+            sexpr.parse_sexp(rawData)
+
             # This dirty fix adds opening and closing brackets `(..)` to the read input to enable
             # the S-Expression parser to work for the DRU-format as well.
-            data = f'({infile.read()})'
+            data = f'({rawData})'
             item = cls.from_sexpr(sexpr.parse_sexp(data))
             item.filePath = filepath
             return item
-- 
2.43.0

