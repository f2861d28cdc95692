From c0627159b557d0b3ff1f62a360056bafaa656968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 01/48] fix: publish the gcode lookup maps only once they're
 complete

Concurrent first use of the parser could see a partially built map (valid
codes not recognised), or raise 'Multiple GCode classes map to ...'.
---
 src/pygcode/gcodes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..631b76e 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1407,23 +1407,26 @@ _gcode_function_list = [] # of the form: [(lambda w: w.letter == 'F', GCodeFeedR
 
 def build_maps():
     """Populate _gcode_word_map and _gcode_function_list"""
-    # Ensure Word maps / lists are clear
-    global _gcode_word_map
-    global _gcode_function_list
-    _gcode_word_map = {}
-    _gcode_function_list = []
+    # Maps are completed before being published: until then, concurrent callers
+    # must neither see a partial map, nor have their own map disturbed.
+    word_map = {}
+    function_list = []
 
     for cls in _subclasses(GCode):
         if cls.word_key is not None:
             # Map Word instance to g-code class
-            if cls.word_key in _gcode_word_map:
+            if cls.word_key in word_map:
                 raise RuntimeError("Multiple GCode classes map to '%s'" % str(cls.word_key))
-            _gcode_word_map[cls.word_key] = cls
+            word_map[cls.word_key] = cls
         elif cls.word_matches is not None:
             # Add to list of functions
-            _gcode_function_list.append((cls.word_matches, cls))
+            function_list.append((cls.word_matches, cls))
 
+    global _gcode_word_map
+    global _gcode_function_list
     global _gcode_maps_created
+    _gcode_word_map = word_map
+    _gcode_function_list = function_list
     _gcode_maps_created = True
 
 
-- 
2.43.0


From b1fe32d7c30fb6601fc13300a9b587c4d10c0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 02/48] fix: copying a machine's state keeps its coordinate
 systems

The copy held a list of dict keys instead of the coordinate systems, and
always selected the first one.
---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..7e34fe4 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -242,7 +242,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((i, copy(cs)) for (i, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From 7cb89986b1ee130c20cb465f95751aff568d30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 03/48] fix: invalid arc parameters raise GCodeParameterError,
 not NameError

---
 src/pygcode/gcodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 631b76e..0153ee7 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
-- 
2.43.0


From 799d1fe56096d41b0a73f79e7b4cc3092df4f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 04/48] fix: linearize_arc's default method_class raised
 NameError

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..c47cf93 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -231,7 +231,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From bf07aef4902e827456b5eadbdfbeff2967d41c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 05/48] fix: linearize arcs in the ZX and YZ planes

plane.quat rotates from the XY plane to the selected plane, so its conjugate
is what rotates back; angles were taken from the wrong projection, and arcs
were linearized to unrelated paths (or divided by zero).
---
 src/pygcode/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c47cf93..63a805f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -324,8 +324,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    plane2xy = plane.quat.conjugated()  # plane.quat rotates from xy, to plane
+    xy_c2start = plane2xy * (arc_p_start - arc_p_center)
+    xy_c2end = plane2xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From 3507785c92f57a8811ed46fbc02d586691f0694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 06/48] fix: semicircles are not rejected for a rounding error
 of their radius

The radius calculated (or given) for a semicircle may be less than half its
span because of rounding, in which case a valid arc raised 'circle cannot
reach endpoint'; accept a shortfall within max_error.
---
 src/pygcode/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 63a805f..9f5b05d 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -301,7 +301,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
     if arc_radius < abs(arc_span_mid):
-        raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
+        if abs(arc_span_mid) - arc_radius > max_error:
+            raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
+        arc_radius = abs(arc_span_mid)  # semicircle, short by a rounding error
     # vector from arc_span midpoint -> circle's centre
     radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
 
-- 
2.43.0


From 146146c604731257d5394d1fc19c8cff01222edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 07/48] fix: linearize full circles

An arc ending where it started (IJK format) is a full circle, but its center
was moved to its start point, and the whole circle was omitted.
---
 src/pygcode/transform.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 9f5b05d..dc139cc 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -300,6 +300,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
+    full_circle = abs(arc_span) < 1e-6  # start & end are the same (projected) point
     if arc_radius < abs(arc_span_mid):
         if abs(arc_span_mid) - arc_radius > max_error:
             raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
@@ -320,7 +321,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_start + arc_span_mid - radius_mid_vect,
             arc_p_start + arc_span_mid + radius_mid_vect
         ]
-        if abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
+        if full_circle:
+            pass  # nothing to adjust: start & end don't limit where the center is
+        elif abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
             arc_p_center = arc_p_center_options[0]
         else:
             arc_p_center = arc_p_center_options[1]
@@ -334,6 +337,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
+    if full_circle:
+        arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From 23a4967e8771ff48db34d5564d202df07061fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 08/48] fix: canned cycles with no plane selected, or without
 R, don't crash a machine

Processing a canned cycle raised AttributeError when no plane is selected
(eg: pygcode-crop's machine, until G17), and TypeError in G99 mode without R.
---
 src/pygcode/gcodes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 0153ee7..a068e27 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,16 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
+        plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default to XY plane
+        # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
+        moveto_coords.pop(plane.normal_axis, None)
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
-            moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
-            })
-        else:  # default: GCodeCannedCycleReturnPrevLevel
-            # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            if (plane.normal_axis in machine.axes) and (self.R is not None):
+                moveto_coords.update({
+                    plane.normal_axis: self.R,
+                })
+        # else: GCodeCannedCycleReturnPrevLevel
 
         # Process action 'L' times
         loop_count = self.L
-- 
2.43.0


From e7c035522d59c4326f703a78bad4f290de8b0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 09/48] fix: repeated incremental canned cycles in G99 mode all
 return to the same R

The machine rose by R for each of the L repeats, unlike the expansion of the
same cycle by simplify_canned_cycle.
---
 src/pygcode/gcodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a068e27..74b8a96 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -561,6 +561,10 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            if isinstance(machine.mode.distance, GCodeIncrementalDistanceMode):
+                # R is relative to where the tool was before the 1st cycle;
+                # all further cycles start at, and return to the same level.
+                moveto_coords.pop(plane.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From 55fa2793411725a52386f899ac40ef9d305a1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 10/48] fix: simplify canned cycles which omit X or Y

An omitted axis does not move, as when a machine processes the same cycle;
simplify_canned_cycle raised TypeError.
---
 src/pygcode/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index dc139cc..9a9f21a 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -431,11 +431,14 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis = Vector3(
+                    x=start_pos.X if canned_gcode.X is None else canned_gcode.X,
+                    y=start_pos.Y if canned_gcode.Y is None else canned_gcode.Y,
+                )
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(x=canned_gcode.X or 0, y=canned_gcode.Y or 0)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From ae17f649885ade13377c72cbcbdb8d4bcf30260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 11/48] fix: pygcode-norm expands canned cycles in the active
 return mode

G99 was ignored: expanded cycles always returned to the previous level.
---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..755afc1 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -344,6 +344,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From 9d761419fd1522e1ff49ce2373a7536f0d9eea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 12/48] fix: numbers are written in full

Values were written with 6 significant digits, so X12345.678 became X12345.7,
N1234567 became N1.23457e+06 (no longer a number when read back).
---
 src/pygcode/dialects/linuxcnc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..861bf91 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -30,9 +30,9 @@ def _clean_codestr(value):
     return "%g" % value
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+CLEAN_FLOAT = lambda v: "{0:.3f}".format(v).rstrip('0').rstrip('.')
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From 52bd4e1419f705698141fc2d7ea9f844a96459f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 13/48] fix: unicode look-alikes of a word's letter raise
 GCodeWordStrError

U+212A (kelvin sign) matches [K] when ignoring case, and raised KeyError.
---
 src/pygcode/words.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..b0025f2 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -105,6 +105,8 @@ def text2words(block_text, dialect=None):
         if letter_match:
             # Letter
             letter = letter_match.group('letter').upper()
+            if letter not in word_map:  # eg: case-insensitive unicode equivalent
+                raise GCodeWordStrError("word letter '%s' invalid" % letter)
             index += letter_match.end() # propogate index to start of value
 
             # Value
-- 
2.43.0


From 921c484f30ce6adf16ed9b06cabe5320ea3a3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 14/48] fix: a machine's mode does not share words with the
 gcodes it's set from

Changing a parameter of a gcode after it was processed also changed the
machine's retained mode (and of every machine that processed it).
---
 src/pygcode/gcodes.py  | 4 ++--
 src/pygcode/machine.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 74b8a96..7e55bdc 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 7e34fe4..e2df82f 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -421,10 +421,11 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
-            params = copy(self.mode.motion.params)  # dict
+            motion = self.mode.motion.modal_copy()
+            params = motion.params  # dict
             params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                [motion.word] + list(params.values())
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 8b7c12a4e80b5485e718ea6f368a74751b0dad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 15/48] fix: pygcode-norm --singles keeps modal parameters, and
 macros

A line with more than 1 gcode and modal parameters (eg: 'M8 F100 X10') lost its
movement.
---
 scripts/pygcode-norm | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 755afc1..6a6730e 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -16,7 +16,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         # pygcode
         from pygcode import Word
         from pygcode import Machine, Mode, Line
-        from pygcode import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
+        from pygcode import GCodeMotion, GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
         from pygcode import GCodeCannedCycle
         from pygcode import GCodeRapidMove, GCodeStopSpindle, GCodeAbsoluteDistanceMode
         from pygcode import split_gcodes
@@ -250,9 +250,15 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
     :param obj: Line, Block, GCode or Comment instance
     """
     assert not(args.full and modal_params), "with full specified, this should never be called with modal_params"
-    if args.singles and len(gcodes) > 1:
-        for g in sorted(gcodes):
-            write([g], comment=comment)
+    if args.singles and (len(gcodes) + bool(modal_params)) > 1:
+        # commands are written in execution order, modal params being a motion
+        commands = [(g.exec_order, [g], tuple()) for g in gcodes]
+        if modal_params:
+            commands.append((GCodeMotion.exec_order, [], modal_params))
+        commands.sort(key=lambda c: c[0])
+        for (i, (_, g_list, params)) in enumerate(commands):
+            is_last = (i == len(commands) - 1)
+            write(g_list, modal_params=params, comment=comment, macro=macro if is_last else None)
     else:
         # remove comments
         if args.rm_comments:
-- 
2.43.0


From c9eb4737606cdd42a367d2b41240b3070fce2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 16/48] fix: pygcode-crop resumes in the mode that was active

Positioning moves left the machine in rapid motion mode, so modal lines to
follow (eg: 'X10') became rapid moves. Also: incremental mode displaced the
positioning moves, a modal canned cycle was drilled again before positioning,
and a program stop or end (eg: M2) before the range was repeated.
---
 scripts/pygcode-crop | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..a9acefb 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -17,6 +17,8 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
         from pygcode import GCodeRapidMove
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
+        from pygcode.gcodes import MODAL_GROUP_MAP
 
     except ImportError:
         import sys, os, inspect
@@ -191,6 +193,7 @@ machine = NullMachine()
 
 pre_crop = True
 post_crop = False
+restore_motion = True
 
 (is_first, is_last) = args.range
 
@@ -207,7 +210,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            #   note: motion is dealt with below (must not cause movement here),
+            #         and program stops & pauses aren't to be repeated.
+            mode_str = ' '.join(str(g) for g in old_machine.mode.gcodes if g.modal_group not in (
+                MODAL_GROUP_MAP['motion'], MODAL_GROUP_MAP['stopping'],
+            ))
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
@@ -218,7 +225,10 @@ for (i, line_str) in enumerate(args.infile.readlines()):
                 plane = GCodeSelectXYPlane()  # default to XY plane
 
             # --- position machine before first cropped line
+            is_incremental = isinstance(old_machine.mode.distance, GCodeIncrementalDistanceMode)
             print(Comment("traverse into position, up, over, and down"))
+            if is_incremental:
+                print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
@@ -232,6 +242,8 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            if is_incremental:
+                print(old_machine.mode.distance)
             print('')
 
     if (pre_crop, post_crop) == (False, False):
@@ -242,4 +254,13 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             break
         else:
             # inside cropping area
+            if restore_motion:
+                # The rapid moves above changed the motion mode, so the first
+                # motion must state its own mode.
+                has_motion = any(g.modal_group == MODAL_GROUP_MAP['motion'] for g in line.block.gcodes)
+                if line.block.modal_params and not has_motion:
+                    line.block.gcodes = old_machine.block_modal_gcodes(line.block)
+                    line.block.modal_params = []
+                    has_motion = True
+                restore_motion = not has_motion
             print(line)
-- 
2.43.0


From 71bb82cf46259bc1d550ec26a1141698539cf9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 17/48] fix: pygcode-crop raised TypeError when in a UV, WU, or
 VW plane

---
 scripts/pygcode-crop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index a9acefb..99d0542 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -221,7 +221,7 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # Getting machine's current (modal) selected plane
             plane = old_machine.mode.plane_selection
-            if not isinstance(plane, GCodePlaneSelect):
+            if not (isinstance(plane, GCodePlaneSelect) and plane.normal_axis):
                 plane = GCodeSelectXYPlane()  # default to XY plane
 
             # --- position machine before first cropped line
-- 
2.43.0


From b65b1c89d182e04e8c4094bbfb9d9264cfde2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 18/48] fix: pygcode-crop accepts conditions on angular axes

The documented conditions on a, b, and c raised AttributeError, because the
machine did not have these axes. Their position is also restored.
---
 scripts/pygcode-crop | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 99d0542..00bde12 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -188,6 +188,7 @@ args = parser.parse_args()
 # --- Machine
 class NullMachine(Machine):
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
+    axes = set('XYZABC')
 
 machine = NullMachine()
 
@@ -233,10 +234,14 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
             }))
-            # rapid move to X,Y
+            # rapid move to X,Y (and angular axes, if they've been used)
+            used_axes = set(
+                k for k in 'ABC'
+                if getattr(old_machine.abs_range_min, k) or getattr(old_machine.abs_range_max, k)
+            )
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if k in (plane.plane_axes | used_axes)
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From 5282cdba540361604e66d4df7517ff133b51c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 19/48] fix: repeated modal parameters are refused, as they are
 after a command

---
 src/pygcode/machine.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index e2df82f..cc3962f 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -422,10 +422,12 @@ class Machine(object):
             # forces exception to be raised in next step
         else:
             motion = self.mode.motion.modal_copy()
-            params = motion.params  # dict
-            params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
+            given_letters = set(w.letter for w in modal_params)
+            retained_params = [  # those not overridden by given parameters
+                w for (l, w) in motion.params.items() if l not in given_letters
+            ]
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [motion.word] + list(params.values())
+                [motion.word] + retained_params + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 43dcf6b31a2c7429c5c01095950f1a4a8a1baf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 20/48] fix: modes retain their own parameters (G43 H, G41 D,
 G64 P, G96 D)

---
 src/pygcode/gcodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 7e55bdc..41d5ad4 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -733,12 +733,14 @@ class GCodeSpindleSpeedMode(GCodeSpindle):
 class GCodeSpindleConstantSurfaceSpeedMode(GCodeSpindleSpeedMode):
     """G96: Spindle Constant Surface Speed"""
     param_letters = set('DS')
+    modal_param_letters = param_letters
     word_key = Word('G', 96)
 
 
 class GCodeSpindleRPMMode(GCodeSpindleSpeedMode):
     """G97: Spindle RPM Speed"""
     param_letters = set('D')
+    modal_param_letters = param_letters
     word_key = Word('G', 97)
 
 
@@ -783,6 +785,7 @@ class GCodeToolLength(GCode):
 class GCodeToolLengthOffset(GCodeToolLength):
     """G43: Tool Length Offset"""
     param_letters = set('H')
+    modal_param_letters = param_letters
     word_key = Word('G', 43)
 
 
@@ -794,6 +797,7 @@ class GCodeDynamicToolLengthOffset(GCodeToolLength):
 class GCodeAddToolLengthOffset(GCodeToolLength):
     """G43.2: Appkly Additional Tool Length Offset"""
     param_letters = set('H')
+    modal_param_letters = param_letters
     word_key = Word('G', 43.2)
 
 
@@ -955,24 +959,28 @@ class GCodeCutterRadiusCompOff(GCodeCutterRadiusComp):
 class GCodeCutterCompLeft(GCodeCutterRadiusComp):
     """G41: Cutter Radius Compensation (left)"""
     param_letters = set('D')
+    modal_param_letters = param_letters
     word_key = Word('G', 41)
 
 
 class GCodeCutterCompRight(GCodeCutterRadiusComp):
     """G42: Cutter Radius Compensation (right)"""
     param_letters = set('D')
+    modal_param_letters = param_letters
     word_key = Word('G', 42)
 
 
 class GCodeDynamicCutterCompLeft(GCodeCutterRadiusComp):
     """G41.1: Dynamic Cutter Radius Compensation (left)"""
     param_letters = set('DL')
+    modal_param_letters = param_letters
     word_key = Word('G', 41.1)
 
 
 class GCodeDynamicCutterCompRight(GCodeCutterRadiusComp):
     """G42.1: Dynamic Cutter Radius Compensation (right)"""
     param_letters = set('DL')
+    modal_param_letters = param_letters
     word_key = Word('G', 42.1)
 
 
@@ -999,6 +1007,7 @@ class GCodeExactStopMode(GCodePathControlMode):
 class GCodePathBlendingMode(GCodePathControlMode):
     """G64: Path Blending"""
     param_letters = set('PQ')
+    modal_param_letters = param_letters
     word_key = Word('G', 64)
 
 
-- 
2.43.0


From 6bc9f7b6c5390d79fb78f5ea16660b01d090836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 21/48] fix: pygcode-crop writes modes in execution order, so S
 isn't taken as G96's

---
 scripts/pygcode-crop | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 00bde12..0bd6f5c 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -213,7 +213,8 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             # Set machine's accumulated mode (from everything that's been cut)
             #   note: motion is dealt with below (must not cause movement here),
             #         and program stops & pauses aren't to be repeated.
-            mode_str = ' '.join(str(g) for g in old_machine.mode.gcodes if g.modal_group not in (
+            #   (in execution order, so no word is taken as another's parameter)
+            mode_str = ' '.join(str(g) for g in sorted(old_machine.mode.gcodes) if g.modal_group not in (
                 MODAL_GROUP_MAP['motion'], MODAL_GROUP_MAP['stopping'],
             ))
             if mode_str:
-- 
2.43.0


From 5003ddbfa5826f27c6e008941edb5610f1076d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 22/48] fix: simplify_canned_cycle of a dwelling cycle (G82)
 raised NameError

---
 src/pygcode/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 9a9f21a..9e6f98f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeDwell
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
 
-- 
2.43.0


From debe9b2f608c08f413b275e4d9d7302ff687712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 23/48] fix: pecking cycles without an increment (Q0, or no Q)
 are refused

Expanding them never ended (Q0) or raised a TypeError (no Q).
---
 src/pygcode/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 9e6f98f..de77256 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -459,6 +459,8 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             # Drill hole
             delta = drill_depth - retract_depth  # full depth
             if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)):
+                if not canned_gcode.Q:
+                    raise GCodeParameterError("peck increment (Q) must be given, and not zero: %r" % canned_gcode)
                 delta = -abs(canned_gcode.Q)
 
             cur_depth = retract_depth
-- 
2.43.0


From 1d52074842c675a4cc70d8318fadf6d2a8a7538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 24/48] fix: a macro does not include the white space, or
 carriage return, ending its line

---
 src/pygcode/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..a5cffa7 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,7 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*?)?\s*$')
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From 255386e22c1d33e0019f2c2bd42fb49e513bb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 25/48] fix: short arcs given by their radius are not mistaken
 for full circles

An arc was refused if its start and end were closer than max_error.
---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index de77256..e1b33e1 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -271,7 +271,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_gcode.assert_params()
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-        if abs(arc_p_start - arc_p_end) < max_error:
+        if abs(arc_p_start - arc_p_end) < 1e-6:
             raise GCodeParameterError(
                 "arc starts and finishes in the same spot; cannot "
                 "speculate where circle's center is: %r" % arc_gcode
-- 
2.43.0


From 5b914615ff26e4695f41ef11abff206131166741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 26/48] fix: white space ending a comment does not grow each
 time it's rewritten

---
 src/pygcode/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..dff3939 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -17,7 +17,7 @@ class CommentBase(object):
 class CommentSemicolon(CommentBase):
     "Comments of the format: 'G00 X1 Y2 ; something profound'"
     ORDER = 1
-    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*)$')
+    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*?)\s*$')
 
     def __str__(self):
         return "; {text}".format(text=self.text)
-- 
2.43.0


From 72ae3053a42c8bde99abca1d158bcc564d9f6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 27/48] fix: values python can't convert raise
 GCodeWordStrError, not ValueError

---
 src/pygcode/words.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index b0025f2..6f5451b 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -116,7 +116,11 @@ def text2words(block_text, dialect=None):
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
             value = value_match.group() # matched text
 
-            yield Word(letter, value)
+            try:
+                word = Word(letter, value)
+            except ValueError: # eg: white space, or a quantity of digits, python can't convert
+                raise GCodeWordStrError("word '%s' value invalid" % letter)
+            yield word
 
             index += value_match.end() # propogate index to end of value
         else:
-- 
2.43.0


From 5cd03c5c5922ee8910578c63c1c3ce4ee1f5ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 28/48] fix: macros of lines that are linearised or expanded
 are kept

---
 scripts/pygcode-norm | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 6a6730e..3d7e5e6 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -289,12 +289,13 @@ def gcodes2str(gcodes):
 
 
 @contextmanager
-def split_and_process(gcode_list, gcode_class, comment):
+def split_and_process(gcode_list, gcode_class, comment, macro=None):
     """
     Split gcodes by given class, yields given class instance
     :param gcode_list: list of GCode instances
     :param gcode_class: class inheriting from GCode (directly, or indirectly)
     :param comment: Comment instance, or None
+    :param macro: macro text, or None
     """
     (befores, (g,), afters) = split_gcodes(gcode_list, gcode_class)
     # write & process those before gcode_class instance
@@ -308,9 +309,9 @@ def split_and_process(gcode_list, gcode_class, comment):
     if afters:
         write(afters)
         machine.process_gcodes(*afters)
-    # write comment (if given)
-    if comment:
-        write([], comment=line.comment)
+    # write comment & macro (if given)
+    if comment or macro:
+        write([], comment=comment, macro=macro)
 
 
 
@@ -327,7 +328,7 @@ for line_str in args.infile.readlines():
     effective_gcodes = machine.block_modal_gcodes(line.block)
 
     if args.arc_linearize and any(isinstance(g, GCodeArcMove) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeArcMove, line.comment) as arc:
+        with split_and_process(effective_gcodes, GCodeArcMove, line.comment, line.macro) as arc:
             write([], comment=Comment("linearized arc: %r" % arc))
             linearize_params = {
                 'arc_gcode': arc,
@@ -343,7 +344,7 @@ for line_str in args.infile.readlines():
                 write([linear_gcode])
 
     elif args.canned_expand and any((g.word in args.canned_codes) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment) as canned:
+        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment, line.macro) as canned:
             write([], comment=Comment("expanded: %r" % canned))
             simplify_canned_params = {
                 'canned_gcode': canned,
-- 
2.43.0


From 4ffc9407316b43c9e5a44b6750d8511bcb515021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 29/48] fix: expanding a canned cycle with L0 drills one hole,
 as processing it does

---
 src/pygcode/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index e1b33e1..08eb23a 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -425,7 +425,9 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
-        cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
+        cycle_count = canned_gcode.L
+        if (cycle_count is None) or (cycle_count <= 0):
+            cycle_count = 1  # same as when a machine processes the cycle
         cur_hole_p_axis = start_pos.vector
         for i in range(cycle_count):
             # Calculate Depths
-- 
2.43.0


From 190d0a189129f5c294f268bb99183517631e3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 30/48] fix: omit_redundant_modes keeps the word of a canned
 cycle where leaving it out would add retained parameters

---
 src/pygcode/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..dc03d7b 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -87,7 +87,9 @@ def omit_redundant_modes(gcode_iter):
                     # finally: g-code sets a motion mode in the machine
                     g = copy(g) # duplicate gcode object
                     # stop redundant g-code word from being printed
-                    g._whitespace_prefix = True
+                    # (unless parameters retained by the mode would be added to those of g-code)
+                    retained = m.mode.modal_groups[g.modal_group].modal_copy().params
+                    g._whitespace_prefix = set(retained).issubset(g.params)
 
         m.process_gcodes(g)
         yield g
-- 
2.43.0


From 4f949c4467f2755008329355349a9f6984caa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 31/48] fix: expanding a canned cycle without Z or R raises
 GCodeParameterError, not TypeError

---
 src/pygcode/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 08eb23a..3052644 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -419,6 +419,9 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    if (canned_gcode.Z is None) or (canned_gcode.R is None):
+        raise GCodeParameterError("depth (Z) and retract height (R) must be given: %r" % canned_gcode)
+
     # TODO: implement for planes other than XY
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
-- 
2.43.0


From e10a391df16f4eb9adecfb55f559751e199d967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 32/48] fix: linearizing an arc centered on its start and end
 raises GCodeParameterError, not ZeroDivisionError

---
 src/pygcode/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 3052644..c8867c2 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -302,6 +302,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
     full_circle = abs(arc_span) < 1e-6  # start & end are the same (projected) point
+    if not arc_radius:
+        raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
     if arc_radius < abs(arc_span_mid):
         if abs(arc_span_mid) - arc_radius > max_error:
             raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
-- 
2.43.0


From 5ba546c0c5cd75c728ff4f7d10cbfd4c39bd7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 33/48] fix: values too large to represent are refused, not
 read as infinity

---
 src/pygcode/words.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 6f5451b..30a1721 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -120,6 +120,8 @@ def text2words(block_text, dialect=None):
                 word = Word(letter, value)
             except ValueError: # eg: white space, or a quantity of digits, python can't convert
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
+            if word.value in (float('inf'), float('-inf')):  # too large to be represented
+                raise GCodeWordStrError("word '%s' value invalid" % letter)
             yield word
 
             index += value_match.end() # propogate index to end of value
-- 
2.43.0


From f3d574f7c72322b4c7dba9f12d39ce0563f282c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 34/48] fix: linearizing an arc in planes G17.1 G18.1 G19.1
 raises NotImplementedError, not AttributeError

---
 src/pygcode/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c8867c2..074d392 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -249,6 +249,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     assert isinstance(arc_dist_mode, (GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode)), "bad arc_dist_mode type: %r" % arc_dist_mode
     assert max_error > 0, "max_error must be > 0"
 
+    # TODO: implement for the UV, WU and VW planes
+    if plane.normal is None:
+        raise NotImplementedError("linearizing arcs in plane %r has not been implemented" % plane)
+
     # Arc Start
     arc_start = start_pos.vector
     # Arc End
-- 
2.43.0


From 6322362a5718617f3363a808bb3e57f8b85a89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 35/48] fix: threading cycles (G76) are refused, not expanded
 as if they were drilling

---
 src/pygcode/transform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 074d392..b513daf 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeThreadingCycle
 from .gcodes import GCodeDwell
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
@@ -425,6 +426,10 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    # TODO: implement for threading (only drilling & boring are)
+    if isinstance(canned_gcode, GCodeThreadingCycle):
+        raise NotImplementedError("simplifying threading cycles has not been implemented")
+
     if (canned_gcode.Z is None) or (canned_gcode.R is None):
         raise GCodeParameterError("depth (Z) and retract height (R) must be given: %r" % canned_gcode)
 
-- 
2.43.0


From 56eb87a716057c1c94ce39826752aa223055a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 36/48] fix: assigning a position's unit converts its values,
 instead of being ignored

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index cc3962f..040d611 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -77,7 +77,7 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            super(Position, self).__setattr__(key, value)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 0400f981d22c6ce175ef583e6ea482b712709fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 37/48] fix: the min and max of positions have the axes of
 those positions

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 040d611..6eba403 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -153,6 +153,7 @@ class Position(object):
             p2 = copy(p2)
             p2.unit = p1.unit
         return cls(
+            axes=p1.axes,
             unit=p1.unit,
             **dict(
                 (k, key(getattr(p1, k), getattr(p2, k))) for k in p1.values
-- 
2.43.0


From 95c9cebf7de96a962e2a06de3c3c4a03f33be703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 38/48] fix: angles of a position are not converted between
 inches and millimeters

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 6eba403..0542134 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -134,7 +134,7 @@ class Position(object):
     def unit(self, value):
         if value != self._unit:
             factor = UNIT_MAP[self._unit]['conversion_factor'][value]
-            for k in [k for (k, v) in self._value.items() if v is not None]:
+            for k in [k for (k, v) in self._value.items() if (v is not None) and (k not in 'ABC')]:
                 self._value[k] *= factor
             self._unit = value
 
-- 
2.43.0


From 40f2c275cf7233794b99abe7537cd326d161c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 39/48] fix: a machine starts in the coordinate system that its
 default mode selects

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 0542134..5d9da1e 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -377,6 +377,7 @@ class Machine(object):
     def __init__(self):
         self.mode = self.MODE_CLASS()
         self.state = self.STATE_CLASS(axes=self.axes)
+        self.set_mode()  # act on default mode (selects its coordinate system)
 
         # Position type (with default axes the same as this machine)
         units_mode = getattr(self.mode, 'units', None)
-- 
2.43.0


From 32e27a422136e2d234386a17543dcff2fb22b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 40/48] fix: arcs that start and end close together keep their
 given centre

---
 src/pygcode/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index b513daf..88d0eb5 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -332,9 +332,14 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         if full_circle:
             pass  # nothing to adjust: start & end don't limit where the center is
         elif abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
-            arc_p_center = arc_p_center_options[0]
+            arc_p_center_adjusted = arc_p_center_options[0]
         else:
-            arc_p_center = arc_p_center_options[1]
+            arc_p_center_adjusted = arc_p_center_options[1]
+
+        # The closer start & end are to each other, the more their errors are exaggerated
+        # by this adjustment; if it exceeds them, the given center is the better one.
+        if not full_circle and abs(arc_p_center_adjusted - arc_p_center) <= abs(abs(r1) - abs(r2)):
+            arc_p_center = arc_p_center_adjusted
 
     # Arc's angle (first rotated back to xy plane)
     plane2xy = plane.quat.conjugated()  # plane.quat rotates from xy, to plane
@@ -345,7 +350,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
-    if full_circle:
+    if full_circle or (abs(arc_angle) < 1e-9):  # start & end in the same direction
         arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
 
     # Helical interpolation
-- 
2.43.0


From c3c4fd693eaf6a29472305653df0b09c6f4c9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 41/48] fix: expanded drilling cycles don't withdraw and drill
 again because of a rounding error

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 88d0eb5..003f7cf 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -489,7 +489,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             while True:
                 # Determine new depth
                 cur_depth += delta
-                if cur_depth < drill_depth:
+                if cur_depth < drill_depth + 1e-6:  # all the way (give or take rounding errors)
                     cur_depth = drill_depth
 
                 # Rapid to just above, then slowly drill through delta
-- 
2.43.0


From 0851fad933758ee930808b99d991777ee30b7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 42/48] fix: expanded cycles dwell as long as they say, and
 boring cycles feed out

---
 src/pygcode/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 003f7cf..30d581b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
 from .gcodes import GCodeThreadingCycle
 from .gcodes import GCodeDwell
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
@@ -511,10 +512,14 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 last_depth = cur_depth
 
             # Dwell
-            if isinstance(canned_gcode, GCodeDrillingCycleDwell):
-                yield GCodeDwell(P=0.5) # TODO: configurable pause
+            if isinstance(canned_gcode, (GCodeDrillingCycleDwell, GCodeBoringCycleDwellFeedOut)):
+                # TODO: configurable default pause
+                yield GCodeDwell(P=0.5 if canned_gcode.P is None else canned_gcode.P)
 
             # Return
-            yield GCodeRapidMove(Z=final_depth)
+            if isinstance(canned_gcode, (GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeLinearMove(Z=final_depth)
+            else:
+                yield GCodeRapidMove(Z=final_depth)
 
     return inner()
-- 
2.43.0


From e2a3a2ee84552a9827749b45450bda5e11cbca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 43/48] fix: linearized arcs make all of their turns (P)

---
 src/pygcode/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 30d581b..7719378 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -353,6 +353,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = -((a2 - a1) % (2 * pi))
     if full_circle or (abs(arc_angle) < 1e-9):  # start & end in the same direction
         arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
+    if arc_gcode.P is not None:  # number of turns (the last of which may be partial)
+        if (arc_gcode.P < 1) or (arc_gcode.P % 1):
+            raise GCodeParameterError("number of turns (P) must be a positive integer: %r" % arc_gcode)
+        arc_angle += (arc_gcode.P - 1) * (2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi)
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From 6fcfd4d140c7ce2fca6657de15872cd54d76bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 44/48] fix: absurdly large arcs are refused with a documented
 error

---
 src/pygcode/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 7719378..b426b0b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -275,6 +275,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     #   - R: arc radius is provided
     #   - IJK: arc's center-point is given, errors mitigated
     arc_gcode.assert_params()
+    arc_values = list(arc_start.xyz) + list(arc_end.xyz) + list(arc_gcode.get_param_dict('IJKRP').values())
+    if max(abs(v) for v in arc_values) > max_error * 1e15:  # more digits than a float has
+        raise GCodeParameterError("arc is too large for a maximum error of %g: %r" % (max_error, arc_gcode))
+
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
         if abs(arc_p_start - arc_p_end) < 1e-6:
-- 
2.43.0


From 2d3f8903ee358499d38da2f125a01c1745e9e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 45/48] fix: lines and blocks put together from commands are
 not left out of their text

---
 src/pygcode/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74ff168..ae49c11 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -103,7 +103,7 @@ class Block(object):
         return length
 
     def __bool__(self):
-        return bool(self.words)
+        return bool(self.words or self.gcodes or self.modal_params)
 
     __nonzero__ = __bool__  # python < 3 compatability
 
-- 
2.43.0


From a981c09860d0ba3d9b3b9af8f62cd8ed8d23235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:52 +0000
Subject: [PATCH 46/48] fix: user-defined codes are recognized whenever they
 are defined

Codes are created by inheriting from GCodeUserDefined, but classes defined
after the first text was parsed were never recognized.
---
 src/pygcode/gcodes.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 41d5ad4..9558957 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1418,6 +1418,7 @@ def _gcode_class_infostr(base_class=GCode, prefix=''):
 _gcode_maps_created = False  # only set when the below values are populated
 _gcode_word_map = {} # of the form: {Word('G', 0): GCodeRapidMove, ... }
 _gcode_function_list = [] # of the form: [(lambda w: w.letter == 'F', GCodeFeedRate), ... ]
+_gcode_classes = [] # classes the above were populated from
 
 
 def build_maps():
@@ -1426,8 +1427,9 @@ def build_maps():
     # must neither see a partial map, nor have their own map disturbed.
     word_map = {}
     function_list = []
+    classes = list(_subclasses(GCode))
 
-    for cls in _subclasses(GCode):
+    for cls in classes:
         if cls.word_key is not None:
             # Map Word instance to g-code class
             if cls.word_key in word_map:
@@ -1439,9 +1441,11 @@ def build_maps():
 
     global _gcode_word_map
     global _gcode_function_list
+    global _gcode_classes
     global _gcode_maps_created
     _gcode_word_map = word_map
     _gcode_function_list = function_list
+    _gcode_classes = classes
     _gcode_maps_created = True
 
 
@@ -1457,6 +1461,8 @@ def word_gcode_class(word, exhaustive=False):
     if not _gcode_maps_created:
         build_maps()
 
+    mapped_classes = _gcode_classes
+
     # quickly eliminate parameters
     # TODO: get valid world letters from dialect
     if (not exhaustive) and (word.letter not in 'GMFSTNO'):
@@ -1471,6 +1477,11 @@ def word_gcode_class(word, exhaustive=False):
         if match_function(word):
             return gcode_class
 
+    # Classes (eg: user-defined codes) may have been defined since maps were populated
+    if list(_subclasses(GCode)) != mapped_classes:
+        build_maps()
+        return word_gcode_class(word, exhaustive=exhaustive)
+
     return None
 
 
-- 
2.43.0


From 71526e9f69b918fcefae896f1a76cdf767a80641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 47/48] fix: pygcode-norm writes final actions before the
 program's end

Nothing is executed after M2 or M30, so the moves and the spindle stop asked
for with --zero_xy, --zero_z and --spindle_off never happened.
---
 scripts/pygcode-norm | 68 +++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 3d7e5e6..77d0c84 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -19,6 +19,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import GCodeMotion, GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
         from pygcode import GCodeCannedCycle
         from pygcode import GCodeRapidMove, GCodeStopSpindle, GCodeAbsoluteDistanceMode
+        from pygcode import GCodeEndProgram, GCodeEndProgramPalletShuttle
         from pygcode import split_gcodes
         from pygcode import Comment
         from pygcode.transform import linearize_arc, simplify_canned_cycle
@@ -314,6 +315,34 @@ def split_and_process(gcode_list, gcode_class, comment, macro=None):
         write([], comment=comment, macro=macro)
 
 
+END_PROGRAM_CLASSES = (GCodeEndProgram, GCodeEndProgramPalletShuttle)
+finalized = False
+
+def finalize():
+    """Write final machine actions: motion & spindle (only once)"""
+    global finalized
+    if finalized:
+        return
+    finalized = True
+    if any([args.spindle_off, args.zero_xy, args.zero_z]):
+        write([], comment=Comment("pygcode-norm: finalizing"))
+    if any([args.zero_xy, args.zero_z]) and not(isinstance(machine.mode.distance, GCodeAbsoluteDistanceMode)):
+        write([GCodeAbsoluteDistanceMode()])
+    if args.spindle_off:
+        write([GCodeStopSpindle()], comment=Comment("spindle off"))
+
+    if args.zero_xy:
+        rapid_safety_height = args.rapid_safety_height
+        if rapid_safety_height is None:
+            rapid_safety_height = machine.abs2work(machine.abs_range_max).Z
+
+    if args.zero_xy:
+        write([GCodeRapidMove(Z=rapid_safety_height)], comment=Comment("move to safe height"))
+        write([GCodeRapidMove(X=0, Y=0)], comment=Comment("move to planar origin"))
+
+    if args.zero_z:
+        write([GCodeRapidMove(Z=0)], comment=Comment("move to zero height"))
+
 
 # =================== Process File ===================
 
@@ -327,6 +356,18 @@ for line_str in args.infile.readlines():
     #   fills in missing motion modal gcodes (using machine's current motion mode).
     effective_gcodes = machine.block_modal_gcodes(line.block)
 
+    # Program's end (if final actions are to be done before it):
+    #   codes ending the program are held back until the rest of the line is processed;
+    #   a machine doesn't execute anything beyond them.
+    (end_gcodes, end_comment, end_macro) = ([], None, None)
+    if not finalized and any([args.spindle_off, args.zero_xy, args.zero_z]):
+        end_gcodes = [g for g in effective_gcodes if isinstance(g, END_PROGRAM_CLASSES)]
+    if end_gcodes:
+        effective_gcodes = [g for g in effective_gcodes if not isinstance(g, END_PROGRAM_CLASSES)]
+        line.block.gcodes = [g for g in line.block.gcodes if not isinstance(g, END_PROGRAM_CLASSES)]
+        (end_comment, end_macro) = (line.comment, line.macro)
+        (line.comment, line.macro) = (None, None)
+
     if args.arc_linearize and any(isinstance(g, GCodeArcMove) for g in effective_gcodes):
         with split_and_process(effective_gcodes, GCodeArcMove, line.comment, line.macro) as arc:
             write([], comment=Comment("linearized arc: %r" % arc))
@@ -357,29 +398,16 @@ for line_str in args.infile.readlines():
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
                 write([simplified_gcode])
 
-    else:
+    elif effective_gcodes or not end_gcodes:
         if args.full:
             write(effective_gcodes, comment=line.comment, macro=line.macro)
         else:
             write(line.block.gcodes, modal_params=line.block.modal_params, comment=line.comment, macro=line.macro)
         machine.process_block(line.block)
 
-# Finalizing Motion & Spindle
-if any([args.spindle_off, args.zero_xy, args.zero_z]):
-    write([], comment=Comment("pygcode-norm: finalizing"))
-if any([args.zero_xy, args.zero_z]) and not(isinstance(machine.mode.distance, GCodeAbsoluteDistanceMode)):
-    write([GCodeAbsoluteDistanceMode()])
-if args.spindle_off:
-    write([GCodeStopSpindle()], comment=Comment("spindle off"))
-
-if args.zero_xy:
-    rapid_safety_height = args.rapid_safety_height
-    if rapid_safety_height is None:
-        rapid_safety_height = machine.abs2work(machine.abs_range_max).Z
-
-if args.zero_xy:
-    write([GCodeRapidMove(Z=rapid_safety_height)], comment=Comment("move to safe height"))
-    write([GCodeRapidMove(X=0, Y=0)], comment=Comment("move to planar origin"))
-
-if args.zero_z:
-    write([GCodeRapidMove(Z=0)], comment=Comment("move to zero height"))
+    if end_gcodes:
+        finalize()
+        write(end_gcodes, comment=end_comment, macro=end_macro)
+        machine.process_gcodes(*end_gcodes)
+
+finalize()
-- 
2.43.0


From 4de59146eab8bb3969350aaad3eebb1e9b29aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 48/48] fix: an axis left out of a repeated canned cycle
 doesn't move

In incremental mode the last hole's increments were repeated; after a change of
the distance mode or coordinate system, axes were moved to retained values.
---
 src/pygcode/machine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 5d9da1e..617f402 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -6,6 +6,7 @@ from .gcodes import (
     MODAL_GROUP_MAP, GCode,
     # Modal GCodes
     GCodeMotion,
+    GCodeCannedCycle, GCodeSelectXYPlane,
     GCodeIncrementalDistanceMode,
     GCodeUseInches, GCodeUseMillimeters,
     # Utilities
@@ -424,9 +425,14 @@ class Machine(object):
             # forces exception to be raised in next step
         else:
             motion = self.mode.motion.modal_copy()
-            given_letters = set(w.letter for w in modal_params)
-            retained_params = [  # those not overridden by given parameters
-                w for (l, w) in motion.params.items() if l not in given_letters
+            dropped_letters = set(w.letter for w in modal_params)  # overridden by given parameters
+            if isinstance(motion, GCodeCannedCycle):
+                # holes are where they're put by given parameters alone: an axis left out
+                # doesn't move (only what's along the plane's normal is retained)
+                plane = self.mode.plane_selection or GCodeSelectXYPlane  # default to XY plane
+                dropped_letters |= GCodeCannedCycle.param_letters - set([plane.normal_axis])
+            retained_params = [
+                w for (l, w) in motion.params.items() if l not in dropped_letters
             ]
             (modal_gcodes, unasigned_words) = words2gcodes(
                 [motion.word] + retained_params + list(modal_params)
-- 
2.43.0

