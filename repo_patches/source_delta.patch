From 9d38b6a72aa7c66a8346b5c3893a61e43f09435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 01/41] fix: G92 E sets the E position instead of adding it to
 later absolute moves

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..9296393 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -564,7 +564,8 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        # current_e is kept in the coordinate system set here
+                        current_e = line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From b727b947fb7b33c5a6091d30adc45c38aef5b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 02/41] fix: G28 homes the axes it names even when their value
 is zero or missing

---
 gcodeutils/gcoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 9296393..55f8713 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -528,14 +528,16 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    # axes are named with or without a value
+                    homed = [bit[0] for bit in split_raw[1:]]
+                    home_all = not any(axis in homed for axis in "xyz")
+                    if home_all or "x" in homed:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in homed:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in homed:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 39767e273ad77a5512875242eb3aeb5ae9f67a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 03/41] fix: G92 without any axis resets all axes to zero

---
 gcodeutils/gcoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 55f8713..a02c55d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -545,6 +545,10 @@ class GCode(object):
                     if line.x is not None: offset_x = current_x - line.x
                     if line.y is not None: offset_y = current_y - line.y
                     if line.z is not None: offset_z = current_z - line.z
+                    if line.x is None and line.y is None and line.z is None and line.e is None:
+                        # without any axis, the current position becomes the origin of all of them
+                        offset_x, offset_y, offset_z = current_x, current_y, current_z
+                        current_e = 0
 
                 line.current_x = current_x
                 line.current_y = current_y
-- 
2.43.0


From 45a384359ed1c6ce7962d304c3d1681cf4277a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 04/41] fix: dwell times given in seconds or in lower case
 count in the duration

---
 gcodeutils/gcoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index a02c55d..b18393c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -121,7 +121,7 @@ LightLine = PyLightLine
 
 def find_specific_code(line, code):
     exp = specific_exp % code
-    bits = [bit for bit in re.findall(exp, line.raw) if bit]
+    bits = [bit for bit in re.findall(exp, line.raw, re.IGNORECASE) if bit]
     if not bits:
         return None
     else:
@@ -655,9 +655,13 @@ class GCode(object):
                         laste = e
                         lastf = f
                     elif line.command == "G4":
+                        # dwell time, P in milliseconds or S in seconds
                         moveduration = P(line)
-                        if moveduration:
+                        if moveduration is not None:
                             moveduration /= 1000.0
+                        else:
+                            moveduration = S(line)
+                        if moveduration:
                             totalduration += moveduration
 
                     # FIXME : looks like this needs to be tested with "lift Z on move"
-- 
2.43.0


From 296aa4543412656076df940e37fccc4be4f27dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 05/41] fix: prepend to and rewrite a layer that has no line
 yet

---
 gcodeutils/gcoder.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index b18393c..fe0d99e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -333,14 +333,9 @@ class GCode(object):
         layer = self.all_layers[layer_idx]
         # Find start index to append lines
         # and end index to append new indices
-        start_index = self.layer_idxs.index(layer_idx)
-        for i in range(start_index, len(self.layer_idxs)):
-            if self.layer_idxs[i] != layer_idx:
-                end_index = i
-                break
-        else:
-            end_index = i + 1
-        end_line = self.line_idxs[end_index - 1]
+        start_index = sum(len(l) for l in self.all_layers[:layer_idx])
+        end_index = start_index + len(layer)
+        end_line = len(layer) - 1
         for i, command in enumerate(commands):
             gline = Line(command)
             # Split to get command
@@ -362,13 +357,8 @@ class GCode(object):
         layer = self.all_layers[layer_idx]
         # Find start index to append lines
         # and end index to append new indices
-        start_index = self.layer_idxs.index(layer_idx)
-        for i in range(start_index, len(self.layer_idxs)):
-            if self.layer_idxs[i] != layer_idx:
-                end_index = i
-                break
-        else:
-            end_index = i + 1
+        start_index = sum(len(l) for l in self.all_layers[:layer_idx])
+        end_index = start_index + len(layer)
         self.layer_idxs = self.layer_idxs[:start_index] + array('I', len(commands) * [layer_idx]) + self.layer_idxs[
                                                                                                     end_index:]
         self.line_idxs = self.line_idxs[:start_index] + array('I', range(len(commands))) + self.line_idxs[end_index:]
-- 
2.43.0


From 5edffd8d0ef49b76909591525e4668d762335931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 06/41] fix: the index of an appended line addresses that line

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index fe0d99e..300905c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -386,7 +386,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From 17b2be6584d72cd2324cd36041b0ec69ac83d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 07/41] fix: programs with one extra trailing line no longer
 compare equal

---
 gcodeutils/gcoder.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 300905c..ef5c36d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -794,8 +794,8 @@ class GCode(object):
         if not isinstance(other, GCode):
             raise ValueError
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
 
         for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
             # checking the raw representation of lines is a bit naive
@@ -803,17 +803,11 @@ class GCode(object):
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
+        # check that no line remains
+        if len(meaningful_lines1) > len(meaningful_lines2):
+            return "Remaining line(s) for self: '{}'".format(meaningful_lines1[len(meaningful_lines2)])
+        if len(meaningful_lines2) > len(meaningful_lines1):
+            return "Remaining line(s) for other: '{}'".format(meaningful_lines2[len(meaningful_lines1)])
 
         return None
 
@@ -821,8 +815,12 @@ class GCode(object):
         if not isinstance(other, GCode):
             return False
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
+
+        # check that no line remains
+        if len(meaningful_lines1) != len(meaningful_lines2):
+            return False
 
         for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
@@ -830,17 +828,6 @@ class GCode(object):
             if l1 != l2:
                 return False
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From 9ecf9a37d67910aee7dcaf553fc3ccb2cf192277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 08/41] fix: rewriting a line keeps its trailing comment

---
 gcodeutils/gcoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index ef5c36d..b10af8f 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -29,6 +29,7 @@ gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
 gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.?[0-9]*)" % to_parse)
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
+gcode_trailing_comment_exp = re.compile("\([^\(\)]*\)|(;.*)")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
 move_gcodes = ["G0", "G1", "G2", "G3"]
@@ -168,7 +169,10 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    comment = "".join(gcode_trailing_comment_exp.findall(line.raw or ""))
+    if comment:
+        comment = " " + comment
+    line.raw = line.command + format.format(*arg) + comment
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 684fdf6669571f3cae2b805d2114dae2fabecf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 09/41] fix: rewriting a line of an inch program writes inches

---
 gcodeutils/gcoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index b10af8f..59149b1 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -47,7 +47,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
                  'raw', 'command', 'is_move',
-                 'relative', 'relative_e',
+                 'relative', 'relative_e', 'imperial',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
                  'gcview_end_vertex')
@@ -168,7 +168,8 @@ def unsplit(line):
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
-            arg += [bit.upper(), getattr(line, bit)]
+            # words are parsed to millimeters but written in the unit selected at that line
+            arg += [bit.upper(), getattr(line, bit) / 25.4 if line.imperial else getattr(line, bit)]
     comment = "".join(gcode_trailing_comment_exp.findall(line.raw or ""))
     if comment:
         comment = " " + comment
@@ -497,6 +498,7 @@ class GCode(object):
                     current_tool = int(line.command[1:])
 
                 if line.command[0] == "G":
+                    line.imperial = imperial
                     parse_coordinates(line, split_raw, imperial)
 
                 # Compute current position
-- 
2.43.0


From f0b8f4cd35649f4c2317b4fcde7812e58790670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 10/41] fix: translation keeps its amount across G92, G28 and E
 resets

---
 gcodeutils/filter/translate.py | 38 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..cdfb5be 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -14,6 +14,10 @@ class GCodeXYTranslateFilter(GCodeFilter):
         self.translate_x = x or 0.
         self.translate_y = y or 0.
 
+        # how far the head is from its position in the original program
+        self.shift_x = 0.
+        self.shift_y = 0.
+
         self.first_move_after_home = False
 
         self.absolute_distance_mode = None  # None if when it is unknown
@@ -40,10 +44,12 @@ class GCodeXYTranslateFilter(GCodeFilter):
             # at this point, we're an absolute move, we have to "hard patch" coordinate
             if opcode.x is not None and self.translate_x:
                 opcode.x += self.translate_x
+                self.shift_x = self.translate_x
                 unsplit(opcode)
 
             if opcode.y is not None and self.translate_y:
                 opcode.y += self.translate_y
+                self.shift_y = self.translate_y
                 unsplit(opcode)
 
             return opcode
@@ -57,25 +63,29 @@ class GCodeXYTranslateFilter(GCodeFilter):
             return
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
-                # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
-
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
+            if not self.shift_x and not self.shift_y:
+                return
 
-                unsplit(opcode)
-                return opcode
+            if opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None:
+                # no coordinate given is equivalent to all 0
+                opcode.x = opcode.y = opcode.z = opcode.e = 0
 
+            # the head is not where the original program left it, keep its frame of reference
             if opcode.x is not None:
-                opcode.x -= self.translate_x
-                self.translate_x = 0
+                opcode.x += self.shift_x
 
             if opcode.y is not None:
-                opcode.y -= self.translate_y
-                self.translate_y = 0
+                opcode.y += self.shift_y
 
             unsplit(opcode)
             return opcode
+
+        if opcode.command == 'G28':
+            # homing brings the head to the same place as in the original program
+            homed = [bit[0] for bit in split(opcode)[1:]]
+            home_all = not any(axis in homed for axis in 'xyz')
+            if home_all or 'x' in homed:
+                self.shift_x = 0.
+            if home_all or 'y' in homed:
+                self.shift_y = 0.
+            return
-- 
2.43.0


From 45c0e8ba5a06701b322c0292b2e1ed7e19513b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 11/41] fix: relative extrusion moves and G91 count in the
 extrusion position

---
 gcodeutils/filter/relative_extrusion.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..8d2472a 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -2,7 +2,7 @@ from decimal import Decimal
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
-    GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
+    GCODE_ABSOLUTE_POSITIONING_COMMAND, GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
     GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
 
 __author__ = 'olivier'
@@ -11,6 +11,7 @@ __author__ = 'olivier'
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
         self.relative_extrusion = False
+        self.relative_distance_mode = False  # all axes, extruder included, are relative while G91 is in force
         self.current_extrusion_distance = Decimal()
 
     def opcode_filter(self, opcode):
@@ -22,6 +23,14 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
             self.relative_extrusion = False
             return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
 
+        if opcode.command == GCODE_RELATIVE_POSITIONING_COMMAND:
+            self.relative_distance_mode = True
+            return
+
+        if opcode.command == GCODE_ABSOLUTE_POSITIONING_COMMAND:
+            self.relative_distance_mode = False
+            return
+
         if opcode.command == GCODE_SET_POSITION_COMMAND:
 
             # when setting position, if E is set, use it, but if there is parameter, consider E=0
@@ -32,7 +41,12 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
-        if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
+        if opcode.command in move_gcodes and opcode.e is not None:
+            if self.relative_extrusion or self.relative_distance_mode:
+                # already relative, only keep track of the amount extruded
+                self.current_extrusion_distance += Decimal(opcode.e)
+                return
+
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
             opcode.e, self.current_extrusion_distance = (
-- 
2.43.0


From 06cf4922612b008665f33c7c4914688c47994667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 12/41] fix: gcode_tempcal can be imported and its number of
 steps is a number

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..9be7962 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 534dc8228c02402fdcf6ea98cc45d613155f11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 13/41] fix: the temperature gradient starts above the minimum
 height

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 9be7962..16bcc83 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and current_z > self.min_z_change and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 08d75546b4f305a432820dd591e9bf433fa0412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 14/41] fix: the step gradient uses the requested steps and
 stops at the end temperature

---
 gcodeutils/gcode_tempcal.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 16bcc83..ce1652f 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -131,14 +131,11 @@ class GCodeStepTempGradient(GCodeTempGradient):
         super(GCodeStepTempGradient, self).__init__(gcode, **kwargs)
         self.steps = kwargs['steps']
 
-        self.step_end_temp = self.end_temp + (self.end_temp - self.start_temp) / self.steps
-        self.steps += 1
-
-        self.max_temp = max(self.end_temp, self.start_temp)
-
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        # each of the steps + 1 temperatures covers the same height
+        progress = (self.current_z - self.zmin) / (self.zmax - self.zmin)
+        step = min(self.steps, int(progress * (self.steps + 1)))
+        return self.start_temp + step * (self.end_temp - self.start_temp) / self.steps
 
 
 def main():
-- 
2.43.0


From 4a078aa7727c98804865aa45273173550f7650f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 15/41] fix: no blank line is written for a temperature out of
 bounds

---
 gcodeutils/gcode_tempcal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index ce1652f..d262150 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -97,7 +97,9 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                             logging.debug("target temp for layer #%d (height %.2fmm) is %.1f°C", layer_idx,
                                           self.current_z, target_temp)
-                            print(self.generate_temperature_gcode(target_temp), file=output_file)
+                            temperature_gcode = self.generate_temperature_gcode(target_temp)
+                            if temperature_gcode:
+                                print(temperature_gcode, file=output_file)
 
                 for line in layer:
                     print(line.raw, file=output_file)
-- 
2.43.0


From 0842975b2d5ea414b155cc6d98f00f71a26be983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 16/41] fix: the iterator reports the position of the visited
 layer, not of an equal one

---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..03265b4 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From 3f754920c20f858f71a004bb5cdc8fe80908b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 17/41] fix: heights equal at the chosen precision count as one
 printed layer

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 03265b4..400a663 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
-- 
2.43.0


From ec3ea68e1e33d9a52e95228076951a862dd833e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 18/41] fix: programs that extrude before any height can be
 iterated

---
 gcodeutils/visit/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 400a663..78d71ec 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs)
+            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
-- 
2.43.0


From ab04c3c07d3dae1a80b9788f46e0ebe59a8dddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 19/41] fix: the Cura profile string is decoded before it is
 read

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..3fd9c42 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -713,7 +713,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8').split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From cb600b10a2f03818f25a12a5784922c957d78b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 20/41] fix: stretch iterators end and stay inside the layer

---
 gcodeutils/stretch/stretch.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 3fd9c42..23e2e37 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -130,9 +130,8 @@ class LineIteratorForwardLegacy(object):
     logger = logging.getLogger('iterator')
 
     def __init__(self, line_index, lines):
-        self.first_visited_index = None
         self.line_index = line_index
-        self.first_visited_index = None
+        self.visited_indexes = set()
         self.lines = lines
         self.increment = 1
         self.stop_on_extrusion_off = True
@@ -161,11 +160,10 @@ class LineIteratorForwardLegacy(object):
 
         while self.index_in_valid_range():
 
-            if self.line_index == self.first_visited_index:
+            if self.line_index in self.visited_indexes:
                 self.logger.debug("infinite looping detected")
                 raise StopIteration("You've reached the end of the line.")
-            if self.first_visited_index is None:
-                self.first_visited_index = self.line_index
+            self.visited_indexes.add(self.line_index)
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
@@ -197,7 +195,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
         self.logger.debug("reset index backward")
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
+        for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
         print('This should never happen in stretch, no deactivate command was found for this thread.')
@@ -221,7 +219,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         self.stop_on_extrusion_off = False
 
     def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
+        if self.index_in_valid_range() and StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -238,7 +236,8 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
+        elif self.line_index + 1 < len(self.lines) and \
+                StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -246,7 +245,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
 
         self.logger.debug("reset index backward (modern)")
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
+        for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
         print('This should never happen in stretch, no deactivate command was found for this thread.')
@@ -261,7 +260,8 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
+        elif self.line_index + 1 < len(self.lines) and \
+                StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -269,7 +269,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
 
         self.logger.debug("reset index backward (modern)")
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
+        for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
         print('This should never happen in stretch, no deactivate command was found for this thread.')
-- 
2.43.0


From 184f018000c5078a97e0023a2616b4b1de0cb4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 21/41] fix: stretch reports a missing marker in the log, not
 in the program written to standard output

---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 23e2e37..dce9377 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -147,7 +147,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def index_in_valid_range(self):
@@ -198,7 +198,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -209,7 +209,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -228,7 +228,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -248,7 +248,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -272,7 +272,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(max(self.line_index + 1, 0), len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        self.logger.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From 4cde03bd562bcad4f675a020b2d9cfdcd2b35946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 22/41] fix: a stretched move runs at the feed rate in force

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index dce9377..215179b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -387,7 +387,7 @@ class StretchFilter:
     def stretch_line(self, line):
         """Get stretched gcode line."""
         location = get_location_from_line(self.oldLocation, line)
-        self.feedRateMinute = line.f or self.feedRateMinute
+        self.feedRateMinute = line.f or line.current_f or self.feedRateMinute
         self.oldLocation = location
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
-- 
2.43.0


From 0d1ea479b1fc123371f72c4d1d415836fc780159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 23/41] fix: stretching an X only or Y only move starts from
 the actual position

---
 gcodeutils/stretch/stretch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 215179b..0ac0e7c 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -94,7 +94,8 @@ import zlib
 
 import re
 
-from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes
+from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes, move_gcodes, \
+    GCODE_SET_POSITION_COMMAND
 from .vector3 import Vector3
 
 __author__ = 'Enrique Perez (perez_enrique@yahoo.com)'
@@ -491,6 +492,10 @@ class StretchFilter:
         if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
+        # keep track of the position for the moves naming one axis only
+        if line.command in move_gcodes or line.command == GCODE_SET_POSITION_COMMAND:
+            self.oldLocation = get_location_from_line(self.oldLocation, line)
+
         return line
 
     def set_stretch_to_path(self):
-- 
2.43.0


From 23e081552d06dabb92856491f0849337de7443b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 24/41] fix: loops do not extend over the end of the layer

---
 gcodeutils/stretch/stretch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 0ac0e7c..ce244f4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -306,6 +306,8 @@ class StretchFilter:
     OUTER_EDGE_START_MARKER = LOOP_START_MARKER + ' stretch-outer-edge-start'
     LOOP_STOP_MARKER = 'stretch-loop-stop'
 
+    loops_stay_in_layer = True
+
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
@@ -330,6 +332,8 @@ class StretchFilter:
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
+            if self.loops_stay_in_layer:
+                self.set_stretch_to_path()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
                 parse_coordinates(gcode_line, split(gcode_line))
@@ -740,6 +744,9 @@ class CuraStretchFilter(StretchFilter):
 class SkeinforgeStretchFilter(StretchFilter):
     EDGE_WIDTH_REGEXP = re.compile(r'\(<edgeWidth> ([\.\d]+)')
 
+    # loop ends are always announced, and Z is given on every move
+    loops_stay_in_layer = False
+
     def parse_initialisation_line(self, line):
         # self.distanceFeedRate.search_decimal_places_carried(line.raw)
         if line.raw == '(</extruderInitialization>)':
-- 
2.43.0


From 43826f43f45fd18be1951585c6d95763e2a5e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 25/41] fix: every Cura section comment ends the loop before it

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index ce244f4..5926ac9 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -705,7 +705,7 @@ class CuraStretchFilter(StretchFilter):
                     self.stop_loop(line)
                     next_line_marker = (False, False)
 
-                elif 'TYPE:FILL' in line.raw:
+                elif ';TYPE:' in line.raw:
                     self.stop_loop(line)
 
                 # end loop if we reach the end of the current layer
-- 
2.43.0


From ec46ef5cbdd49df5326556242bd18d14ebaba7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 26/41] fix: a Skeinforge program without edge width is
 stretched with the default one

---
 gcodeutils/stretch/stretch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 5926ac9..7c0689f 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -757,6 +757,7 @@ class SkeinforgeStretchFilter(StretchFilter):
         return False
 
     def setup_filter(self):
+        self.set_edge_width(self.edgeWidth)
         for self.current_layer in self.gcode.all_layers:
             for line in self.current_layer:
                 self.parse_initialisation_line(line)
-- 
2.43.0


From 9d99c63250a0c140304278014ca1c1e66bf4648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 27/41] fix: inch programs are stretched in inches

---
 gcodeutils/stretch/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 7c0689f..37f1057 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -336,7 +336,7 @@ class StretchFilter:
                 self.set_stretch_to_path()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
@@ -433,6 +433,7 @@ class StretchFilter:
 
         result = Line()
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From d19efe206e5a8ae8f8c795b74da1433350d6110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 28/41] fix: stretching after a homing or a position reset
 starts from the origin

---
 gcodeutils/stretch/stretch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 37f1057..28a7bac 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -498,8 +498,14 @@ class StretchFilter:
             return self.stretch_line(line)
 
         # keep track of the position for the moves naming one axis only
-        if line.command in move_gcodes or line.command == GCODE_SET_POSITION_COMMAND:
+        if line.command in move_gcodes or line.command in (GCODE_SET_POSITION_COMMAND, 'G28'):
             self.oldLocation = get_location_from_line(self.oldLocation, line)
+            if line.command not in move_gcodes:
+                # a homed axis is at its origin, so are all of them when none is named
+                named = [bit[0] for bit in split(line)[1:]]
+                for axis in 'xyz':
+                    if not named or line.command == 'G28' and (axis in named or not set(named) & set('xyz')):
+                        setattr(self.oldLocation, axis, 0.0)
 
         return line
 
-- 
2.43.0


From 161b5bcbc1212bf5b07c3b6bcca61bf30d2f5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 29/41] fix: a comment before any move does not make the arc
 optimizer fail

---
 gcodeutils/filter/arc_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..15a23a1 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -333,7 +333,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None:
+            if len(self.queue) == 0:
+                # nothing pending, and a comment has no position of its own
+                return opcode
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From e580c009aec199a4948f49208c3abc5621f4efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 30/41] fix: aligned points and extrusion without movement do
 not make the arc optimizer fail

---
 gcodeutils/filter/arc_optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 15a23a1..fbb07a6 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -147,7 +147,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        determinant = ((-(suv * suv)) / suu) + svv
+        if abs(determinant) < EPSILON:
+            # all points are on a line
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / determinant
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -249,7 +253,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
-- 
2.43.0


From 169f9dfb685d14df1bf8e10c219d80072fb037de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 31/41] fix: every vertex of an arc is passed in the direction
 of the arc, in less than one turn

---
 gcodeutils/filter/arc_optimizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index fbb07a6..8d04720 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -215,7 +215,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        if any([error > PHASE_ERROR for error in angle_err]):
+            return True, circle
+        phase_diffs = self.get_phase_diffs(circle)
+        circle.direction = sum(phase_diffs)
+        if abs(circle.direction) < EPSILON or abs(circle.direction) > 2 * cmath.pi + EPSILON:
+            return True, circle
+        return any([phase_diff * circle.direction < 0 for phase_diff in phase_diffs]), circle
 
     def get_distances(self):
         """
-- 
2.43.0


From 9e1d1d39218b5d6c73f38809d88f845530154845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 32/41] fix: arcs can be made of moves that do not extrude

---
 gcodeutils/filter/arc_optimizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8d04720..7bd4d6f 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -298,7 +298,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
+        extruding = self.queue[1].e is not None
+        extrusions = self.get_distances() if extruding else None
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
@@ -306,12 +307,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if not extruding:
+            pass
+        elif end_point.relative_e:
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
             # resulting arc extrusion is s0*b/s
-            op1.e = sum([ s0*(circle.radius*alpha)/(2*circle.radius*sin(alpha/2))
+            op1.e = sum([ s0*(circle.radius*alpha)/(2*circle.radius*sin(alpha/2)) if alpha else s0
                   for s0, alpha in zip(extrusions['filament'].values(), self.get_phase_diffs(circle))])
             op1.relative_e = True
         else:
-- 
2.43.0


From a1ff87e1499b1b5321daad0402d59ce0747e6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 33/41] fix: clockwise arcs do not retract in absolute
 extrusion mode

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 7bd4d6f..b8b139f 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -320,7 +320,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         else:
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e=self.queue[0].current_e+arc_extrusion_length
             op1.relative_e=False
-- 
2.43.0


From 9c0bb579cfc49ea28c991f1decc115f53bc5837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 34/41] fix: arcs start at the height of the moves they replace

---
 gcodeutils/filter/arc_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index b8b139f..f01d8ea 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -271,11 +271,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         # check from 1 as idx 0 indicates the move to the start point
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
-        cur_z = self.queue[1].current_z
+        cur_z = self.queue[0].current_z
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-        valid_z = all([line.current_z == cur_z for line in self.queue[1:]])
+        valid_z = all([line.current_z == cur_z for line in self.queue])
         if not (valid_e and valid_f and valid_z):
             return True, None
         if all_e:
-- 
2.43.0


From 389e8df72aed60ba71b8ed704eab04d3e8a1da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 35/41] fix: arcs do not replace other arcs

---
 gcodeutils/filter/arc_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index f01d8ea..8630e37 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -359,7 +359,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         self.queue.append(opcode)
         count = len(self.queue)
         if count > MIN_SEGMENTS:
-            if not self.queue[-1].command in move_gcodes:
+            if not self.queue[-1].command in linear_move_gcodes:
                 if self.valid_circle:
                     # the last element inserted invalidated the circle, so process & flush
                     result = self.to_gcode()
@@ -383,7 +383,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                     self.valid_circle = True
                     return []
         else:
-            if self.queue[-1].command in move_gcodes or self.queue[-1].command is None:
+            if self.queue[-1].command in linear_move_gcodes or self.queue[-1].command is None:
                 return []
             else:
                 # flush the queue as we have a GCode resetting the processing
-- 
2.43.0


From 70b64cc0081653b1c0df6051955553a1c5aa46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 36/41] fix: no feed rate is written on an arc when the program
 gives none

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8630e37..6d3b334 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -332,7 +332,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        op1.f = end_point.current_f or None
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From 99b3aec8028dc1329966dd9b5cf852fd9dddaec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 37/41] fix: arcs end at the replaced point in relative mode,
 after a G92 and in inches

---
 gcodeutils/filter/arc_optimizer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 6d3b334..ea3e00e 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -303,8 +303,17 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1 = Line()
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        op1.imperial = end_point.imperial
+        if end_point.relative:
+            op1.x = round(circle.end.x - circle.start.x, 3)
+            op1.y = round(circle.end.y - circle.start.y, 3)
+        else:
+            # positions are counted from the machine origin, words from the last G92
+            for line in self.queue[1:]:
+                if line.x is not None:
+                    op1.x = round(circle.end.x - (line.current_x - line.x), 3)
+                if line.y is not None:
+                    op1.y = round(circle.end.y - (line.current_y - line.y), 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if not extruding:
@@ -328,6 +337,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
+                op2.imperial = end_point.imperial
                 op2.e = op2.current_e = end_point.current_e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
-- 
2.43.0


From 109abdf36db6749efd202f5846f2844e6a728fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 38/41] fix: the arc optimizer can be used for several programs

---
 gcodeutils/filter/arc_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index ea3e00e..f789b12 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -120,6 +120,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             self.parse_layer(layer, opcode_filter)
         if len(self.queue) > 0:
             layer += self.queue
+        self.queue = []
+        self.valid_circle = False
 
     def get_circle_least_squares(self):
         """
-- 
2.43.0


From c134920e7b6f77ce1a58b8a433e80fe6d43723b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 39/41] fix: an empty Cura section does not turn the next one
 into a loop

---
 gcodeutils/stretch/stretch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 28a7bac..48d0b59 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -696,7 +696,9 @@ class CuraStretchFilter(StretchFilter):
                     line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
                 if next_line_marker is not None:
-                    self.new_perimeter(line, *next_line_marker)
+                    # a section without any line has no loop
+                    if ';TYPE:' not in line.raw:
+                        self.new_perimeter(line, *next_line_marker)
                     next_line_marker = None
 
                 # checking perimeter type
-- 
2.43.0


From f4c1983ad3d4d8ca6dc928a6c26df562718cbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 40/41] fix: the Cura profile is read even when its line ends a
 loop

---
 gcodeutils/stretch/stretch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 48d0b59..18c6b2a 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -686,6 +686,11 @@ class CuraStretchFilter(StretchFilter):
 
             for line_idx, line in enumerate(self.current_layer):
 
+                # checking for edge width, before any marker is added to the line
+                match = self.CURA_PROFILE_REGEXP.match(line.raw)
+                if match:
+                    edge_width_found = self.parse_cura_profile(match.group(1))
+
                 # checking extrusion
                 if not extruding and line.command in linear_move_gcodes and line.e is not None:
                     extruding = True
@@ -721,11 +726,6 @@ class CuraStretchFilter(StretchFilter):
                 if line_idx == len(self.current_layer) - 1:
                     self.stop_loop(line)
 
-                # checking for edge width
-                match = self.CURA_PROFILE_REGEXP.match(line.raw)
-                if match:
-                    edge_width_found = self.parse_cura_profile(match.group(1))
-
         if not edge_width_found:
             logging.warn("no edge width found in comments, picking a default value")
             self.set_edge_width(0.4)
-- 
2.43.0


From 44c117a552ba9a75919c52681a30aff565e839b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 41/41] fix: a layer at height zero can be part of the
 temperature gradient

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index d262150..c53b2ff 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -85,7 +85,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
             if layer:
                 self.current_z = layer[0].current_z
 
-                if self.current_z and self.zmin <= self.current_z <= self.zmax:
+                if self.current_z is not None and self.zmin <= self.current_z <= self.zmax:
 
                     raw_target_temp = self.get_temp_for_current_layer()
                     if raw_target_temp is not None:
-- 
2.43.0

