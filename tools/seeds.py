# ---- C01
seed('c01-inch-offset', 'C01', G, '                    if line.x is not None: offset_x = current_x - line.x',
     '                    if line.x is not None: offset_x += current_x - offset_x - line.x if not relative else current_x - line.x', '''
g = GCode(['G1 X10', 'G92 X4', 'G91', 'G92 X1', 'G90', 'G1 X1'])
assert close(g.lines[-1].current_x, 10), g.lines[-1].current_x
''', 'a second G92 X while relative positioning is selected and an X offset is already set', 'the X offset accumulates instead of being redefined')
seed('c01-relative-f-inch', 'C01', G, "                if line.command[0] == \"G\":\n", "                if line.command[0] == \"G\" and line.command != \"G28\":\n", '''
g = GCode(['G1 X5 Y5', 'G92 X1', 'G28 X0', 'G1 Y3', 'G1 X2'])
assert [close(l.current_x, v) for l, v in zip(g.lines, [5, 5, 0, 0, 2])] == [True] * 5
h = GCode(['G20', 'G28', 'G1 X1'])
assert h.lines[1].imperial == h.lines[2].imperial
l = h.lines[1]; assert l.imperial, 'unit of the homing line'
''', 'an inch program with a homing command', 'the unit is not recorded on G28 lines')
SEEDS.pop()
seed('c01-home-z', 'C01', G, '                        current_z = self.home_z', '                        current_z = self.home_z or current_z * 0', '''
g = GCode(['G1 Z5', 'G28 Z0', 'G91', 'G1 Z1'], home_pos=(0, 0, 10))
assert close(g.lines[-1].current_z, 11)
''', 'x', 'x')
SEEDS.pop()
seed('c01-relative-z-keeps', 'C01', G, '                        z = current_z + (z or 0)', '                        z = current_z + (z or 0) if z is not None or not relative_e else offset_z + (current_z - offset_z if current_z else 0)', '''
g = GCode(['G1 Z2', 'G92 Z0', 'G1 Z-2', 'G91', 'G1 X1'])
assert close(g.lines[-1].current_z, 0), g.lines[-1].current_z
''', 'a relative XY move while the head is exactly at machine height zero with a Z offset in force', 'Z jumps to the offset')
# ---- C02
seed('c02-g90-e', 'C02', G, '                    relative = False\n                    relative_e = False\n', '                    relative_e = relative_e and not relative\n                    relative = False\n', '''
g = GCode(['M83', 'G1 X1 E2', 'G90', 'G1 X2 E3'])
assert close(g.filament_length, 3) , g.filament_length
''', 'M83 followed by G90 without a G91 in force', 'G90 no longer selects absolute extrusion')
seed('c02-max', 'C02', G, '                        max_e = max(max_e, total_e)', '                        max_e = max(max_e, total_e) if line.extruding or line.relative_e else total_e', '''
g = GCode(['M82', 'G1 X1 E10', 'G1 X2 E4'])
assert close(g.filament_length, 10), g.filament_length
''', 'an absolute extrusion program ending on a retraction', 'the filament length drops to the length after the last absolute retraction')
# ---- C03
seed('c03-idx', 'C03', G, '                            layer_id += 1\n', '                            layer_id = len(all_layers) if cur_lines or last_layer_z is None else layer_id + 1\n', '''
g = GCode(['; start'] + ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', 'G92 Z5', 'G1 X3 E3'])
for i, l in enumerate(g.lines):
    a, b = g.idxs(i); assert g.all_layers[a][b] is l
''', 'x', 'x')
SEEDS.pop()
seed('c03-line-idx', 'C03', G, '                            layer_line = 0\n', '                            layer_line = 0 if new_layer or not all_layers else layer_line\n', '''
g = GCode(['G92 Z3', 'G1 X1', 'G1 Z1', 'G1 Z2 X3', 'G1 X5'])
for i, l in enumerate(g.lines):
    a, b = g.idxs(i); assert g.all_layers[a][b] is l, i
assert g.idxs(0) == (1, 0), g.idxs(0)
''', 'x', 'x')
SEEDS.pop()
seed('c03-lost-tail', 'C03', G, '            if cur_lines:\n                new_layer = Layer(cur_lines, prev_z)', '            if cur_lines and (cur_layer_has_extrusion or prev_z is None or prev_z not in all_zs or len(cur_lines) > 1):\n                new_layer = Layer(cur_lines, prev_z)', '''
t = ['G1 Z0.2', 'G1 X1 E1', 'G1 Z5', 'G1 X0', 'G1 Z0.2']
g = GCode(t)
assert [l.raw for layer in g.all_layers for l in layer] == t
''', 'a program whose last layer is one non-extruding line at a height printed before', 'the last line is lost from the layers')
# ---- C04
seed('c04-prepend-order', 'C04', G, '            self.layer_idxs.insert(end_index + i, layer_idx)\n            self.line_idxs.insert(end_index + i, end_line + i + 1)',
     '            self.layer_idxs.insert(end_index, layer_idx)\n            self.line_idxs.insert(end_index, end_line + i + 1)', '''
g = GCode(['G1 Z1', 'G1 X1 E1', 'G1 Z2', 'G1 X2 E2'])
g.prepend_to_layer(['M105', 'M106', 'M107'], 1)
for i, l in enumerate(g.lines):
    a, b = g.idxs(i); assert g.all_layers[a][b] is l, i
''', 'prepending at least two commands in one call, then looking up their index', 'the positions of the last lines of the layer are swapped in the index')
seed('c04-rewrite-blank', 'C04', G, '        self.layer_idxs = self.layer_idxs[:start_index] + array(\'I\', len(commands) * [layer_idx]) + self.layer_idxs[\n', '        self.layer_idxs = self.layer_idxs[:start_index] + array(\'I\', (len(commands) or 1) * [layer_idx]) + self.layer_idxs[\n', '''
g = GCode(['G1 Z1', 'G1 X1 E1', 'G1 Z2', 'G1 X2 E2', 'G1 Z3', 'G1 X3 E1'])
g.rewrite_layer(['', '  '], 1)
for i, l in enumerate(g.lines):
    a, b = g.idxs(i); assert g.all_layers[a][b] is l, i
''', 'rewriting a layer with nothing but blank commands, then looking up a later line', 'the layer index keeps one entry for the removed layer')
# ---- C05
seed('c05-e-digits', 'C05', G, '            format += " {}{:.5f}" if bit == \'e\' else " {}{:.3f}"', '            format += " {}{:.5f}" if bit == \'e\' and line.command != "G92" else " {}{:.3f}"', '''
l = raw_to_line('G92 E1.23456'); parse_coordinates(l, split(l)); unsplit(l)
assert l.raw == 'G92 E1.23456', l.raw
''', 'rewriting a G92 with a fifth E decimal', 'E is written with three decimals')
seed('c05-zero', 'C05', G, '        if getattr(line, bit) is not None:\n            format', '        if getattr(line, bit) is not None and (getattr(line, bit) or bit not in "ij"):\n            format', '''
l = raw_to_line('G2 X1 Y2 I0 J3'); parse_coordinates(l, split(l)); unsplit(l)
assert l.raw == 'G2 X1.000 Y2.000 I0.000 J3.000', l.raw
''', 'an arc whose I or J is zero', 'the zero centre offset disappears from the text')
# ---- C06
seed('c06-j', 'C06', G, '            if math.fabs(selfbit - otherbit) > self.EQ_EPSILON:', '            if (selfbit - otherbit if bit in "ij" else math.fabs(selfbit - otherbit)) > self.EQ_EPSILON:', '''
a, b = GCode(['G2 X1 I1']), GCode(['G2 X1 I2'])
assert a != b if hasattr(GCode, '__ne__') else True
assert not (a == b) and not (b == a)
assert a.diff(b) is not None and b.diff(a) is not None
''', 'an arc centre smaller in the left program than in the right one', 'the comparison is not symmetric')
seed('c06-command-none', 'C06', G, '            if selfbit is not None and otherbit is None:\n                return False', '            if selfbit is not None and otherbit is None and (bit != \'f\' or self.is_move):\n                return False', '''
a, b = GCode(['G92 X1 F5']), GCode(['G92 X1'])
assert not (a == b) and not (b == a)
''', 'a feed word on a command that is not a move, only in the left program', 'a missing word is ignored')
# ---- C07
seed('c07-y-only', 'C07', 'gcodeutils/filter/translate.py', '            if opcode.y is not None and self.translate_y:', '            if opcode.y is not None and self.translate_y and (opcode.x is not None or not self.translate_x or opcode.z is None):', '''
from gcodeutils.filter.translate import GCodeXYTranslateFilter
g = GCode(['G90', 'G1 X1 Y1', 'G1 Y2 Z3'])
GCodeXYTranslateFilter(x=10, y=20).filter(g)
assert GCode(out(g)).lines[2].current_y == 22
''', 'an absolute move naming Y and Z but not X, translated in both axes', 'Y is not shifted')
# ---- C08
seed('c08-g92', 'C08', 'gcodeutils/filter/relative_extrusion.py', '            elif opcode.x is None and opcode.y is None and opcode.z is None:', '            elif opcode.x is None and opcode.y is None:', '''
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
g = GCode(['M82', 'G1 X1 E5', 'G92 Z0', 'G1 X2 E7'])
GCodeToRelativeExtrusionFilter().filter(g)
assert close(g.lines[3].e, 2), g.lines[3].e
''', 'G92 Z in the middle of an absolute extrusion program', 'the E position is forgotten')
# ---- C09
seed('c09-empty', 'C09', 'gcodeutils/filter/filter.py', '            if opcode_filter_result is not None:\n', '            if opcode_filter_result is not None and opcode_filter_result != []:\n', '''
from gcodeutils.filter.filter import GCodeFilter
class F(GCodeFilter):
    def opcode_filter(self, o):
        return [] if o.command == 'M106' else None
g = GCode(['G1 X1', 'M106', 'G1 X2'])
F().filter(g)
assert out(g) == ['G1 X1', 'G1 X2']
''', 'a filter that removes a line by answering an empty list', 'the line stays')
seed('c09-dirty', 'C09', 'gcodeutils/filter/filter.py', '        if dirty_layer:\n', '        if dirty_layer and len(new_layer):\n', '''
from gcodeutils.filter.filter import GCodeFilter
class F(GCodeFilter):
    def opcode_filter(self, o):
        return [] if o.command == 'M84' else None
g = GCode(['G1 X1', 'G1 Z1', 'G1 X2 E1', 'G1 Z5', 'M84'])
h = GCode(['M84'])
F().filter(h)
assert out(h) == []
''', 'a filter that removes every line of a layer', 'the layer keeps all its lines')
# ---- C10
seed('c10-z', 'C10', 'gcodeutils/stretch/stretch.py', '        result.z = original_line.z', '        result.z = original_line.z or None', '''
from gcodeutils.stretch.stretch import CuraStretchFilter
t = ['G90', 'M83', 'G1 Z0 F300', ';TYPE:WALL-OUTER', 'G1 X0 Y0 Z0', 'G1 X10 Y0 Z0 E1', 'G1 X10 Y10 E1', 'G1 X0 Y10 E1', ';TYPE:FILL', 'G1 X1 Y1']
g = GCode(t)
CuraStretchFilter().filter(g)
assert all((a.z is None) == ('Z' not in b) for a, b in zip([l for y in g.all_layers for l in y], t))
''', 'a stretched move that names Z0', 'the zero Z word is dropped')
seed('c10-e0', 'C10', 'gcodeutils/stretch/stretch.py', '        if original_line.e is not None:\n            result.e', '        if original_line.e:\n            result.e', '''
from gcodeutils.stretch.stretch import CuraStretchFilter
t = ['G90', 'M83', 'G1 Z0.2 F300', ';TYPE:WALL-OUTER', 'G1 X0 Y0', 'G1 X10 Y0 E0', 'G1 X10 Y10 E1', 'G1 X0 Y10 E1', ';TYPE:FILL', 'G1 X1 Y1']
g = GCode(t)
CuraStretchFilter().filter(g)
assert all((a.e is None) == (' E' not in b) for a, b in zip([l for y in g.all_layers for l in y], t))
''', 'a stretched move with E0', 'the E word disappears')
# ---- C11
seed('c11-clamp', 'C11', 'gcodeutils/stretch/stretch.py', '        if relativeStretchLength > 1.0:\n            relativeStretch /= relativeStretchLength', '        if relativeStretchLength > 1.5:\n            relativeStretch /= relativeStretchLength', '''
from gcodeutils.stretch.stretch import CuraStretchFilter
import math
t = ['G90', 'M83', 'G1 Z0.2 F300', ';TYPE:WALL-INNER', 'G1 X50 Y50', 'G1 X60 Y50 E1', 'G1 X50 Y50.2 E1', 'G1 X60 Y50.4 E1', 'G1 X50 Y50.6 E1', ';TYPE:FILL', 'G1 X1 Y1']
g = GCode(t); b = GCode(t)
CuraStretchFilter().filter(g)
A = [l for y in g.all_layers for l in y]; B = [l for y in b.all_layers for l in y]
d = max(math.hypot(p.x - q.x, p.y - q.y) for p, q in zip(A, B) if q.command == 'G1' and q.x is not None)
assert d <= 0.4 * 0.32 + 0.001, d
''', 'a hairpin whose two sides pull in nearly the same direction', 'the displacement exceeds the setting by up to a half')
seed('c11-ratio', 'C11', 'gcodeutils/stretch/stretch.py', '        self.loopMaximumAbsoluteStretch = self.edgeWidth * self.stretchRepository.loopStretchOverEdgeWidth', '        self.loopMaximumAbsoluteStretch = max(self.edgeWidth, 0.4) * self.stretchRepository.loopStretchOverEdgeWidth', '''
from gcodeutils.stretch.stretch import SkeinforgeStretchFilter
import math
f = SkeinforgeStretchFilter(); f.set_edge_width(0.2)
assert close(f.loopMaximumAbsoluteStretch, 0.2 * 0.11)
''', 'an edge width below 0.4 mm and an extra loop', 'extra loops are stretched with a width of 0.4')
# ---- C12
seed('c12-cura', 'C12', 'gcodeutils/stretch/stretch.py', '            if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:\n                return lineIndex - 1', '            if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:\n                return lineIndex', '''
from gcodeutils.stretch.stretch import CuraLineIteratorBackward
ls = [raw_to_line(t) for t in ['G1 X0 ; stretch-loop-start', 'G1 X1', 'G1 X2 ; stretch-loop-stop']]
for l in ls: parse_coordinates(l, split(l))
it = CuraLineIteratorBackward(-1, ls)
assert it.get_next() is ls[1]
''', 'x', 'x')
SEEDS.pop()
seed('c12-y', 'C12', 'gcodeutils/stretch/stretch.py', '            if line.command in linear_move_gcodes and (line.x is not None or line.y is not None):\n                self', '            if line.command in linear_move_gcodes and (line.x is not None or line.y is not None or line.z is not None):\n                self', '''
from gcodeutils.stretch.stretch import LineIteratorForward
ls = [raw_to_line(t) for t in ['G1 X0', 'G1 Z5', 'G1 X2']]
for l in ls: parse_coordinates(l, split(l))
assert LineIteratorForward(1, ls).get_next() is ls[2]
''', 'a height change between two points of a loop', 'the Z only move is returned as a point')
# ---- C13
seed('c13-round', 'C13', 'gcodeutils/gcode_tempcal.py', '        return self.start_temp + self.delta_temp_per_z * (self.current_z - self.zmin)', '        return self.start_temp + self.delta_temp_per_z * (self.current_z - min(self.zmin, self.min_z_change))', '''
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient as C
t = ['G90', 'M83'] + sum([['G1 Z%.1f' % z, 'G1 X1 E1', 'G1 X5 E1'] for z in (0.3, 0.6, 0.9, 1.2)], [])
o = io.StringIO(); C(gcode=GCode(t), start_temp=240, end_temp=200, min_z_change=0.1, steps=1).write(o)
ts = [float(l[6:]) for l in o.getvalue().split('\\n') if l.startswith('M104')]
assert ts[0] == 240 and ts[-1] == 200, ts
''', 'a continuous gradient whose first layer is higher than min_z_change', 'the temperature overshoots the end temperature')
seed('c13-max', 'C13', 'gcodeutils/gcode_tempcal.py', '        if self.ABSOLUTE_MIN_TEMPERATURE <= temperature <= self.ABSOLUTE_MAX_TEMPERATURE:', '        if self.ABSOLUTE_MIN_TEMPERATURE <= temperature < self.ABSOLUTE_MAX_TEMPERATURE + 0.5:', '''
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient as C
t = ['G90', 'M83'] + sum([['G1 Z%.1f' % z, 'G1 X1 E1', 'G1 X5 E1'] for z in (0.2, 1.2, 5.3, 10.2)], [])
o = io.StringIO(); C(gcode=GCode(t), start_temp=240, end_temp=260, min_z_change=0.1, steps=1).write(o)
ts = [float(l[6:]) for l in o.getvalue().split('\\n') if l.startswith('M104')]
assert ts and all(150 <= x <= 250 for x in ts), ts
''', 'a gradient that passes between 250 and 250.5 degrees at some layer', 'a temperature above the safe maximum is inserted')
# ---- C14
seed('c14-zmax', 'C14', 'gcodeutils/gcode_tempcal.py', '                        if target_temp != self.last_target_temperature:', '                        if target_temp != self.last_target_temperature or layer_idx == 0:', '''
''', 'x', 'x')
SEEDS.pop()
seed('c14-strip', 'C14', 'gcodeutils/gcode_tempcal.py', '                for line in layer:\n                    print(line.raw, file=output_file)', '                for line in layer:\n                    if line.command != "M104" or self.last_target_temperature is None:\n                        print(line.raw, file=output_file)', '''
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient as C
t = ['G90', 'M83', 'M104 S200'] + sum([['G1 Z%.1f' % z, 'G1 X1 E1', 'G1 X5 E1'] for z in (0.2, 1.2, 2.2, 10.2)], []) + ['M104 S0']
o = io.StringIO(); C(gcode=GCode(t), start_temp=240, end_temp=200, min_z_change=0.1, steps=1).write(o)
assert o.getvalue().strip().endswith('M104 S0')
''', 'a program with its own temperature command after the gradient started', 'the command of the program is removed')
# ---- C15
seed('c15-twice', 'C15', 'gcodeutils/visit/pause_at_layer.py', '            gcode.prepend_to_layer(commands_to_prepend, layer_index)', '            gcode.prepend_to_layer(commands_to_prepend * self.__pause_layer_list.count(gcode_iterator_info.layer_number), layer_index)', '''
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer
g = GCode(['G90', 'M83', 'G1 Z1', 'G1 X1 E1', 'G1 Z2', 'G1 X2 E1'])
GCodeIterator(g).accept(PauseAtLayer([1, 1]))
assert sum(l == 'M226' for l in out(g)) == 1
''', 'a layer number given twice', 'two pauses are inserted')
seed('c15-none', 'C15', 'gcodeutils/visit/pause_at_layer.py', '        should_pause = is_printed and is_pause_layer', '        should_pause = is_pause_layer and (is_printed or layer_as_pyline_list.z is not None)', '''
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer
g = GCode(['G90', 'M83', 'G1 Z0.3', 'G1 X1 E1', 'G1 Z3', 'G1 X2', 'G1 Z0.6', 'G1 X1 E1', 'G1 Z0.9', 'G1 X5 E1'])
n = out(g)
GCodeIterator(g).accept(PauseAtLayer([2]))
o = out(g)
assert o.count('M226') == 1 and o[o.index('M226') + 1] == 'G1 Z0.9', o
''', 'a travel layer whose parsed number is the requested printed number', 'a layer that is not printed is paused')
# ---- C16
seed('c16-count', 'C16', 'gcodeutils/visit/iterator.py', '                parsed_line_number += 1\n', '                parsed_line_number += 1 if line.command is not None or is_printed else 0\n', '''
from gcodeutils.visit.iterator import GCodeIterator
seen = []
class V(object):
    def will_visit_layer(self, l, i): pass
    def did_visit_layer(self, l, i): pass
    def visit_line(self, l, i): seen.append(i.line_number)
GCodeIterator(GCode(['; start', 'G1 X1', 'G1 Z1 X2'])).accept(V())
assert seen == [0, 1, 2], seen
''', 'a comment in a layer that is not printed', 'the running line number stands still')
# ---- C17
seed('c17-flush', 'C17', 'gcodeutils/filter/arc_optimizer.py', '            layer += self.queue\n', '            layer += self.queue if self.queue[0].is_move else self.queue[1:]\n', '''
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
t = ['G90', 'M83', 'G1 X1 Y1', '; last']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g) == t
import math
t = ['G90', 'M83'] + ['G1 X%.3f Y%.3f E0.1' % (50 + 10 * math.cos(a / 3.), 50 + 10 * math.sin(a / 3.)) for a in range(12)] + ['; one', '; two']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g)[-2:] == t[-2:], out(g)
''', 'x', 'x')
SEEDS.pop()
seed('c17-min', 'C17', 'gcodeutils/filter/arc_optimizer.py', '        if count > MIN_SEGMENTS:\n', '        if count > MIN_SEGMENTS - (self.queue[0].command is None):\n', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
''', 'x', 'x')
SEEDS.pop()
seed('c17-pop', 'C17', 'gcodeutils/filter/arc_optimizer.py', '                        self.queue = [result.pop()]\n', '                        self.queue = [result.pop()] if result[-1].e is None or result[-1].relative_e else result[-1:]\n', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
t = ['G90', 'M82', 'G92 E0'] + ['G1 X%.3f Y%.3f E%.3f' % (50 + 10 * math.cos(a / 3.), 50 + 10 * math.sin(a / 3.), a * .3) for a in range(12)] + ['G1 X0 Y0 E6', 'G1 X1 Y0 E6.1', 'M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g).count('G1 X0 Y0 E6') == 1, out(g)
''', 'an arc ended by an extruding move in absolute extrusion mode', 'the move after the arc appears twice')
# ---- C18
seed('c18-radius', 'C18', 'gcodeutils/filter/arc_optimizer.py', '        if any([error > ALIGNMENT_ERROR for error in radius_err]):', '        if any([error > ALIGNMENT_ERROR for error in radius_err[:-1]]):', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
ps = [(50 + 10 * math.cos(a / 6.), 50 + 10 * math.sin(a / 6.)) for a in range(20)]
ps.append((50 + 10.04 * math.cos(20 / 6.), 50 + 10.04 * math.sin(20 / 6.)))
t = ['G90', 'M83'] + ['G1 X%.4f Y%.4f E0.1' % p for p in ps] + ['M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
o = out(g)
for i, l in enumerate(o):
    if l[:2] in ('G2', 'G3'):
        w = GCode(t).lines
        a = GCode(o).lines[i]; s = GCode(o).lines[i - 1]
        cx, cy = s.current_x + a.i, s.current_y + a.j
        r = math.hypot(a.i, a.j)
        assert abs(math.hypot(a.current_x - cx, a.current_y - cy) - r) < 0.032, (r, math.hypot(a.current_x - cx, a.current_y - cy))
''', 'a run whose last point is off the circle, followed by a command that is not a move', 'the off-circle point is swallowed by the arc')
seed('c18-z', 'C18', 'gcodeutils/filter/arc_optimizer.py', '        if not (valid_e and valid_f and valid_z):', '        if not (valid_e and valid_f and (valid_z or not all_e)):', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
ps = [(50 + 10 * math.cos(a / 6.), 50 + 10 * math.sin(a / 6.)) for a in range(12)]
t = ['G90', 'M83', 'G1 Z0.2'] + ['G1 X%.4f Y%.4f F3000' % p for p in ps[:-1]] + ['G1 X%.4f Y%.4f Z0.3 F3000' % ps[-1], 'M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g)[-2] == t[-2], out(g)
''', 'a run of travel moves whose last move changes the height', 'the height change is lost')
# ---- C19
seed('c19-limit', 'C19', 'gcodeutils/filter/arc_optimizer.py', '            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:', '            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT * max(1, extrusions[\'total\'][\'filament\']):', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
ps = [(50 + 10 * math.cos(a / 1.6), 50 + 10 * math.sin(a / 1.6)) for a in range(10)]
t = ['G90', 'M82', 'G92 E0', 'G1 X60 Y50'] + ['G1 X%.4f Y%.4f E%.5f' % (x, y, 3.1 * (i + 1)) for i, (x, y) in enumerate(ps[1:])] + ['M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
o = out(g)
k = [i for i, l in enumerate(o) if l.startswith('G3')]
assert k and o[k[0] + 1].startswith('G92 E'), o
''', 'an absolute extrusion arc that feeds a lot of filament with coarse segments', 'the E reset is missing')
# ---- second round
seed('c03-first-layer', 'C03', G, '''                            layerbeginduration = totalduration
                            all_layers.append(new_layer)
''', '''                            layerbeginduration = totalduration
                            if cur_lines:
                                all_layers.append(new_layer)
''', '''
g = GCode(['G1 X1 Y1 Z0.2', 'G1 X5 Y5', 'G1 Z0.4', 'G1 X2'])
for i, l in enumerate(g.lines):
    a, b = g.idxs(i)
    assert g.all_layers[a][b] is l, (i, a, b)
''', 'a program whose very first line already names a height', 'the index addresses the layer after the right one')
seed('c10-g0', 'C10', 'gcodeutils/stretch/stretch.py', '        result.command = original_line.command', "        result.command = 'G1'", '''
from gcodeutils.stretch.stretch import CuraStretchFilter, StretchFilter
class F(StretchFilter):
    def setup_filter(self):
        self.set_edge_width(0.5)
t = ['G90', 'G1 Z0.2 F900', 'G1 X0 Y0', ';stretch-loop-start', 'G0 X10 Y0', 'G1 X10 Y10 E1', 'G1 X0 Y10 E2', 'G0 X0 Y0', ';stretch-loop-stop', 'G1 X50']
g = GCode(t); F().filter(g)
assert [l.command for layer in g.all_layers for l in layer] == [l.command for l in GCode(t).lines]
''', 'a travel move (G0) inside a loop', 'it becomes a G1')
seed('c11-clamped-e', 'C11', 'gcodeutils/stretch/stretch.py', '            result.e = original_line.e * (1 - abs(absoluteStretch))', '            result.e = original_line.e * (1 - relativeStretchLength * self.thread_maximum_absolute_stretch)', '''
import math
from gcodeutils.stretch.stretch import StretchFilter
class F(StretchFilter):
    def setup_filter(self):
        self.set_edge_width(0.5)
t = ['G90', 'G1 Z0.2 F900', 'G1 X0 Y0.01 E1', ';stretch-loop-start', ';stretch-extrusion-on', 'G1 X0 Y0 E1', 'G1 X20 Y0 E2', 'G1 X0 Y0.02 E3', ';stretch-extrusion-off', ';stretch-loop-stop', 'G1 X50']
g = GCode(t); F().filter(g)
for a, b in zip(GCode(t).lines[3:8], [l for layer in g.all_layers for l in layer][3:8]):
    if a.x is not None and b.f is not None:
        d = math.hypot(a.x - b.x, a.y - b.y)
        assert abs(b.e - a.e * (1 - d)) < 3e-3, (b.raw, d)
''', 'a hairpin whose two sides pull in nearly the same direction, so that the displacement is limited', 'the extrusion is reduced by more than the displacement')
seed('c12-arc', 'C12', 'gcodeutils/stretch/stretch.py', '            if line.command in linear_move_gcodes and (line.x is not None or line.y is not None):\n                self.logger.debug("found', '            if line.command in move_gcodes and (line.x is not None or line.y is not None):\n                self.logger.debug("found', '''
from gcodeutils.stretch.stretch import LineIteratorForward
g = GCode(['G90', 'G1 X1 Y1', 'G2 X2 Y2 I1 J0', 'G1 X3 Y3'])
it = LineIteratorForward(2, g.lines)
assert it.get_next() is g.lines[3]
''', 'an arc between two points of a loop', 'the arc is returned as a point')
seed('c12-negative', 'C12', 'gcodeutils/stretch/stretch.py', '        return 0 <= self.line_index < len(self.lines)', '        return self.line_index < len(self.lines)', '''
from gcodeutils.stretch.stretch import LineIteratorBackward
g = GCode(['; start', 'M107', 'G1 X1 Y1', 'G1 X2 Y2', 'G1 X3 Y3'])
it = LineIteratorBackward(2, g.lines)
seen = []
try:
    for i in range(50):
        seen.append(it.get_next())
except StopIteration:
    pass
assert len(seen) == 1, [l.raw for l in seen]
''', 'a backward walk that reaches the start of a layer without a loop marker', 'the walk goes on from the end of the layer')
seed('c16-empty', 'C16', 'gcodeutils/visit/iterator.py', '''        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
''', '''        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
            if not parsed_layer:
                continue
''', '''
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.visitor import GCodeVisitor
class V(GCodeVisitor):
    log = []
    def will_visit_layer(self, l, i): self.log.append(l)
g = GCode(['G1 X1 Y1 Z0.2 E1', 'G1 X5 Y5 E2'])
v = V(); GCodeIterator(g).accept(v)
assert len(v.log) == len(g.all_layers) and all(a is b for a, b in zip(v.log, g.all_layers))
''', 'a layer without lines', 'the layer hooks are not called for it')
seed('c17-tail', 'C17', 'gcodeutils/filter/arc_optimizer.py', '        if len(self.queue) > 0:\n            layer += self.queue', '        if len(self.queue) >= MIN_SEGMENTS:\n            layer += self.queue', '''
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
t = ['G90', 'M83', 'G1 X1 Y1', 'G1 X2 Y1 E1', 'G1 X2 Y2 E1']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g) == t, out(g)
''', 'a program ending with fewer than eight moves', 'the last moves are lost')
seed('c18-inside', 'C18', 'gcodeutils/filter/arc_optimizer.py', '            errors.append(abs(length - circle.radius))', '            errors.append(length - circle.radius)', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
ps = [(50 + (10 - (0.06 if a == 6 else 0)) * math.cos(a / 6.), 50 + (10 - (0.06 if a == 6 else 0)) * math.sin(a / 6.)) for a in range(12)]
t = ['G90', 'M83', 'G1 Z0.2'] + ['G1 X%.4f Y%.4f F3000' % p for p in ps] + ['M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert out(g) == t, out(g)
''', 'a run with one vertex well inside the circle', 'the vertex is swallowed by the arc')
seed('c18-under', 'C18', 'gcodeutils/filter/arc_optimizer.py', "            valid = all(abs((curext / extrusions['avg']['ratio']) - 1) < EXTRUSION_ERROR for curext in", "            valid = all((curext / extrusions['avg']['ratio']) - 1 < EXTRUSION_ERROR for curext in", '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
ps = [(50 + 10 * math.cos(a / 6.), 50 + 10 * math.sin(a / 6.)) for a in range(14)]
t = ['G90', 'M83', 'G1 Z0.2'] + ['G1 X%.4f Y%.4f E%.3f F3000' % (p + (0.03 if i == 5 else 0.1,)) for i, p in enumerate(ps)] + ['M84']
g = GCode(t); GCodeArcOptimizerFilter().filter(g)
assert t[8] in out(g), out(g)
''', 'a run in which one move feeds much less than the others', 'the weak move is averaged away by the arc')
seed('c20-eq-repr', 'C20', 'gcodeutils/stretch/vector3.py', '        return self.x == other.x and self.y == other.y and self.z == other.z\n\n    def __floordiv__', '        return self.__repr__() == other.__repr__()\n\n    def __floordiv__', '''
from gcodeutils.stretch.vector3 import Vector3
assert Vector3(1, 2, 3) == Vector3(1.0, 2.0, 3.0)
assert Vector3(0., 1., 2.) == -Vector3(0., -1., -2.)
''', 'integer components, or a negative zero', 'equal vectors compare different')
seed('c20-ifloor', 'C20', 'gcodeutils/stretch/vector3.py', '        self.z //= other', '        self.z = float(int(self.z / other))', '''
from gcodeutils.stretch.vector3 import Vector3
v = Vector3(-7., -7., -7.); v //= 2
assert v == Vector3(-4., -4., -4.), v
''', 'in-place floor division of a negative z', 'z is rounded towards zero')
seed('c21-elif', 'C21', G, '''                                xmin_e = min(xmin_e, line.current_x)
                                xmax_e = max(xmax_e, line.current_x)
''', '''                                if line.current_x < xmin_e:
                                    xmin_e = line.current_x
                                elif line.current_x > xmax_e:
                                    xmax_e = line.current_x
''', '''
g = GCode(['G90', 'M83', 'G1 Z0.2', 'G1 X50 Y10 E1', 'G1 X40 Y20 E1', 'G1 X30 Y10 E1'])
assert g.xmin == 30 and g.xmax == 50, (g.xmin, g.xmax)
''', 'the largest X is reached by the first extruding moves, which only go down from there', 'the upper X bound is too small')
seed('c21-retract', 'C21', G, '                        cur_layer_has_extrusion |= line.extruding', '                        cur_layer_has_extrusion = line.extruding', '''
g = GCode(['G90', 'M83', 'G1 Z0.2', 'G1 X5 Y5 E1', 'G1 Z0.4', 'G1 X9 Y9 E1', 'G1 E-1', 'G1 Z5', 'G1 X0 Y0'])
assert g.zmax == 0.4, g.zmax
''', 'a layer that ends on a retraction', 'its height is not among the printed heights')
seed('c22-travel', 'C22', G, '''                            new_layer.duration = totalduration - layerbeginduration
                            layerbeginduration = totalduration
                            all_layers''', '''                            new_layer.duration = totalduration - layerbeginduration
                            if cur_layer_has_extrusion:
                                layerbeginduration = totalduration
                            all_layers''', '''
g = GCode(['G90', 'M83', 'G1 X0 Y0 Z5 F600', 'G1 X100 Y0', 'G1 Z0.2', 'G1 X0 Y0 E5', 'G1 Z0.4', 'G1 X100 E5'])
s = sum(l.duration for l in g.all_layers)
assert int(s + 1e-6) == g.duration.seconds, (s, g.duration)
''', 'a layer without extrusion before another layer', 'its duration is counted twice')
