#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    
    if len(title)>80: print(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
G='gcodeutils/gcoder.py'
prop('C01','Parsed head position follows the RepRap motion semantics on every line',
 'After parsing any program, the X/Y/Z position and feed rate recorded on each command line equal those of the reference machine: G20/G21 select inches or millimetres, G90/G91 absolute or relative moves, G0-G3 move, G92 redefines the named axes without moving, G28 homes the named axes (all when none is named) and drops their offset. The machine state kept after the last line is the same reference state.',
 ['inputs','programs'],'every sequence of lines, every combination of present and absent words, every value (reals), any interleaving of mode, unit, offset and homing commands',
 'The tests parse a dozen fixed files and never look at the recorded positions; the guarantee ranges over all interleavings of mode/offset/homing commands.',
 [G],[('state machine over lines','GCode._preprocess')],['line.current_x/y/z/f','GCode.current_*, offset_*'],
 [('current_*, offset_*, relative, imperial','tracked machine state','GCode')])
prop('C02','Parsed extrusion state follows the RepRap extrusion semantics',
 'After parsing any program, the E position recorded on each command line equals the E coordinate in the coordinate system set by the last G92 E, a move is flagged as extruding exactly when it advances the filament, and the filament length reported is the maximum over time of the net filament fed, whatever the mix of absolute/relative extrusion (M82/M83/G90/G91) and G92 resets.',
 ['inputs','programs'],'every sequence of lines, every mix of extrusion modes, resets and values (reals)',
 'No test reads extruding flags, E positions or filament length; real programs reset E with G92 repeatedly, no fixture asserts the effect.',
 [G],[('extrusion bookkeeping','GCode._preprocess')],['line.extruding','line.current_e','GCode.filament_length'],
 [('current_e, offset_e, total_e, max_e','extrusion state','GCode')])
prop('C03','Parsing keeps every line, in order, in exactly one addressable layer',
 'For any input text, the layers built by the parser concatenate to exactly the non-blank input lines, stripped, in order; the (layer, position) index recorded for line number i addresses that very line; and writing the unmodified program reproduces those lines one per output line.',
 ['inputs','programs'],'every sequence of input lines, including blank lines, comments, unparseable lines and every pattern of Z changes',
 'Tests compare only the meaning of commands in a few files and never check the index, comments or layer boundaries.',
 [G],[('layer building and index arrays','GCode._preprocess'),('serialisation','GCode.write')],['GCode.all_layers','GCode.idxs','GCode.write output'])
prop('C04','Editing a layer in place changes that layer only and keeps the line index exact',
 'Prepending commands to a layer, rewriting a layer or appending a command leaves every other line untouched and in order, places exactly the given non-blank commands (stripped, in the given order) at the start of, in place of, or after the program respectively, and leaves the (layer, position) index addressing the right line for every line number.',
 ['inputs','histories'],'every program, every layer holding at least one line, every list of commands, every sequence of such edits',
 'Only one prepend of one command is exercised and only through a textual diff; index arrays are never inspected.',
 [G],[('prepend_to_layer, rewrite_layer, append',G)],['GCode.lines','GCode.all_layers','GCode.idxs'])
prop('C05','Rewriting a line preserves its command, every word it carries, and its comment',
 'Serialising a parsed line yields its command followed by exactly the X Y Z E F I J words that are set, E with 5 decimals and the others with 3, and keeps any trailing semicolon comment; parsing that text back gives the same command and the same words up to that rounding, and absent words stay absent.',
 ['inputs'],'every subset of words, every finite value of each, every comment',
 'Tests serialise a few short lines and never parse the text back; 128 word subsets times all values cannot be sampled.',
 [G],[('unsplit / split / parse_coordinates',G)],['line.raw','re-parsed line attributes'])
prop('C06','Program comparison is exact up to tolerance and agrees with the reported diff',
 'Two programs compare equal exactly when their command lines (comments ignored) are the same in number, order, command and words with each value within the comparison tolerance; comparison is symmetric and holds between a program and itself, and the diff report is empty exactly when the programs compare equal.',
 ['inputs','programs'],'every pair of programs, including ones that are a prefix of the other',
 'Tests compare a handful of same-length files; symmetry and length differences are universally quantified.',
 [G],[('PyLine.__eq__, GCode.__eq__, GCode.diff',G)],['==','GCode.diff'])
prop('C07','XY translation shifts every absolute destination by exactly the requested amount',
 'When a program is translated by (dx, dy), every move made in absolute mode (after a G90) brings each of X and Y it names to the original machine position plus dx or dy (to output precision), whatever relative moves, G92 position resets and G28 homings occur before it. No line is added, removed or reordered, and Z, E, F, I, J words and all other commands keep their meaning.',
 ['inputs','programs','histories'],'every (dx, dy), every program and every history of mode switches, moves, G92 and G28',
 'Two 5-line programs without G92, G91 or G28 are tested.',
 ['gcodeutils/filter/translate.py',G,'gcodeutils/gcode_mod.py'],[('GCodeXYTranslateFilter.opcode_filter','gcodeutils/filter/translate.py')],['line words and raw text after filtering'],
 [('absolute_distance_mode, translate_x/y','mode and remaining translation','GCodeXYTranslateFilter')])
prop('C08','Relative-extrusion conversion preserves the filament fed by every move',
 'After conversion, every move carries as its E word exactly the filament displacement that move caused in the original program (to output precision), whatever mix of absolute and relative extrusion (M82/M83, and G91 in force) and G92 resets precede it; moves without E stay without E. Absolute-extrusion selections become relative-extrusion selections and nothing else about the program changes.',
 ['inputs','programs','histories'],'every program with any history of M82, M83, G90, G91, G92 and moves, all values',
 'Two 5-line programs with a single extrusion mode are tested.',
 ['gcodeutils/filter/relative_extrusion.py',G,'gcodeutils/gcode_mod.py','gcodeutils/gcode_stretch.py'],[('GCodeToRelativeExtrusionFilter.opcode_filter','gcodeutils/filter/relative_extrusion.py')],['line.e and raw text after filtering'],
 [('relative_extrusion, current_extrusion_distance','mode and last absolute E','GCodeToRelativeExtrusionFilter')])
prop('C09','Filters splice their output into the program and leave everything else alone',
 'Running any filter visits every line of every layer exactly once in order; each line for which the filter expresses no opinion stays in place untouched, and each other line is replaced in place by exactly the line or lines the filter returned. Nothing is lost, duplicated, reordered or moved to another layer.',
 ['inputs','programs'],'every program and every filter behaviour (no answer, one line, any list of lines including an empty one) in every combination',
 'The filters tested return only a few shapes of answer on 5-line programs.',
 ['gcodeutils/filter/filter.py'],[('GCodeFilter.parse_gcode / parse_layer','gcodeutils/filter/filter.py')],['GCode.all_layers after filter()'])
prop('C10','Stretching moves only perimeter points and preserves the rest of the program',
 'Stretching changes no line outside the loops announced by the slicer comments, and inside them only linear moves naming X or Y; it keeps the number and order of lines and layers and each command, each Z word and the presence of each E word, and a stretched move runs at the feed rate in force in the original program. Preparing the program for stretching only appends comment text to lines.',
 ['inputs','programs','configurations'],'every program in absolute positioning with any arrangement of markers and settings, for the Slic3r, Cura and Skeinforge dialects',
 'One Skeinforge file is compared; Slic3r and Cura tests only assert that nothing is raised, and feed rates given outside loops are not exercised.',
 ['gcodeutils/stretch/stretch.py'],[('StretchFilter.filter/parse_line/stretch_line','gcodeutils/stretch/stretch.py'),('setup_filter of each dialect','gcodeutils/stretch/stretch.py')],['GCode.all_layers after filter()'])
prop('C11','Stretch displacement and extrusion change are bounded by the settings',
 'A stretched point lies within edge width x (ratio of its loop kind) x stretch strength of the original point in the XY plane, with the inner, outer and extra-loop ratio chosen by the loop marker, and its extrusion is the original one times (1 - displacement). With zero strength no point moves.',
 ['inputs','programs','configurations'],'every geometry of neighbouring points, every edge width, ratio and strength',
 'A single model with default settings is compared with a recorded output.',
 ['gcodeutils/stretch/stretch.py','gcodeutils/stretch/vector3.py'],[('get_stretched_line_from_index_location, get_relative_stretch, get_cross_limited_stretch, set_edge_width','gcodeutils/stretch/stretch.py')],['x, y, e of stretched lines'])
prop('C12','Neighbour search around a loop ends, stays in the layer and yields XY moves',
 'Asking a loop iterator for its next point, from any start inside any layer, always ends: it either returns a linear move of that layer that names X or Y, or reports exhaustion; it never touches a line outside the layer or fails in another way. Over its whole life an iterator yields no line twice, so that a walk from neighbour to neighbour ends too.',
 ['inputs','histories'],'every layer content, every start index next to a line of the layer, any number of consecutive requests, all six iterators',
 'One straight 5-line layer and one of the six iterators are tested.',
 ['gcodeutils/stretch/stretch.py'],[('LineIterator*.get_next / index_setup / reset_index_on_limit','gcodeutils/stretch/stretch.py')],['get_next() results'])
prop('C13','Temperature commands stay in the safe and requested range and follow gradient',
 'Every temperature command inserted by the calibration tool lies within 150-250 degrees and between the start and end temperatures, to a tenth of a degree. The target equals the start temperature at the bottom of the gradient and the end temperature at its top, never moves away from the end temperature as height grows, and in step mode takes only the evenly spaced values start + i*(end-start)/steps.',
 ['inputs','configurations'],'every start/end temperature, number of steps >= 1, gradient height range and layer height',
 'There is no test of the calibration tool at all.',
 ['gcodeutils/gcode_tempcal.py'],[('generate_temperature_gcode, get_temp_for_current_layer, _parse_gcode','gcodeutils/gcode_tempcal.py')],['M104 lines in the output'])
prop('C14','Temperature calibration only inserts commands at layer starts in height range',
 'The calibrated program consists of the original lines, unchanged and in order, plus temperature commands placed only immediately before a layer whose height lies between the lowest layer above the minimum height and the top of the model, and only when the target differs from the previous one.',
 ['inputs','programs','configurations'],'every program, every min_z_change, both gradient kinds',
 'There is no test of the calibration tool at all.',
 ['gcodeutils/gcode_tempcal.py'],[('GCodeTempGradient.write/_parse_gcode','gcodeutils/gcode_tempcal.py')],['written text'])
prop('C15','A pause lands exactly at the start of each layer at the selected printed height',
 'Requesting a pause at layer number n inserts exactly one pause command at the beginning of each layer whose height is the n-th lowest printed height (at the chosen precision), and nowhere else; every other line keeps its place and content. Layers that are not at a printed height are never paused.',
 ['inputs','programs'],'every program and every set of layer numbers, including programs whose layers have identical content',
 'One file and one layer number are tested, and only the presence of the text in a diff message.',
 ['gcodeutils/visit/pause_at_layer.py','gcodeutils/visit/iterator.py',G],[('PauseAtLayer.did_visit_layer','gcodeutils/visit/pause_at_layer.py'),('GCodeIterator.accept','gcodeutils/visit/iterator.py'),('GCode.prepend_to_layer',G)],['GCode.all_layers'])
prop('C16','Visitors see each layer and line exactly once, in order, exactly numbered',
 'Walking a program with a visitor calls, for each layer in order, the before-layer hook, then the line hook once per line in order, then the after-layer hook, and nothing else; the information passed carries the running line number, the position of that very layer in the program, whether it is at a printed height and, if so, the rank of that height.',
 ['inputs','programs'],'every program, including empty layers and layers with identical content, and every visitor that does not edit the program',
 'Only one visitor is run on one file and its callbacks are not checked.',
 ['gcodeutils/visit/iterator.py'],[('GCodeIterator.accept','gcodeutils/visit/iterator.py')],['calls received by the visitor'])
prop('C17','Arc optimisation keeps every line except runs of moves it replaces by one arc',
 'The optimised program is the original sequence of lines, in order and unmodified, except that disjoint runs of at least 8 consecutive lines are each replaced by one arc command, optionally followed by one E position reset; optimisation never fails on a parsed program.',
 ['inputs','programs'],'every parsed program, whatever its moves, comments, layer boundaries and modes',
 'The arc tests of the repository are never collected by the test runner.',
 ['gcodeutils/filter/arc_optimizer.py'],[('GCodeArcOptimizerFilter.opcode_filter/parse_gcode/to_gcode','gcodeutils/filter/arc_optimizer.py')],['GCode.all_layers after filter()'],
 [('queue, valid_circle','pending lines','GCodeArcOptimizerFilter')])
prop('C18','Every emitted arc reproduces the replaced path within tolerance',
 'Each emitted arc starts at the point preceding the replaced run, ends at the last replaced point, has radius at most 200 mm, turns in the direction of travel, lies at constant Z, and its circle passes within 0.015 mm of every replaced vertex; the replaced moves all had one feed rate, the same Z, and either all or none extruded, at a rate per length within 15% of their average.',
 ['inputs','programs'],'every run of moves, all coordinates and extrusions (reals), absolute positioning without coordinate offset',
 'The arc tests of the repository are never collected by the test runner.',
 ['gcodeutils/filter/arc_optimizer.py'],[('queue_valid, get_circle, get_circle_radius_errors, to_gcode','gcodeutils/filter/arc_optimizer.py')],['G2/G3 words'])
prop('C19','Filament bookkeeping is consistent across an emitted arc',
 'In absolute extrusion mode the arc E word is the E position at its start plus arc length times the average extrusion per length, and when this exceeds the original by more than 1% the E position is reset to the original end position right after the arc; in relative mode it is the sum of the original extrusions scaled by arc over chord length.',
 ['inputs','programs'],'every accepted run of extruding moves in either extrusion mode',
 'The arc tests of the repository are never collected by the test runner.',
 ['gcodeutils/filter/arc_optimizer.py'],[('to_gcode, get_distances','gcodeutils/filter/arc_optimizer.py')],['E words of G2/G3 and G92'])
prop('C20','Vector operations obey vector algebra and do not disturb their operands',
 'Sum, difference, negation, scaling, division, dot and cross product, squared and plain distance, reflection, normalisation, component-wise maximum/minimum, copy, equality and axis dropping give the mathematical result for all operands; operators that return a new vector leave their operands unchanged and the in-place ones modify only the left operand.',
 ['inputs'],'all real component values and scalars (non-zero divisors)',
 'Doctests are not run and no test covers the vector class.',
 ['gcodeutils/stretch/vector3.py'],[('Vector3 methods','gcodeutils/stretch/vector3.py')],['return values'])
prop('C21','Reported dimensions bound exactly the extruding positions',
 'For any program that feeds filament, the reported X and Y bounds are the exact minimum and maximum of the head positions at the end of extruding moves, the Z bounds those of the printed heights together with zero, and width, depth and height are the differences.',
 ['inputs','programs'],'every program',
 'No test reads the dimensions.',
 [G],[('bounding box','GCode._preprocess')],['GCode.xmin..zmax, width, depth, height'])
prop('C22','Estimated durations are non-negative and layer durations add up to the total',
 'For any program whose feed rates are positive, each layer duration is non-negative, the layer durations add up to the total estimated time, and dwell commands contribute exactly their stated time.',
 ['inputs','programs'],'every program',
 'No test reads durations.',
 [G],[('duration estimation','GCode._preprocess')],['Layer.duration','GCode.duration'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
