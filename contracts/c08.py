"""C08: conversion to relative extrusion."""
from pydv.rt import driver, bounded, gen, check, assume, close, objects
from gcodeutils.gcoder import GCode, Layer, Line
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from contracts.ref import words, Style, program, layered, num, MOVES
from contracts.cli import run, written
from contracts.lines import LINE, TEXT, parsed

MM = Style(modes=2, emodes=3, g92=3, g28=1, units=0, arcs=0.1, bare92=0.2, pe=0.7)
INCH = Style(modes=2, emodes=3, g92=2, g28=1, units=1, arcs=0.1, pe=0.7)


def any_program(rng):
    r = rng.random()
    return program(rng, MM) if r < 0.65 else program(rng, INCH) if r < 0.8 else layered(rng, hop=0.2)


class Extruder(object):
    """filament displacement of each move; E is relative after M83 and while G91 is in force"""
    def __init__(self):
        self.m83 = self.g91 = self.inch = False
        self.e = 0
        self.fed = None

    def step(self, c, w):
        self.fed = None
        u = 25.4 if self.inch else 1
        if c == 'G20':
            self.inch = True
        elif c == 'G21':
            self.inch = False
        elif c == 'G91':
            self.g91 = True
        elif c == 'G90':
            self.g91 = False
        elif c == 'M83':
            self.m83 = True
        elif c == 'M82':
            self.m83 = False
        elif c == 'G92':
            if w.e is not None:
                self.e = w.e * u
            elif w.x is None and w.y is None and w.z is None:
                self.e = 0
        elif c in MOVES and w.e is not None:
            self.fed = w.e * u if self.m83 or self.g91 else w.e * u - self.e
            self.e = self.e + self.fed


def compare(text, out):
    check(len(out) == len(text), 'no line is added or removed')
    x = Extruder()
    for o, n in zip(text, out):
        c, w = words(o)
        c2, w2 = words(n)
        if c is None:
            check(o == n, 'comments are unchanged')
            continue
        x.step(c, w)
        if c == 'M82':
            check(c2 == 'M83', 'absolute extrusion becomes relative')
            continue
        check(c == c2, 'the command of each line is kept')
        if c not in MOVES:
            check(o == n, 'other lines are unchanged')
            continue
        u = 25.4 if x.inch else 1
        for l in 'xyzefij':
            a, b = getattr(w, l), getattr(w2, l)
            check((a is None) == (b is None), 'words present')
            if l == 'e':
                check(a is None or abs(b * u - x.fed) <= 0.6e-5 * u + 1e-9, 'E is the filament fed by the move')
            else:
                check(a is None or abs(a - b) <= 0.00051, 'other words are kept')


@bounded('C08', runs=900, note='extruder reference on generated programs')
def relative_native():
    text = gen('text', any_program)
    g = GCode(text)
    n = [len(l) for l in g.all_layers]
    GCodeToRelativeExtrusionFilter().filter(g)
    check([len(l) for l in g.all_layers] == n, 'no line changes layer')
    compare(text, written(g))


@bounded('C08', runs=60, note='gcode_mod -e')
def relative_cli_native():
    text = gen('text', any_program)
    assume(text)
    compare(text, run('gcodeutils.gcode_mod', ['-e'], text))


# ---------------------------------------------------------------- all inputs, all lengths
class Spec(object):
    """what the original program feeds, compared to each rewritten line"""
    manual = True

    def __init__(self, f):
        self.f = f
        self.x = Extruder()

    def inv_mode(self):
        return self.f.relative_extrusion == self.x.m83

    def inv_distance(self):
        return self.f.relative_distance_mode == self.x.g91

    def inv_e(self):
        return self.f.current_extrusion_distance == self.x.e

    def step(self, line):
        inch = self.x.inch
        parsed(line, inch)
        raw = line.raw
        c, w = words(raw)
        self.x.step(c, w)
        r = self.f.opcode_filter(line)
        if c == 'M82':
            check(r is not None and r is not line, 'absolute extrusion becomes relative')
            check(r.command == 'M83' and r.raw == 'M83', 'absolute extrusion becomes relative')
            check(line.raw == raw, 'the input line is not altered')
            return r
        check(r is None or r is line, 'no line is added or removed')
        check(line.command == c, 'the command of each line is kept')
        if c not in MOVES:
            check(line.raw == raw, 'other lines are unchanged')
        else:
            w2 = words(line.raw)[1]
            u = 25.4 if inch else 1
            for l in 'xyzfij':
                v, v2 = getattr(w, l), getattr(w2, l)
                check((v is None) == (v2 is None), 'words present')
                if v is not None:
                    check(abs(v2 - v) <= 0.00051, 'other words are kept')
            check((w.e is None) == (w2.e is None), 'words present')
            if w.e is not None:
                check(abs(w2.e * u - self.x.fed) <= 0.000006 * u, 'E is the filament fed by the move')
        return r


@driver('C08', uses=TEXT)
def relative():
    """from the beginning, then from whatever state an earlier part of the program left: layers of any length"""
    lines = objects('lines', Line, LINE)
    more = objects('more', Line, LINE)
    f = GCodeToRelativeExtrusionFilter()
    s = Spec(f)
    f.parse_layer(Layer(lines), s.step)
    f.parse_layer(Layer(more), s.step)
