"""C07: XY translation."""
from pydv.rt import driver, bounded, gen, check, assume, close, objects, opt_real
from gcodeutils.gcoder import GCode, Layer, Line
from gcodeutils.filter.translate import GCodeXYTranslateFilter
from contracts.ref import Machine, words, Style, program, layered, num, MOVES
from contracts.cli import run, written
from contracts.lines import LINE, TEXT, parsed

MM = Style(modes=3, emodes=1, g92=2, g28=1, units=0, arcs=0.1, bare92=0.15)
INCH = Style(modes=3, emodes=1, g92=1, g28=1, units=1, arcs=0.1)


def any_program(rng):
    r = rng.random()
    p = program(rng, MM) if r < 0.65 else program(rng, INCH) if r < 0.8 else layered(rng, hop=0.2)
    if rng.random() < 0.5:
        p = ['G90'] + p
    return p


def amount(rng):
    r = rng.random()
    return None if r < 0.15 else 0 if r < 0.25 else num(rng)


class Track(object):
    """where the translated head has to be compared to the original one"""
    def __init__(self, dx, dy):
        self.dx, self.dy = dx, dy
        self.sx = self.sy = 0
        self.mode = None

    def step(self, c, w):
        if c == 'G90':
            self.mode = 'absolute'
        elif c == 'G91':
            self.mode = 'relative'
        elif c == 'G28':
            every = not ('x' in w.named or 'y' in w.named or 'z' in w.named)
            if every or 'x' in w.named:
                self.sx = 0
            if every or 'y' in w.named:
                self.sy = 0
        elif c in MOVES and self.mode == 'absolute':
            if w.x is not None:
                self.sx = self.dx
            if w.y is not None:
                self.sy = self.dy


def compare(text, out, dx, dy):
    check(len(out) == len(text), 'no line is added or removed')
    a, b, t = Machine(), Machine(), Track(dx or 0, dy or 0)
    rel_before = None
    tol = 1e-4
    for o, n in zip(text, out):
        c, w = words(o)
        c2, w2 = words(n)
        check(c == c2, 'the command of each line is kept')
        if c is None or c not in MOVES and c != 'G92':
            check(o == n, 'other lines are unchanged')
            if c is None:
                continue
        if c in MOVES and t.mode != 'absolute':
            check(o == n, 'moves that are not absolute are unchanged')
        if a.inch:
            tol += 0.0128
        a.step(c, w)
        b.step(c, w2)
        t.step(c, w)
        # an absolute move that names the axis ends at the translated position, whatever comes before
        check(abs(b.x - a.x - t.sx) <= tol and abs(b.y - a.y - t.sy) <= tol, 'position of the translated head')
        check(abs(b.z - a.z) <= tol and abs(b.e - a.e) <= tol and abs(b.f - a.f) <= tol, 'Z, E and F are unchanged')
        check((b.fed is None) == (a.fed is None) and (a.fed is None or abs(b.fed - a.fed) <= tol), 'filament fed is unchanged')
        if c in MOVES:
            for l in 'xyzefij':
                u, v = getattr(w, l), getattr(w2, l)
                check((u is None) == (v is None), 'words present')
                if u is not None and l not in 'xy':
                    check(abs(u - v) <= 0.0006, 'other words are kept')


@bounded('C07', runs=900, note='reference machine on the original and the translated program')
def translate_native():
    text = gen('text', any_program)
    dx, dy = gen('amount', lambda rng: [amount(rng), amount(rng)])
    g = GCode(text)
    n = [len(l) for l in g.all_layers]
    GCodeXYTranslateFilter(x=dx, y=dy).filter(g)
    check([len(l) for l in g.all_layers] == n, 'no line changes layer')
    compare(text, written(g), dx, dy)


@bounded('C07', runs=60, note='gcode_mod -x -y')
def translate_cli_native():
    text = gen('text', any_program)
    assume(text)
    dx, dy = gen('amount', lambda rng: [amount(rng), amount(rng)])
    args = []
    if dx is not None:
        args += ['-x', str(dx)]
    if dy is not None:
        args += ['-y', str(dy)]
    compare(text, run('gcodeutils.gcode_mod', args, text), dx, dy)


# ---------------------------------------------------------------- all inputs, all lengths
class Spec(object):
    """the original machine a, the machine b that runs the filtered program, and the displacement t asked for"""
    def __init__(self, f, dx, dy):
        self.f = f
        self.a, self.b, self.t = Machine(), Machine(), Track(dx, dy)

    manual = True

    def inv_range(self):
        return (self.f.shift_x == 0 or self.f.shift_x == self.t.dx) and (self.f.shift_y == 0 or self.f.shift_y == self.t.dy)

    def inv_x(self):
        return self.b.x - self.a.x == self.t.sx

    def inv_y(self):
        return self.b.y - self.a.y == self.t.sy

    def inv_origin(self):
        return self.b.ox == self.a.ox and self.b.oy == self.a.oy and self.b.oz == self.a.oz

    def inv_z(self):
        return self.b.z == self.a.z

    def inv_e(self):
        return self.b.e == self.a.e

    def inv_mode(self):
        return self.b.rel == self.a.rel and self.b.rele == self.a.rele

    def inv_known(self):
        return self.t.mode is None or self.t.mode == ('relative' if self.a.rel else 'absolute')

    def inv_still(self):
        return self.t.mode is not None or self.t.sx == 0 and self.t.sy == 0

    def inv_filter(self):
        return self.f.absolute_distance_mode == (None if self.t.mode is None else self.t.mode == 'absolute')

    def inv_shift(self):
        return self.f.shift_x == self.t.sx and self.f.shift_y == self.t.sy

    def step(self, line):
        inch = self.a.inch
        parsed(line, inch)
        w = words(line.raw)[1]
        raw = line.raw
        c = line.command
        mode = self.t.mode
        r = self.f.opcode_filter(line)
        check(r is None or r is line, 'no line is added or removed')
        check(line.command == c, 'the command of each line is kept')
        if c not in MOVES and c != 'G92' or c in MOVES and mode != 'absolute':
            check(line.raw == raw, 'other lines are unchanged')
        w2 = words(line.raw)[1]
        u = 25.4 if inch else 1
        for l in 'xyzefij':
            v, v2, n = getattr(w, l), getattr(w2, l), getattr(line, l)
            if c in MOVES:
                check((v is None) == (v2 is None), 'words present')
            if v2 is not None and (c in MOVES or c == 'G92'):
                check(abs(v2 * u - n) <= 0.0006 * u, 'the text of a line is its words, to output precision')
        self.a.step(c, w)
        if c == 'G28':
            self.b.home('x' in w2.named, 'y' in w2.named, 'z' in w2.named)
        elif c == 'G92':
            self.b.redefine(line, 1)
        elif c in MOVES:
            self.b.move(line, 1)
        else:
            self.b.step(c, w2)
        self.t.step(c, w)
        check(close(self.b.x, self.a.x + self.t.sx) and close(self.b.y, self.a.y + self.t.sy), 'position of the translated head')
        return None if r is None else line


@driver('C07', uses=TEXT)
def translate():
    """from the beginning, then from whatever state an earlier part of the program left: layers of any length"""
    dx, dy = opt_real('dx'), opt_real('dy')
    lines = objects('lines', Line, LINE)
    more = objects('more', Line, LINE)
    f = GCodeXYTranslateFilter(x=dx, y=dy)
    s = Spec(f, dx or 0, dy or 0)
    f.parse_layer(Layer(lines), s.step)
    f.parse_layer(Layer(more), s.step)
