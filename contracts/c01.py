"""C01, C02, C03, C21, C22: what the parser computes about a program."""
import math
from pydv.rt import driver, bounded, gen, check, assume, close, objects, one, value, choice, Schema, WordsG, RealG, same_objects, real, integer
from gcodeutils.gcoder import GCode, Line, Layer
from contracts.lines import LINE, TEXT, well_formed, read
from contracts.ref import Machine, words, Style, program, decorate, layered, tokens

EVERY = Style(modes=3, emodes=3, g92=3, g28=2, units=1)
COMMON = Style(modes=3, emodes=3, g92=3, g28=2, units=0)


def any_program(rng):
    r = rng.random()
    if r < 0.1:
        # few heights, visited again and again
        p = []
        for _ in range(rng.randint(1, 12)):
            p.append(rng.choice(['G1 Z%s' % rng.choice(['0', '0.2', '0.2', '0.4', '1', '-1']), 'G1 X%d E%d' % (rng.randint(0, 9), rng.randint(0, 9)), 'G0 Y%d' % rng.randint(0, 9),
                                 '; comment', 'G92 Z%d' % rng.randint(0, 2), 'G92 E0', 'M106']))
    elif r < 0.45:
        p = program(rng, EVERY)
    elif r < 0.8:
        p = program(rng, COMMON)
    else:
        p = layered(rng, hop=0.2, printed=0.8)
    return decorate(rng, p)


def parsed_lines(g):
    return [l for layer in g.all_layers for l in layer]


def source(text):
    return [l.strip() for l in text if l.strip()]


def reference(text, home=(0, 0, 0)):
    m = Machine(*home)
    for raw in source(text):
        c, w = words(raw)
        if c is not None:
            m.step(c, w)
        yield raw, c, m


@bounded('C01', runs=900, note='parser against the reference machine on generated programs')
def positions_native():
    text = gen('text', any_program)
    home = gen('home', lambda rng: None if rng.random() < 0.6 else (rng.choice([0, 5, -1]), rng.choice([0, 2.5]), rng.choice([0, 10])))
    g = GCode(text, home_pos=home)
    ls = parsed_lines(g)
    m = None
    n = 0
    for raw, c, m in reference(text, home or (0, 0, 0)):
        l = ls[n]
        n += 1
        if c is None:
            continue
        check(l.command == c, 'command of a line')
        check(close(l.current_x, m.x) and close(l.current_y, m.y) and close(l.current_z, m.z), 'position of a line')
        check(close(l.current_f, m.f), 'feed rate of a line')
    if m is not None:
        check(n == len(ls), 'number of lines')
        check(close(g.current_x, m.x) and close(g.current_y, m.y) and close(g.current_z, m.z), 'position after the program')
        check(close(g.abs_x, m.x - m.ox) and close(g.abs_y, m.y - m.oy) and close(g.abs_z, m.z - m.oz), 'logical position after the program')
        check(close(g.current_f, m.f), 'feed rate after the program')
        check(bool(g.imperial) == m.inch and bool(g.relative) == m.rel, 'modes after the program')


@bounded('C02', runs=900, note='parser against the reference machine on generated programs')
def extrusion_native():
    text = gen('text', any_program)
    g = GCode(text)
    ls = parsed_lines(g)
    m = None
    n = 0
    for raw, c, m in reference(text):
        l = ls[n]
        n += 1
        if c is None:
            continue
        check(close(l.current_e, m.e), 'E position of a line')
        check(bool(l.extruding) == (m.fed is not None and m.fed > 1e-9) or m.fed is not None and abs(m.fed) < 1e-9, 'extruding flag of a line')
    if m is not None:
        check(close(g.filament_length, m.most), 'filament length')
        check(close(g.abs_e, m.e), 'E position after the program')
        check(bool(g.relative_e) == m.rele, 'extrusion mode after the program')


@bounded('C01', runs=300, note='appending commands one by one gives the state of the whole program')
def append_native():
    text = gen('text', any_program)
    g = GCode([])
    for t in text:
        l = g.append(t)
        if l is None:
            check(not t.strip(), 'only blank lines are ignored')
    m = Machine()
    for raw, c, m in reference(text):
        pass
    check(close(g.current_x, m.x) and close(g.current_y, m.y) and close(g.current_z, m.z) and close(g.current_f, m.f), 'state after appending')
    check(close(g.abs_x, m.x - m.ox) and close(g.abs_y, m.y - m.oy) and close(g.abs_z, m.z - m.oz), 'logical position after appending')


class Out(object):
    """records what is written"""
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def text(self):
        return ''.join(self.parts)


@bounded('C03', runs=900, note='layer structure, index and round trip on generated programs')
def structure_native():
    text = gen('text', any_program)
    g = GCode(text)
    src = source(text)
    ls = parsed_lines(g)
    check([l.raw for l in ls] == src, 'layers concatenate to the input')
    check(len(g.lines) == len(src) and all(a is b for a, b in zip(g.lines, ls)), 'program lines are the layer lines')
    check(len(g) == len(src) and len(g.layer_idxs) == len(src) and len(g.line_idxs) == len(src), 'one index entry per line')
    for i in range(len(src)):
        a, b = g.idxs(i)
        check(0 <= a < len(g.all_layers) and 0 <= b < len(g.all_layers[a]), 'index in range')
        check(g.all_layers[a][b] is g.lines[i], 'index addresses the line')
    o = Out()
    g.write(o)
    check(o.text() == ''.join(s + '\n' for s in src), 'written program')
    check([l.raw for l in g] == src, 'iteration over the program')


@bounded('C03', runs=400, note='layer by height')
def layers_native():
    text = gen('text', lambda rng: layered(rng, step=rng.choice([0.2, 0.25, 0.3, 0.5]), first=0.3))
    g = GCode(text)
    ref = []
    for raw in source(text):
        c, w = words(raw)
        if w.z is not None:
            ref.append([])
        if ref:
            ref[-1].append(raw)
    # a layer starts at each height change; the first one also holds the preamble
    got = [[l.raw for l in layer] for layer in g.all_layers if len(layer)]
    check(sum(got, [])[-len(sum(ref, [])):] == sum(ref, []), 'lines kept')
    for layer in g.all_layers:
        zs = {round(l.current_z, 3) for l in layer if l.command in ('G1', 'G0') and l.e is not None}
        check(len(zs) <= 1, 'extruding moves of one layer are at one height')


@bounded('C21', runs=900, note='bounding box recomputed from the recorded positions')
def bounds_native():
    text = gen('text', any_program)
    g = GCode(text)
    xs, ys = [], []
    m = None
    for raw, c, m in reference(text):
        if m.fed is not None and m.fed > 0:
            xs.append(m.x)
            ys.append(m.y)
    assume(m is not None and m.most > 1e-9)
    check(close(g.xmin, min(xs)) and close(g.xmax, max(xs)), 'X bounds')
    check(close(g.ymin, min(ys)) and close(g.ymax, max(ys)), 'Y bounds')
    zs = [z for z in g.all_zs if z is not None] + [0]
    check(close(g.zmin, min(zs)) and close(g.zmax, max(zs)), 'Z bounds')
    check(close(g.width, g.xmax - g.xmin) and close(g.depth, g.ymax - g.ymin) and close(g.height, g.zmax - g.zmin), 'dimensions')


@bounded('C21', runs=400, note='printed heights of sliced programs')
def heights_native():
    text = gen('text', lambda rng: layered(rng, step=rng.choice([0.2, 0.25, 0.3, 0.5]), first=0.3, printed=0.8, hop=rng.choice([0, 0, 0.3])))
    g = GCode(text)
    zs = set()
    for raw, c, m in reference(text):
        if m.fed is not None and m.fed > 0:
            zs.add(m.z)
    assume(zs)
    check(close(g.zmax, max(zs)) and g.zmin == 0, 'Z bounds of the printed heights')
    check(g.all_zs == zs, 'printed heights')
    check(g.layers_count == len(zs), 'number of printed layers')


def timed_program(rng):
    st = Style(modes=2, emodes=2, g92=2, g28=1, units=0, dwell=4, other=0)
    p = program(rng, st) if rng.random() < 0.6 else layered(rng, hop=0.2)
    for _ in range(rng.randint(0, 3)):
        p.insert(rng.randint(0, len(p)), rng.choice(['G4 P250', 'G4 P1500', 'G4 S2', 'G4 P0', 'G4 S1.5']))
    return p


def dwell(raw):
    c, w = words(raw)
    if c != 'G4':
        return 0
    return w.p / 1000.0 if w.p is not None else w.s if w.s is not None else 0


@bounded('C22', runs=900, note='durations on generated programs, with and without the dwells')
def durations_native():
    text = gen('text', timed_program)
    assume(all(words(t)[1].f is None or words(t)[1].f > 0 for t in text))
    assume(not any(words(t)[0] == 'G4' and words(t)[1].p is None and words(t)[1].s is None for t in text))
    assume(text)
    g = GCode(text)
    ds = [l.duration for l in g.all_layers]
    check(all(d >= 0 for d in ds), 'layer durations are not negative')
    total = g.duration.total_seconds()
    check(total - 1e-6 <= sum(ds) < total + 1 + 1e-6, 'layer durations add up to the total')
    h = GCode([t for t in text if words(t)[0] != 'G4'] or ['M84'])
    base = sum(l.duration for l in h.all_layers)
    check(close(sum(ds), base + sum(dwell(t) for t in text)), 'dwells add exactly their time')
    check(g.estimate_duration()[1] == g.duration, 'estimated duration')


# ---------------------------------------------------------------- all inputs, all lengths
class Printer(object):
    """the reference machine, compared to the program state after each command"""
    manual = True

    def __init__(self, g, home):
        self.g = g
        self.m = Machine(*home)

    def inv_modes(self):
        return self.g.imperial == self.m.inch and self.g.relative == self.m.rel and self.g.relative_e == self.m.rele

    def inv_x(self):
        return self.g.current_x == self.m.x and self.g.offset_x == self.m.ox

    def inv_y(self):
        return self.g.current_y == self.m.y and self.g.offset_y == self.m.oy

    def inv_z(self):
        return self.g.current_z == self.m.z and self.g.offset_z == self.m.oz

    def inv_e(self):
        return self.g.current_e == self.m.e

    def inv_f(self):
        return self.g.current_f == self.m.f

    def step(self, raw):
        assume(raw and raw == raw.strip())
        well_formed(raw)
        l = self.g.append(raw, False)
        c, w = words(raw)
        m = self.m
        m.step(c, w)
        check(l.command == c, 'command of a line')
        check(close(l.current_x, m.x) and close(l.current_y, m.y) and close(l.current_z, m.z), 'position of a line')
        check(close(l.current_f, m.f), 'feed rate of a line')
        check(close(self.g.current_x, m.x) and close(self.g.current_y, m.y) and close(self.g.current_z, m.z), 'position so far')
        check(close(self.g.abs_x, m.x - m.ox) and close(self.g.abs_y, m.y - m.oy) and close(self.g.abs_z, m.z - m.oz), 'logical position so far')


@driver('C01', uses=TEXT)
def commands():
    """commands given one by one to a program, any number of them"""
    home = (real('hx'), real('hy'), real('hz'))
    lines = objects('lines', Line, LINE)
    g = GCode([], home_pos=home)
    p = Printer(g, home)
    for line in lines:
        p.step(line.raw)


class Watch(object):
    """the reference machine, following a program as it is read"""
    def __init__(self, home):
        self.m = Machine(*home)

    def visit(self, line):
        raw = line.raw
        c, w = words(raw)
        m = self.m
        m.step(c, w)
        check(line.command == c, 'command of a line')
        check(close(line.current_x, m.x) and close(line.current_y, m.y) and close(line.current_z, m.z), 'position of a line')
        check(close(line.current_f, m.f), 'feed rate of a line')


@driver('C01', uses=TEXT, linear=True, budget=400)
def whole_program():
    """a program read at once: any number of lines"""
    home = (real('hx'), real('hy'), real('hz'))
    lines = objects('lines', Line, LINE, minlen=1)
    v = Watch(home)
    m = v.m
    g = read(lines, home, line=v.visit)
    check(close(g.current_x, m.x) and close(g.current_y, m.y) and close(g.current_z, m.z), 'position after the program')
    check(close(g.abs_x, m.x - m.ox) and close(g.abs_y, m.y - m.oy) and close(g.abs_z, m.z - m.oz), 'logical position after the program')
    check(close(g.current_f, m.f), 'feed rate after the program')
    check(bool(g.imperial) == m.inch and bool(g.relative) == m.rel, 'modes after the program')


class Feeder(Watch):
    """the reference machine, followed for its extruder"""
    def visit(self, line):
        raw = line.raw
        c, w = words(raw)
        m = self.m
        m.step(c, w)
        check(close(line.current_e, m.e), 'E position of a line')
        if m.fed is None:
            check(not line.extruding, 'extruding flag of a line')
        elif m.fed > 1e-9 or m.fed < -1e-9:
            check(bool(line.extruding) == (m.fed > 0), 'extruding flag of a line')


@driver('C02', uses=TEXT, linear=True, budget=400)
def whole_extrusion():
    """a program read at once: any number of lines"""
    lines = objects('lines', Line, LINE, minlen=1)
    v = Feeder((0, 0, 0))
    m = v.m
    g = read(lines, line=v.visit)
    check(close(g.filament_length, m.most), 'filament length')
    check(close(g.abs_e, m.e), 'E position after the program')
    check(bool(g.relative_e) == m.rele, 'extrusion mode after the program')


def finite(v):
    return -float('inf') < v < float('inf')


class Box(Watch):
    """the extent of the extruding moves"""
    def __init__(self):
        Watch.__init__(self, (0, 0, 0))
        self.printed = False
        self.x0 = self.y0 = float('inf')
        self.x1 = self.y1 = float('-inf')

    def inv_fed(self):
        return self.m.total <= self.m.most and (self.m.most <= 0 or self.printed)

    def inv_x(self):
        return self.x0 > -float('inf') and self.x1 < float('inf') and (not self.printed or finite(self.x0) and finite(self.x1))

    def inv_y(self):
        return self.y0 > -float('inf') and self.y1 < float('inf') and (not self.printed or finite(self.y0) and finite(self.y1))

    def visit(self, line):
        c, w = words(line.raw)
        self.m.step(c, w)
        assume(finite(line.current_x) and finite(line.current_y))
        if line.is_move and line.extruding:
            self.printed = True
            self.x0 = min(self.x0, line.current_x)
            self.x1 = max(self.x1, line.current_x)
            self.y0 = min(self.y0, line.current_y)
            self.y1 = max(self.y1, line.current_y)


@driver('C21', uses=TEXT, linear=True, budget=400)
def whole_box():
    """a program read at once: any number of lines (what line.extruding and line.current_x are is C01 and C02)"""
    lines = objects('lines', Line, LINE, minlen=1)
    b = Box()
    g = read(lines, line=b.visit)
    if g.filament_length > 0:
        check(b.printed, 'filament is extruded by extruding moves')
        check(close(g.xmin, b.x0) and close(g.xmax, b.x1), 'X bounds')
        check(close(g.ymin, b.y0) and close(g.ymax, b.y1), 'Y bounds')
    check(close(g.width, g.xmax - g.xmin) and close(g.depth, g.ymax - g.ymin) and close(g.height, g.zmax - g.zmin), 'dimensions')


class Clock(object):
    """adds the durations of the layers as they are completed"""
    def __init__(self):
        self.sum = 0
        self.count = 0

    def layer(self, g, i):
        check(i == self.count, 'layers are reported in order')
        d = g.all_layers[i].duration
        check(d >= 0, 'layer durations are not negative')
        self.sum = self.sum + d
        self.count = self.count + 1


@driver('C22', uses=TEXT, linear=True, budget=400)
def whole_durations():
    lines = objects('lines', Line, LINE, minlen=1)
    c = Clock()
    g = read(lines, layer=c.layer)
    total = c.sum
    for layer in g.all_layers[c.count:]:
        check(layer.duration >= 0, 'layer durations are not negative')
        total = total + layer.duration
    t = g.duration.total_seconds()
    check(t <= total + 1e-6 and total < t + 1 + 1e-6, 'layer durations add up to the total')


def same_lines(a, b):
    """the same commands in the same order"""
    return [l.raw for l in a] == [l.raw.strip() for l in b]


def same_lines_spec(a, b):
    return same_objects(a, b)


class Pages(object):
    """collects the lines of the layers as they are completed"""
    def __init__(self):
        self.out = []
        self.count = 0

    def layer(self, g, i):
        check(i == self.count, 'layers are reported in order')
        self.out.extend(g.all_layers[i])
        self.count = self.count + 1


PAGES = dict(TEXT)
PAGES[same_lines] = same_lines_spec


@driver('C03', uses=PAGES, linear=True, budget=400)
def whole_structure():
    """a program read at once: its layers, one after the other, are its lines"""
    lines = objects('lines', Line, LINE, minlen=1)
    before = list(lines)
    p = Pages()
    g = read(lines, layer=p.layer)
    for layer in g.all_layers[p.count:]:
        p.out.extend(layer)
    check(same_lines(p.out, before), 'layers concatenate to the input')
    check(same_lines(g.lines, before), 'program lines are the input')
    check(len(g) == len(before), 'one index entry per line')


def same_line(a, b):
    return a.raw == b.raw.strip()


def same_line_spec(a, b):
    return a is b


class Finger(object):
    """follows one line, and the layer being read"""
    def __init__(self, lines, j):
        self.lines = lines
        self.j = j
        self.cur = []
        self.ids = []
        self.places = []
        self.count = 0
        self.there = False
        self.a = 0
        self.b = 0
        self.line = None

    def inv_place(self):
        return (len(self.ids) > self.j) == self.there and (not self.there or self.ids[self.j] == self.a and self.places[self.j] == self.b
                                                           and self.a <= self.count and 0 <= self.b)

    def inv_there(self):
        return not self.there or same_line(self.line, self.lines[self.j])

    def inv_line(self):
        return not self.there or self.a != self.count or self.b < len(self.cur) and self.cur[self.b] is self.line

    def visit(self, line):
        if len(self.ids) == self.j:
            self.there = True
            self.a = self.count
            self.b = len(self.cur)
            self.line = line
        self.ids.append(self.count)
        self.places.append(len(self.cur))
        self.cur.append(line)

    def full(self, layer):
        """the next layer is complete"""
        check(same_objects(layer, self.cur), 'a layer is the lines read since the previous one')
        if self.there and self.a == self.count:
            check(self.b < len(layer) and layer[self.b] is self.line, 'index addresses the line')
        self.cur = []
        self.count = self.count + 1

    def layer(self, g, i):
        check(i == self.count, 'layers are reported in order')
        self.full(g.all_layers[i])


def same_numbers(a, b):
    return list(a) == b


PAGES[same_line] = same_line_spec


@driver('C03', uses=PAGES, linear=True, budget=400)
def whole_index():
    """a program read at once: the index entries of every line (the j-th, for any j) address it"""
    lines = objects('lines', Line, LINE, minlen=1)
    j = integer('j', 0)
    assume(j < len(lines))
    p = Finger(lines, j)
    g = read(lines, line=p.visit, layer=p.layer)
    check(p.there and same_line(p.line, lines[j]), 'every line is visited')
    for layer in g.all_layers[p.count:]:
        p.full(layer)
    check(len(p.cur) == 0, 'every line is in a layer')
    check(g.idxs(j) == (p.a, p.b), 'index of a line')
