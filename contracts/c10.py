"""C10, C11, C12: stretch."""
import base64
import math
import zlib
from pydv.rt import (driver, bounded, gen, check, assume, close, objects, integer, value, Schema, TextG, CommandG, OptG, RealG,
                     BoolG, DerivedG, real, named_in, anyreal, needs)
from gcodeutils.gcoder import GCode, Line, Layer, raw_to_line, split, parse_coordinates
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
from gcodeutils.stretch import stretch as S
from contracts.ref import Machine, words, tokens, fmt, num, LINEAR, MOVES
from contracts.cli import run, written
from contracts.lines import TEXT

DIALECTS = {'slic3r': S.Slic3rStretchFilter, 'cura': S.CuraStretchFilter, 'skeinforge': S.SkeinforgeStretchFilter}
RATIO = {'outer': ('edge_outside_stretch_over_edge_width', 0.1), 'inner': ('edge_inside_stretch_over_edge_width', 0.32),
         'loop': ('loop_stretch_over_edge_width', 0.11)}


# ---------------------------------------------------------------- sliced programs
def shape(rng):
    n = rng.randint(1, 12)
    k = rng.random()
    cx, cy = rng.uniform(20, 100), rng.uniform(20, 100)
    if k < 0.4:
        r = rng.choice([0.3, 1, 2, 5, 20])
        ps = [(cx + r * math.cos(2 * math.pi * i / n), cy + r * math.sin(2 * math.pi * i / n)) for i in range(n + 1)]
    elif k < 0.6:
        r = rng.choice([1, 3, 10])
        ps = [(cx - r, cy - r), (cx + r, cy - r), (cx + r, cy + r), (cx - r, cy + r), (cx - r, cy - r)]
    elif k < 0.8:
        ps = [(cx + rng.uniform(-5, 5), cy + rng.uniform(-5, 5)) for _ in range(n)]
    elif k < 0.9:
        ps = [(cx, cy)] * n
    else:
        ps = [(cx, cy), (cx + 30, cy + 0.1), (cx, cy + 0.2), (cx, cy)]
    return [(round(x, 3), round(y, 3)) for x, y in ps]


class Writer(object):
    def __init__(self, rng, e=True):
        self.rng, self.lines, self.kinds = rng, [], []
        self.e = e
        self.at = None

    def put(self, text, kind=None):
        self.lines.append(text)
        self.kinds.append(kind)

    def move(self, p, comment='', kind=None, e=None, g='G1', f=None, z=None):
        rng = self.rng
        t = g
        drop = rng.random()
        if self.at is None or drop > 0.12 or p[0] != self.at[0]:
            t += ' X%.3f' % p[0]
        if self.at is None or p[1] != self.at[1] or t == g or drop > 0.3:
            t += ' Y%.3f' % p[1]
        if z is not None:
            t += ' Z' + fmt(rng, z)
        if e is not None:
            t += ' E%.5f' % e
        if f is not None:
            t += ' F%s' % fmt(rng, f)
        self.at = p
        self.put(t + comment, kind)


def sliced(rng, dialect=None, e_abs=False):
    dialect = dialect or rng.choice(['slic3r', 'cura', 'skeinforge'])
    w = Writer(rng)
    width = rng.choice([None, 0.4, 0.72, 0.5, 0.2, 0.25])
    if rng.random() < 0.5:
        w.put('G28')
        w.put('G90')
    w.put('M82' if e_abs else 'M83')
    if dialect == 'slic3r' and width and rng.random() < 0.5:
        w.put('; external perimeters extrusion width = %.2fmm' % width)
    if dialect == 'skeinforge' and width:
        w.put('(<edgeWidth> %s </edgeWidth>)' % width)
    pos = [0.0]

    def ext():
        if rng.random() < 0.1:
            return None
        d = rng.choice([0.5, 1, 0.123, 0.04, rng.uniform(0, 2), 0])
        pos[0] += d
        return pos[0] if e_abs else d

    z0 = rng.choice([0.2, 0.2, 0.0])
    for n in range(rng.randint(1, 3)):
        z = round(z0 + 0.3 * n, 3)
        w.put('G1 Z%s F%s' % (fmt(rng, z), rng.choice(['3000', '7800'])) + (' ; move to next layer (%d)' % n if dialect == 'slic3r' else ''))
        first = True
        for _ in range(rng.randint(0, 4)):
            k = rng.random()
            if k < 0.2:
                kind = None
            else:
                kind = rng.choice(['outer', 'inner', 'loop'])
            ps = shape(rng)
            f = rng.choice([None, None, 960, 1800, 2400.5])
            if kind is None:
                c = {'slic3r': ' ; infill', 'cura': '', 'skeinforge': ''}[dialect]
                if dialect == 'cura':
                    w.put(';TYPE:' + rng.choice(['FILL', 'FILL', 'SKIRT', 'SUPPORT']))
                for i, p in enumerate(ps):
                    w.move(p, c, None, ext() if i else None, f=f if i == 0 else None)
                continue
            if dialect == 'slic3r':
                if len(ps) == 1:
                    continue
                ext_kind = kind in ('outer', 'inner')
                if ext_kind:
                    kind = 'outer' if first else 'inner'
                    first = False
                c = ' ; perimeter external' if ext_kind else ' ; perimeter'
                w.move(ps[0], ' ; move to first perimeter point', kind, None, f=f)
                if rng.random() < 0.4:
                    w.put('G1 %s F2400 ; unretract' % ('E%.5f' % pos[0] if e_abs else 'E1'), 'any')
                for p in ps[1:]:
                    w.move(p, c, kind, ext(), f=rng.choice([None, None, None, 1200]))
                if rng.random() < 0.5:
                    w.put('G1 F2400 %s ; retract' % ('E%.5f' % pos[0] if e_abs else 'E-1'))
            elif dialect == 'cura':
                w.move(ps[0], '', None, None, g='G0', f=rng.choice([9000, None]))
                w.put(';TYPE:' + {'outer': 'WALL-OUTER', 'inner': 'WALL-INNER', 'loop': 'SKIN'}[kind])
                for p in ps[1:]:
                    w.move(p, '', kind, ext(), f=rng.choice([f, None, None]), z=rng.choice([None] * 9 + [z]))
                    if rng.random() < 0.05:
                        w.put(rng.choice(['; a comment', 'M106 S100', 'G92 E0'] if not e_abs else ['; a comment', 'M106 S100']), kind)
                if rng.random() < 0.5:
                    w.put(';TYPE:' + rng.choice(['FILL', 'SUPPORT', 'SKIRT']))
                    for p in shape(rng):
                        w.move(p, '', None, ext())
            else:
                w.put({'outer': '(<edge> outer )', 'inner': '(<edge> inner )', 'loop': '(<loop> inner )'}[kind], kind)
                for i, p in enumerate(ps):
                    w.move(p, '', kind, None if rng.random() < 0.5 else ext(), z=z, f=f)
                    if i == 0:
                        w.put('M101', kind)
                w.put('M103', kind)
                w.put({'outer': '(</edge>)', 'inner': '(</edge>)', 'loop': '(</loop>)'}[kind])
        if rng.random() < 0.3:
            w.put(rng.choice(['; end of layer', 'M107']))
    w.put('M84')
    if dialect == 'slic3r' and width and not any('extrusion width' in l for l in w.lines):
        w.put('; external perimeters extrusion width = %.2fmm' % width)
    if dialect == 'cura' and width:
        prof = base64.b64encode(zlib.compress(('layer_height=0.2\bnozzle_size=%s\bfan=1\fend.gcode=x' % width).encode())).decode()
        w.put(';CURA_PROFILE_STRING:' + prof)
    if dialect == 'cura':
        # a section lasts until the next section comment or the end of the layer
        kind = None
        for i, l in enumerate(w.lines):
            if l.startswith(';TYPE:'):
                kind = {'WALL-OUTER': 'outer', 'WALL-INNER': 'inner', 'SKIN': 'loop'}.get(l[6:])
                w.kinds[i] = None
            elif l.startswith('G1 Z'):
                kind = w.kinds[i] = None
            else:
                w.kinds[i] = kind
    return dict(dialect=dialect, lines=w.lines, kinds=w.kinds, width=width or 0.4)


def settings(rng):
    s = {}
    if rng.random() < 0.5:
        s['stretch_strength'] = rng.choice([0, 0.5, 1, 2, 3])
    if rng.random() < 0.4:
        s['loop_stretch_over_edge_width'] = rng.choice([0.05, 0.2, 0.0])
        s['edge_inside_stretch_over_edge_width'] = rng.choice([0.1, 0.5])
        s['edge_outside_stretch_over_edge_width'] = rng.choice([0.3, 0.02])
    if rng.random() < 0.2:
        s['cross_limit_distance_over_edge_width'] = rng.choice([1.0, 10.0])
        s['stretch_from_distance_over_edge_width'] = rng.choice([0.5, 8.0])
    return s


def limit(kind, prog, st):
    name, default = RATIO[kind]
    return prog['width'] * st.get(name, default) * st.get('stretch_strength', 1.0)


def stretch_all(dialect, lines, st):
    g = GCode(lines)
    f = DIALECTS[dialect](**st)
    f.filter(g)
    return g


def comment_appended(old, new):
    if not new.startswith(old):
        return False
    rest = new[len(old):]
    return rest == '' or rest.strip().startswith(';')


def same_words(a, b):
    c, u = words(a)
    d, v = words(b)
    return c == d and all(same(getattr(u, l), getattr(v, l)) for l in 'xyzefijps')


def same(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol


def examine(base, out, kinds, prog, st, structure=True, displacement=True):
    """compare program texts line by line; kinds[i] is the loop line i belongs to"""
    check(len(base) == len(out), 'number of lines')
    m = Machine()
    for o, n, kind in zip(base, out, kinds):
        c, w = words(o)
        c2, w2 = words(n)
        if c is not None:
            m.step(c, w)
        moved = not comment_appended(o, n)
        if structure and moved:
            check(kind is not None, 'a line outside the loops is unchanged')
            check(c in LINEAR and (w.x is not None or w.y is not None), 'only linear moves naming X or Y are stretched')
            check(c == c2, 'command kept')
            check(same(w.z, w2.z, 0.00051), 'Z word kept')
            check((w.e is None) == (w2.e is None), 'presence of the E word kept')
            check(w.f is None and m.f == 0 or same(w2.f, m.f, 0.00051), 'feed rate in force')
        if moved and displacement and kind in RATIO:
            x, y = m.x - m.ox, m.y - m.oy
            check(w2.x is not None and w2.y is not None, 'stretched point')
            d = math.hypot(w2.x - x, w2.y - y)
            check(d <= limit(kind, prog, st) + 0.00072, 'displacement within the limit')
            if w.e is not None and w2.e is not None:
                check(abs(w2.e - w.e * (1 - d)) <= abs(w.e) * 0.0008 + 0.6e-5, 'extrusion scaled by the displacement')
        if displacement and st.get('stretch_strength') == 0:
            check(same(w.x, w2.x) and same(w.y, w2.y) and same(w.e, w2.e), 'nothing moves at zero strength')


@bounded('C10', runs=500, note='sliced programs of the three dialects')
def stretch_native():
    prog = gen('prog', sliced)
    st = gen('settings', settings)
    g0 = GCode(prog['lines'])
    g = stretch_all(prog['dialect'], prog['lines'], st)
    check([len(l) for l in g.all_layers] == [len(l) for l in g0.all_layers], 'number of lines of each layer')
    examine(written(g0), written(g), prog['kinds'], prog, st, displacement=False)
    for a, b in zip([l for x in g0.all_layers for l in x], [l for x in g.all_layers for l in x]):
        check(same(a.z, b.z, 0.00051) and (a.e is None) == (b.e is None) and a.command == b.command, 'attributes kept')


@bounded('C10', runs=500, note='preparation of the program for stretching')
def setup_native():
    prog = gen('prog', sliced)
    g0 = GCode(prog['lines'])
    g = GCode(prog['lines'])
    f = DIALECTS[prog['dialect']]()
    f.gcode = g
    f.setup_filter()
    check([len(l) for l in g.all_layers] == [len(l) for l in g0.all_layers], 'number of lines of each layer')
    for a, b in zip([l for x in g0.all_layers for l in x], [l for x in g.all_layers for l in x]):
        check(comment_appended(a.raw, b.raw), 'only comment text is appended')
        check(a.command == b.command and all(getattr(a, k) == getattr(b, k) for k in 'xyzefij'), 'words unchanged')


@bounded('C10', runs=60, note='gcode_stretch')
def stretch_cli_native():
    prog = gen('prog', lambda rng: sliced(rng, rng.choice(['slic3r', 'cura']), rng.random() < 0.5))
    st = gen('settings', settings)
    assume(prog['dialect'] != 'cura' or any('CURA_PROFILE_STRING' in l for l in prog['lines']))
    g0 = GCode(prog['lines'])
    GCodeToRelativeExtrusionFilter().filter(g0)
    args = []
    for k, v in sorted(st.items()):
        args += ['--' + k, str(v)]
    out = run('gcodeutils.gcode_stretch', args, prog['lines'])
    examine(written(g0), out, prog['kinds'], prog, st)


@bounded('C11', runs=500, note='displacement of every stretched point')
def displacement_native():
    prog = gen('prog', sliced)
    st = gen('settings', settings)
    g = stretch_all(prog['dialect'], prog['lines'], st)
    examine(prog['lines'], written(g), prog['kinds'], prog, st, structure=False)


def one_loop(rng):
    return dict(points=[[x, y] for x, y in shape(rng)], dialect=rng.choice(['cura', 'skeinforge']), width=rng.choice([0.4, 0.72]))


def loop_text(case, kind):
    if case['dialect'] == 'cura':
        ls = ['G1 Z0.2 F3000', ';TYPE:' + {'outer': 'WALL-OUTER', 'inner': 'WALL-INNER', 'loop': 'SKIN'}[kind]]
        end = [';TYPE:FILL']
    else:
        ls = ['(<edgeWidth> %s </edgeWidth>)' % case['width'], {'outer': '(<edge> outer )', 'inner': '(<edge> inner )', 'loop': '(<loop> inner )'}[kind], 'M101']
        end = ['M103', '(</edge>)' if kind != 'loop' else '(</loop>)']
    return ls + ['G1 X%.3f Y%.3f E1' % tuple(p) for p in case['points']] + end


@bounded('C11', runs=300, note='the displacements of one loop under the three markers are in the ratio of the settings')
def ratios_native():
    case = gen('case', one_loop)
    st = gen('settings', settings)
    width = case['width'] if case['dialect'] == 'skeinforge' else 0.4
    ds = {}
    for kind in RATIO:
        text = loop_text(case, kind)
        out = written(stretch_all(case['dialect'], text, st))
        d = []
        for o, n in zip(text, out):
            w, w2 = words(o)[1], words(n)[1]
            if w.x is not None:
                d.append((w2.x - w.x, w2.y - w.y))
        ds[kind] = d
    for a in RATIO:
        for b in RATIO:
            ra, rb = limit(a, dict(width=width), st), limit(b, dict(width=width), st)
            if ra == 0 or rb == 0:
                continue
            for (x, y), (u, v) in zip(ds[a], ds[b]):
                check(abs(x * rb - u * ra) <= 0.0006 * (ra + rb) and abs(y * rb - v * ra) <= 0.0006 * (ra + rb), 'ratio of the loop kind')


# ---------------------------------------------------------------- C10, C11: any line of any loop
class Move(Line):
    """a line of a layer"""


MOVE = Schema({'raw': TextG(['G1', 'G1', 'G92', 'G28', 'M106']), 'command': CommandG(), 'imperial': BoolG(), 'current_f': RealG(),
               'x': DerivedG('x'), 'y': DerivedG('y'), 'z': DerivedG('z'), 'e': DerivedG('e'), 'f': DerivedG('f')})


class Marked(S.StretchFilter):
    """any slicer: the markers are in the lines already"""
    def setup_filter(self):
        self.set_edge_width(self.width)

    def parse_line(self, line):
        return self.spec.step(self, line)


def parse_line(f, line):
    return S.StretchFilter.parse_line(f, line)


class Loops(object):
    """the loop a line belongs to, and the position in the coordinates of the program"""
    manual = True

    def __init__(self, f, inner, outer, loop):
        self.f, self.inner, self.outer, self.loop = f, inner, outer, loop
        self.limit = None
        self.first = None
        self.done = 0
        self.x = self.y = self.z = 0.0

    def inv_loop(self):
        return self.f.isLoop == (self.limit is not None and (self.done > 0) == (self.f.current_layer_index > 0))

    def inv_limit(self):
        return self.f.thread_maximum_absolute_stretch == (0 if self.limit is None or (self.done > 0) != (self.f.current_layer_index > 0) else self.limit)

    def inv_x(self):
        return 0 == self.x if self.f.oldLocation is None else self.f.oldLocation.x == self.x

    def inv_y(self):
        return 0 == self.y if self.f.oldLocation is None else self.f.oldLocation.y == self.y

    def place(self, c, line):
        if c in MOVES or c == 'G92' or c == 'G28':
            all_axes = c == 'G92' and not (named_in(line.raw, 'x') or named_in(line.raw, 'y') or named_in(line.raw, 'z') or named_in(line.raw, 'e')
                                           or named_in(line.raw, 'f') or named_in(line.raw, 'i') or named_in(line.raw, 'j'))
            all_axes = all_axes or c == 'G28' and not (named_in(line.raw, 'x') or named_in(line.raw, 'y') or named_in(line.raw, 'z'))
            for a in 'xyz':
                v = getattr(line, a)
                if all_axes or c == 'G28' and named_in(line.raw, a):
                    setattr(self, a, 0)
                elif v is not None:
                    setattr(self, a, v + 0)

    def step(self, f, line):
        raw, c = line.raw, line.command
        x, y, z, e, fr = line.x, line.y, line.z, line.e, line.f
        if line is self.first and self.done == 0:
            # a loop ends with its layer
            self.limit = None
            self.done = 1
        elif self.done > 0:
            self.done += 1
        if S.StretchFilter.INNER_EDGE_START_MARKER in raw:
            self.limit = self.inner
        elif S.StretchFilter.OUTER_EDGE_START_MARKER in raw:
            self.limit = self.outer
        elif S.StretchFilter.LOOP_START_MARKER in raw:
            self.limit = self.loop
        elif S.StretchFilter.LOOP_STOP_MARKER in raw:
            self.limit = None
        self.place(c, line)
        r = parse_line(f, line)
        check(line.raw == raw, 'the line itself is not altered')
        if self.limit is not None and c in LINEAR and (x is not None or y is not None):
            if self.limit == 0:
                check(r is line, 'nothing moves at zero strength')
            else:
                check(r.command == c and r.imperial == line.imperial, 'command kept')
                check(r.z == z, 'Z word kept')
                check((r.e is None) == (e is None), 'presence of the E word kept')
                check(r.x is not None and r.y is not None, 'stretched point')
                d2 = (r.x - self.x) ** 2 + (r.y - self.y) ** 2
                check(d2 <= self.limit ** 2, 'displacement within the limit')
                if e is not None:
                    check(r.e == e * (1 - math.sqrt(d2)), 'extrusion scaled by the displacement')
                if fr:
                    check(r.f == fr, 'feed rate in force')
                elif line.current_f:
                    check(r.f == line.current_f, 'feed rate in force')
        else:
            check(r is line, 'other lines are unchanged')
        return r


def stretching(layers, first=None):
    width = real('width', 0)
    inner, outer, loop, strength = real('inner', 0), real('outer', 0), real('loop', 0), real('strength', 0)
    f = Marked(edge_inside_stretch_over_edge_width=inner, edge_outside_stretch_over_edge_width=outer,
               loop_stretch_over_edge_width=loop, stretch_strength=strength)
    f.width = width
    f.spec = Loops(f, width * inner * strength, width * outer * strength, width * loop * strength)
    f.spec.first = first
    g = Model(layers)
    f.filter(g)
    return g


class Model(object):
    """what stretching needs of a program"""
    partial = True

    def __init__(self, layers):
        self.all_layers = layers


def direction(f, location, iterator):
    """some direction; that it ends without failing is its own contract below"""
    return complex(anyreal(), anyreal())


def limited(f, stretch, iterator, location):
    return complex(anyreal(), anyreal())


PARTS = dict((getattr(S.StretchFilter, n), c) for n, c in (('get_relative_stretch', direction), ('get_cross_limited_stretch', limited))
             if hasattr(S.StretchFilter, n))
PARTS.update(TEXT)


@driver(['C10', 'C11'], runs=0, bmc=(), uses=PARTS, linear=True)
def one_layer():
    """a layer of any length"""
    stretching([Layer(objects('lines', Move, MOVE, 1))])


@driver(['C10', 'C11'], runs=0, bmc=(), uses=PARTS, linear=True, budget=400)
def two_layers():
    """a layer of any length, after whatever another one left"""
    lines, more = objects('lines', Move, MOVE, 1), objects('more', Move, MOVE, 1)
    stretching([Layer(lines), Layer(more)], more[0])


class Points(object):
    """what a neighbour search yields: any points, but not for ever (C12: no line twice)"""
    def __init__(self, lines):
        self.lines, self.given = lines, 0

    def inv_given(self):
        return 0 <= self.given and self.given <= len(self.lines)

    def get_next(self):
        if self.given >= len(self.lines):
            raise StopIteration()
        self.given += 1
        return self.lines[self.given - 1]


NEAR = Schema({'x': OptG(RealG()), 'y': OptG(RealG()), 'z': OptG(RealG())})


def positioned():
    width, cross, stretch = real('width', 0), real('cross', 0), real('stretch', 0)
    assume(width > 0 and stretch > 0)
    f = Marked(cross_limit_distance_over_edge_width=cross, stretch_from_distance_over_edge_width=stretch)
    f.set_edge_width(width)
    f.oldLocation = S.Vector3(real('x'), real('y'), real('z'))
    return f


@driver(['C10', 'C11'], runs=200, bmc=(1, 2), ends=True)
def direction_ends():
    """get_relative_stretch ends without failing, whatever points the search yields"""
    needs(S.StretchFilter, 'get_relative_stretch')
    points = objects('points', Move, NEAR)
    r = positioned().get_relative_stretch(complex(real('at_x'), real('at_y')), Points(points))
    check(r.real == r.real and r.imag == r.imag, 'a direction')


@driver(['C10', 'C11'], runs=200, bmc=(1, 2), ends=True)
def cross_limit_ends():
    """get_cross_limited_stretch does not fail, whatever points the search yields"""
    needs(S.StretchFilter, 'get_cross_limited_stretch')
    points = objects('points', Move, NEAR)
    r = positioned().get_cross_limited_stretch(complex(real('re'), real('im')), Points(points), complex(real('at_x'), real('at_y')))
    check(r.real == r.real and r.imag == r.imag, 'a direction')


# ---------------------------------------------------------------- C12
MARKS = ['stretch-extrusion-on', 'stretch-extrusion-off', 'stretch-loop-start', 'stretch-loop-start stretch-inner-edge-start',
         'stretch-loop-start stretch-outer-edge-start', 'stretch-loop-stop']
ITERATORS = ['LineIteratorForwardLegacy', 'LineIteratorBackwardLegacy', 'LineIteratorForward', 'LineIteratorBackward',
             'CuraLineIteratorForward', 'CuraLineIteratorBackward']


class Outside(Exception):
    """an access outside the layer, or far too many of them"""


class Guarded(list):
    """a layer that only answers for its own lines, and not for ever"""
    budget = 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list.__getitem__(self, i)
        self.budget -= 1
        if self.budget < 0:
            raise Outside('the search does not end')
        if not 0 <= i < len(self):
            raise Outside('line %d of a layer of %d' % (i, len(self)))
        return list.__getitem__(self, i)


def marked(rng):
    out = []
    for _ in range(rng.randint(1, 9)):
        t = rng.choice(['G1 X1 Y2', 'G1 X3', 'G0 Y5', 'G1 E1', 'G1 F100', 'G1 Z3', '; comment', 'M104 S200', 'G92 X0', 'G2 X1 Y1 I1', 'G28 X0'])
        if t.startswith('G1 X'):
            t = 'G1 X%d Y%d' % (rng.randint(0, 3), rng.randint(0, 3))
        for m in MARKS:
            if rng.random() < 0.13:
                t += ' ; ' + m
        out.append(t)
    return out


@bounded('C12', runs=3000, note='random layers with random markers, every start, every iterator')
def neighbours_native():
    text = gen('lines', marked)
    cls = getattr(S, gen('cls', lambda rng: rng.choice(ITERATORS)))
    layer = []
    for t in text:
        l = raw_to_line(t)
        parse_coordinates(l, split(l))
        layer.append(l)
    n = len(layer)
    for start in range(n):
        for off in (-1, 0, 1):
            lines = Guarded(layer)
            if cls.__name__.endswith('Forward') or 'Forward' in cls.__name__:
                if off < 0:
                    continue
            elif off > 0:
                continue
            it = cls(start + off, lines)
            given = []
            for k in range(3 * n + 4):
                lines.budget = 50 * n + 200
                try:
                    r = it.get_next()
                except StopIteration:
                    continue
                check(any(r is l for l in layer), 'a line of the layer')
                check(r.command in LINEAR and (r.x is not None or r.y is not None), 'an XY move')
                check(not any(r is l for l in given), 'no point twice')
                given.append(r)


# ---------------------------------------------------------------- C12, any layer
class Pt(Line):
    """a line of the layer"""


PT = Schema({'raw': TextG(['G1', 'G1', 'G92', 'M106']), 'command': CommandG(), 'x': OptG(RealG()), 'y': OptG(RealG())})


class Sheet(object):
    """a layer that answers for its own lines only"""
    def __init__(self, lines):
        self.own = lines

    def __len__(self):
        return len(self.own)

    def __iter__(self):
        return iter(self.own)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.own[i]
        check(0 <= i < len(self.own), 'only lines of the layer are looked at')
        return self.own[i]


def asked(cls, back):
    lines = objects('lines', Pt, PT, 1)
    start = integer('start', 0)
    assume(start < len(lines))
    layer = Sheet(lines)
    it = cls(start + (-1 if back else 1), layer)
    for k in range(integer('requests', 1)):
        r = None
        try:
            r = it.get_next()
        except StopIteration:
            pass
        if r is not None:
            check(r.command in LINEAR and (r.x is not None or r.y is not None), 'an XY move')
            check(any(l is r for l in lines), 'a line of the layer')


@driver('C12', runs=0, bmc=(), ends=True)
def forward_legacy():
    asked(S.LineIteratorForwardLegacy, False)


@driver('C12', runs=0, bmc=(), ends=True)
def backward_legacy():
    asked(S.LineIteratorBackwardLegacy, True)


@driver('C12', runs=0, bmc=(), ends=True)
def forward():
    asked(S.LineIteratorForward, False)


@driver('C12', runs=0, bmc=(), ends=True)
def backward():
    asked(S.LineIteratorBackward, True)


@driver('C12', runs=0, bmc=(), ends=True)
def cura_forward():
    asked(S.CuraLineIteratorForward, False)


@driver('C12', runs=0, bmc=(), ends=True)
def cura_backward():
    asked(S.CuraLineIteratorBackward, True)
