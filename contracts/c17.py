"""C17, C18, C19: arc optimisation."""
import copy
import math
from pydv.rt import (driver, bounded, gen, check, assume, close, objects, same_objects, by_case, anyreal, real, boolean, OptG, BoolG, anystr, needs, Schema, ChoiceG, RealG)
from gcodeutils.gcoder import GCode, Line, Layer
from gcodeutils.filter import arc_optimizer as A
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
from contracts.ref import Machine, words, tokens, fmt, num, program, Style, LINEAR
from contracts.cli import run, written

ARCS = ('G2', 'G3')


# ---------------------------------------------------------------- programs with arcs
class Writer(object):
    """a program in any mode; positions in millimetres"""
    def __init__(self, rng, rel=False, rele=False, inch=False):
        self.rng, self.rel, self.rele, self.inch = rng, rel, rele, inch
        self.u = 25.4 if inch else 1.0
        self.x = self.y = self.ox = self.oy = 0.0
        self.e = 0.0
        self.lines, self.seen = [], set()

    def put(self, t):
        n = len(self.lines)
        if t in self.seen or self.rng.random() < 0.05:
            t += ' ;n%d' % n
        self.seen.add(t)
        self.lines.append(t)

    def axis(self, l, new, old, off):
        v = (new - old if self.rel else new - off) / self.u
        return '%s%.*f' % (l, 5 if self.inch else 4, v), float('%.*f' % (5 if self.inch else 4, v)) * self.u + (old if self.rel else off)

    def move(self, x, y, de=None, f=None, z=None, g='G1', drop=0.0):
        t = g
        if not (self.rng.random() < drop and abs(x - self.x) < 1e-9):
            w, self.x = self.axis('X', x, self.x, self.ox)
            t += ' ' + w
        w, self.y = self.axis('Y', y, self.y, self.oy)
        t += ' ' + w
        if z is not None:
            t += ' Z%.4f' % (z / self.u)
        if de is not None:
            self.e += de
            t += ' E%.6f' % ((de if self.rele else self.e) / self.u)
        if f is not None:
            t += ' F%.4f' % (f / self.u)
        self.put(t)


def arcs(rng, plain=False):
    rel = not plain and rng.random() < 0.15
    w = Writer(rng, rel, rng.random() < 0.45 or rel, not plain and rng.random() < 0.1)
    if w.inch:
        w.put('G20')
    if rng.random() < 0.5 or rel:
        w.put('G28')
    w.put('G91' if rel else 'G90')
    w.put('M83' if w.rele else 'M82')
    z = 0.2
    if not rel:
        w.put('G1 Z%.4f F%.4f' % (z / w.u, 3000 / w.u))
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.12:
            w.put(rng.choice(['; a comment', 'M106 S100', ';TYPE:x', 'G4 P10']))
        elif k < 0.2:
            w.e = 0.0
            w.put('G92 E0')
        elif k < 0.25 and not plain and not rel:
            w.ox, w.oy = w.x - round(w.x, 1), w.y
            w.put('G92 X%.5f Y0' % (round(w.x, 1) / w.u))
        elif k < 0.35 and not rel:
            z = round(z + 0.2, 3)
            w.put('G1 Z%.4f' % (z / w.u))
        elif k < 0.42:
            for _ in range(rng.randint(1, 12)):
                w.move(rng.uniform(0, 100), rng.uniform(0, 100), rng.choice([None, 0.5]))
        elif k < 0.45:
            w.put('G2 X%.3f Y%.3f I%.3f J%.3f' % tuple(rng.uniform(0, 20) / w.u for _ in range(4)))
            w.x, w.y = 0.0, 0.0
            w.move(rng.uniform(0, 100), rng.uniform(0, 100))
            if rel:
                return w.lines
        else:
            circle(w, rng, plain)
        if rng.random() < 0.15:
            w.put('G1 F%.4f' % (rng.choice([1200, 2400, 4800]) / w.u))
    if rng.random() < 0.5:
        w.put('M84')
    return w.lines


def circle(w, rng, plain):
    n = rng.choice([6, 8, 9, 10, 12, 16, 20, 24, 36, 60])
    r = rng.choice([0.3, 1, 2, 5, 10, 20, 50, 150, 199, 201, 400])
    sweep = rng.choice([0.3, 0.8, 1, 1.5, 2, 3, 6, 2 * math.pi, 2 * math.pi, 7.5]) * rng.choice([1, -1])
    a0 = rng.choice([0, 1, 2, 3, -1, -2, math.pi, rng.uniform(-3, 3)])
    cx, cy = (w.x - r * math.cos(a0), w.y - r * math.sin(a0)) if rng.random() < 0.3 else (rng.uniform(30, 90), rng.uniform(30, 90))
    noise = rng.choice([0, 0, 0, 0.002, 0.008, 0.014, 0.02, 0.05])
    wobble = rng.choice([0, 0, 0, 0.05, 0.3, 0.8])
    rate = rng.choice([None, 0.05, 0.05, 0.03, 0.4, 0.0])
    rnoise = rng.choice([0, 0, 0.03, 0.1, 0.14, 0.2])
    feed = rng.choice([None, None, 1800, 2400])
    flip = rng.random() < 0.05
    spoil = rng.choice(['f', 'z', 'e', 'c', 'm', 'dup', 'comment']) if rng.random() < 0.35 else None
    where = rng.randint(0, n)
    step = sweep / n
    a = a0
    for i in range(n + 1):
        rr = r + rng.uniform(-noise, noise)
        x, y = cx + rr * math.cos(a), cy + rr * math.sin(a)
        d = math.hypot(x - w.x, y - w.y)
        de = None if rate is None or i == 0 else d * rate * (1 + rng.uniform(-rnoise, rnoise))
        f = feed if i == (0 if rng.random() < 0.5 else 1) else None
        z = None
        if i == where and spoil:
            if spoil == 'f':
                f = rng.choice([900, 1800])
            elif spoil == 'z':
                z = w.rng.choice([0.2, 1.0])
            elif spoil == 'e':
                de = None if de is not None else 0.1
            elif spoil == 'm':
                w.put(rng.choice(['M106 S10', 'M107', 'G92 E%.5f' % (w.e / w.u), 'T0']))
            elif spoil == 'comment':
                w.put('; in the middle')
            elif spoil == 'dup':
                w.move(x, y, None if de is None else 0.0)
        if spoil == 'z' and w.rel:
            z = None
        w.move(x, y, de, f, z, g='G0' if rate is None and rng.random() < 0.5 else 'G1')
        a += step * (1 + rng.uniform(-wobble, wobble))
        if flip and i == n // 2:
            step = -step


# ---------------------------------------------------------------- alignment of the output to the input
class Arc(object):
    """lines src[first:last] were replaced by `text`, optionally followed by the reset `reset`"""
    def __init__(self, first, last, text, reset):
        self.first, self.last, self.text, self.reset = first, last, text, reset


def align(src, out, k=0, p=0, deep=0):
    """the replaced runs, or None when the output is not the input with runs replaced by arcs"""
    found = []
    while k < len(out):
        if p < len(src) and out[k] == src[p]:
            k += 1
            p += 1
            continue
        c, w = words(out[k])
        if c not in ARCS:
            return None
        resets = [None]
        if k + 1 < len(out):
            c2, w2 = words(out[k + 1])
            if c2 == 'G92' and w2.named == ['e']:
                resets = [None, out[k + 1]]
        for reset in resets:
            n = k + (2 if reset is not None else 1)
            if n == len(out):
                if len(src) - p >= 8:
                    return found + [Arc(p, len(src), out[k], reset)]
                continue
            for q in range(p + 8, len(src)):
                if out[n] == src[q] and deep < 60:
                    rest = align(src, out, n, q, deep + 1)
                    if rest is not None:
                        return found + [Arc(p, q, out[k], reset)] + rest
        return None
    return found if p == len(src) else None


def optimized(text):
    g = GCode(text)
    GCodeArcOptimizerFilter().filter(g)
    return written(g)


class Vertex(object):
    """the state of the reference machine after one source line"""
    def __init__(self, raw, m):
        self.command, self.w = words(raw)
        self.x, self.y, self.z, self.e, self.f, self.fed = m.x, m.y, m.z, m.e, m.f, m.fed


def machine_run(text):
    m = Machine()
    states, out = [], []
    for raw in text:
        states.append(copy.copy(m))
        c, w = words(raw)
        if c is not None:
            m.step(c, w)
        out.append(Vertex(raw, m))
    states.append(copy.copy(m))
    return states, out


def angle(ax, ay, bx, by):
    return math.atan2(ax * by - ay * bx, ax * bx + ay * by)


def fit(ps):
    """least squares circle through points: centre and radius"""
    n = float(len(ps))
    mx, my = sum(p[0] for p in ps) / n, sum(p[1] for p in ps) / n
    us = [(p[0] - mx, p[1] - my) for p in ps]
    suu, suv, svv = sum(u * u for u, v in us), sum(u * v for u, v in us), sum(v * v for u, v in us)
    a = sum(u * (u * u + v * v) for u, v in us) / 2
    b = sum(v * (u * u + v * v) for u, v in us) / 2
    det = suu * svv - suv * suv
    if abs(det) < 1e-9:
        return None
    uc, vc = (a * svv - b * suv) / det, (b * suu - a * suv) / det
    return uc + mx, vc + my, math.sqrt(uc * uc + vc * vc + (suu + svv) / n)


def wrap(x):
    while x > math.pi:
        x -= 2 * math.pi
    while x < -math.pi:
        x += 2 * math.pi
    return x


def judge_path(text, out):
    runs = align(text, out)
    check(runs is not None, 'lines kept')
    states, vs = machine_run(text)
    for r in runs:
        s = states[r.first]
        m = copy.copy(s)
        c, w = words(r.text)
        u = 25.4 if m.inch else 1.0
        tol = 0.0011 * u
        run_ = [v for v in vs[r.first:r.last]]
        moves = [v for v in run_ if v.command is not None]
        check(all(v.command in LINEAR for v in moves), 'only linear moves are replaced')
        end = states[r.last]
        m.step(c, w)
        check(abs(m.x - end.x) <= tol and abs(m.y - end.y) <= tol, 'the arc ends at the last replaced point')
        check(w.z is None or abs(m.z - s.z) < tol, 'the arc keeps its height')
        check(all(close(v.z, s.z) for v in run_), 'the replaced moves are at the height of the start')
        check(abs(m.f - end.f) <= 0.06 * u, 'feed rate of the arc')
        check(all(close(v.f, end.f) for v in moves), 'the replaced moves have one feed rate')
        i, j = (w.i or 0) * u, (w.j or 0) * u
        cx, cy = s.x + i, s.y + j
        ds = [math.hypot(i, j)] + [math.hypot(v.x - cx, v.y - cy) for v in run_]
        check(max(ds) - min(ds) <= 0.03 + 2 * tol, 'every vertex is near the circle')
        check(ds[0] <= 200 + 0.015 + tol, 'radius of the arc')
        sign = 1 if c == 'G3' else -1
        px, py = s.x - cx, s.y - cy
        total = 0
        for v in run_:
            qx, qy = v.x - cx, v.y - cy
            a = angle(px, py, qx, qy) * sign
            slack = 2.5 * tol / max(min(ds), 1e-3) + 1e-6
            if a < -math.pi + 0.05:
                a += 2 * math.pi
            check(a >= -slack, 'every vertex is passed in the direction of the arc')
            total += a
            px, py = qx, qy
        check(total <= 2 * math.pi + 20 * slack, 'at most one turn')
        ext = [v.w.e is not None for v in run_]
        check(all(ext) or not any(ext), 'all or none of the replaced moves extrude')
        check((w.e is not None) == ext[0], 'the arc extrudes when the moves do')
        if ext[0]:
            lengths, fed = [], []
            px, py = s.x, s.y
            for v in run_:
                lengths.append(math.hypot(v.x - px, v.y - py))
                fed.append(v.fed)
                px, py = v.x, v.y
            if sum(lengths) > 1e-6:
                avg = sum(fed) / sum(lengths)
                for l, x in zip(lengths, fed):
                    if l > 1e-5:
                        check(abs(x / l - avg) <= 0.1501 * abs(avg) + 1e-6 / l, 'extrusion rate of a replaced move')


def judge_filament(text, out):
    runs = align(text, out)
    check(runs is not None, 'lines kept')
    states, vs = machine_run(text)
    for r in runs:
        s, end = states[r.first], states[r.last]
        m = copy.copy(s)
        c, w = words(r.text)
        run_ = vs[r.first:r.last]
        if w.e is None:
            check(r.reset is None, 'no reset without extrusion')
            check(close(s.e, end.e), 'no filament is lost')
            continue
        u = 25.4 if m.inch else 1.0
        ps = [(s.x, s.y)] + [(v.x, v.y) for v in run_]
        cx, cy = s.x + (w.i or 0) * u, s.y + (w.j or 0) * u
        radius = math.hypot(cx - s.x, cy - s.y)
        slack = (0.016 + 0.002 * u) / max(radius, 0.02)
        f = fit(ps)
        if f is not None and abs(f[0] - cx) <= 0.0011 * u and abs(f[1] - cy) <= 0.0011 * u:
            cx, cy, radius = f
            slack = 1e-4
        steps = [angle(a[0] - cx, a[1] - cy, b[0] - cx, b[1] - cy) for a, b in zip(ps, ps[1:])]
        fed = sum(v.fed for v in run_)
        path = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(ps, ps[1:]))
        m.step(c, w)
        if s.rele:
            want = sum(v.fed * (a / (2 * math.sin(a / 2)) if abs(a) > 1e-7 else 1) for v, a in zip(run_, steps))
            check(abs(m.fed - want) <= slack * abs(want) + 2e-5 * u, 'filament fed by the arc (relative extrusion)')
            check(r.reset is None, 'no reset in relative extrusion')
            continue
        arc = sum(abs(a) for a in steps) * radius
        want = arc * fed / path
        check(abs(m.fed - want) <= slack * abs(want) + 2e-5 * u + 1e-7 * abs(s.e), 'filament fed by the arc (absolute extrusion)')
        ratio = want / fed
        if ratio > 1.01 + max(slack, 2e-4):
            check(r.reset is not None, 'E is reset when the arc feeds more than 1% more')
        elif ratio < 1.01 - max(slack, 2e-4):
            check(r.reset is None, 'E is not reset when the arc feeds less than 1% more')
        if r.reset is not None:
            c2, w2 = words(r.reset)
            m.step(c2, w2)
            check(abs(m.e - end.e) <= 2e-5 * u, 'E is reset to the original end position')


@bounded('C17', runs=1500, note='lines kept, on programs with arcs')
def kept_native():
    text = gen('text', arcs)
    out = optimized(text)
    check(align(text, out) is not None, 'the output is the input with runs replaced by arcs')


@bounded('C17', runs=900, note='lines kept, on any program')
def any_native():
    text = gen('text', lambda rng: program(rng, Style(modes=1, emodes=1, g92=1, units=1, other=1, moves=12, arcs=0.05), 40))
    out = optimized(text)
    check(align([t.strip() for t in text], out) is not None, 'the output is the input with runs replaced by arcs')


@bounded('C18', runs=1500, note='geometry of the arcs')
def path_native():
    text = gen('text', arcs)
    judge_path(text, optimized(text))


@bounded('C19', runs=1500, note='filament of the arcs')
def filament_native():
    text = gen('text', arcs)
    judge_filament(text, optimized(text))


@bounded(['C17', 'C18', 'C19'], runs=80, note='gcode_optimize_arcs')
def arcs_cli_native():
    text = gen('text', arcs)
    out = run('gcodeutils.gcode_optimize_arcs', ['-q', '-q'], text)
    judge_path(text, out)
    judge_filament(text, out)


@bounded('C17', runs=100, note='one optimizer for several programs')
def reuse_native():
    a, b = gen('a', arcs), gen('b', arcs)
    f = GCodeArcOptimizerFilter()
    ga, gb = GCode(a), GCode(b)
    f.filter(ga)
    f.filter(gb)
    check(align(a, written(ga)) is not None and align(b, written(gb)) is not None, 'both programs keep their lines')
    check(written(gb) == optimized(b), 'the second program is optimized as if it were the first')


# ---------------------------------------------------------------- C17: any program
class Seg(Line):
    """a line of the program"""


SEG = Schema({'command': ChoiceG([None, 'G0', 'G1', 'G2', 'G92', 'M106']), 'current_x': RealG(), 'current_y': RealG(), 'current_z': RealG(),
              'current_e': RealG(), 'current_f': RealG()})


class Watched(GCodeArcOptimizerFilter):
    """the optimizer, watched from outside"""
    def opcode_filter(self, opcode):
        return self.flow.step(self, opcode)


def optimize(f, opcode):
    return GCodeArcOptimizerFilter.opcode_filter(f, opcode)


class Flow(object):
    """what went in and did not come out yet, and what came out"""

    def __init__(self, f):
        self.f = f
        self.pending = []
        self.out = []
        self.made = []
        self.turns = self.turns2 = 0
        self.started = self.started2 = False
        self.first = None
        self.out2 = []

    def inv_started(self):
        return self.started == (self.turns > 0)

    def inv_started2(self):
        return self.started2 == (self.turns2 > 0)

    def inv_queue(self):
        return same_objects(self.f.queue, self.pending)

    def inv_valid(self):
        return not self.f.valid_circle or len(self.f.queue) >= 9

    def step(self, f, opcode):
        if opcode is self.first or self.turns2 > 0:
            self.started2 = True
            self.turns2 += 1
        else:
            self.started = True
            self.turns += 1
        self.made = []
        r = optimize(f, opcode)
        by_case(r, self.answer, opcode)
        return r

    def answer(self, r, opcode):
        known = self.pending + [opcode]
        check(r is not None, 'an answer')
        if isinstance(r, Line):
            r = [r]
        n = len(r)
        m = len(self.made)
        if m == 0:
            check(n <= len(known), 'nothing is invented')
            check(same_objects(r, known[:n]), 'what comes out is what went in, in order')
            self.pending = known[n:]
        else:
            check(len(known) >= 10, 'at least 8 lines are replaced')
            keep = [known[0]] + self.made
            check(n == len(keep) or n == len(keep) + 1, 'one run is replaced')
            check(same_objects(r[:m + 1], keep), 'the run is replaced by an arc')
            if n == m + 2:
                check(r[m + 1] is opcode, 'the line that ends the run is kept')
                self.pending = []
            else:
                self.pending = [opcode]
        if self.turns2 > 0:
            self.out2 = self.out2 + r
        else:
            self.out = self.out + r


def judged(f):
    """some verdict; C18 is about what it promises"""
    return anyreal() > 0, None


def arc_of(f):
    """to_gcode: the first line of the queue, an arc for the lines between, perhaps a reset of E, and the last line"""
    check(len(f.queue) >= 10, 'at least 8 lines are replaced')
    first, last = f.queue[0], f.queue.pop()
    f.valid_circle = False
    arc, reset = Seg(), Seg()
    if anyreal() > 0:
        f.flow.made = [arc, reset]
        return [first, arc, reset, last]
    f.flow.made = [arc]
    return [first, arc, last]


class Programs(object):
    """what optimisation needs of a program"""
    partial = True

    def __init__(self, layers):
        self.all_layers = layers


ARC_PARTS = dict((getattr(GCodeArcOptimizerFilter, n), c) for n, c in (('queue_valid', judged), ('to_gcode', arc_of))
                 if hasattr(GCodeArcOptimizerFilter, n))


@driver('C17', runs=0, bmc=(), uses=ARC_PARTS)
def any_layer():
    """a layer of any length, with any moves"""
    needs(GCodeArcOptimizerFilter, 'queue_valid', 'to_gcode')
    f = Watched()
    f.flow = Flow(f)
    g = Programs([Layer(objects('lines', Seg, SEG, 1))])
    f.filter(g)
    check(same_objects(g.all_layers[0], f.flow.out + f.flow.pending), 'nothing else happens to the program')


@driver('C17', runs=0, bmc=(), uses=ARC_PARTS)
def any_layers():
    """another layer, after whatever the first one left"""
    needs(GCodeArcOptimizerFilter, 'queue_valid', 'to_gcode')
    f = Watched()
    f.flow = Flow(f)
    more = objects('more', Seg, SEG, 1)
    f.flow.first = more[0]
    g = Programs([Layer(objects('lines', Seg, SEG, 1)), Layer(more)])
    f.filter(g)
    check(same_objects(g.all_layers[0], f.flow.out), 'the first layer is what came out of it')
    check(same_objects(g.all_layers[1], f.flow.out2 + f.flow.pending), 'the last layer is what came out of it, and what was pending')


# ---------------------------------------------------------------- C17, C18, C19: the arc of any queue
class Vert(Line):
    """a move of the queue"""


VERT = Schema({'command': ChoiceG(['G0', 'G1', None]), 'x': OptG(RealG()), 'y': OptG(RealG()), 'e': OptG(RealG()), 'relative': BoolG(), 'relative_e': BoolG(),
               'imperial': BoolG(), 'current_x': RealG(), 'current_y': RealG(), 'current_z': RealG(), 'current_e': RealG(), 'current_f': RealG()})


class Fitted(GCodeArcOptimizerFilter):
    """an optimizer with a valid circle"""


def circle_of(f):
    check(same_objects(f.queue, f.run), 'the circle of the run is asked for')
    return False, f.circle


def unsplit_of(line):
    """C05: the text is made of the words"""
    line.raw = anystr()




STEP = Schema({'turn': RealG(), 'fed': RealG()})


class Table(object):
    """numbers by place"""
    def __init__(self, numbers):
        self.numbers = numbers

    def values(self):
        return self.numbers


class Step(object):
    """the turn between two points of the run"""


def turns(f, circle):
    check(circle is f.circle, 'the turns of the circle of the run')
    return [s.turn for s in f.steps]


def measures(f):
    check(same_objects(f.queue, f.run), 'the run is measured')
    return {'filament': Table([s.fed for s in f.steps]), 'total': {'filament': f.fed, 'path': f.path}, 'avg': {'ratio': f.fed / f.path, 'filament': f.fed / len(f.queue), 'path': f.path / len(f.queue)}}


FIT_PARTS = {}
for n, c in (('get_circle', circle_of), ('get_phase_diffs', turns), ('get_distances', measures)):
    if hasattr(GCodeArcOptimizerFilter, n):
        FIT_PARTS[getattr(GCodeArcOptimizerFilter, n)] = c
if hasattr(A, 'unsplit'):
    FIT_PARTS[A.unsplit] = unsplit_of


def replaced(extruding, relative_e=False):
    queue = objects('queue', Vert, VERT, 10)
    last = queue[-1]
    f = Fitted()
    f.queue = list(queue)
    run = list(queue)
    run.pop()
    end = run[-1]
    first = queue[0]
    circle = A.Circle(real('radius', 0), A.Point(real('cx'), real('cy')), real('turn'),
                      A.Point(first.current_x, first.current_y), A.Point(end.current_x, end.current_y))
    assume(circle.direction != 0)
    f.circle = circle
    f.run = run
    f.steps = objects('steps', Step, STEP, 1)
    assume(all(-math.pi <= s.turn and s.turn <= math.pi for s in f.steps))
    assume(circle.radius > 0)
    f.fed, f.path = real('fed'), real('path')
    assume(f.fed > 0 and f.path > 0)
    assume((queue[1].e is not None) == extruding)
    assume(not extruding or end.relative_e == relative_e)
    f.valid_circle = True
    r = f.to_gcode()
    check(r[0] is first and r[-1] is last, 'the ends of the run are kept')
    arc = r[1]
    check(arc.command == ('G3' if circle.direction > 0 else 'G2'), 'direction of travel')
    check(abs(arc.i - (circle.center.x - first.current_x)) <= 0.0006 and abs(arc.j - (circle.center.y - first.current_y)) <= 0.0006, 'centre')
    check(arc.imperial == end.imperial, 'units')
    check(not f.valid_circle, 'nothing is left of the circle')
    if end.relative:
        check(abs(arc.x - (end.current_x - first.current_x)) <= 0.0006 and abs(arc.y - (end.current_y - first.current_y)) <= 0.0006, 'end of the arc')
    return f, r, first, end, arc


@driver(['C17', 'C18'], runs=0, bmc=(), uses=FIT_PARTS)
def travel_arc():
    """to_gcode, for any accepted run of travel moves"""
    needs(GCodeArcOptimizerFilter, 'get_circle', 'to_gcode')
    f, r, first, end, arc = replaced(False)
    check(len(r) == 3, 'one line replaces the run')
    check(arc.e is None, 'no extrusion')


@driver(['C17', 'C18', 'C19'], runs=0, bmc=(), uses=FIT_PARTS, linear=True)
def absolute_arc():
    """to_gcode, for any accepted run of extruding moves in absolute extrusion mode"""
    needs(GCodeArcOptimizerFilter, 'get_circle', 'to_gcode', 'get_distances', 'get_phase_diffs')
    f, r, first, end, arc = replaced(True)
    check(arc.e is not None and not arc.relative_e, 'absolute extrusion')
    check(arc.e == first.current_e + f.circle.radius * sum([abs(t) for t in [s.turn for s in f.steps]]) * (f.fed / f.path), 'arc length times average extrusion')
    more = (arc.e - first.current_e) / f.fed
    if more > 1.0100001:
        check(len(r) == 4, 'the position is reset after an arc that feeds more')
    elif more < 1.0099999:
        check(len(r) == 3, 'the position is not reset')
    if len(r) == 4:
        check(r[2].command == 'G92' and r[2].e == end.current_e and r[2].x is None and r[2].y is None and r[2].z is None, 'reset to the original end position')


@driver(['C17', 'C18', 'C19'], runs=0, bmc=(), uses=FIT_PARTS)
def relative_arc():
    """to_gcode, for any accepted run of extruding moves in relative extrusion mode"""
    needs(GCodeArcOptimizerFilter, 'get_circle', 'to_gcode', 'get_distances', 'get_phase_diffs')
    f, r, first, end, arc = replaced(True, True)
    check(arc.e is not None and arc.relative_e, 'relative extrusion')
    check(len(r) == 3, 'no reset')
    check(arc.e == sum([s.fed * (s.turn / (2 * math.sin(s.turn / 2))) if s.turn else s.fed for s in f.steps]), 'extrusions scaled by arc over chord')
