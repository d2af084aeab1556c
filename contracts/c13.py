"""C13, C14: temperature calibration."""
from pydv.rt import (driver, bounded, gen, check, assume, close, one, objects, Schema, OptG, RealG, TextG, real, integer, opaque, lines_of, place_of, needs)
from gcodeutils.gcoder import GCode, Layer, Line
from gcodeutils import gcode_tempcal as T
from contracts.ref import Machine, words, fmt, layered, program, Style
from contracts.cli import run
import io


def sliced(rng):
    r = rng.random()
    if r < 0.85:
        p = layered(rng, n_layers=rng.randint(1, 14), first=rng.choice([0.2, 0.3]), hop=rng.choice([0, 0, 0.2]), printed=0.9)
        if rng.random() < 0.3:
            p.insert(rng.randint(0, len(p)), 'M104 S%d' % rng.choice([0, 200, 230]))
        if rng.random() < 0.1:
            p.append('M104 S0')
    else:
        p = program(rng, Style(other=2, units=0, modes=0, g92=1, g28=1), 20)
    return [l + ' ;own' if words(l)[0] == 'M104' else l for l in p]


def params(rng):
    return dict(start=rng.choice([240, 200, 180, 150, 250, 260, 130, 215]), end=rng.choice([180, 210, 250, 150, 200, 130, 270, 199]),
                minz=rng.choice([0.1, 0.1, 0.0, 0.25, 0.5, 1.0, 3.0, -1.0]), steps=rng.choice([1, 2, 3, 5, 10, 10, 7]),
                kind=rng.choice(['step', 'continuous']))


def temperature(text):
    c, w = words(text)
    return w.s if c == 'M104' and 'own' not in text else None


def expected(g, ps):
    """(bottom, top) of the gradient, or None"""
    zs = [l[0].current_z for l in g.all_layers if len(l) and l[0].current_z is not None and l[0].current_z > ps['minz']]
    if not zs or min(zs) >= g.zmax:
        return None
    return min(zs), g.zmax


def judge(text, out, ps, placement, values):
    """split the written text into the original lines and the inserted commands, layer by layer"""
    g = GCode(text)
    bt = expected(g, ps)
    low, high = bt
    safe = 150 <= min(ps['start'], ps['end']) and max(ps['start'], ps['end']) <= 250
    pos = 0
    temps = []
    last = None
    for layer in g.all_layers:
        if not len(layer):
            continue
        z = layer[0].current_z
        t = temperature(out[pos]) if pos < len(out) else None
        if t is not None:
            pos += 1
            if placement:
                check(z is not None and low <= z <= high, 'inserted before a layer of the gradient')
                check(t != last or not safe, 'inserted only when the target changes')
            last = t
            if values:
                check(150 <= t <= 250, 'temperature in the safe range')
                check(min(ps['start'], ps['end']) - 0.051 <= t <= max(ps['start'], ps['end']) + 0.051, 'temperature between start and end')
                if ps['kind'] == 'step':
                    i = (t - ps['start']) * ps['steps'] / float(ps['end'] - ps['start']) if ps['end'] != ps['start'] else 0
                    near = ps['start'] + round(i) * (ps['end'] - ps['start']) / float(ps['steps'])
                    check(abs(t - near) <= 0.051 and 0 <= round(i) <= ps['steps'], 'one of the steps')
            temps.append((z, t))
        if values and safe and z is not None and last is not None:
            if z == low:
                check(abs(last - ps['start']) <= 0.051, 'start temperature at the bottom')
            if z == high:
                check(abs(last - ps['end']) <= 0.051, 'end temperature at the top')
        if values and safe and z is not None and low <= z <= high:
            check(last is not None, 'a target is in force in the gradient')
        for l in layer:
            if placement:
                check(pos < len(out) and out[pos] == l.raw, 'original lines kept in order')
            pos += 1
    if placement:
        check(pos == len(out), 'nothing after the program')
    if values:
        s = sorted(temps)
        for (z1, t1), (z2, t2) in zip(s, s[1:]):
            if z1 < z2:
                check(abs(t2 - ps['end']) <= abs(t1 - ps['end']) + 0.101, 'never moves away from the end temperature')


def produce(text, ps, cli):
    if cli:
        args = [str(ps['start']), str(ps['end']), '-z', str(ps['minz'])]
        args += ['-c'] if ps['kind'] == 'continuous' else ['-s', str(ps['steps'])]
        return run('gcodeutils.gcode_tempcal', args, text)
    cls = T.GCodeStepTempGradient if ps['kind'] == 'step' else T.GCodeContinuousTempGradient
    o = io.StringIO()
    cls(gcode=GCode(text), start_temp=ps['start'], end_temp=ps['end'], min_z_change=ps['minz'], steps=ps['steps']).write(o)
    return o.getvalue().split('\n')[:-1]


@bounded('C13', runs=1200, note='temperatures in the calibrated program')
def gradient_native():
    text = gen('text', sliced)
    ps = gen('params', params)
    assume(text and expected(GCode(text), ps))
    judge(text, produce(text, ps, False), ps, False, True)


@bounded('C14', runs=1200, note='placement of the inserted commands')
def insertion_native():
    text = gen('text', sliced)
    ps = gen('params', params)
    assume(text and expected(GCode(text), ps))
    judge(text, produce(text, ps, False), ps, True, False)


@bounded(['C13', 'C14'], runs=60, note='gcode_tempcal')
def tempcal_cli_native():
    text = gen('text', sliced)
    ps = gen('params', params)
    assume(text and expected(GCode(text), ps) and ps['minz'] >= 0)
    judge(text, produce(text, ps, True), ps, True, True)


# ---------------------------------------------------------------- two layers of any height
class Raw(Line):
    """a line of the program"""


RAW = Schema({'raw': TextG(['G1', 'G92', 'M106']), 'current_z': OptG(RealG())})


class Model(object):
    """what calibrating needs of a program"""
    partial = True

    def __init__(self, layers, zmax):
        self.all_layers = layers
        self.zmax = zmax


class Paper(object):
    """what is written: the lines of two layers, and temperatures in between"""
    def __init__(self, lines, low, high, start, end, steps):
        # steps: the number of steps when it is known
        self.seen = []
        self.lines = lines
        self.low = low
        self.high = high
        self.start = start
        self.end = end
        self.steps = steps
        self.n = 0
        self.target = None
        self.prev = None

    def write(self, s):
        if s != '\n':
            self.print_line(s.rstrip('\n'))

    def print_line(self, s):
        if opaque(s):
            check(self.n < len(self.lines) and s == self.lines[self.n].raw, 'original lines kept in order')
            z = self.lines[self.n].current_z
            if z is not None and self.low <= z <= self.high:
                check(self.target is not None, 'a target is in force in the gradient')
                if z == self.low:
                    check(abs(self.target - self.start) <= 0.051, 'start temperature at the bottom')
                if z == self.high:
                    check(abs(self.target - self.end) <= 0.051, 'end temperature at the top')
            self.n += 1
        else:
            c, w = words(s)
            t = w.s
            check(c == 'M104' and t is not None, 'only temperature commands are inserted')
            check(150 <= t <= 250, 'temperature in the safe range')
            check(min(self.start, self.end) - 0.051 <= t <= max(self.start, self.end) + 0.051, 'temperature between start and end')
            check(t != self.target, 'inserted only when the target changes')
            z = self.lines[self.n].current_z
            check(z is not None and self.low <= z <= self.high, 'inserted before a layer of the gradient')
            for y, v in self.seen if len(self.lines) == 2 else []:
                if y < z:
                    check(abs(t - self.end) <= abs(v - self.end) + 0.101, 'never moves away from the end temperature')
                if y > z:
                    check(abs(v - self.end) <= abs(t - self.end) + 0.101, 'never moves away from the end temperature')
            self.seen.append((z, t))
            if self.steps is not None:
                near = False
                for i in range(self.steps + 1):
                    if abs(t - (self.start + i * (self.end - self.start) / self.steps)) <= 0.051:
                        near = True
                check(near, 'one of the steps')
            self.target = t


def lowest(lines, minz):
    """the lowest of the heights above minz, or None"""
    low = None
    for l in lines:
        z = l.current_z
        if z is not None and z > minz and (low is None or z < low):
            low = z
    return low


def calibrate(cls, lines, steps, known=None):
    """the gradient over layers of one line each"""
    zmax, minz = real('zmax'), real('minz')
    start, end = real('start', 150, 250), real('end', 150, 250)
    low = lowest(lines, minz)
    assume(low is not None and low < zmax)
    w = Paper(lines, low, zmax, start, end, known)
    g = Model([Layer([l]) for l in lines], zmax)
    cls(gcode=g, start_temp=start, end_temp=end, min_z_change=minz, steps=steps).write(w)
    check(w.n == len(lines), 'nothing is lost')


def two():
    return [one('a', Raw, RAW), one('b', Raw, RAW)]


@driver(['C13', 'C14'], runs=0, bmc=())
def continuous_heights():
    """two layers of one line at any heights"""
    calibrate(T.GCodeContinuousTempGradient, two(), 1)


@driver(['C13', 'C14'], runs=0, bmc=())
def three_heights():
    calibrate(T.GCodeContinuousTempGradient, two() + [one('c', Raw, RAW)], 1)


@driver(['C13', 'C14'], runs=0, bmc=())
def three_heights_steps():
    calibrate(T.GCodeStepTempGradient, two() + [one('c', Raw, RAW)], 4)


@driver(['C13', 'C14'], runs=0, bmc=())
def step_heights():
    """two layers of one line at any heights, any number of steps"""
    calibrate(T.GCodeStepTempGradient, two(), integer('steps', 1))


@driver('C13', runs=0, bmc=())
def one_step():
    calibrate(T.GCodeStepTempGradient, two(), 1, 1)


@driver('C13', runs=0, bmc=())
def three_steps():
    calibrate(T.GCodeStepTempGradient, [one('a', Raw, RAW)], 3, 3)


@driver('C13', runs=0, bmc=())
def ten_steps():
    calibrate(T.GCodeStepTempGradient, [one('a', Raw, RAW)], 10, 10)


# ---------------------------------------------------------------- any number of layers and lines
class Sheet(object):
    """what is written: the lines of all layers, and temperatures in between"""
    def __init__(self, layers, low, high):
        self.layers = layers
        self.lines = lines_of(layers)
        self.low = low
        self.high = high
        self.n = 0

    def write(self, s):
        if s != '\n':
            self.print_line(s.rstrip('\n'))

    def print_line(self, s):
        check(self.n < len(self.lines), 'nothing after the program')
        line = self.lines[self.n]
        if opaque(s):
            check(s == line.raw, 'original lines kept in order')
            self.n = self.n + 1
        else:
            check(words(s)[0] == 'M104', 'only temperature commands are inserted')
            layer, pos = place_of(self.layers, self.n)
            check(pos == 0, 'inserted at the start of a layer')
            z = line.current_z
            check(z is not None and self.low < z <= self.high, 'inserted before a layer of the gradient')


RAWS = Schema({'z': OptG(RealG())}, items=(Raw, RAW))


def any_layers(cls, steps):
    layers = objects('layers', Layer, RAWS)
    zmax, minz = real('zmax'), real('minz')
    start, end = real('start', 0, 400), real('end', 0, 400)
    w = Sheet(layers, minz, zmax)
    g = Model(layers, zmax)
    refused = False
    try:
        cls(gcode=g, start_temp=start, end_temp=end, min_z_change=minz, steps=steps).write(w)
    except RuntimeError:
        refused = True
    check(w.n == (0 if refused else len(w.lines)), 'nothing is lost')


@driver('C14', runs=0, bmc=(), linear=True)
def any_layers_continuous():
    """any number of layers with any lines at any heights"""
    any_layers(T.GCodeContinuousTempGradient, 1)


@driver('C14', runs=0, bmc=(), linear=True)
def any_layers_steps():
    any_layers(T.GCodeStepTempGradient, integer('steps', 1))


# ---------------------------------------------------------------- the target as a function of height
def prepared(cls, steps):
    """a gradient over known heights"""
    needs(cls, '_parse_gcode', 'get_temp_for_current_layer')
    zmax, minz = real('zmax'), real('minz')
    start, end = real('start', 0, 400), real('end', 0, 400)
    bottom = one('a', Raw, RAW)
    low = bottom.current_z
    assume(low is not None and minz < low < zmax)
    m = cls(gcode=Model([Layer([bottom])], zmax), start_temp=start, end_temp=end, min_z_change=minz, steps=steps)
    m._parse_gcode()
    return m, low, zmax, start, end


def target(m, z):
    m.current_z = z
    return m.get_temp_for_current_layer()


def target_contract(cls, steps):
    m, low, high, start, end = prepared(cls, steps)
    z = real('z')
    assume(low <= z <= high)
    t = target(m, z)
    check(min(start, end) <= t <= max(start, end), 'temperature between start and end')
    check(t == start or z != low, 'start temperature at the bottom')
    check(t == end or z != high, 'end temperature at the top')
    if end != start and cls is T.GCodeStepTempGradient:
        i = round((t - start) * steps / (end - start))
        check(0 <= i <= steps and t == start + i * (end - start) / steps, 'one of the steps')
    y = real('y')
    assume(low <= y < z)
    check(abs(t - end) <= abs(target(m, y) - end), 'never moves away from the end temperature')


@driver('C13', runs=0, bmc=())
def continuous_contract():
    """any heights and temperatures"""
    target_contract(T.GCodeContinuousTempGradient, 1)


@driver('C13', runs=0, bmc=())
def step_contract():
    """any heights, temperatures and number of steps"""
    target_contract(T.GCodeStepTempGradient, integer('steps', 1))
