"""C15, C16: visiting a program, and the pause at a layer."""
from pydv.rt import driver, bounded, gen, check, assume, close, same_objects, objects, Schema, OptG, RealG, TextG, real, integer, numbers
from gcodeutils.gcoder import GCode, Layer, Line
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.visitor import GCodeVisitor
from gcodeutils.visit.pause_at_layer import PauseAtLayer
from contracts.ref import words, fmt, layered, program, Style, decorate
from contracts.cli import run, written


def any_program(rng):
    r = rng.random()
    if r < 0.6:
        p = layered(rng, n_layers=rng.randint(1, 9), first=rng.choice([0.2, 0.3, 0.35]), step=rng.choice([0.1, 0.2, 0.25, 0.304, 0.004]),
                    hop=rng.choice([0, 0, 0.3]), printed=0.8)
        if rng.random() < 0.3:
            # the same heights once more: a second object, or a repeated layer
            p += layered(rng, n_layers=rng.randint(1, 4), first=rng.choice([0.2, 0.3]), step=0.2, start=False)
        if rng.random() < 0.2:
            p = p + p
    else:
        p = program(rng, Style(units=0))
    return p


def heights(g, digits):
    return sorted(set(round(z, digits) for z in g.all_zs if z is not None))


class Recorder(GCodeVisitor):
    def __init__(self):
        self.calls = []

    def note(self, what, obj, i):
        self.calls.append((what, obj, i.gcode, i.layer_number, i.layer_index, i.line_number, i.is_printed))

    def will_visit_layer(self, layer, info):
        self.note('will', layer, info)

    def visit_line(self, line, info):
        self.note('line', line, info)

    def did_visit_layer(self, layer, info):
        self.note('did', layer, info)


@bounded('C16', runs=600, note='the calls a visitor receives')
def visit_native():
    text = gen('text', any_program)
    digits = gen('digits', lambda rng: rng.choice([2, 2, 2, 0, 1, 3]))
    g = GCode(text)
    v = Recorder()
    (GCodeIterator(g) if digits == 2 else GCodeIterator(g, digits)).accept(v)
    zs = heights(g, digits)
    calls = iter(v.calls)
    n = 0

    def expect(what, obj, i, line, layer):
        c = next(calls, None)
        check(c is not None, 'every layer and line is visited')
        check(c[0] == what and c[1] is obj and c[2] is g, 'calls in order')
        printed = layer.z is not None and round(layer.z, digits) in zs
        check(c[4] == i, 'position of the layer')
        check(line is None or c[5] == line, 'running line number')
        check(bool(c[6]) == printed, 'printed flag')
        check(not printed or c[3] == zs.index(round(layer.z, digits)), 'rank of the height')

    for i, layer in enumerate(g.all_layers):
        expect('will', layer, i, None, layer)
        for line in layer:
            expect('line', line, i, n, layer)
            n += 1
        expect('did', layer, i, None, layer)
    check(next(calls, None) is None, 'nothing else is called')


@bounded('C15', runs=800, note='pauses inserted at chosen layers')
def pause_native():
    text = gen('text', any_program)
    digits = gen('digits', lambda rng: rng.choice([2, 2, 2, 0, 1, 3]))
    wanted = gen('layers', lambda rng: [rng.randint(-1, 9) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))])
    g = GCode(text)
    g0 = [list(l) for l in g.all_layers]
    raws = [[x.raw for x in l] for l in g0]
    zs = heights(g, digits)
    (GCodeIterator(g) if digits == 2 else GCodeIterator(g, digits)).accept(PauseAtLayer(wanted))
    check(len(g.all_layers) == len(g0), 'number of layers')
    for layer, old, raw in zip(g.all_layers, g0, raws):
        pause = layer.z is not None and round(layer.z, digits) in zs and zs.index(round(layer.z, digits)) in wanted
        now = list(layer)
        if pause:
            check(len(now) and now[0].raw == 'M226' and not any(now[0] is o for o in old), 'one pause at the beginning')
            now = now[1:]
        check(same_objects(now, old) and [x.raw for x in now] == raw, 'every other line keeps its place and content')


@bounded('C15', runs=60, note='gcode_mod -p')
def pause_cli_native():
    text = gen('text', any_program)
    n = gen('layer', lambda rng: rng.randint(0, 9))
    assume(text)
    g = GCode(text)
    zs = heights(g, 2)
    want = []
    for layer in g.all_layers:
        if layer.z is not None and round(layer.z, 2) in zs and zs.index(round(layer.z, 2)) == n:
            want.append('M226')
        want += [l.raw for l in layer]
    check(run('gcodeutils.gcode_mod', ['-p', str(n)], text) == want, 'written program')


# ---------------------------------------------------------------- any number of layers and lines
class Cmd(Line):
    """a line of the program"""


LAYER = Schema({'z': OptG(RealG())}, items=(Cmd, Schema({'raw': TextG(['G1', 'M104'])})))


class Program(object):
    """what visiting needs of a program"""
    partial = True

    def __init__(self, layers, zs):
        self.all_layers = layers
        self.all_zs = zs


def is_printed(z, zs):
    return z is not None and round(z, 2) in zs


class Guide(GCodeVisitor):
    """expects the calls in order"""
    def __init__(self, g, layers, zs):
        self.g = g
        self.layers = layers
        self.zs = zs
        self.i = 0
        self.p = 0
        self.n = 0
        self.inside = False

    def told(self, layer, info):
        check(self.i < len(self.layers) and layer is self.layers[self.i], 'the layers in order')
        check(info.gcode is self.g, 'the program')
        check(info.layer_index == self.i, 'position of the layer')
        self.ranked(layer.z, info)

    def ranked(self, z, info):
        printed = is_printed(z, self.zs)
        check(bool(info.is_printed) == printed, 'printed flag')
        if printed:
            check(info.layer_number == self.zs.index(round(z, 2)), 'rank of the height')

    def will_visit_layer(self, layer, info):
        check(not self.inside, 'calls in order')
        self.told(layer, info)
        check(info.line_number == self.n, 'running line number')
        self.inside = True
        self.p = 0

    def visit_line(self, line, info):
        check(self.inside and self.i < len(self.layers), 'calls in order')
        layer = self.layers[self.i]
        check(self.p < len(layer) and line is layer[self.p], 'the lines in order')
        check(info.gcode is self.g and info.layer_index == self.i and info.line_number == self.n, 'running line number')
        self.ranked(layer.z, info)
        self.p = self.p + 1
        self.n = self.n + 1

    def did_visit_layer(self, layer, info):
        check(self.inside, 'calls in order')
        self.told(layer, info)
        check(self.p == len(layer), 'every line of the layer is visited')
        self.inside = False
        self.i = self.i + 1


@driver('C16', runs=0, bmc=())
def any_visit():
    """any number of layers with any lines; two printed heights"""
    layers = objects('layers', Layer, LAYER)
    a, b = real('a'), real('b')
    g = Program(layers, set([a, b, None]))
    v = Guide(g, layers, heights(g, 2))
    GCodeIterator(g).accept(v)
    check(not v.inside and v.i == len(layers), 'every layer is visited')


# ---------------------------------------------------------------- the pause
class Printed(Program):
    """takes the edits asked for, by the contract of prepend_to_layer (C04)"""
    def __init__(self, layers, zs):
        self.all_layers = layers
        self.all_zs = zs
        self.pauses = 0
        self.at = 0

    def prepend_to_layer(self, commands, i):
        check(len(commands) == 1 and commands[0].strip() == 'M226', 'the pause is one command')
        check(i == self.at, 'the layer paused is the one visited')
        self.pauses = self.pauses + 1


class Watched(GCodeVisitor):
    """one layer after the other: is it paused exactly when it should be?"""
    def __init__(self, g, v, zs, wanted):
        self.g = g
        self.v = v
        self.zs = zs
        self.wanted = wanted
        self.before = 0

    def will_visit_layer(self, layer, info):
        self.before = self.g.pauses
        self.v.will_visit_layer(layer, info)

    def visit_line(self, line, info):
        self.v.visit_line(line, info)

    def did_visit_layer(self, layer, info):
        self.v.did_visit_layer(layer, info)
        n = 0
        if is_printed(layer.z, self.zs):
            if self.zs.index(round(layer.z, 2)) in self.wanted:
                n = 1
        check(self.g.pauses == self.before + n, 'one pause in each layer at a chosen height')
        self.g.at = self.g.at + 1


@driver('C15', runs=0, bmc=())
def any_pause():
    """any number of layers with any lines; two printed heights, two chosen layers"""
    layers = objects('layers', Layer, LAYER)
    a, b = real('a'), real('b')
    g = Printed(layers, set([a, b, None]))
    zs = heights(g, 2)
    wanted = [integer('m'), integer('n')]
    v = Watched(g, PauseAtLayer(wanted), zs, wanted)
    GCodeIterator(g).accept(v)
    check(g.at == len(layers), 'every layer is visited')


@driver('C16', runs=0, bmc=(), linear=True)
def any_heights():
    """any number of layers with any lines, and any set of heights"""
    layers = objects('layers', Layer, LAYER)
    g = Program(layers, numbers('heights'))
    v = Guide(g, layers, heights(g, 2))
    GCodeIterator(g).accept(v)
    check(not v.inside and v.i == len(layers), 'every layer is visited')


@driver('C15', runs=0, bmc=(), linear=True)
def any_heights_pause():
    """any number of layers with any lines, any set of heights and two chosen layers"""
    layers = objects('layers', Layer, LAYER)
    g = Printed(layers, numbers('heights'))
    zs = heights(g, 2)
    wanted = [integer('m'), integer('n')]
    v = Watched(g, PauseAtLayer(wanted), zs, wanted)
    GCodeIterator(g).accept(v)
    check(g.at == len(layers), 'every layer is visited')
