"""C09: filters splice their output into the program and leave everything else alone."""
from pydv.rt import driver, same_objects, bounded, objects, choice, value, check, assume, Schema, OptG, ChoiceG, gen, IntG
from gcodeutils.gcoder import Line, Layer, GCode, raw_to_line
from contracts.ref import program, layered
from contracts.cli import written
from gcodeutils.filter.filter import GCodeFilter


class Cmd(Line):
    """a line with the answer the filter gives for it"""


CMD = Schema({'verdict': ChoiceG(['none', 'self', 'new', 'empty', 'list1', 'list2', 'list3', 'tuple'])})


class AnyFilter(GCodeFilter):
    """a filter with an arbitrary answer per line; records what the specification expects"""
    def __init__(self):
        self.seen = []
        self.expect = []
        self.silent = True

    def inv_silent(self):
        return not self.silent or same_objects(self.expect, self.seen)

    def opcode_filter(self, opcode):
        self.seen.append(opcode)
        v = opcode.verdict
        if v == 'none':
            self.expect.append(opcode)
            return None
        self.silent = False
        if v == 'self':
            self.expect.append(opcode)
            return opcode
        if v == 'new':
            a = Cmd('M105')
            self.expect.append(a)
            return a
        if v == 'empty':
            return []
        if v == 'list1':
            a = Cmd('M105')
            self.expect.append(a)
            return [a]
        if v == 'list2':
            a = Cmd('M105')
            self.expect.append(a)
            self.expect.append(opcode)
            return [a, opcode]
        if v == 'list3':
            a = Cmd('M105')
            b = Cmd('M106')
            self.expect.append(a)
            self.expect.append(opcode)
            self.expect.append(b)
            return [a, opcode, b]
        a = Cmd('M105')
        self.expect.append(opcode)
        self.expect.append(a)
        return (opcode, a)


@driver('C09')
def one_layer():
    """parse_layer, for a layer of any length and any answers"""
    lines = objects('lines', Cmd, CMD)
    before = list(lines)
    layer = Layer(lines)
    f = AnyFilter()
    f.parse_layer(layer, f.opcode_filter)
    check(same_objects(f.seen, before), 'every line is visited exactly once, in order')
    check(same_objects(layer, f.expect), 'the layer is the splice of the answers')


class Programs(object):
    """a program: its layers"""
    def __init__(self, layers):
        self.all_layers = layers


class Visits(GCodeFilter):
    """records what it visits"""
    def __init__(self):
        self.seen = []

    def opcode_filter(self, opcode):
        self.seen.append(opcode)
        return None


def parse_layer_spec(self, layer, opcode_filter):
    # the contract proved by one_layer: opcode_filter visits every line of the layer once, in order
    check(opcode_filter == self.opcode_filter, 'each layer gets the function of the filter')
    self.seen.append(layer)


def contents(layers):
    return [l for layer in layers for l in layer]


def contents_spec(layers):
    return layers


LAYER = Schema({'z': IntG(0, 3)}, make=lambda r: Layer([raw_to_line('M105') for _ in range(r['z'])]))


@driver('C09', uses={GCodeFilter.parse_layer: parse_layer_spec, contents: contents_spec})
def all_layers():
    """filter: every layer of a program is parsed exactly once, in order, with the filter's own function"""
    layers = objects('layers', Layer, LAYER)
    before = list(layers)
    f = Visits()
    f.filter(Programs(layers))
    check(same_objects(f.seen, contents(before)), 'every layer is visited exactly once, in order')
    check(same_objects(layers, before), 'no layer is added or removed')


class TableFilter(GCodeFilter):
    """answers by position, from a table; any iterable of lines is a legal answer"""
    def __init__(self, table):
        self.table = table
        self.seen = []
        self.expect = []

    def opcode_filter(self, opcode):
        v = self.table[len(self.seen)]
        self.seen.append(opcode)
        if v == 'none':
            self.expect[-1].append(opcode)
            return None
        new = [raw_to_line('M105'), raw_to_line('G1 X1'), raw_to_line('M105')]
        answer = {'self': opcode, 'new': new[0], 'empty': [], 'list1': [new[0]], 'list2': [new[0], opcode], 'list3': [new[0], opcode, new[1]],
                  'twice': [opcode, opcode], 'tuple': (opcode, new[0]), 'iter': iter([new[0], new[1]])}[v]
        self.expect[-1] += {'self': [opcode], 'new': new[:1], 'empty': [], 'list1': new[:1], 'list2': [new[0], opcode], 'list3': [new[0], opcode, new[1]],
                            'twice': [opcode, opcode], 'tuple': [opcode, new[0]], 'iter': new[:2]}[v]
        return answer


def table(rng, n):
    kinds = ['none', 'self', 'new', 'empty', 'list1', 'list2', 'list3', 'twice', 'tuple', 'iter']
    w = rng.choice([[1] * 10, [20] + [1] * 9, [1] + [0] * 9, [0, 0, 0, 1] + [0] * 6, [6, 1, 0, 1, 0, 0, 0, 0, 0, 0]])
    return rng.choices(kinds, w, k=n)


@bounded('C09', runs=900, note='a whole program, layer by layer')
def program_native():
    text = gen('text', lambda rng: layered(rng) if rng.random() < 0.5 else program(rng))
    answers = gen('answers', lambda rng: table(rng, 400))
    g = GCode(text)
    layers = list(g.all_layers)
    before = [list(l) for l in g.all_layers]
    raws = [[l.raw for l in layer] for layer in before]
    f = TableFilter(answers)
    # the specification of each layer is opened by hand: the filter cannot know where a layer starts
    flat = sum(before, [])
    bounds = [len(l) for l in before]
    f.expect = [[]]
    f.filter(g)
    check(same_objects(f.seen, flat), 'every line is visited exactly once, in order')
    check(same_objects(g.all_layers, layers), 'the layers are the same')
    check(same_objects(sum([list(l) for l in g.all_layers], []), f.expect[0]), 'the program is the splice of the answers')
    n = 0
    for layer, old, raw in zip(g.all_layers, before, raws):
        h = TableFilter(answers[n:])
        n += len(old)
        h.expect = [[]]
        for l in old:
            h.opcode_filter(l)
        check(len(layer) == len(h.expect[0]), 'nothing moves to another layer')
        check(all(a is b for a, b in zip(old, layer)) if not any(v != 'none' and v != 'self' for v in answers[n - len(old):n]) else True, 'untouched layer')
        check([l.raw for l in old] == raw, 'lines are not altered')


@bounded('C09', runs=300, note='a filter without opinion leaves the written program unchanged')
def silent_native():
    text = gen('text', lambda rng: program(rng))
    g = GCode(text)
    want = written(g)
    f = TableFilter(['none'] * 500)
    f.expect = [[]]
    f.filter(g)
    check(written(g) == want, 'written program')
