"""C04: editing a layer in place."""
from pydv.rt import (driver, bounded, gen, check, assume, objects, Schema, OptG, RealG, TextG, integer, integers, value,
                     lines_of, place_of, start_of, same_objects, boolean, real)
from gcodeutils.gcoder import GCode, Layer, Line, split
from contracts.lines import COMMANDS, TEXT
from contracts.c01 import any_program, source, parsed_lines, Out
from contracts.ref import command, Style

ST = Style(units=0)


def some_commands(rng):
    out = [command(rng, ST) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    out = [rng.choice(['', ' ', '\t']) + c + rng.choice(['', '\n', ' ']) for c in out]
    while rng.random() < 0.25:
        out.insert(rng.randint(0, len(out)), rng.choice(['', '  ', '\n']))
    return out


def edits(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(['prepend', 'prepend', 'rewrite', 'append'])
        out.append([k, rng.randint(0, 30), some_commands(rng)])
    return out


def consistent(g, model):
    check([[l.raw for l in layer] for layer in g.all_layers] == model, 'layers after the edit')
    flat = parsed_lines(g)
    check(len(g.lines) == len(flat) and all(a is b for a, b in zip(g.lines, flat)), 'program lines after the edit')
    check(len(g) == len(flat) and len(g.layer_idxs) == len(flat) and len(g.line_idxs) == len(flat), 'one index entry per line')
    for i in range(len(flat)):
        a, b = g.idxs(i)
        check(g.all_layers[a][b] is flat[i], 'the index addresses the line')


@bounded('C04', runs=1200, note='sequences of edits of generated programs against a list-of-lists model')
def edits_native():
    text = gen('text', any_program)
    ops = gen('ops', edits)
    g = GCode(text)
    model = [[l.raw for l in layer] for layer in g.all_layers]
    for kind, where, cmds in ops:
        i = where % len(model)
        new = [c.strip() for c in cmds if c.strip()]
        if kind == 'append':
            before = parsed_lines(g)
            for c in cmds:
                l = g.append(c)
                check((l is None) == (not c.strip()), 'append returns the line it adds')
            model[-1].extend(new)
            after = parsed_lines(g)
            check(all(a is b for a, b in zip(before, after)), 'other lines untouched')
        else:
            keep = [l for k, layer in enumerate(g.all_layers) for l in layer if k != i or kind == 'prepend']
            if kind == 'prepend':
                r = g.prepend_to_layer(list(cmds), i)
                model[i][:0] = new
            else:
                r = g.rewrite_layer(list(cmds), i)
                model[i] = list(new)
            check(r == new, 'the commands placed are returned')
            ids = {id(l) for l in parsed_lines(g)}
            check(all(id(l) in ids for l in keep), 'other lines untouched')
        consistent(g, model)
    o = Out()
    g.write(o)
    check(o.text() == ''.join(l + '\n' for layer in model for l in layer), 'written program after the edits')


# ---------------------------------------------------------------- any number of layers and lines
class Cmd(Line):
    """a line of the program"""


TEXTS = TextG(COMMANDS)
LAYERS = Schema({'z': OptG(RealG())}, items=(Cmd, Schema({'raw': TextG(COMMANDS)})))


def any_indexed():
    """a program whose index is right for the lines chosen below"""
    layers = objects('layers', Layer, LAYERS, 1)
    g = GCode(deferred=True)
    g.all_layers = layers
    g.lines = lines_of(layers)
    g.layer_idxs = integers('layer_idxs')
    g.line_idxs = integers('line_idxs')
    n = len(g.lines)
    assume(len(g.layer_idxs) == n and len(g.line_idxs) == n)
    return g


def right(g, layers, j):
    """the index entry of the j-th line is its place"""
    if 0 <= j < len(g.lines):
        a, b = place_of(layers, j)
        assume(g.layer_idxs[j] == a and g.line_idxs[j] == b)


def edited(rewrite, m):
    g = any_indexed()
    layers = g.all_layers
    k, j, i = integer('layer', 0), integer('line', 0), integer('other', 0)
    assume(k < len(layers) and len(layers[k]) > 0 and i < len(layers) and layers[i] is not layers[k])
    flat = list(g.lines)
    old, other = list(layers[k]), list(layers[i])
    p = start_of(layers, k)
    given = [value('c%d' % x, TEXTS) for x in range(m)]
    texts = [c.strip() for c in given]
    for c in texts:
        assume(c)
    size = m if rewrite else m + len(old)
    gone = len(old) if rewrite else 0
    # the place of line j after the edit
    assume(j < len(flat) + m - gone)
    before = j if j < p else j - m + gone
    inside = p <= j < p + size
    if not inside:
        right(g, layers, before)
        was = (g.layer_idxs[before], g.line_idxs[before])
    if not rewrite and inside and j < p + len(old):
        right(g, layers, j)
    r = g.rewrite_layer(given, k) if rewrite else g.prepend_to_layer(given, k)
    check(r == texts, 'the commands placed are returned')
    check(len(g.all_layers) == len(layers) and g.all_layers[k] is layers[k], 'the layers stay')
    check(same_objects(layers[i], other), 'other layers untouched')
    now = layers[k]
    check(len(now) == size, 'lines of the layer')
    for x in range(m):
        check(now[x].raw == texts[x], 'the commands at their place')
    if not rewrite:
        check(same_objects(now[m:], old), 'the old lines after them')
    check(len(g.lines) == len(flat) + m - gone, 'number of lines')
    check(len(g.layer_idxs) == len(g.lines) and len(g.line_idxs) == len(g.lines), 'one index entry per line')
    a, b = g.layer_idxs[j], g.line_idxs[j]
    if inside:
        check(g.lines[j] is now[j - p], 'program lines after the edit')
        check(a == k and b == j - p, 'the index addresses the line')
    else:
        check(g.lines[j] is flat[before], 'program lines after the edit')
        check((a, b) == was, 'the index addresses the line')


@driver('C04', runs=0, bmc=(), linear=True, uses=TEXT)
def any_prepend():
    """two commands before any layer of any program"""
    edited(False, 2)


@driver('C04', runs=0, bmc=(), linear=True, uses=TEXT)
def any_rewrite():
    """two commands in place of any layer of any program"""
    edited(True, 2)


@driver('C04', runs=0, bmc=(), linear=True, uses=TEXT)
def any_append():
    """one command after any program"""
    g = any_indexed()
    layers = g.all_layers
    last = len(layers) - 1
    end = layers[last]
    g.append_layer, g.append_layer_id = end, last
    for a in ('imperial', 'relative', 'relative_e'):
        setattr(g, a, boolean(a))
    for a in ('current_x', 'current_y', 'current_z', 'current_e', 'offset_x', 'offset_y', 'offset_z', 'offset_e', 'total_e', 'max_e'):
        setattr(g, a, real(a))
    flat, old = list(g.lines), list(end)
    i, j = integer('other', 0), integer('line', 0)
    assume(i < last and layers[i] is not end and j < len(flat))
    other = list(layers[i])
    was = (g.layer_idxs[j], g.line_idxs[j])
    given = value('c', TEXTS)
    c = given.strip()
    assume(c)
    l = g.append(given)
    check(l is not None and l.raw == c, 'append returns the line it adds')
    check(same_objects(end, old + [l]) and g.all_layers[last] is end and len(g.all_layers) == last + 1, 'layers after the edit')
    check(same_objects(layers[i], other), 'other layers untouched')
    check(same_objects(g.lines, flat + [l]), 'program lines after the edit')
    n = len(flat)
    check(len(g.layer_idxs) == n + 1 and len(g.line_idxs) == n + 1, 'one index entry per line')
    check((g.layer_idxs[j], g.line_idxs[j]) == was and g.layer_idxs[n] == last and g.line_idxs[n] == len(old), 'the index addresses the line')
