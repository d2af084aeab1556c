"""Contracts of the functions that read and write the text of a line (verified in c05 on structured texts).

A text is opaque here; what a contract may say about it is its command and its words, given by word_in / command_in.
"""
from pydv.rt import (Schema, TextG, DerivedG, CommandG, BoolG, assume, anystr, opaque, word_in, named_in, command_in, numeral_in,
                     letter_of, digits_of, needs)
from gcodeutils.gcoder import GCode, Line, split, unsplit, parse_coordinates, move_gcodes, find_specific_code
from contracts.ref import Words, words

LETTERS = 'xyzefij'
COMMANDS = ['G0', 'G1', 'G1', 'G1', 'G1', 'G2', 'G90', 'G91', 'G92', 'G92', 'G28', 'G20', 'G21', 'M82', 'M83', 'M104', 'T1']


def parsed(line, inch):
    """the state in which the parser leaves a line read while the unit is inch or millimetre"""
    for l in LETTERS:
        setattr(line, l, None)
    line.imperial = inch
    parse_coordinates(line, split(line), inch)


def parsed_spec(line, inch):
    # the attributes of the lines of LINE are those the parser gives them
    assume(line.imperial == inch)


LINE = Schema(dict([('raw', TextG(COMMANDS)), ('command', CommandG()), ('imperial', BoolG())]
                   + [(l, DerivedG(l)) for l in LETTERS]), make=lambda r: Line(r['raw']))


def words_spec(text):
    """command and words of a text"""
    if not opaque(text):
        return words(text)
    w = Words()
    w.x, w.y, w.z, w.e, w.f = word_in(text, 'x'), word_in(text, 'y'), word_in(text, 'z'), word_in(text, 'e'), word_in(text, 'f')
    w.i, w.j, w.p, w.s = word_in(text, 'i'), word_in(text, 'j'), word_in(text, 'p'), word_in(text, 's')
    w.named = []
    for l in LETTERS:
        if named_in(text, l):
            w.named.append(l)
    return command_in(text), w


def unsplit_spec(line):
    """afterwards the text of the line has the command of the line and exactly its words, to output precision"""
    t = anystr()
    u = 25.4 if line.imperial else 1
    for l in LETTERS:
        v = getattr(line, l)
        w = word_in(t, l)
        assume((w is None) == (v is None))
        if v is not None:
            tol = 0.000005 if l == 'e' else 0.0005
            assume(w * u - v <= tol * u and v - w * u <= tol * u)
    assume(command_in(t) == line.command)
    line.raw = t


def well_formed(text):
    """a tool number after T, no negative feed rate or time"""
    c = command_in(text)
    f, p, s = word_in(text, 'f'), word_in(text, 'p'), word_in(text, 's')
    assume(c)
    assume(c[0] != 'T' or c[1:].isdigit())
    assume(f is None or f >= 0)
    assume(c != 'G4' or (p is None or p >= 0) and (s is None or s >= 0))


def read(lines, home=(0, 0, 0), line=None, layer=None):
    """the program made of these lines"""
    for l in lines:
        well_formed(l.raw)
    assume(lines)
    return GCode([l.raw for l in lines], home_pos=home, line_callback=line, layer_callback=layer)


def read_spec(lines, home=(0, 0, 0), line=None, layer=None):
    # what GCode(texts) does once it has made a line of each text
    needs(GCode, '_preprocess', 'home_pos')
    g = GCode(deferred=True)
    g.home_pos = home
    g.lines = lines
    g._preprocess(build_layers=True, line_callback=line, layer_callback=layer)
    return g


def split_spec(line):
    """afterwards the line has its command; the answer is the command and the words of the text, in order"""
    if not opaque(line.raw):
        return split(line)
    t = line.raw
    c = command_in(t)
    well_formed(t)
    line.command = c
    line.is_move = c in move_gcodes
    out = [(letter_of(c), digits_of(c))]
    for l in LETTERS:
        if named_in(t, l):
            out.append((l, numeral_in(t, l)))
    return out


def specific_spec(line, code):
    """the number of one word of a line"""
    if not opaque(line.raw):
        return find_specific_code(line, code)
    return word_in(line.raw, code.lower())


TEXT = {words: words_spec, unsplit: unsplit_spec, split: split_spec, parsed: parsed_spec, read: read_spec, find_specific_code: specific_spec}
