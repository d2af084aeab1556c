"""C06: program comparison."""
from pydv.rt import driver, bounded, gen, check, assume, value, boolean, WordsG, TextG, CommandG, Schema, objects, needs, related
from gcodeutils.gcoder import GCode, Line, Layer, split, parse_coordinates
from contracts.ref import program, Style, words, decorate, fmt, num

ST = Style(units=0, g28=0, lineno=0, lower=0.0, other=1, comments=2, bare92=0)
EPS = 1e-3
LETTERS = 'xyzefij'


def pair(rng):
    a = program(rng, ST, rng.choice([0, 1, 1, 2, 3, 5, 8]))
    for i, t in enumerate(a):
        if t[:1] == 'G' and ';' not in t and '(' not in t and rng.random() < 0.15:
            # any command can carry any word
            l = rng.choice('XYZEFIJ')
            if l not in t:
                a[i] = t + ' %s%g' % (l, rng.choice([0, 1, 2.5]))
    b = list(a)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.random()
        if k < 0.15 and b:
            b.pop(rng.randrange(len(b)))
        elif k < 0.25:
            b.append(rng.choice(['G1 X1', 'M84', '; end', 'G1 X1 Y2']))
        elif k < 0.35 and b:
            b.pop()
        elif k < 0.45:
            b.insert(rng.randint(0, len(b)), rng.choice(['; c', '(c)', 'G1 X5 Y6', 'M107']))
        elif k < 0.55 and len(b) > 1:
            i = rng.randrange(len(b) - 1)
            b[i], b[i + 1] = b[i + 1], b[i]
        elif b:
            i = rng.randrange(len(b))
            ws = b[i].split(';')[0].split('(')[0].split()
            js = [j for j in range(1, len(ws)) if ws[j][0] in 'XYZEFIJ']
            if js:
                j = rng.choice(js)
                r = rng.random()
                v = float(ws[j][1:])
                if r < 0.4:
                    ws[j] = ws[j][0] + '%.4f' % (v + rng.choice([0.0004, -0.0005, 0.0009, -0.0009]))
                elif r < 0.8:
                    ws[j] = ws[j][0] + '%.4f' % (v + rng.choice([0.0011, -0.0012, 0.002, 1, -5]))
                elif r < 0.88:
                    del ws[j]
                elif r < 0.94:
                    ws.append(rng.choice('XYZEFIJ') + '%g' % rng.choice([0, 1, 0.5]))
                else:
                    ws[j] = rng.choice('XYZEFIJ') + ws[j][1:]
                b[i] = ' '.join(ws)
            elif ws and rng.random() < 0.5:
                b[i] = rng.choice(['G0', 'G1', 'M82', 'G90', 'M84'])
    return [a, b] if rng.random() < 0.5 else [b, a]


def meaningful(text):
    return [words(t) for t in text if words(t)[0] is not None]


def unit(cmd):
    return cmd


def equivalent(a, b):
    """True, False, or None when a difference is too close to the tolerance to call"""
    xs, ys = meaningful(a), meaningful(b)
    if len(xs) != len(ys):
        return False
    close_call = False
    for (c, u), (d, v) in zip(xs, ys):
        if c != d:
            return False
        if c[0] != 'G':
            continue
        for l in 'xyzefij':
            p, q = getattr(u, l), getattr(v, l)
            if (p is None) != (q is None):
                return False
            if p is not None:
                if abs(abs(p - q) - EPS) < 1e-9:
                    close_call = True
                elif abs(p - q) > EPS:
                    return False
    return None if close_call else True


def ends(words_):
    return words_


@bounded('C06', runs=3000, note='pairs of generated programs differing by edits')
def compare_native():
    a, b = gen('pair', pair)
    g, h = GCode(a), GCode(b)
    want = equivalent(a, b)
    assume(want is not None)
    check((g == h) == want, 'equality')
    check((h == g) == want, 'equality is symmetric')
    check((g.diff(h) is None) == want, 'diff report')
    check((h.diff(g) is None) == want, 'diff report, the other way')
    check(g == g and g.diff(g) is None, 'a program equals itself')
    check(g == GCode(a), 'a program equals its copy')
    check((g != h) == (not want), 'inequality')
    check(not (g == 5) and not (g == None), 'a program is not something else')


@bounded('C06', runs=2000, note='pairs of generated lines')
def compare_lines_native():
    a, b = gen('pair', lambda rng: [x[:1] or ['G1 X1'] for x in pair(rng)])
    g, h = GCode(a[:1]), GCode(b[:1])
    l, m = g.lines[0], h.lines[0]
    assume(l.command is not None and m.command is not None)
    want = equivalent(a[:1], b[:1])
    assume(want is not None)
    check((l == m) == want and (m == l) == want, 'line equality')
    check((l != m) == (not want), 'line inequality')
    check(l == l and not (l == None) and not (l == 'G1'), 'line equality with itself and other things')


# ---------------------------------------------------------------- all lines
TEXT1 = WordsG(['G0', 'G1', 'G92', 'M104'], comment=True)


def parsed_text(text, inch):
    l = Line(text)
    for a in LETTERS:
        setattr(l, a, None)
    parse_coordinates(l, split(l), inch)
    return l


def alike(c, u, d, v, p, q):
    """the same command, the same words, to the tolerance"""
    if c != d:
        return False
    if c[0] != 'G':
        return True
    for a in LETTERS:
        m, n = getattr(u, a), getattr(v, a)
        if (m is None) != (n is None):
            return False
        if m is not None and abs(m * p - n * q) > EPS:
            return False
    return True


@driver('C06')
def line_contract():
    """equality of two lines, in any units"""
    s, t = value('s', TEXT1), value('t', TEXT1)
    i, j = boolean('i'), boolean('j')
    l, m = parsed_text(s, i), parsed_text(t, j)
    c, u = words(s)
    d, v = words(t)
    p, q = (25.4 if i else 1), (25.4 if j else 1)
    assume(not borderline(u, v, p, q))
    want = alike(c, u, d, v, p, q)
    check((l == m) == want and (m == l) == want, 'line equality')
    check((l != m) == (not want), 'line inequality')
    check(l == l and not (l == None) and not (l == 'G1'), 'line equality with itself and other things')


def borderline(u, v, p, q):
    """a difference that rounding could put on either side of the tolerance"""
    for a in LETTERS:
        m, n = getattr(u, a), getattr(v, a)
        if m is not None and n is not None:
            k = abs(m * p - n * q)
            if EPS - 1e-9 < k < EPS + 1e-9:
                return True
    return False


# ---------------------------------------------------------------- programs of any length
MOVES = Schema({'raw': TextG(['G0', 'G1', 'G1', 'G92', 'M104', 'M82']), 'command': CommandG()}, make=lambda r: Line(r['raw']))


def program_of(lines):
    return GCode([l.raw for l in lines])


def program_of_spec(lines):
    # a program whose meaningful lines are these
    needs(GCode, 'comment_stripper_generator')
    g = GCode([])
    g.all_layers = [Layer(lines)]
    return g


def same(a, b):
    e = equivalent([a.raw], [b.raw])
    assume(e is not None)
    return e


def same_spec(a, b):
    return related('alike', a, b)


def line_eq_spec(self, other):
    # the contract line_contract
    return related('alike', self, other)


def line_ne_spec(self, other):
    return not related('alike', self, other)


PROGRAMS = {program_of: program_of_spec, same: same_spec, Line.__eq__: line_eq_spec, Line.__ne__: line_ne_spec}


@driver('C06', uses=PROGRAMS)
def whole_compare():
    a = objects('a', Line, MOVES)
    b = objects('b', Line, MOVES)
    g, h = program_of(a), program_of(b)
    want = len(a) == len(b) and all(same(l, m) for l, m in zip(a, b))
    check((g == h) == want, 'equality')
    check((g != h) == (not want), 'inequality')
    check((g.diff(h) is None) == want, 'diff report')
