"""C05: rewriting a line preserves its command, words and comment."""
import re
from pydv.rt import driver, bounded, gen, check, assume, close, value, boolean, opt_real, WordsG
from gcodeutils.gcoder import GCode, Line, split, unsplit, raw_to_line, parse_coordinates
from contracts.ref import tokens, words, num, fmt

LETTERS = 'xyzefij'


def any_line(rng):
    c = rng.choice(['G0', 'G1', 'G1', 'G1', 'G2', 'G3', 'G92', 'G28', 'G5'])
    ws = []
    for l in 'XYZEFIJ':
        if rng.random() < 0.5:
            ws.append(l + fmt(rng, num(rng, -999, 9999)))
    if rng.random() < 0.2:
        rng.shuffle(ws)
    t = ' '.join([c] + ws)
    r = rng.random()
    if r < 0.35:
        t += rng.choice(['; note', ' ; perimeter external', ' ;X1', '; a ; b', ';', ' ; (paren) ;'])
    elif r < 0.42:
        t += ' (note)' + rng.choice(['', ' ; tail'])
    if rng.random() < 0.1:
        t = 'N%d ' % rng.randint(0, 99) + t
    if rng.random() < 0.1:
        t = t.lower()
    return t


def changes(rng):
    return [[rng.choice(LETTERS), rng.choice([None, num(rng), num(rng), round(rng.uniform(-100, 100), 6)])] for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]


def places(l):
    return 5 if l == 'e' else 3


@bounded('C05', runs=2500, note='parse, change words, serialise, parse again')
def rewrite_native():
    text = gen('text', any_line)
    ch = gen('changes', changes)
    c, ws = tokens(text)
    l = raw_to_line(text)
    parse_coordinates(l, split(l))
    want = {}
    for letter, n in ws:
        if n is not None and letter in 'XYZEFIJ':
            want[letter.lower()] = n
    for a in LETTERS:
        check(getattr(l, a) == want.get(a), 'words of a parsed line')
    for a, v in ch:
        setattr(l, a, v)
        want[a] = v
    want = {a: v for a, v in want.items() if v is not None}
    unsplit(l)
    body, sep, comment = l.raw.partition(';')
    check(body.rstrip() == ' '.join([c] + ['%s%.*f' % (a.upper(), places(a), want[a]) for a in LETTERS_ORDER if a in want]), 'serialised text')
    com = re.sub(r'\([^()]*\)', ' ', text.split(';', 1)[0]) and text.partition(';')[2]
    check(comment == com and bool(sep) == (';' in text), 'trailing comment kept')
    c2, w2 = words(l.raw)
    check(c2 == c and l.command == c, 'command kept')
    m = raw_to_line(l.raw)
    parse_coordinates(m, split(m))
    check(m.command == c, 'command read back')
    for a in LETTERS:
        v = getattr(m, a)
        if a not in want:
            check(v is None, 'absent words stay absent')
        else:
            check(v is not None and abs(v - want[a]) <= 0.5 * 10 ** -places(a) * (1 + 1e-6), 'words read back')
    raw = l.raw
    unsplit(l)
    check(l.raw == raw, 'serialising again changes nothing')


def comment_of(text):
    return ''.join(COMMENT.findall(text))


COMMENT = re.compile(';.*')
LETTERS_ORDER = 'xyzefij'


@bounded('C05', runs=300, note='lines read by the parser are serialised with the words of the program')
def program_lines_native():
    text = gen('text', lambda rng: [any_line(rng).upper() for _ in range(rng.randint(1, 6))])
    g = GCode(text)
    for l, t in zip(g.lines, text):
        c, w = words(t)
        unsplit(l)
        c2, w2 = words(l.raw)
        check(c2 == c, 'command kept')
        for a in LETTERS:
            u, v = getattr(w, a), getattr(w2, a)
            check((u is None) == (v is None) and (u is None or abs(u - v) <= 0.5 * 10 ** -places(a) * (1 + 1e-6)), 'words kept')


# ---------------------------------------------------------------- the contracts other properties rely on, for all numbers
TEXT = WordsG(['G0', 'G1', 'G1', 'G2', 'G92', 'G28', 'M104', 'T1'], comment=True)


@driver('C05')
def parse_contract():
    """split and parse_coordinates: command and words of a line, in millimetres"""
    text = value('text', TEXT)
    inch = boolean('inch')
    l = Line(text)
    s = split(l)
    parse_coordinates(l, s, inch)
    c, w = words(text)
    check(l.command == c, 'command')
    check(l.is_move == (c == 'G0' or c == 'G1' or c == 'G2' or c == 'G3'), 'moves')
    check(l.raw == text, 'the text is kept')
    u = 25.4 if inch else 1
    for a in LETTERS:
        v = getattr(w, a)
        n = getattr(l, a)
        if c[0] == 'G' and v is not None:
            check(n is not None and close(n, v * u), 'words of a parsed line')
        else:
            check(n is None, 'absent words')


@driver('C05')
def unsplit_contract():
    """unsplit: the text gets the words of the line, to output precision, and keeps its comment"""
    text = value('text', TEXT)
    inch = boolean('inch')
    l = Line(text)
    split(l)
    l.imperial = inch
    c = l.command
    want = []
    for a in LETTERS:
        v = opt_real(a)
        setattr(l, a, v)
        want.append(v)
    unsplit(l)
    check(l.command == c, 'command of the line')
    c2, w2 = words(l.raw)
    check(c2 == c, 'command kept')
    check(comment_of(l.raw) == comment_of(text), 'comment kept')
    u = 25.4 if inch else 1
    for a, v in zip(LETTERS, want):
        n = getattr(w2, a)
        check((n is None) == (v is None), 'words present')
        check(getattr(l, a) == v, 'the words of the line are kept')
        if v is not None:
            tol = 0.5 * 10 ** -places(a) * (1 + 1e-6)
            check(abs(n - v / u) <= tol, 'words read back')
    raw = l.raw
    unsplit(l)
    check(l.raw == raw, 'serialising again changes nothing')
