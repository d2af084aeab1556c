"""Reference semantics and input generators shared by the contracts. Nothing here uses the code under test."""
import re

NUM = re.compile(r'([A-Za-z])\s*([-+]?(?:\d+\.?\d*|\.\d+))?')
MOVES = ('G0', 'G1', 'G2', 'G3')
LINEAR = ('G0', 'G1')


def code_part(text):
    """the text of a line without its comments"""
    t = re.sub(r'\([^()]*\)', ' ', text)
    return t.split(';', 1)[0]


def tokens(text):
    """(command or None, [(letter, number or None)]) of one line; the line number word is dropped"""
    ws = [(m.group(1).upper(), m.group(2)) for m in NUM.finditer(code_part(text).split('*', 1)[0])]
    if ws and ws[0][0] == 'N':
        ws = ws[1:]
    if not ws:
        return None, []
    return ws[0][0] + (ws[0][1] or ''), [(l, float(n) if n else None) for l, n in ws[1:]]


class Words(object):
    """words of one command: numbers or None; `named` are the letters present, with or without a number"""
    def __init__(self):
        self.x = self.y = self.z = self.e = self.f = self.i = self.j = self.p = self.s = None
        self.named = []


WORD = re.compile(r'\([^()]*\)|;.*|\*.*|([A-Za-z])\s*([-+]?(?:\d+\.?\d*|\.\d+))?')


def words(text):
    """(command or None, Words) of one line; comments and the line number are dropped"""
    c = None
    w = Words()
    first = True
    for l, n in WORD.findall(text):
        if l == '':
            continue
        if first and l in 'nN':
            first = False
            continue
        first = False
        if c is None:
            c = l.upper() + n
            continue
        k = l.lower()
        w.named.append(k)
        if k in 'xyzefijps' and n != '':
            setattr(w, k, float(n))
    return c, w


class Machine(object):
    """the RepRap machine: positions in millimetres from the machine origin"""
    def __init__(self, hx=0, hy=0, hz=0):
        self.inch = False
        self.rel = False
        self.rele = False
        self.x = self.y = self.z = 0
        self.ox = self.oy = self.oz = 0
        self.e = 0
        self.f = 0
        self.total = 0
        self.most = 0
        self.fed = None
        self.hx, self.hy, self.hz = hx, hy, hz

    def step(self, cmd, w):
        """execute one command with words w (in program units)"""
        self.fed = None
        u = 25.4 if self.inch else 1
        if cmd == 'G20':
            self.inch = True
        elif cmd == 'G21':
            self.inch = False
        elif cmd == 'G90':
            self.rel = False
            self.rele = False
        elif cmd == 'G91':
            self.rel = True
            self.rele = True
        elif cmd == 'M82':
            self.rele = False
        elif cmd == 'M83':
            self.rele = True
        elif cmd == 'G28':
            self.home('x' in w.named, 'y' in w.named, 'z' in w.named)
        elif cmd == 'G92':
            self.redefine(w, u)
        elif cmd in MOVES:
            self.move(w, u)

    def home(self, x, y, z):
        every = not (x or y or z)
        if x or every:
            self.x = self.hx
            self.ox = 0
        if y or every:
            self.y = self.hy
            self.oy = 0
        if z or every:
            self.z = self.hz
            self.oz = 0

    def redefine(self, w, u):
        bare = w.x is None and w.y is None and w.z is None and w.e is None
        if w.x is not None:
            self.ox = self.x - w.x * u
        if w.y is not None:
            self.oy = self.y - w.y * u
        if w.z is not None:
            self.oz = self.z - w.z * u
        if w.e is not None:
            self.e = w.e * u
        if bare:
            self.ox, self.oy, self.oz, self.e = self.x, self.y, self.z, 0

    def move(self, w, u):
        if w.f is not None:
            self.f = w.f * u
        if w.x is not None:
            self.x = self.x + w.x * u if self.rel else self.ox + w.x * u
        if w.y is not None:
            self.y = self.y + w.y * u if self.rel else self.oy + w.y * u
        if w.z is not None:
            self.z = self.z + w.z * u if self.rel else self.oz + w.z * u
        if w.e is not None:
            if self.rele:
                self.fed = w.e * u
                self.e = self.e + w.e * u
            else:
                self.fed = w.e * u - self.e
                self.e = w.e * u
            self.total = self.total + self.fed
            if self.total > self.most:
                self.most = self.total


class Seconds(object):
    """stands for datetime.timedelta in the verifier"""
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __eq__(self, other):
        return isinstance(other, Seconds) and self.s == other.s


# ---------------------------------------------------------------- generators of program text
POOL = [0, 0, 1, -1, 2, 5, 10, 20, 0.5, 0.1, -0.4, 12.345, 99.999, -7.5, 3, 7, 100, 0.001, 0.2, 4.25]


def num(rng, lo=-100.0, hi=200.0):
    if rng.random() < 0.5:
        v = rng.choice(POOL)
        if not lo <= v <= hi:
            v = lo
    else:
        v = round(rng.uniform(lo, hi), rng.choice([0, 1, 2, 3]))
    return v


def fmt(rng, v):
    s = ('%.3f' % v).rstrip('0').rstrip('.') if rng.random() < 0.7 else '%.3f' % v
    if s in ('-0', ''):
        s = '0'
    r = rng.random()
    if r < 0.05 and not s.startswith('-'):
        s = '+' + s
    elif r < 0.1 and s.startswith('0.'):
        s = s[1:]
    return s


class Style(object):
    """weights of the command kinds and of the words"""
    def __init__(self, moves=10, modes=2, emodes=2, g92=2, g28=1, units=1, other=1, comments=1, dwell=0, tools=0,
                 p=0.5, arcs=0.1, pz=0.3, pe=0.5, pf=0.3, bare92=0.1, lower=0.03, trail=0.15, lineno=0.05, garbage=0.0):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})


def words_text(rng, st, letters):
    out = []
    for l, p in letters:
        if rng.random() < p:
            v = num(rng, 60, 6000) if l == 'F' else num(rng, -5, 50) if l == 'E' else num(rng, 0, 50) if l == 'Z' else num(rng)
            out.append(l + fmt(rng, v))
    if rng.random() < 0.1:
        rng.shuffle(out)
    return ' '.join(out)


def command(rng, st):
    kinds = [('move', st.moves), ('mode', st.modes), ('emode', st.emodes), ('g92', st.g92), ('g28', st.g28), ('unit', st.units),
             ('other', st.other), ('comment', st.comments), ('dwell', st.dwell), ('tool', st.tools)]
    k = rng.choices([a for a, _ in kinds], [w for _, w in kinds])[0]
    if k == 'move':
        c = rng.choice(['G2', 'G3']) if rng.random() < st.arcs else rng.choice(['G1', 'G1', 'G1', 'G0'])
        ls = [('X', st.p), ('Y', st.p), ('Z', st.pz), ('E', st.pe), ('F', st.pf)]
        if c in ('G2', 'G3'):
            ls += [('I', 0.7), ('J', 0.7)]
        t = c + ' ' + words_text(rng, st, ls)
    elif k == 'mode':
        t = rng.choice(['G90', 'G91'])
    elif k == 'emode':
        t = rng.choice(['M82', 'M83'])
    elif k == 'g92':
        t = 'G92'
        if rng.random() >= st.bare92:
            a = words_text(rng, st, [('X', 0.4), ('Y', 0.4), ('Z', 0.2), ('E', 0.6)])
            t += ' ' + (a or 'E0')
    elif k == 'g28':
        t = 'G28'
        for l in 'XYZ':
            if rng.random() < 0.35:
                t += ' ' + l + rng.choice(['', '0', '0', '0.0', '1', '-5'])
    elif k == 'unit':
        t = rng.choice(['G20', 'G21'])
    elif k == 'other':
        t = rng.choice(['M104 S200', 'M106 S255', 'M107', 'G4 P100', 'M140 S60', 'T0', 'G29', 'M84', 'M117 hello', 'M109 S210.5'])
    elif k == 'dwell':
        t = 'G4 P%d' % rng.choice([0, 1, 100, 250, 1500, 60000])
    elif k == 'tool':
        t = 'T%d' % rng.randint(0, 3)
    else:
        return rng.choice(['; comment', ';layer 3', '(paren comment)', '; G1 X5 in a comment', ';'])
    t = t.strip()
    if rng.random() < st.lower:
        t = t.lower()
    if rng.random() < st.lineno:
        t = 'N%d ' % rng.randint(1, 999) + t
    if rng.random() < st.trail:
        t += rng.choice(['; trailing', ' ; perimeter', ' (note)', ' ;X1 Y2'])
    return t


def program(rng, st=None, n=None):
    st = st or Style()
    n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    return [command(rng, st) for _ in range(n)]


def decorate(rng, lines):
    """the same program with blank lines, surrounding blanks and line ends"""
    out = []
    for l in lines:
        while rng.random() < 0.1:
            out.append(rng.choice(['', '  ', '\t']) + '\n')
        out.append(rng.choice(['', '', '', ' ', '\t ']) + l + rng.choice(['\n', '\n', '\n', '\r\n', ' \n', '']))
    return out


def layered(rng, n_layers=None, first=0.2, step=None, hop=0.0, printed=1.0, per=None, start=True, e_mode=None):
    """a sliced program: absolute moves, one height per layer"""
    n_layers = n_layers if n_layers is not None else rng.randint(1, 8)
    step = step if step is not None else rng.choice([0.1, 0.2, 0.25, 0.3])
    out = []
    if start:
        out += ['G28', 'G90', e_mode or 'M82', 'G92 E0', 'M104 S200']
    rele = e_mode == 'M83'
    e = 0.0
    for i in range(n_layers):
        z = round(first + i * step, 3)
        out.append('G1 Z%s F%s' % (fmt(rng, z), rng.choice(['3000', '7200', '1200'])))
        ext = rng.random() < printed
        for _ in range(per if per is not None else rng.randint(1, 6)):
            de = round(rng.uniform(0.01, 2), 4)
            t = 'G1 X%.3f Y%.3f' % (rng.uniform(0, 150), rng.uniform(0, 150))
            if ext:
                e += de
                t += ' E%.5f' % (de if rele else e)
            out.append(t)
            if rng.random() < hop:
                out += ['G1 Z%s' % fmt(rng, z + 1), 'G0 X%s Y%s' % (fmt(rng, num(rng)), fmt(rng, num(rng))), 'G1 Z%s' % fmt(rng, z)]
        if rng.random() < 0.3:
            out.append(rng.choice(['; a comment', 'M106 S100', 'G92 E0'] if rele else ['; a comment', 'M106 S100']))
    out.append('M84')
    return out
