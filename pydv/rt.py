"""Contract language: the same driver text is executed by the verifier (for all inputs) and by CPython (replay).

Inputs are introduced with real/integer/boolean/opt_real/choice/string/objects; assume() states a precondition,
check() a postcondition, invariant() a loop invariant. Any exception a driver does not catch is a violation.
"""
import json
import random
import z3
from .values import (T, REAL, INT, BOOL, STR, OPT, AStr, STRS, Union, mkunion, Not_, Text, Num, mktext, str_head, str_tail, SL, RefE)

REGISTRY = []


class Skip(BaseException):
    """a precondition does not hold for these inputs"""


class CheckFailed(Exception):
    pass


class Driver(object):
    def __init__(self, prop, fn, sym, runs, note, budget, bmc, known, uses=None, linear=False, ends=False):
        self.uses, self.linear, self.ends = uses or {}, linear, ends
        self.prop, self.fn, self.sym, self.runs, self.note = prop, fn, sym, runs, note
        self.budget, self.bmc, self.known = budget, bmc, known
        self.name = fn.__name__

    def key(self):
        return '%s/%s' % (self.prop, self.name)


def driver(prop, sym=True, runs=300, note='', budget=240, bmc=(1, 2, 3), known=None, uses=None, linear=False, ends=False):
    """ends: every while loop on the way has to be shown to end"""
    def deco(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            REGISTRY.append(Driver(p, fn, sym, runs, note, budget, bmc, known, uses, linear, ends))
        return fn
    return deco


def bounded(prop, runs=300, note=''):
    """a bounded (run-time) check of the contract on generated inputs"""
    return driver(prop, sym=False, runs=runs, note=note)


# ---------------------------------------------------------------- typed inputs
POOL = [0.0, 0.0, 1.0, -1.0, 2.0, 5.0, 10.0, 0.5, 0.1, -0.4, 20.0, 100.0, 0.001, 0.2, 0.25, 12.345, -7.5, 3.0, 7.0, 60.0]


class Gen(T):
    def gen(self, rng):
        raise NotImplementedError


class RealG(Gen):
    def __init__(self, lo=None, hi=None, pool=None):
        self.lo, self.hi, self.pool = lo, hi, pool

    def fresh(self, mk, eng=None):
        v = mk('real', z3.RealSort())
        bound(eng, v, self.lo, self.hi)
        return v

    def gen(self, rng):
        if self.pool and rng.random() < 0.8:
            return rng.choice(self.pool)
        for _ in range(50):
            v = rng.choice(POOL) if rng.random() < 0.6 else round(rng.uniform(-150, 150), rng.choice([0, 1, 2, 3, 3]))
            if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi):
                return v
        lo = self.lo if self.lo is not None else self.hi - 100
        hi = self.hi if self.hi is not None else self.lo + 100
        return round(rng.uniform(lo, hi), 3)


def bound(eng, v, lo, hi):
    from .values import realval, INF
    if lo is not None:
        eng.axiom(v >= (realval(lo) if v.is_real() else lo))
    if hi is not None:
        eng.axiom(v <= (realval(hi) if v.is_real() else hi))
    if v.is_real():
        if lo is None:
            eng.axiom(v > -INF)
        if hi is None:
            eng.axiom(v < INF)


class IntG(Gen):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def fresh(self, mk, eng=None):
        v = mk('int', z3.IntSort())
        bound(eng, v, self.lo, self.hi)
        return v

    def gen(self, rng):
        return rng.randint(self.lo if self.lo is not None else -5, self.hi if self.hi is not None else 12)


class BoolG(Gen):
    def fresh(self, mk, eng=None):
        return mk('bool', z3.BoolSort())

    def gen(self, rng):
        return rng.random() < 0.5


class OptG(Gen):
    def __init__(self, t, p=0.5):
        self.t, self.p = t, p

    def fresh(self, mk, eng=None):
        isn = mk('isnone', z3.BoolSort())
        return mkunion([(isn, None), (Not_(isn), self.t.fresh(mk, eng))])

    def gen(self, rng):
        return self.t.gen(rng) if rng.random() < self.p else None


class ChoiceG(Gen):
    """one of the given constants; open: or any other string"""
    def __init__(self, vals, weights=None, open=False):
        self.vals, self.open = list(vals), open
        self.weights = weights

    def fresh(self, mk, eng=None):
        if all(isinstance(v, str) for v in self.vals):
            t = mk('str', z3.IntSort())
            codes = [STRS.intern(v) for v in self.vals]
            if not self.open:
                eng.axiom(z3.Or(*[t == c for c in codes]))
            else:
                eng.axiom(t > 0)
            return AStr(t)
        tag = mk('tag', z3.IntSort())
        n = len(self.vals)
        eng.axiom(z3.And(tag >= 0, tag < n))
        return mkunion([(tag == i, v) for i, v in enumerate(self.vals)])

    def gen(self, rng):
        return rng.choices(self.vals, self.weights)[0] if self.weights else rng.choice(self.vals)


class ConstG(Gen):
    def __init__(self, v):
        self.v = v

    def fresh(self, mk, eng=None):
        return self.v

    def gen(self, rng):
        return self.v


class WordsG(Gen):
    """a command line: command word followed by optional words, e.g. 'G1 X12.5 E0.3'"""
    def __init__(self, cmds, letters='XYZEFIJ', num=None, p=0.45, comment=False):
        self.cmds, self.letters, self.comment, self.p = cmds, letters, comment, p
        self.num = num or RealG()

    def fresh(self, mk, eng=None):
        from . import builtins_ as B
        c = mk('cmd', z3.IntSort())
        eng.axiom(c > 0)
        head = str_head(c)
        tail = str_tail(c)
        eng.axiom(z3.And(c == z3.Function('str_join', z3.IntSort(), z3.IntSort(), z3.IntSort())(head, tail)))
        up = [STRS.intern(x) for x in 'GMT']
        eng.axiom(z3.Or(*[head == u for u in up]))
        B.declare_command(c)
        ps = [(True, AStr(c))]
        for l in self.letters:
            g = mk('has' + l, z3.BoolSort())
            v = mk('num' + l, z3.RealSort())
            bound(eng, v, None, None)
            ps.append((g, ' ' + l))
            ps.append((g, Num(v, None)))
        if self.comment:
            g = mk('hascomment', z3.BoolSort())
            t = mk('comment', z3.IntSort())
            B.declare_command(t, 'note G1 X5 (a')
            ps.append((g, ' ;'))
            ps.append((g, AStr(t)))
        return mktext(ps)

    def gen(self, rng):
        c = rng.choice(self.cmds)
        s = c
        ls = list(self.letters)
        for l in ls:
            if rng.random() < self.p:
                s += ' %s%s' % (l, numeral(self.num.gen(rng)))
        if self.comment and rng.random() < 0.5:
            s += ' ;' + rng.choice(['', 'note', ' a b ', 'X5', 'G1 (a)'])
        return s


def numeral(v):
    s = '%.4f' % v
    s = s.rstrip('0').rstrip('.') if '.' in s else s
    return s if s not in ('-0', '') else '0'


class TextG(WordsG):
    """the text of a line, known only through its command and its words"""
    def fresh(self, mk, eng=None):
        return AStr(mk('text', z3.IntSort()))


def text_of(ident):
    return z3.Function('PyLine.raw.text', z3.IntSort(), z3.IntSort())(ident)


def text_cmd(t):
    return z3.Function('text.cmd', z3.IntSort(), z3.IntSort())(t)


def text_has(t, l):
    return z3.Function('text.has_%s' % l, z3.IntSort(), z3.BoolSort())(t)


def text_num(t, l):
    return z3.Function('text.num_%s' % l, z3.IntSort(), z3.RealSort())(t)


def text_named(t, l):
    return z3.Or(text_has(t, l), z3.Function('text.named_%s' % l, z3.IntSort(), z3.BoolSort())(t))


class DerivedG(Gen):
    """an attribute of a parsed line: the word of one letter in millimetres, or None"""
    def __init__(self, letter):
        self.letter = letter

    def fresh(self, mk, eng=None):
        if getattr(mk, 'ident', None) is None:
            return OPT(REAL).fresh(mk, eng)
        t = text_of(mk.ident)
        g = z3.And(text_has(t, self.letter), str_head(text_cmd(t)) == STRS.intern('G'))
        v = text_num(t, self.letter)
        bound(eng, v, None, None)
        inch = z3.Function('PyLine.imperial.bool', z3.IntSort(), z3.BoolSort())(mk.ident)
        v = z3.If(inch, v * z3.RealVal('25.4'), v)
        return mkunion([(Not_(g), None), (g, v)])

    def gen(self, rng):
        return None


class CommandG(Gen):
    """the command word of the text of a line"""
    def fresh(self, mk, eng=None):
        if getattr(mk, 'ident', None) is None:
            return AStr(mk('cmd', z3.IntSort()))
        return AStr(text_cmd(text_of(mk.ident)))

    def gen(self, rng):
        return None


class Schema(object):
    """typed attributes of input objects; `make` builds a native object from a dict of attribute values;
    `items`: class and schema of the elements, when the objects are lists"""
    def __init__(self, attrs, make=None, weight=None, items=None):
        self.attrs, self.make, self.weight, self.items = attrs, make, weight, items


class ItemsG(Gen):
    """the content of an input object that is a list"""
    def __init__(self, cls, asof):
        self.cls, self.asof = cls, asof

    def fresh(self, mk, eng=None):
        return SL(mk('seq', z3.SeqSort(z3.IntSort())), RefE(self.cls), self.asof, distinct=True)


# ---------------------------------------------------------------- native execution context
class Native(object):
    def __init__(self, rng=None, values=None, size=6):
        self.rng, self.values, self.size = rng, values, size
        self.record = {}
        self.checks = 0

    def get(self, name, t):
        if self.values is not None:
            if name not in self.values:
                v = t.gen(random.Random(name))
            else:
                v = self.values[name]
        else:
            v = t.gen(self.rng)
        self.record[name] = v
        return v


CTX = [None]


def _get(name, t):
    return CTX[0].get(name, t)


def real(name, lo=None, hi=None, pool=None):
    return _get(name, RealG(lo, hi, pool))


def integer(name, lo=None, hi=None):
    return _get(name, IntG(lo, hi))


def boolean(name):
    return _get(name, BoolG())


def opt_real(name):
    return _get(name, OptG(RealG()))


def choice(name, *vals):
    return _get(name, ChoiceG(vals))


def integers(name):
    """any list of integers (in contracts for the prover)"""
    raise Skip()


def numbers(name):
    """any set of numbers, with or without None (in contracts for the prover)"""
    raise Skip()


def value(name, t):
    """an input of a given type"""
    return _get(name, t)


def objects(name, cls, schema, minlen=0):
    """a list of distinct input objects of unknown length"""
    c = CTX[0]
    if c.values is not None:
        recs = c.values.get(name, [])
    else:
        n = c.rng.randint(minlen, max(minlen, c.size))
        recs = [{a: t.gen(c.rng) for a, t in schema.attrs.items()} for _ in range(n)]
    c.record[name] = recs
    out = []
    for r in recs:
        out.append(build(cls, schema, r))
    return out


def one(name, cls, schema):
    """a single input object"""
    c = CTX[0]
    if c.values is not None:
        r = c.values.get(name, {})
    else:
        r = {a: t.gen(c.rng) for a, t in schema.attrs.items()}
    c.record[name] = r
    return build(cls, schema, r)


def build(cls, schema, r):
    if schema.make is not None:
        return schema.make(dict(r))
    o = cls.__new__(cls)
    for a, v in r.items():
        setattr(o, a, v)
    return o


def gen(name, fn):
    """an input made by a generator function (bounded checks only)"""
    c = CTX[0]
    v = c.values[name] if c.values is not None else fn(c.rng)
    c.record[name] = v
    return v


def anystr():
    """some text (only in contracts that stand for a function)"""
    return '?'


def anyreal():
    """some number (only in contracts that stand for a function)"""
    return 0.0


def opaque(text):
    """is the text known only through its command and words? (never when the contract is executed)"""
    return False


def _words(text):
    from contracts.ref import words
    return words(text)


def word_in(text, letter):
    """the number of a word of a text, or None"""
    return getattr(_words(text)[1], letter)


def named_in(text, letter):
    """is there a word of that letter, with or without a number?"""
    return letter in _words(text)[1].named


def command_in(text):
    return _words(text)[0]


def numeral_in(text, letter):
    v = word_in(text, letter)
    return '' if v is None else numeral(v)


def needs(cls, *names):
    """a contract that stands for a function names the parts of the code it relies on; without them it does not apply"""
    if not all(hasattr(cls, n) for n in names):
        raise Skip()


def lines_of(layers):
    """all the lines of the layers, in order"""
    return [l for layer in layers for l in layer]


def start_of(layers, k):
    """the number of lines before the k-th layer"""
    return sum(len(layer) for layer in layers[:k])


def place_of(layers, n):
    """(layer, position) of the n-th line of the layers"""
    for i, layer in enumerate(layers):
        if n < len(layer):
            return i, n
        n -= len(layer)
    raise IndexError(n)


def related(name, a, b):
    """a relation between two objects about which nothing is known; symbolic only"""
    raise NotImplementedError(name)


def letter_of(command):
    return command[0].lower()


def digits_of(command):
    return command[1:]


def assume(c):
    if not c:
        raise Skip()


def check(c, name):
    CTX[0].checks += 1
    if not c:
        raise CheckFailed(name)


def invariant(*cs):
    for c in cs:
        if not c:
            raise CheckFailed('loop invariant')


def close(a, b, tol=1e-6):
    """equality of reals; the verifier treats floats as exact reals, CPython gets a rounding allowance"""
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_objects(a, b):
    """the same objects in the same order"""
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def by_case(value, fn, *args):
    """fn(value, *args); the verifier looks at each of the possible values on its own"""
    return fn(value, *args)


def same_num(a, b):
    """equal optional numbers"""
    if a is None or b is None:
        return a is None and b is None
    return close(a, b)


class Hang(BaseException):
    """a run did not end"""


HANG_S = 30


def _alarm(sig, frame):
    raise Hang()


def native_run(fn, rng=None, values=None, size=6):
    """('ok'|'skip'|'fail', message, record)"""
    import signal
    import threading
    c = Native(rng, values, size)
    CTX[0] = c
    guard = threading.current_thread() is threading.main_thread()
    if guard:
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, HANG_S, 1.0)
    try:
        try:
            fn()
            return 'ok', None, c
        finally:
            if guard:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
    except Hang:
        return 'fail', 'the run does not end (%d s)' % HANG_S, c
    except Skip:
        return 'skip', None, c
    except CheckFailed as e:
        return 'fail', 'check failed: %s' % e, c
    except RecursionError as e:
        return 'fail', 'RecursionError', c
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        return 'fail', '%s: %s at %s:%s' % (type(e).__name__, e, last.filename.split('/')[-1], last.lineno), c
    finally:
        CTX[0] = None
