"""Values of the symbolic interpreter: native Python constants, z3 terms, references, unions."""
import fractions
import math
import z3

_ctr = [0]


def uid():
    _ctr[0] += 1
    return _ctr[0]


def reset_uid():
    _ctr[0] = 0


INF = z3.Real('INF')          # +infinity: every finite quantity of a run is strictly between -INF and INF


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the result is 'undecided', never 'violated'."""


# ---------------------------------------------------------------- booleans with constant folding
def is_z(v):
    return isinstance(v, z3.ExprRef)


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def _cb(b):
    """fold z3 literals to Python bools"""
    if isinstance(b, bool):
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


def And_(*bs):
    out = []
    for b in bs:
        b = _cb(b)
        if b is True:
            continue
        if b is False:
            return False
        if z3.is_and(b):
            out.extend(b.children())
        else:
            out.append(b)
    # dedupe
    seen, res = set(), []
    for b in out:
        i = b.get_id()
        if i not in seen:
            seen.add(i)
            res.append(b)
    ids = {b.get_id() for b in res}
    for b in res:
        if z3.is_not(b) and b.arg(0).get_id() in ids:
            return False
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return z3.And(*res)


def Or_(*bs):
    out = []
    for b in bs:
        b = _cb(b)
        if b is False:
            continue
        if b is True:
            return True
        if z3.is_or(b):
            out.extend(b.children())
        else:
            out.append(b)
    seen, res = set(), []
    for b in out:
        i = b.get_id()
        if i not in seen:
            seen.add(i)
            res.append(b)
    ids = {b.get_id() for b in res}
    for b in res:
        if z3.is_not(b) and b.arg(0).get_id() in ids:
            return True
    # factor common conjuncts: (p & a) | (p & !a) -> p   (frequent at join points)
    if len(res) == 2:
        c1 = res[0].children() if z3.is_and(res[0]) else [res[0]]
        c2 = res[1].children() if z3.is_and(res[1]) else [res[1]]
        i1 = {c.get_id() for c in c1}
        i2 = {c.get_id() for c in c2}
        common = [c for c in c1 if c.get_id() in i2]
        if common:
            r1 = [c for c in c1 if c.get_id() not in i2]
            r2 = [c for c in c2 if c.get_id() not in i1]
            rest = Or_(And_(*r1), And_(*r2)) if (r1 and r2) else True
            return And_(*(common + [rest]))
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return z3.Or(*res)


def Not_(b):
    b = _cb(b)
    if isinstance(b, bool):
        return not b
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def Implies_(a, b):
    return Or_(Not_(a), b)


# ---------------------------------------------------------------- structured values
class Ref(object):
    """reference to a heap object; `ident` is a Python int (allocated in this run) or a z3 Int"""
    __slots__ = ('cls', 'ident', 'asof')

    def __init__(self, cls, ident, asof=None):
        self.cls = cls
        self.ident = ident
        self.asof = asof

    def key(self):
        return self.ident if isinstance(self.ident, int) else ('z', self.ident.get_id())

    def term(self):
        return z3.IntVal(self.ident) if isinstance(self.ident, int) else self.ident

    def __repr__(self):
        return '<%s#%s>' % (self.cls.__name__, self.ident)


class Cx(object):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx(%s,%s)' % (self.re, self.im)


class Union(object):
    """guarded union; guards are exclusive and cover the path condition"""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return 'Union(%s)' % (self.cases,)


class Closure(object):
    __slots__ = ('node', 'env', 'globs', 'name', 'defaults', 'kwdefaults')

    def __init__(self, node, env, globs, name, defaults=(), kwdefaults=None):
        self.node, self.env, self.globs, self.name = node, env, globs, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class Bound(object):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return 'Bound(%s,%s)' % (self.func, self.self)


class BuiltinMethod(object):
    """method of a built-in type on an engine value (list.append, str.lower, ...)"""
    __slots__ = ('name', 'self')

    def __init__(self, name, self_):
        self.name, self.self = name, self_

    def __repr__(self):
        return 'BM(%s,%s)' % (self.name, self.self)


class SuperProxy(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcVal(object):
    __slots__ = ('cls', 'args', 'where')

    def __init__(self, cls, args=()):
        self.cls, self.args, self.where = cls, args, None

    def __repr__(self):
        return 'Exc(%s %s)' % (self.cls.__name__, self.args)


class IterDesc(object):
    """a finite iterable of symbolic length: n items, item(k)"""
    def __init__(self, n, item, seq=None, elem=None, kind='seq'):
        self.n, self.item, self.seq, self.elem, self.kind = n, item, seq, elem, kind


class SymDict(object):
    """marker for heap dict content: python dict of concrete key -> value"""
    def __init__(self, d):
        self.d = d


# ---------------------------------------------------------------- element types of symbolic sequences
_dt_cache = {}


class ElemT(object):
    pass


class RefE(ElemT):
    def __init__(self, cls):
        self.cls = cls
        self.sort = z3.IntSort()

    def enc(self, v):
        if isinstance(v, Ref):
            return v.term()
        if isinstance(v, Union) and all(isinstance(x, Ref) for _, x in v.cases):
            t = v.cases[-1][1].term()
            for g, x in reversed(v.cases[:-1]):
                t = z3.If(zb(g), x.term(), t)
            return t
        raise Unsupported('cannot store %r in a list of %s' % (v, self.cls.__name__))

    def dec(self, t, asof=None):
        t2 = z3.simplify(t) if not z3.is_const(t) else t
        if z3.is_int_value(t2):
            return Ref(self.cls, t2.as_long(), asof)
        return Ref(self.cls, t, asof)

    def name(self):
        return 'Ref_' + self.cls.__name__


class NumE(ElemT):
    def __init__(self, kind):
        self.kind = kind
        self.sort = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort(), 'str': z3.IntSort()}[kind]

    def enc(self, v):
        if self.kind == 'real':
            return to_real(v)
        if self.kind == 'int':
            return to_int(v)
        if self.kind == 'bool':
            if isinstance(v, (bool, z3.BoolRef)):
                return zb(v)
        if self.kind == 'str':
            return to_str(v)
        raise Unsupported('cannot store %r in a list of %s' % (v, self.kind))

    def dec(self, t, asof=None):
        return mkastr(t) if self.kind == 'str' else t

    def name(self):
        return self.kind


class TupE(ElemT):
    def __init__(self, elems):
        self.elems = elems
        nm = 'Tup_' + '_'.join(e.name() for e in elems)
        if nm not in _dt_cache:
            d = z3.Datatype(nm)
            d.declare('mk_' + nm, *[('f%d_%s' % (i, nm), e.sort) for i, e in enumerate(elems)])
            _dt_cache[nm] = d.create()
        self.dt = _dt_cache[nm]
        self.sort = self.dt
        self._nm = nm

    def enc(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.elems):
            raise Unsupported('tuple expected')
        return self.dt.constructor(0)(*[e.enc(x) for e, x in zip(self.elems, v)])

    def dec(self, t, asof=None):
        return tuple(e.dec(self.dt.accessor(0, i)(t), asof) for i, e in enumerate(self.elems))

    def name(self):
        return self._nm


class OptE(ElemT):
    def __init__(self, inner):
        self.inner = inner
        nm = 'Opt_' + inner.name()
        if nm not in _dt_cache:
            d = z3.Datatype(nm)
            d.declare('none_' + nm)
            d.declare('some_' + nm, ('val_' + nm, inner.sort))
            _dt_cache[nm] = d.create()
        self.dt = _dt_cache[nm]
        self.sort = self.dt
        self._nm = nm

    def enc(self, v):
        if v is None:
            return self.dt.constructor(0)()
        if isinstance(v, Union):
            t = None
            for g, x in reversed(v.cases):
                e = self.enc(x)
                t = e if t is None else z3.If(zb(g), e, t)
            return t
        return self.dt.constructor(1)(self.inner.enc(v))

    def dec(self, t, asof=None):
        isn = self.dt.recognizer(0)(t)
        return Union([(isn, None), (Not_(isn), self.inner.dec(self.dt.accessor(1, 0)(t), asof))])

    def name(self):
        return self._nm


class CL(object):
    """list content of known length"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'CL%r' % (self.items,)


class GL(object):
    """list content of guarded items: item i is present iff its guard holds"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'GL%r' % (self.items,)


class StrTable(object):
    """string literals are interned as integer codes; other strings are integer terms"""
    def __init__(self):
        self.reset()

    def reset(self):
        self.code = {'': 0}
        self.lit = ['']
        self.unary = {}         # function name -> (z3 function, python function on literals)
        self.axioms = []

    def intern(self, s):
        if s not in self.code:
            self.code[s] = len(self.lit)
            self.lit.append(s)
            for f, pf in self.unary.values():
                self._ax(f, pf, s)
        return self.code[s]

    def _ax(self, f, pf, s):
        r = pf(s)
        if r is None:
            return
        a = f(z3.IntVal(self.code[s]))
        if isinstance(r, bool):
            self.axioms.append(a if r else z3.Not(a))
        elif isinstance(r, str):
            self.axioms.append(a == z3.IntVal(self.intern(r)))
        else:
            self.axioms.append(a == r)

    def fun(self, name, rsort, pf):
        if name not in self.unary:
            f = z3.Function(name, z3.IntSort(), rsort)
            self.unary[name] = (f, pf)
            for s in list(self.lit):
                self._ax(f, pf, s)
        return self.unary[name][0]


STRS = StrTable()


class AStr(object):
    """a string of unknown text, denoted by an integer term (literals are interned codes)"""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return 'AStr(%s)' % self.term


class CmdPart(object):
    """part of a command word: its letter (as read from lower-cased text, or upper case) or its digits"""
    __slots__ = ('term', 'part')

    def __init__(self, term, part):
        self.term, self.part = term, part      # part: 'lower' | 'upper' | 'digits'

    def strterm(self):
        if self.part == 'upper':
            return str_head(self.term)
        if self.part == 'digits':
            return str_tail(self.term)
        return STRS.fun('str_lower', z3.IntSort(), lambda x: x.lower())(str_head(self.term))


def mkastr(t):
    if z3.is_int_value(t):
        i = t.as_long()
        if 0 <= i < len(STRS.lit):
            return STRS.lit[i]
    return AStr(t)


def str_head(t):
    return STRS.fun('str_head', z3.IntSort(), lambda s: s[:1])(t)


def str_tail(t):
    return STRS.fun('str_tail', z3.IntSort(), lambda s: s[1:])(t)


def str_contains(t, m):
    return STRS.fun('str_has<%s>' % m, z3.BoolSort(), lambda s: m in s)(t)


def str_starts(t, m):
    return STRS.fun('str_starts<%s>' % m, z3.BoolSort(), lambda s: s.startswith(m))(t)


STR_CAT = z3.Function('str_cat', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Num(object):
    """a number spelled out in a text; spec is the number of decimals, or None for a source numeral"""
    __slots__ = ('val', 'spec')

    def __init__(self, val, spec):
        self.val, self.spec = val, spec

    def term(self):
        f = z3.Function('numtext_%s' % self.spec, z3.RealSort(), z3.IntSort())
        return f(to_real(self.val))

    def __repr__(self):
        return 'Num(%s,%s)' % (self.val, self.spec)


class Text(object):
    """a string given by guarded pieces: Python strings, z3 strings and spelled numbers"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return 'Text%r' % (self.pieces,)


def pieces_of(v):
    if isinstance(v, Text):
        return list(v.pieces)
    if isinstance(v, str):
        return [(True, v)] if v else []
    return [(True, v)]


def mktext(pieces):
    out = []
    for g, p in pieces:
        g = _cb(g)
        if g is False or (isinstance(p, str) and p == ''):
            continue
        if out and isinstance(p, str) and isinstance(out[-1][1], str) and same(out[-1][0], g):
            out[-1] = (g, out[-1][1] + p)
        else:
            out.append((g, p))
    if not out:
        return ''
    if len(out) == 1 and out[0][0] is True and not isinstance(out[0][1], Num):
        return out[0][1]
    return Text(out)


class SL(object):
    """list content given by a z3 sequence; its elements all existed when the allocation counter was `asof`"""
    __slots__ = ('term', 'elem', 'asof', 'distinct', 'tag')

    def __init__(self, term, elem, asof=None, distinct=False, tag=None):
        self.term, self.elem, self.asof, self.distinct, self.tag = term, elem, asof, distinct, tag

    def __repr__(self):
        return 'SL(%s)' % self.term


# ---------------------------------------------------------------- numbers
def is_num(v):
    return (isinstance(v, (int, float, fractions.Fraction)) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_boolv(v):
    return isinstance(v, (bool, z3.BoolRef))


def is_strv(v):
    return isinstance(v, (str, Text, AStr, CmdPart))


def realval(f):
    if isinstance(f, float):
        if math.isinf(f):
            return INF if f > 0 else -INF
        if math.isnan(f):
            raise Unsupported('NaN')
        fr = fractions.Fraction(repr(f))
    else:
        fr = fractions.Fraction(f)
    return z3.RealVal(str(fr))


def to_real(v):
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, (int, float, fractions.Fraction)):
        return realval(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, Union):
        t = None
        for g, x in reversed(v.cases):
            e = to_real(x)
            t = e if t is None else z3.If(zb(g), e, t)
        return t
    raise Unsupported('number expected, got %r' % (v,))


def to_int(v):
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Union):
        t = None
        for g, x in reversed(v.cases):
            e = to_int(x)
            t = e if t is None else z3.If(zb(g), e, t)
        return t
    raise Unsupported('int expected, got %r' % (v,))


def to_str(v):
    """integer term denoting a string"""
    if isinstance(v, str):
        return z3.IntVal(STRS.intern(v))
    if isinstance(v, AStr):
        return v.term
    if isinstance(v, CmdPart):
        return v.strterm()
    if isinstance(v, Num):
        return v.term()
    if isinstance(v, Text):
        t = None
        for g, p in v.pieces:
            x = to_str(p)
            if t is None:
                t = x if g is True else z3.If(zb(g), x, z3.IntVal(0))
            else:
                c = STR_CAT(t, x)
                t = c if g is True else z3.If(zb(g), c, t)
        return t
    if isinstance(v, Union):
        t = None
        for g, x in reversed(v.cases):
            e = to_str(x)
            t = e if t is None else z3.If(zb(g), e, t)
        return t
    raise Unsupported('str expected, got %r' % (v,))


def elem_of(v):
    """element type able to hold v"""
    if isinstance(v, Ref):
        return RefE(family(v.cls))
    if is_boolv(v):
        return NumE('bool')
    if is_int(v):
        return NumE('int')
    if is_num(v):
        return NumE('real')
    if is_strv(v):
        return NumE('str')
    if isinstance(v, tuple):
        return TupE([elem_of(x) for x in v])
    if isinstance(v, Union):
        ts = [elem_of(x) for _, x in v.cases if x is not None]
        opt = any(x is None for _, x in v.cases)
        t = ts[0]
        for u in ts[1:]:
            t = join_elem(t, u)
        return OptE(t) if opt else t
    raise Unsupported('no element type for %r' % (v,))


def join_elem(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a.name() == b.name():
        return a
    if isinstance(a, NumE) and isinstance(b, NumE) and {a.kind, b.kind} == {'int', 'real'}:
        return NumE('real')
    if isinstance(a, OptE) or isinstance(b, OptE):
        ia = a.inner if isinstance(a, OptE) else a
        ib = b.inner if isinstance(b, OptE) else b
        return OptE(join_elem(ia, ib))
    if isinstance(a, TupE) and isinstance(b, TupE) and len(a.elems) == len(b.elems):
        return TupE([join_elem(x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, RefE) and isinstance(b, RefE):
        for c in a.cls.__mro__:
            if issubclass(b.cls, c) and c is not object:
                return RefE(c)
    raise Unsupported('no common element type for %s and %s' % (a.name(), b.name()))


def family(cls):
    """class used to key heap attributes: the most general user class"""
    best = cls
    for c in cls.__mro__:
        if c in (object, list, dict, tuple, set) or c.__module__ in ('builtins', 'array'):
            continue
        best = c
    return best


# ---------------------------------------------------------------- merging
def kindkey(v):
    if v is None:
        return 'none'
    if is_boolv(v):
        return 'bool'
    if is_num(v):
        return 'num'
    if is_strv(v):
        return 'str'
    if isinstance(v, tuple):
        return ('tuple', len(v))
    if isinstance(v, Ref):
        return ('ref', v.cls, v.key())
    if isinstance(v, Cx):
        return 'cx'
    if isinstance(v, (CL, GL)):
        return 'content'
    if hasattr(v, '_kind'):
        return v._kind()
    if isinstance(v, SL):
        return 'seqcontent'
    if isinstance(v, Bound):
        return ('bound', id(v.func), kindkey(v.self))
    return ('obj', id(v))


def same(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cls is b.cls and a.key() == b.key()
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (bool, int, float, str, type(None))):
        return a == b
    if isinstance(a, Cx) and isinstance(b, Cx):
        return same(a.re, b.re) and same(a.im, b.im)
    if hasattr(a, '_same') and type(a) is type(b):
        return a._same(b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and same(a.self, b.self)
    if isinstance(a, CL) and isinstance(b, CL):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, GL) and isinstance(b, GL):
        return len(a.items) == len(b.items) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.items, b.items))
    if isinstance(a, AStr) and isinstance(b, AStr):
        return a.term.eq(b.term)
    if isinstance(a, CmdPart) and isinstance(b, CmdPart):
        return a.part == b.part and a.term.eq(b.term)
    if isinstance(a, Num) and isinstance(b, Num):
        return a.spec == b.spec and same(a.val, b.val)
    if isinstance(a, Text) and isinstance(b, Text):
        return len(a.pieces) == len(b.pieces) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.pieces, b.pieces))
    if isinstance(a, SL) and isinstance(b, SL):
        return a.term.eq(b.term)
    return False


def merge(g, a, b):
    """value equal to a when g holds, else b"""
    g = _cb(g)
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    ca = a.cases if isinstance(a, Union) else [(True, a)]
    cb = b.cases if isinstance(b, Union) else [(True, b)]
    return mkunion([(And_(g, h), v) for h, v in ca] + [(And_(Not_(g), h), v) for h, v in cb])


def merge1(g, a, b):
    """merge two values of the same kind"""
    if same(a, b):
        return a
    if is_boolv(a):
        if b is True and a is False or False:
            return Not_(g)
        if isinstance(a, bool) and isinstance(b, bool):
            return g if a else Not_(g)
        return z3.If(zb(g), zb(a), zb(b))
    if is_num(a):
        if is_int(a) and is_int(b):
            return z3.If(zb(g), to_int(a), to_int(b))
        return z3.If(zb(g), to_real(a), to_real(b))
    if is_strv(a):
        return merge_str(g, a, b)
    if isinstance(a, tuple):
        return tuple(merge(g, x, y) for x, y in zip(a, b))
    if isinstance(a, Cx):
        return Cx(merge(g, a.re, b.re), merge(g, a.im, b.im))
    if isinstance(a, (CL, GL)):
        return merge_lists(g, a, b)
    if isinstance(a, SL):
        if a.elem.sort != b.elem.sort:
            raise Unsupported('merge of lists of different element types')
        return SL(z3.If(zb(g), a.term, b.term), join_elem(a.elem, b.elem), max(a.asof, b.asof), a.distinct and b.distinct, None)
    if isinstance(a, Bound):
        return Bound(a.func, merge(g, a.self, b.self))
    if hasattr(a, '_merge'):
        return a._merge(g, b)
    if isinstance(a, Ref):
        return Ref(a.cls, a.ident, max(a.asof or 0, b.asof or 0) or None)
    if a is b:
        return a
    raise Unsupported('merge of %r and %r' % (a, b))


def merge_str(g, a, b):
    pa, pb = pieces_of(a), pieces_of(b)
    n = 0
    while n < len(pa) and n < len(pb) and same(pa[n][0], pb[n][0]) and same(pa[n][1], pb[n][1]):
        n += 1
    pre, ra, rb = pa[:n], pa[n:], pb[n:]
    # common start inside two constant pieces
    if ra and rb and same(ra[0][0], rb[0][0]) and isinstance(ra[0][1], str) and isinstance(rb[0][1], str):
        x, y = ra[0][1], rb[0][1]
        if (x.startswith(y) or y.startswith(x)) and (n or len(ra) > 1 or len(rb) > 1 or '{' in x and x and y):
            m = min(len(x), len(y))
            gg = ra[0][0]
            pre = pre + [(gg, x[:m])]
            ra = ([(gg, x[m:])] if x[m:] else []) + ra[1:]
            rb = ([(gg, y[m:])] if y[m:] else []) + rb[1:]
    if not pre and len(ra) <= 1 and len(rb) <= 1 and not any(isinstance(p, Num) for _, p in ra + rb) \
            and all(gg is True for gg, _ in ra + rb) \
            and not (bool(ra) != bool(rb) and '{' in str((ra + rb)[0][1])):
        return AStr(z3.If(zb(g), to_str(a), to_str(b)))
    ng = Not_(g)
    return mktext(pre + [(And_(g, h), p) for h, p in ra] + [(And_(ng, h), p) for h, p in rb])


def gl_of(c):
    return [(True, x) for x in c.items] if isinstance(c, CL) else list(c.items)


def mkgl(items):
    items = [(_cb(g), v) for g, v in items if _cb(g) is not False]
    if all(g is True for g, _ in items):
        return CL([v for _, v in items])
    return GL(items)


def merge_lists(g, a, b):
    """contents a and b are CL or GL"""
    la, lb = gl_of(a), gl_of(b)
    if len(la) == len(lb) and all(same(x[0], y[0]) for x, y in zip(la, lb)):
        return mkgl([(x[0], merge(g, x[1], y[1])) for x, y in zip(la, lb)])
    n = 0
    while n < len(la) and n < len(lb) and same(la[n][0], lb[n][0]) and same(la[n][1], lb[n][1]):
        n += 1
    m = 0
    while m < len(la) - n and m < len(lb) - n and same(la[-1 - m][0], lb[-1 - m][0]) and same(la[-1 - m][1], lb[-1 - m][1]):
        m += 1
    ra, rb = la[n:len(la) - m], lb[n:len(lb) - m]
    ng = Not_(g)
    return mkgl(la[:n] + [(And_(g, h), v) for h, v in ra] + [(And_(ng, h), v) for h, v in rb] + la[len(la) - m:])


def mkunion(cases):
    groups = {}
    order = []
    for g, v in cases:
        g = _cb(g)
        if g is False:
            continue
        if isinstance(v, Union):
            for h, w in v.cases:
                gg = And_(g, h)
                if gg is False:
                    continue
                _add(groups, order, gg, w)
        else:
            _add(groups, order, g, v)
    if not order:
        raise Unsupported('empty union')
    if len(order) == 1:
        return groups[order[0]][1]
    return Union([tuple(groups[k]) for k in order])


def _add(groups, order, g, v):
    k = kindkey(v)
    if k in groups:
        g0, v0 = groups[k]
        groups[k] = [Or_(g0, g), merge1(g0, v0, v)]
    else:
        groups[k] = [g, v]
        order.append(k)


# ---------------------------------------------------------------- types (for fresh values)
class T(object):
    """type descriptor; fresh(mk) builds a value, mk(suffix, sort) giving a z3 term"""
    def fresh(self, mk, eng=None):
        raise NotImplementedError


class _Prim(T):
    def __init__(self, sort, nm):
        self.sort, self.nm = sort, nm

    def fresh(self, mk, eng=None):
        return mk(self.nm, self.sort())

    def __repr__(self):
        return self.nm


REAL = _Prim(z3.RealSort, 'real')
INT = _Prim(z3.IntSort, 'int')
BOOL = _Prim(z3.BoolSort, 'bool')


class _StrT(_Prim):
    def fresh(self, mk, eng=None):
        return AStr(mk('str', z3.IntSort()))


STR = _StrT(z3.IntSort, 'str')


class _NoneT(T):
    def fresh(self, mk, eng=None):
        return None

    def __repr__(self):
        return 'none'


NONE = _NoneT()


class CONST(T):
    def __init__(self, v):
        self.v = v

    def fresh(self, mk, eng=None):
        return self.v

    def __repr__(self):
        return 'const(%r)' % (self.v,)


class OPT(T):
    def __init__(self, t):
        self.t = t

    def fresh(self, mk, eng=None):
        isn = mk('isnone', z3.BoolSort())
        return mkunion([(isn, None), (Not_(isn), self.t.fresh(mk, eng))])

    def __repr__(self):
        return 'opt(%r)' % self.t


class ALT(T):
    """one of several types"""
    def __init__(self, ts):
        self.ts = ts

    def fresh(self, mk, eng=None):
        tag = mk('tag', z3.IntSort())
        cases = []
        n = len(self.ts)
        for i, t in enumerate(self.ts):
            if n == 1:
                g = True
            elif i == n - 1:
                g = Not_(Or_(*[tag == j for j in range(n - 1)]))
            else:
                g = (tag == i)
            cases.append((g, t.fresh(lambda s, so, i=i: mk('%s_%d' % (s, i), so), eng)))
        return mkunion(cases)

    def __repr__(self):
        return 'alt(%r)' % (self.ts,)


class REFT(T):
    def __init__(self, cls):
        self.cls = cls

    def fresh(self, mk, eng=None):
        return Ref(self.cls, mk('ref', z3.IntSort()), eng.alloc if eng else None)

    def __repr__(self):
        return 'ref(%s)' % self.cls.__name__


class CXT(T):
    def fresh(self, mk, eng=None):
        return Cx(mk('re', z3.RealSort()), mk('im', z3.RealSort()))


class TUPT(T):
    def __init__(self, ts):
        self.ts = ts

    def fresh(self, mk, eng=None):
        return tuple(t.fresh(lambda s, so, i=i: mk('%s_t%d' % (s, i), so), eng) for i, t in enumerate(self.ts))


class SEQT(T):
    """list content"""
    def __init__(self, elem):
        self.elem = elem

    def fresh(self, mk, eng=None):
        if self.elem is None:
            return CL(())
        return SL(mk('seq', z3.SeqSort(self.elem.sort)), self.elem, eng.alloc if eng else None)


class LISTT(T):
    """a list object with symbolic content, allocated when the value is made (only for inputs)"""
    def __init__(self, elem, cls=list):
        self.elem, self.cls = elem, cls

    def fresh(self, mk, eng=None):
        r = Ref(self.cls, mk('lref', z3.IntSort()), eng.alloc)
        return r


def typeof(v):
    if v is None:
        return NONE
    if is_boolv(v):
        return BOOL
    if is_int(v):
        return INT
    if is_num(v):
        return REAL
    if is_strv(v):
        return STR
    if isinstance(v, Cx):
        return CXT()
    if isinstance(v, tuple):
        return TUPT([typeof(x) for x in v])
    if isinstance(v, Ref):
        if isinstance(v.ident, int):
            return CONST(v)
        return REFT(v.cls)
    if isinstance(v, Union):
        ts = []
        for _, x in v.cases:
            ts.append(typeof(x))
        return _alt(ts)
    if hasattr(v, '_typ'):
        return v._typ()
    if isinstance(v, SL):
        return SEQT(v.elem)
    if isinstance(v, GL):
        e = None
        for _, x in v.items:
            e = join_elem(e, elem_of(x))
        return SEQT(e)
    if isinstance(v, CL):
        if not v.items:
            return SEQT(None)
        e = None
        for x in v.items:
            e = join_elem(e, elem_of(x))
        return SEQT(e)
    return CONST(v)


def _alt(ts):
    out = []
    for t in ts:
        if isinstance(t, ALT):
            for u in t.ts:
                _alt_add(out, u)
        elif isinstance(t, OPT):
            _alt_add(out, NONE)
            _alt_add(out, t.t)
        else:
            _alt_add(out, t)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and any(t is NONE for t in out):
        return OPT([t for t in out if t is not NONE][0])
    return ALT(out)


def _alt_add(out, t):
    for i, u in enumerate(out):
        j = _join1(u, t)
        if j is not None:
            out[i] = j
            return
    out.append(t)


def _join1(a, b):
    """join of two simple types or None when they need an alternative"""
    if a is b:
        return a
    if type(a) is type(b) and hasattr(a, '_join'):
        return a
    if isinstance(a, _Prim) and isinstance(b, _Prim):
        if a.nm == b.nm:
            return a
        if {a.nm, b.nm} == {'int', 'real'}:
            return REAL
        return None
    if isinstance(a, CXT) and isinstance(b, CXT):
        return a
    if isinstance(a, CONST) and isinstance(b, CONST):
        if same(a.v, b.v):
            return a
        if isinstance(a.v, Ref) and isinstance(b.v, Ref) and family(a.v.cls) is family(b.v.cls) and a.v.cls not in (list, dict):
            return REFT(a.v.cls if a.v.cls is b.v.cls else family(a.v.cls))
        return None
    if isinstance(a, REFT) and isinstance(b, REFT):
        if family(a.cls) is family(b.cls):
            return a if a.cls is b.cls else REFT(family(a.cls))
        return None
    for x, y in ((a, b), (b, a)):
        if isinstance(x, REFT) and isinstance(y, CONST) and isinstance(y.v, Ref) and family(x.cls) is family(y.v.cls):
            return x
    if isinstance(a, TUPT) and isinstance(b, TUPT) and len(a.ts) == len(b.ts):
        return TUPT([jointype(x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, SEQT) and isinstance(b, SEQT):
        return SEQT(join_elem(a.elem, b.elem))
    return None


def jointype(a, b):
    j = _join1(a, b)
    if j is not None:
        return j
    return _alt([a, b])
