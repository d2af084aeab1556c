"""Semantics of built-in operations, types and library functions on symbolic values."""
import ast
import builtins
import cmath
import copy
import datetime
import decimal
import fractions
import functools
import itertools
import logging
import math
import operator
import re
import sys
import types
import array
import z3
from .values import *
from .values import _cb
from . import heap as H
from .heap import UNDEF, read, Write, LISTFAM

STUBS = {}


def stub(*fns):
    def deco(f):
        for x in fns:
            STUBS[x] = f
        return f
    return deco


class StarGL(object):
    """a starred argument made of guarded items"""
    def __init__(self, items):
        self.items = items


class GItems(list):
    """guarded items with an advance hook (generators)"""
    on_next = None
    on_end = None


class PyIter(object):
    """class of iterator objects (generators, zip, iter(...))"""


# ------------------------------------------------------------------ sets
class SetV(object):
    """content of a set of numbers and possibly None; mn/mx are its least and greatest number when `ne`"""
    __slots__ = ('arr', 'none', 'ne', 'mn', 'mx', 'items')

    def __init__(self, arr, none, ne, mn, mx, items=None):
        self.arr, self.none, self.ne, self.mn, self.mx = arr, none, ne, mn, mx
        self.items = items          # when few and known: guarded, in order of insertion, with repetitions

    @staticmethod
    def empty():
        return SetV(z3.K(z3.RealSort(), z3.BoolVal(False)), False, False, z3.RealVal(0), z3.RealVal(0), ())

    def plus(self, v):
        return None if self.items is None or len(self.items) > 5 else self.items + ((True, v),)

    def nonempty(self):
        return Or_(self.none, self.ne)

    def add(self, v):
        if isinstance(v, Union):
            r = None
            for g, x in reversed(v.cases):
                y = self.add(x)
                r = y if r is None else y._merge(g, r)
            r.items = self.plus(v)
            return r
        if v is None:
            return SetV(self.arr, True, self.ne, self.mn, self.mx, self.plus(None))
        x = to_real(v)
        mn = z3.If(z3.And(zb(self.ne), self.mn <= x), self.mn, x)
        mx = z3.If(z3.And(zb(self.ne), self.mx >= x), self.mx, x)
        return SetV(z3.Store(self.arr, x, z3.BoolVal(True)), self.none, True, mn, mx, self.plus(v))

    def add_if(self, g, v):
        """with v when g"""
        if g is True:
            return self.add(v)
        if g is False:
            return self
        r = self.add(v)._merge(g, self)
        r.items = None if self.items is None or len(self.items) > 5 else self.items + ((g, v),)
        return r

    def has(self, v):
        if isinstance(v, Union):
            return Or_(*[And_(g, self.has(x)) for g, x in v.cases])
        if v is None:
            return self.none
        if is_num(v):
            return z3.Select(self.arr, to_real(v))
        return False

    def _kind(self):
        return 'setv'

    def _same(self, o):
        return self.arr.eq(o.arr) and same(self.none, o.none) and same(self.ne, o.ne) and self.mn.eq(o.mn) and self.mx.eq(o.mx)

    def _merge(self, g, o):
        if not isinstance(o, SetV):
            raise Unsupported('merge of sets')
        return SetV(z3.If(zb(g), self.arr, o.arr), merge(g, self.none, o.none), merge(g, self.ne, o.ne),
                    z3.If(zb(g), self.mn, o.mn), z3.If(zb(g), self.mx, o.mx), self._items(g, o))

    def _items(self, g, o):
        a, b = self.items, o.items
        if a is None or b is None:
            return None
        n = 0
        while n < min(len(a), len(b)) and same(a[n][0], b[n][0]) and same(a[n][1], b[n][1]):
            n += 1
        r = a[:n] + tuple((And_(g, h), x) for h, x in a[n:]) + tuple((And_(Not_(g), h), x) for h, x in b[n:])
        return r if len(r) <= 6 else None

    def _typ(self):
        return SETT()


class SETT(T):
    _join = True

    def fresh(self, mk, eng=None):
        return SetV(mk('arr', z3.ArraySort(z3.RealSort(), z3.BoolSort())), mk('none', z3.BoolSort()),
                    mk('ne', z3.BoolSort()), mk('mn', z3.RealSort()), mk('mx', z3.RealSort()))


class StrSet(object):
    """a set of strings: guarded members, with repetitions"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def has(self, eng, st, x):
        return Or_(*[And_(g, eng.eq(st, y, x)) for g, y in self.items])

    def nonempty(self):
        return Or_(*[g for g, _ in self.items])

    def _kind(self):
        return 'strset'

    def _same(self, o):
        return len(self.items) == len(o.items) and all(same(a, b) and same(x, y) for (a, x), (b, y) in zip(self.items, o.items))

    def _merge(self, g, o):
        return StrSet([(And_(g, h), x) for h, x in self.items] + [(And_(Not_(g), h), x) for h, x in o.items])

    def op(self, eng, st, op, o):
        if op == 'BitAnd':
            return StrSet([(And_(g, o.has(eng, st, x)), x) for g, x in self.items])
        if op == 'BitOr':
            return StrSet(self.items + o.items)
        if op == 'Sub':
            return StrSet([(And_(g, Not_(o.has(eng, st, x))), x) for g, x in self.items])
        raise Unsupported('%s of sets of strings' % op)


def str_set(v):
    if isinstance(v, StrSet):
        return v
    if isinstance(v, (set, frozenset)) and all(isinstance(x, str) for x in v):
        return StrSet([(True, x) for x in sorted(v)])
    return None


SETKEY = ('set', '#s')


def make_set(eng, st, vals):
    r = eng.new_ref(set)
    c = SetV.empty()
    for v in vals:
        if not (v is None or is_num(v) or isinstance(v, Union)):
            raise Unsupported('set of %r' % (v,))
        c = c.add(v)
    put_set(eng, st, r, c)
    return r


def free_set(eng, mk):
    """any set of numbers, with or without None"""
    arr = mk('arr', z3.ArraySort(z3.RealSort(), z3.BoolSort()))
    c = SetV(arr, mk('none', z3.BoolSort()), mk('ne', z3.BoolSort()), mk('mn', z3.RealSort()), mk('mx', z3.RealSort()))
    x = z3.Real('x!set')
    eng.axiom(z3.ForAll([x], z3.Implies(z3.Select(arr, x), z3.And(c.ne, c.mn <= x, x <= c.mx)), patterns=[z3.Select(arr, x)]))
    eng.axiom(z3.Implies(c.ne, z3.And(z3.Select(arr, c.mn), z3.Select(arr, c.mx))))
    return c


class SetGen(object):
    """generator of a function of the members of a set; only its set of values is known"""
    def __init__(self, setv):
        self.setv = setv


def set_image(eng, c, cond, val, cond0, val0):
    """{val(y) for y in c if cond(y)}: cond/val are terms over the constant y!set, cond0/val0 their values for None"""
    y = z3.Real('y!set')
    cond = zb(cond)
    val = to_real(val)
    key = (c.arr.sexpr(), cond.sexpr(), val.sexpr())
    if not hasattr(eng, 'images'):
        eng.images = {}
    if key not in eng.images:
        u = uid()
        d = free_set(eng, lambda nm, sort: z3.Const('img%d.%s' % (u, nm), sort))
        pre = z3.Function('img%d.pre' % u, z3.RealSort(), z3.RealSort())
        x = z3.Real('x!set')

        def at(t, a):
            return z3.substitute(t, (y, a))
        eng.axiom(z3.ForAll([x], z3.Implies(z3.Select(d.arr, x), z3.And(z3.Select(c.arr, pre(x)), at(cond, pre(x)), at(val, pre(x)) == x)),
                            patterns=[z3.Select(d.arr, x)]))
        eng.axiom(z3.ForAll([y], z3.Implies(z3.And(z3.Select(c.arr, y), cond), z3.Select(d.arr, val)), patterns=[z3.Select(c.arr, y)]))
        eng.images[key] = SetV(d.arr, False, d.ne, d.mn, d.mx)
    r = eng.images[key]
    g = And_(c.none, cond0)
    return r.add_if(g, val0) if g is not False else r


def sorted_set(eng, c):
    """the members of a set of numbers in increasing order"""
    t = z3.Function('sorted_set', c.arr.sort(), z3.SeqSort(z3.RealSort()))(c.arr)
    pos = z3.Function('place_in_set', c.arr.sort(), z3.RealSort(), z3.IntSort())
    n = z3.Length(t)
    i, j = z3.Ints('i!srt j!srt')
    x = z3.Real('x!set')
    eng.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), t[i] < t[j])))
    eng.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(c.arr, t[i]))))
    eng.axiom(z3.ForAll([x], z3.Implies(z3.Select(c.arr, x), z3.And(0 <= pos(c.arr, x), pos(c.arr, x) < n, t[pos(c.arr, x)] == x)),
                        patterns=[z3.Select(c.arr, x)]))
    return SL(t, NumE('real'), eng.alloc)


def put_set(eng, st, r, c):
    st.heap[SETKEY] = Write(eng.heap_node(st.heap, SETKEY), r, c)


def get_set(eng, st, r):
    c = read(eng.heap_node(st.heap, SETKEY), r)
    if not isinstance(c, SetV):
        raise Unsupported('set content')
    return c


# ------------------------------------------------------------------ numbers
def to_cx(v):
    if isinstance(v, Cx):
        return v
    return Cx(v, 0)


def num_err(eng, st, a, b, op):
    eng.do_raise(st, ExcVal(TypeError, ('unsupported operand types for %s' % op,)))


def norm_num(v):
    """bool -> int for arithmetic"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return to_int(v)
    return v


def native(v):
    return isinstance(v, (int, float, fractions.Fraction)) and not is_z(v)


def exact(v):
    """native number as int or Fraction (the repr of a float is its exact decimal value here)"""
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        return fractions.Fraction(repr(v))
    return v


def is_const_num(t):
    return native(t) or z3.is_rational_value(t) or z3.is_int_value(t)


def is_one(v):
    return (z3.is_rational_value(v) or z3.is_int_value(v)) and v.as_fraction() == 1 if z3.is_rational_value(v) else z3.is_int_value(v) and v.as_long() == 1


def const_choice(t, depth=3):
    """a guarded choice between numerals, such as a unit factor"""
    if native(t):
        return False
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return const_choice(t.arg(0), depth)
    return depth > 0 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and const_choice(t.arg(1), depth - 1) and const_choice(t.arg(2), depth - 1)


def by_choice(t, f):
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return f(t)
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        return by_choice(t.arg(0), lambda v: f(z3.RealVal(v.as_long())))
    return z3.If(t.arg(0), by_choice(t.arg(1), f), by_choice(t.arg(2), f))


def is_zero(eng, b):
    """a product is zero when a factor is"""
    if is_z(b) and z3.is_mul(b):
        return Or_(*[is_zero(eng, c) for c in b.children()])
    if native(b) or z3.is_rational_value(b) or z3.is_int_value(b):
        return eng.eq_plain(b, 0) if native(b) else b.as_fraction() == 0 if z3.is_rational_value(b) else b.as_long() == 0
    return eng.eq_plain(b, 0)


def arith(eng, st, op, a, b):
    """both plain numbers"""
    a, b = norm_num(a), norm_num(b)
    if native(a) and native(b):
        x, y = exact(a), exact(b)
        if x is not None and y is not None:
            isf = isinstance(a, (float, fractions.Fraction)) or isinstance(b, (float, fractions.Fraction))
            if op in ('Div', 'FloorDiv', 'Mod') and y == 0:
                eng.do_raise(st, ExcVal(ZeroDivisionError, ()))
            if op == 'Div':
                return fractions.Fraction(x) / fractions.Fraction(y)
            if op == 'Pow':
                if isinstance(y, int) or (isinstance(y, fractions.Fraction) and y.denominator == 1):
                    if x == 0 and y < 0:
                        eng.do_raise(st, ExcVal(ZeroDivisionError, ()))
                    r = fractions.Fraction(x) ** int(y)
                    return r if isf or y < 0 else int(r)
                raise Unsupported('fractional power')
            r = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv,
                 'Mod': operator.mod}[op](x, y)
            return fractions.Fraction(r) if isf else r
    ints = is_int(a) and is_int(b)
    x, y = (to_int(a), to_int(b)) if ints else (to_real(a), to_real(b))
    if op == 'Add':
        if native(a) and a == 0:
            return b if is_z(b) and (ints or not b.is_int()) else y
        if native(b) and b == 0:
            return a if is_z(a) and (ints or not a.is_int()) else x
        return x + y
    if op == 'Sub':
        if native(b) and b == 0:
            return x
        return x - y
    if op == 'Mult':
        for p, q in ((a, y), (b, x)):
            if native(p) and not (isinstance(p, float) and math.isinf(p)):
                if p == 1:
                    return q
                if p == 0:
                    return 0 if ints else z3.RealVal(0)
        for p, q in ((x, y), (y, x)):
            if not is_const_num(p) and const_choice(p):
                return by_choice(p, lambda v: q if is_one(v) else v * q)
        return x * y
    if op in ('Div', 'FloorDiv', 'Mod'):
        z = is_zero(eng, b)
        eng.raise_if(st, z, ExcVal(ZeroDivisionError, ()))
        if op == 'Div':
            if native(b) and b == 1:
                return to_real(a)
            d = to_real(b)
            if not is_const_num(d) and const_choice(d):
                n = to_real(a)
                return by_choice(d, lambda v: n if is_one(v) else n / v)
            return to_real(a) / d
        if ints:
            if native(b):
                if b > 0:
                    q = x / y
                    return q if op == 'FloorDiv' else x % y
            # Python floors; z3 div rounds so that the remainder is non-negative
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return q if op == 'FloorDiv' else x - y * q
        q = z3.ToReal(z3.ToInt(x / y))
        return q if op == 'FloorDiv' else x - y * q
    if op == 'Pow':
        if native(b) and exact(b) is not None and fractions.Fraction(exact(b)).denominator == 1 and 0 <= b <= 4:
            r = z3.IntVal(1) if ints else z3.RealVal(1)
            for _ in range(int(b)):
                r = x if (z3.is_int_value(r) or z3.is_rational_value(r)) else r * x
            return r
        raise Unsupported('power')
    if op in ('BitOr', 'BitAnd', 'BitXor', 'LShift', 'RShift'):
        raise Unsupported('bit operation')
    raise Unsupported('operator %s' % op)


def cx_arith(eng, st, op, a, b):
    a, b = to_cx(a), to_cx(b)
    A = lambda o, x, y: arith(eng, st, o, x, y)
    if op == 'Add':
        return Cx(A('Add', a.re, b.re), A('Add', a.im, b.im))
    if op == 'Sub':
        return Cx(A('Sub', a.re, b.re), A('Sub', a.im, b.im))
    if op == 'Mult':
        if same(b.im, 0):
            return Cx(A('Mult', a.re, b.re), A('Mult', a.im, b.re))
        if same(a.im, 0):
            return Cx(A('Mult', a.re, b.re), A('Mult', a.re, b.im))
        return Cx(A('Sub', A('Mult', a.re, b.re), A('Mult', a.im, b.im)),
                  A('Add', A('Mult', a.re, b.im), A('Mult', a.im, b.re)))
    if op == 'Div':
        if same(b.im, 0):
            return Cx(A('Div', a.re, b.re), A('Div', a.im, b.re))
        d = A('Add', A('Mult', b.re, b.re), A('Mult', b.im, b.im))
        n = cx_arith(eng, st, 'Mult', a, Cx(b.re, A('Sub', 0, b.im)))
        return Cx(A('Div', n.re, d), A('Div', n.im, d))
    raise Unsupported('complex %s' % op)


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
          'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}


def binop(eng, st, op, a, b):
    if isinstance(a, Union) or isinstance(b, Union):
        # purely numeric unions (e.g. int/bool) stay expressions
        return eng.dist(st, [a, b], lambda s, x, y: binop(eng, s, op, x, y))
    for x in (a, b):
        if x is UNDEF:
            eng.do_raise(st, ExcVal(UnboundLocalError, ()))
    na, nb = is_num(a) or is_boolv(a), is_num(b) or is_boolv(b)
    if is_boolv(a) and is_boolv(b) and op in ('BitOr', 'BitAnd', 'BitXor'):
        if op == 'BitOr':
            return Or_(a, b)
        if op == 'BitAnd':
            return And_(a, b)
        return Not_(eng.eq_plain(a, b))
    if na and nb:
        return arith(eng, st, op, a, b)
    if (isinstance(a, Cx) or na) and (isinstance(b, Cx) or nb):
        return cx_arith(eng, st, op, a, b)
    if is_strv(a) and op == 'Mod':
        return percent_format(eng, st, a, b)
    if is_strv(a) and is_strv(b) and op == 'Add':
        return str_cat(eng, a, b)
    if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
        return a * b
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    # user-defined operators
    d = DUNDER.get(op)
    if isinstance(a, Ref) and not issubclass(a.cls, (list, dict, set)) or isinstance(b, Ref) and not issubclass(b.cls, (list, dict, set)):
        if isinstance(a, Ref):
            f, _ = eng.lookup_class(a.cls, '__%s__' % d)
            if isinstance(f, types.FunctionType):
                return eng.call(st, f, [a, b], {})
        if isinstance(b, Ref):
            f, _ = eng.lookup_class(b.cls, '__r%s__' % d)
            if isinstance(f, types.FunctionType):
                return eng.call(st, f, [b, a], {})
        num_err(eng, st, a, b, op)
    la, lb = list_content(eng, st, a), list_content(eng, st, b)
    if la is not None and lb is not None and op == 'Add':
        return eng.new_list(st, concat(eng, la, lb))
    if la is not None and op == 'Mult' and is_int(b) or lb is not None and op == 'Mult' and is_int(a):
        if lb is not None:
            la, b = lb, a
        if isinstance(b, int) and isinstance(la, CL):
            return eng.new_list(st, CL(la.items * b))
        return eng.new_list(st, repeat_content(eng, st, la, b))
    if (isinstance(a, StrSet) or isinstance(b, StrSet)) and str_set(a) is not None and str_set(b) is not None:
        return str_set(a).op(eng, st, op, str_set(b))
    if isinstance(a, Ref) and a.cls is set and isinstance(b, Ref) and b.cls is set and op in ('BitOr', 'Sub'):
        return call_method(eng, st, a, 'union' if op == 'BitOr' else 'difference', [b], {})
    num_err(eng, st, a, b, op)


def repeat_content(eng, st, c, n):
    """[x] * n"""
    if isinstance(c, CL) and len(c.items) == 1:
        e = elem_of(c.items[0])
        x = e.enc(c.items[0])
        t = eng.fresh('rep', z3.SeqSort(e.sort))
        n = to_int(n)
        eng.axiom(z3.Length(t) == z3.If(n > 0, n, 0))
        i = z3.Int('i!rep')
        eng.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z3.Length(t)), t[i] == x)))
        return SL(t, e, eng.alloc)
    raise Unsupported('list repetition')


def unop(eng, st, op, v):
    if op == 'USub':
        if native(v):
            return -v
        if is_num(v):
            return -v
        if is_boolv(v):
            return -to_int(v)
        if isinstance(v, Cx):
            return Cx(unop(eng, st, op, v.re), unop(eng, st, op, v.im))
        if isinstance(v, Ref):
            f, _ = eng.lookup_class(v.cls, '__neg__')
            if isinstance(f, types.FunctionType):
                return eng.call(st, f, [v], {})
        eng.do_raise(st, ExcVal(TypeError, ('bad operand for unary -',)))
    if op == 'UAdd':
        if is_num(v) or isinstance(v, Cx):
            return v
        if isinstance(v, Ref):
            f, _ = eng.lookup_class(v.cls, '__pos__')
            if isinstance(f, types.FunctionType):
                return eng.call(st, f, [v], {})
        eng.do_raise(st, ExcVal(TypeError, ('bad operand for unary +',)))
    raise Unsupported('unary %s' % op)


def inplace(eng, st, op, a, b):
    if isinstance(a, Union):
        return eng.dist(st, [a], lambda s, x: inplace(eng, s, op, x, b))
    if isinstance(a, Ref):
        d = DUNDER.get(op)
        f, _ = eng.lookup_class(a.cls, '__i%s__' % d)
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [a, b], {})
        if issubclass(a.cls, list) and op == 'Add':
            call_method(eng, st, a, 'extend', [b], {})
            return a
    return binop(eng, st, op, a, b)


def order(eng, st, op, a, b):
    if isinstance(a, Union) or isinstance(b, Union):
        return eng.truth(st, eng.dist(st, [a, b], lambda s, x, y: order(eng, s, op, x, y)))
    na, nb = is_num(a) or is_boolv(a), is_num(b) or is_boolv(b)
    if na and nb:
        a, b = norm_num(a), norm_num(b)
        if native(a) and native(b):
            x, y = exact(a), exact(b)
            if x is None or y is None:
                x, y = a, b
            return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](x, y)
        x, y = (to_int(a), to_int(b)) if is_int(a) and is_int(b) else (to_real(a), to_real(b))
        if x.eq(y):
            return op in ('LtE', 'GtE')
        return {'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]()
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
    if isinstance(a, Ref):
        f, _ = eng.lookup_class(a.cls, {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op])
        if isinstance(f, types.FunctionType):
            return eng.truth(st, eng.call(st, f, [a, b], {}))
    if is_strv(a) and is_strv(b):
        raise Unsupported('order of strings')
    eng.do_raise(st, ExcVal(TypeError, ('not ordered',)))


# ------------------------------------------------------------------ strings
def str_cat(eng, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, CmdPart) and isinstance(b, CmdPart) and a.part == 'upper' and b.part == 'digits' and a.term.eq(b.term):
        return mkastr(a.term)
    return mktext(pieces_of(a) + pieces_of(b))


def text_eq(eng, a, b):
    """structural equality of two texts, None when undecided here"""
    if isinstance(a, CmdPart) or isinstance(b, CmdPart):
        if isinstance(a, CmdPart) and a.part == 'lower' and isinstance(b, str):
            if len(b) != 1:
                return False
            return to_str(CmdPart(a.term, 'upper')) == to_str(b.upper()) if b == b.lower() else False
        return None
    if isinstance(a, Text) and isinstance(b, Text):
        pa, pb = a.pieces, b.pieces
        if len(pa) == len(pb) and all(same(x[0], y[0]) for x, y in zip(pa, pb)):
            cs = []
            for (g, x), (h, y) in zip(pa, pb):
                if isinstance(x, Num) and isinstance(y, Num) and x.spec == y.spec:
                    cs.append(Implies_(g, eng.eq_plain(x.val, y.val)))
                elif same(x, y):
                    continue
                else:
                    return None
            return And_(*cs)
    # texts whose numerals are source words cannot be empty
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Text) and y == '':
            r = False
            for g, p in x.pieces:
                if not isinstance(p, (str, Num)):
                    return None
                r = Or_(r, g)
            return Not_(r)
    # a numeral against a literal
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Text) and len(x.pieces) == 1 and isinstance(x.pieces[0][1], Num) and isinstance(y, str):
            if not re.match(r'^[-+]?[0-9]*\.?[0-9]*$', y):
                return And_(Not_(x.pieces[0][0]), y == '')
    return None


def num_piece(eng, v, spec):
    """text of a number printed with `spec` decimals"""
    if native(v) and spec is not None and exact(v) is not None:
        return [(True, '%.*f' % (spec, v))]
    return [(True, Num(to_real(v), spec))]


def format_value(eng, st, v, spec, conv='format'):
    """format(v, spec) as a text"""
    if isinstance(v, Union):
        return eng.dist(st, [v], lambda s, x: format_value(eng, s, x, spec, conv))
    if not isinstance(spec, str):
        raise Unsupported('symbolic format specification')
    if is_strv(v):
        if spec in ('', 's'):
            return v
        return opaque_text(eng, 'fmt', v)
    if is_boolv(v) and not isinstance(v, bool):
        return opaque_text(eng, 'fmtb', None)
    if is_num(v) and not is_boolv(v):
        m = re.match(r'^(?:\.(\d+)f|f)$', spec)
        if m:
            d = int(m.group(1)) if m.group(1) else 6
            return mktext(num_piece(eng, v, d))
        if spec in ('', 'd', 's', 'g') or True:
            if native(v) and isinstance(v, int) and spec in ('', 'd'):
                return str(v)
            if spec == '' or spec == 's':
                return mktext([(True, Num(to_real(v), 'r'))])
            return mktext([(True, Num(to_real(v), 'x' + spec))])
    if v is None and spec in ('', 's'):
        return 'None'
    if isinstance(v, Ref):
        f, _ = eng.lookup_class(v.cls, '__str__')
        if isinstance(f, types.FunctionType) and spec in ('', 's'):
            return eng.call(st, f, [v], {})
        return opaque_text(eng, 'obj', None)
    return opaque_text(eng, 'val', None)


def opaque_text(eng, nm, v):
    return AStr(eng.fresh(nm, z3.IntSort()))


_PCT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([sdifgerxX%])')


def percent_format(eng, st, fmt, arg):
    if not isinstance(fmt, str):
        raise Unsupported('format of a symbolic string')
    args = arg if isinstance(arg, tuple) else (arg,)
    out = []
    pos = 0
    i = 0
    for m in _PCT.finditer(fmt):
        out.append((True, fmt[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            out.append((True, '%'))
            continue
        if m.group(1):
            raise Unsupported('named % format')
        if i >= len(args):
            eng.do_raise(st, ExcVal(TypeError, ('not enough arguments for format string',)))
        v = args[i]
        i += 1
        k = m.group(5)
        if k in 'fdige' and (v is None or is_strv(v) or isinstance(v, Ref)):
            eng.do_raise(st, ExcVal(TypeError, ('a number is required',)))
        if isinstance(v, Union) and k in 'fdige':
            v = eng.dist(st, [v], lambda s, x: x if is_num(x) or is_boolv(x) else eng.do_raise(s, ExcVal(TypeError, ())))
        if k == 'f' and not m.group(2) and not m.group(3):
            out.extend(num_piece(eng, norm_num(v), int(m.group(4) or 6)))
        elif k == 's':
            out.extend(pieces_of(format_value(eng, st, v, '')))
        else:
            if native(v):
                out.append((True, m.group(0) % v))
            elif is_int(v) and k in 'di' and not m.group(2) and not m.group(3):
                out.append((True, Num(to_real(v), 'd')))
            else:
                out.append((True, opaque_text(eng, 'pct', None)))
    out.append((True, fmt[pos:]))
    if i < len(args) and isinstance(arg, tuple):
        eng.do_raise(st, ExcVal(TypeError, ('not all arguments converted',)))
    return mktext(out)


_BR = re.compile(r'\{\{|\}\}|\{(\w*)(?:!(\w))?(?::([^{}]*))?\}')


def brace_format(eng, st, fmt, args, kwargs):
    """str.format; the format and the arguments may be guarded alike"""
    pos_args = []
    for a in args:
        if isinstance(a, StarGL):
            pos_args.extend(a.items)
        else:
            pos_args.append((True, a))
    out = []
    auto = 0
    for g, p in pieces_of(fmt):
        if not isinstance(p, str):
            if isinstance(p, (AStr, CmdPart)):
                raise Unsupported('format of a symbolic string')
            out.append((g, p))
            continue
        pos = 0
        for m in _BR.finditer(p):
            out.append((g, p[pos:m.start()]))
            pos = m.end()
            if m.group(0) in ('{{', '}}'):
                out.append((g, m.group(0)[0]))
                continue
            nm, conv, spec = m.group(1), m.group(2), m.group(3) or ''
            if conv not in (None, 's'):
                raise Unsupported('conversion in format')
            if nm == '':
                if auto >= len(pos_args):
                    eng.do_raise(st, ExcVal(IndexError, ('format',)))
                h, v = pos_args[auto]
                auto += 1
                if not same(_cb(h), _cb(g)):
                    raise Unsupported('format arguments guarded differently from the format')
            elif nm.isdigit():
                if int(nm) >= len(pos_args):
                    eng.do_raise(st, ExcVal(IndexError, ('format',)))
                h, v = pos_args[int(nm)]
                if h is not True:
                    raise Unsupported('guarded format argument')
            else:
                if nm not in kwargs:
                    eng.do_raise(st, ExcVal(KeyError, (nm,)))
                v = kwargs[nm]
            if g is True:
                t = format_value(eng, st, v, spec)
            else:
                s2 = st.copy()
                s2.pc.append(g)
                n = len(s2.pc)
                t = format_value(eng, s2, v, spec)
            for h, q in pieces_of(t):
                out.append((And_(g, h), q))
        out.append((g, p[pos:]))
    return mktext(out)


def split_text_lines(eng, st, v):
    raise Unsupported('splitlines')


def text_contains(eng, st, hay, needle):
    """needle in hay"""
    if isinstance(hay, str) and isinstance(needle, str):
        return needle in hay
    if isinstance(hay, str) and isinstance(needle, CmdPart) and needle.part in ('upper', 'lower'):
        # the first letter of a command word
        return Or_(*[_cb(eng.eq_plain(needle, c)) for c in sorted(set(hay))])
    if not isinstance(needle, str):
        raise Unsupported('search of a symbolic string')
    if isinstance(hay, AStr):
        return str_contains(hay.term, needle)
    if isinstance(hay, CmdPart):
        raise Unsupported('search in a command part')
    # text: a match inside one piece, or (unknown) across pieces
    r = False
    ps = list(hay.pieces)
    cross = False
    for g, p in ps:
        if isinstance(p, str):
            r = Or_(r, And_(g, needle in p))
        elif isinstance(p, AStr):
            r = Or_(r, And_(g, str_contains(p.term, needle)))
        elif isinstance(p, Num):
            if any(c in '0123456789.-+' for c in needle):
                cross = True
        else:
            cross = True
    # can the needle straddle two pieces?
    for i in range(len(ps) - 1):
        for j in range(i + 1, len(ps)):
            left, right = ps[i][1], ps[j][1]
            for c in range(1, len(needle)):
                a, b = needle[:c], needle[c:]
                la = (left.endswith(a) if isinstance(left, str) and len(left) >= len(a) else
                      a[-1] in '0123456789.' if isinstance(left, Num) else
                      (a.endswith(left) if isinstance(left, str) else True))
                rb = (right.startswith(b[:len(right)]) if isinstance(right, str) else
                      b[0] in '0123456789.-' if isinstance(right, Num) else True)
                if la and rb:
                    cross = True
            if isinstance(ps[j][0], bool) and ps[j][0]:
                break
    if cross and r is not True:
        t = to_str(hay)
        f = str_contains(t, needle)
        eng.axiom(Implies_(r, f))
        return f
    return r


# ------------------------------------------------------------------ regular expressions
class Groups(object):
    """match object of an abstract match"""
    def __init__(self, groups):
        self.groups = groups


SAMPLES = ('7', '-12.345', '0.5')


def render(pieces, sample, present=None):
    """concrete rendering of text pieces; returns the string and the spans of the pieces"""
    s = ''
    spans = []
    for i, (g, p) in enumerate(pieces):
        if present is not None and not present(i):
            spans.append((len(s), len(s)))
            continue
        if isinstance(p, str):
            t = p
        elif isinstance(p, Num):
            t = ('%.*f' % (p.spec, float(sample))) if isinstance(p.spec, int) else sample
        elif isinstance(p, AStr):
            t = ATOM_SAMPLE.get(p.term.get_id())
            if t is None:
                raise Unsupported('tokens of an unknown string')
        else:
            raise Unsupported('tokens of %r' % (p,))
        spans.append((len(s), len(s) + len(t)))
        s += t
    return s, spans


ATOM_SAMPLE = {}          # term id -> representative text of a command word
ATOM_KEEP = []


def declare_command(term, sample='G1'):
    ATOM_SAMPLE[term.get_id()] = sample
    ATOM_KEEP.append(term)


def lower_pieces(v):
    """pieces of v.lower(), keeping track of command words"""
    out = []
    for g, p in pieces_of(v):
        if isinstance(p, str):
            out.append((g, p.lower()))
        elif isinstance(p, Num):
            out.append((g, p))
        elif isinstance(p, AStr) and p.term.get_id() in ATOM_SAMPLE:
            out.append((g, LowerCmd(p.term)))
        else:
            raise Unsupported('lower() of an unknown string')
    return out


class LowerCmd(AStr):
    """a command word in lower case"""
    __slots__ = ()


def findall_text(eng, st, pat, v):
    """pattern.findall on a structured text: the real pattern is run on representative renderings; every token
    must lie inside pieces that are present or absent together"""
    ps = pieces_of(v)
    ngroups = pat.groups
    results = []
    for sample in SAMPLES:
        s, spans = render([(g, (AStr(p.term) if isinstance(p, LowerCmd) else p)) for g, p in ps], sample)
        # lower-case the command words
        for (g, p), (a, b) in zip(ps, spans):
            if isinstance(p, LowerCmd):
                s = s[:a] + s[a:b].lower() + s[b:]
        ms = list(pat.finditer(s))
        desc = []
        for m in ms:
            item = []
            toks = [m.span(0)] if ngroups == 0 else [m.span(i) for i in range(1, ngroups + 1)]
            a0, b0 = m.span(0)
            touched = [i for i, (a, b) in enumerate(spans) if a < b and a < b0 and b > a0]
            for (a, b) in toks:
                if a < 0 or a == b:
                    item.append(())
                    continue
                parts = []
                for i, (x, y) in enumerate(spans):
                    lo, hi = max(a, x), min(b, y)
                    if lo < hi:
                        p = ps[i][1]
                        if isinstance(p, str):
                            parts.append(('s', i, s[lo:hi]))
                        elif isinstance(p, Num):
                            if (lo, hi) != (x, y):
                                raise Unsupported('token splits a numeral')
                            parts.append(('n', i))
                        else:
                            parts.append(('c', i, lo - x, hi - x, y - x))
                item.append(tuple(parts))
            desc.append((tuple(touched), tuple(item)))
        results.append(tuple(desc))
    if any(r != results[0] for r in results[1:]):
        raise Unsupported('tokens depend on the spelling of numerals')
    # locality: dropping any optional group of pieces must not change the other tokens
    guards = []
    for g, p in ps:
        if _cb(g) is not True and not any(same(g, h) for h in guards):
            guards.append(g)
    for h in guards:
        sub = [(g, p) for g, p in ps if not same(g, h)]
        idx = [i for i, (g, p) in enumerate(ps) if not same(g, h)]
        s, spans = render([(g, (AStr(p.term) if isinstance(p, LowerCmd) else p)) for g, p in sub], SAMPLES[1])
        for (g, p), (a, b) in zip(sub, spans):
            if isinstance(p, LowerCmd):
                s = s[:a] + s[a:b].lower() + s[b:]
        ms = list(pat.finditer(s))
        got = []
        for m in ms:
            a0, b0 = m.span(0)
            got.append(tuple(idx[i] for i, (a, b) in enumerate(spans) if a < b and a < b0 and b > a0))
        want = [t for t, _ in results[0] if all(not same(ps[i][0], h) for i in t)]
        if got != want:
            raise Unsupported('tokens are not local to the words of the line')
    out = []
    for touched, item in results[0]:
        g = And_(*[ps[i][0] for i in touched]) if touched else True
        vals = []
        for parts in item:
            if not parts:
                vals.append('')
                continue
            pcs = []
            for q in parts:
                if q[0] == 's':
                    pcs.append((True, q[2]))
                elif q[0] == 'n':
                    pcs.append((True, ps[q[1]][1]))
                else:
                    _, i, lo, hi, ln = q
                    t = ps[i][1].term
                    if (lo, hi) == (0, 1):
                        pcs.append((True, CmdPart(t, 'lower' if isinstance(ps[i][1], LowerCmd) else 'upper')))
                    elif (lo, hi) == (1, ln):
                        pcs.append((True, CmdPart(t, 'digits')))
                    elif (lo, hi) == (0, ln) and not isinstance(ps[i][1], LowerCmd):
                        pcs.append((True, AStr(t)))
                    else:
                        raise Unsupported('token splits a command word')
            vals.append(pcs[0][1] if len(pcs) == 1 and not isinstance(pcs[0][1], Num) else Text(pcs))
        out.append((g, vals[0] if ngroups <= 1 else tuple(vals)))
    return mkgl(out)


# ------------------------------------------------------------------ lists
def list_content(eng, st, v):
    if isinstance(v, Ref) and issubclass(v.cls, list):
        return eng.items(st, v)
    if isinstance(v, list) and not isinstance(v, GItems):
        return CL(v)
    return None


def length(eng, st, v):
    if isinstance(v, Ref):
        if issubclass(v.cls, list):
            return content_len(eng.items(st, v))
        if v.cls is dict:
            return len(dict_of(eng, st, v))
        f, _ = eng.lookup_class(v.cls, '__len__')
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [v], {})
    if isinstance(v, (str, tuple, list, dict, set, bytes)):
        return len(v)
    if isinstance(v, (AStr, Text)):
        f = STRS.fun('str_len', z3.IntSort(), lambda s: len(s))
        t = f(to_str(v))
        eng.axiom(t >= 0)
        return t
    if v is None or is_num(v):
        eng.do_raise(st, ExcVal(TypeError, ('object has no len()',)))
    raise Unsupported('len(%r)' % (v,))


def content_len(c):
    if isinstance(c, CL):
        return len(c.items)
    if isinstance(c, SL):
        return z3.Length(c.term)
    n = 0
    t = None
    for g, _ in c.items:
        if g is True:
            n += 1
        else:
            x = z3.If(g, z3.IntVal(1), z3.IntVal(0))
            t = x if t is None else t + x
    return n if t is None else t + n


def concat(eng, a, b):
    if isinstance(a, SL) or isinstance(b, SL):
        if isinstance(a, (CL, GL)) and not a.items:
            return b
        if isinstance(b, (CL, GL)) and not b.items:
            return a
        if isinstance(a, SL) and isinstance(b, SL):
            e = join_elem(a.elem, b.elem)
            if e.sort != a.elem.sort or e.sort != b.elem.sort:
                raise Unsupported('concatenation of lists of different element types')
            return SL(z3.Concat(a.term, b.term), e, eng.alloc)
        e = a.elem if isinstance(a, SL) else b.elem
        x, y = eng.to_sl(a, e), eng.to_sl(b, e)
        return SL(z3.Concat(x.term, y.term), e, eng.alloc)
    return mkgl(gl_of(a) + gl_of(b))


def parts_of(term):
    """(prefix, [(guard, element)]): the term is the prefix followed by the elements whose guards hold"""
    if z3.is_app_of(term, z3.Z3_OP_SEQ_CONCAT):
        p, out = parts_of(term.arg(0))
        for k in range(1, term.num_args()):
            q, more = parts_of(term.arg(k))
            if q is not None:
                p, out, q = (q, [], None) if p is None and not out else (z3.Concat(*[term.arg(j) for j in range(k)], q), [], None)
            out = out + more
        return p, out
    if z3.is_app_of(term, z3.Z3_OP_SEQ_UNIT):
        return None, [(True, term.arg(0))]
    if z3.is_app_of(term, z3.Z3_OP_SEQ_EMPTY):
        return None, []
    if z3.is_app_of(term, z3.Z3_OP_ITE):
        c = term.arg(0)
        p, a = parts_of(term.arg(1))
        q, b = parts_of(term.arg(2))
        if (p is None) == (q is None) and (p is None or p.eq(q)) and len(a) + len(b) <= 4:
            return p, [(And_(c, g), x) for g, x in a] + [(And_(z3.Not(c), g), x) for g, x in b]
    return term, []


def known_tail(eng, c, i, pc=None):
    """the elements from index i on, when i is certainly where the known elements of the list begin or later: [(guard, value)]"""
    p, tail = parts_of(c.term)
    if not tail:
        return None
    off = z3.IntVal(0) if p is None else z3.Length(p)
    i = to_int(i)
    for k in range(len(tail) + 1):
        d = z3.simplify(i - off)
        if z3.is_int_value(d):
            hit = d.as_long() == 0
        else:
            hit = eng.linear_only and pc is not None and eng.proves(pc, i == off)
        if hit:
            return [(g, c.elem.dec(x, c.asof)) for g, x in tail[k:]]
        if k < len(tail):
            g = tail[k][0]
            off = off + (1 if g is True else z3.If(g, z3.IntVal(1), z3.IntVal(0)))
    return None


def elem_at(eng, c, i, pc=None):
    """element i (known to be in range)"""
    if isinstance(c, SL):
        if eng.linear_only and (z3.is_app_of(c.term, z3.Z3_OP_SEQ_CONCAT) or z3.is_app_of(c.term, z3.Z3_OP_ITE)):
            tail = known_tail(eng, c, i, pc)
            if tail and (tail[0][0] is True or len(tail) > 1 and tail[-1][0] is True):
                v = tail[-1][1]
                for k in range(len(tail) - 1, -1, -1):
                    v = tail[k][1] if tail[k][0] is True else merge(tail[k][0], tail[k][1], v)
                return v
        x = c.elem.dec(c.term[to_int(i)], c.asof)
        if c.term.get_id() in eng.each:
            p = eng.each[c.term.get_id()][0](x)
            if p is not None:
                eng.axiom(z3.Implies(z3.And(0 <= to_int(i), to_int(i) < z3.Length(c.term)), zb(p)))
        return x
    if isinstance(c, CL):
        if isinstance(i, int):
            return c.items[i]
        v = None
        for j, x in reversed(list(enumerate(c.items))):
            v = x if v is None else merge(to_int(i) == j, x, v)
        return v
    # guarded: item at position i
    if isinstance(i, int) and i == 0:
        v = None
        for g, x in reversed(c.items):
            v = x if v is None else merge(g, x, v)
        return v
    if isinstance(i, int) and i == -1:
        v = None
        for g, x in c.items:
            v = x if v is None else merge(g, x, v)
        return v
    v = None
    n = 0
    pos = z3.IntVal(0)
    poss = []
    for g, x in c.items:
        poss.append((g, pos, x))
        pos = pos + z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))
    for g, p, x in reversed(poss):
        v = x if v is None else merge(And_(g, p == to_int(i)), x, v)
    return v


def norm_index(eng, st, i, n, exc=True):
    """resolve a possibly negative index; raises IndexError when out of range"""
    if isinstance(i, Union):
        i = eng.dist(st, [i], lambda s, x: x)
    if isinstance(i, bool):
        i = int(i)
    if not is_int(i):
        if is_num(i) or i is None or is_strv(i):
            eng.do_raise(st, ExcVal(TypeError, ('list indices must be integers',)))
        raise Unsupported('index %r' % (i,))
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if exc and not 0 <= j < n:
            eng.do_raise(st, ExcVal(IndexError, ('list index out of range',)))
        return j
    it, nt = to_int(i), to_int(n)
    if isinstance(i, int):
        ok = (nt > i) if i >= 0 else (nt >= -i)
        j = i if i >= 0 else nt + i
    else:
        neg = it < 0
        if not eng.feasible(st.pc, neg):
            ok = it < nt
            j = it
        else:
            ok = z3.And(it >= -nt, it < nt)
            j = z3.If(neg, it + nt, it)
    if exc:
        eng.raise_if(st, Not_(ok), ExcVal(IndexError, ('list index out of range',)))
    return j


def slice_bounds(eng, st, sl, n):
    """start, stop for a step-1 slice, clamped"""
    def res(x, default):
        if isinstance(x, Union):
            x = eng.dist(st, [x], lambda s, y: y)
        if x is None:
            return default
        if not is_int(x):
            if is_num(x) or is_strv(x):
                eng.do_raise(st, ExcVal(TypeError, ('slice indices must be integers',)))
            raise Unsupported('slice bound')
        if isinstance(x, int) and isinstance(n, int):
            return max(0, x + n) if x < 0 else min(x, n)
        if isinstance(x, int) and x == 0:
            return 0
        xt, nt = to_int(x), to_int(n)
        if eng.entails(st.pc, And_(xt >= 0, xt <= nt)):
            return x
        return z3.If(xt < 0, z3.If(xt + nt < 0, z3.IntVal(0), xt + nt), z3.If(xt > nt, nt, xt))
    return res(sl.start, 0), res(sl.stop, n)


def extract(eng, c, a, b, pc=None):
    """content[a:b], 0 <= a,b <= n"""
    if isinstance(c, CL) and isinstance(a, int) and isinstance(b, int):
        return CL(c.items[a:b])
    if isinstance(c, SL):
        if eng.linear_only and not isinstance(b, int) and z3.simplify(to_int(b) - z3.Length(c.term)).eq(z3.IntVal(0)):
            tail = known_tail(eng, c, a, pc)
            if tail is not None:
                return mkgl(tail)
        at, bt = to_int(a), to_int(b)
        ln = z3.If(bt > at, bt - at, z3.IntVal(0))
        if isinstance(a, int) and a == 0:
            ln = bt
        return SL(z3.SubSeq(c.term, at, ln) if hasattr(z3, 'SubSeq') else z3.Extract(c.term, at, ln), c.elem, c.asof, c.distinct)
    if isinstance(c, CL):
        # unknown bounds over known items
        at, bt = to_int(a), to_int(b)
        return mkgl([(And_(at <= i, bt > i), x) for i, x in enumerate(c.items)])
    if isinstance(c, GL) and isinstance(a, int) and a == 0:
        out = []
        pos = z3.IntVal(0)
        for g, x in c.items:
            out.append((And_(g, pos < to_int(b)), x))
            pos = pos + z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))
        return mkgl(out)
    if isinstance(c, GL):
        out = []
        pos = z3.IntVal(0)
        for g, x in c.items:
            out.append((And_(g, pos >= to_int(a), pos < to_int(b)), x))
            pos = pos + z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))
        return mkgl(out)
    raise Unsupported('slice')


def getitem(eng, st, o, i):
    if isinstance(o, Union):
        return eng.dist(st, [o], lambda s, x: getitem(eng, s, x, i))
    if isinstance(o, Ref) and issubclass(o.cls, list) or isinstance(o, list):
        f = eng.lookup_class(o.cls, '__getitem__')[0] if isinstance(o, Ref) else None
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [o, i], {})
        c = list_content(eng, st, o)
        n = content_len(c)
        if isinstance(i, slice):
            if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    return eng.new_list(st, reverse_content(eng, c))
                if isinstance(c, CL) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    return eng.new_list(st, CL(c.items[i]))
                raise Unsupported('extended slice')
            a, b = slice_bounds(eng, st, i, n)
            if isinstance(a, int) and a == 0 and (i.stop is None):
                return eng.new_list(st, c)
            return eng.new_list(st, extract(eng, c, a, b, st.pc))
        if isinstance(c, GL) and isinstance(i, int) and i in (0, -1):
            eng.raise_if(st, And_(*[Not_(g) for g, _ in c.items]), ExcVal(IndexError, ()))
            return elem_at(eng, c, i)
        j = norm_index(eng, st, i, n)
        if isinstance(c, CL) and is_z(j):
            v = elem_at(eng, c, j)
            return v
        return elem_at(eng, c, j, st.pc)
    if isinstance(o, tuple) or isinstance(o, str):
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i]
            raise Unsupported('symbolic slice')
        if isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
            eng.do_raise(st, ExcVal(IndexError, ('index out of range',)))
        j = norm_index(eng, st, i, len(o))
        return elem_at(eng, CL(list(o)), j)
    if isinstance(o, AStr):
        if isinstance(i, int) and i == 0:
            eng.raise_if(st, o.term == 0, ExcVal(IndexError, ('string index out of range',)))
            return mkastr(str_head(o.term))
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            return mkastr(str_tail(o.term))
        if isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step is None:
            return mkastr(str_head(o.term))
        if isinstance(i, slice):
            return opaque_text(eng, 'slice', None)
        raise Unsupported('character of an unknown string')
    if isinstance(o, Text):
        g, p = o.pieces[0]
        if g is True and isinstance(p, str):
            if isinstance(i, int) and 0 <= i < len(p):
                return p[i]
            if isinstance(i, slice) and isinstance(i.start, int) and 0 <= i.start <= len(p) and i.stop is None and i.step is None:
                return mktext([(True, p[i.start:])] + list(o.pieces[1:]))
        if g is True and isinstance(p, AStr) and (i == 0 if isinstance(i, int) else False):
            return getitem(eng, st, p, 0)
        raise Unsupported('index into a text')
    if isinstance(o, CmdPart):
        raise Unsupported('index into a command part')
    if isinstance(o, Ref) and o.cls is dict or isinstance(o, dict):
        d = dict_of(eng, st, o)
        if is_z(i) or isinstance(i, (Union, AStr)):
            return eng.branch(st, [(eng.eq_plain(i, k), (lambda s, k=k: d[k])) for k in d] +
                              [(And_(*[Not_(eng.eq_plain(i, k)) for k in d]),
                                lambda s: eng.do_raise(s, ExcVal(KeyError, (i,))))])
        if i in d:
            return d[i]
        eng.do_raise(st, ExcVal(KeyError, (i,)))
    if isinstance(o, Ref):
        f, _ = eng.lookup_class(o.cls, '__getitem__')
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [o, i], {})
    if o is None or is_num(o):
        eng.do_raise(st, ExcVal(TypeError, ('not subscriptable',)))
    raise Unsupported('subscript of %r' % (o,))


def reverse_content(eng, c):
    if isinstance(c, CL):
        return CL(reversed(c.items))
    if isinstance(c, GL):
        return GL(tuple(reversed(c.items)))
    t = eng.fresh('rev', c.term.sort())
    n = z3.Length(c.term)
    eng.axiom(z3.Length(t) == n)
    i = z3.Int('i!rev')
    eng.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t[i] == c.term[n - 1 - i])))
    return SL(t, c.elem, c.asof, c.distinct)


def setitem(eng, st, o, i, v):
    if isinstance(o, Union):
        return eng.dist(st, [o], lambda s, x: setitem(eng, s, x, i, v))
    if isinstance(o, Ref) and issubclass(o.cls, list):
        c = eng.items(st, o)
        n = content_len(c)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('extended slice assignment')
            new = seq_of(eng, st, v)
            a, b = slice_bounds(eng, st, i, n)
            if isinstance(a, int) and a == 0 and i.stop is None:
                eng.set_items(st, o, new)
                return None
            bb = b
            if is_z(a) or is_z(b):
                bb = z3.If(to_int(b) < to_int(a), to_int(a), to_int(b))
            elif b < a:
                bb = a
            eng.set_items(st, o, concat(eng, concat(eng, extract(eng, c, 0, a), new), extract(eng, c, bb, n)))
            return None
        j = norm_index(eng, st, i, n)
        v = storable(eng, st, v)
        eng.set_items(st, o, store(eng, st, c, j, v))
        return None
    if isinstance(o, Ref) and o.cls is dict:
        d = dict(dict_of(eng, st, o))
        if is_z(i) or isinstance(i, (Union, AStr, Text)):
            raise Unsupported('symbolic dict key')
        d[i] = v
        st.heap[('dict', '#d')] = Write(eng.heap_node(st.heap, ('dict', '#d')), o, SymDict(d))
        return None
    if isinstance(o, Ref):
        f, _ = eng.lookup_class(o.cls, '__setitem__')
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [o, i, v], {})
    raise Unsupported('item assignment on %r' % (o,))


def store(eng, st, c, j, v):
    if isinstance(c, CL):
        if isinstance(j, int):
            its = list(c.items)
            its[j] = v
            return CL(its)
        return CL([merge(to_int(j) == k, v, x) for k, x in enumerate(c.items)])
    if isinstance(c, SL):
        jt = to_int(j)
        n = z3.Length(c.term)
        ev = c.elem.enc(v)
        return SL(z3.Concat(z3.Extract(c.term, z3.IntVal(0), jt), z3.Unit(ev), z3.Extract(c.term, jt + 1, n - jt - 1)),
                  c.elem, eng.alloc)
    raise Unsupported('item assignment in guarded list')


def delitem(eng, st, o, i):
    if isinstance(o, Ref) and issubclass(o.cls, list):
        if not isinstance(i, slice):
            c = eng.items(st, o)
            n = content_len(c)
            if isinstance(c, GL) and i == 0:
                eng.raise_if(st, And_(*[Not_(g) for g, _ in c.items]), ExcVal(IndexError, ()))
                eng.set_items(st, o, drop_first(c))
                return
            j = norm_index(eng, st, i, n)
            if isinstance(j, int):
                i = slice(j, j + 1)
            else:
                i = slice(j, to_int(j) + 1)
        setitem(eng, st, o, i, eng.new_list(st, CL(())))
        return
    raise Unsupported('del item of %r' % (o,))


def drop_first(c):
    out = []
    seen = False
    for g, x in c.items:
        out.append((And_(g, seen), x))
        seen = Or_(seen, g)
    return mkgl(out)


def dict_of(eng, st, v):
    if isinstance(v, dict):
        return v
    if isinstance(v, Ref) and v.cls is dict:
        c = read(eng.heap_node(st.heap, ('dict', '#d')), v)
        if isinstance(c, Union):
            c = eng.dist(st, [c], lambda s, x: x)
        if isinstance(c, SymDict):
            return c.d
    raise Unsupported('dict expected')


def unpack(eng, st, v, n):
    if isinstance(v, Union):
        if all(isinstance(x, tuple) and len(x) == n for _, x in v.cases):
            out = []
            for i in range(n):
                r = None
                for g, x in reversed(v.cases):
                    r = x[i] if r is None else merge(g, x[i], r)
                out.append(r)
            return out
        return eng.dist(st, [v], lambda s, x: tuple(unpack(eng, s, x, n)))
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            eng.do_raise(st, ExcVal(ValueError, ('unpack',)))
        return list(v)
    if isinstance(v, Ref) and issubclass(v.cls, list):
        c = eng.items(st, v)
        m = content_len(c)
        eng.raise_if(st, Not_(eng.eq_plain(m, n)), ExcVal(ValueError, ('unpack',)))
        return [elem_at(eng, c, i) for i in range(n)]
    if v is None or is_num(v):
        eng.do_raise(st, ExcVal(TypeError, ('cannot unpack',)))
    d = iterate(eng, st, v)
    if isinstance(d, (list, tuple)) and all(g is True for g, _ in d):
        if len(d) != n:
            eng.do_raise(st, ExcVal(ValueError, ('unpack',)))
        return [x for _, x in d]
    raise Unsupported('unpacking %r' % (v,))


# ------------------------------------------------------------------ iteration
def make_iterator(eng, st, lst):
    r = eng.new_ref(PyIter)
    eng.set_items(st, r, eng.items(st, lst))
    eng.set_attr(st, r, '#pos', 0)
    return r


def iter_rest(eng, st, r):
    c = eng.items(st, r)
    pos = eng.raw_attr(st, r, '#pos')
    return c, pos


def iterate(eng, st, v):
    """list of guarded items, or IterDesc for a sequence of unknown length"""
    if isinstance(v, Union):
        return eng.dist(st, [v], lambda s, x: iterate(eng, s, x))
    if isinstance(v, (list, tuple, str)) and not isinstance(v, GItems):
        return [(True, x) for x in v]
    if isinstance(v, GItems) or isinstance(v, IterDesc):
        return v
    if isinstance(v, range):
        return [(True, x) for x in v]
    if isinstance(v, (dict,)):
        return [(True, x) for x in v]
    if isinstance(v, (set, frozenset)):
        return [(True, x) for x in sorted(v)]
    if isinstance(v, Ref):
        if v.cls is PyIter:
            c, pos = iter_rest(eng, st, v)
            if isinstance(c, (CL, GL)):
                if not isinstance(pos, int):
                    raise Unsupported('iterator at unknown position')
                if isinstance(c, GL):
                    if pos != 0:
                        raise Unsupported('guarded iterator')
                    its = GItems(c.items)
                    eng.set_attr(st, v, '#pos', len(c.items) + 1)
                    return its
                its = GItems([(True, x) for x in c.items[pos:]])

                def on_next(s, k):
                    eng.set_attr(s, v, '#pos', pos + k + 1)

                def on_end(s):
                    eng.set_attr(s, v, '#pos', len(c.items))
                its.on_next, its.on_end = on_next, on_end
                return its
            n = z3.Length(c.term)
            p0 = to_int(pos)
            d = IterDesc(n - p0 if not (isinstance(pos, int) and pos == 0) else n,
                         lambda k: elem_at(eng, c, k if isinstance(pos, int) and pos == 0 else p0 + k), seq=c, elem=c.elem)
            d.on_next = lambda s, k: eng.set_attr(s, v, '#pos', p0 + k + 1)
            d.on_end = lambda s: eng.set_attr(s, v, '#pos', n)
            return d
        if issubclass(v.cls, list):
            f, _ = eng.lookup_class(v.cls, '__iter__')
            if isinstance(f, types.FunctionType):
                return iterate(eng, st, eng.call(st, f, [v], {}))
            c = eng.items(st, v)
            return desc_of_content(eng, c)
        if v.cls is dict:
            return [(True, k) for k in dict_of(eng, st, v)]
        if v.cls is set:
            return iterate_set(eng, st, get_set(eng, st, v))
        f, _ = eng.lookup_class(v.cls, '__iter__')
        if isinstance(f, types.FunctionType):
            return iterate(eng, st, eng.call(st, f, [v], {}))
        f, _ = eng.lookup_class(v.cls, '__getitem__')
        if isinstance(f, types.FunctionType):
            raise Unsupported('sequence protocol')
        eng.do_raise(st, ExcVal(TypeError, ("'%s' object is not iterable" % v.cls.__name__,)))
    if v is None or is_num(v) or is_boolv(v):
        eng.do_raise(st, ExcVal(TypeError, ('not iterable',)))
    if isinstance(v, type({}.values())) or isinstance(v, type({}.items())) or isinstance(v, type({}.keys())):
        return [(True, x) for x in v]
    raise Unsupported('iteration over %r' % (v,))


def iterate_set(eng, st, c):
    """the distinct values of a set of few, in an unknown order"""
    if c.items is None:
        raise Unsupported('iteration over a set')
    out = []
    for g, x in c.items:
        out.append((And_(g, *[Not_(And_(h, eng.eq_plain(x, y))) for h, y in c.items[:len(out)]]), x))
    out = [(g, x) for g, x in out if g is not False]
    for i in range(len(out)):
        for j in range(len(out) - 1 - i):
            sw = eng.fresh('order', z3.BoolSort())
            (ga, a), (gb, b) = out[j], out[j + 1]
            out[j], out[j + 1] = (merge(sw, gb, ga), merge(sw, b, a)), (merge(sw, ga, gb), merge(sw, a, b))
    return GItems(out)


def desc_of_content(eng, c):
    if isinstance(c, CL):
        return [(True, x) for x in c.items]
    if isinstance(c, GL):
        return list(c.items)
    d = IterDesc(z3.Length(c.term), lambda k: elem_at(eng, c, k), seq=c, elem=c.elem)
    return d


def seq_of(eng, st, v):
    """materialise an iterable as list content; raises TypeError for non-iterables"""
    c = list_content(eng, st, v)
    if c is not None:
        f = eng.lookup_class(v.cls, '__iter__')[0] if isinstance(v, Ref) else None
        if not isinstance(f, types.FunctionType):
            return c
    d = iterate(eng, st, v)
    if isinstance(d, (list, tuple)):
        return mkgl(d)
    if d.seq is not None and d.kind == 'seq':
        return d.seq
    # symbolic description: a fresh sequence equal to it point by point
    k = z3.Int('k!map')
    x = d.item(k)
    e = elem_of(x)
    return SL(mapped(eng, k, to_int(d.n), e.enc(x)), e, eng.alloc)


def mapped(eng, k, n, body):
    """the sequence of body(0) ... body(n-1); the same term for the same sequence"""
    key = (n.get_id(), body.get_id())
    if key not in eng.mapped_by:
        t = eng.fresh('mapped', z3.SeqSort(body.sort()))
        eng.mapped_by[key] = t
        eng.mapped_of[t.get_id()] = (t, k, n, body)
        eng.axiom(z3.Length(t) == z3.If(n > 0, n, z3.IntVal(0)))
        eng.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), t[k] == body)))
    return eng.mapped_by[key]


def mentions(t, k):
    if t.eq(k):
        return True
    return any(mentions(c, k) for c in t.children())


def item_fn(d):
    """uniform access for zip/enumerate: (length, item(k), is_concrete)"""
    if isinstance(d, (list, tuple)):
        return len(d), (lambda k: d[k][1]), True
    return d.n, d.item, False


@stub(enumerate)
def s_enumerate(eng, st, args, kwargs):
    start = kwargs.get('start', args[1] if len(args) > 1 else 0)
    d = iterate(eng, st, args[0])
    if isinstance(d, (list, tuple)):
        out = GItems()
        if all(g is True for g, _ in d):
            out.extend((True, (arith(eng, st, 'Add', start, i), x)) for i, (_, x) in enumerate(d))
        else:
            pos = to_int(start)
            for g, x in d:
                out.append((g, (z3.simplify(pos) if not z3.is_int_value(z3.simplify(pos)) else z3.simplify(pos).as_long(), x)))
                pos = pos + z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))
        if isinstance(d, GItems):
            out.on_next, out.on_end = d.on_next, d.on_end
        return out
    r = IterDesc(d.n, lambda k: (arith(eng, st, 'Add', start, k), d.item(k)), kind='enum')
    r.src = d
    copy_hooks(r, [d])
    return r


def copy_hooks(r, ds):
    hs = [d for d in ds if getattr(d, 'on_next', None)]
    if hs:
        def on_next(s, k):
            for h in hs:
                h.on_next(s, k)

        def on_end(s):
            for h in hs:
                h.on_end(s)
        r.on_next, r.on_end = on_next, on_end


@stub(zip)
def s_zip(eng, st, args, kwargs):
    ds = [iterate(eng, st, a) for a in args]
    if all(isinstance(d, (list, tuple)) for d in ds):
        if any(g is not True for d in ds for g, _ in d):
            raise Unsupported('zip of guarded lists')
        n = min(len(d) for d in ds) if ds else 0
        out = GItems((True, tuple(d[k][1] for d in ds)) for k in range(n))
        hs = [d for d in ds if isinstance(d, GItems) and d.on_next]
        if hs:
            def on_next(s, k):
                for h in hs:
                    h.on_next(s, k)

            def on_end(s):
                # iterators are advanced left to right until the first exhausted one
                for d in ds:
                    if len(d) > n:
                        if isinstance(d, GItems) and d.on_next:
                            d.on_next(s, n)
                    else:
                        if isinstance(d, GItems) and d.on_end:
                            d.on_end(s)
                        break
            out.on_next, out.on_end = on_next, on_end
        return out
    fs = [item_fn(d) for d in ds]
    n = None
    for m, _, conc in fs:
        mt = to_int(m)
        n = mt if n is None else z3.If(mt < n, mt, n)
    for (m, _, conc), d in zip(fs, ds):
        if conc:
            raise Unsupported('zip of a known with an unknown list')
    r = IterDesc(n, lambda k: tuple(f(k) for _, f, _ in fs), kind='zip')
    r.srcs = ds
    hs = [d for d in ds if getattr(d, 'on_next', None)]
    if hs:
        def on_next(s, k):
            for h in hs:
                h.on_next(s, k)

        def on_end(s):
            # left to right until the first exhausted one
            def adv(s, rest):
                if not rest:
                    return None
                d = rest[0]
                longer = _cb(to_int(d.n) > n)

                def go(s2):
                    if getattr(d, 'on_next', None):
                        d.on_next(s2, n)
                    adv(s2, rest[1:])

                def stop(s2):
                    if getattr(d, 'on_end', None):
                        d.on_end(s2)
                eng.branch(s, [(longer, go), (Not_(longer), stop)])
            adv(s, ds)
        r.on_next, r.on_end = on_next, on_end
    return r


@stub(itertools.zip_longest)
def s_zip_longest(eng, st, args, kwargs):
    fill = kwargs.get('fillvalue')
    ds = [iterate(eng, st, a) for a in args]
    if all(isinstance(d, (list, tuple)) for d in ds):
        if any(g is not True for d in ds for g, _ in d):
            raise Unsupported('zip of guarded lists')
        n = max(len(d) for d in ds) if ds else 0
        return GItems((True, tuple(d[k][1] if k < len(d) else fill for d in ds)) for k in range(n))
    n = None
    for d in ds:
        if isinstance(d, (list, tuple)):
            raise Unsupported('zip of a known with an unknown list')
        mt = to_int(d.n)
        n = mt if n is None else z3.If(mt > n, mt, n)

    def item(k):
        return tuple(merge(k < to_int(d.n), d.item(k), fill) for d in ds)
    return IterDesc(n, item, kind='zip')


@stub(reversed)
def s_reversed(eng, st, args, kwargs):
    c = list_content(eng, st, args[0])
    if c is None:
        d = args[0] if isinstance(args[0], (IterDesc, GItems)) else iterate(eng, st, args[0])
        if isinstance(d, (list, tuple)):
            return GItems(reversed(d))
        return IterDesc(d.n, lambda k: d.item(to_int(d.n) - 1 - k), kind='rev')
    if isinstance(c, (CL, GL)):
        return GItems(reversed(gl_of(c)))
    n = z3.Length(c.term)
    return IterDesc(n, lambda k: elem_at(eng, c, n - 1 - k), kind='rev')


@stub(range)
def s_range(eng, st, args, kwargs):
    args = [eng.dist(st, [a], lambda s, x: x) if isinstance(a, Union) else a for a in args]
    for a in args:
        if not is_int(a) and not isinstance(a, bool):
            eng.do_raise(st, ExcVal(TypeError, ('integer required',)))
    if len(args) == 1:
        lo, hi, step = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, step = args[0], args[1], 1
    else:
        lo, hi, step = args
    if all(isinstance(a, int) for a in (lo, hi, step)):
        return GItems((True, i) for i in range(lo, hi, step))
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported('range step')
    l, h = to_int(lo), to_int(hi)
    n = z3.simplify(h - l) if step == 1 else z3.simplify(l - h)
    if z3.is_int_value(n):
        return GItems((True, arith(eng, st, 'Add', lo, step * i)) for i in range(max(0, n.as_long())))
    if eng.unroll is not None:
        pass
    if lo == 0 and isinstance(lo, int) and step == 1:
        return IterDesc(n, lambda k: k, kind='range')
    return IterDesc(n, lambda k: l + step * k, kind='range')


@stub(iter)
def s_iter(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and v.cls is PyIter:
        return v
    c = seq_of(eng, st, v)
    return make_iterator(eng, st, eng.new_list(st, c))


@stub(next)
def s_next(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Union):
        return eng.dist(st, [v], lambda s, x: s_next(eng, s, [x] + args[1:], kwargs))
    if not (isinstance(v, Ref) and v.cls is PyIter):
        if isinstance(v, (GItems, IterDesc)):
            raise Unsupported('next() on zip or enumerate')
        eng.do_raise(st, ExcVal(TypeError, ('not an iterator',)))
    c, pos = iter_rest(eng, st, v)
    if isinstance(pos, Union):
        raise Unsupported('iterator position')
    n = content_len(c)
    if isinstance(pos, int) and isinstance(c, CL):
        if pos >= n:
            if len(args) > 1:
                return args[1]
            eng.do_raise(st, ExcVal(StopIteration, ()))
        eng.set_attr(st, v, '#pos', pos + 1)
        return c.items[pos]
    if isinstance(c, GL):
        if not (isinstance(pos, int) and pos == 0):
            raise Unsupported('guarded iterator')
    end = _cb(to_int(pos) >= to_int(n))
    if len(args) > 1:
        def more(s):
            eng.set_attr(s, v, '#pos', arith(eng, s, 'Add', pos, 1))
            return elem_at(eng, c, pos)
        return eng.branch(st, [(end, lambda s: args[1]), (Not_(end), more)])
    eng.raise_if(st, end, ExcVal(StopIteration, ()))
    eng.set_attr(st, v, '#pos', arith(eng, st, 'Add', pos, 1))
    return elem_at(eng, c, pos)


# ------------------------------------------------------------------ contains
def contains(eng, st, hay, x):
    if isinstance(hay, Union):
        return eng.truth(st, eng.dist(st, [hay], lambda s, h: contains(eng, s, h, x)))
    if isinstance(hay, Ref) and hay.cls is set:
        return get_set(eng, st, hay).has(x)
    if isinstance(hay, StrSet):
        return hay.has(eng, st, x)
    if isinstance(hay, (list, tuple, set, frozenset)):
        return Or_(*[eng.eq(st, x, y) for y in hay])
    if isinstance(hay, dict) or isinstance(hay, Ref) and hay.cls is dict:
        return Or_(*[eng.eq(st, x, y) for y in dict_of(eng, st, hay)])
    if is_strv(hay):
        if isinstance(x, Union):
            return eng.truth(st, eng.dist(st, [x], lambda s, y: contains(eng, s, hay, y)))
        if not is_strv(x):
            eng.do_raise(st, ExcVal(TypeError, ('in <string> requires string',)))
        return text_contains(eng, st, hay, x)
    if isinstance(hay, Ref) and issubclass(hay.cls, list):
        c = eng.items(st, hay)
        if isinstance(c, (CL, GL)):
            return Or_(*[And_(g, eng.eq(st, x, y)) for g, y in gl_of(c)])
        if isinstance(x, Union):
            return Or_(*[And_(g, contains(eng, st, hay, y)) for g, y in x.cases])
        if eng.user_eq(x):
            raise Unsupported('search of an object with __eq__')
        if isinstance(x, Ref) and not isinstance(c.elem, RefE) or x is None and not isinstance(c.elem, OptE):
            return False
        k = z3.Int('k!in')
        return z3.Exists([k], z3.And(0 <= k, k < z3.Length(c.term), zb(eng.eq_plain(elem_at(eng, c, k), x))))
    if isinstance(hay, Ref):
        f, _ = eng.lookup_class(hay.cls, '__contains__')
        if isinstance(f, types.FunctionType):
            return eng.truth(st, eng.call(st, f, [hay, x], {}))
    if hay is None or is_num(hay):
        eng.do_raise(st, ExcVal(TypeError, ('not a container',)))
    d = iterate(eng, st, hay)
    if isinstance(d, (list, tuple)):
        return Or_(*[And_(g, eng.eq(st, x, y)) for g, y in d])
    raise Unsupported('containment in %r' % (hay,))


def quantified(eng, st, fr, which, gen):
    """any(...)/all(...) over a sequence of unknown length, as a quantifier; None to use the generic path"""
    if len(gen.generators) != 1:
        return None
    g = gen.generators[0]
    probe = st.copy()
    it = eng.ev(g.iter, probe, fr)
    if isinstance(it, Union):
        return None
    d = iterate(eng, probe, it)
    if isinstance(d, (list, tuple)):
        # unrolled, short-circuit
        acc = False if which == 'any' else True
        base = len(probe.pc)
        s = probe
        res = None
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        saved = dict(s.env)
        locs = fr.locals
        fr.locals = (fr.locals or set()) | set(names)

        def step(s, i):
            if i == len(d):
                return which == 'all'
            h, v = d[i]

            def present(s):
                eng.assign(g.target, v, s, fr)
                conds = True
                for c in g.ifs:
                    conds = And_(conds, eng.truth(s, eng.ev(c, s, fr)))

                def test(s):
                    t = _cb(eng.truth(s, eng.ev(gen.elt, s, fr)))
                    stop = t if which == 'any' else Not_(t)
                    return eng.branch(s, [(stop, lambda s2: which == 'any'), (Not_(stop), lambda s2: step(s2, i + 1))])
                conds = _cb(conds)
                return eng.branch(s, [(conds, test), (Not_(conds), lambda s2: step(s2, i + 1))])
            h = _cb(h)
            return eng.branch(s, [(h, present), (Not_(h), lambda s2: step(s2, i + 1))])
        try:
            r = step(s, 0)
        finally:
            fr.locals = locs
        env = s.env
        for nme in names:
            if nme in saved:
                env[nme] = saved[nme]
            else:
                env.pop(nme, None)
        st.set(s)
        return r
    k = z3.Int('k!q%d' % uid())
    n = to_int(d.n)
    s2 = probe.copy()
    s2.pc.append(z3.And(0 <= k, k < n))
    eng.rstack.append([])
    locs = fr.locals
    fr.locals = (fr.locals or set()) | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    base = len(s2.pc)
    try:
        eng.assign(g.target, d.item(k), s2, fr)
        conds = True
        for c in g.ifs:
            conds = And_(conds, eng.truth(s2, eng.ev(c, s2, fr)))
        if not isinstance(_cb(conds), bool):
            s2.pc.append(conds)
            base += 1
        t = eng.truth(s2, eng.ev(gen.elt, s2, fr))
    except Dead_():
        t = None
    finally:
        fr.locals = locs
        raised = eng.rstack.pop()
    if raised or t is None or len(s2.pc) > base or any(s2.heap.get(x) is not probe.heap.get(x) for x in s2.heap):
        raise Unsupported('any/all with effects or exceptions')
    st.set(probe)
    rng = And_(0 <= k, k < n, conds)
    if which == 'any':
        return z3.Exists([k], zb(And_(rng, t)))
    return z3.ForAll([k], zb(Implies_(rng, t)))


def Dead_():
    from .engine import Dead
    return Dead


# ------------------------------------------------------------------ methods of built-in types
def call_method(eng, st, o, name, args, kwargs):
    if isinstance(o, Union):
        return eng.dist(st, [o], lambda s, x: call_method(eng, s, x, name, args, kwargs))
    if isinstance(o, Ref):
        if issubclass(o.cls, list):
            f = globals().get('list_' + name)
            if f is None:
                raise Unsupported('list.%s' % name)
            return f(eng, st, o, *args, **kwargs)
        if o.cls is dict:
            return dict_method(eng, st, o, name, args)
        if o.cls is set:
            return set_method(eng, st, o, name, args)
        if name == '__init__':
            return None
        if name in ('__eq__',):
            return eng.eq_plain(o, args[0])
        raise Unsupported('%s.%s' % (o.cls.__name__, name))
    if is_strv(o):
        return str_method(eng, st, o, name, args, kwargs)
    if isinstance(o, dict):
        return dict_method(eng, st, o, name, args)
    if isinstance(o, (list, tuple)):
        if name == 'index' and len(args) == 1:
            r = None
            for i, x in reversed(list(enumerate(o))):
                e = eng.eq(st, args[0], x)
                r = (e, i, r)
            alts = []
            prev = False
            for i, x in enumerate(o):
                e = eng.eq(st, args[0], x)
                alts.append((And_(Not_(prev), e), lambda s, i=i: i))
                prev = Or_(prev, e)
            alts.append((Not_(prev), lambda s: eng.do_raise(s, ExcVal(ValueError, ()))))
            return eng.branch(st, alts)
        if name == '__iter__':
            return make_iterator(eng, st, eng.new_list(st, CL(o)))
        raise Unsupported('%s.%s on a constant' % (type(o).__name__, name))
    if isinstance(o, Groups):
        if name == 'group':
            return o.groups[args[0] if args else 0]
    raise Unsupported('method %s of %r' % (name, o))


def list___init__(eng, st, o, it=None):
    eng.set_items(st, o, seq_of(eng, st, it) if it is not None else CL(()))


def storable(eng, st, v):
    """drop the cases of a value that cannot occur here when they have no common element type"""
    if isinstance(v, Union):
        try:
            elem_of(v)
        except Unsupported:
            return mkunion([(g, x) for g, x in v.cases if eng.feasible(st.pc, g)])
        if any(x is None and not eng.feasible(st.pc, g) for g, x in v.cases):
            return mkunion([(g, x) for g, x in v.cases if x is not None])
    return v


def list_append(eng, st, o, x):
    x = storable(eng, st, x)
    eng.set_items(st, o, concat(eng, eng.items(st, o), CL((x,))))


def list_extend(eng, st, o, it):
    if isinstance(it, Union):
        return eng.dist(st, [it], lambda s, x: list_extend(eng, s, o, x))
    eng.set_items(st, o, concat(eng, eng.items(st, o), seq_of(eng, st, it)))


def list_insert(eng, st, o, i, x):
    x = storable(eng, st, x)
    c = eng.items(st, o)
    n = content_len(c)
    a, _ = slice_bounds(eng, st, slice(i, None), n)
    eng.set_items(st, o, concat(eng, concat(eng, extract(eng, c, 0, a), CL((x,))), extract(eng, c, a, n)))


def list_pop(eng, st, o, i=-1):
    c = eng.items(st, o)
    n = content_len(c)
    if isinstance(c, GL) and i in (0, -1):
        eng.raise_if(st, And_(*[Not_(g) for g, _ in c.items]), ExcVal(IndexError, ()))
        v = elem_at(eng, c, i)
        if i == 0:
            eng.set_items(st, o, drop_first(c))
        else:
            eng.set_items(st, o, mkgl(list(reversed(drop_first(GL(tuple(reversed(c.items)))).items))))
        return v
    j = norm_index(eng, st, i, n)
    v = elem_at(eng, c, j)
    nxt = j + 1 if isinstance(j, int) else to_int(j) + 1
    eng.set_items(st, o, concat(eng, extract(eng, c, 0, j), extract(eng, c, nxt, n)))
    return v


def list_clear(eng, st, o):
    eng.set_items(st, o, CL(()))


def list_copy(eng, st, o):
    return eng.new_list(st, eng.items(st, o))


def list_reverse(eng, st, o):
    eng.set_items(st, o, reverse_content(eng, eng.items(st, o)))


def list___iter__(eng, st, o):
    return make_iterator(eng, st, o)


def list___len__(eng, st, o):
    return content_len(eng.items(st, o))


def list_index(eng, st, o, x, start=0):
    c = eng.items(st, o)
    if start != 0:
        raise Unsupported('index with start')
    if isinstance(c, CL):
        alts = []
        prev = False
        for i, y in enumerate(c.items):
            e = eng.eq(st, x, y)
            alts.append((And_(Not_(prev), e), lambda s, i=i: i))
            prev = Or_(prev, e)
        alts.append((Not_(prev), lambda s: eng.do_raise(s, ExcVal(ValueError, ()))))
        return eng.branch(st, alts)
    if isinstance(c, GL):
        alts = []
        prev = False
        pos = z3.IntVal(0)
        for g, y in c.items:
            e = And_(g, eng.eq(st, x, y))
            alts.append((And_(Not_(prev), e), lambda s, pos=z3.simplify(pos): pos))
            prev = Or_(prev, e)
            pos = pos + z3.If(zb(g), z3.IntVal(1), z3.IntVal(0))
        alts.append((Not_(prev), lambda s: eng.do_raise(s, ExcVal(ValueError, ()))))
        return eng.branch(st, alts)
    if isinstance(c, SL) and not eng.user_eq(x) and not (isinstance(x, Ref) and issubclass(x.cls, list)):
        i = eng.fresh('index', z3.IntSort())
        k = z3.Int('k!idx')
        n = z3.Length(c.term)
        found = zb(contains(eng, st, o, x))
        eng.raise_if(st, Not_(found), ExcVal(ValueError, ()))
        st.pc.append(z3.And(0 <= i, i < n, zb(eng.eq_plain(elem_at(eng, c, i), x))))
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(zb(eng.eq_plain(elem_at(eng, c, k), x))))))
        return i
    raise Unsupported('list.index')


def list_count(eng, st, o, x):
    c = eng.items(st, o)
    if isinstance(c, (CL, GL)):
        t = z3.IntVal(0)
        for g, y in gl_of(c):
            t = t + z3.If(zb(And_(g, eng.eq(st, x, y))), z3.IntVal(1), z3.IntVal(0))
        return t
    raise Unsupported('list.count')


def list_sort(eng, st, o, **kw):
    raise Unsupported('list.sort')


def list_remove(eng, st, o, x):
    i = list_index(eng, st, o, x)
    list_pop(eng, st, o, i)


def list___setitem__(eng, st, o, i, v):
    return setitem(eng, st, o, i, v)


def list___getitem__(eng, st, o, i):
    return getitem(eng, st, o, i)


def dict_method(eng, st, o, name, args):
    d = dict_of(eng, st, o)
    if name == 'values':
        return GItems((True, v) for v in d.values())
    if name == 'keys':
        return GItems((True, v) for v in d.keys())
    if name == 'items':
        return GItems((True, kv) for kv in d.items())
    if name == 'get':
        k = args[0]
        default = args[1] if len(args) > 1 else None
        if is_z(k) or isinstance(k, (Union, AStr)):
            r = default
            for kk, v in d.items():
                r = merge(eng.eq_plain(k, kk), v, r)
            return r
        if isinstance(k, (Text, CmdPart)):
            raise Unsupported('symbolic dict key')
        return d.get(k, default)
    if name == 'update' and isinstance(o, Ref):
        nd = dict(d)
        nd.update(dict_of(eng, st, args[0]))
        st.heap[('dict', '#d')] = Write(eng.heap_node(st.heap, ('dict', '#d')), o, SymDict(nd))
        return None
    if name == 'setdefault' and isinstance(o, Ref) and not is_z(args[0]):
        if args[0] in d:
            return d[args[0]]
        setitem(eng, st, o, args[0], args[1])
        return args[1]
    if name == 'pop' and isinstance(o, Ref):
        nd = dict(d)
        if args[0] in nd:
            v = nd.pop(args[0])
        elif len(args) > 1:
            return args[1]
        else:
            eng.do_raise(st, ExcVal(KeyError, ()))
        st.heap[('dict', '#d')] = Write(eng.heap_node(st.heap, ('dict', '#d')), o, SymDict(nd))
        return v
    if name == 'copy':
        r = eng.new_ref(dict)
        st.heap[('dict', '#d')] = Write(eng.heap_node(st.heap, ('dict', '#d')), r, SymDict(dict(d)))
        return r
    raise Unsupported('dict.%s' % name)


def set_method(eng, st, o, name, args):
    c = get_set(eng, st, o)
    if name == 'add':
        put_set(eng, st, o, c.add(args[0]))
        return None
    if name == 'discard' or name == 'remove':
        if args[0] is None:
            put_set(eng, st, o, SetV(c.arr, False, c.ne, c.mn, c.mx))
            return None
        raise Unsupported('set.%s' % name)
    if name in ('union', 'difference', 'copy'):
        r = eng.new_ref(set)
        for a in args:
            b = get_set(eng, st, a) if isinstance(a, Ref) and a.cls is set else None
            if b is None:
                lc = seq_of(eng, st, a)
                if not isinstance(lc, CL):
                    raise Unsupported('set of a symbolic list')
                b = SetV.empty()
                for x in lc.items:
                    b = b.add(x)
            if name == 'union':
                c = SetV(z3.SetUnion(c.arr, b.arr), Or_(c.none, b.none), Or_(c.ne, b.ne),
                         z3.If(zb(And_(c.ne, Or_(Not_(b.ne), c.mn <= b.mn))), c.mn, b.mn),
                         z3.If(zb(And_(c.ne, Or_(Not_(b.ne), c.mx >= b.mx))), c.mx, b.mx))
            else:
                if b.ne is not False:
                    raise Unsupported('difference of sets of numbers')
                c = SetV(c.arr, And_(c.none, Not_(b.none)), c.ne, c.mn, c.mx)
        put_set(eng, st, r, c)
        return r
    raise Unsupported('set.%s' % name)


@stub(set)
def s_set(eng, st, args, kwargs):
    if not args:
        return make_set(eng, st, [])
    v = args[0]
    if isinstance(v, SetGen):
        r = eng.new_ref(set)
        put_set(eng, st, r, v.setv)
        return r
    if isinstance(v, Ref) and v.cls is set:
        r = eng.new_ref(set)
        put_set(eng, st, r, get_set(eng, st, v))
        return r
    c = seq_of(eng, st, v)
    if isinstance(c, CL):
        if all(isinstance(x, str) for x in c.items):
            return set(c.items)
        return make_set(eng, st, c.items)
    if isinstance(c, GL) and len(c.items) <= 6 and all(x is None or is_num(x) or isinstance(x, Union) for _, x in c.items):
        r = eng.new_ref(set)
        s = SetV.empty()
        for g, x in c.items:
            s = s.add_if(g, x)
        put_set(eng, st, r, s)
        return r
    if isinstance(c, GL) and all(is_strv(x) for _, x in c.items):
        return StrSet(c.items)
    raise Unsupported('set of a symbolic list')


def str_method(eng, st, o, name, args, kwargs):
    if isinstance(o, str) and all(isinstance(a, (str, int, tuple)) and not is_z(a) and
                                  not (isinstance(a, tuple) and any(not isinstance(x, str) for x in a)) for a in args) \
            and not kwargs and name != 'join':
        try:
            r = getattr(o, name)(*args)
        except Exception as ex:
            eng.do_raise(st, ExcVal(type(ex), tuple(ex.args)))
        if isinstance(r, list):
            return eng.new_list(st, CL(r))
        return r
    if name == 'format':
        return brace_format(eng, st, o, args, kwargs)
    if name == 'join':
        c = seq_of(eng, st, args[0])
        if isinstance(c, SL):
            return opaque_text(eng, 'join', None)
        out = []
        seen = False
        for g, x in gl_of(c):
            if isinstance(x, Union):
                raise Unsupported('join of a union')
            if not is_strv(x):
                eng.do_raise(st, ExcVal(TypeError, ('join',)))
            if out:
                for h, p in pieces_of(o):
                    out.append((And_(g, seen, h), p))
            for h, p in pieces_of(x):
                out.append((And_(g, h), p))
            seen = Or_(seen, g)
        return mktext(out)
    if name == 'lower':
        if isinstance(o, CmdPart):
            return CmdPart(o.term, 'lower') if o.part in ('upper', 'lower') else o
        ps = lower_pieces(o)
        return ps[0][1] if len(ps) == 1 and ps[0][0] is True and not isinstance(ps[0][1], Num) else Text(ps)
    if name == 'upper':
        if isinstance(o, CmdPart):
            return CmdPart(o.term, 'upper') if o.part in ('upper', 'lower') else o
        if isinstance(o, Text) and all(isinstance(p, (str, Num, LowerCmd)) for _, p in o.pieces):
            return mktext([(g, p.upper() if isinstance(p, str) else AStr(p.term) if isinstance(p, LowerCmd) else p) for g, p in o.pieces])
        if isinstance(o, LowerCmd):
            return AStr(o.term)
        raise Unsupported('upper() of an unknown string')
    if name in ('strip', 'rstrip', 'lstrip') and not args:
        if isinstance(o, Text):
            ps = list(o.pieces)
            ok = True
            for idx in ((0, -1) if name == 'strip' else (0,) if name == 'lstrip' else (-1,)):
                g, p = ps[idx]
                if isinstance(p, str) and p.strip() != p or g is not True:
                    ok = False
            if ok:
                return o
            if name != 'lstrip' and all(not isinstance(p, str) or p.rstrip() == p for _, p in ps) and \
                    (name == 'rstrip' or not isinstance(ps[0][1], str) or ps[0][1].lstrip() == ps[0][1]):
                return o
            raise Unsupported('strip of a text')
        if isinstance(o, CmdPart):
            return o
        if isinstance(o, AStr):
            f = STRS.fun('str_' + name, z3.IntSort(), lambda s, name=name: getattr(s, name)())
            r = f(o.term)
            eng.axiom(f(r) == r)
            return mkastr(r)
    if name == 'startswith':
        m = args[0]
        if isinstance(m, tuple):
            return Or_(*[str_method(eng, st, o, name, [x], {}) for x in m])
        if isinstance(m, str):
            if isinstance(o, AStr):
                if len(m) == 1:
                    return str_head(o.term) == to_str(m)
                return str_starts(o.term, m)
            if isinstance(o, Text):
                g, p = o.pieces[0]
                if g is True and isinstance(p, str) and (len(p) >= len(m) or not m.startswith(p)):
                    return p.startswith(m)
                if g is True and isinstance(p, AStr):
                    f = str_starts(to_str(o), m)
                    eng.axiom(Implies_(str_starts(p.term, m), f))
                    return f
    if name in ('split', 'partition', 'rpartition', 'rsplit'):
        return str_split(eng, st, o, name, args)
    if name in ('find', 'index') and isinstance(args[0], str):
        # position unknown; only its sign is known
        has = text_contains(eng, st, o, args[0])
        p = eng.fresh('find', z3.IntSort())
        st.pc.append(zb(And_(p >= -1, eng.eq_plain(p >= 0, has))))
        if name == 'index':
            eng.raise_if(st, Not_(has), ExcVal(ValueError, ()))
        return p
    if name == 'isdigit' and isinstance(o, (AStr, CmdPart)):
        t = to_str(o)
        f = STRS.fun('str_isdigit', z3.BoolSort(), lambda x: x.isdigit())(t)
        eng.axiom(z3.Implies(f, STRS.fun('str_isint', z3.BoolSort(), lambda x: bool(re.match(r'^\s*[-+]?[0-9]+\s*$', x)))(t)))
        return True if isinstance(o, CmdPart) and o.part == 'digits' else f
    if name == 'endswith' and isinstance(args[0], str) and isinstance(o, Text):
        g, p = o.pieces[-1]
        if g is True and isinstance(p, str) and len(p) >= len(args[0]):
            return p.endswith(args[0])
    raise Unsupported('str.%s on a symbolic string' % name)


def str_split(eng, st, o, name, args):
    """split/partition at a separator that occurs in constant pieces only"""
    if not args or not isinstance(args[0], str):
        raise Unsupported('split()')
    sep = args[0]
    if isinstance(o, AStr):
        h = STRS.fun('str_before<%s>' % sep, z3.IntSort(), lambda s: s.partition(sep)[0])
        t = STRS.fun('str_after<%s>' % sep, z3.IntSort(), lambda s: s.partition(sep)[2])
        has = str_contains(o.term, sep)
        if name == 'partition':
            a = mkastr(z3.If(has, h(o.term), o.term))
            b = mkastr(z3.If(has, z3.IntVal(STRS.intern(sep)), z3.IntVal(0)))
            c = mkastr(z3.If(has, t(o.term), z3.IntVal(0)))
            return (a, b, c)
        if name == 'split' and len(args) > 1 and args[1] == 1:
            return eng.branch(st, [(has, lambda s: eng.new_list(s, CL((mkastr(h(o.term)), mkastr(t(o.term)))))),
                                   (Not_(has), lambda s: eng.new_list(s, CL((o,))))])
        raise Unsupported('split of an unknown string')
    if isinstance(o, Text) and (name == 'partition' or len(args) > 1 and args[1] == 1):
        pre = []
        ps = list(o.pieces)
        for i, (g, p) in enumerate(ps):
            if isinstance(p, str) and sep in p:
                a, b = p.split(sep, 1)
                if g is True:
                    left = mktext(pre + [(g, a)])
                    right = mktext([(g, b)] + ps[i + 1:])
                    return (left, sep, right) if name == 'partition' else eng.new_list(st, CL((left, right)))
                left = mktext(pre + [(g, a)])
                right = mktext([(g, b)] + [(And_(g, h), q) for h, q in ps[i + 1:]])
                # without this piece there is no separator before it
                rest = [(h, q) for h, q in ps[:i] + ps[i + 1:]]
                if any(isinstance(q, str) and sep in q and not same(h, g) for h, q in rest) or \
                        any(isinstance(q, AStr) for h, q in ps[i + 1:] if not same(h, g)):
                    raise Unsupported('split of a text')
                nopc = mktext([(And_(h, Not_(g)), q) for h, q in rest])
                if name == 'partition':
                    return eng.branch(st, [(g, lambda s: (left, sep, right)), (Not_(g), lambda s: (nopc, '', ''))])
                return eng.branch(st, [(g, lambda s: eng.new_list(s, CL((left, right)))),
                                       (Not_(g), lambda s: eng.new_list(s, CL((nopc,))))])
            if isinstance(p, AStr) and p.term.get_id() not in ATOM_SAMPLE:
                raise Unsupported('split of a text')
            pre.append((g, p))
        return (o, '', '') if name == 'partition' else eng.new_list(st, CL((o,)))
    raise Unsupported('split of %r' % (o,))


def call_native_method(eng, st, o, name, args, kwargs):
    if isinstance(o, logging.Logger) or o is logging:
        return None
    if isinstance(o, re.Pattern):
        return re_method(eng, st, o, name, args)
    if isinstance(o, dict):
        return dict_method(eng, st, o, name, args)
    if isinstance(o, (list, tuple, str)):
        return call_method(eng, st, o, name, args, kwargs)
    if isinstance(o, type):
        # classmethod-like builtins
        raise Unsupported('%s.%s' % (o.__name__, name))
    raise Unsupported('method %s of %r' % (name, type(o)))


def re_method(eng, st, pat, name, args):
    v = args[0]
    if isinstance(v, Union):
        return eng.dist(st, [v], lambda s, x: re_method(eng, s, pat, name, [x] + list(args[1:])))
    if v is None:
        eng.do_raise(st, ExcVal(TypeError, ('expected string',)))
    if isinstance(v, str) and name in ('findall',):
        return eng.new_list(st, CL(pat.findall(v)))
    if name == 'findall':
        return eng.new_list(st, findall_text(eng, st, pat, v))
    if name in ('match', 'search'):
        if isinstance(v, str):
            m = getattr(pat, name)(v)
            if m is None:
                return None
            return Groups([m.group(0)] + list(m.groups()))
        # an unknown string may or may not match; the groups are unknown strings
        t = to_str(v)
        b = z3.Function('re_%s<%s>' % (name, pat.pattern), z3.IntSort(), z3.BoolSort())(t)
        gs = [AStr(z3.Function('re_group%d<%s>' % (i, pat.pattern), z3.IntSort(), z3.IntSort())(t)) for i in range(pat.groups + 1)]
        eng.stubs_used.add('re.%s of pattern %r: unknown match and groups' % (name, pat.pattern))
        return mkunion([(b, Groups(gs)), (Not_(b), None)])
    if name == 'sub':
        return opaque_text(eng, 'resub', None)
    raise Unsupported('re.%s' % name)


@stub(re.findall)
def s_refindall(eng, st, args, kwargs):
    p = args[0]
    if not isinstance(p, str):
        raise Unsupported('symbolic pattern')
    return re_method(eng, st, re.compile(p), 'findall', args[1:])


@stub(re.match)
def s_rematch(eng, st, args, kwargs):
    return re_method(eng, st, re.compile(args[0]) if isinstance(args[0], str) else args[0], 'match', args[1:])


@stub(re.search)
def s_research(eng, st, args, kwargs):
    return re_method(eng, st, re.compile(args[0]) if isinstance(args[0], str) else args[0], 'search', args[1:])


# ------------------------------------------------------------------ functions
def numeric(eng, st, v, f):
    """apply f to a plain number; TypeError otherwise"""
    def g(s, x):
        if is_num(x) or is_boolv(x):
            return f(s, norm_num(x))
        eng.do_raise(s, ExcVal(TypeError, ('must be real number',)))
    return eng.dist(st, [v], g)


@stub(len)
def s_len(eng, st, args, kwargs):
    return eng.dist(st, [args[0]], lambda s, v: length(eng, s, v))


@stub(abs, math.fabs)
def s_abs(eng, st, args, kwargs):
    def f(s, v):
        if is_num(v) or is_boolv(v):
            v = norm_num(v)
            if native(v):
                return abs(v)
            return z3.If(v >= 0, v, -v)
        if isinstance(v, Cx):
            return sqrt_term(eng, s, add2(eng, s, v.re, v.im))
        if isinstance(v, Ref):
            m, _ = eng.lookup_class(v.cls, '__abs__')
            if isinstance(m, types.FunctionType):
                return eng.call(s, m, [v], {})
        eng.do_raise(s, ExcVal(TypeError, ('bad operand type for abs()',)))
    return eng.dist(st, [args[0]], f)


def add2(eng, st, a, b):
    A = lambda o, x, y: arith(eng, st, o, x, y)
    return A('Add', A('Mult', a, a), A('Mult', b, b))


SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def sqrt_term(eng, st, x):
    if native(x):
        e = exact(x)
        if e is not None and e >= 0:
            fr = fractions.Fraction(e)
            n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if n * n == fr.numerator and d * d == fr.denominator:
                return fractions.Fraction(n, d)
        x = realval(x)
    t = SQRT(x)
    eng.axiom(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    return t


@stub(math.sqrt)
def s_sqrt(eng, st, args, kwargs):
    def f(s, v):
        neg = order(eng, s, 'Lt', v, 0)
        eng.raise_if(s, neg, ExcVal(ValueError, ('math domain error',)))
        return sqrt_term(eng, s, v)
    return numeric(eng, st, args[0], f)


@stub(math.hypot)
def s_hypot(eng, st, args, kwargs):
    if len(args) != 2:
        raise Unsupported('hypot')
    return numeric(eng, st, args[0], lambda s, a: numeric(eng, s, args[1], lambda s2, b: sqrt_term(eng, s2, add2(eng, s2, a, b))))


@stub(math.isinf)
def s_isinf(eng, st, args, kwargs):
    def f(s, v):
        if native(v):
            return math.isinf(v)
        v = to_real(v)
        return Or_(eng.eq_plain(v, INF), eng.eq_plain(v, -INF))
    return numeric(eng, st, args[0], f)


@stub(math.isnan)
def s_isnan(eng, st, args, kwargs):
    return numeric(eng, st, args[0], lambda s, v: False)


def minmax(eng, st, args, kwargs, less):
    """min when less, else max"""
    if kwargs and not (set(kwargs) == {'default'}):
        raise Unsupported('min/max with keywords')
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ref) and v.cls is set:
            c = get_set(eng, st, v)
            eng.raise_if(st, Not_(c.nonempty()), ExcVal(ValueError, ('min() of empty set',)))
            eng.raise_if(st, And_(c.none, c.ne), ExcVal(TypeError, ('None not ordered',)))
            return merge(c.none, None, c.mn if less else c.mx)
        c = seq_of(eng, st, v)
        if isinstance(c, SL):
            n = z3.Length(c.term)
            eng.raise_if(st, n == 0, ExcVal(ValueError, ()))
            if not isinstance(c.elem, NumE) or c.elem.kind not in ('real', 'int'):
                raise Unsupported('min/max of a symbolic list')
            f = z3.Function('%s_%s' % ('min' if less else 'max', c.elem.kind), c.term.sort(), c.elem.sort)
            m = f(c.term)
            k = z3.Int('k!mm')
            eng.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), (m <= c.term[k]) if less else (m >= c.term[k]))))
            eng.axiom(z3.Implies(n > 0, z3.Exists([k], z3.And(0 <= k, k < n, m == c.term[k]))))
            return m
        its = gl_of(c)
        if not its:
            if 'default' in kwargs:
                return kwargs['default']
            eng.do_raise(st, ExcVal(ValueError, ('empty',)))
        if any(g is not True for g, _ in its):
            raise Unsupported('min/max of guarded list')
        args = [x for _, x in its]
    r = args[0]
    for x in args[1:]:
        r = pick(eng, st, r, x, less)
    return r


def pick(eng, st, a, b, less):
    def f(s, x, y):
        c = _cb(order(eng, s, 'Lt' if less else 'Gt', y, x))
        if isinstance(c, bool):
            return y if c else x
        return merge(c, y, x)
    return eng.dist(st, [a, b], f)


@stub(min)
def s_min(eng, st, args, kwargs):
    return minmax(eng, st, args, kwargs, True)


@stub(max)
def s_max(eng, st, args, kwargs):
    return minmax(eng, st, args, kwargs, False)


@stub(sum)
def s_sum(eng, st, args, kwargs):
    c = seq_of(eng, st, args[0])
    acc = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if isinstance(c, SL):
        if not isinstance(c.elem, NumE) or c.elem.kind not in ('real', 'int'):
            raise Unsupported('sum of a symbolic list')
        t = seqsum(eng, c.term)
        same_sums(eng, st, c.term)
        return arith(eng, st, 'Add', acc, t)
    for g, x in gl_of(c):
        y = binop(eng, st, 'Add', acc, x)
        acc = merge(g, y, acc)
    return acc


def same_sums(eng, st, t):
    """sums of as many values that are equal one by one are equal"""
    if t.get_id() not in eng.mapped_of:
        return
    _, k, n, body = eng.mapped_of[t.get_id()]
    for u in eng.sums:
        _, k2, n2, body2 = eng.mapped_of[u.get_id()]
        if u.eq(t) or body.sort() != body2.sort() or not (n.eq(n2) or eng.proves(st.pc, n == n2)):
            continue
        j = eng.fresh('j', z3.IntSort())
        a, b = z3.substitute(body, (k, j)), z3.substitute(body2, (k2, j))
        if eng.proves(st.pc + [z3.And(0 <= j, j < n)], a == b, timeout=3000) or equal_there(eng, st, j, n, a, b):
            eng.axiom(z3.Implies(z3.And([zb(p) for p in st.pc if p is not True]), seqsum(eng, t) == seqsum(eng, u)))
    eng.sums.append(t)


def equal_there(eng, st, j, n, a, b):
    """a == b, from the facts about all elements taken at place j, as a question about real numbers alone"""
    from .sym import cone, nlsat
    here = st.pc + [z3.And(0 <= j, j < n)]
    facts = []
    for f in eng.axioms + [zb(p) for p in st.pc if p is not True]:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
            g = z3.substitute_vars(f.body(), j)
            if z3.is_implies(g):
                if not mentions(g.arg(1), j) or not eng.proves(here, g.arg(0), timeout=300):
                    continue
                g = g.arg(1)
            facts.append(g)
        else:
            facts.append(f)
    memo = {}
    a, b = plain_nth(a, memo), plain_nth(b, memo)
    facts = [f if z3.is_quantifier(f) else plain_nth(f, memo) for f in facts]
    # the values of sequences given by a rule
    inline = []
    for t, k, m, body in eng.mapped_of.values():
        if eng.proves(here, j < m, timeout=300):
            inline.append((t[j], plain_nth(z3.substitute(body, (k, j)), memo)))
    for _ in range(3):
        a, b = z3.substitute(a, *inline), z3.substitute(b, *inline)
        facts = [z3.substitute(f, *inline) for f in facts]
    goal = a == b
    facts = cone(facts, goal, 2)
    names = {}
    goal = only_reals(z3.Not(goal), names)
    if goal is None:
        return False
    facts = [only_reals(f, names) for f in facts]
    return nlsat(z3.And([goal] + [f for f in facts if f is not None]), 8000)


def plain_nth(t, memo):
    """t with the parts of seq.nth that simplification brings out put together again"""
    i = t.get_id()
    if i not in memo:
        r = t
        if z3.is_app(t) and t.num_args():
            ch = [plain_nth(c, memo) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_ITE and ch[1].decl().name() == 'seq.nth_i' and ch[2].decl().name() == 'seq.nth_u':
                r = ch[1].arg(0)[ch[1].arg(1)]
            elif not all(x.eq(y) for x, y in zip(ch, t.children())):
                r = t.decl()(*ch)
        memo[i] = (r, t)
    return memo[i][0]


def only_reals(f, names):
    """f with every real term that is not arithmetic taken for a number of its own; None if other sorts remain"""
    if z3.is_quantifier(f):
        return None
    if z3.is_bool(f) or z3.is_real(f):
        k = f.decl().kind()
        if z3.is_real(f) and k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_ANUM, z3.Z3_OP_POWER):
            if f.get_id() not in names:
                names[f.get_id()] = (f, z3.FreshReal())
            return names[f.get_id()][1]
        if z3.is_bool(f) and k == z3.Z3_OP_UNINTERPRETED:
            if f.get_id() not in names:
                names[f.get_id()] = (f, z3.FreshBool())
            return names[f.get_id()][1]
        ch = [only_reals(c, names) for c in f.children()]
        if any(c is None for c in ch):
            return None
        return f.decl()(*ch) if ch else f
    return None


def seqsum(eng, t):
    """sum of a sequence of numbers: defined by its value on empty sequences, units and concatenations"""
    f = z3.Function('seqsum_%s' % t.sort().basis().name(), t.sort(), t.sort().basis())

    def ax(u):
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = u.children()
            for p in parts:
                ax(p)
            eng.axiom(f(u) == z3.Sum([f(p) for p in parts]))
        elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            eng.axiom(f(u) == u.arg(0))
        elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            ax(u.arg(1))
            ax(u.arg(2))
        elif u.get_id() in eng.mapped_of:
            # a common factor
            _, k, n, body = eng.mapped_of[u.get_id()]
            if z3.is_mul(body):
                free = [c for c in body.children() if not mentions(c, k)]
                if free and len(free) < len(body.children()):
                    rest = [c for c in body.children() if mentions(c, k)]
                    v = mapped(eng, k, n, z3.Product(rest) if len(rest) > 1 else rest[0])
                    eng.axiom(f(u) == z3.Product(free + [f(v)]))
        eng.axiom(z3.Implies(z3.Length(u) == 0, f(u) == 0))
    ax(t)
    return f(t)


@stub(any)
def s_any(eng, st, args, kwargs):
    c = seq_of(eng, st, args[0])
    if isinstance(c, SL):
        k = z3.Int('k!any%d' % uid())
        return z3.Exists([k], z3.And(0 <= k, k < z3.Length(c.term), zb(eng.truth(st, elem_at(eng, c, k)))))
    return Or_(*[And_(g, eng.truth(st, x)) for g, x in gl_of(c)])


@stub(all)
def s_all(eng, st, args, kwargs):
    c = seq_of(eng, st, args[0])
    if isinstance(c, SL):
        k = z3.Int('k!all%d' % uid())
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.Length(c.term)), zb(eng.truth(st, elem_at(eng, c, k)))))
    return And_(*[Implies_(g, eng.truth(st, x)) for g, x in gl_of(c)])


@stub(bool)
def s_bool(eng, st, args, kwargs):
    return eng.truth(st, args[0]) if args else False


@stub(float)
def s_float(eng, st, args, kwargs):
    if not args:
        return 0.0

    def f(s, v):
        if is_num(v) or is_boolv(v):
            v = norm_num(v)
            if native(v):
                return v if isinstance(v, (float, fractions.Fraction)) else fractions.Fraction(v)
            return to_real(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                eng.do_raise(s, ExcVal(ValueError, ('could not convert string to float',)))
        if isinstance(v, Text) and len(v.pieces) == 1 and isinstance(v.pieces[0][1], Num):
            return num_value(eng, v.pieces[0][1])
        if isinstance(v, Text) and len(v.pieces) == 2 and v.pieces[0][1] in ('-', '+') and isinstance(v.pieces[1][1], Num):
            x = num_value(eng, v.pieces[1][1])
            return -x if v.pieces[0][1] == '-' else x
        if isinstance(v, AStr):
            ok = z3.Function('str_isfloat', z3.IntSort(), z3.BoolSort())(v.term)
            eng.raise_if(s, Not_(ok), ExcVal(ValueError, ()))
            return z3.Function('str_float', z3.IntSort(), z3.RealSort())(v.term)
        if v is None or isinstance(v, (Ref, tuple)):
            eng.do_raise(s, ExcVal(TypeError, ('float() argument',)))
        raise Unsupported('float(%r)' % (v,))
    return eng.dist(st, [args[0]], f)


def num_value(eng, n):
    """the number denoted by a spelled number"""
    if n.spec is None or n.spec == 'r':
        return n.val
    if isinstance(n.spec, int):
        return round_term(eng, n.val, n.spec)
    return n.val


@stub(int)
def s_int(eng, st, args, kwargs):
    if not args:
        return 0
    if len(args) > 1:
        raise Unsupported('int with base')

    def f(s, v):
        if is_int(v):
            return v
        if is_boolv(v):
            return to_int(v) if is_z(v) else int(v)
        if native(v):
            return int(v)
        if is_num(v):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                eng.do_raise(s, ExcVal(ValueError, ('invalid literal for int()',)))
        if isinstance(v, (AStr, CmdPart)):
            t = to_str(v)
            ok = STRS.fun('str_isint', z3.BoolSort(), lambda x: bool(re.match(r'^\s*[-+]?[0-9]+\s*$', x)))(t)
            eng.raise_if(s, Not_(ok), ExcVal(ValueError, ('invalid literal for int()',)))
            return STRS.fun('str_int', z3.IntSort(), lambda x: int(x) if re.match(r'^\s*[-+]?[0-9]+\s*$', x) else None)(t)
        if v is None or isinstance(v, (Ref, tuple)):
            eng.do_raise(s, ExcVal(TypeError, ('int() argument',)))
        raise Unsupported('int(%r)' % (v,))
    return eng.dist(st, [args[0]], f)


@stub(str)
def s_str(eng, st, args, kwargs):
    if not args:
        return ''
    return format_value(eng, st, args[0], '')


@stub(repr)
def s_repr(eng, st, args, kwargs):
    return opaque_text(eng, 'repr', None)


@stub(format)
def s_format(eng, st, args, kwargs):
    return format_value(eng, st, args[0], args[1] if len(args) > 1 else '')


@stub(math.floor)
def s_floor(eng, st, args, kwargs):
    def f(s, v):
        if is_int(v):
            return v
        if native(v):
            return math.floor(v)
        return z3.ToInt(v)
    return numeric(eng, st, args[0], f)


@stub(math.ceil)
def s_ceil(eng, st, args, kwargs):
    def f(s, v):
        if is_int(v):
            return v
        if native(v):
            return math.ceil(v)
        return -z3.ToInt(-v)
    return numeric(eng, st, args[0], f)


def round_term(eng, x, n):
    """round(x, n) / '%.nf': nearest multiple of 10**-n (ties unspecified but a function of x)"""
    if native(x) and exact(x) is not None:
        e = fractions.Fraction(exact(x))
        s = e * 10 ** n
        if s.denominator == 1:
            return fractions.Fraction(e)
        x = realval(x)
    x = to_real(x)
    p = 10 ** n
    kf = z3.Function('rnd%d' % n, z3.RealSort(), z3.IntSort())
    k = kf(x)
    r = z3.ToReal(k) / p if n else z3.ToReal(k)
    d = x * p - z3.ToReal(k)
    eng.axiom(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2)))
    return r


@stub(round)
def s_round(eng, st, args, kwargs):
    n = args[1] if len(args) > 1 else kwargs.get('ndigits')

    def f(s, v):
        if n is None:
            if is_int(v):
                return v
            if native(v):
                return round(v)
            t = round_term(eng, v, 0)
            return t.arg(0) if is_z(t) and t.decl().kind() == z3.Z3_OP_TO_REAL else z3.ToInt(to_real(t))
        if not isinstance(n, int):
            raise Unsupported('round to a symbolic number of digits')
        if is_int(v) and n >= 0:
            return v
        return round_term(eng, v, n)
    return numeric(eng, st, args[0], f)


@stub(pow)
def s_pow(eng, st, args, kwargs):
    return binop(eng, st, 'Pow', args[0], args[1])


@stub(math.sin)
def s_sin(eng, st, args, kwargs):
    def f(s, v):
        v = to_real(v)
        t = z3.Function('sin', z3.RealSort(), z3.RealSort())(v)
        pi = z3.RealVal('3.141592653589793')
        eng.axiom(z3.And(t <= 1, t >= -1))
        eng.axiom(z3.Implies(z3.And(v > 0, v < pi), z3.And(t > 0, t < v)))
        eng.axiom(z3.Implies(z3.And(v < 0, v > -pi), z3.And(t < 0, t > v)))
        eng.axiom(z3.Implies(v == 0, t == 0))
        return t
    return numeric(eng, st, args[0], f)


@stub(math.cos)
def s_cos(eng, st, args, kwargs):
    def f(s, v):
        v = to_real(v)
        t = z3.Function('cos', z3.RealSort(), z3.RealSort())(v)
        eng.axiom(z3.And(t <= 1, t >= -1))
        return t
    return numeric(eng, st, args[0], f)


PHASE = z3.Function('phase', z3.RealSort(), z3.RealSort(), z3.RealSort())


@stub(cmath.phase)
def s_phase(eng, st, args, kwargs):
    def f(s, v):
        v = to_cx(v)
        t = PHASE(to_real(v.re), to_real(v.im))
        pi = z3.RealVal('3.141592653589793')
        eng.axiom(z3.And(t <= pi, t >= -pi))
        return t
    return eng.dist(st, [args[0]], f)


@stub(math.atan2)
def s_atan2(eng, st, args, kwargs):
    return s_phase(eng, st, [Cx(args[1], args[0])], {})


@stub(complex)
def s_complex(eng, st, args, kwargs):
    args = args + [0] * (2 - len(args))

    def f(s, a, b):
        if not (is_num(a) and is_num(b)):
            if isinstance(a, Cx) and native(b) and b == 0:
                return a
            eng.do_raise(s, ExcVal(TypeError, ('complex()',)))
        return Cx(a, b)
    return eng.dist(st, args[:2], f)


@stub(decimal.Decimal)
def s_decimal(eng, st, args, kwargs):
    if not args:
        return fractions.Fraction(0)

    def f(s, v):
        if is_num(v):
            if native(v):
                e = exact(v)
                return fractions.Fraction(e) if e is not None else v
            return to_real(v)
        if isinstance(v, str):
            try:
                return fractions.Fraction(v)
            except ValueError:
                eng.do_raise(s, ExcVal(decimal.InvalidOperation, ()))
        if is_boolv(v):
            return fractions.Fraction(int(v)) if isinstance(v, bool) else to_real(v)
        eng.do_raise(s, ExcVal(TypeError, ('Decimal()',)))
    return eng.dist(st, [args[0]], f)


@stub(operator.truediv)
def s_truediv(eng, st, args, kwargs):
    return binop(eng, st, 'Div', args[0], args[1])


for _f, _o in ((operator.add, 'Add'), (operator.sub, 'Sub'), (operator.mul, 'Mult'), (operator.floordiv, 'FloorDiv')):
    STUBS[_f] = (lambda _o: lambda eng, st, args, kwargs: binop(eng, st, _o, args[0], args[1]))(_o)


@stub(list)
def s_list(eng, st, args, kwargs):
    return eng.new_list(st, seq_of(eng, st, args[0]) if args else CL(()))


@stub(array.array)
def s_array(eng, st, args, kwargs):
    # array('I', iterable): a list of non-negative integers
    return eng.new_list(st, seq_of(eng, st, args[1]) if len(args) > 1 else CL(()))


@stub(tuple)
def s_tuple(eng, st, args, kwargs):
    if not args:
        return ()
    c = seq_of(eng, st, args[0])
    if isinstance(c, CL):
        return tuple(c.items)
    raise Unsupported('tuple of a symbolic list')


@stub(dict)
def s_dict(eng, st, args, kwargs):
    d = dict(dict_of(eng, st, args[0])) if args else {}
    d.update(kwargs)
    r = eng.new_ref(dict)
    st.heap[('dict', '#d')] = Write(eng.heap_node(st.heap, ('dict', '#d')), r, SymDict(d))
    return r


@stub(vars)
def s_vars(eng, st, args, kwargs):
    raise Unsupported('vars()')


@stub(sorted)
def s_sorted(eng, st, args, kwargs):
    v = args[0]
    h = eng.summaries.get(sorted)
    if isinstance(v, (list, tuple)) or isinstance(v, GItems):
        pass
    if isinstance(v, Ref) and v.cls is set and not kwargs and get_set(eng, st, v).items is None:
        sv = get_set(eng, st, v)
        eng.raise_if(st, And_(sv.none, sv.ne), ExcVal(TypeError, ('None not ordered',)))
        if sv.none is not False and eng.feasible(st.pc, sv.none):
            raise Unsupported('sorted set with None')
        return eng.new_list(st, sorted_set(eng, sv))
    c = seq_of(eng, st, v)
    if isinstance(c, CL) and len(c.items) <= 1:
        return eng.new_list(st, c)
    if isinstance(c, CL) and all(isinstance(x, (int, float, str)) for x in c.items) and not kwargs:
        return eng.new_list(st, CL(sorted(c.items)))
    if isinstance(c, CL) and not kwargs and len(c.items) <= 5 and all(is_num(x) for x in c.items):
        its = list(c.items)
        for i in range(len(its)):
            for j in range(len(its) - 1 - i):
                a, b = its[j], its[j + 1]
                sw = _cb(order(eng, st, 'Lt', b, a))
                its[j], its[j + 1] = merge(sw, b, a), merge(sw, a, b)
        return eng.new_list(st, CL(its))
    if isinstance(c, GL) and not kwargs and len(c.items) <= 5:
        its = []
        for g, x in c.items:
            if isinstance(x, Union):
                cs = [(h, y) for h, y in x.cases if eng.feasible(st.pc, And_(g, h))]
                x = cs[0][1] if len(cs) == 1 else Union(cs) if cs else 0
            its.append((g, x))
        if all(is_num(x) for _, x in its):
            for i in range(len(its)):
                for j in range(len(its) - 1 - i):
                    (ga, a), (gb, b) = its[j], its[j + 1]
                    sw = _cb(And_(gb, Or_(Not_(ga), order(eng, st, 'Lt', b, a))))
                    its[j], its[j + 1] = (merge(sw, gb, ga), merge(sw, b, a)), (merge(sw, ga, gb), merge(sw, a, b))
            return eng.new_list(st, GL(its))
    # unknown permutation: sorted, same length, same elements (membership)
    if isinstance(c, (SL, GL)) and not kwargs:
        c = eng.to_sl(c)
        if isinstance(c.elem, NumE) and c.elem.kind in ('real', 'int'):
            t = z3.Function('sorted_%s' % c.elem.kind, c.term.sort(), c.term.sort())(c.term)
            n = z3.Length(c.term)
            i, j = z3.Ints('i!srt j!srt')
            eng.axiom(z3.Length(t) == n)
            eng.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), t[i] <= t[j])))
            p = z3.Function('perm_%s' % c.elem.kind, c.term.sort(), z3.IntSort(), z3.IntSort())
            eng.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(c.term, i), p(c.term, i) < n,
                                                                             t[p(c.term, i)] == c.term[i]))))
            return eng.new_list(st, SL(t, c.elem, eng.alloc))
    raise Unsupported('sorted()')


@stub(isinstance)
def s_isinstance(eng, st, args, kwargs):
    cl = args[1] if isinstance(args[1], tuple) else (args[1],)

    def f(s, v):
        return any(inst(v, c) for c in cl)
    v = args[0]
    if isinstance(v, Union):
        return Or_(*[And_(g, f(st, x)) for g, x in v.cases])
    return f(st, v)


def inst(v, c):
    if isinstance(v, Ref):
        return issubclass(v.cls, c)
    if v is None:
        return c in (type(None), object)
    if is_boolv(v):
        return c in (bool, int, object)
    if isinstance(v, Cx):
        return c in (complex, object)
    if is_int(v):
        return c in (int, object)
    if is_num(v):
        return c in (float, object)
    if is_strv(v):
        return c in (str, object)
    if isinstance(v, ExcVal):
        return issubclass(v.cls, c)
    if isinstance(v, (Closure, Bound, BuiltinMethod)):
        return c is object
    return isinstance(v, c)


@stub(issubclass)
def s_issubclass(eng, st, args, kwargs):
    return issubclass(args[0], args[1])


@stub(type)
def s_type(eng, st, args, kwargs):
    if len(args) != 1:
        raise Unsupported('type()')

    def f(s, v):
        if isinstance(v, Ref):
            return v.cls
        if is_strv(v):
            return str
        if is_boolv(v):
            return bool
        if is_int(v):
            return int
        if is_num(v):
            return float
        return type(v)
    v = args[0]
    if isinstance(v, Union):
        return mkunion([(g, f(st, x)) for g, x in v.cases])
    return f(st, v)


@stub(callable)
def s_callable(eng, st, args, kwargs):
    v = args[0]
    return isinstance(v, (Closure, Bound, BuiltinMethod, types.FunctionType, type, types.BuiltinFunctionType))


@stub(getattr)
def s_getattr(eng, st, args, kwargs):
    if len(args) == 3:
        base = len(st.pc)
        eng.rstack.append([])
        s = st.copy()
        try:
            try:
                v = attr_by_name(eng, s, args[0], args[1])
                ok = True
            except Dead_():
                ok = False
        finally:
            raised = eng.rstack.pop()
        outs = [(s, v)] if ok else []
        for s1, exc in raised:
            if issubclass(exc.cls, AttributeError):
                s1.env = dict(st.env)
                outs.append((s1, args[2]))
            else:
                eng.rstack[-1].append((s1, exc))
        m, r = eng.merge_all(base, outs)
        st.set(m)
        return r
    return attr_by_name(eng, st, args[0], args[1])


def attr_by_name(eng, st, o, nm):
    if isinstance(nm, str):
        return eng.getattr_(st, o, nm)
    return with_name(eng, st, nm, lambda s, n: eng.getattr_(s, o, n))


def with_name(eng, st, nm, f):
    """dispatch on the literals an attribute name may be"""
    if isinstance(nm, Union):
        return eng.dist(st, [nm], lambda s, x: f(s, x) if isinstance(x, str) else with_name(eng, s, x, f))
    t = to_str(nm)
    cands = []
    for lit in list(STRS.lit):
        if lit.isidentifier() and len(lit) <= 2:
            c = t == STRS.intern(lit)
            if eng.feasible(st.pc, c):
                cands.append((c, lit))
    rest = And_(*[Not_(c) for c, _ in cands])
    if eng.feasible(st.pc, rest):
        raise Unsupported('attribute of unknown name')
    return eng.branch(st, [(c, lambda s, l=l: f(s, l)) for c, l in cands])


@stub(setattr)
def s_setattr(eng, st, args, kwargs):
    if isinstance(args[1], str):
        return eng.setattr_(st, args[0], args[1], args[2])
    return with_name(eng, st, args[1], lambda s, n: eng.setattr_(s, args[0], n, args[2]))


@stub(hasattr)
def s_hasattr(eng, st, args, kwargs):
    s = st.copy()
    eng.rstack.append([])
    try:
        try:
            eng.getattr_(s, args[0], args[1])
            ok = True
        except Dead_():
            ok = False
    finally:
        r = eng.rstack.pop()
    if not r:
        return ok
    if not ok:
        return False
    return And_(*[Not_(And_(*x.pc[len(st.pc):])) for x, _ in r])


@stub(id)
def s_id(eng, st, args, kwargs):
    if isinstance(args[0], Ref):
        return args[0].ident
    raise Unsupported('id()')


@stub(map)
def s_map(eng, st, args, kwargs):
    if len(args) != 2:
        raise Unsupported('map')
    d = iterate(eng, st, args[1])
    if isinstance(d, (list, tuple)):
        out = GItems()
        for g, x in d:
            if g is True:
                out.append((True, eng.call(st, args[0], [x], {})))
            else:
                raise Unsupported('map over guarded list')
        return out
    raise Unsupported('map over symbolic list')


@stub(filter)
def s_filter(eng, st, args, kwargs):
    d = iterate(eng, st, args[1])
    if isinstance(d, (list, tuple)):
        out = GItems()
        for g, x in d:
            t = eng.truth(st, x if args[0] is None else eng.call(st, args[0], [x], {}))
            out.append((And_(g, t), x))
        return out
    raise Unsupported('filter over symbolic list')


@stub(itertools.chain)
def s_chain(eng, st, args, kwargs):
    c = CL(())
    for a in args:
        c = concat(eng, c, seq_of(eng, st, a))
    return make_iterator(eng, st, eng.new_list(st, c))


@stub(itertools.chain.from_iterable)
def s_chain_from(eng, st, args, kwargs):
    d = iterate(eng, st, args[0])
    if isinstance(d, (list, tuple)) and all(g is True for g, _ in d):
        return s_chain(eng, st, [x for _, x in d], {})
    raise Unsupported('chain over symbolic list')


@stub(itertools.islice)
def s_islice(eng, st, args, kwargs):
    c = seq_of(eng, st, args[0])
    l = eng.new_list(st, c)
    sl = slice(*args[1:]) if len(args) > 2 else slice(None, args[1])
    return make_iterator(eng, st, getitem(eng, st, l, sl))


@stub(functools.reduce)
def s_reduce(eng, st, args, kwargs):
    d = iterate(eng, st, args[1])
    if isinstance(d, (list, tuple)) and all(g is True for g, _ in d):
        its = [x for _, x in d]
        acc = args[2] if len(args) > 2 else its.pop(0)
        for x in its:
            acc = eng.call(st, args[0], [acc, x], {})
        return acc
    raise Unsupported('reduce over symbolic list')


@stub(copy.copy)
def s_copy(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and issubclass(v.cls, list):
        return eng.new_list(st, eng.items(st, v), v.cls)
    if isinstance(v, Ref):
        f, _ = eng.lookup_class(v.cls, '__copy__')
        if isinstance(f, types.FunctionType):
            return eng.call(st, f, [v], {})
    raise Unsupported('copy of %r' % (v,))


def nop(eng, st, args, kwargs):
    return None


for _n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'basicConfig'):
    if hasattr(logging, _n):
        STUBS[getattr(logging, _n)] = nop


@stub(logging.getLogger)
def s_getlogger(eng, st, args, kwargs):
    return logging.getLogger('pydv')


@stub(print)
def s_print(eng, st, args, kwargs):
    f = kwargs.get('file', sys.stdout)
    if f is None or f is sys.stdout or f is sys.stderr:
        return None
    if isinstance(f, Ref):
        sep = kwargs.get('sep', ' ')
        end = kwargs.get('end', '\n')
        t = ''
        for i, a in enumerate(args):
            if i:
                t = str_cat(eng, t, sep)
            x = format_value(eng, st, a, '')
            if isinstance(x, Union):
                raise Unsupported('print of a union')
            t = str_cat(eng, t, x)
        m, _ = eng.lookup_class(f.cls, 'print_line')
        if isinstance(m, types.FunctionType) and end == '\n':
            eng.call(st, m, [f, t], {})
            return None
        m, _ = eng.lookup_class(f.cls, 'write')
        if isinstance(m, types.FunctionType):
            eng.call(st, m, [f, str_cat(eng, t, end)], {})
            return None
    raise Unsupported('print to %r' % (f,))


@stub(datetime.timedelta)
def s_timedelta(eng, st, args, kwargs):
    if set(kwargs) == {'seconds'} and not args:
        import importlib
        return eng.instantiate(st, importlib.import_module('contracts.ref').Seconds, [kwargs['seconds']], {})
    raise Unsupported('timedelta')


@stub(object.__init__)
def s_objinit(eng, st, args, kwargs):
    return None


@stub(list.append)
def s_lappend(eng, st, args, kwargs):
    return list_append(eng, st, *args)


@stub(list.__init__)
def s_linit(eng, st, args, kwargs):
    return list___init__(eng, st, *args)


@stub(NotImplemented.__class__)
def s_ni(eng, st, args, kwargs):
    return NotImplemented
