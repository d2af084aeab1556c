"""Persistent heap: one attribute map per (family, attribute), built from writes, merges and havocs."""
import z3
from .values import (And_, Not_, Or_, Ref, Union, Unsupported, merge, mkunion, zb, same, family, CL, SL, GL)


class _Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
LISTFAM = 'list'


class Node(object):
    __slots__ = ('memo',)


class Base(Node):
    """initial map: typed for pre-existing (symbolic) objects, UNDEF for allocated ones"""
    __slots__ = ('name', 'typ', 'eng')

    def __init__(self, name, typ, eng):
        self.name, self.typ, self.eng, self.memo = name, typ, eng, {}


class Write(Node):
    __slots__ = ('parent', 'ref', 'val')

    def __init__(self, parent, ref, val):
        self.parent, self.ref, self.val, self.memo = parent, ref, val, {}


class Ite(Node):
    __slots__ = ('g', 'a', 'b')

    def __init__(self, g, a, b):
        self.g, self.a, self.b, self.memo = g, a, b, {}


class Havoc(Node):
    """after a loop cut: the objects in `conc` (id -> value) have new values; if `old`, so have pre-existing
    objects known only symbolically (except the identities in `notin`); if `new`, the loop also wrote to objects
    it allocated, so a reference that may denote one of them has an unknown value"""
    __slots__ = ('parent', 'conc', 'name', 'typ', 'notin', 'eng', 'old', 'new', 'alloc', 'home')

    def __init__(self, parent, conc, old, new, name, typ, notin, eng, alloc, home=None):
        self.home = home        # input list whose elements are the only pre-existing objects written
        self.parent, self.conc, self.name, self.typ, self.notin, self.eng = parent, conc, name, typ, notin, eng
        self.old, self.new, self.alloc = old, new, alloc
        self.memo = {}


def read(node, ref):
    k = ref.key()
    k = (k, ref.asof)
    if k in node.memo:
        return node.memo[k][0]
    # iterative for long write chains
    v = _read(node, ref)
    node.memo[k] = (v, ref)       # keep ref alive so that term ids stay unique
    return v


INPUTS = [set()]


def place_in_input(t):
    """(list, index) of an element of a list given to the contract"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_NTH:
        s = t.arg(0)
        if z3.is_const(s) and s.decl().name() in INPUTS[0]:
            return s, t.arg(1)
    if z3.is_const(t) and ('one', t.decl().name()) in INPUTS[0]:
        return t, z3.IntVal(0)
    return None


def maybe_same(r1, r2):
    """True / False / z3 condition: do the two references denote the same object?"""
    i1, i2 = r1.ident, r2.ident
    if isinstance(i1, int) and isinstance(i2, int):
        return i1 == i2
    if not isinstance(i1, int) and not isinstance(i2, int) and i1.eq(i2):
        return True
    for a, b in ((r1, r2), (r2, r1)):
        if isinstance(a.ident, int) and not isinstance(b.ident, int):
            # b read from a structure that existed before `asof`: it cannot be an object allocated later
            if b.asof is not None and a.ident >= b.asof:
                return False
    t1, t2 = r1.term(), r2.term()
    a, b = place_in_input(t1), place_in_input(t2)
    if a is not None and b is not None:
        # the lists given to a contract hold distinct objects
        if not a[0].eq(b[0]):
            return False
        i, j = z3.simplify(a[1]), z3.simplify(b[1])
        if z3.is_int_value(i) and z3.is_int_value(j):
            return i.as_long() == j.as_long()
        return i == j
    return z3.simplify(t1 == t2) if False else (t1 == t2)


def _read(node, ref):
    if isinstance(node, Base):
        if isinstance(ref.ident, int):
            return UNDEF
        if node.typ is None:
            return UNDEF
        return node.eng.fresh_fn(node.name, node.typ, ref.ident)
    if isinstance(node, Write):
        c = maybe_same(node.ref, ref)
        if c is True:
            return node.val
        if c is False:
            return read(node.parent, ref)
        return merge(c, node.val, read(node.parent, ref))
    if isinstance(node, Ite):
        return merge(node.g, read(node.a, ref), read(node.b, ref))
    if isinstance(node, Havoc):
        if isinstance(ref.ident, int):
            if ref.ident in node.conc:
                return node.conc[ref.ident]
            return read(node.parent, ref)
        if any(t.eq(ref.ident) for t in node.notin):
            return read(node.parent, ref)
        maybe_new = node.new and (ref.asof is None or ref.asof > node.alloc)
        if not maybe_new and node.home is not None and elsewhere(node.eng, node.home, ref.ident):
            return read(node.parent, ref)
        if node.old or maybe_new:
            return node.eng.fresh_fn(node.name, node.typ, ref.ident)
        v = read(node.parent, ref)
        for i, w in node.conc.items():
            c = maybe_same(Ref(ref.cls, i), ref)
            if c is not False:
                v = merge(c, w, v)
        return v
    raise AssertionError(node)


def elsewhere(eng, home, ident):
    """is the object an element of another input list? (the input lists of a contract are disjoint)"""
    if not z3.is_app(ident) or ident.decl().kind() != z3.Z3_OP_SEQ_NTH:
        return False
    s = ident.arg(0)
    return z3.is_const(s) and not s.eq(home) and s.decl().name() in eng.input_seqs


def conc_writes(node, stop):
    """set of refs written between node and stop (a node of the entry heap)"""
    out = {}
    seen = set()
    stack = [node]
    while stack:
        n = stack.pop()
        if n is stop or id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, Write):
            out[n.ref.key()] = n.ref
            stack.append(n.parent)
        elif isinstance(n, Ite):
            stack.append(n.a)
            stack.append(n.b)
        elif isinstance(n, Havoc):
            for i in n.conc:
                out[i] = Ref(object, i)
            if n.old:
                out['old'] = None
            if n.new:
                out['new'] = None
            stack.append(n.parent)
    return out
