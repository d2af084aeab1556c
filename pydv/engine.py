"""Symbolic executor / verification-condition generator over the real Python AST."""
import ast
import builtins
import inspect
import os
import re
import sys
import time
import types
import z3
from .values import *
from .values import _cb
from . import values as V
from . import heap as H
from .heap import UNDEF, read, Write, Ite, Base, Havoc, LISTFAM

sys.setrecursionlimit(100000)

UNBOUND = UNDEF


class Dead(Exception):
    """the current path condition is unsatisfiable"""


class ContractError(Exception):
    """a contract is malformed"""


class State(object):
    __slots__ = ('pc', 'env', 'heap')

    def __init__(self, pc, env, heap):
        self.pc, self.env, self.heap = pc, env, heap

    def copy(self):
        return State(list(self.pc), dict(self.env), dict(self.heap))

    def set(self, o):
        self.pc, self.env, self.heap = o.pc, o.env, o.heap


class Frame(object):
    def __init__(self, name, globs, cenv=None, cls=None):
        self.name, self.globs, self.cenv = name, globs, cenv
        self.cls = cls
        self.returns = []
        self.loops = []
        self.locals = None
        self.self_ref = None
        self.nonlocals = set()


class LoopCtx(object):
    def __init__(self):
        self.breaks = []
        self.continues = []


class Obligation(object):
    def __init__(self, name, pc, cond, where, cuts):
        self.name, self.pc, self.cond, self.where, self.cuts = name, pc, cond, where, cuts
        self.status = None
        self.model = None
        self.time = 0.0
        self.backend = None


class FuncIndex(object):
    """AST of a function object, found in the file its code comes from"""
    def __init__(self):
        self.files = {}

    def _load(self, fn):
        if fn not in self.files:
            with open(fn, 'rb') as f:
                src = f.read()
            tree = ast.parse(src, fn)
            idx = {}
            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    line = node.lineno
                    if isinstance(node, ast.FunctionDef) and node.decorator_list:
                        line = min(d.lineno for d in node.decorator_list)
                    nm = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
                    idx.setdefault((nm, line), node)
            self.files[fn] = idx
        return self.files[fn]

    def find(self, func):
        co = func.__code__
        idx = self._load(co.co_filename)
        n = idx.get((co.co_name, co.co_firstlineno))
        if n is None:
            raise Unsupported('no source for %s' % func.__qualname__)
        return n


_assigned_cache = {}


def assigned_names(node):
    """names bound inside a function body (locals)"""
    i = id(node)
    if i in _assigned_cache:
        return _assigned_cache[i][1]
    out = set()
    body = node.body if isinstance(node.body, list) else [node.body]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for b in body:
        visit(b)
    for n in ast.walk(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    _assigned_cache[i] = (node, out)
    return out


def is_generator(node):
    def visit(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        return any(visit(c) for c in ast.iter_child_nodes(n))
    return any(visit(b) for b in node.body) if isinstance(node.body, list) else False


def numeral_term(t):
    return z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS) and numeral_term(t.arg(0))


class Engine(object):
    def __init__(self, roots, timeout_ms=10000):
        self.roots = [os.path.realpath(r) for r in roots]
        self.index = FuncIndex()
        self.alloc = 1000000
        self.axioms = []
        self.ax_seen = set()
        self.rstack = [[]]
        self.obls = []
        self.dry = 0
        self.funcs_used = {}
        self.stubs_used = set()
        self.assumed = set()
        self.schema = {}
        self.fn_cache = {}
        self.inputs = []
        self.summaries = {}
        self.input_seqs = H.INPUTS[0] = set()
        self.seq_terms = []
        self.must_end = False
        self.observers = {}
        self.ctor_observers = {}
        self.call_observers = {}
        self.depth = 0
        self.n_feas = 0
        self.t_feas = 0.0
        self.cut_ids = set()
        self.cuts = []
        self.nested_flag = [False]
        self.timeout_ms = timeout_ms
        self.feas_timeout = 400
        self._lin = {}
        self._lin_ax = []
        self.each = {}             # sequence term -> (what every element satisfies, kept alive)
        self.alloc_pc = {}
        self.linear_only = False
        self._fs = None
        self._fs_stack = []
        self._fs_nax = 0
        self.unroll = None
        self.unroll_limit = 400
        self.deadline = None
        self.feas_cache = {}
        self.cands_extra = []
        self.keep = []
        self.where = '?'
        self.contract_dir = '\0'
        self.misfit = None
        self.sums = []
        self.mapped_by, self.mapped_of, self.depth_map = {}, {}, 0
        self.slow = []             # invariants of the contract given up for lack of time
        self._prods = {}
        self.words = {}
        self.cls_of = {}
        self.ghost_lists = set()
        self.models = []
        self.n_model = 0
        self.loop_log = []
        self.n_inv = 0
        self.bounded_loops = False
        self.glob_stack = []
        from . import builtins_ as B
        self.B = B
        self.axiom(INF > 10 ** 9)

    # ------------------------------------------------------------ logic helpers
    def sync_axioms(self):
        while STRS.axioms:
            self.axiom(STRS.axioms.pop())

    def axiom(self, f):
        f = _cb(f)
        if f is True:
            return
        i = f.get_id() if not isinstance(f, bool) else f
        if i not in self.ax_seen:
            self.ax_seen.add(i)
            self.axioms.append(f)

    flats = ()

    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, uid()), sort)

    def fresh_fn(self, name, typ, ident):
        """value of type `typ` as a function of an identity term"""
        key = (name, ident.get_id())
        if key in self.fn_cache:
            return self.fn_cache[key][0]

        def mk(suffix, sort):
            return z3.Function('%s.%s' % (name, suffix), z3.IntSort(), sort)(ident)
        # (what a schema derives from the text of a line holds of the line as it was given)
        mk.ident = None if '!' in name else ident
        v = typ.fresh(mk, self)
        if isinstance(v, SL) and v.asof is None:
            v.asof = self.alloc
        self.fn_cache[key] = (v, ident)
        return v

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')

    def _solver(self, pc):
        """solver whose assertion stack is axioms + pc"""
        self.sync_axioms()
        if self._fs is None:
            self._fs = z3.Solver()
            self._fs_stack = []
            self._fs_nax = 0
        s = self._fs
        ids = [zb(p).get_id() for p in pc]
        n = 0
        while n < len(ids) and n < len(self._fs_stack) and self._fs_stack[n] == ids[n]:
            n += 1
        if self._fs_nax < len(self.axioms):
            if len(self._fs_stack):
                s.pop(len(self._fs_stack))
                self._fs_stack = []
            for a in self.axioms[self._fs_nax:]:
                s.add(self.linear(a))
            self._fs_nax = len(self.axioms)
            n = 0
        elif len(self._fs_stack) > n:
            s.pop(len(self._fs_stack) - n)
            del self._fs_stack[n:]
        for p in pc[n:]:
            s.push()
            s.add(self.linear(zb(p)))
        self._fs_stack.extend(ids[n:])
        return s

    def linear(self, t):
        """t with products and quotients of unknowns replaced by arbitrary numbers: what the pruning of paths looks at"""
        memo = self._lin
        i = t.get_id()
        if i in memo:
            return memo[i]
        todo = [t]
        while todo:
            x = todo[-1]
            xi = x.get_id()
            if xi in memo:
                todo.pop()
                continue
            if z3.is_quantifier(x):
                memo[xi] = z3.FreshConst(z3.BoolSort())
                self.keep.append(x)
                continue
            if not z3.is_app(x) or not x.num_args():
                memo[xi] = x
                self.keep.append(x)
                continue
            ch = x.children()
            rest = [c for c in ch if c.get_id() not in memo]
            if rest:
                todo.extend(rest)
                continue
            k = x.decl().kind()
            if (k == z3.Z3_OP_MUL and sum(not numeral_term(c) for c in ch) > 1
                    or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER) and not numeral_term(ch[1])):
                if k == z3.Z3_OP_MUL:
                    memo[xi] = c = self.product(x)
                else:
                    memo[xi] = c = z3.FreshConst(x.sort())
                self.signs(k, c, [memo[y.get_id()] for y in ch])
            else:
                new = [memo[c.get_id()] for c in ch]
                memo[xi] = x if all(a is b or a.eq(b) for a, b in zip(ch, new)) else x.decl()(*new)
            self.keep.append(x)
        return memo[i]

    def product(self, x):
        """a product, up to the order of its factors"""
        todo, fs, q = [x], [], None
        while todo:
            y = todo.pop()
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MUL:
                todo.extend(y.children())
            elif numeral_term(y):
                q = y if q is None else z3.simplify(q * y)
            else:
                fs.append(y)
        self.keep.extend(fs)
        key = (x.sort().name(),) + tuple(sorted(f.get_id() for f in fs))
        if key not in self._prods:
            self._prods[key] = z3.FreshConst(x.sort())
        c = self._prods[key]
        return c if q is None else q * c

    def signs(self, k, c, ch):
        """what the sign rules say about a product or quotient replaced by c"""
        if len(ch) != 2 or k not in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            return
        x, y = ch
        ax = self._lin_ax
        if k == z3.Z3_OP_MUL:
            ax.append(z3.Implies(z3.Or(x == 0, y == 0), c == 0))
            ax.append(z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), c > 0))
            ax.append(z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), c < 0))
        else:
            ax.append(z3.Implies(z3.And(x == 0, y != 0), c == 0))
            ax.append(z3.Implies(z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)), c > 0))
            ax.append(z3.Implies(z3.Or(z3.And(x > 0, y < 0), z3.And(x < 0, y > 0)), c < 0))

    def add_linear(self, s, fs):
        """assert the formulas in their linear form, with the sign rules of what it leaves out"""
        fs = [self.linear(f) for f in fs]
        have = getattr(s, 'signs', 0)
        for f in fs + self._lin_ax[have:]:
            s.add(f)
        s.signs = len(self._lin_ax)

    def feasible(self, pc, *extra):
        """may pc and extra hold together? (unknown counts as yes)"""
        cond = And_(*extra) if extra else True
        if cond is False:
            return False
        pcs = [p for p in pc if p is not True]
        if any(p is False for p in pcs):
            return False
        if extra:
            ids = {p.get_id() for p in pcs}
            if cond is not True:
                cs = cond.children() if z3.is_and(cond) else [cond]
                if all(c.get_id() in ids for c in cs):
                    return True
                for c in cs:
                    nc = Not_(c)
                    if not isinstance(nc, bool) and nc.get_id() in ids:
                        return False
        key = (tuple(p.get_id() for p in pcs), cond if isinstance(cond, bool) else cond.get_id(), len(self.axioms))
        if key in self.feas_cache:
            return self.feas_cache[key]
        self.check_deadline()
        t = time.time()
        self.keep.append(cond)
        self.keep.append(pcs)
        if self.known_model(pcs, cond):
            self.feas_cache[key] = True
            self.n_model += 1
            self.t_feas += time.time() - t
            return True
        s = self._solver(pcs)
        s.set('timeout', 25 if self.linear_only else self.feas_timeout)
        r = s.check(*([self.linear(cond)] if cond is not True else []))
        if r == z3.sat:
            self.models.insert(0, [s.model(), {}, 0])
            del self.models[24:]
        self.n_feas += 1
        self.t_feas += time.time() - t
        res = r != z3.unsat
        self.feas_cache[key] = res
        return res

    def known_model(self, pcs, cond):
        """is a model found earlier also a model of this query?"""
        self.sync_axioms()
        dead = []
        try:
            for rec in self.models:
                m, memo, nax = rec
                ok = True
                while rec[2] < len(self.axioms):
                    if not z3.is_true(m.eval(self.axioms[rec[2]], model_completion=True)):
                        ok = False
                        dead.append(rec)
                        break
                    rec[2] += 1
                if not ok:
                    continue
                for p in pcs + ([cond] if cond is not True else []):
                    i = p.get_id()
                    v = memo.get(i)
                    if v is None:
                        v = memo[i] = z3.is_true(m.eval(p, model_completion=True))
                        self.keep.append(p)
                    if not v:
                        ok = False
                        break
                if ok:
                    return True
            return False
        finally:
            for rec in dead:
                self.models.remove(rec)

    def entails(self, pc, cond):
        cond = _cb(cond)
        if cond is True:
            return True
        return not self.feasible(pc, Not_(cond))

    def assume_(self, st, cond):
        cond = _cb(cond)
        if cond is True:
            return
        if cond is False or not self.feasible(st.pc, cond):
            raise Dead()
        if z3.is_and(cond):
            for c in cond.children():
                st.pc.append(c)
        else:
            st.pc.append(cond)

    # ------------------------------------------------------------ exceptions
    def raise_if(self, st, cond, exc):
        """record an exceptional exit taken when cond holds; continue with its negation"""
        cond = _cb(cond)
        if cond is False:
            return
        exc.where = exc.where or self.where
        if cond is True or self.feasible(st.pc, cond):
            s2 = st.copy()
            if cond is not True:
                s2.pc.append(cond)
            self.rstack[-1].append((s2, exc))
            if cond is True:
                raise Dead()
            self.assume_(st, Not_(cond))
        else:
            pass

    def do_raise(self, st, exc):
        if isinstance(exc, ExcVal):
            exc.where = exc.where or self.where
        self.rstack[-1].append((st.copy(), exc))
        raise Dead()

    # ------------------------------------------------------------ forking and merging
    def merge_nodes(self, g, a, b):
        if a is b:
            return a
        return Ite(g, a, b)

    def heap_node(self, heap, key):
        n = heap.get(key)
        if n is None:
            fam, attr = key
            n = self.base_nodes.get(key) if hasattr(self, 'base_nodes') else None
            if n is None:
                if not hasattr(self, 'base_nodes'):
                    self.base_nodes = {}
                t = self.schema.get((fam, attr))
                n = Base('%s.%s' % (getattr(fam, '__name__', fam), attr), t, self)
                self.base_nodes[key] = n
        return n

    def merge2(self, base, g, s1, v1, s2, v2):
        """merge state/value pairs; g holds on the first and not on the second; `base` is the common pc length"""
        e1, e2 = s1.pc[base:], s2.pc[base:]
        pc = s1.pc[:base]
        o = Or_(And_(*e1), And_(*e2))
        if o is not True:
            if not isinstance(o, bool) and z3.is_and(o):
                pc = pc + o.children()
            else:
                pc = pc + [o]
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else self.mergev(g, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                heap[k] = a
            else:
                if a is None:
                    a = self.heap_node(s1.heap, k)
                if b is None:
                    b = self.heap_node(s2.heap, k)
                heap[k] = self.merge_nodes(g, a, b)
        return State(pc, env, heap), (None if v1 is None and v2 is None else self.mergev(g, v1, v2))

    def mergev(self, g, a, b):
        if isinstance(a, (CL, GL)) and isinstance(b, SL):
            a = self.to_sl(a, b.elem)
        elif isinstance(b, (CL, GL)) and isinstance(a, SL):
            b = self.to_sl(b, a.elem)
        return merge(g, a, b)

    def merge_all(self, base, outs):
        """outs: list of (state, value) with mutually exclusive path conditions extending the first `base` conjuncts"""
        if not outs:
            raise Dead()
        s, v = outs[-1]
        for s1, v1 in reversed(outs[:-1]):
            g = And_(*s1.pc[base:])
            s, v = self.merge2(base, g, s1, v1, s, v)
        return s, v

    def branch(self, st, alts):
        """alts: [(guard, fn)] with exclusive guards covering st; runs fn(state) on each feasible one, merges"""
        live = []
        for g, fn in alts:
            g = _cb(g)
            if g is False:
                continue
            if g is True:
                live = [(g, fn)]
                break
            live.append((g, fn))
        if len(live) > 1:
            live = [(g, fn) for g, fn in live if self.feasible(st.pc, g)]
        if not live:
            raise Dead()
        if len(live) == 1:
            return live[0][1](st)
        base = len(st.pc)
        outs = []
        for g, fn in live:
            s = st.copy()
            if z3.is_and(g):
                s.pc.extend(g.children())
            else:
                s.pc.append(g)
            try:
                v = fn(s)
            except Dead:
                continue
            outs.append((s, v, g))
        if not outs:
            raise Dead()
        s, v, _ = outs[-1]
        for s1, v1, g in reversed(outs[:-1]):
            s, v = self.merge2(base, g, s1, v1, s, v)
        st.set(s)
        return v

    def dist(self, st, vals, fn):
        """apply fn(state, *plain values) over the union cases of vals"""
        for i, v in enumerate(vals):
            if isinstance(v, Union):
                def mkalt(w):
                    nv = list(vals)
                    nv[i] = w
                    return lambda s: self.dist(s, nv, fn)
                return self.branch(st, [(g, mkalt(w)) for g, w in v.cases])
        return fn(st, *vals)

    # ------------------------------------------------------------ objects
    def is_ghost(self, cls):
        m = sys.modules.get(cls.__module__)
        return bool(m) and (getattr(m, '__file__', None) or '').startswith(self.contract_dir)

    def spoken_of(self, cls, name):
        """does the module of a class of the code mention the attribute?"""
        m = sys.modules.get(cls.__module__)
        f = getattr(m, '__file__', None)
        if f not in self.words:
            with open(f) as h:
                self.words[f] = set(re.findall(r'\w+', h.read()))
        return name in self.words[f]

    def proves(self, pc, cond, timeout=3000, models=None):
        cond = _cb(cond)
        if cond is True:
            return True
        self.sync_axioms()
        s = z3.Solver()
        s.set('timeout', timeout)
        fs = self.axioms + [zb(p) for p in pc if p is not True] + [zb(Not_(cond))]
        if self.linear_only:
            self.add_linear(s, fs)
        else:
            s.add(*fs)
        t = time.time()
        r = s.check()
        self.t_feas += time.time() - t
        self.n_feas += 1
        if models is not None and r == z3.sat:
            models.append(s.model())
        return r == z3.unsat

    def lin(self, f):
        """in drivers that ask for it, invariants are inferred without multiplication of unknowns (fewer are found, none is wrong)"""
        return self.linear(f) if self.linear_only else f

    def new_ref(self, cls):
        self.alloc += 1
        self.cls_of[self.alloc] = cls
        if cls is list and self.glob_stack and (self.glob_stack[-1].get('__file__') or '').startswith(self.contract_dir):
            self.ghost_lists.add(self.alloc)
        return Ref(cls, self.alloc, None)

    def new_list(self, st, content, cls=list):
        r = self.new_ref(cls)
        self.set_items(st, r, content)
        return r

    def items(self, st, ref):
        v = read(self.heap_node(st.heap, (LISTFAM, '#items')), ref)
        if isinstance(v, Union):
            v = self.dist(st, [v], lambda s, x: x)
            if isinstance(v, Union):
                v = self.one_content(v)
        if v is UNDEF:
            raise Unsupported('content of an unknown list')
        return v

    def one_content(self, v):
        """a guarded choice of list contents as one sequence"""
        elem = None
        cases = [(g, x) for g, x in v.cases if x is not UNDEF]      # not allocated there: nobody can ask
        if len(cases) == 1:
            return cases[0][1]
        for _, x in cases:
            if not isinstance(x, (CL, GL, SL)):
                raise Unsupported('list content of mixed representation')
            if isinstance(x, SL):
                elem = join_elem(elem, x.elem)
            else:
                for _, y in gl_of(x):
                    elem = join_elem(elem, elem_of(y))
        if elem is None:
            raise Unsupported('list content of mixed representation')
        r = None
        for g, x in reversed(cases):
            t = self.to_sl(x, elem)
            if t.elem.name() != elem.name():
                raise Unsupported('list contents of several element types')
            r = t.term if r is None else z3.If(zb(g), t.term, r)
        return SL(r, elem, self.alloc)

    def set_items(self, st, ref, content):
        k = (LISTFAM, '#items')
        st.heap[k] = Write(self.heap_node(st.heap, k), ref, content)

    def to_sl(self, c, elem=None):
        if isinstance(c, SL):
            return c
        its = gl_of(c)
        if elem is None:
            e = None
            for _, x in its:
                e = join_elem(e, elem_of(x))
            elem = e
        if elem is None:
            raise Unsupported('empty list of unknown element type')
        seqs = z3.SeqSort(elem.sort)
        parts = []
        for g, x in its:
            u = z3.Unit(elem.enc(x))
            parts.append(u if g is True else z3.If(g, u, z3.Empty(seqs)))
        if not parts:
            t = z3.Empty(seqs)
        elif len(parts) == 1:
            t = parts[0]
        else:
            t = z3.Concat(*parts)
        return SL(t, elem, self.alloc)

    def raw_attr(self, st, ref, name):
        return read(self.heap_node(st.heap, (family(ref.cls), name)), ref)

    def set_attr(self, st, ref, name, val):
        k = (family(ref.cls), name)
        st.heap[k] = Write(self.heap_node(st.heap, k), ref, val)

    def getattr_(self, st, obj, name):
        if isinstance(obj, Union):
            return self.dist(st, [obj], lambda s, o: self.getattr_(s, o, name))
        if isinstance(obj, Ref):
            return self.ref_getattr(st, obj, name)
        if isinstance(obj, SuperProxy):
            mro = obj.obj.cls.__mro__
            mro = mro[mro.index(obj.cls) + 1:]
            for c in mro:
                if name in c.__dict__:
                    f = c.__dict__[name]
                    if isinstance(f, types.FunctionType):
                        return Bound(f, obj.obj)
                    if c in (list, object, dict):
                        return BuiltinMethod(name, obj.obj)
                    return self.bind_class_attr(st, f, obj.obj, c)
            self.do_raise(st, ExcVal(AttributeError, (name,)))
        if isinstance(obj, Cx):
            if name == 'real':
                return obj.re
            if name == 'imag':
                return obj.im
            raise Unsupported('complex.%s' % name)
        if isinstance(obj, ExcVal):
            if name == 'args':
                return tuple(obj.args)
            raise Unsupported('attribute of exception')
        if isinstance(obj, (Text, AStr, CmdPart)):
            return BuiltinMethod(name, obj)
        if isinstance(obj, (str, tuple, list, dict, set, frozenset)):
            if hasattr(obj, name):
                return BuiltinMethod(name, obj)
            self.do_raise(st, ExcVal(AttributeError, (name,)))
        if is_num(obj) or is_boolv(obj):
            return BuiltinMethod(name, obj)
        if obj is None:
            if name == '__class__':
                return type(None)
            self.do_raise(st, ExcVal(AttributeError, ("'NoneType' object has no attribute '%s'" % name,)))
        if obj is UNDEF:
            self.do_raise(st, ExcVal(UnboundLocalError, ()))
        if isinstance(obj, (Bound, Closure, BuiltinMethod)):
            if name == '__name__':
                return getattr(obj, 'name', None) or obj.func.__name__
            raise Unsupported('attribute %s of function' % name)
        if isinstance(obj, IterDesc):
            raise Unsupported('attribute %s of iterator' % name)
        if isinstance(obj, self.B.SetV):
            return BuiltinMethod(name, obj)
        # native object: module, class, compiled regexp, logger...
        if isinstance(obj, type):
            for c in obj.__mro__:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, obj)
                    return v
        try:
            v = getattr(obj, name)
        except AttributeError:
            self.do_raise(st, ExcVal(AttributeError, (name,)))
        if isinstance(v, (list, dict, set)) or isinstance(v, (type(None), bool, int, float, str, tuple)):
            return v
        return v

    def lookup_class(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        return None, None

    def bind_class_attr(self, st, v, obj, c):
        if isinstance(v, types.FunctionType):
            return Bound(v, obj)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, obj.cls)
        if isinstance(v, property):
            return self.call(st, v.fget, [obj], {})
        if isinstance(v, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            return UNDEF
        if isinstance(v, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
            return BuiltinMethod(getattr(v, '__name__', '?'), obj)
        return v

    def ref_getattr(self, st, obj, name):
        cls = obj.cls
        if name == '__class__':
            return cls
        if name == '__dict__':
            raise Unsupported('__dict__')
        cv, owner = self.lookup_class(cls, name)
        if isinstance(cv, property):
            return self.bind_class_attr(st, cv, obj, owner)
        if isinstance(cv, types.FunctionType) and (family(cls), name) not in st.heap:
            return Bound(cv, obj)
        v = self.raw_attr(st, obj, name)

        def fin(s, x):
            if x is not UNDEF:
                return x
            if owner is not None and not isinstance(cv, (types.MemberDescriptorType,)):
                return self.bind_class_attr(s, cv, obj, owner)
            ga, o2 = self.lookup_class(cls, '__getattr__')
            if isinstance(ga, types.FunctionType):
                return self.call(s, ga, [obj, name], {})
            if getattr(cls, 'partial', False):
                raise Unsupported('the stand-in %s has no %s' % (cls.__name__, name))
            if v is UNDEF and (self.glob_stack[-1].get('__file__') or '').startswith(self.contract_dir) and not self.is_ghost(cls):
                # the contract speaks of a part that the code does not have (any more)
                self.misfit = '%s has no %s: the contract does not apply' % (cls.__name__, name)
                if not self.dry:
                    raise Unsupported(self.misfit)
            self.do_raise(s, ExcVal(AttributeError, ("'%s' object has no attribute '%s'" % (cls.__name__, name),)))
        if isinstance(v, Union):
            if any(x is UNDEF for _, x in v.cases):
                return self.dist(st, [v], fin)
            return v
        return fin(st, v)

    def setattr_(self, st, obj, name, val):
        if isinstance(obj, Union):
            self.dist(st, [obj], lambda s, o: self.setattr_(s, o, name, val))
            return None
        if isinstance(obj, Ref):
            if (self.glob_stack[-1].get('__file__') or '').startswith(self.contract_dir) and not self.is_ghost(obj.cls) \
                    and not self.spoken_of(obj.cls, name):
                raise Unsupported('%s has no %s: the contract does not apply' % (obj.cls.__name__, name))
            cv, owner = self.lookup_class(obj.cls, name)
            if isinstance(cv, property):
                if cv.fset is None:
                    self.do_raise(st, ExcVal(AttributeError, (name,)))
                self.call(st, cv.fset, [obj, val], {})
                return None
            sa, o2 = self.lookup_class(obj.cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                raise Unsupported('__setattr__')
            # objects with __slots__ reject unknown attributes
            if not self.accepts_attr(obj.cls, name):
                self.do_raise(st, ExcVal(AttributeError, (name,)))
            if isinstance(val, (CL, GL, SL)):
                raise Unsupported('bare list content as attribute')
            self.set_attr(st, obj, name, val)
            return None
        if obj is None:
            self.do_raise(st, ExcVal(AttributeError, (name,)))
        raise Unsupported('attribute assignment on %r' % (obj,))

    def accepts_attr(self, cls, name):
        for c in cls.__mro__:
            if c is object:
                continue
            if c in (list, dict, tuple):
                continue
            if '__slots__' not in c.__dict__:
                return True
            sl = c.__dict__['__slots__']
            if name in ((sl,) if isinstance(sl, str) else sl):
                return True
        return False

    # ------------------------------------------------------------ truth and equality
    def truth(self, st, v):
        """Python bool or z3 Bool; may call __bool__/__len__"""
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return _cb(v)
        if v is None:
            return False
        if isinstance(v, Union):
            simple = all(not isinstance(x, Ref) or x.cls is list for _, x in v.cases)
            if all(x is not UNDEF and not isinstance(x, (Ref, IterDesc)) for _, x in v.cases):
                return Or_(*[And_(g, self.truth(st, x)) for g, x in v.cases])
            if all(isinstance(x, Ref) is False or not self.has_len_or_bool(x.cls) for _, x in v.cases) \
                    and all(x is not UNDEF for _, x in v.cases):
                return Or_(*[And_(g, self.truth(st, x)) for g, x in v.cases])
            return self.truth(st, self.dist(st, [v], lambda s, x: self.truth(s, x)))
        if isinstance(v, (int, float)):
            return bool(v)
        if is_num(v):
            return _cb(z3.simplify(v != 0)) if not z3.is_const(v) or z3.is_rational_value(v) else v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Text):
            r = False
            for g, p in v.pieces:
                r = Or_(r, And_(g, True if isinstance(p, (str, Num)) else self.truth(st, p)))
            return r
        if isinstance(v, AStr):
            return v.term != 0
        if isinstance(v, CmdPart):
            return True
        if isinstance(v, Ref):
            cls = v.cls
            f, o = self.lookup_class(cls, '__bool__')
            if isinstance(f, types.FunctionType):
                return self.truth(st, self.call(st, f, [v], {}))
            if issubclass(cls, (list, dict)):
                n = self.B.length(self, st, v)
                return (n > 0) if isinstance(n, int) else _cb(n > 0)
            f, o = self.lookup_class(cls, '__len__')
            if isinstance(f, types.FunctionType):
                n = self.call(st, f, [v], {})
                return self.truth(st, n)
            return True
        if isinstance(v, Cx):
            return Or_(self.truth(st, v.re), self.truth(st, v.im))
        if isinstance(v, (tuple, list, dict, set)):
            return bool(v)
        if isinstance(v, self.B.StrSet):
            return v.nonempty()
        if isinstance(v, self.B.SetV):
            return v.nonempty()
        if v is UNDEF:
            self.do_raise(st, ExcVal(UnboundLocalError, ()))
        if isinstance(v, IterDesc):
            return True
        return bool(v) if not isinstance(v, (Closure, Bound, BuiltinMethod, ExcVal)) else True

    def has_len_or_bool(self, cls):
        return issubclass(cls, (list, dict)) or any(isinstance(self.lookup_class(cls, n)[0], types.FunctionType)
                                                    for n in ('__len__', '__bool__'))

    def eq(self, st, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            ca = a.cases if isinstance(a, Union) else [(True, a)]
            cb = b.cases if isinstance(b, Union) else [(True, b)]
            if not any(self.user_eq(x) for _, x in ca + cb):
                return Or_(*[And_(g, h, self.eq(st, x, y)) for g, x in ca for h, y in cb])
            return self.truth(st, self.dist(st, [a, b], lambda s, x, y: self.eq(s, x, y)))
        if self.user_eq(a):
            f, _ = self.lookup_class(a.cls, '__eq__')
            return self.truth(st, self.call(st, f, [a, b], {}))
        if self.user_eq(b):
            f, _ = self.lookup_class(b.cls, '__eq__')
            return self.truth(st, self.call(st, f, [b, a], {}))
        return self.eq_plain(a, b, st)

    def user_eq(self, v):
        return isinstance(v, Ref) and isinstance(self.lookup_class(v.cls, '__eq__')[0], types.FunctionType)

    def eq_plain(self, a, b, st=None):
        if isinstance(a, Union) or isinstance(b, Union):
            ca = a.cases if isinstance(a, Union) else [(True, a)]
            cb = b.cases if isinstance(b, Union) else [(True, b)]
            return Or_(*[And_(g, h, self.eq_plain(x, y, st)) for g, x in ca for h, y in cb])
        if a is UNDEF or b is UNDEF:
            return a is b
        if a is None or b is None:
            return a is b
        if is_boolv(a) and is_boolv(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return a if b else Not_(a)
            return True if a.eq(b) else a == b
        if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
            if not is_z(a) and not is_z(b):
                return a == b
            if is_int(a) and is_int(b):
                x, y = to_int(a), to_int(b)
            else:
                x, y = to_real(a), to_real(b)
            if x.eq(y):
                return True
            r = x == y
            if (z3.is_rational_value(x) or z3.is_int_value(x)) and (z3.is_rational_value(y) or z3.is_int_value(y)):
                return _cb(z3.simplify(r))
            return r
        if is_strv(a) and is_strv(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if same(a, b):
                return True
            r = self.B.text_eq(self, a, b)
            if r is not None:
                return r
            x, y = to_str(a), to_str(b)
            return True if x.eq(y) else x == y
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And_(*[self.eq_plain(x, y, st) for x, y in zip(a, b)])
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = self.B.to_cx(a), self.B.to_cx(b)
            return And_(self.eq_plain(a.re, b.re), self.eq_plain(a.im, b.im))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return And_(a.func is b.func, self.eq_plain(a.self, b.self))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if issubclass(a.cls, list) and issubclass(b.cls, list):
                if a.key() == b.key():
                    return True
                if st is None:
                    raise Unsupported('list equality')
                return self.eq_content(st, self.items(st, a), self.items(st, b))
            c = H.maybe_same(a, b)
            return c if isinstance(c, bool) else _cb(c)
        if isinstance(a, (CL, GL, SL)) and isinstance(b, (CL, GL, SL)):
            return self.eq_content(st, a, b)
        if isinstance(a, Ref) and issubclass(a.cls, list) and isinstance(b, (list, tuple)):
            if isinstance(b, tuple):
                return False
            return self.eq_content(st, self.items(st, a), CL(b))
        if isinstance(b, Ref) and issubclass(b.cls, list) and isinstance(a, list):
            return self.eq_content(st, CL(a), self.items(st, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, self.B.SetV) or isinstance(b, self.B.SetV):
            raise Unsupported('set equality')
        if is_z(a) or is_z(b):
            return False
        if isinstance(a, (Bound, Closure, ExcVal)) or isinstance(b, (Bound, Closure, ExcVal)):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported('equality of %r and %r' % (a, b))

    def eq_content(self, st, a, b):
        if isinstance(a, CL) and isinstance(b, CL):
            if len(a.items) != len(b.items):
                return False
            return And_(*[(self.eq(st, x, y) if st else self.eq_plain(x, y)) for x, y in zip(a.items, b.items)])
        if same(a, b):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SL) and isinstance(y, CL) and not y.items:
                return z3.Length(x.term) == 0
        if isinstance(a, SL) or isinstance(b, SL):
            e = a.elem if isinstance(a, SL) else b.elem
            if isinstance(e, RefE) and isinstance(self.lookup_class(e.cls, '__eq__')[0], types.FunctionType) and st is not None:
                raise Unsupported('equality of symbolic lists of objects with __eq__')
            x, y = self.to_sl(a, e), self.to_sl(b, e)
            if x.elem.name() != y.elem.name() and not (isinstance(x.elem, RefE) and isinstance(y.elem, RefE)):
                return False
            return True if x.term.eq(y.term) else x.term == y.term
        if isinstance(a, CL) and not a.items:
            return And_(*[Not_(g) for g, _ in gl_of(b)])
        if isinstance(b, CL) and not b.items:
            return And_(*[Not_(g) for g, _ in gl_of(a)])
        la, lb = gl_of(a), gl_of(b)
        if len(la) == len(lb) and all(same(x[0], y[0]) for x, y in zip(la, lb)):
            return And_(*[Implies_(x[0], self.eq_plain(x[1], y[1], st)) for x, y in zip(la, lb)])
        # alignment by dynamic programming over guarded items
        memo = {}

        def al(i, j):
            if (i, j) in memo:
                return memo[(i, j)]
            if i == len(la) and j == len(lb):
                r = True
            elif i == len(la):
                r = And_(Not_(lb[j][0]), al(i, j + 1))
            elif j == len(lb):
                r = And_(Not_(la[i][0]), al(i + 1, j))
            else:
                g, x = la[i]
                h, y = lb[j]
                r = Or_(And_(Not_(g), al(i + 1, j)), And_(g, Not_(h), al(i, j + 1)),
                        And_(g, h, self.eq_plain(x, y, st), al(i + 1, j + 1)))
            memo[(i, j)] = r
            return r
        return al(0, 0)

    # ------------------------------------------------------------ calls
    def in_scope(self, func):
        fn = os.path.realpath(func.__code__.co_filename)
        return any(fn.startswith(r) for r in self.roots)

    def call(self, st, fn, args, kwargs):
        if isinstance(fn, Union):
            return self.dist(st, [fn], lambda s, f: self.call(s, f, list(args), dict(kwargs)))
        if isinstance(fn, Bound):
            return self.call(st, fn.func, [fn.self] + list(args), kwargs)
        if isinstance(fn, BuiltinMethod):
            return self.B.call_method(self, st, fn.self, fn.name, args, kwargs)
        if isinstance(fn, Closure):
            return self.interpret(st, fn.node, fn.name, fn.globs, fn.env, args, kwargs, fn.defaults, fn.kwdefaults)
        if fn is None or is_num(fn) or is_strv(fn):
            self.do_raise(st, ExcVal(TypeError, ('not callable',)))
        try:
            h = self.summaries.get(fn) or self.B.STUBS.get(fn)
        except TypeError:
            h = None
        if h is not None:
            return h(self, st, list(args), dict(kwargs))
        if isinstance(fn, types.FunctionType):
            if self.in_scope(fn):
                return self.call_function(st, fn, args, kwargs)
            raise Unsupported('call of %s.%s' % (fn.__module__, fn.__qualname__))
        if isinstance(fn, types.MethodType):
            if isinstance(fn.__func__, types.FunctionType) and self.in_scope(fn.__func__):
                return self.call(st, fn.__func__, [fn.__self__] + list(args), kwargs)
            return self.B.call_native_method(self, st, fn.__self__, fn.__func__.__name__, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(st, fn, args, kwargs)
        if isinstance(fn, (types.BuiltinFunctionType, types.BuiltinMethodType)) and getattr(fn, '__self__', None) is not None \
                and not isinstance(fn.__self__, types.ModuleType):
            return self.B.call_native_method(self, st, fn.__self__, fn.__name__, args, kwargs)
        if isinstance(fn, Ref):
            f, _ = self.lookup_class(fn.cls, '__call__')
            if isinstance(f, types.FunctionType):
                return self.call(st, f, [fn] + list(args), kwargs)
        raise Unsupported('call of %r' % (fn,))

    def call_function(self, st, fn, args, kwargs):
        node = self.index.find(fn)
        q = '%s.%s' % (fn.__module__, fn.__qualname__)
        self.funcs_used[q] = self.funcs_used.get(q, 0) + 1
        cenv = None
        if fn.__closure__:
            cenv = {}
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cenv[nm] = c.cell_contents
                except ValueError:
                    pass
        cls = cenv.get('__class__') if cenv else None
        r = self.interpret(st, node, fn.__qualname__, fn.__globals__, cenv, args, kwargs,
                           fn.__defaults__ or (), fn.__kwdefaults__ or {}, cls)
        obs = self.call_observers.get(fn)
        if obs is not None and not self.in_observer:
            self.in_observer = True
            try:
                for ghost, meth in obs:
                    f = getattr(ghost.cls, meth)
                    self.call(st, f, [ghost, r] + list(args), {})
            finally:
                self.in_observer = False
        return r

    in_observer = False

    def interpret(self, st, node, name, globs, cenv, args, kwargs, defaults, kwdefaults, cls=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion')
        self.glob_stack.append(globs)
        try:
            env = self.bind_args(st, node, name, args, kwargs, defaults, kwdefaults)
            fr = Frame(name, globs, cenv, cls)
            fr.locals = assigned_names(node) | set(env)
            a0 = node.args.args
            fr.self_ref = env.get(a0[0].arg) if a0 else None
            caller_env = st.env
            s = State(st.pc, env, st.heap)
            base = len(st.pc)
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, s, fr)
                st.pc, st.heap, st.env = s.pc, s.heap, caller_env
                return v
            gen = is_generator(node)
            if gen:
                env['#yield'] = self.new_list(s, CL(()))
            s.pc = list(s.pc)
            s.heap = dict(s.heap)
            self.rstack.append([])
            try:
                r = self.exec_block(node.body, s, fr)
            finally:
                raised = self.rstack.pop()
                for rs, exc in raised:
                    rs.env = dict(caller_env)
                    self.rstack[-1].append((rs, exc))
            outs = list(fr.returns)
            if r is not None:
                outs.append((r, None))
            if not outs:
                raise Dead()
            if gen:
                outs = [(o, o.env['#yield']) for o, _ in outs]
            for o, _ in outs:
                o.env = {}
            m, v = self.merge_all(base, outs)
            st.pc, st.heap, st.env = m.pc, m.heap, caller_env
            if gen:
                v = self.B.make_iterator(self, st, v)
            return v
        finally:
            self.depth -= 1
            self.glob_stack.pop()

    def bind_args(self, st, node, name, args, kwargs, defaults, kwdefaults):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(params):
            if a.vararg is None:
                self.do_raise(st, ExcVal(TypeError, ('%s() takes %d positional arguments' % (name, len(params)),)))
            env[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for p, v in zip(params, args):
            env[p] = v
        for p in list(kwargs):
            if p in params or p in [x.arg for x in a.kwonlyargs]:
                if p in env:
                    self.do_raise(st, ExcVal(TypeError, ('multiple values for %s' % p,)))
                env[p] = kwargs.pop(p)
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            if p not in env:
                env[p] = self.native_value(d)
        for p in a.kwonlyargs:
            if p.arg not in env and p.arg in kwdefaults:
                env[p.arg] = self.native_value(kwdefaults[p.arg])
        missing = [p for p in params if p not in env]
        if missing:
            self.do_raise(st, ExcVal(TypeError, ('%s() missing arguments %s' % (name, missing),)))
        if a.kwarg is not None:
            r = self.new_ref(dict)
            st.heap[('dict', '#d')] = Write(self.heap_node(st.heap, ('dict', '#d')), r, SymDict(dict(kwargs)))
            env[a.kwarg.arg] = r
        elif kwargs:
            self.do_raise(st, ExcVal(TypeError, ('unexpected keyword arguments %s' % list(kwargs),)))
        return env

    def native_value(self, v):
        """import a native Python value met in globals, defaults or class attributes"""
        return v

    def instantiate(self, st, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if not any(os.path.realpath(getattr(sys.modules.get(cls.__module__), '__file__', '') or '').startswith(r)
                   for r in self.roots):
            raise Unsupported('instantiation of %s' % cls.__name__)
        new, o = self.lookup_class(cls, '__new__')
        if isinstance(new, (types.FunctionType, staticmethod)):
            raise Unsupported('__new__')
        r = self.new_ref(cls)
        self.alloc_pc[r.ident] = list(st.pc)
        if issubclass(cls, list):
            self.set_items(st, r, CL(()))
        elif issubclass(cls, dict):
            raise Unsupported('dict subclass')
        init, o = self.lookup_class(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(st, init, [r] + list(args), kwargs)
        elif issubclass(cls, list):
            self.B.call_method(self, st, r, '__init__', args, kwargs)
        elif args or kwargs:
            self.do_raise(st, ExcVal(TypeError, ('%s() takes no arguments' % cls.__name__,)))
        for ghost, meth in self.ctor_observers.get(cls, []):
            self.call(st, getattr(ghost.cls, meth), [ghost, r], {})
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            try:
                st = self.exec_stmt(s, st, fr)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def exec_stmt(self, n, st, fr):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        self.where = '%s:%s' % (fr.name, getattr(n, 'lineno', '?'))
        return m(n, st, fr)

    def st_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        self.ev(n.value, st, fr)
        return st

    def st_Pass(self, n, st, fr):
        return st

    def st_Import(self, n, st, fr):
        for a in n.names:
            import importlib
            m = importlib.import_module(a.name)
            if a.asname is None and '.' in a.name:
                m = importlib.import_module(a.name.split('.')[0])
            st.env[(a.asname or a.name).split('.')[0]] = m
        return st

    def st_ImportFrom(self, n, st, fr):
        import importlib
        m = importlib.import_module(('.' * n.level) + (n.module or ''), fr.globs.get('__package__'))
        for a in n.names:
            st.env[a.asname or a.name] = getattr(m, a.name)
        return st

    def st_Global(self, n, st, fr):
        raise Unsupported('global statement')

    def st_Nonlocal(self, n, st, fr):
        raise Unsupported('nonlocal statement')

    def st_FunctionDef(self, n, st, fr):
        if n.decorator_list:
            raise Unsupported('decorated nested function')
        defaults = [self.ev(d, st, fr) for d in n.args.defaults]
        st.env[n.name] = Closure(n, st.env, fr.globs, n.name, defaults, {})
        return st

    def st_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else None
        fr.returns.append((st, v))
        return None

    def st_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)
        return st

    def st_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr)
        return st

    def st_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=0), st, fr)
            v = self.B.inplace(self, st, type(n.op).__name__, old, self.ev(n.value, st, fr))
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            old = self.getattr_(st, o, self.mangle(t.attr, fr))
            v = self.B.inplace(self, st, type(n.op).__name__, old, self.ev(n.value, st, fr))
            self.setattr_(st, o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            old = self.B.getitem(self, st, o, i)
            v = self.B.inplace(self, st, type(n.op).__name__, old, self.ev(n.value, st, fr))
            self.B.setitem(self, st, o, i, v)
        else:
            raise Unsupported('augmented assignment target')
        return st

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            q = fr.name.split('.')
            if len(q) >= 2:
                return '_%s%s' % (q[-2].lstrip('_'), name)
        return name

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(st, self.ev(t.value, st, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            self.B.setitem(self, st, o, self.ev_index(t.slice, st, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            vs = self.B.unpack(self, st, v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, st, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def st_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                self.B.delitem(self, st, o, self.ev_index(t.slice, st, fr))
            elif isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            else:
                raise Unsupported('del target')
        return st

    def st_Assert(self, n, st, fr):
        c = self.truth(st, self.ev(n.test, st, fr))
        self.raise_if(st, Not_(c), ExcVal(AssertionError, ()))
        return st

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            e = st.env.get('#exc')
            if e is None:
                raise Unsupported('re-raise')
            self.do_raise(st, e)
        v = self.ev(n.exc, st, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v, ())
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        self.do_raise(st, v)

    def st_If(self, n, st, fr):
        c = self.truth(st, self.ev(n.test, st, fr))
        c = _cb(c)
        if c is True:
            return self.exec_block(n.body, st, fr)
        if c is False:
            return self.exec_block(n.orelse, st, fr)
        nc = Not_(c)
        ft = self.feasible(st.pc, c)
        ff = self.feasible(st.pc, nc) if ft else True
        if not ft:
            st.pc.append(nc)
            return self.exec_block(n.orelse, st, fr)
        if not ff:
            st.pc.append(c)
            return self.exec_block(n.body, st, fr)
        base = len(st.pc)
        s1, s2 = st.copy(), st
        s1.pc.append(c)
        s2.pc = s2.pc + [nc]
        s2.env = dict(s2.env)
        s2.heap = dict(s2.heap)
        r1 = self.exec_block(n.body, s1, fr)
        r2 = self.exec_block(n.orelse, s2, fr)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        m, _ = self.merge2(base, c, r1, None, r2, None)
        return m

    def st_Try(self, n, st, fr):
        base = len(st.pc)
        entry_returns = len(fr.returns)
        self.rstack.append([])
        try:
            s = self.exec_block(n.body, st.copy(), fr)
        finally:
            raised = self.rstack.pop()
        outs = []
        if s is not None:
            if n.orelse:
                s = self.exec_block(n.orelse, s, fr)
            if s is not None:
                outs.append((s, None))
        if n.finalbody:
            raise Unsupported('finally')
        for s1, exc in raised:
            handled = False
            for h in n.handlers:
                if h.type is None:
                    match = True
                else:
                    t = self.ev(h.type, s1, fr)
                    ts = t if isinstance(t, tuple) else (t,)
                    match = any(isinstance(x, type) and issubclass(exc.cls, x) for x in ts)
                if match:
                    handled = True
                    if h.name:
                        s1.env[h.name] = exc
                    s1.env['#exc'] = exc
                    r = self.exec_block(h.body, s1, fr)
                    if r is not None:
                        r.env.pop('#exc', None)
                        outs.append((r, None))
                    break
            if not handled:
                self.rstack[-1].append((s1, exc))
        if not outs:
            return None
        m, _ = self.merge_all(base, outs)
        return m

    def st_With(self, n, st, fr):
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(n.body, st, fr)

    def st_Break(self, n, st, fr):
        fr.loops[-1].breaks.append(st)
        return None

    def st_Continue(self, n, st, fr):
        fr.loops[-1].continues.append(st)
        return None

    # loops
    def st_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        if isinstance(it, Union):
            return self.loop_over_union(n, it, st, fr)
        d = self.B.iterate(self, st, it)
        return self.for_desc(n, d, st, fr)

    def loop_over_union(self, n, it, st, fr):
        base = len(st.pc)
        outs = []
        for g, v in it.cases:
            if not self.feasible(st.pc, g):
                continue
            s = st.copy()
            if not isinstance(g, bool):
                s.pc.append(g)
            try:
                d = self.B.iterate(self, s, v)
                r = self.for_desc(n, d, s, fr)
            except Dead:
                r = None
            if r is not None:
                outs.append((r, None))
        if not outs:
            return None
        return self.merge_all(base, outs)[0]

    def for_desc(self, n, d, st, fr):
        if isinstance(d, (list, tuple)):            # guarded items [(guard, value)]
            return self.for_unrolled(n, d, st, fr)
        from . import loops
        return loops.cut_for(self, n, d, st, fr)

    def for_unrolled(self, n, items, st, fr):
        base = len(st.pc)
        done = []           # break states
        cur = st
        hook = getattr(items, 'on_next', None)
        for pos, (g, v) in enumerate(items):
            self.check_deadline()
            if hook is not None:
                if g is not True:
                    raise Unsupported('guarded iterator with a position')
                hook(cur, pos)
            if g is not True:
                # optional item: run the body only when present
                cur2 = cur.copy()
                if not self.feasible(cur.pc, g):
                    continue
                skip = None
                if self.feasible(cur.pc, Not_(g)):
                    skip = cur.copy()
                    skip.pc.append(Not_(g))
                    b2 = len(cur.pc)
                    cur2.pc.append(g)
                r = self.iter_body(n, v, cur2, fr, done)
                if skip is None:
                    cur = r
                elif r is None:
                    cur = skip
                else:
                    cur, _ = self.merge2(b2, g, r, None, skip, None)
            else:
                cur = self.iter_body(n, v, cur, fr, done)
            if cur is None:
                break
        if cur is not None and hook is not None and items.on_end is not None:
            items.on_end(cur)
        if cur is not None and n.orelse:
            cur = self.exec_block(n.orelse, cur, fr)
        outs = [(s, None) for s in done]
        if cur is not None:
            outs.append((cur, None))
        if not outs:
            return None
        return self.merge_all(base, outs)[0]

    def iter_body(self, n, v, st, fr, done):
        """one iteration: bind the target, run the body; returns the state at the next iteration"""
        base = len(st.pc)
        st = st.copy()
        lc = LoopCtx()
        fr.loops.append(lc)
        try:
            try:
                if n.target is not None:
                    self.assign(n.target, v, st, fr)
                r = self.exec_block(n.body, st, fr)
            except Dead:
                r = None
        finally:
            fr.loops.pop()
        done.extend(lc.breaks)
        outs = [(s, None) for s in lc.continues]
        if r is not None:
            outs.append((r, None))
        if not outs:
            return None
        return self.merge_all(base, outs)[0]

    def st_While(self, n, st, fr):
        base = len(st.pc)
        done = []
        cur = st
        exits = []
        fake = ast.For(target=None, iter=None, body=n.body, orelse=[], lineno=n.lineno)
        for i in range(self.unroll_limit):
            self.check_deadline()
            try:
                probe = cur.copy()
                c = _cb(self.truth(probe, self.ev(n.test, probe, fr)))
            except Dead:
                cur = None
                break
            cur = probe
            if c is False:
                break
            if c is not True and not self.entails(cur.pc, c):
                if self.entails(cur.pc, Not_(c)):
                    break
                if self.unroll is not None:
                    s2 = cur.copy()
                    s2.pc.append(Not_(c))
                    exits.append((s2, None))
                    cur.pc.append(c)
                    if i >= self.unroll:
                        cur = None      # bounded run: longer executions are cut off
                        break
                else:
                    from . import loops
                    r = loops.cut_while(self, n, cur, fr)
                    if r is not None:
                        done.append(r)
                    cur = None
                    break
            elif c is True and i >= (self.unroll if self.unroll is not None else 0) and isinstance(n.test, ast.Constant):
                if self.unroll is not None:
                    cur = None
                    break
                from . import loops
                r = loops.cut_while(self, n, cur, fr)
                if r is not None:
                    done.append(r)
                cur = None
                break
            cur = self.iter_body(fake, None, cur, fr, done)
            if cur is None:
                break
        else:
            raise Unsupported('loop unrolled too often')
        if n.orelse:
            raise Unsupported('while-else')
        outs = [(s, None) for s in done] + exits
        if cur is not None:
            outs.append((cur, None))
        if not outs:
            return None
        return self.merge_all(base, outs)[0]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def ex_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, complex):
            return Cx(v.real, v.imag)
        return v

    def ex_Name(self, n, st, fr):
        nm = n.id
        if nm in st.env:
            v = st.env[nm]
            if type(v).__name__ == 'Poison' or isinstance(v, Union) and any(type(x).__name__ == 'Poison' for _, x in v.cases):
                raise Unsupported('value of %s after an unknown number of iterations' % nm)
            if v is UNDEF:
                self.do_raise(st, ExcVal(UnboundLocalError, (nm,)))
            if isinstance(v, Union) and any(x is UNDEF for _, x in v.cases):
                g = Or_(*[h for h, x in v.cases if x is UNDEF])
                self.raise_if(st, g, ExcVal(UnboundLocalError, (nm,)))
                cs = [(h, x) for h, x in v.cases if x is not UNDEF]
                v = cs[0][1] if len(cs) == 1 else Union(cs)
                st.env[nm] = v
            return v
        if fr.locals and nm in fr.locals and not (fr.cenv and nm in fr.cenv):
            self.do_raise(st, ExcVal(UnboundLocalError, (nm,)))
        if fr.cenv and nm in fr.cenv:
            return fr.cenv[nm]
        if nm in fr.globs:
            return self.native_value(fr.globs[nm])
        if hasattr(builtins, nm):
            return getattr(builtins, nm)
        self.do_raise(st, ExcVal(NameError, (nm,)))

    def ex_Attribute(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        return self.getattr_(st, o, self.mangle(n.attr, fr))

    def ex_Tuple(self, n, st, fr):
        return tuple(self.ev_elts(n.elts, st, fr))

    def ev_elts(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                d = self.B.iterate(self, st, self.ev(e.value, st, fr))
                if not isinstance(d, (list, tuple)) or any(g is not True for g, _ in d):
                    raise Unsupported('starred symbolic sequence')
                out.extend(v for _, v in d)
            else:
                out.append(self.ev(e, st, fr))
        return out

    def ex_List(self, n, st, fr):
        return self.new_list(st, CL(self.ev_elts(n.elts, st, fr)))

    def ex_Set(self, n, st, fr):
        return self.B.make_set(self, st, self.ev_elts(n.elts, st, fr))

    def ex_Dict(self, n, st, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict unpacking')
            kk = self.ev(k, st, fr)
            if is_z(kk) or isinstance(kk, (Ref, Union, Text)):
                raise Unsupported('symbolic dict key')
            d[kk] = self.ev(v, st, fr)
        r = self.new_ref(dict)
        st.heap[('dict', '#d')] = Write(self.heap_node(st.heap, ('dict', '#d')), r, SymDict(d))
        return r

    def ex_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.B.binop(self, st, type(n.op).__name__, a, b)

    def ex_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return Not_(self.truth(st, v))
        return self.dist(st, [v], lambda s, x: self.B.unop(self, s, type(n.op).__name__, x))

    def ex_BoolOp(self, n, st, fr):
        return self.boolop(n.values, isinstance(n.op, ast.And), st, fr)

    def boolop(self, vals, is_and, st, fr):
        a = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return a
        t = _cb(self.truth(st, a))
        if isinstance(t, bool):
            if t == is_and:
                return self.boolop(vals[1:], is_and, st, fr)
            return a
        if is_and:
            go, stop = t, Not_(t)
        else:
            go, stop = Not_(t), t
        if not self.feasible(st.pc, go):
            return a
        base = len(st.pc)
        s1 = st.copy()
        s1.pc.append(go)
        try:
            v1 = self.boolop(vals[1:], is_and, s1, fr)
        except Dead:
            self.assume_(st, stop)
            return a
        if is_boolv(a) and is_boolv(v1) and self.unchanged(st, s1, base):
            return And_(t, v1) if is_and else Or_(t, v1)
        s2 = st.copy()
        s2.pc.append(stop)
        av = self.restrict(a, stop, st)
        m, v = self.merge2(base, go, s1, v1, s2, av)
        st.set(m)
        return v

    def restrict(self, v, g, st):
        """drop union cases excluded by g"""
        if not isinstance(v, Union):
            return v
        cs = [(h, x) for h, x in v.cases if self.feasible(st.pc + [g], h)]
        if len(cs) == 1:
            return cs[0][1]
        return Union(cs) if cs else v

    def unchanged(self, st, s1, base):
        if len(s1.pc) != base + 1:
            return False
        for k, v in s1.heap.items():
            if st.heap.get(k) is not v:
                return False
        for k, v in s1.env.items():
            if st.env.get(k, UNDEF) is not v:
                return False
        return True

    def ex_IfExp(self, n, st, fr):
        c = _cb(self.truth(st, self.ev(n.test, st, fr)))
        return self.branch(st, [(c, lambda s: self.ev(n.body, s, fr)), (Not_(c), lambda s: self.ev(n.orelse, s, fr))])

    def ex_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            if i > 0 and _cb(res) is False:
                return False
            if i > 0:
                # later operands are evaluated only when the chain holds so far; operands here are side-effect free
                s1 = st.copy()
                if not isinstance(_cb(res), bool):
                    s1.pc.append(res)
                right = self.ev(rn, s1, fr)
                c = self.compare(s1, type(op).__name__, left, right)
                if len(s1.pc) > len(st.pc) + 1:
                    # exceptions were excluded on the way
                    extra = And_(*s1.pc[len(st.pc) + 1:])
                    st.pc.append(Implies_(res, extra))
            else:
                right = self.ev(rn, st, fr)
                c = self.compare(st, type(op).__name__, left, right)
            if not is_boolv(c):
                if len(n.ops) == 1:
                    return c
                raise Unsupported('non-boolean comparison')
            res = And_(res, c)
            left = right
        return res

    def compare(self, st, op, a, b):
        if op == 'Is':
            return self.is_(st, a, b)
        if op == 'IsNot':
            return Not_(self.is_(st, a, b))
        if op == 'Eq':
            return self.eq(st, a, b)
        if op == 'NotEq':
            return self.ne(st, a, b)
        if op == 'In':
            return self.B.contains(self, st, b, a)
        if op == 'NotIn':
            return Not_(self.B.contains(self, st, b, a))
        return self.B.order(self, st, op, a, b)

    def ne(self, st, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            if any(self.user_eq(x) for v in (a, b) if isinstance(v, Union) for _, x in v.cases) or self.user_eq(a) or self.user_eq(b):
                return self.truth(st, self.dist(st, [a, b], lambda s, x, y: self.ne(s, x, y)))
            return Not_(self.eq(st, a, b))
        if isinstance(a, Ref):
            f, _ = self.lookup_class(a.cls, '__ne__')
            if isinstance(f, types.FunctionType):
                return self.truth(st, self.call(st, f, [a, b], {}))
        return Not_(self.eq(st, a, b))

    def is_(self, st, a, b):
        if isinstance(a, Union):
            return Or_(*[And_(g, self.is_(st, x, b)) for g, x in a.cases])
        if isinstance(b, Union):
            return Or_(*[And_(g, self.is_(st, a, x)) for g, x in b.cases])
        if a is None or b is None:
            return a is b
        if is_boolv(a) and is_boolv(b):
            return self.eq_plain(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            c = H.maybe_same(a, b)
            return c if isinstance(c, bool) else _cb(c)
        if is_z(a) or is_z(b):
            if is_num(a) and is_num(b) or is_strv(a) and is_strv(b):
                raise Unsupported('identity of numbers or strings')
            return False
        return a is b

    def ev_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: self.ev(x, st, fr) if x is not None else None
            return slice(f(n.lower), f(n.upper), f(n.step))
        return self.ev(n, st, fr)

    def ex_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        i = self.ev_index(n.slice, st, fr)
        return self.B.getitem(self, st, o, i)

    def ex_Lambda(self, n, st, fr):
        defaults = [self.ev(d, st, fr) for d in n.args.defaults]
        env = dict(fr.cenv or {})
        env.update(st.env)
        return Closure(n, env, fr.globs, '<lambda>', defaults, {})

    def ex_JoinedStr(self, n, st, fr):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append((True, v.value))
            else:
                x = self.ev(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st, fr)
                ps.extend(pieces_of(self.B.format_value(self, st, x, spec)))
        return mktext(ps)

    def ex_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            if n.args:
                cls = self.ev(n.args[0], st, fr)
                obj = self.ev(n.args[1], st, fr)
            else:
                cls, obj = fr.cls, fr.self_ref
                if cls is None:
                    raise Unsupported('super() outside a class')
            return SuperProxy(cls, obj)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and n.func.id not in st.env:
            r = self.B.quantified(self, st, fr, n.func.id, n.args[0])
            if r is not None:
                return r
        if self.flats and isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and n.func.id not in st.env and 'sum' not in fr.globs:
            return self.comp(n.args[0], st, fr, 'sum')
        fn = self.ev(n.func, st, fr)
        args = self.ev_elts(n.args, st, fr) if not any(isinstance(a, ast.Starred) for a in n.args) \
            else self.ev_starred(n.args, st, fr)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                d = self.B.dict_of(self, st, v)
                kwargs.update(d)
            else:
                kwargs[k.arg] = v
        if fn is builtins.locals or fn is builtins.globals or fn is builtins.eval or fn is builtins.exec:
            raise Unsupported('%s()' % fn.__name__)
        w = self.where
        self.cur_frame = fr
        v = self.call(st, fn, args, kwargs)
        self.where = w
        return v

    def ev_starred(self, nodes, st, fr):
        out = []
        for e in nodes:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                d = self.B.iterate(self, st, v)
                if isinstance(d, (list, tuple)):
                    if all(g is True for g, _ in d):
                        out.extend(x for _, x in d)
                    else:
                        out.append(self.B.StarGL(d))
                    continue
                raise Unsupported('starred argument of unknown length')
            out.append(self.ev(e, st, fr))
        return out

    def ex_Starred(self, n, st, fr):
        raise Unsupported('starred')

    def ex_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def ex_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'gen')

    def ex_SetComp(self, n, st, fr):
        r = self.comp(n, st, fr, 'set')
        return self.B.STUBS[set](self, st, [r], {})

    def ex_DictComp(self, n, st, fr):
        raise Unsupported('dict comprehension')

    def over_set(self, n, it, st, fr):
        """a generator over a set of unknown size: the set of its values (evaluated for any one member, and for None)"""
        g = n.generators[0]
        c = self.B.get_set(self, st, it)
        y = z3.Real('y!set')

        def at(v, here):
            """condition and value for one member; may only raise, not change anything"""
            s = st.copy()
            s.env = dict(s.env)
            if here is not True:
                s.pc.append(here)
            heap = dict(s.heap)
            u0 = uid()
            old = fr.locals
            fr.locals = (fr.locals or set()) | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            try:
                self.assign(g.target, v, s, fr)
                cond = True
                for t in g.ifs:
                    k = self.truth(s, self.ev(t, s, fr))
                    cond = And_(cond, k)
                    if k is False:
                        return False, None
                    if k is not True:
                        s.pc.append(k)
                val = self.ev(n.elt, s, fr)
            finally:
                fr.locals = old
            if any(s.heap.get(k) is not h for k, h in heap.items()) or len(s.heap) != len(heap):
                raise Unsupported('generator over a set with effects')
            for t in (cond, val):
                if is_z(t) and any(k.rsplit('!', 1)[-1].isdigit() and int(k.rsplit('!', 1)[-1]) > u0
                                   for k in self.const_names(t)):
                    raise Unsupported('generator over a set with unknown values')
            return cond, val
        cond, val = at(y, z3.Select(c.arr, y))
        if not (val is None and cond is False) and not is_num(val):
            raise Unsupported('generator over a set')
        cond0, val0 = False, None
        if c.none is not False and self.feasible(st.pc, c.none):
            cond0, val0 = at(None, c.none)
            if not (cond0 is False or val0 is None or is_num(val0)):
                raise Unsupported('generator over a set')
        if cond is False:
            cond, val = z3.BoolVal(False), z3.RealVal(0)
        return self.B.SetGen(self.B.set_image(self, c, cond, val, cond0, val0))

    @staticmethod
    def const_names(t):
        out, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        return out

    def comp(self, n, st, fr, kind):
        """desugar into nested for loops appending to a hidden list"""
        if len(n.generators) == 1 and kind != 'list' and isinstance(n.generators[0].iter, (ast.Name, ast.Attribute)):
            it = self.ev(n.generators[0].iter, st.copy(), fr)
            if isinstance(it, Ref) and it.cls is set and self.B.get_set(self, st, it).items is None:
                return self.over_set(n, it, st, fr)
        r = self.pointwise(n, st, fr) if kind in ('list', 'gen') else None
        if r is not None:
            return r if kind == 'list' else self.B.make_iterator(self, st, r)
        hid = '#comp%d' % uid()
        if kind == 'sum':
            r = 0
            body = [ast.AugAssign(target=ast.Name(id=hid, ctx=ast.Store()), op=ast.Add(), value=n.elt)]
        else:
            r = self.new_list(st, CL(()))
            body = [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=hid, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                      args=[n.elt], keywords=[]))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            body[0].filtered = bool(g.ifs)
        for b in body:
            ast.fix_missing_locations(ast.copy_location(b, n))
            for x in ast.walk(b):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
        # comprehension scope: targets are local to it
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: st.env.get(k, None) for k in names if k in st.env}
        st.env = dict(st.env)
        st.env[hid] = r
        old_locals = fr.locals
        fr.locals = (fr.locals or set()) | names | {hid}
        try:
            s = self.exec_block(body, st.copy(), fr)
        finally:
            fr.locals = old_locals
        if s is None:
            raise Dead()
        env = s.env
        total = env.pop(hid, None)
        for k in names:
            if k in saved:
                env[k] = saved[k]
            else:
                env.pop(k, None)
        st.set(s)
        if kind == 'sum':
            return total
        self.kept_elements(n, st, fr, r)
        if kind == 'gen':
            return self.B.make_iterator(self, st, r)
        return r

    def pointwise(self, n, st, fr):
        """[f(x) for x in seq] for a pure f that cannot raise and gives numbers: the sequence of its values"""
        if len(n.generators) != 1 or n.generators[0].ifs or self.unroll is not None:
            return None
        g = n.generators[0]
        s = st.copy()
        self.rstack.append([])
        self.dry += 1
        n_ax = len(self.axioms)
        deep = self.depth_map
        old = fr.locals
        fr.locals = (fr.locals or set()) | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        try:
            d = self.B.iterate(self, s, self.ev(g.iter, s, fr))
            if isinstance(d, (list, tuple)) or getattr(d, 'on_next', None) or getattr(d, 'on_end', None):
                return None
            k = z3.Int('k%d!map' % deep)
            self.depth_map += 1
            length = to_int(d.n)
            s.env = dict(s.env)
            s.pc = s.pc + [z3.And(0 <= k, k < length)]
            heap = dict(s.heap)
            base, u0 = len(s.pc), uid()
            self.assign(g.target, d.item(k), s, fr)
            v = self.ev(n.elt, s, fr)
            if any(s.heap.get(x) is not h for x, h in heap.items()) or len(s.heap) != len(heap):
                return None
            # (exits the pruning of paths leaves open may still be impossible: here the facts about all elements count)
            if any(not self.surely(x[0].pc, False) for x in self.rstack[-1]) or not all(self.surely(s.pc[:base], p) for p in s.pc[base:]):
                return None
            if not (is_num(v) or isinstance(v, (bool, z3.BoolRef))):
                return None
            e = elem_of(v)
            body = e.enc(v)
            kn = k.decl().name()
            news = [self.const_names(a) for a in self.axioms[n_ax:]]
            for names in [self.const_names(body)] + [x for x in news if kn in x]:
                if any(x.rsplit('!', 1)[-1].isdigit() and int(x.rsplit('!', 1)[-1]) > u0 for x in names):
                    return None
        except (Dead, Unsupported):
            return None
        finally:
            fr.locals = old
            self.dry -= 1
            self.depth_map = deep
            self.rstack.pop()
        # facts about the values at any one place are facts about all of them
        self.axioms[n_ax:] = [z3.ForAll([k], a) if kn in x else a for a, x in zip(self.axioms[n_ax:], news)]
        return self.new_list(st, SL(self.B.mapped(self, k, length, body), e, self.alloc))

    def surely(self, pc, fact):
        """does pc imply fact, quantified facts included? (not known counts as no)"""
        self.check_deadline()
        v = z3.Solver()
        v.set('timeout', 2000)
        v.add(*self.axioms)
        v.add(*[zb(p) for p in pc])
        v.add(z3.Not(zb(fact)))
        return v.check() == z3.unsat

    def kept_elements(self, n, st, fr, r):
        """[x for x in seq if p(x)]: every element of the result satisfies p (a function of the element alone)"""
        if len(n.generators) != 1 or not n.generators[0].ifs:
            return
        g = n.generators[0]
        if not (isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id):
            return
        if any(not isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context))
               or isinstance(x, ast.Name) and x.id != g.target.id for c in g.ifs for x in ast.walk(c)):
            return
        c = self.items(st.copy(), r)
        if not isinstance(c, SL) or not isinstance(c.elem, NumE):
            return
        base = st.copy()

        def holds(x):
            t = base.copy()
            t.env = {g.target.id: x}
            self.rstack.append([])
            try:
                return And_(*[_cb(self.truth(t, self.ev(e, t, fr))) for e in g.ifs])
            except (Dead, Unsupported):
                return None
            finally:
                self.rstack.pop()
        self.each[c.term.get_id()] = (holds, c.term)

    def ex_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else None
        self.B.call_method(self, st, st.env['#yield'], 'append', [v], {})
        return None

    def ex_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.B.call_method(self, st, st.env['#yield'], 'extend', [v], {})
        return None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, name):
        cond = _cb(cond)
        if self.dry:
            return
        cuts = any(c in self.cut_ids for c in self.pc_consts(st.pc)) if self.cut_ids else False
        self.obls.append(Obligation(name, list(st.pc), cond, self.where, cuts))

    def pc_consts(self, pc):
        # only the placeholders of cut loops matter
        out = []
        for p in pc:
            if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(p.get_id())
            elif not z3.is_const(p) if is_z(p) else False:
                if self.cut_ids and any(s in p.sexpr() for s in ()):
                    out.append(p.get_id())
        return out
