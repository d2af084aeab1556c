"""Loops over an unknown number of iterations: inference and checking of inductive invariants.

A loop is cut at its head. The set of components the body may change is found by abstract re-execution,
the head state gives each of them an arbitrary value of its type, and a candidate set of facts about the head
(equalities between program and ghost components, counters, constants, the invariants written in the contract)
is reduced to its largest inductive subset (Houdini). The surviving conjunction is what the body obligations and
the code after the loop may rely on. Every step is an obligation discharged by the solver: initiation (facts hold
at entry) and preservation (facts hold after any iteration from any head state satisfying them).
"""
import ast
import os
import re
import time
import z3
from .values import *
from .values import _cb
from . import heap as H
from .heap import UNDEF, read, Write, Havoc, LISTFAM, conc_writes

MAXFIX = 8


class Poison(object):
    """a local whose value after an unknown number of iterations cannot be described"""
    def __init__(self, name):
        self.name = name

    def _kind(self):
        return 'poison'

    def _same(self, o):
        return True

    def _merge(self, g, o):
        return self

    def _typ(self):
        return POISONT()


class POISONT(T):
    _join = True

    def fresh(self, mk, eng=None):
        return Poison('?')


class PLACE(T):
    """a list object that the body may replace by a freshly allocated one; modelled by a placeholder object"""
    _join = True

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return 'place(%s)' % self.cls.__name__


def safe_type(v):
    try:
        return typeof(v)
    except Unsupported:
        return POISONT()


def safe_join(a, b):
    if isinstance(a, POISONT) or isinstance(b, POISONT):
        return POISONT()
    try:
        return jointype(a, b)
    except Unsupported:
        return POISONT()


def is_list_ref(v):
    return isinstance(v, Ref) and isinstance(v.ident, int) and issubclass(v.cls, list)


def prefix(t, k):
    """the first k elements of a sequence, as a function defined by its recurrence (instantiated per loop)"""
    return z3.Function('prefix_%s' % t.sort().basis().name(), t.sort(), z3.IntSort(), t.sort())(t, z3.IntVal(k) if isinstance(k, int) else k)


def stated(nm):
    """an invariant written in the contract"""
    return nm.rpartition('.')[2].startswith('inv')


class Cut(object):
    def __init__(self, eng, node, st, fr, d):
        self.eng, self.node, self.fr, self.d = eng, node, fr, d
        self.S0 = st.copy()
        self.tag = uid()
        self.env_t = {}            # env name -> type
        self.heap_t = {}           # heap key -> {'conc': {id: type}, 'old': bool, 'new': bool, 'typ': type}
        self.place = {}            # holder (('env', name) | ('attr', key, id)) -> element type of the content
        self.alloc0 = eng.alloc
        self.name = '%s:%s' % (fr.name, getattr(node, 'lineno', '?'))
        base = d
        while getattr(base, 'src', None) is not None:
            base = base.src
        self.base = base           # what is iterated over, without numbering
        self.foreign = set()       # heap keys written through references other than the current element

    # ------------------------------------------------------------ head
    def head(self):
        eng = self.eng
        Hs = self.S0.copy()
        eng.alloc += 1000
        alloc_head = eng.alloc
        self.mark = uid()
        self.k = eng.fresh('k%d' % self.tag, z3.IntSort())
        seq = getattr(self.base, 'seq', None)
        if isinstance(seq, SL):
            t, k = seq.term, self.k
            n = z3.Length(t)
            eng.axiom(prefix(t, 0) == z3.Empty(t.sort()))
            eng.axiom(prefix(t, n) == t)
            eng.axiom(z3.Implies(z3.And(k >= 0, k <= n), z3.Length(prefix(t, k)) == k))
            eng.axiom(z3.Implies(z3.And(k >= 0, k < n), prefix(t, k + 1) == z3.Concat(prefix(t, k), z3.Unit(t[k]))))
        self.offset = None
        base = getattr(self.base, 'seq', None)
        if isinstance(base, SL):
            for f in eng.flats:
                o = f.at_loop(base, self.k)
                if o is not None:
                    self.offset = f
        run = uid()
        mk_for = lambda nm: (lambda suffix, sort: z3.Const('%s.%s!%d' % (nm, suffix, run), sort))
        places = {}
        self.places = places
        for holder, elem in self.place.items():
            cls = elem[0]
            p = eng.new_ref(cls)
            places[holder] = p
        for nm, t in sorted(self.env_t.items()):
            h = ('env', nm)
            if h in places:
                Hs.env[nm] = places[h]
            else:
                Hs.env[nm] = t.fresh(mk_for(nm), eng)
        for key in sorted(self.heap_t, key=str):
            m = self.heap_t[key]
            fam, attr = key
            cname = '%s.%s' % (getattr(fam, '__name__', fam), attr)
            conc = {}
            for i, t in sorted(m['conc'].items()):
                h = ('attr', key, i)
                if h in places:
                    conc[i] = places[h]
                else:
                    conc[i] = t.fresh(mk_for('%s#%d' % (cname, i - 1000000)), eng)
            parent = eng.heap_node(Hs.heap, key)
            Hs.heap[key] = Havoc(parent, conc, m['old'], m['new'], '%s!h%d' % (cname, run), m['typ'], self.unvisited(key),
                                 eng, self.alloc0, self.home(key))
        ik = (LISTFAM, '#items')
        for holder, (cls, elem) in self.place.items():
            p = places[holder]
            c = SEQT(elem).fresh(mk_for('content_%s' % (holder[-1] if holder[0] == 'env' else holder[1][1])), eng)
            Hs.heap[ik] = Write(eng.heap_node(Hs.heap, ik), p, c)
        eng.alloc += 10
        self.alloc_head = eng.alloc
        # elements read from head structures existed before
        return Hs

    def unvisited(self, key):
        """identities that no earlier iteration can have written: the current element of a list of distinct objects,
        when the body writes to no other pre-existing object"""
        if key in self.foreign:
            return []
        t = self.current()
        return [] if t is None else [t]

    def home(self, key):
        """the input list whose elements are the only pre-existing objects the body writes to"""
        if key in self.foreign or self.current() is None:
            return None
        t = self.base.seq.term
        return t if z3.is_const(t) and t.decl().name() in self.eng.input_seqs else None

    def current(self):
        seq = getattr(self.base, 'seq', None)
        if self.d is None or not isinstance(seq, SL) or not seq.distinct:
            return None
        item = self.base.item(self.k)
        return item.ident if isinstance(item, Ref) and not isinstance(item.ident, int) else None

    # ------------------------------------------------------------ one iteration
    def iterate(self, Hs, extra):
        """run the body once from head Hs; returns dict(ends, breaks, returns, raises, exits)"""
        eng, fr, node, d = self.eng, self.fr, self.node, self.d
        B = Hs.copy()
        B.pc = B.pc + list(extra)
        k = self.k
        B.pc.append(k >= 0)
        n0 = len(fr.returns)
        eng.rstack.append([])
        from .engine import LoopCtx, Dead
        lc = LoopCtx()
        ends, exits = [], []
        fr.loops.append(lc)
        try:
            if d is not None:
                B.pc.append(k < self.n)
                if eng.feasible(B.pc):
                    item = d.item(k)
                    if getattr(d, 'on_next', None):
                        d.on_next(B, k)
                    try:
                        if node.target is not None:
                            eng.assign(node.target, item, B, fr)
                        self.observe(B, item, 'begin')
                        r = eng.exec_block(node.body, B, fr)
                    except Dead:
                        r = None
                    if r is not None:
                        ends.append(r)
                    ends.extend(lc.continues)
                    for e in ends:
                        self.observe(e, item, 'end')
            else:
                try:
                    c = _cb(eng.truth(B, eng.ev(node.test, B, fr)))
                    nc = Not_(c)
                    if nc is not False and eng.feasible(B.pc, nc):
                        X = B.copy()
                        if nc is not True:
                            X.pc.append(nc)
                        exits.append(X)
                    if c is not False and eng.feasible(B.pc, c):
                        if c is not True:
                            B.pc.append(c)
                        r = eng.exec_block(node.body, B, fr)
                    else:
                        r = None
                except Dead:
                    r = None
                if r is not None:
                    ends.append(r)
                ends.extend(lc.continues)
        finally:
            fr.loops.pop()
            raises = eng.rstack.pop()
        rets = fr.returns[n0:]
        del fr.returns[n0:]
        return dict(ends=ends, breaks=lc.breaks, returns=rets, raises=raises, exits=exits)

    def observe(self, st, item, what):
        seq = getattr(self.base, 'seq', None)
        if self.base is not self.d and isinstance(seq, SL):
            item = self.base.item(self.k)
        tag = getattr(seq, 'tag', None)
        if tag is not None and tag in self.eng.observers:
            g = self.eng.observers[tag]
            f = getattr(g.cls, what, None)
            if f is not None:
                self.eng.call(st, f, [g, item], {})

    # ------------------------------------------------------------ modified components
    def entry_attr(self, key, i):
        return read(self.eng.heap_node(self.S0.heap, key), Ref(object, i))

    def find_mods(self):
        eng = self.eng
        self.n = None
        if self.d is not None:
            n = to_int(self.d.n)
            self.n = n
        for it in range(MAXFIX):
            eng.check_deadline()
            Hs = self.head()
            a0 = self.alloc_head
            eng.dry += 1
            try:
                out = self.iterate(Hs, [])
            finally:
                eng.dry -= 1
            changed = False
            states = out['ends']
            for E in states:
                changed |= self.absorb(Hs, E, a0)
            if not changed:
                self.free = (Hs, states, self.k)
                return
        raise Unsupported('loop %s: modified components do not stabilise' % self.name)

    def absorb(self, Hs, E, a0):
        """add the components in which E differs from the head"""
        eng = self.eng
        changed = False
        for nm in set(E.env) | set(Hs.env):
            a, b = Hs.env.get(nm, UNDEF), E.env.get(nm, UNDEF)
            if same(a, b):
                continue
            entry = self.S0.env.get(nm, UNDEF)
            changed |= self.add_env(nm, entry, b, E)
        for key, node in E.heap.items():
            hn = eng.heap_node(Hs.heap, key)
            if node is hn:
                continue
            w = conc_writes(node, hn)
            m = self.heap_t.get(key)
            if m is None:
                m = {'conc': {}, 'old': False, 'new': False, 'typ': None}
            touched = False
            for rk, ref in w.items():
                if rk == 'old':
                    self.foreign.add(key)
                    if not m['old']:
                        m['old'] = True
                        touched = True
                    # type comes from the inner havoc
                    t = self.havoc_type(node, hn)
                    touched |= self.join_typ(m, t)
                elif rk == 'new':
                    if not m['new']:
                        m['new'] = True
                        touched = True
                    t = self.havoc_type(node, hn)
                    touched |= self.join_typ(m, t)
                elif isinstance(rk, int):
                    v = read(node, ref)
                    if rk <= self.alloc0:
                        hv = read(hn, ref)
                        if same(hv, v):
                            continue
                        touched |= self.add_conc(m, key, rk, v, E)
                    elif self.is_place(rk):
                        h = self.holder_of(rk)
                        if key == (LISTFAM, '#items'):
                            changed |= self.place_content(h, v)
                        else:
                            raise Unsupported('attribute of a replaced list')
                    elif rk > a0:
                        if key[1].startswith('#') and key[0] != LISTFAM or self.private(rk, E, a0):
                            # hidden parts of temporary objects
                            if self.private(rk, E, a0):
                                continue
                        if not m['new']:
                            m['new'] = True
                            touched = True
                        touched |= self.join_typ(m, safe_type(self.where_allocated(rk, v, E)))
                    else:
                        if not m['new']:
                            m['new'] = True
                            touched = True
                else:
                    v = read(node, ref)
                    hv = read(hn, ref)
                    if same(hv, v):
                        continue
                    older = ref.asof is not None and ref.asof <= self.alloc0
                    cur = self.current()
                    if (cur is None or not cur.eq(ref.ident)) and key not in self.foreign:
                        self.foreign.add(key)
                        touched = True
                    if not m['old']:
                        m['old'] = True
                        touched = True
                    if not older and not m['new']:
                        m['new'] = True
                        touched = True
                    touched |= self.join_typ(m, safe_type(v))
                    bt = self.base_type(key)
                    if bt is not None:
                        touched |= self.join_typ(m, bt)
            if touched or (m['conc'] or m['old'] or m['new']) and key not in self.heap_t:
                self.heap_t[key] = m
                changed |= touched
        return changed

    def where_allocated(self, i, v, E):
        """an attribute of an object made in the body, on the paths that made it"""
        if not isinstance(v, Union) or i not in self.eng.alloc_pc or not any(x is UNDEF for _, x in v.cases):
            return v
        g = Or_(*[g for g, x in v.cases if x is UNDEF])
        if self.eng.feasible(E.pc, g, *self.eng.alloc_pc[i]):
            return v
        return mkunion([(g, x) for g, x in v.cases if x is not UNDEF])

    def base_type(self, key):
        return self.eng.schema.get(key)

    def private(self, i, E, a0):
        """is the object allocated in the body unreachable from the next head state?"""
        return i not in self.reach(E, a0)

    def reach(self, E, a0):
        c = getattr(E, 'heap', None)
        if getattr(self, '_reach_for', None) is E:
            return self._reach_set
        eng = self.eng
        seen = set()

        def add(v, depth=0):
            if isinstance(v, Ref):
                if isinstance(v.ident, int):
                    if v.ident in seen:
                        return
                    seen.add(v.ident)
                    if v.ident > a0:
                        for key, node in E.heap.items():
                            x = read(node, v)
                            if x is not UNDEF:
                                add(x)
            elif isinstance(v, Union):
                for _, x in v.cases:
                    add(x)
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
            elif isinstance(v, CL):
                for x in v.items:
                    add(x)
            elif isinstance(v, GL):
                for _, x in v.items:
                    add(x)
            elif isinstance(v, SymDict):
                for x in v.d.values():
                    add(x)
            elif isinstance(v, SL):
                self.term_ids(v.term, seen, add)
            elif isinstance(v, Bound):
                add(v.self)
            elif isinstance(v, Closure):
                for x in v.env.values():
                    add(x) if isinstance(x, (Ref, Union)) else None
        for nm, v in E.env.items():
            if v is not UNDEF:
                add(v)
        for key, node in E.heap.items():
            hn = self.eng.heap_node(self.S0.heap, key)
            n = node
            w = conc_writes(node, None)
            for rk, ref in w.items():
                if isinstance(rk, int) and rk <= a0:
                    x = read(node, ref)
                    if x is not UNDEF:
                        add(x)
                elif not isinstance(rk, int) and ref is not None:
                    x = read(node, ref)
                    if x is not UNDEF:
                        add(x)
        self._reach_for, self._reach_set = E, seen
        return seen

    def term_ids(self, t, seen, add):
        """object identities stored in a sequence term"""
        todo, done = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_int_value(x):
                i = x.as_long()
                if i > 1000000 and i not in seen:
                    add(Ref(object, i))
            elif z3.is_app(x):
                todo.extend(x.children())

    def havoc_type(self, node, stop):
        todo, seen = [node], set()
        t = None
        while todo:
            n = todo.pop()
            if n is stop or id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, Havoc):
                if n.typ is not None:
                    t = n.typ if t is None else safe_join(t, n.typ)
                todo.append(n.parent)
            elif isinstance(n, Write):
                todo.append(n.parent)
            elif isinstance(n, H.Ite):
                todo += [n.a, n.b]
        return t

    def join_typ(self, m, t):
        if t is None:
            return False
        if m['typ'] is None:
            m['typ'] = t
            return True
        j = safe_join(m['typ'], t)
        if repr_t(j) != repr_t(m['typ']):
            m['typ'] = j
            return True
        return False

    def is_place(self, i):
        return any(p.ident == i for p in self.places.values())

    def holder_of(self, i):
        for h, p in self.places.items():
            if p.ident == i:
                return h

    def place_content(self, h, v):
        cls, elem = self.place[h]
        e = content_elem(v)
        j = join_elem(elem, e)
        if (j is None) != (elem is None) or (j is not None and j.name() != elem.name()):
            self.place[h] = (cls, j)
            return True
        return False

    def list_holder(self, h, entry, v, E):
        """the holder's list object is replaced in the body"""
        cases = [x for _, x in v.cases] if isinstance(v, Union) else [v]
        if not (is_list_ref(entry) and all(is_list_ref(x) and x.cls is entry.cls for x in cases)):
            return None
        if entry.cls is not list and not issubclass(entry.cls, list):
            return None
        changed = False
        if h not in self.place:
            self.place[h] = (entry.cls, content_elem(self.eng.items(self.S0.copy(), entry)))
            changed = True
        for x in cases:
            if x.ident > self.alloc0 or x.key() == entry.key():
                changed |= self.place_content(h, self.eng.items(E.copy(), x))
            else:
                return None
        return changed

    def add_env(self, nm, entry, v, E):
        h = ('env', nm)
        r = self.list_holder(h, entry, v, E)
        if r is not None:
            ch = nm not in self.env_t
            self.env_t[nm] = PLACE(entry.cls)
            return r or ch
        t = self.env_t.get(nm)
        if t is None:
            t = CONST(UNDEF) if entry is UNDEF else safe_type(entry)
            self.env_t[nm] = safe_join(t, self.outer_type(v))
            return True
        j = safe_join(t, self.outer_type(v))
        if repr_t(j) != repr_t(t):
            self.env_t[nm] = j
            return True
        return False

    def outer_type(self, v):
        """type of a value at the end of the body; references to objects made in the body become symbolic"""
        if v is UNDEF:
            return CONST(UNDEF)
        if isinstance(v, Ref) and isinstance(v.ident, int) and v.ident > self.alloc0:
            if v.cls in (dict, set) or v.cls.__name__ == 'PyIter':
                return POISONT()
            return REFT(v.cls)
        if isinstance(v, tuple):
            ts = [self.outer_type(x) for x in v]
            if any(isinstance(t, POISONT) for t in ts):
                return POISONT()
            return TUPT(ts)
        if isinstance(v, Union):
            ts = [self.outer_type(x) for _, x in v.cases]
            if any(isinstance(t, POISONT) for t in ts):
                return POISONT()
            j = ts[0]
            for t in ts[1:]:
                j = safe_join(j, t)
            return j
        return safe_type(v)

    def add_conc(self, m, key, i, v, E):
        entry = self.entry_attr(key, i)
        h = ('attr', key, i)
        r = self.list_holder(h, entry, v, E)
        if r is not None:
            ch = i not in m['conc']
            m['conc'][i] = PLACE(entry.cls)
            return r or ch
        t = m['conc'].get(i)
        if t is None:
            if entry is UNDEF:
                t0 = CONST(UNDEF)
            else:
                t0 = safe_type(entry)
            m['conc'][i] = safe_join(t0, self.outer_type(v))
            return True
        j = safe_join(t, self.outer_type(v))
        if repr_t(j) != repr_t(t):
            m['conc'][i] = j
            return True
        return False

    # ------------------------------------------------------------ components and candidates
    def components(self):
        """[(name, accessor, ghost?)] : values that candidates talk about"""
        eng = self.eng
        out = []
        ik = (LISTFAM, '#items')
        contract = self.fr.globs.get('__file__', '').startswith(eng.contract_dir)

        def acc_env(nm):
            return lambda s: s.env.get(nm, UNDEF)

        def acc_heap(key, i):
            return lambda s: read(eng.heap_node(s.heap, key), Ref(object, i))

        def acc_content(holder_acc):
            def f(s):
                v = holder_acc(s)
                if isinstance(v, Union):
                    r = None
                    for g, x in reversed(v.cases):
                        y = eng.items(s.copy(), x)
                        r = y if r is None else eng.mergev(g, y, r)
                    return r
                return eng.items(s.copy(), v)
            return f
        seen_env = set(self.env_t)
        for nm, t in sorted(self.env_t.items()):
            if isinstance(t, POISONT):
                continue
            if isinstance(t, PLACE):
                out.append(('[%s]' % nm, acc_content(acc_env(nm)), contract, True))
            else:
                if self.S0.env.get(nm, UNDEF) is UNDEF:
                    continue
                out.append((nm, acc_env(nm), contract, True))
        for key, m in sorted(self.heap_t.items(), key=lambda x: str(x[0])):
            for i, t in sorted(m['conc'].items()):
                if isinstance(t, POISONT):
                    continue
                cls = eng.cls_of.get(i)
                gh = cls is not None and eng.is_ghost(cls) or i in eng.ghost_lists
                nm = '%s.%s#%d' % (getattr(key[0], '__name__', key[0]), key[1], i - 1000000)
                if isinstance(t, PLACE):
                    out.append(('[%s]' % nm, acc_content(acc_heap(key, i)), gh, True))
                elif self.entry_attr(key, i) is UNDEF:
                    d = class_default(cls, key[1])
                    if d is not UNDEF:
                        out.append((nm, with_default(acc_heap(key, i), d), gh, True))
                else:
                    out.append((nm, acc_heap(key, i), gh, True))
        # unmodified components of the frame, ghosts and objects in sight (right-hand sides only)
        objs = {}

        def sight(v, depth=0):
            if isinstance(v, Bound):
                v = v.self
            if isinstance(v, Ref) and isinstance(v.ident, int) and v.ident not in objs and depth < 3:
                objs[v.ident] = v
                if v.cls in (list, dict, set) or v.cls.__name__ == 'PyIter':
                    return
                fam = family(v.cls)
                for key in list(self.S0.heap):
                    if key[0] is fam:
                        x = read(eng.heap_node(self.S0.heap, key), v)
                        if isinstance(x, Ref):
                            sight(x, depth + 1)
        for nm, v in self.S0.env.items():
            sight(v)
            if nm not in seen_env and (is_num(v) and is_z(v)):
                out.append((nm, acc_env(nm), contract, False))
        for i, v in sorted(objs.items()):
            fam = family(v.cls)
            gh = eng.is_ghost(v.cls)
            for key in sorted((k for k in self.S0.heap if k[0] is fam), key=str):
                m = self.heap_t.get(key)
                if m and i in m['conc']:
                    continue
                x = read(eng.heap_node(self.S0.heap, key), v)
                if is_num(x) and is_z(x):
                    out.append(('%s.%s#%d' % (fam.__name__, key[1], i - 1000000), acc_heap(key, i), gh, False))
        self.objs = objs
        return out

    def candidates(self):
        """[(name, f)] with f(state, k) -> condition"""
        eng = self.eng
        comps = self.components()
        S0 = self.S0
        out = []
        vals = {}
        for nm, acc, gh, mod in comps:
            try:
                vals[nm] = acc(S0)
            except Unsupported:
                vals[nm] = None
        kinds = {}
        for nm, acc, gh, mod in comps:
            kinds[nm] = compkind(vals[nm])
        eqp = lambda a, b: (lambda s, k: eng.eq_plain(a(s), b(s)))
        # type of the head value may be wider than at entry
        for idx, (nm, acc, gh, mod) in enumerate(comps):
            v = vals[nm]
            if not mod:
                continue
            if isinstance(v, (CL, GL, SL)):
                l0 = eng.B.content_len(v)
                if eng.linear_only and isinstance(l0, int) and l0 == 0:
                    out.append(('len %s > 0 after a turn' % nm, (lambda acc: lambda s, k: Or_(k == 0, to_int(eng.B.content_len(acc(s))) > 0))(acc)))
                out.append(('len %s = k+c' % nm, (lambda acc, l0: lambda s, k: to_int(eng.B.content_len(acc(s))) == to_int(l0) + k)(acc, l0)))
                if not (isinstance(l0, int) and l0 == 0):
                    out.append(('len %s const' % nm, (lambda acc, l0: lambda s, k: to_int(eng.B.content_len(acc(s))) == to_int(l0))(acc, l0)))
                    if gh and not eng.linear_only:
                        out.append(('%s content const' % nm, (lambda acc, v: lambda s, k: eng.eq_content(None, acc(s), v))(acc, v)))
                continue
            if v is None or isinstance(v, (bool, str)) or (is_num(v) and not is_z(v)):
                out.append(('%s = %r' % (nm, v), (lambda acc, v: lambda s, k: eng.eq_plain(acc(s), v))(acc, v)))
                if is_num(v):
                    out.append(('%s >= %r' % (nm, v), (lambda acc, v: lambda s, k: cmp_num(acc(s), v))(acc, v)))
            elif is_z(v):
                out.append(('%s const' % nm, (lambda acc, v: lambda s, k: eng.eq_plain(acc(s), v))(acc, v)))
            if not isinstance(v, (Union, CL, GL, SL)) and not isinstance(v, Ref):
                out.append(('%s same kind' % nm, (lambda acc, v: lambda s, k: same_kind(acc(s), v))(acc, v)))
            if v is None and eng.linear_only:
                for nm2, acc2, gh2, mod2 in comps:
                    if not mod2 and is_num(vals[nm2]):
                        for op in ('>', '<'):
                            out.append(('%s None or %s %s' % (nm, op, nm2), (lambda a, b, op: lambda s, k: beyond(a(s), b(s), op))(acc, acc2, op)))
            if v is None or is_num(v) and not is_z(v) and v != 0:
                out.append(('%s != 0' % nm, (lambda acc: lambda s, k: not_zero(acc(s)))(acc)))
            if isinstance(v, Ref):
                out.append(('%s is object' % nm, (lambda acc: lambda s, k: same_kind(acc(s), None, True))(acc)))
            if is_int(v):
                out.append(('%s = k+c' % nm, (lambda acc, v: lambda s, k: eng.eq_plain(acc(s), to_int(v) + k))(acc, v)))
                if self.offset is not None:
                    out.append(('%s = lines before k' % nm, (lambda acc, v: lambda s, k: eng.eq_plain(acc(s), to_int(v) + self.offset.off(to_int(k))))(acc, v)))
                # a counter equal to the length of a list
        seq = getattr(self.base, 'seq', None)
        if isinstance(seq, SL):
            for nm, acc, gh, mod in comps:
                if mod and isinstance(vals[nm], (CL, GL, SL)):
                    out.append(('%s = prefix' % nm, (lambda acc: lambda s, k: eng.eq_content(None, acc(s), SL(prefix(seq.term, k), seq.elem)))(acc)))
        lists = [(nm, acc) for nm, acc, gh, mod in comps if isinstance(vals[nm], (CL, GL, SL))]
        nums = [c for c in comps if kinds[c[0]] is not None]
        ghosts = [v for i, v in sorted(self.objs.items()) if eng.is_ghost(v.cls)]
        if any(getattr(v.cls, 'manual', False) for v in ghosts):
            # the contract states the relations itself
            nums, lists = [], []
        for i, (nm, acc, gh, mod) in enumerate(nums):
            for nm2, acc2, gh2, mod2 in nums[i + 1:]:
                if not mod and not mod2:
                    continue
                if kinds[nm] != kinds[nm2]:
                    if not {kinds[nm], kinds[nm2]} <= {'none', 'num'} and not {kinds[nm], kinds[nm2]} <= {'none', 'str'}:
                        continue
                if not gh and not gh2 and len(nums) > 24 and not (self.d is None and mod and mod2):
                    continue
                out.append(('%s = %s' % (nm, nm2), eqp(acc, acc2)))
                if gh != gh2 and kinds[nm] == kinds[nm2] == 'num' and eng.linear_only:
                    lo, hi = ((nm, acc), (nm2, acc2)) if gh else ((nm2, acc2), (nm, acc))
                    out.append(('%s <= %s' % (lo[0], hi[0]), (lambda a, b: lambda s, k: below(a(s), b(s)))(lo[1], hi[1])))
                if kinds[nm] == 'bool' and kinds[nm2] == 'bool':
                    out.append(('%s = not %s' % (nm, nm2), (lambda a, b: lambda s, k: eng.eq_plain(a(s), Not_(_cb(b(s)))))(acc, acc2)))
        if self.d is None and eng.must_end:
            # progress towards a bound
            for nm, acc, gh, mod in nums:
                for nm2, acc2, gh2, mod2 in nums:
                    if mod and not mod2 and kinds[nm] == kinds[nm2] == 'num':
                        out.append(('%s < %s' % (nm, nm2), (lambda a, b: lambda s, k: strictly(a(s), b(s)))(acc, acc2)))
        for i, (nm, acc) in enumerate(lists):
            for nm2, acc2 in lists[i + 1:]:
                out.append(('%s = %s' % (nm, nm2), (lambda a, b: lambda s, k: eng.eq_content(None, a(s), b(s)))(acc, acc2)))
                out.append(('len %s = len %s' % (nm, nm2), (lambda a, b: lambda s, k: to_int(eng.B.content_len(a(s))) == to_int(eng.B.content_len(b(s))))(acc, acc2)))
            for nm2, acc2, gh2, mod2 in nums:
                if kinds[nm2] == 'num' and is_int(vals[nm2]):
                    out.append(('len %s = %s' % (nm, nm2), (lambda a, b: lambda s, k: eng.eq_plain(to_int(eng.B.content_len(a(s))), b(s)))(acc, acc2)))
        if isinstance(seq, SL) and eng.linear_only:
            lists_ = [(nm, acc, gh, mod) for nm, acc, gh, mod in comps if mod and isinstance(vals[nm], (CL, GL, SL))]
            for nm, acc, gh, mod in lists_:
                for nm2, acc2, gh2, mod2 in lists_:
                    if gh and not gh2:
                        out.append(('%s ++ %s = prefix' % (nm, nm2), (lambda a, b: lambda s, k: eng.eq_content(None, eng.B.concat(eng, a(s), b(s)), SL(prefix(seq.term, k), seq.elem)))(acc, acc2)))
        # invariants written in ghost classes
        for i, v in sorted(self.objs.items()):
            if eng.is_ghost(v.cls):
                for nm in dir(v.cls):
                    if nm.startswith('inv_'):
                        out.append(('%s.%s' % (v.cls.__name__, nm), self.hint(v, getattr(v.cls, nm))))
        # invariants written in the loop: invariant(expr) statements at the start of the body
        for s in self.node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id == 'invariant':
                for e in s.value.args:
                    out.append(('invariant@%d' % e.lineno, self.expr_inv(e)))
        return out

    def pure(self, s, f):
        """evaluate a side-effect-free condition; exceptions make it false"""
        eng = self.eng
        from .engine import Dead
        t = s.copy()
        base = len(t.pc)
        eng.rstack.append([])
        eng.dry += 1
        try:
            c = f(t)
        except Dead:
            return False
        finally:
            eng.dry -= 1
            eng.rstack.pop()
        extra = And_(*t.pc[base:])
        return And_(extra, c)

    def hint(self, ref, fn):
        eng = self.eng
        return lambda s, k: self.pure(s, lambda t: _cb(eng.truth(t, eng.call(t, fn, [ref], {}))))

    def expr_inv(self, e):
        eng, fr = self.eng, self.fr

        def f(t):
            return _cb(eng.truth(t, eng.ev(e, t, fr)))
        return lambda s, k: self.pure(s, f)

    # ------------------------------------------------------------ Houdini
    def run(self):
        eng = self.eng
        t0 = time.time()
        self.find_mods()
        self.check_places()
        cands = []
        models = []
        dbg = os.environ.get('PYDV_DEBUG')
        for nm, f in ([] if getattr(self.node, 'filtered', False) and eng.linear_only else self.candidates()):
            try:
                c0 = _cb(f(self.S0, z3.IntVal(0)))
            except Unsupported:
                continue
            if c0 is False:
                continue
            if c0 is not True and any(z3.is_false(m.eval(eng.lin(c0), model_completion=True)) for m in models):
                continue
            seen = len(models)
            if c0 is True or eng.proves(self.S0.pc, c0, models=models):
                cands.append((nm, f))
            elif stated(nm) and len(models) == seen:
                # not decided: an invariant of the contract is worth a longer look
                if eng.proves(self.S0.pc, c0, timeout=15000, models=models):
                    cands.append((nm, f))
                elif len(models) == seen:
                    eng.slow.append(nm)
            elif dbg:
                print('   [%s] not initial: %s' % (self.name, nm))
        cands = self.first_pass(cands, dbg)
        rounds = 0
        while True:
            eng.check_deadline()
            rounds += 1
            Hs = self.head()
            cur = []
            for nm, f in cands:
                try:
                    c = _cb(f(Hs, self.k))
                except Unsupported as ex:
                    if os.environ.get("PYDV_DEBUG"): print("   unsupported", nm, ex)
                    continue
                if isinstance(c, bool):
                    if c:
                        cur.append((nm, f, True))
                    continue
                cur.append((nm, f, c))
            B = eng.fresh('INV%d' % self.tag, z3.BoolSort())
            defs = [(nm, f, c) for nm, f, c in cur]
            conj = And_(*[c for _, _, c in defs])
            eng.axiom(Implies_(B, conj)) if conj is not True else None
            inv_def = zb(Implies_(B, conj))
            Hs.pc = Hs.pc + [B, self.k >= 0] + ([self.k <= self.nn()] if self.n is not None else [])
            eng.dry += 1
            try:
                out = self.iterate(Hs, [])
            finally:
                eng.dry -= 1
            ends = []
            for E in out['ends']:
                ends.append((E, [(nm, f, self.eval_end(f, E)) for nm, f, _ in cur]))
            alive = self.houdini(B, inv_def, cur, ends)
            dropped = [nm for nm, _, _ in cur if nm not in alive]
            if dbg and dropped:
                print('   [%s] not inductive: %s' % (self.name, dropped))
            cands = [(nm, f) for nm, f, _ in cur if nm in alive]
            if not dropped:
                break
            if rounds > 12:
                raise Unsupported('invariant inference does not converge')
        # final, recording run
        eng.loop_log.append((self.name, len(cands), [nm for nm, _ in cands], round(time.time() - t0, 2)))
        if not eng.dry:
            eng.n_inv += len(cands)
            out = self.iterate(Hs, [])
            # the recorded obligations come from the run with exactly these invariants
            if self.d is None and eng.must_end:
                self.ending(Hs, out['ends'])
        done = []
        fr = self.fr
        for r in out['returns']:
            fr.returns.append(r)
        for r in out['raises']:
            eng.rstack[-1].append(r)
        done.extend(out['breaks'])
        X = []
        if self.d is not None:
            E = Hs.copy()
            E.pc = E.pc + [self.k == self.nn()]
            if (out['returns'] or out['breaks'] or out['raises']) and not eng.linear_only:
                E.pc = E.pc + self.history(Hs, out['ends'])
            if eng.feasible(E.pc):
                if getattr(self.d, 'on_end', None):
                    self.d.on_end(E)
                if getattr(self.node, 'orelse', None):
                    E = eng.exec_block(self.node.orelse, E, fr)
                if E is not None:
                    X.append(E)
        else:
            X.extend(out['exits'])
        outs = [(s, None) for s in done + X]
        if not outs:
            return None
        base = len(self.S0.pc)
        # exclusive cases: they share k and the head state
        return eng.merge_all(base, outs)[0]

    def ending(self, Hs, ends):
        """a quantity that cannot change for ever the way every turn changes it"""
        from . import builtins_ as B
        eng = self.eng
        tops = [z3.Length(t) for t in eng.seq_terms]

        def grows(key, ref):
            a = read(eng.heap_node(Hs.heap, key), ref)
            for E in ends:
                b = read(eng.heap_node(E.heap, key), ref)
                if not isinstance(a, B.SetV) or not isinstance(b, B.SetV):
                    return
                todo, idx = [b.arr], []
                while todo:
                    t = todo.pop()
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                        idx.append(t.arg(1))
                    if z3.is_app(t) and z3.is_array(t):
                        todo.extend(t.children())
                keep = z3.IsSubset(a.arr, b.arr)
                yield E, [z3.And(keep, z3.Or(*[z3.And(z3.IsInt(x), x >= 0, x < z3.ToReal(n), z3.Not(z3.Select(a.arr, x)), z3.Select(b.arr, x))
                                               for x in idx])) if idx else False for n in tops]

        def counts(get):
            a = get(Hs)
            for E in ends:
                b = get(E)
                if not (is_z(a) or isinstance(a, int)) or not (is_z(b) or isinstance(b, int)):
                    return
                if not (isinstance(a, int) or a.sort() == z3.IntSort()) or not (isinstance(b, int) or b.sort() == z3.IntSort()):
                    return
                a1, b1 = to_int(a), to_int(b)
                yield E, [z3.And(b1 < a1, a1 >= 0)] + [z3.And(b1 > a1, a1 < n) for n in tops]

        ms = []
        for i in sorted(self.heap_t.get(B.SETKEY, {}).get('conc', {})):
            ms.append(lambda i=i: grows(B.SETKEY, Ref(set, i)))
        for nm in sorted(self.env_t):
            ms.append(lambda nm=nm: counts(lambda s: s.env.get(nm)))
        for key in sorted(self.heap_t, key=str):
            for i in sorted(self.heap_t[key]['conc']):
                if key != B.SETKEY:
                    ms.append(lambda key=key, i=i: counts(lambda s: read(eng.heap_node(s.heap, key), Ref(object, i))))
        for m in ms:
            rows = list(m())
            if len(rows) != len(ends):
                continue
            for j in range(len(rows[0][1])) if rows else []:
                if all(c[j] is not False and eng.proves(E.pc, c[j]) for E, c in rows):
                    for E, c in rows:
                        eng.oblige(E, c[j], 'the loop ends')
                    return
        if ends:
            raise Unsupported('loop %s: no measure shows that it ends' % self.name)

    def history(self, Hs, ends):
        """every turn that did not leave the loop met the conditions under which it goes on: those that depend on the
        turn alone hold for all the turns made"""
        base = len(Hs.pc)
        if not ends:
            return []
        if len(ends) == 1:
            cs = list(ends[0].pc[base:])
        else:
            cs = [Or_(*[And_(*E.pc[base:]) for E in ends])]
        i = z3.Int('i!h%d' % uid())
        out = []
        for c in cs:
            if c is True or isinstance(c, bool) or not self.mentions(c):
                continue
            out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.k), z3.substitute(c, (self.k, i)))))
        return out

    def mentions(self, c):
        """does the condition depend on the turn, and on nothing else introduced in the loop?"""
        todo, seen, found = [c], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            if x.eq(self.k):
                found = True
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r'!(\d+)$', x.decl().name())
                if m and int(m.group(1)) > self.mark:
                    return False
            todo.extend(x.children())
        return found

    def first_pass(self, cands, dbg):
        """reduce the candidates on the execution of the body from an arbitrary head state: its terms are not simplified
        under facts that may be dropped later"""
        eng = self.eng
        Hs, states, k = self.free
        k0, self.k = self.k, k
        try:
            cur = []
            for nm, f in cands:
                try:
                    c = _cb(f(Hs, k))
                except Unsupported as ex:
                    if os.environ.get("PYDV_DEBUG"): print("   unsupported", nm, ex)
                    continue
                if c is not False:
                    cur.append((nm, f, c))
            B = eng.fresh('INV%d' % self.tag, z3.BoolSort())
            ends = []
            for E in states:
                E = E.copy()
                E.pc = E.pc + [B]
                ends.append((E, [(nm, f, self.eval_end(f, E)) for nm, f, _ in cur]))
            alive = self.houdini(B, None, cur, ends)
            if dbg:
                print('   [%s] first pass drops: %s' % (self.name, [nm for nm, _, _ in cur if nm not in alive]))
            return [(nm, f) for nm, f, _ in cur if nm in alive]
        finally:
            self.k = k0

    def nn(self):
        if self.d.kind == 'range':
            return z3.If(self.n > 0, self.n, z3.IntVal(0))
        return self.n

    def eval_end(self, f, E):
        try:
            return _cb(f(E, self.k + 1))
        except Unsupported:
            return False

    def houdini(self, B, inv_def, cur, ends):
        eng = self.eng
        alive = {nm for nm, _, _ in cur}
        ends = [(E, cs) for E, cs in ends]
        if not ends:
            return alive
        while True:
            before = len(alive)
            for E, cs in ends:
                eng.check_deadline()
                goals = {nm: c for nm, f, c in cs}
                for nm in [n for n in alive if goals.get(n) is False]:
                    alive.discard(nm)
                live = [nm for nm in sorted(alive) if goals[nm] is not True]
                if not live:
                    continue
                eng.sync_axioms()
                iid = inv_def.get_id() if inv_def is not None else None
                goals = {nm: eng.lin(zb(goals[nm])) for nm in live}

                def context():
                    fs = [a for a in eng.axioms if a.get_id() != iid]
                    fs += [z3.Implies(B, zb(c)) for nm, f, c in cur if nm in alive and c is not True]
                    fs += [zb(p) for p in E.pc if p is not True]
                    s = z3.Solver()
                    if eng.linear_only:
                        eng.add_linear(s, fs)
                    else:
                        s.add(*fs)
                    s.set('timeout', 4000)
                    return s
                s = context()
                while live:
                    s.push()
                    s.add(z3.Or(*[z3.Not(goals[nm]) for nm in live]))
                    t = time.time()
                    r = s.check()
                    eng.t_feas += time.time() - t
                    eng.n_feas += 1
                    if r == z3.unsat:
                        s.pop()
                        break
                    if r == z3.sat:
                        m = s.model()
                        drop = [nm for nm in live if z3.is_false(m.eval(goals[nm], model_completion=True))]
                        s.pop()
                        if not drop:
                            drop = self.individually(context().assertions(), live, goals)
                    else:
                        s.pop()
                        drop = self.individually(context().assertions(), live, goals)
                        if not drop:
                            break
                    if os.environ.get('PYDV_WATCH') in drop and r == z3.sat:
                        w = os.environ['PYDV_WATCH']
                        open('/tmp/watch.txt', 'w').write('%s\n%s\n%s\nPC %s' % (w, goals[w], m, [z3.simplify(zb(p)) for p in E.pc]))
                    for nm in drop:
                        alive.discard(nm)
                    live = [nm for nm in live if nm not in drop]
                    # assumptions shrank: rebuild
                    s = context()
            if len(alive) == before:
                return alive

    def individually(self, facts, live, goals):
        """one goal at a time, each with a solver of its own (incremental solving is weaker)"""
        drop = []
        for nm in live:
            f = z3.Solver()
            f.set('timeout', 6000)
            f.add(facts)
            f.add(z3.Not(goals[nm]))
            t = time.time()
            text = f.to_smt2()
            r = f.check()
            self.eng.t_feas += time.time() - t
            if r == z3.unknown and stated(nm):
                from .sym import cvc5_check
                if cvc5_check(text, 10) == 'unsat':
                    r = z3.unsat
                else:
                    self.eng.slow.append(nm)
            if r != z3.unsat:
                drop.append(nm)
                if os.environ.get('PYDV_DEBUG'):
                    open('/tmp/q_%s.smt2' % nm.replace('/', '_')[:40], 'w').write(f.to_smt2())
                    print('   [%s] %s: %s' % (self.name, nm, r))
                    if r == z3.sat and os.environ.get('PYDV_WATCH') == nm:
                        open('/tmp/watch.txt', 'w').write('%s\n%s\n' % (z3.simplify(goals[nm]), f.model()))
        return drop

    def check_places(self):
        """a replaced list must not be shared"""
        ids = {}
        for h in self.place:
            v = self.S0.env.get(h[1]) if h[0] == 'env' else self.entry_attr(h[1], h[2])
            if v.ident in ids:
                raise Unsupported('two names for one replaced list')
            ids[v.ident] = h


def cmp_num(a, v):
    if isinstance(a, Union):
        return And_(*[Implies_(g, cmp_num(x, v)) for g, x in a.cases])
    if a is None or not is_num(a):
        return False
    if is_int(a) and is_int(v):
        return to_int(a) >= to_int(v)
    return to_real(a) >= to_real(v)


def class_default(cls, attr):
    """the value an attribute has until it is set"""
    for c in getattr(cls, '__mro__', ()):
        if attr in c.__dict__:
            v = c.__dict__[attr]
            return v if v is None or isinstance(v, (bool, int, float, str)) else UNDEF
    return UNDEF


def with_default(acc, d):
    def f(s):
        v = acc(s)
        if v is UNDEF:
            return d
        if isinstance(v, Union) and any(x is UNDEF for _, x in v.cases):
            return mkunion([(g, d if x is UNDEF else x) for g, x in v.cases])
        return v
    return f


def below(a, b):
    """a <= b, for plain numbers"""
    if not is_num(a) or not is_num(b) or isinstance(a, bool) or isinstance(b, bool):
        return False
    return to_real(a) <= to_real(b)


def strictly(a, b):
    """a < b, for plain numbers"""
    if not is_num(a) or not is_num(b) or isinstance(a, bool) or isinstance(b, bool):
        return False
    return to_real(a) < to_real(b)


def beyond(a, b, op):
    """None, or a number above (below) b"""
    if isinstance(a, Union):
        return And_(*[Implies_(g, beyond(x, b, op)) for g, x in a.cases])
    if a is None:
        return True
    if not is_num(a) or isinstance(a, bool) or not is_num(b):
        return False
    return to_real(a) > to_real(b) if op == '>' else to_real(a) < to_real(b)


def not_zero(a):
    """None or a number other than zero"""
    if isinstance(a, Union):
        return And_(*[Implies_(g, not_zero(x)) for g, x in a.cases])
    if a is None:
        return True
    if not is_num(a):
        return False
    return Not_(_cb(a == 0))


def same_kind(a, v, obj=False):
    if isinstance(a, Union):
        return Or_(*[g for g, x in a.cases if same_kind(x, v, obj)])
    if a is UNDEF:
        return False
    if obj:
        return isinstance(a, Ref)
    return kindkey(a) == kindkey(v)


def compkind(v):
    if v is None:
        return 'none'
    if is_boolv(v):
        return 'bool'
    if is_num(v):
        return 'num'
    if is_strv(v):
        return 'str'
    if isinstance(v, Union):
        ks = {compkind(x) for _, x in v.cases if x is not None}
        return ks.pop() if len(ks) == 1 else None
    return None


def content_elem(c):
    if isinstance(c, SL):
        return c.elem
    e = None
    for _, x in gl_of(c):
        e = join_elem(e, elem_of(x))
    return e


def repr_t(t):
    if isinstance(t, CONST):
        return 'const:%r' % (t.v,)
    if isinstance(t, TUPT):
        return 'tup(%s)' % ','.join(repr_t(x) for x in t.ts)
    if isinstance(t, SEQT):
        return 'seq(%s)' % (t.elem.name() if t.elem else None)
    if isinstance(t, ALT):
        return 'alt(%s)' % ','.join(repr_t(x) for x in t.ts)
    if isinstance(t, OPT):
        return 'opt(%s)' % repr_t(t.t)
    if isinstance(t, CXT):
        return 'cx'
    if isinstance(t, (POISONT, PLACE)) or hasattr(t, '_join'):
        return type(t).__name__
    return repr(t)


def bounded_items(eng, d, st):
    """bounded exploration of a loop over an unknown sequence"""
    n = to_int(d.n)
    N = eng.unroll
    st.pc = st.pc + [n <= N]
    eng.bounded_loops = True
    return [(_cb(z3.simplify(n > j)), d.item(z3.IntVal(j))) for j in range(N)]


def cut_for(eng, node, d, st, fr):
    if eng.unroll is not None:
        from .engine import Dead
        its = bounded_items(eng, d, st)
        if not eng.feasible(st.pc):
            return None
        g = eng.B.GItems(its)
        g.on_next, g.on_end = getattr(d, 'on_next', None), getattr(d, 'on_end', None)
        return eng.for_unrolled(node, g, st, fr)
    return Cut(eng, node, st, fr, d).run()


def cut_while(eng, node, st, fr):
    return Cut(eng, node, st, fr, None).run()
