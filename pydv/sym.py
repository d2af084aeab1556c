"""Symbolic execution of contract drivers, discharge of their obligations, bounded counterexample search."""
import fractions
import os
import subprocess
import tempfile
import time
import z3
from .values import *
from .values import _cb
from . import values as V
from . import builtins_ as B
from . import rt
from .engine import Engine, State, Dead, Obligation, ContractError
from .heap import UNDEF, LISTFAM
from .builtins_ import STUBS, stub

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(VERIF, 'contracts')
REPO = os.environ.get('GCU_REPO', '/repo')


# ---------------------------------------------------------------- the contract language, symbolically
def _input(eng, name, t):
    if name in eng.in_names:
        return eng.in_names[name]
    v = t.fresh(lambda suffix, sort: z3.Const('%s.%s' % (name, suffix), sort), eng)
    eng.in_names[name] = v
    eng.inputs.append(('value', name, v))
    return v


@stub(rt.real)
def s_real(eng, st, args, kw):
    return _input(eng, args[0], rt.RealG(*(args[1:] or [kw.get('lo'), kw.get('hi')])))


@stub(rt.integer)
def s_integer(eng, st, args, kw):
    return _input(eng, args[0], rt.IntG(*(args[1:] or [kw.get('lo'), kw.get('hi')])))


@stub(rt.boolean)
def s_boolean(eng, st, args, kw):
    return _input(eng, args[0], rt.BoolG())


@stub(rt.opt_real)
def s_opt(eng, st, args, kw):
    return _input(eng, args[0], rt.OptG(rt.RealG()))


@stub(rt.choice)
def s_choice(eng, st, args, kw):
    return _input(eng, args[0], rt.ChoiceG(args[1:]))


@stub(rt.integers)
def s_integers(eng, st, args, kw):
    return eng.new_list(st, SL(z3.Const(args[0], z3.SeqSort(z3.IntSort())), NumE('int'), eng.alloc))


@stub(rt.numbers)
def s_numbers(eng, st, args, kw):
    r = eng.new_ref(set)
    B.put_set(eng, st, r, B.free_set(eng, lambda nm, sort: z3.Const('%s.%s' % (args[0], nm), sort)))
    return r


@stub(rt.value)
def s_value(eng, st, args, kw):
    return _input(eng, args[0], args[1])


def add_schema(eng, cls, schema):
    for a, t in schema.attrs.items():
        key = (family(cls), a)
        if key in eng.schema and eng.schema[key] is not t:
            raise ContractError('two schemas for %s' % (key,))
        eng.schema[key] = t
    if schema.items is not None:
        add_schema(eng, *schema.items)
        eng.schema.setdefault((LISTFAM, '#items'), rt.ItemsG(schema.items[0], eng.alloc))


@stub(rt.objects)
def s_objects(eng, st, args, kw):
    name, cls, schema = args[:3]
    minlen = args[3] if len(args) > 3 else kw.get('minlen', 0)
    add_schema(eng, cls, schema)
    if eng.unroll is None:
        term = z3.Const(name, z3.SeqSort(z3.IntSort()))
        c = SL(term, RefE(cls), eng.alloc, distinct=True, tag=name)
        if minlen:
            eng.axiom(z3.Length(term) >= minlen)
        eng.input_seqs.add(name)
        eng.seq_terms.append(term)
        eng.inputs.append(('seq', name, c, schema, cls))
    else:
        n = max(eng.size, minlen)
        refs = [Ref(cls, z3.Int('%s[%d]' % (name, i)), eng.alloc) for i in range(n)]
        others = [r for rec in eng.inputs if rec[0] == 'objs' for r in rec[2]]
        if len(refs) + len(others) > 1:
            eng.axiom(z3.Distinct(*[r.ident for r in refs + others]))
        for r in refs:
            eng.axiom(r.ident < 0)
        c = CL(refs)
        eng.inputs.append(('objs', name, refs, schema, cls))
    return eng.new_list(st, c)


@stub(rt.one)
def s_one(eng, st, args, kw):
    name, cls, schema = args[:3]
    add_schema(eng, cls, schema)
    r = Ref(cls, z3.Int(name), eng.alloc)
    eng.axiom(r.ident < 0)
    eng.input_seqs.add(('one', name))
    eng.inputs.append(('obj', name, r, schema, cls))
    return r


@stub(rt.anystr)
def s_anystr(eng, st, args, kw):
    return AStr(eng.fresh('text', z3.IntSort()))


@stub(rt.anyreal)
def s_anyreal(eng, st, args, kw):
    return eng.fresh('real', z3.RealSort())


def text_term(v):
    if isinstance(v, AStr):
        return v.term
    raise Unsupported('words of a structured text')


@stub(rt.opaque)
def s_opaque(eng, st, args, kw):
    return isinstance(args[0], AStr)


@stub(rt.needs)
def s_needs(eng, st, args, kw):
    for n in args[1:]:
        if not hasattr(args[0], n):
            raise Unsupported('%s has no %s: the contract does not apply' % (args[0].__name__, n))


class Flat(object):
    """the lines of a list of layers, one after the other; its definition is instantiated at the indices of loops"""
    def __init__(self, eng, st, layers):
        self.eng = eng
        self.outer = layers
        t = layers.term
        u = V.uid()
        ints = z3.IntSort()
        self.term = z3.Const('flat%d' % u, z3.SeqSort(ints))
        self.off, self.lay, self.pos = (z3.Function('%s%d' % (nm, u), ints, ints) for nm in ('off', 'lay', 'pos'))
        self.inner = lambda k: eng.items(st, B.elem_at(eng, layers, k))
        self.elem = self.inner(z3.IntVal(0)).elem
        eng.axiom(self.off(z3.IntVal(0)) == 0)
        eng.axiom(self.off(z3.Length(t)) == z3.Length(self.term))
        self.ks = []
        self.seen = set()

    def at_layer(self, k):
        """the k-th layer, when there is one"""
        if k.get_id() in self.seen:
            return
        self.seen.add(k.get_id())
        n = z3.Length(self.outer.term)
        c = self.inner(k).term
        m = z3.Length(c)
        off = self.off
        self.eng.axiom(z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= off(k), off(k + 1) == off(k) + m, off(k + 1) <= z3.Length(self.term))))
        self.eng.axiom(z3.Implies(k == n, off(k) == z3.Length(self.term)))
        self.ks.append((k, c))
        self.at_line(k, c, z3.IntVal(0))

    def at_line(self, k, c, p):
        n = z3.Length(self.outer.term)
        i = self.off(k) + p if not (z3.is_int_value(p) and p.as_long() == 0) else self.off(k)
        self.eng.axiom(z3.Implies(z3.And(0 <= k, k < n, 0 <= p, p < z3.Length(c)),
                                  z3.And(self.term[i] == c[p], self.lay(i) == k, self.pos(i) == p, i < z3.Length(self.term))))

    def at_loop(self, seq, k):
        """a loop over the layers, or over one of them, has reached index k"""
        t = seq.term
        if t.eq(self.outer.term):
            self.at_layer(k)
            return self.off(k)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) and t.arg(0).eq(self.outer.term) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
            # the layers before some layer
            self.at_layer(k)
            self.eng.axiom(z3.Implies(z3.And(0 <= k, k < z3.Length(t)), t[k] == self.outer.term[k]))
            return self.off(k)
        for kk, c in self.ks:
            if c.eq(seq.term):
                self.at_line(kk, c, k)
        return None


def flat_of(eng, st, v):
    c = eng.items(st, v)
    if not isinstance(c, SL):
        raise Unsupported('lines of known layers')
    for f in eng.flats:
        if f.outer.term.eq(c.term):
            return f
    f = Flat(eng, st.copy(), c)
    eng.flats.append(f)
    return f


@stub(rt.lines_of)
def s_lines_of(eng, st, args, kw):
    f = flat_of(eng, st, args[0])
    return eng.new_list(st, SL(f.term, f.elem, eng.alloc))


@stub(rt.place_of)
def s_place_of(eng, st, args, kw):
    f = flat_of(eng, st, args[0])
    n = to_int(args[1])
    a, b = f.lay(n), f.pos(n)
    c = f.inner(a).term
    eng.axiom(z3.Implies(z3.And(0 <= n, n < z3.Length(f.term)),
                         z3.And(0 <= a, a < z3.Length(f.outer.term), 0 <= b, b < z3.Length(c), f.off(a) + b == n, f.term[n] == c[b])))
    for k, c in f.ks:
        f.at_line(k, c, n - f.off(k))
    return (a, b)


@stub(rt.start_of)
def s_start_of(eng, st, args, kw):
    f = flat_of(eng, st, args[0])
    k = to_int(args[1])
    f.at_layer(k)
    return f.off(k)


@stub(rt.related)
def s_related(eng, st, args, kw):
    nm, a, b = args

    def f(s, x, y):
        if not isinstance(x, Ref) or not isinstance(y, Ref):
            raise Unsupported('relation between %r and %r' % (x, y))
        return z3.Function('rel.' + nm, z3.IntSort(), z3.IntSort(), z3.BoolSort())(to_int(x.ident), to_int(y.ident))
    return eng.dist(st, [a, b], f)


@stub(rt.word_in)
def s_word_in(eng, st, args, kw):
    t, l = text_term(args[0]), args[1]
    g, v = rt.text_has(t, l), rt.text_num(t, l)
    rt.bound(eng, v, None, None)
    return mkunion([(Not_(g), None), (g, v)])


@stub(rt.named_in)
def s_named_in(eng, st, args, kw):
    return rt.text_named(text_term(args[0]), args[1])


@stub(rt.command_in)
def s_command_in(eng, st, args, kw):
    return AStr(rt.text_cmd(text_term(args[0])))


@stub(rt.numeral_in)
def s_numeral_in(eng, st, args, kw):
    t, l = text_term(args[0]), args[1]
    g, v = rt.text_has(t, l), rt.text_num(t, l)
    rt.bound(eng, v, None, None)
    return mktext([(g, Num(v, None))])


@stub(rt.letter_of)
def s_letter_of(eng, st, args, kw):
    return AStr(CmdPart(to_str(args[0]), 'lower').strterm())


@stub(rt.digits_of)
def s_digits_of(eng, st, args, kw):
    return AStr(V.str_tail(to_str(args[0])))


@stub(rt.assume)
def s_assume(eng, st, args, kw):
    eng.assume_(st, eng.truth(st, args[0]))
    return None


@stub(rt.check)
def s_check(eng, st, args, kw):
    c = _cb(eng.truth(st, args[0]))
    eng.oblige(st, c, args[1])
    # later code may rely on what was checked
    if c is False:
        raise Dead()
    if c is not True:
        try:
            eng.assume_(st, c)
        except Dead:
            raise
    return None


@stub(rt.invariant)
def s_invariant(eng, st, args, kw):
    return None


@stub(rt.close)
def s_close(eng, st, args, kw):
    return eng.eq_plain(args[0], args[1], st)


@stub(rt.same_num)
def s_same_num(eng, st, args, kw):
    return eng.eq_plain(args[0], args[1], st)


@stub(rt.same_objects)
def s_same_objects(eng, st, args, kw):
    return eng.dist(st, list(args), lambda s, a, b: eng.eq_content(None, B.seq_of(eng, s, a), B.seq_of(eng, s, b)))


@stub(rt.by_case)
def s_by_case(eng, st, args, kw):
    return eng.dist(st, [args[0]], lambda s, x: eng.call(s, args[1], [x] + list(args[2:]), {}))


@stub(rt.gen)
def s_gen(eng, st, args, kw):
    raise Unsupported('generated input')


# ---------------------------------------------------------------- verification of one driver
class Result(object):
    def __init__(self):
        self.status = 'unknown'     # proved | refuted | unknown | unsupported
        self.reason = ''
        self.obls = []
        self.n = self.proved = self.trivial = 0
        self.t_exec = self.t_solve = 0.0
        self.funcs = {}
        self.loops = []
        self.n_inv = 0
        self.backends = {}
        self.failed = []
        self.eng = None
        self.stubs = set()


def make_engine(unroll=None, size=2, budget=120):
    V.STRS.reset()
    B.ATOM_SAMPLE.clear()
    eng = Engine([REPO, CONTRACTS])
    eng.contract_dir = CONTRACTS
    eng.unroll = unroll
    eng.size = size
    eng.in_names = {}
    eng.deadline = time.time() + budget
    return eng


def by_contract(real, spec):
    """calls of `real` are answered by its contract; a call in the contract itself reaches the function"""
    def call(e, s, a, k):
        h = e.summaries.pop(real)
        try:
            return e.call_function(s, spec, a, k)
        finally:
            e.summaries[real] = h
    return call


def execute(drv, unroll=None, size=2, budget=120):
    eng = make_engine(unroll, size, budget)
    eng.linear_only = drv.linear and unroll is None
    eng.must_end = drv.ends
    st = State([], {}, {})
    eng.rstack = [[]]
    eng.flats = []
    ended = False
    for real, spec in drv.uses.items():
        eng.summaries[real] = by_contract(real, spec)
    try:
        eng.call(st, drv.fn, [], {})
        ended = True
    except Dead:
        pass
    for rs, exc in eng.rstack[0]:
        o = Obligation('no exception: %s%s' % (exc.cls.__name__, ' ' + str(exc.args[0])[:60] if exc.args else ''),
                       list(rs.pc), False, getattr(exc, 'where', None) or '?', False)
        eng.obls.append(o)
    eng.final = st if ended else None
    return eng


CVC5 = None


def cvc5_check(smt, timeout_s):
    """second back end, on the SMT-LIB text of the same query"""
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write('(set-logic ALL)\n' + smt + '\n')
        f.close()
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), '--strings-exp', f.name], capture_output=True, text=True,
                           timeout=timeout_s + 5)
        o = r.stdout.strip().splitlines()
        return o[0] if o else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def leaves(f, memo):
    """the unknowns of a formula: constants and applications of uninterpreted functions"""
    i = f.get_id()
    if i in memo:
        return memo[i]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            todo.extend(x.children())
    memo[i] = out
    return out


def cone(facts, goal, rounds):
    """the facts about the unknowns of the goal (and of those facts, and so on)"""
    memo = {}
    known = set(leaves(goal, memo))
    left, out = list(facts), []
    for _ in range(rounds):
        hit = [f for f in left if leaves(f, memo) & known and not z3.is_quantifier(f)]
        ids = set(f.get_id() for f in hit)
        left = [f for f in left if f.get_id() not in ids]
        out += hit
        for f in hit:
            known |= leaves(f, memo)
        if not hit:
            break
    return out


def nlsat(query, ms):
    try:
        s = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', ms)
        s.add(query)
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


OTHER = [[('smt.arith.solver', 2)], [('smt.relevancy', 0)], [('smt.random_seed', 3)]]


def discharge(eng, o, timeout_ms=8000, second=True):
    if o.cond is True:
        o.status, o.backend = 'proved', 'fold'
        return
    eng.sync_axioms()
    if eng.linear_only:
        # without multiplication of unknowns first: an answer of unsat is final
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout_ms // 2)
        eng.add_linear(s, eng.axioms + [zb(p) for p in o.pc if p is not True] + [zb(Not_(o.cond))])
        text = s.to_smt2()
        r = s.check()
        o.time = time.time() - t
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
            return
        if r == z3.unknown and second and cvc5_check(text, timeout_ms / 1000.0) == 'unsat':
            o.time = time.time() - t
            o.status, o.backend = 'proved', 'cvc5'
            return
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    query = eng.axioms + [zb(p) for p in o.pc if p is not True] + [zb(Not_(o.cond))]
    s.add(query)
    t = time.time()
    r = s.check()
    o.time = time.time() - t
    if r == z3.unsat:
        o.status, o.backend = 'proved', 'z3'
    elif r == z3.sat:
        o.status, o.backend, o.model = 'refuted', 'z3', s.model()
    else:
        o.status, o.backend = 'unknown', 'z3'
        if second:
            # other settings of z3 (an answer of unsat is final), its nonlinear engine, then cvc5
            t = time.time()
            v = 'unknown'
            facts, goal = query[:-1], query[-1]
            for rounds in (1, 2):
                # fewer facts
                if v == 'unknown' and nlsat(cone(facts, goal, rounds) + [goal], timeout_ms // 3):
                    v = 'unsat-nlsat'
            for opts in OTHER:
                if v != 'unknown':
                    break
                s2 = z3.Solver()
                s2.set('timeout', timeout_ms)
                for k, x in opts:
                    s2.set(k, x)
                s2.add(query)
                if s2.check() == z3.unsat:
                    v = 'unsat-z3'
            if v == 'unknown' and nlsat(query, timeout_ms // 2):
                v = 'unsat-nlsat'
            if v == 'unknown':
                # (a fresh solver: after a check the text of a solver names internal symbols of z3)
                f = z3.Solver()
                f.add(query)
                v = cvc5_check(f.to_smt2(), timeout_ms / 1000.0)
            o.time += time.time() - t
            if v.startswith('unsat'):
                o.status, o.backend = 'proved', {'unsat': 'cvc5', 'unsat-z3': 'z3', 'unsat-nlsat': 'z3-nlsat'}[v]


def verify(drv, budget=120, timeout_ms=8000):
    res = Result()
    t = time.time()
    try:
        eng = execute(drv, budget=budget)
    except Unsupported as e:
        res.status, res.reason = 'unsupported', str(e)[:300]
        res.t_exec = time.time() - t
        return res
    res.t_exec = time.time() - t
    res.eng = eng
    res.funcs = dict(eng.funcs_used)
    res.loops = eng.loop_log
    res.n_inv = eng.n_inv
    t = time.time()
    for o in eng.obls:
        if time.time() > eng.deadline + 60:
            o.status, o.backend = 'unknown', 'budget'
        else:
            discharge(eng, o, timeout_ms)
        if o.status == 'proved':
            res.proved += 1
            res.backends[o.backend] = res.backends.get(o.backend, 0) + 1
        else:
            res.failed.append(o)
    # what is left open gets more time
    if res.failed and not any(o.status == 'refuted' for o in res.failed):
        for o in list(res.failed):
            if time.time() < eng.deadline:
                discharge(eng, o, min(4 * timeout_ms, int(1000 * (eng.deadline - time.time()) / 4) + 1000))
                if o.status == 'proved':
                    res.failed.remove(o)
                    res.proved += 1
                    res.backends[o.backend] = res.backends.get(o.backend, 0) + 1
    res.n = len(eng.obls)
    res.t_solve = time.time() - t
    if res.n == 0:
        res.status, res.reason = 'unknown', 'no obligation was generated'
    elif res.proved == res.n:
        res.status = 'proved'
        # vacuity: some execution reaches the end of the driver
        if eng.final is None or not sat_state(eng, eng.final):
            res.status, res.reason = 'unknown', 'no execution reaches the end of the contract (vacuous)'
    elif any(o.status == 'refuted' for o in res.failed):
        res.status = 'refuted'
        if eng.misfit:
            # an invariant the proof rests on speaks of something the code lacks: the failure says nothing about the code
            res.status, res.reason = 'unknown', eng.misfit
        elif eng.slow:
            res.status, res.reason = 'unknown', 'invariants undecided in the time allowed: %s' % ', '.join(sorted(set(eng.slow)))
    else:
        res.status = 'unknown'
    return res


def sat_state(eng, st):
    s = z3.Solver()
    s.set('timeout', 5000)
    for a in eng.axioms:
        s.add(a)
    for p in st.pc:
        if p is not True:
            s.add(zb(p))
    return s.check() != z3.unsat


# ---------------------------------------------------------------- models to native inputs
def conc(eng, m, v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, z3.BoolRef):
        return z3.is_true(m.eval(v, model_completion=True))
    if isinstance(v, z3.ArithRef):
        x = m.eval(v, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            fr = fractions.Fraction(x.numerator_as_long(), x.denominator_as_long())
            return float(fr)
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        return 0
    if isinstance(v, Union):
        for g, x in v.cases:
            if conc(eng, m, zb(g)):
                return conc(eng, m, x)
        return conc(eng, m, v.cases[-1][1])
    if isinstance(v, AStr):
        i = conc(eng, m, v.term)
        if 0 <= i < len(V.STRS.lit):
            return V.STRS.lit[i]
        h = conc(eng, m, V.str_head(v.term))
        hd = V.STRS.lit[h] if 0 <= h < len(V.STRS.lit) else ''
        return {'G': 'G4', 'T': 'T1', 'M': 'M106'}.get(hd, 'M105')
    if isinstance(v, Num):
        return rt.numeral(conc(eng, m, v.val)) if v.spec is None else '%.*f' % (v.spec, conc(eng, m, v.val))
    if isinstance(v, Text):
        return ''.join(str(conc(eng, m, p)) for g, p in v.pieces if conc(eng, m, zb(g)))
    if isinstance(v, tuple):
        return tuple(conc(eng, m, x) for x in v)
    raise Unsupported('cannot concretise %r' % (v,))


def input_values(eng, m):
    out = {}
    for rec in eng.inputs:
        if rec[0] == 'value':
            out[rec[1]] = conc(eng, m, rec[2])
        elif rec[0] == 'objs':
            out[rec[1]] = [obj_values(eng, m, r, rec[3], rec[4]) for r in rec[2]]
        elif rec[0] == 'obj':
            out[rec[1]] = obj_values(eng, m, rec[2], rec[3], rec[4])
        elif rec[0] == 'seq':
            out[rec[1]] = []
    return out


def obj_values(eng, m, ref, schema, cls):
    d = {}
    for a, t in schema.attrs.items():
        nm = '%s.%s' % (family(cls).__name__, a)
        d[a] = conc(eng, m, eng.fresh_fn(nm, t, ref.ident))
    return d


def input_reals(eng):
    out = []

    def walk(v):
        if isinstance(v, z3.ArithRef):
            if v.is_real():
                out.append(v)
        elif isinstance(v, Union):
            for _, x in v.cases:
                walk(x)
        elif isinstance(v, Num):
            walk(v.val)
        elif isinstance(v, Text):
            for _, p in v.pieces:
                walk(p)
    for rec in eng.inputs:
        if rec[0] == 'value':
            walk(rec[2])
        elif rec[0] in ('objs', 'obj'):
            for r in (rec[2] if rec[0] == 'objs' else [rec[2]]):
                for a, t in rec[3].attrs.items():
                    walk(eng.fresh_fn('%s.%s' % (family(rec[4]).__name__, a), t, r.ident))
    return out


def counterexamples(eng, o, timeout_ms=5000, tries=3):
    """native inputs from models of a refuted obligation; round numbers first"""
    eng.sync_axioms()
    reals = input_reals(eng)
    for nice in (True, False):
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        for a in eng.axioms:
            s.add(a)
        for p in o.pc:
            if p is not True:
                s.add(zb(p))
        s.add(zb(Not_(o.cond)))
        if nice:
            for i, r in enumerate(reals):
                q = z3.Int('nice!%d' % i)
                s.add(r * 4 == z3.ToReal(q), q <= 1000, q >= -1000)
        if s.check() == z3.sat:
            yield input_values(eng, s.model())


def search(drv, sizes=(1, 2, 3), budget=60, log=None):
    """bounded search for a failing input; each candidate is replayed on the real code"""
    t0 = time.time()
    for n in sizes:
        if time.time() - t0 > budget:
            return None
        try:
            eng = execute(drv, unroll=n + 1, size=n, budget=budget - (time.time() - t0))
        except Unsupported as e:
            if log is not None:
                log.append('bounded search size %d: %s' % (n, e))
            continue
        for o in eng.obls:
            if o.cond is True:
                continue
            if time.time() - t0 > budget:
                return None
            for vals in counterexamples(eng, o):
                r, msg, c = rt.native_run(drv.fn, values=vals)
                if log is not None:
                    log.append('size %d %s: replay %s %s' % (n, o.name, r, msg))
                if r == 'fail':
                    return vals, msg, o
    return None
