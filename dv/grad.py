"""Gradient routines over circuits of arbitrary parametrised operations.

Contract of a parametrised operation (index k): num_params n_k; `params` is its current parameter tensor, of rank 0 (n_k = 1)
or rank 1 and length n_k; params_update(v) makes v the current value (C05); its operator depends on each single parameter
as  sum_w e^{i w theta} A_w  with w in W(label):  {0, 1} for u1 and cphase, {0, -1/2, 1/2} for cu3, {-1/2, 1/2} for all
others (proved of every gate and layer by spectrum_obs)."""
from fractions import Fraction as Fr
from .circ import *
from .props.common import *
from .inv import Inv, dispatch
from .interp import Opaque, BMeth, PyObj
from .loops import AccSL
from .vals import SL, Exc, is_int, simp
from .prove import Ob
PS = QC+'parameter_shift'
LABELS = {'cu3': 1, 'u1': 2, 'cphase': 3}
W = {'cu3': (0, Fr(1, 2), Fr(-1, 2)), 'u1': (0, 1), 'cphase': (0, 1), None: (Fr(1, 2), Fr(-1, 2))}
class Label(Opaque):
    """the label of operation k: equal to the literal strings with a spectrum of their own, or to something else"""
    def __init__(s, c, k): s.c, s.k = c, k
    def is_(s, t): return s.c.lab(z(s.k)) == LABELS[t] if t in LABELS else None
    def cmp(s, I, k, a, b):
        o = b if a is s else a
        if k in ('Eq', 'NotEq') and isinstance(o, str):
            r = s.is_(o)
            if r is None:
                if o.lower() in ('', 'none'): return k == 'NotEq'
                r = s.c.other(o)(z(s.k))            # any other name: unknown, but then it is none of the three
                I.ctx.assume(z3.Implies(r, s.c.lab(z(s.k)) == 0))
            return r if k == 'Eq' else z3.Not(r)
        return Opaque.cmp(s, I, k, a, b)
    def attr(s, I, a): return BMeth(s, a)
    def method(s, I, name, a, k): raise Unsupported('method of a label')
class State:
    """current parameters of the operations: those in `mods` (latest last), the original ones otherwise"""
    def __init__(s, c): s.c, s.mods, s.orig = c, [], []
    def original(s, I, k):
        for q, t in s.orig:
            if I.ctx.valid(z(q) == z(k)) is True: return t
        c = s.c
        if I.ctx.decide(c.npar(z(k)) == 0): raise Unsupported('parameters of an operation without parameters')
        t = VecT(c.npar(z(k)), lambda j: c.p(k, j)) if I.ctx.decide(c.vec(z(k))) else T(TT.oscal(c.p(k, 0)))
        s.orig.append((k, t)); return t
    def params(s, I, k):
        for q, v, t in reversed(s.mods):
            if I.ctx.decide(z(q) == z(k)): return t
        return s.original(I, k)
    def update(s, I, k, t):
        o = s.original(I, k); c = s.c
        if isinstance(o, VecT):
            if isinstance(t, VecT):
                if I.ctx.valid(z(t.n) == z(o.n)) is not True: raise Unsupported('update with another number of parameters')
                v = t.snap()
            elif isinstance(t, T) and t.is_small() and t.arr.ndim == 1 and I.ctx.valid(z(o.n) == t.arr.shape[0]) is True:
                a = t.chk().arr; v = lambda j: TT._sel(list(a), j)
            else: raise Unsupported('update with a value of another kind')
        else:
            if not isinstance(t, T) or not t.is_small() or t.arr.ndim != 0: raise Unsupported('update with a value of another kind')
            x = t.chk().arr[()]; v = lambda j: x
        s.mods = [m for m in s.mods if I.ctx.valid(z(m[0]) == z(k)) is not True] + [(k, v, t)]
    def save(s): return list(s.mods), list(s.orig)
    def restore(s, v): s.mods, s.orig = list(v[0]), list(v[1])
    def shift(s, I, hint=None):
        """(k, i, delta): the current parameters are the original ones except that parameter i of operation k is off by delta; None: all original"""
        ctx = I.ctx; c = s.c; off = []
        for n, (k, v, t) in enumerate(s.mods):
            for q, _, _ in s.mods[n+1:]:
                if ctx.valid(z(q) != z(k)) is not True: raise Unsupported('which operations are updated')
            o = s.original(I, k)
            if not isinstance(o, VecT):
                d = v(0)-c.p(k, 0)
                if not d.is_zero(): off.append((k, 0, d))
                continue
            j = ctx.var('j'); same = lambda cs: ctx.forall(lambda: True if (v(j)-c.p(k, j)).is_zero() else None, [j >= 0, j < z(o.n)]+cs) is True
            if same([]): continue
            for i in ([hint] if hint is not None else [])+[0, 1, 2, simp(z(o.n)-1)]:
                if ctx.valid(z3.And(z(i) >= 0, z(i) < z(o.n))) is True and same([j != z(i)]): off.append((k, i, v(i)-c.p(k, i))); break
            else: raise Unsupported('several parameters are off')
        if len(off) > 1: raise Unsupported('parameters of several operations are off')
        return off[0] if off else None
class PGate(GateObj):
    def attr(s, I, a):
        if a == 'params': return s.c.st.params(I, s.k)
        if a == 'label': return Label(s.c, s.k)
        return GateObj.attr(s, I, a)
    def method(s, I, name, args, kw):
        if name == 'params_update' and len(args)+len(kw) == 1:
            if I.ctx.decide(s.c.npar(z(s.k)) == 0): raise Unsupported('update of an operation without parameters')
            s.c.st.update(I, s.k, (list(args)+list(kw.values()))[0]); return None
        return GateObj.method(s, I, name, args, kw)
def param_circuit(e, lo=0, support=False, N=None):
    c = circuit(e, N=N, lo=lo, support=support); ctx = e.ctx
    c.gl = c.o.attrs['gate'] = SL(c.K, lambda k: PGate(c, k))
    c.lab = z3.Function('label', z3.IntSort(), z3.IntSort()); c.vec = z3.Function('vector', z3.IntSort(), z3.BoolSort()); c.cum = z3.Function('params_before', z3.IntSort(), z3.IntSort())
    c.other = lambda nm: z3.Function(f'label is {nm}', z3.IntSort(), z3.BoolSort())
    c.p = lambda k, j: P.atom(ctx.atom('p', 'real', simp(z(k)), simp(z(j))))
    c.st = State(c); ctx.assume(c.cum(0) == 0)
    with_books(e, c, c.cum(c.K))
    return c
def facts(ctx, c, k):
    """the contract of operation k"""
    k = z(k); n = c.npar(k); l = c.lab(k)
    ctx.assume(z3.And(n >= 0, c.cum(k) >= 0, c.cum(k+1) == c.cum(k)+n, l >= 0, l <= 3, z3.Or(c.vec(k), n <= 1),
                      z3.Implies(l == 1, z3.And(c.vec(k), n == 3)), z3.Implies(l >= 2, n == 1)))
def label_of(ctx, c, k):
    for nm, v in LABELS.items():
        if ctx.decide(c.lab(z(k)) == v): return nm
    return None
def diffs(lab):
    """frequencies of an expectation value in one parameter"""
    return sorted({abs(a-b) for a in W[lab] for b in W[lab]})
def expect(ctx, c, k, i, d):
    """<M> as a function of the offset d of parameter i of operation k, all else as it is"""
    lab = label_of(ctx, c, k); th = c.p(k, i)+d; r = P.atom(ctx.atom('E0', 'real', simp(z(k)), simp(z(i))))
    for w in diffs(lab):
        if w == 0: continue
        t = P.atom(ctx.atom(f'E{w}', 'cplx', simp(z(k)), simp(z(i))))*S_.expi(th*w); r = r+t+t.conj()
    return r
def deriv(ctx, c, k, i):
    """d<M>/d(parameter i of operation k) at the current parameters"""
    lab = label_of(ctx, c, k); th = c.p(k, i); r = P.const(0)
    for w in diffs(lab):
        if w == 0: continue
        t = P.atom(ctx.atom(f'E{w}', 'cplx', simp(z(k)), simp(z(i))))*S_.expi(th*w)*P.const((0, 0, Fr(w), 0)); r = r+t+t.conj()
    return r
from . import scalar as S_
def expectation_contract(e, c, init, M):
    """cir_expectation(init_state, M) is the expectation at the current parameters (C13)"""
    def h(I, fn, args, kw):
        env = I.bind(fn, args, kw).v; a = list(env.values())
        if not any(x is init for x in a) or not any(x is M for x in a) or list(env.values()).index(init) > list(env.values()).index(M): raise Unsupported('expectation of something else')
        off = c.st.shift(I, getattr(c, 'inner', None))
        if off is None: return T(TT.oscal(P.atom(I.ctx.atom('E now', 'real'))))
        return T(TT.oscal(expect(I.ctx, c, *off)))
    return h
def kept_states(e, env):
    for v in env.v.values():
        if isinstance(v, Saved): e.check('the saved states are not changed', not v.st and not any(m.tok.written for _, m in v.out) or None)
def unwritten(e, c): e.check("the operations' own tensors are not written", not any(t.tok.written for _, t in c.st.orig) or None)
def restored(e, c, what):
    try: r = c.st.shift(e.I)
    except Unsupported: r = 'several'
    e.check(what, True if r is None else None, f'{r}')
def same(x, y):
    """equal up to the rounding of machine constants"""
    return all(abs(S_.cnum(v)) < 1e-9 for v in (x-y).d.values())
SCALARS = None
def value(x):
    if isinstance(x, T) and x.arr.size == 1 and x.is_small(): return x.chk().arr.reshape(-1)[0]
    if isinstance(x, P): return x
    if SCALARS is not None and isinstance(x, T) and x.arr.size == 1:
        m = x.chk().arr.reshape(-1)[0]; return SCALARS(m) if isinstance(m, NC) and all(d.const() == 1 for d in (m.r, m.c)) else None
    return None
def elem(e, l, j):
    x = l.get(e.ctx, j) if isinstance(l, SL) else e.I.getitem(l, j); return value(x)
def empty_list(v): return isinstance(v, list) and not v or isinstance(v, SL) and isinstance(v.n, int) and v.n == 0 and not v.stores
class Inner(Inv):
    """one operation with a parameter vector: before iteration i the parameters are the original ones and the list holds the
    derivatives with respect to the first i of them"""
    def __init__(s, c, k, der, loose=False): s.c, s.k, s.der, s.loose = c, k, der, loose     # loose: the operation's own parameters are arbitrary in between
    def init(s, e, env):
        c = s.c; restored(e, c, 'parameters before the inner loop'); s.st0 = c.st.save()
        s.lists = [x for x, v in env.v.items() if isinstance(v, SL) and getattr(v, 'gradlist', False)]
        s.vecs = [x for x, v in env.v.items() if isinstance(v, VecT) and e.ctx.valid(z(v.n) == z(s.n)) is True ]
        s.shared = [x for x in s.vecs if any(env.v[x].tok is t.tok for _, t in c.st.orig)]
        if len(s.lists) != 1: raise Unsupported('the list of derivatives')
        s.l0 = env.v[s.lists[0]]
        s.same(e, env, 'before the loop')
    def same(s, e, env, when):
        c = s.c
        for x in s.vecs: j = e.ctx.var('j'); e.check(f'the working copy is the parameter vector {when}', e.ctx.forall(lambda: True if (env.v[x].at(j)-c.p(s.k, j)).is_zero() else None, [j >= 0, j < z(s.n)]), x)
    def fresh(s, e, env):
        c = s.c; c.st.restore(([], s.st0[1]))
        if s.loose:
            f = lambda j: P.atom(e.ctx.atom('whatever', 'real', simp(z(j)))); c.st.mods = [(s.k, f, VecT(s.n, f))]
        for x in s.vecs: env.v[x] = VecT(s.n, lambda j: c.p(s.k, j))
    def upto(s, e, i):
        l0, b = s.l0, s.c.cum(z(s.k))
        def at(j): return l0.get(e.ctx, j) if e.ctx.decide(z(j) < b) else T(TT.oscal(s.der(e.ctx, s.c, s.k, simp(z(j)-b))))
        l = SL(simp(b+z(i)), at); l.gradlist = True; return l
    def havoc(s, e, env, i): s.fresh(e, env); s.c.inner = i; env.v[s.lists[0]] = s.upto(e, i)
    def post(s, e, env, i):
        if s.loose: e.check('only this operation is updated', all(e.ctx.valid(z(m[0]) == z(s.k)) for m in s.c.st.mods) or None)
        else: restored(e, s.c, 'parameters after the iteration')
        unwritten(e, s.c); kept_states(e, env); e.check('a view of the parameters is not written', not any(env.v[x].tok.written for x in s.shared) or None); s.same(e, env, 'after the iteration'); s.c.inner = None
        l = env.v[s.lists[0]]; b = s.c.cum(z(s.k)); ctx = e.ctx
        if not isinstance(l, SL): e.check('the list', None); return
        e.check('one derivative per iteration', ctx.valid(z(l.n) == b+i+1), f'{l.n}')
        x = elem(e, l, simp(b+i)); e.check('the derivative of this parameter', None if x is None else same(x, s.der(ctx, s.c, s.k, i)) or None, f'{x}')
        j = ctx.var('j'); want = s.upto(e, i)
        e.check('earlier entries stay', ctx.forall(lambda: True if (elem(e, l, j)-elem(e, want, j)).is_zero() else None, [j >= 0, j < b+i]))
    def exit(s, e, env): s.fresh(e, env); s.c.inner = None; env.v[s.lists[0]] = s.upto(e, s.n)
class Outer(Inv):
    """before iteration k every operation has its original parameters and the list holds the derivatives with respect to the
    parameters of the operations before k, in order"""
    def __init__(s, c, der, extra=None): s.c, s.der, s.extra = c, der, extra
    def list(s, e, k):
        l = SL(s.c.cum(z(k)), lambda j: T(TT.oscal(P.atom(e.ctx.atom('grad', 'real', simp(z(j))))))); l.gradlist = True; return l
    def init(s, e, env):
        l = [x for x, v in env.v.items() if empty_list(v)]
        if len(l) != 1: raise Unsupported('the list of derivatives')
        s.nm = l[0]; restored(e, s.c, 'parameters before the loop'); s.st0 = s.c.st.save()
    def havoc(s, e, env, k): s.c.st.restore(([], s.st0[1])); s.c.k = k; facts(e.ctx, s.c, k); env.v[s.nm] = s.list(e, k)
    def post(s, e, env, k):
        c, ctx = s.c, e.ctx; restored(e, c, 'parameters after the iteration'); unwritten(e, c); kept_states(e, env); c.k = None
        l = env.v[s.nm]
        if not isinstance(l, SL): e.check('the list', None); return
        e.check('one entry per parameter', ctx.valid(z(l.n) == c.cum(z(k)+1)), f'{l.n}')
        i = ctx.var('i'); want = s.list(e, k)
        e.check('entry i of an operation is its i-th derivative', ctx.forall(lambda: True if same(elem(e, l, simp(c.cum(k)+i)), s.der(ctx, c, k, i)) else None, [i >= 0, i < c.npar(k)]))
        e.check('earlier entries stay', ctx.forall(lambda: True if (elem(e, l, i)-elem(e, want, i)).is_zero() else None, [i >= 0, i < c.cum(k)]))
    def exit(s, e, env): s.c.st.restore(([], s.st0[1])); s.c.k = None; env.v[s.nm] = s.list(e, s.c.K)
def pick(e, c, der, loose=False):
    c.k = None
    def f(n, env):
        if c.k is None: return Outer(c, der) if e.ctx.valid(z(n) == c.K) is True else None
        return Inner(c, c.k, der, loose) if e.ctx.valid(z(n) == c.npar(z(c.k))) is True else None
    return f
def result_ok(e, c, r):
    """the returned gradient: the collected derivatives, in order"""
    ctx = e.ctx
    if isinstance(r, T) and r.is_small() and r.arr.shape == (0,):
        if ctx.valid(c.K == 0) is not True: e.check('one entry per parameter', ctx.valid(c.cum(c.K) == 0))
        return
    if not isinstance(r, VecT): e.check('a vector', None, f'{type(r).__name__}'); return
    e.check('one entry per parameter', ctx.valid(z(r.n) == c.cum(c.K)))
    j = ctx.var('j'); e.check('entry j is the j-th derivative', ctx.forall(lambda: True if r.at(j) == P.atom(ctx.atom('grad', 'real', simp(j))) else None, [j >= 0, j < c.cum(c.K)]))
# ---------------------------------------------------------------- forward and backward states (adjoint gradient)
class DagGate(Opaque):
    """what operation_dagger() of operation k returns (C04): the adjoint operator on the same register"""
    def __init__(s, c, k): s.c, s.k = c, k
    def attr(s, I, a):
        if a == 'supportTN': return s.c.sup(z(s.k))
        if a == 'nqubits': return s.c.N
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        if name == 'info': return Dict({'label': 'label'})
        if name == 'TN_operation' and len(args) == 1 and isinstance(args[0], MPSV) and not kw:
            args[0].apply(I, N_.dagger(s.c.opnow(I, s.k))); return args[0]
        if name == 'U_expand' and not args and not kw: return TT.dense(N_.dagger(s.c.opnow(I, s.k)))
        raise Unsupported(f'method {name} of an adjoint operation')
class TGate(PGate):
    """parametrised operation with tensor-network support: its matrix-product application is its operator at the current parameters"""
    def method(s, I, name, args, kw):
        c = s.c
        if name == 'TN_operation' and len(args) == 1 and not kw:
            if not I.ctx.decide(c.sup(z(s.k))): raise Exc('ValueError', 'no tensor-network support')
            if not isinstance(args[0], MPSV): raise Unsupported('TN_operation on another value')
            args[0].apply(I, c.opnow(I, s.k)); return args[0]
        if name == 'U_expand' and not args and not kw: return TT.dense(c.opnow(I, s.k))
        if name == 'operation_dagger' and not args and not kw: return DagGate(c, s.k)
        if name in ('TN_contract',): raise Unsupported('contraction inside a gradient routine')
        return PGate.method(s, I, name, args, kw)
def part(c, k, i, w): d = Dim.pow2(c.N); return N_.nc_op(Op('part', (simp(z(k)), simp(z(i)), Fr(w)), d, d))
def opnow(c):
    def f(I, k):
        off = c.st.shift(I, getattr(c, 'inner', None))
        if off is None: return N_.nc_op(G(c.N, k))
        q, i, d = off; v = I.ctx.valid(z(q) == z(k))
        if v is not True:
            if I.ctx.valid(z(q) != z(k)) is True: return N_.nc_op(G(c.N, k))
            raise Unsupported('whether this operation is shifted')
        r = None
        for w in W[label_of(I.ctx, c, k)]:
            x = N_.scale(I.ctx, S_.expi((c.p(k, i)+d)*w), part(c, k, i, w)); r = x if r is None else N_.add(I.ctx, r, x)
        return r
    return f
def tn_circuit(e):
    c = param_circuit(e, lo=1, support=True)
    c.gl = c.o.attrs['gate'] = SL(c.K, lambda k: TGate(c, k)); c.opnow = opnow(c); D = Dim.pow2(c.N)
    c.F = lambda k: N_.nc_op(Op('F', (simp(z(k)),), D, Dim(1))); c.B = lambda k: N_.nc_op(Op('B', (simp(z(k)),), D, Dim(1)))
    c.init = TT.dense(N_.transpose(c.F(0)))
    return c
class Saved(Opaque):
    """dictionary of saved states: rule(I, q) is the content of entry q, None where nothing is known; then the stores made since"""
    def __init__(s, c, rule): s.c, s.rule, s.st, s.out = c, rule, [], []
    def clone_(s): r = Saved(s.c, s.rule); r.st = list(s.st); r.out = list(s.out); return r
    def changed_(s, c): return len(c.st) != len(s.st)
    def acc_(s): raise Unsupported('a loop changes a dictionary')
    def attr(s, I, a): return BMeth(s, a)
    def method(s, I, name, a, k):
        if name == '__iter__': raise Unsupported('iterating over the saved states')
        raise Unsupported(f'dictionary method {name}')
    def setitem(s, I, i, v):
        if not is_int(i): raise Unsupported('dictionary key')
        s.st.append((i, v))
    def getitem(s, I, i):
        for k, v in reversed(s.st):
            if I.ctx.decide(z(k) == z(i)): return v
        for k, v in s.out:
            if I.ctx.valid(z(k) == z(i)) is True: return v
        x = s.rule(I, i)
        if x is None: raise Unsupported('an entry about which nothing is known')
        v = MPSV(s.c.N, x, I); s.out.append((i, v)); return v
def fwd_rule(c, k, F=None):
    """states saved by the first k forward steps"""
    def f(I, q):
        if I.ctx.decide(z3.And(z(q) >= 0, z(q) < z(k), z(q) < c.K-1, c.npar(z(q)+1) != 0)): return (F or c.F)(simp(z(q)+1))
        return None
    return f
def all_rule(c, k, B=None):
    """... and by the first k backward steps"""
    g = fwd_rule(c, c.K)
    def f(I, q):
        if I.ctx.decide(z3.And(z(q) >= c.K-1, z(q) <= c.K-1+z(k), z(q) <= 2*c.K-2, c.npar(2*c.K-2-z(q)) != 0)): return (B or c.B)(simp(2*c.K-1-z(q)))
        return g(I, q)
    return f
def matches(e, d, rule, live, what):
    """every entry of the rule is in the dictionary, with that content, and is not the object the program goes on changing"""
    ctx = e.ctx; q = ctx.var('q')
    def f():
        want = rule(e.I, q)
        if want is None: return True
        try: v = d.clone_().getitem(e.I, q)
        except (Unsupported, Exc): return None
        if not isinstance(v, MPSV): return None
        v.commit(e.I)
        return True if v is not live and ctx.valid(z(v.N) == e_N(d)) is True and N_.nc_eq(ctx, v.content, want) is True else None
    e.check(what, ctx.forall(f))
def e_N(d): return d.c.N
def one_mps(env, what):
    l = [x for x, v in env.v.items() if isinstance(v, MPSV)]
    if not l or any(env.v[x] is not env.v[l[0]] for x in l): raise Unsupported(what)
    return l
def live(e, env, names, want, what):
    v = env.v[names[0]]
    if not isinstance(v, MPSV): e.check(what, None, f'{type(v).__name__}'); return None
    v.commit(e.I); e.check(what+': length', e.ctx.valid(z(v.N) == z(want[0]))); e.eq(what, v.content, want[1]); return v
class Forward(Inv):
    """before iteration k the live state is F_k = G(k-1)...G(0)|init>, and F_{j+1} is saved for every j < k whose successor has parameters"""
    def __init__(s, c): s.c = c
    def init(s, e, env):
        c = s.c; s.m = one_mps(env, 'the state'); live(e, env, s.m, (c.N, c.F(0)), 'state before the first operation')
        d = [x for x, v in env.v.items() if isinstance(v, Dict) and not v.d or isinstance(v, dict) and not v]
        if len(d) != 1: raise Unsupported('the dictionary of saved states')
        s.d = d[0]
    def put(s, e, env, k):
        m = MPSV(s.c.N, s.c.F(k), e.I)
        for x in s.m: env.v[x] = m
        env.v[s.d] = Saved(s.c, fwd_rule(s.c, k))
    def havoc(s, e, env, k): s.put(e, env, k); facts(e.ctx, s.c, k)
    def post(s, e, env, k):
        c = s.c; nxt = N_.mul(e.ctx, N_.nc_op(G(c.N, k)), c.F(k)); v = live(e, env, s.m, (c.N, nxt), 'state after the operation')
        F = lambda j: nxt if e.ctx.decide(z(j) == z(k)+1) else c.F(j)
        matches(e, env.v[s.d], fwd_rule(c, simp(z(k)+1), F), v, 'states saved on the way forward')
    def exit(s, e, env): s.put(e, env, s.c.K)
class Backward(Inv):
    """before iteration k (operation K-1-k) the live state is B_{K-k} = G(K-k)^+ ... G(K-1)^+ M F_K; B_j is saved for every such j whose predecessor has parameters"""
    def __init__(s, c, mf): s.c, s.mf = c, mf
    def init(s, e, env):
        c = s.c; s.m = one_mps(env, 'the state'); v = live(e, env, s.m, (c.N, s.mf), 'state at the turning point')
        d = [x for x, v_ in env.v.items() if isinstance(v_, Saved)]
        if len(d) != 1: raise Unsupported('the dictionary of saved states')
        s.d = d[0]; matches(e, env.v[s.d], all_rule(c, 0, lambda j: s.mf if e.ctx.valid(z(j) == c.K) is True else c.B(j)), v, 'states saved at the turning point')
    def put(s, e, env, k):
        m = MPSV(s.c.N, s.c.B(simp(s.c.K-z(k))), e.I)
        for x in s.m: env.v[x] = m
        env.v[s.d] = Saved(s.c, all_rule(s.c, k))
    def havoc(s, e, env, k): s.put(e, env, k); facts(e.ctx, s.c, simp(s.c.K-1-z(k)))
    def post(s, e, env, k):
        c = s.c; j = simp(c.K-1-z(k)); nxt = N_.mul(e.ctx, N_.dagger(N_.nc_op(G(c.N, j))), c.B(simp(j+1))); v = live(e, env, s.m, (c.N, nxt), 'state after the adjoint operation')
        B = lambda q: nxt if e.ctx.decide(z(q) == z(j)) else c.B(q)
        matches(e, env.v[s.d], all_rule(c, simp(z(k)+1), B), v, 'states saved on the way back')
    def exit(s, e, env): s.put(e, env, s.c.K)
def adjoint_deriv(ctx, c, k, i):
    """2 Re <B_{k+1}| dG(k)/dp_i |F_k>"""
    r = P.const(0); lab = label_of(ctx, c, k)
    for w in W[lab]:
        if w == 0: continue
        r = r+overlap(ctx, c, k, i, w)*S_.expi(c.p(k, i)*w)*P.const((0, 0, Fr(w), 0))
    return r+r.conj()
def overlap(ctx, c, k, i, w): return P.atom(ctx.atom(f'<B|A{w}|F>', 'cplx', simp(z(k)), simp(z(i))))
def as_number(ctx, c, x):
    """a 1 x 1 operator expression in the overlaps <B_{k+1}|A_w F_k> as a scalar; None: something else"""
    r = P.const(0)
    for co, w in x.t:
        if len(w) == 0: r = r+co; continue
        if len(w) != 3 or not all(isinstance(f, Op) for f in w): return None
        if w[0].name == 'F' and not w[0].conj or w[0].name == 'B' and not w[0].conj: w = N_.transpose(NC([(P.const(1), w)], Dim(1), Dim(1))).t[0][1]     # a number is its own transpose
        cj = w[0].name == 'F'
        if cj: w = N_.dagger(NC([(P.const(1), w)], Dim(1), Dim(1))).t[0][1]
        b, a, f = w
        if (b.name, a.name, f.name) != ('B', 'part', 'F') or f.tr or f.conj or a.tr or a.conj or not (b.tr and b.conj): return None
        k, i, wt = a.idx
        if ctx.valid(z3.And(z(b.idx[0]) == z(k)+1, z(f.idx[0]) == z(k))) is not True: return None
        o = overlap(ctx, c, k, i, wt); r = r+co*(o.conj() if cj else o)
    return r
