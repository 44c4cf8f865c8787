"""C02: TN_contract of every gate is its dense operator on the rank-N state, batched or not."""
from .c01 import *
from ..tensor import StateT, oarr, B
from ..nc import NC, Op, Loc
from ..vals import Dim, SL, simp
NOTN = ('multi_control_cnot',)
def column(e, N, name='psi'):
    """an arbitrary state vector of N qubits"""
    return N_.nc_op(Op(name, (), Dim.pow2(N), Dim(1)))
def state(e, N, batch=False, name='psi'):
    c = column(e, N, name)
    if batch: return StateT(simp(z3.IntVal(1)+N), lambda p: simp(p-1) if not isinstance(p, int) else p-1, c, batch=True)
    return StateT(N, None, c)
def perm_op(e, s, N, off, cand):
    """operator that turns the labelled content into the plain axis order, when only the axes of `cand` are moved"""
    ctx = e.ctx; p = ctx.var('axis')
    out = z3.And(p >= 0, p < N, *[p != z(w) for w in cand])
    if ctx.forall(lambda: ctx.valid(z(s.label(simp(p+off))) == p), [out]) is not True: return None
    if off and ctx.valid(z(s.label(0)) == -1) is not True: return None
    k = len(cand); to = []
    for w in cand:
        l = z(s.label(simp(z(w)+off)))
        for j in range(k):
            if ctx.valid(l == z(cand[j])) is True: to.append(j); break
        else:
            for j in range(k):
                if ctx.decide(l == z(cand[j])): to.append(j); break
            else: return None
    if sorted(to) != list(range(k)): return None
    if to == list(range(k)): return []
    m = {}
    for x in range(2**k):
        y = 0
        for i in range(k):
            if x >> (k-1-i) & 1: y |= 1 << (k-1-to[i])
        m[(x, y)] = P.const(1)
    return [Loc(N, tuple(cand), m)]
def read(e, s, N, batch, cand=(), name='axes'):
    """the N-qubit vector held by the tensor read in plain axis order; None after a recorded failure"""
    if not isinstance(s, StateT): e.check(name, None, f'result is {type(s).__name__}'); return None
    if s.merged or s.ones: e.check(name, False, f'merged={s.merged}, trailing unit axes={s.ones}'); return None
    off = 1 if batch else 0; ctx = e.ctx
    e.check(name+': rank', ctx.valid(z(s.n) == N+off), f'rank {s.n}')
    p = ctx.var('axis')
    if ctx.forall(lambda: ctx.valid(z(s.label(p)) == p-off), [p >= 0, p < N+off]) is True: e.check(name+': order', True); return s.content
    L = perm_op(e, s, N, off, list(dict.fromkeys(cand)))
    if L is None: e.check(name+': order', None, 'axis order not understood'); return None
    return N_.simp(ctx, NC([(c, tuple(L)+tuple(w)) for c, w in s.content.t], s.content.r, s.content.c))
def z(x): return z3.IntVal(x) if isinstance(x, int) else x
def applied(e, N, wires, m, col): return N_.mul(e.ctx, S.op(N, wires, m), col)
def tn(e, g, form, batch):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=ps, form='tensor' if form != 'float' else 'float', repeat=1)
    o = mk(e, g, form, ps, N, w)
    check_tn(e, o, N, batch, lambda col: applied(e, N, w, f(ps), col), cand=w)
def check_tn(e, o, N, batch, want, tag='TN_contract', cand=()):
    s = state(e, N, batch); tok = s.tok; c0 = s.content
    r = e.meth(o, 'TN_contract', s, batch_mod=True) if batch else e.meth(o, 'TN_contract', s)
    got = read(e, r, N, batch, cand, tag+' axes')
    if got is not None: e.eq(tag+' values', got, want(c0))
def flag(e, g):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    o = mk(e, g, 'vec' if n == 3 else 'scalar' if n else '-', ps, N, w)
    e.check('supportTN is declared', e.I.getattr(o, 'supportTN') is True)
def obligations(tier):
    obs = []
    for g, (n, k, f) in S.GATES.items():
        for form in FORMS[n]:
            if form == 'vec' and n == 1: continue
            for b in (False, True): obs.append(Ob(f'{g}.TN_contract [{form} parameters{", batched" if b else ""}]', tn, g, form, b))
        obs.append(Ob(f'{g}.supportTN', flag, g))
    return obs
ASSUMPTIONS = ['a rank-N tensor is [2]*N, a batched one [batch]+[2]*N']
