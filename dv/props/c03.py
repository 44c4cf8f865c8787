"""C03: TN_operation of every gate on a matrix product state is its dense operator."""
from .common import *
from .. import contracts
def tn_op(e, g, form, case=None):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=ps, form='tensor' if form != 'float' else 'float', repeat=1)
    if case: e.ctx.assume(case(w))
    if g == 'SWAP': e.I.skip.add(contracts.QO+'SWAP.TN_operation')
    o = mk(e, g, form, ps, N, w); m = mps(e, N); c0 = m.content
    r = e.meth(o, 'TN_operation', m)
    mps_result(e, r, m, N, applied(e, N, w, f(ps), c0))
def swap_lemma(e):
    """induction behind the cancellation of swap chains (mps.move): after n neighbouring swaps (lo + d*k, lo + d*k + 1),
    k = 0..n-1, the qubit at x sits at pos(x, n)"""
    x, n, lo = z3.Ints('x n lo')
    for d in (1, -1):
        def pos(x, n):
            st = lo if d == 1 else lo+1
            end = st+d*n
            inr = z3.And(x > st, x <= end) if d == 1 else z3.And(x < st, x >= end)
            return z3.If(x == st, end, z3.If(inr, x-d, x))
        sw = lambda y, a: z3.If(y == a, a+1, z3.If(y == a+1, a, y))
        e.check(f'base, direction {d}', e.ctx.valid(pos(x, z3.IntVal(0)) == x))
        e.check(f'step, direction {d}', e.ctx.valid(z3.Implies(n >= 0, sw(pos(x, n), lo+d*n) == pos(x, n+1))))
def obligations(tier):
    obs = [Ob('lemma: chains of neighbouring swaps', swap_lemma)]
    for g, (n, k, f) in S.GATES.items():
        for form in FORMS[n]:
            if form == 'vec' and n == 1: continue
            obs.append(Ob(f'{g}.TN_operation [{form} parameters]', tn_op, g, form))
    return obs
ASSUMPTIONS = []
