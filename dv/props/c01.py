from ..prove import Ob
from ..contracts import *
from .. import specs as S
from ..scalar import P
from ..tensor import T
import z3
FORMS = {0: ['-'], 1: ['scalar', 'float', 'vec'], 3: ['vec', 'list']}
def give(e, ps, form):
    """parameters in one of the forms users pass them"""
    if form == '-': return []
    if form == 'scalar': return [TT.scal(ps[0])]
    if form == 'float': return [ps[0]]
    if form == 'vec': return [TT.small(ps)]
    if form == 'list': return [list(ps)]
    raise KeyError(form)
def mk(e, g, form, ps, N, w):
    n, k, f = S.GATES[g]
    return e.call(e.get(QO+g), *give(e, ps, form), N, w[0] if k == 1 else list(w))
def sp_of(t): 
    return {(i, j): t.arr[i, j] for i in range(t.arr.shape[0]) for j in range(t.arr.shape[1]) if not t.arr[i, j].is_zero()}
def expand(e, g, form):
    n, k, f = S.GATES[g]
    N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=ps, form={'scalar': 'tensor', 'vec': 'tensor', 'list': 'float', 'float': 'float', '-': 'tensor'}[form])
    o = mk(e, g, form, ps, N, w)
    e.eq('U_expand', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
def matrix(e, g, form):
    n, k, f = S.GATES[g]
    ps = e.params(n); N = e.N(3)
    e.note = dict(op=g, N=3, wires=list(range(k)), params=ps, form='tensor')
    o = mk(e, g, form, ps, 3, list(range(k)))
    m = e.I.getattr(o, 'matrix')
    if not (isinstance(m, T) and m.is_small()): e.check('matrix', None); return
    if m.arr.shape != (2**k, 2**k): e.fail('matrix', f'shape {m.arr.shape}')
    e.check('matrix is the textbook matrix', N_.sp_eq(e.ctx, sp_of(m), f(ps)), f'{m}')
    a = sp_of(m); ad = {(c, r): v.conj() for (r, c), v in a.items()}
    e.check('matrix is unitary', N_.sp_eq(e.ctx, N_.sp_mul(a, ad), N_.sp_eye(2**k)))
def mcx(e):
    N = e.N(); wl = e.wirelist(N, lo=2)
    e.note = dict(op='multi_control_cnot', N=N, wires=wl, params=[], form='tensor')
    o = e.call(e.get(QO+'multi_control_cnot'), N, wl)
    U = e.meth(o, 'U_expand')
    L = wl.n
    e.eq('U_expand', U, mcx_spec(N, wl))
def mcx_spec(N, wl):
    L = wl.n; f = wl.fn
    one = P.const(1); D = Dim.pow2(N)
    pr = N_.Prod(N, simp(L-1), lambda k: (N_.Loc(N, (f(z(k)),), {(1, 1): one}),))
    xt = N_.Loc(N, (f(z(L-1)),), S.X)
    return N_.NC([(one, ()), (P.const(-1), (pr,)), (one, (pr, xt))], D, D)
def obligations(tier):
    obs = []
    for g, (n, k, f) in S.GATES.items():
        for form in FORMS[n]:
            if form == 'vec' and n == 1 and g in VEC_NO: continue
            obs.append(Ob(f'{g}.U_expand [{form} parameters]', expand, g, form))
            obs.append(Ob(f'{g}.matrix [{form} parameters]', matrix, g, form))
    obs.append(Ob('multi_control_cnot.U_expand [any number of controls]', mcx))
    return obs
VEC_NO = ()
