"""C16: no path cuts the autograd graph.

Every scalar carries a flag that is set when it was cut from the graph (detach, .data, item, numpy, torch.tensor(...),
torch.no_grad) and that every later operation inherits. A result without a flagged part is connected to the parameters
through differentiable torch operations only; its value as a function of the parameters is the one proved in C01..C10."""
from .layers import *
from .c13 import vec, herm, dmat
from ..circ import circuit, QC
from ..mps import MPSV
QM = 'deepquantum.gates.qmath.'
def cut(ctx, x):
    """the parts of a value that are cut from the graph: False when there are none"""
    if isinstance(x, P): return x.det and bool(x.atoms() - {S.PI})
    if isinstance(x, NC): return any3(ctx, [cut(ctx, c) for c, _ in x.t] + [cut(ctx, f) for _, w in x.t for f in w])
    if isinstance(x, Loc): return any3(ctx, [cut(ctx, v) for v in x.m.values()])
    if isinstance(x, Op): return x.det
    if isinstance(x, N_.Tr): return any3(ctx, [cut(ctx, f) for f in x.w])
    if isinstance(x, N_.Prod):
        k = ctx.var('k'); r = ctx.forall(lambda: not any3(ctx, [cut(ctx, f) for f in x.body(k)]), [k >= 0, k < z(x.n)])
        return None if r is None else not r
    if isinstance(x, N_.Kron):
        k = ctx.var('k'); r = ctx.forall(lambda: not cut(ctx, x.sl.get(ctx, k)), [k >= 0, k < z(x.N)])
        return None if r is None else not r
    if isinstance(x, T): return any3(ctx, [cut(ctx, v) for v in x.arr.reshape(-1)])
    if isinstance(x, StateT): return cut(ctx, x.content)
    if isinstance(x, MPSV): return cut(ctx, x.content)
    if isinstance(x, VecT):
        k = ctx.var('k'); r = ctx.forall(lambda: not cut(ctx, x.at(k)), [k >= 0, k < z(x.n)])
        return None if r is None else not r
    if isinstance(x, (list, tuple)): return any3(ctx, [cut(ctx, v) for v in x])
    if isinstance(x, SL) and not isinstance(x.n, int):
        k = ctx.var('k'); r = ctx.forall(lambda: not cut(ctx, x.get(ctx, k)), [k >= 0, k < z(x.n)])
        return None if r is None else not r
    return None
def any3(ctx, rs):
    if any(r is True for r in rs): return True
    return None if any(r is None for r in rs) else False
def attached(e, name, v):
    if isinstance(v, MPSV): v.commit(e.I)
    r = cut(e.ctx, v)
    e.check(name+' is connected to the parameters', None if r is None else not r, 'cut from the autograd graph')
def tracking(e):
    e.ctx.assume(z3.Bool('requires_grad'))
def paths(e, o, N, tag='', tn=True, mp=True, matrix=True):
    attached(e, tag+'dense operator', e.meth(o, 'U_expand'))
    if matrix: attached(e, tag+'matrix', e.I.getattr(o, 'matrix'))
    if tn:
        attached(e, tag+'tensor contraction', e.meth(o, 'TN_contract', state(e, N, False, 'phi')))
        attached(e, tag+'batched contraction', e.meth(o, 'TN_contract', state(e, N, True, 'phi'), batch_mod=True))
    if mp: attached(e, tag+'matrix-product application', e.meth(o, 'TN_operation', mps(e, N, 'phi')))
def whole(t):
    """the caller's tensor is left alone (an in-place write to a tracked leaf fails in torch)"""
    return t is None or not t.tok.written
def gate(e, g, form):
    tracking(e); n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=ps, form='tensor', repeat=1)
    t = give(e, ps, form)[0]
    o = e.call(e.get(QO+g), t, N, w[0] if k == 1 else list(w))
    paths(e, o, N); e.meth(o, 'info')
    d = e.meth(o, 'operation_dagger'); paths(e, d, N, 'adjoint: ')
    e.check("caller's tensor is not written", whole(t))
def updated(e, g, form):
    tracking(e); n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); p0 = e.params(n, 'old'); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=p0, upd=ps, form='tensor', repeat=1)
    a = give(e, p0, form)[0]; b = uptensor(e, g, ps)
    o = e.call(e.get(QO+g), a, N, w[0] if k == 1 else list(w))
    e.meth(o, 'U_expand'); e.meth(o, 'params_update', b)
    paths(e, o, N); paths(e, e.meth(o, 'operation_dagger'), N, 'adjoint: ')
    e.check("caller's tensors are not written", whole(a) and whole(b))
def layer(e, c, what):
    tracking(e)
    if what == 'dense': e.I.skip.add(f'{QL}{c}.U_expand')
    s = mk_layer(e, c, 'tensor'); o = s.o; t = s.p
    if 'updated' in what:
        t2 = VecT(s.M, fnat(e.ctx, 'ph')); e.meth(o, 'params_update', t2)
        e.check("caller's tensor is not written", whole(t2))
    if 'adjoint' in what: o = e.meth(o, 'operation_dagger')
    if 'dense' in what: attached(e, what, e.meth(o, 'U_expand'))
    if 'contract' in what:
        attached(e, what, e.meth(o, 'TN_contract', state(e, s.N, False, 'phi')))
        attached(e, what+' (batched)', e.meth(o, 'TN_contract', state(e, s.N, True, 'phi'), batch_mod=True))
    if 'mps' in what: attached(e, what, e.meth(o, 'TN_operation', mps(e, s.N, 'phi')))
    e.check("caller's tensor is not written", whole(t))
def circ(e, path):
    tracking(e); c = circuit(e, support=path != 'dense')
    if path == 'U': attached(e, 'U', e.meth(c.o, 'U')); attached(e, 'U in the other direction', e.meth(c.o, 'U', False))
    elif path == 'mps': attached(e, 'TN_evolution', e.meth(c.o, 'TN_evolution', mps(e, c.N)))
    elif path == 'contract':
        attached(e, 'TN_contract_evolution', e.meth(c.o, 'TN_contract_evolution', state(e, c.N)))
    elif path == 'batch': attached(e, 'TN_contract_evolution', e.meth(c.o, 'TN_contract_evolution', state(e, c.N, True), batch_mod=True))
    else:
        row = TT.dense(N_.transpose(column(e, c.N))); M = TT.dense(herm(e, c.N))
        attached(e, 'cir_expectation', e.meth(c.o, 'cir_expectation', row, M, TN=path == 'tn'))
def exp(e, form):
    tracking(e); N = e.N(); M = TT.dense(herm(e, N))
    if form == 'rho': attached(e, 'expval', e.call(e.get(QM+'expval'), TT.dense(dmat(e, N)), M, rho=True))
    else: attached(e, 'expval', e.call(e.get(QM+'expval'), vec(e, N, form)[0], M))
def meas(e, form, sel):
    tracking(e); N = e.N()
    st = TT.dense(dmat(e, N)) if form == 'rho' else vec(e, N, form)[0]
    a = {'none': [], 'int': [e.wires(1, N)[0]], 'list': [e.wirelist(N, 1, distinct=False)]}[sel]
    attached(e, 'measure', e.call(e.get(QM+'measure'), N, st, *a))
def obligations(tier):
    obs = []
    for g, (n, k, f) in S.GATES.items():
        if not n: continue
        for form in (('scalar', 'vec') if n == 1 else ('vec',)):
            if form == 'vec' and n == 1: continue
            obs.append(Ob(f'{g}: every representation', gate, g, form)); obs.append(Ob(f'{g}: after an update', updated, g, form))
    for c, k in LAYERS.items():
        if not k: continue
        ps = ['dense', 'updated: dense']
        if c != 'BasicEntangleLayer': ps += [u+x for u in ('', 'updated: ') for x in ('contract', 'mps')] + ['adjoint: '+x for x in ('dense', 'contract', 'mps')] + ['updated adjoint: dense']
        for p in ps: obs.append(Ob(f'{c}: {p}', layer, c, p))
    for p in ('U', 'mps', 'contract', 'batch', 'tn', 'dense'): obs.append(Ob(f'Circuit: {p}', circ, p))
    for f in ('row', 'column', 'rank-one', 'rho'):
        obs.append(Ob(f'expval: {f}', exp, f))
        for s in ('none', 'int', 'list'): obs.append(Ob(f'measure: {f}, qubits: {s}', meas, f, s))
    return obs
ASSUMPTIONS = ['torch differentiates each primitive operation correctly; parameters are given as tensors']
