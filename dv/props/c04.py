"""C04: operation_dagger() of every gate and layer is its adjoint."""
from .layers import *
from .c01 import mcx_spec
def mcx(e):
    """multi-controlled NOT: its own adjoint"""
    N = e.N(); wl = e.wirelist(N, lo=2); e.note = dict(op='multi_control_cnot', N=N, wires=wl, params=[], form='tensor')
    o = e.call(e.get(QO+'multi_control_cnot'), N, wl); b = snap(e, o); d = e.meth(o, 'operation_dagger')
    if not isinstance(d, PyObj): e.fail('adjoint', f'returned {d}')
    unchanged_obj(e, 'taking the adjoint changes nothing in the original', b, o)
    e.eq('operator of the adjoint', e.meth(d, 'U_expand'), mcx_spec(N, wl))     # Hermitian: the adjoint of the specification is the specification
    for k in ('nqubits', 'wires', 'supportTN', 'num_params', 'num_wires'): e.check(f'register: {k}', veq(e, d.attrs.get(k), o.attrs.get(k)), f'{d.attrs.get(k)} instead of {o.attrs.get(k)}')
    e.meth(d, 'info')
    e.eq('adjoint of the adjoint', e.meth(e.meth(d, 'operation_dagger'), 'U_expand'), mcx_spec(N, wl))
    e.eq('original afterwards', e.meth(o, 'U_expand'), mcx_spec(N, wl))
def gate(e, g, form):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=ps, form=tmpl(form), repeat=1)
    o = mk(e, g, form, ps, N, w); b = snap(e, o)
    d = e.meth(o, 'operation_dagger')
    if not isinstance(d, PyObj): e.fail('adjoint', f'returned {d}')
    adj = dag_sp(f(ps))
    unchanged_obj(e, 'taking the adjoint changes nothing in the original', b, o)
    e.eq('operator of the adjoint', e.meth(d, 'U_expand'), S.op(N, w, adj))
    m = e.I.getattr(d, 'matrix')
    e.check('matrix of the adjoint', N_.sp_eq(e.ctx, sp_of(m), adj) if isinstance(m, T) and m.is_small() else None, f'{m}')
    same_public(e, 'register', d, o, ('nqubits', 'wires', 'supportTN', 'num_params', 'num_wires'))
    check_tn(e, d, N, False, lambda col: N_.mul(e.ctx, S.op(N, w, adj), col), 'tensor contraction of the adjoint', w)
    check_tn(e, d, N, True, lambda col: N_.mul(e.ctx, S.op(N, w, adj), col), 'batched contraction of the adjoint', w)
    check_mps(e, d, N, lambda col: N_.mul(e.ctx, S.op(N, w, adj), col), 'matrix-product application of the adjoint')
    e.meth(d, 'info')
    dd = e.meth(d, 'operation_dagger')
    e.eq('adjoint of the adjoint', e.meth(dd, 'U_expand'), S.op(N, w, f(ps)))
    e.eq('original afterwards', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
    if n:
        # the adjoint is a gate of its own: updating it does not reach the original
        qs = e.params(n, 'ph'); e.meth(d, 'params_update', uptensor(e, g, qs))
        e.eq('adjoint after an update', e.meth(d, 'U_expand'), S.op(N, w, f(qs)))
        e.eq('original after updating the adjoint', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
        unchanged_obj(e, 'updating the adjoint changes nothing in the original', b, o)
def updated(e, g):
    """adjoint of an updated gate"""
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); p0 = e.params(n, 'old'); ps = e.params(n)
    e.note = dict(op=g, N=N, wires=w, params=p0, upd=ps, form='tensor', repeat=1)
    o = mk(e, g, 'scalar' if n == 1 else 'vec', p0, N, w); e.meth(o, 'params_update', uptensor(e, g, ps))
    d = e.meth(o, 'operation_dagger')
    e.eq('operator of the adjoint', e.meth(d, 'U_expand'), S.op(N, w, dag_sp(f(ps))))
    check_tn(e, d, N, False, lambda col: N_.mul(e.ctx, S.op(N, w, dag_sp(f(ps))), col), 'tensor contraction of the adjoint', w)
    check_mps(e, d, N, lambda col: N_.mul(e.ctx, S.op(N, w, dag_sp(f(ps))), col), 'matrix-product application of the adjoint')
    e.eq('original afterwards', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
ADJ = list(ROT) + ['HLayer', 'ring_of_cnot', 'ring_of_cnot_dagger']
def lay(e, c, form='tensor', **k):
    if c in RINGS and k.pop('full', False):
        N = e.N(2); l = SL(N, lambda j: j); l.fn = lambda k: k; l._isint = True
        return mk_layer(e, c, form, N, l)
    k.pop('full', None)
    return mk_layer(e, c, form, **k)
def adj_spec(e, s): return nc_of_word(s.N, dagger_word(e, s.c, s.N, s.wl, s.at))
def adjoint(e, s):
    d = e.meth(s.o, 'operation_dagger')
    if not isinstance(d, PyObj): e.fail('adjoint', f'returned {d}')
    return d
def layer(e, c, form):
    s = lay(e, c, form); b = snap(e, s.o); d = adjoint(e, s)
    unchanged_obj(e, 'taking the adjoint changes nothing in the original', b, s.o)
    if isinstance(s.p, VecT): e.check("caller's tensor is not written", not s.p.tok.written)
    e.eq('operator of the adjoint', e.meth(d, 'U_expand'), adj_spec(e, s))
    for k in ('nqubits', 'wires', 'supportTN', 'num_params'): e.check(f'register: {k}', veq(e, d.attrs.get(k), s.o.attrs.get(k)), f'{d.attrs.get(k)} instead of {s.o.attrs.get(k)}')
    unchanged_obj(e, 'using the adjoint changes nothing in the original', b, s.o)
    e.meth(d, 'info')
    e.eq('adjoint of the adjoint', e.meth(e.meth(d, 'operation_dagger'), 'U_expand'), spec(e, c, s.N, s.wl, s.at))
    e.eq('original afterwards', e.meth(s.o, 'U_expand'), spec(e, c, s.N, s.wl, s.at))
def layer_tn(e, c, path):
    s = lay(e, c, full=True); d = adjoint(e, s); want = lambda col: N_.mul(e.ctx, adj_spec(e, s), col)
    if path == 'mps': check_mps(e, d, s.N, want, 'matrix-product application of the adjoint')
    else: check_tn(e, d, s.N, path == 'batch', want, 'tensor contraction of the adjoint')
def layer_upd(e, c, order):
    """an adjoint and its original are separate layers"""
    s = lay(e, c); q = fnat(e.ctx, 'ph'); b = snap(e, s.o)
    if order == 'updated first':
        e.note = lambda rec: dict(s.note(rec), upd=[rec(q(i)) for i in range(rec(s.M))])
        e.meth(s.o, 'params_update', VecT(s.M, q)); d = adjoint(e, s)
        e.eq('operator of the adjoint', e.meth(d, 'U_expand'), nc_of_word(s.N, dagger_word(e, c, s.N, s.wl, q)))
        e.eq('original afterwards', e.meth(s.o, 'U_expand'), spec(e, c, s.N, s.wl, q)); return
    d = adjoint(e, s); e.meth(d, 'params_update', VecT(s.M, q))
    r = {'XYZLayer': 'ZYXLayer', 'ZYXLayer': 'XYZLayer', 'XZLayer': 'ZXLayer', 'ZXLayer': 'XZLayer'}.get(c, c)
    e.eq('adjoint after an update', e.meth(d, 'U_expand'), spec(e, r, s.N, s.wl, q))
    e.eq('original after updating the adjoint', e.meth(s.o, 'U_expand'), spec(e, c, s.N, s.wl, s.at))
    unchanged_obj(e, 'updating the adjoint changes nothing in the original', b, s.o)
def obligations(tier):
    obs = []
    for c in ADJ:
        for form in (('tensor', 'list') if LAYERS[c] else ('-',)):
            obs.append(Ob(f'{c}.operation_dagger' + (f' [{form} parameters]' if LAYERS[c] else ''), layer, c, form))
        for p in ('plain', 'batch', 'mps'): obs.append(Ob(f'{c}.operation_dagger: {p} application', layer_tn, c, p))
        if LAYERS[c]:
            for o in ('updated first', 'adjoint updated'): obs.append(Ob(f'{c}.operation_dagger: {o}', layer_upd, c, o))
    for g, (n, k, f) in S.GATES.items():
        for form in FORMS[n]:
            if form == 'vec' and n == 1: continue
            obs.append(Ob(f'{g}.operation_dagger [{form} parameters]', gate, g, form))
        if n: obs.append(Ob(f'{g}.operation_dagger after an update', updated, g))
    return obs + [Ob('multi_control_cnot.operation_dagger', mcx)]
ASSUMPTIONS = ['the wires of a layer are distinct']
