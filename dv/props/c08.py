"""C08: every evaluation path of a circuit is the ordered product of its operations."""
from ..circ import *
def unitary(e, how):
    c = circuit(e, support=False)
    args, rev = {'default': ((), False), 'True': ((True,), False), 'False': ((False,), True)}[how]
    u = e.meth(c.o, 'U', *args)
    e.eq('U', u, prod(c, rev=rev)); frame(e, c)
def frame(e, c):
    g = c.o.attrs['gate']; ctx = e.ctx
    e.check('operations unchanged', isinstance(g, SL) and not g.stores and ctx.valid(z(g.n) == c.K) is True)
def evolve(e):
    c = circuit(e); m = mps(e, c.N); c0 = m.content
    r = e.meth(c.o, 'TN_evolution', m)
    mps_result(e, r, m, c.N, N_.mul(e.ctx, prod(c), c0), 'TN_evolution'); frame(e, c)
def contract(e, batch):
    c = circuit(e); s = state(e, c.N, batch); c0 = s.content
    r = e.meth(c.o, 'TN_contract_evolution', s, batch_mod=True) if batch else e.meth(c.o, 'TN_contract_evolution', s)
    got = read(e, r, c.N, batch)
    if got is not None: e.eq('TN_contract_evolution', got, N_.mul(e.ctx, prod(c), c0))
    frame(e, c)
def unsupported(e, path):
    """a part without tensor-network support: an error, not a result"""
    c = circuit(e, support=False); ctx = e.ctx; q = z3.Int('q0'); ctx.assume(z3.And(q >= 0, q < c.K, z3.Not(c.sup(q))))
    try:
        if path == 'TN_evolution': e.meth(c.o, 'TN_evolution', mps(e, c.N))
        else: e.meth(c.o, 'TN_contract_evolution', state(e, c.N, path == 'batch'), batch_mod=path == 'batch')
    except Exc: e.check('refused', True); return
    e.check('a circuit with an unsupported part is refused', False)
def wrong_size(e, path):
    c = circuit(e); n = z3.Int('n'); e.ctx.assume(z3.And(n >= 1, n != c.N))
    try:
        if path == 'TN_evolution': e.meth(c.o, 'TN_evolution', mps(e, n))
        else: e.meth(c.o, 'TN_contract_evolution', state(e, n))
    except Exc: e.check('refused', True); return
    e.check('a state of the wrong size is refused', False)
def check_flag(e):
    c = circuit(e, support=False); r = e.meth(c.o, 'TN_check'); q = z3.Int('q')
    want = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.K), c.sup(q)))
    if isinstance(r, bool): e.check('TN_check', e.ctx.valid(want if r else z3.Not(want)), f'{r}')
    else: e.check('TN_check', e.ctx.valid(r == want) if z3.is_bool(r) else None)
def obs_matrix(e, N): 
    d = Dim.pow2(N); return N_.nc_op(Op('M', (), d, d))
def value(e, r):
    """the scalar of a 0-d (or one-element) result: (NC 1x1, is real part)"""
    if isinstance(r, T) and r.arr.size == 1:
        if r.ndim() != 0: e.check('result is a scalar', False, f'shape {r.shape()}'); return None
        return r.arr.reshape(())[()]
    e.check('result is a scalar', None, f'{type(r).__name__}'); return None
def expectation(e, tn, sup):
    """<psi|U+ M U|psi> real part, whichever path is taken"""
    c = circuit(e, support=sup); ctx = e.ctx; N = c.N
    psi = column(e, N); row = TT.dense(N_.transpose(psi)); M = TT.dense(obs_matrix(e, N))
    r = e.meth(c.o, 'cir_expectation', row, M) if tn is None else e.meth(c.o, 'cir_expectation', row, M, TN=tn)
    v = value(e, r); f = N_.mul(ctx, prod(c), psi)
    want = N_.mul(ctx, N_.dagger(f), N_.mul(ctx, obs_matrix(e, N), f))
    want = N_.scale(ctx, P.const(Fr(1, 2)), N_.add(ctx, want, N_.dagger(want)))
    if v is not None: e.eq('expectation', v, want)
    frame(e, c); e.check('initial state unchanged', not row.tok.written)
def real_flow(e, path): pass
def obligations(tier):
    obs = [Ob(f'Circuit.U [{h}]', unitary, h) for h in ('default', 'True', 'False')]
    obs += [Ob('Circuit.TN_evolution', evolve), Ob('Circuit.TN_contract_evolution', contract, False), Ob('Circuit.TN_contract_evolution [batched]', contract, True)]
    obs += [Ob(f'Circuit.{p}: unsupported parts are refused', unsupported, p) for p in ('TN_evolution', 'plain', 'batch')]
    obs += [Ob(f'Circuit.{p}: states of the wrong size are refused', wrong_size, p) for p in ('TN_evolution', 'TN_contract_evolution')]
    obs += [Ob('Circuit.TN_check', check_flag)]
    obs += [Ob(f'Circuit.cir_expectation [TN={t}, {"all" if s else "any"} parts supported]', expectation, t, s) for t in (None, True, False) for s in (True, False)]
    return obs
ASSUMPTIONS = ['the operations of a circuit satisfy the gate contract (C01-C03 for gates, C06-C07 for layers)']
