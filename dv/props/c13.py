"""C13: expectation values and measurement of Z."""
from .c10 import *
from .c22 import real_part
QM = 'deepquantum.gates.qmath.'
def vec(e, N, form, name='psi'):
    c = column(e, N, name)
    if form == 'row': return TT.dense(N_.transpose(c)), c
    if form == 'column': return TT.dense(c), c
    return T(TT.oscal(c), [[B(Dim.pow2(N), 'R')]]), c       # rank one
def herm(e, N, name='M'): d = Dim.pow2(N); return N_.nc_op(Op(name, (), d, d, herm=True))
def dmat(e, N):
    """a density matrix: Hermitian, unit trace"""
    e.ctx.__dict__.setdefault('traces', {})['rho'] = P.const(1)
    return herm(e, N, 'rho')
def num_is(e, name, got, want):
    e.check(name+': a scalar', isinstance(got, T) and got.arr.size == 1 and all(d == 1 for d in got.shape()), f'{got}')
    x = got.arr.reshape(-1)[0]
    if isinstance(x, P): x = NC([(x, ())], Dim(1), Dim(1))
    e.eq(name, x, want)
def on_state(e, psi, M): return real_part(e, N_.mul(e.ctx, N_.dagger(psi), N_.mul(e.ctx, M, psi)))
def on_rho(e, rho, M): return real_part(e, N_.trace(e.ctx, N_.mul(e.ctx, rho, M)))
def expv(e, form):
    N = e.N(); st, psi = vec(e, N, form); M = herm(e, N); Mt = TT.dense(M)
    r = e.call(e.get(QM+'expval'), st, Mt); num_is(e, '<psi|M|psi>', r, on_state(e, psi, M))
    e.check('inputs unchanged', not st.tok.written and not Mt.tok.written)
def expr(e):
    N = e.N(); rho = dmat(e, N); M = herm(e, N); rt, Mt = TT.dense(rho), TT.dense(M)
    r = e.call(e.get(QM+'expval'), rt, Mt, rho=True); num_is(e, 'tr(rho M)', r, on_rho(e, rho, M))
    e.check('inputs unchanged', not rt.tok.written and not Mt.tok.written)
def trace_refused(e):
    """a matrix whose trace differs from one by more than 0.01 is refused"""
    N = e.N(); t = e.params(1, 'trace')[0]; e.ctx.traces = {'rho': t}; zt = e.I.real_of(list(t.atoms())[0])
    e.ctx.assume(z3.Or(zt > z3.RealVal('1.01'), zt < z3.RealVal('0.99')))
    rho = herm(e, N, 'rho')
    try: r = e.call(e.get(QM+'expval'), TT.dense(rho), TT.dense(herm(e, N)), rho=True)
    except Exc: e.check('refused', True); return
    e.check('a matrix of other trace is refused', False)
def Zq(N, q): return S.op(N, (q,), S.Z)
def meas(e, form, sel):
    N = e.N(); ctx = e.ctx
    if form == 'rho': rho = dmat(e, N); st = TT.dense(rho); val = lambda M: on_rho(e, rho, M)
    else: st, psi = vec(e, N, form); val = lambda M: on_state(e, psi, M)
    f = e.get(QM+'measure'); args = [N, st]
    if sel == 'none': n, q = N, (lambda k: k)
    elif sel == 'empty': n, q = N, (lambda k: k); args.append([])
    elif sel == 'int':
        w = e.wires(1, N)[0]; n, q = 1, (lambda k: w); args.append(w)
    elif sel == 'zero': n, q = 1, (lambda k: 0); args.append(0)
    elif sel == 'list': l = e.wirelist(N, 1, distinct=False); n, q = l.n, (lambda k: l.get(ctx, k)); args.append(l)
    else: w = e.wires(int(sel), N, distinct=False); n, q = int(sel), (lambda k: w[k]); args.append(list(w))
    r = e.call(f, *args)
    if isinstance(r, T):
        e.check('one value per requested qubit', r.ndim() == 1 and isinstance(r.shape()[0], int) and ctx.valid(z(n) == r.shape()[0]), f'{r.shape()}')
        for k in range(r.shape()[0]): num_is(e, f'<Z> of requested qubit {k}', T(TT.oscal(r.arr.reshape(-1)[k])), val(Zq(N, q(k))))
    elif isinstance(r, VecT):
        e.check('one value per requested qubit', ctx.valid(z(r.n) == z(n)), f'{r.n}')
        k = ctx.var('k'); nb = [0]
        def at():
            x = r.at(k); nb[0] += 1
            if isinstance(x, P): x = NC([(x, ())], Dim(1), Dim(1))
            return N_.nc_eq(ctx, x, val(Zq(N, q(k))))
        e.check('value k is <Z> of the k-th requested qubit', ctx.forall(at, [k >= 0, k < z(n)]))
    else: e.check('a vector', None, f'{type(r).__name__}')
    e.check('state unchanged', not st.tok.written)
def obligations(tier):
    obs = [Ob(f'expval: {f} state vector', expv, f) for f in ('row', 'column', 'rank-one')]
    obs += [Ob('expval: density matrix', expr), Ob('expval: a matrix of trace other than one is refused', trace_refused)]
    for f in ('row', 'column', 'rank-one', 'rho'):
        for s in ('none', 'empty', 'int', 'zero', 'list', '1', '2', '3'): obs.append(Ob(f'measure: {f}, qubits: {s}', meas, f, s))
    return obs
ASSUMPTIONS = ['observables and density matrices are Hermitian; density matrices have unit trace']
