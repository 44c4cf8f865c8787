"""C18: encodings."""
from .layers import *
from .c17 import mat, size, peq_
from ..fun import FunT, total, absval, sqrtval
from ..vals import is_int, Dim
EMB = 'deepquantum.embeddings.'
def basis0(e, v, N):
    """v is the vector (1, 0, .., 0) of length 2^N"""
    from ..torchmod import dim_int
    if not isinstance(v, VecT): e.check('a vector', None, f'{type(v).__name__}'); return
    n = dim_int(e.ctx, Dim.pow2(N)); j = e.ctx.var('k')
    e.check('length 2^N', e.ctx.valid(z(v.n) == z(n)))
    e.check('|0..0>', e.ctx.forall(lambda: peq_(e, v.at(j), P.const(1 if e.ctx.decide(j == 0) else 0)), [j >= 0, j < z(v.n)]))
def paramlist(e, n, form, name='th'):
    at = fnat(e.ctx, name)
    return (VecT(n, at) if form == 'tensor' else SL(n, at)), at
def mk_pauli(e, axis, form, lo=1):
    N = e.N(); wl = e.wirelist(N, lo=lo); n = z3.Int('num'); e.ctx.assume(z3.And(n >= 1, n <= N))
    p, at = paramlist(e, n, form)
    e.note = lambda rec: dict(enc='pauli', N=rec(N), wires=rec(wl), pauli=axis, inputs=[rec(at(i)) for i in range(rec(n))], form=form)
    o = e.call(e.get(EMB+'qembedding.PauliEncoding'), N, p, wl, axis)
    word = (N_.Prod(N, wl.n, lambda k: (Loc(N, (wl.fn(z(k)),), S.R(S.PAULI[axis], at(simp(z(k) % n)))),)),)
    return o, N, wl, nc_of_word(N, word), p
def pauli(e, axis, form, what):
    o, N, wl, want, p = mk_pauli(e, axis, form); b = snap(e, o)
    if what == 'dense': e.eq('U_expand', e.meth(o, 'U_expand'), want)
    else:
        e.I.skip.add(EMB+'qembedding.PauliEncoding.U_expand')
        W = lambda c: N_.mul(e.ctx, want, c)
        if what in ('contract', 'batched contract'): check_tn(e, o, N, what[0] == 'b', W)
        else: check_mps(e, o, N, W)
    unchanged_obj(e, 'the encoding is left unchanged', b, o)
    e.check('input unchanged', not (p.tok.written if isinstance(p, VecT) else p.stores))
def pauli_default(e):
    N = e.N(); wl = e.wirelist(N, lo=0); n = z3.Int('num'); e.ctx.assume(z3.And(n >= 1, n <= N)); p, at = paramlist(e, n, 'tensor')
    e.note = lambda rec: dict(enc='pauli', N=rec(N), wires=rec(wl), pauli='X', inputs=[rec(at(i)) for i in range(rec(n))], form='tensor')
    o = e.call(e.get(EMB+'qembedding.PauliEncoding'), N, p, wl)
    f = e.call(e.get(EMB+'qembedding.PauliEncoding'), N, p, wl, 'X')
    r, k = attrs_eq(e, o.attrs, f.attrs); e.check('the default axis is X', r, k)
def refused(e, f, kinds=None):
    try: r = f()
    except Exc as x: e.check('refused', kinds is None or x.kind in kinds, f'{x}'); return
    e.check('refused', False, f'returned {r}')
def pauli_long(e, form):
    N = e.N(); wl = e.wirelist(N, lo=0); n = z3.Int('num'); e.ctx.assume(n > N); p, at = paramlist(e, n, form)
    e.note = lambda rec: dict(enc='pauli', N=rec(N), wires=rec(wl), pauli='X', inputs=[rec(at(i)) for i in range(rec(n))], form=form, bad='long')
    refused(e, lambda: e.call(e.get(EMB+'qembedding.PauliEncoding'), N, p, wl))
def pauli_axis(e, axis):
    N = e.N(); wl = e.wirelist(N, lo=0); n = z3.Int('num'); e.ctx.assume(z3.And(n >= 1, n <= N)); p, at = paramlist(e, n, 'tensor')
    e.note = lambda rec: dict(enc='pauli', N=rec(N), wires=rec(wl), pauli=axis, inputs=[rec(at(i)) for i in range(rec(n))], form='tensor', bad='axis')
    refused(e, lambda: e.meth(e.call(e.get(EMB+'qembedding.PauliEncoding'), N, p, wl, axis), 'U_expand'))
def amp_in(e, kind):
    n = z3.Int('num'); e.ctx.assume(n >= 1)
    x = lambda j: P.atom(e.ctx.atom('x', kind, j))
    return n, x, VecT(n, x)
def amplitude(e, kind):
    from ..torchmod import dim_int
    ctx = e.ctx; N = e.N(); n, x, v = amp_in(e, kind); D = dim_int(ctx, Dim.pow2(N)); ctx.assume(n <= z(D))
    e.note = lambda rec: dict(enc='amplitude', N=rec(N), n=rec(n), kind=kind)
    o = e.call(e.get(EMB+'qembedding.AmplitudeEncoding'), N, v); b = snap(e, o)
    r = e.meth(o, 'encoded_state')
    nrm = sqrtval(ctx, total(ctx, n, lambda j: x(j)*x(j).conj()))
    if not isinstance(r, VecT): e.check('a state vector', None, f'{type(r).__name__}'); return
    e.check('length 2^N', ctx.valid(z(r.n) == z(D)))
    j = ctx.var('k')
    e.check('the input divided by its 2-norm', ctx.forall(lambda: peq_(e, r.at(j), x(j)/nrm), [j >= 0, j < n]))
    e.check('padded with zeros', ctx.forall(lambda: peq_(e, r.at(j), P()), [j >= n, j < z(r.n)]))
    e.check('input unchanged', not v.tok.written); unchanged_obj(e, 'the encoding is left unchanged', b, o)
def amplitude_parts(e):
    N = e.N(); n, x, v = amp_in(e, 'real'); from ..torchmod import dim_int
    e.ctx.assume(n <= z(dim_int(e.ctx, Dim.pow2(N))))
    e.note = lambda rec: dict(enc='amplitude', N=rec(N), n=rec(n), kind='real')
    o = e.call(e.get(EMB+'qembedding.AmplitudeEncoding'), N, v)
    basis0(e, e.I.getattr(o, 'state0'), N)
    rho = e.I.getattr(o, 'rho0')
    if isinstance(rho, FunT):
        from ..torchmod import dim_int
        D = dim_int(e.ctx, Dim.pow2(N)); i, j = e.ctx.var('k'), e.ctx.var('k')
        e.check('rho0 is a 2^N x 2^N matrix', len(rho.sh) == 2 and e.ctx.valid(z3.And(z(rho.sh[0]) == z(D), z(rho.sh[1]) == z(D))))
        e.check('rho0 is |0..0><0..0|', e.ctx.forall(lambda: peq_(e, rho.at(i, j), P.const(1 if e.ctx.decide(z3.And(i == 0, j == 0)) else 0)), [i >= 0, i < z(D), j >= 0, j < z(D)]))
        return
    rho = TT.as_nc(rho)
    d = Dim.pow2(N); e.eq('rho0 is |0..0><0..0|', rho, N_.nc_op(N_.Op('E', (0, 0), d, d, real=True, herm=True)))
def amplitude_long(e):
    N = e.N(); n, x, v = amp_in(e, 'real'); from ..torchmod import dim_int
    e.ctx.assume(n > z(dim_int(e.ctx, Dim.pow2(N))))
    e.note = lambda rec: dict(enc='amplitude', N=rec(N), n=rec(n), kind='real', bad='long')
    refused(e, lambda: e.meth(e.call(e.get(EMB+'qembedding.AmplitudeEncoding'), N, v), 'encoded_state'))
def gram(e, kind):
    """v v^dagger with v = q / (|q| + delta), q_i = sqrt(x_i^2), 0 <= delta <= 1e-12: Hermitian, positive semidefinite, of
    trace (|q|/(|q|+delta))^2. When |x x^T| = 1 exactly: x conj(x)^T, whose trace is |x|^2 = |x x^T|_F = 1"""
    ctx = e.ctx; n = size(e); x = lambda j: P.atom(ctx.atom('x', kind, j)); a = FunT([1, n], lambda i, j: x(j))
    e.note = lambda rec: dict(enc='gram', n=rec(n), kind=kind)
    r = e.call(e.get(EMB+'qembedding.gram_encoding'), a)
    if not isinstance(r, FunT): e.check('a matrix', None, f'{r}'); return
    e.check('n x n', len(r.sh) == 2 and ctx.valid(z3.And(z(r.sh[0]) == n, z(r.sh[1]) == n)))
    i, j = ctx.var('k'), ctx.var('k'); rng = [i >= 0, i < n, j >= 0, j < n]
    q = lambda k: sqrtval(ctx, x(k)*x(k)); nq = sqrtval(ctx, total(ctx, n, lambda k: q(k)*q(k).conj()))
    nx = sqrtval(ctx, total(ctx, n, lambda k: total(ctx, n, lambda l: (x(k)*x(l))*(x(k)*x(l)).conj())))
    one = lambda: ctx.valid(e.I.pcmp('Eq', nx, P.const(1))) is True
    oks = [ctx.forall(lambda: peq_(e, r.at(i, j), q(i)*q(j).conj()*(nq+P.const(d)).inv()**2), rng) for d in (0, 1e-12)]
    if True not in oks:
        f = ctx.forall(lambda: peq_(e, r.at(i, j), x(i)*x(j).conj()), rng)
        oks = [f and one() if f is True else f if one() else False] + ([] if one() else oks)
    e.check('v v^dagger for the normalised input', True if True in oks else None if None in oks else False, f'entry {r.at(i, j)}')
    e.check('input unchanged', not a.tok.written)
def prepare(e, what):
    ctx = e.ctx; n = z3.Int('n'); ctx.assume(n >= 1); x = lambda j: P.atom(ctx.atom('x', 'cplx', j)); l = SL(n, x)
    e.note = lambda rec: dict(enc=what, n=rec(n))
    r = e.call(e.get(EMB+'qstate.'+what), l); i, j = ctx.var('k'), ctx.var('k')
    if what == 'PrepareState':
        if not isinstance(r, VecT): e.check('a vector', None, f'{type(r).__name__}'); return
        e.check('length', ctx.valid(z(r.n) == n))
        e.check('the listed amplitudes', ctx.forall(lambda: peq_(e, r.at(i), x(i)), [i >= 0, i < n]))
    else:
        if not isinstance(r, FunT): e.check('a matrix', None, f'{type(r).__name__}'); return
        e.check('n x n', len(r.sh) == 2 and ctx.valid(z3.And(z(r.sh[0]) == n, z(r.sh[1]) == n)))
        e.check('|psi><psi|', ctx.forall(lambda: peq_(e, r.at(i, j), x(i)*x(j).conj()), [i >= 0, i < n, j >= 0, j < n]))
    e.check('input unchanged', not l.stores)
def obligations(tier):
    obs = []
    for a in 'XYZ':
        for f in ('tensor', 'list'):
            obs.append(Ob(f'PauliEncoding {a} [{f} inputs]: operator', pauli, a, f, 'dense'))
        for w in ('contract', 'batched contract', 'mps'): obs.append(Ob(f'PauliEncoding {a}: {w}', pauli, a, 'tensor', w))
    obs += [Ob('PauliEncoding: default axis', pauli_default)] + [Ob(f'PauliEncoding: too many inputs are refused [{f}]', pauli_long, f) for f in ('tensor', 'list')]
    obs += [Ob(f'PauliEncoding: axis {a!r} is refused', pauli_axis, a) for a in ('W', 'x', 'XY', '', None)]
    obs += [Ob(f'AmplitudeEncoding: {k} inputs', amplitude, k) for k in ('real', 'cplx')] + [Ob('AmplitudeEncoding: initial state', amplitude_parts), Ob('AmplitudeEncoding: too many inputs are refused', amplitude_long)]
    obs += [Ob(f'gram_encoding: {k} input', gram, k) for k in ('real', 'cplx')]
    obs += [Ob(w, prepare, w) for w in ('PrepareState', 'PrepareRho')]
    return obs
ASSUMPTIONS = ['the amplitude vector is not zero; Hermiticity, positivity and unit trace of the Gram state follow from its proved form v v^dagger, |v| = 1 (up to 1e-12)', 'PauliEncoding: wires distinct and in range']
