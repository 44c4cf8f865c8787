"""C22: inner products and local expectations of matrix product states."""
from .c10 import *
class Sites2(Sites):
    def __init__(s, N, nm): Sites.__init__(s, N); s.nm = nm
    def bond(s, I, k):
        d = Sites.bond(s, I, k); return d if d.const() == 1 else Dim(d.k, d.e, tuple(s.nm+x for x in d.b))
    def site(s, I, i):
        L, R = s.bond(I, simp(i)), s.bond(I, simp(i+1)); ix = z3.simplify(z(i)).sexpr()
        return [N_.nc_op(Op('A.'+s.nm, (ix, q), L, R)) for q in range(2)]
class Overlap(Inv):
    """t = sum over bit strings x of length k of (bra sites)(x)^dagger (ket sites)(x).
    Extending both by site k: t' = sum_s B_s^dagger t K_s."""
    peel = 1
    def __init__(s, ket, bra): s.ket, s.bra = ket, bra
    def step(s, e, k, t):
        ctx = e.ctx; K, Bq = s.ket.site(e.I, k), s.bra.site(e.I, k); out = None
        for q in range(2):
            x = N_.mul(ctx, N_.dagger(Bq[q]), K[q] if t is None else N_.mul(ctx, t, K[q]))
            out = x if out is None else N_.add(ctx, out, x)
        return out
    def base(s, e, env):
        s.t = one(env, lambda v: isinstance(v, T) and v.ndim() == 2, 'the running overlap')
        s.cmp(e, 'overlap of the first sites', env.v[s.t], s.step(e, 0, None))
    def cmp(s, e, name, t, want):
        sh = t.shape(); e.check(name+': shape', len(sh) == 2 and same_dim(e.ctx, sh[0], want.r) and same_dim(e.ctx, sh[1], want.c), f'{sh}')
        e.eq(name, t, want)
    def t_op(s, e, k): return N_.nc_op(Op('t', (), s.bra.bond(e.I, k), s.ket.bond(e.I, k)))
    def havoc(s, e, env, k):
        o = s.t_op(e, k); env.v[s.t] = T(TT.oscal(o), [[B(o.r, 'R')], [B(o.c, 'C')]])
    def post(s, e, env, k): s.cmp(e, 'overlap extended by site k', env.v[s.t], s.step(e, k, s.t_op(e, k)))
    def exit(s, e, env):
        if e.ctx.decide(s.ket.N == 1): s.last = TT.as_nc(env.v[s.t]); return
        s.last = N_.nc_op(Op('overlap', (), Dim(1), Dim(1))); env.v[s.t] = T(TT.oscal(s.last), [[], []])
def inner(e):
    N = e.N(); ket, bra = Sites2(N, 'ket'), Sites2(N, 'bra'); inv = Overlap(ket, bra); q = QT+'MPS_inner_product'; annotate(e, q, inv)
    r = e.call(e.get(q), ket, bra)
    e.check('a scalar', isinstance(r, T) and r.ndim() == 0, f'{r}')
    if not hasattr(inv, 'last') and e.ctx.valid(N == 1) is not True: e.check('the loop over the sites is found', None); return
    e.eq('the inner product', r.arr.reshape(-1)[0], inv.last if hasattr(inv, 'last') else inv.step(e, 0, None))
    e.check('states unchanged', not ket.tok.written and not bra.tok.written)
def real_part(e, x): return N_.scale(e.ctx, P.const(Fr(1, 2)), N_.add(e.ctx, x, N_.dagger(x)))
def expec(e, n=None):
    """local observables on distinct wires"""
    N = e.N(); ctx = e.ctx; m = mps(e, N); c0 = m.content
    wl = e.wirelist(N, 0) if n is None else e.wires(n, N)
    ent = lambda k, i, j: P.atom(ctx.atom(f'o{i}{j}', 'cplx', k))
    def ob(k):
        a = oarr((2, 2))
        for i in range(2):
            for j in range(2): a[i, j] = ent(k, i, j)
        return T(a)
    obs = SL(wl.n, ob) if n is None else [ob(k) for k in range(n)]
    r = e.call(e.get(QT+'MPS_expec'), m, wl, obs)
    mat = lambda k: {(i, j): ent(k, i, j) for i in range(2) for j in range(2)}
    if n is None: w = (N_.Prod(N, wl.n, lambda k: (Loc(N, (wl.fn(z(k)),), mat(z(k))),)),)
    else: w = tuple(Loc(N, (wl[k],), mat(k)) for k in range(n))[::-1]
    D = Dim.pow2(N); want = N_.mul(ctx, N_.dagger(c0), N_.mul(ctx, NC([(P.const(1), w)], D, D), c0))
    e.check('a scalar', isinstance(r, T) and r.ndim() == 0, f'{r}')
    e.eq('expectation', r.arr.reshape(-1)[0], real_part(e, want))
    m.commit(e.I); e.check('state unchanged', m.content is c0 or N_.nc_eq(ctx, m.content, c0))
def obligations(tier):
    return [Ob('MPS_inner_product: inner product of the represented vectors (loop invariant)', inner), Ob('MPS_expec: any number of local observables', expec)] + \
           [Ob(f'MPS_expec: {n} local observable(s)', expec, n) for n in (1, 2)]
ASSUMPTIONS = ['invariant lemma: if t = sum_x B(x)^dagger K(x) then sum_s B_s^dagger t K_s = sum_{x,s} (B(x)B_s)^dagger (K(x)K_s)', 'wires of local observables are distinct']
