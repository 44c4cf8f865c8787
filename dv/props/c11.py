"""C11: density matrix -> matrix product form -> density matrix is the identity."""
from .c13 import *
from ..idx import IdxT, Leg, named, leg, legs, BitsT, LEGS
from ..smt import peq
nc_of = TT.as_nc
def rho_in(e, N, rows=None, cols=None):
    r, c = leg('row', Dim.pow2(N if rows is None else rows)), leg('col', Dim.pow2(N if cols is None else cols))
    return IdxT(named('rho', (), ['row'], ['col']), [legs(r), legs(c)])
class ToMPDO(Inv):
    """before iteration k: the sites collected so far times c (chi_k x 4^(N-k)) give rho, with the columns of c indexed by
    (remaining row qubits, remaining column qubits), each in order.
    Step lemma: it suffices that site_k[r, c'] . c_new = the rows of c selected by row qubit r and column qubit c'."""
    def __init__(s, N, rho): s.N, s.rho = N, rho
    def init(s, e, env):
        s.ct = carried(s, env, lambda v: isinstance(v, IdxT) and v is not s.rho, 'the remaining tensor')
        s.rl = one(env, lambda v: isinstance(v, list) and v == [], 'the list of sites')
        v = env.v[s.ct]; e.check('all of rho: row qubits, then column qubits', [[l.id for l in a] for a in v.axes] == [[], ['row', 'col']], f'{v.axes}')
        e.check('as many iterations as qubits', e.ctx.valid(z(s.n) == s.N), f'{s.n}')
    def havoc(s, e, env, k):
        s.m = m = simp(s.N-k); s.last = e.ctx.decide(k == s.N-1)
        s.D = Dim(1) if e.ctx.decide(k == 0) else bond('chi')
        rest = 1 if s.last else Dim.pow2(simp(m-1)); chi_ = leg('chi', s.D if s.D.const() is None else 1)
        ls = [leg('r', 2), leg('R', rest), leg('c', 2), leg('C', rest)]
        s.con = ('r', 'c'); rw, cl = [l.id for l in legs(chi_)], [l.id for l in legs(ls[1], ls[3])]
        env.v[s.ct] = IdxT(named('rest', ('r', 'c'), rw, cl), [legs(chi_), legs(*ls)]); env.v[s.rl] = AccSL(k)
        s.C = Dim(1) if s.last else Dim.pow2(simp(2*(m-1)))
    def post(s, e, env, k):
        ctx = e.ctx; l = env.v[s.rl]
        if not isinstance(l, AccSL) or len(l.appended) != 1 or l.stores: e.check('one site per iteration', False if isinstance(l, AccSL) else None); return
        A = l.appended[0]; r = env.v[s.ct]; sh = A.shape() if isinstance(A, T) else ()
        e.check('site: row qubit, column qubit, bond, bond', len(sh) == 4 and sh[:2] == [2, 2] and same_dim(ctx, sh[2], s.D), f'{sh}')
        v = site4(A)
        if v is None or not isinstance(r, T): e.check('site layout', None, f'{getattr(A, "axes", A)}'); return
        c = nc_of(r)
        if c is None: e.check('remaining tensor', None); return
        for q in range(2):
            for p in range(2):
                e.check('the remaining tensor continues the chain', dim_eq(ctx, v[q][p].c, c.r)); e.check('the remaining tensor has one row and one column qubit less', dim_eq(ctx, c.c, s.C), f'{c.c}')
                e.eq(f'site times remainder is the selected block (row qubit {q}, column qubit {p})', expand_svd(ctx, N_.mul(ctx, v[q][p], c)), N_.nc_op(Op('rest', (q, p), s.D, s.C)))
        cut = ctx.__dict__.get('cuts'); e.check('only numerically zero components are discarded', not cut, f'{cut}')
    def exit(s, e, env): env.v[s.ct] = None; env.v[s.rl] = Chain(s.N, s.rho)
def site4(A):
    """the four matrices of a site tensor [2, 2, L, R], oriented left to right"""
    if A.is_small() or len(A.axes) != 4 or A.arr.size != 4 or A.axes[0] != [2] or A.axes[1] != [2]: return None
    tg = [[f.tag if isinstance(f, B) else f for f in a] for a in A.axes]; v = A.arr.reshape(2, 2)
    if tg[2] in (['R'], []) and tg[3] in (['C'], []): return [[v[q, p] for p in range(2)] for q in range(2)]
    if tg[2] in (['C'], []) and tg[3] in (['R'], []): return [[N_.transpose(v[q, p]) for p in range(2)] for q in range(2)]
    return None
def to_mps(e):
    N = e.N(); rho = rho_in(e, N); inv = ToMPDO(N, rho); annotate(e, QT+'Rho2MPS', inv)
    r = e.call(e.get(QT+'Rho2MPS'), rho, N)
    e.check('returns the chain built by the loop', isinstance(r, Chain) or None); e.check('input unchanged', not rho.tok.written)
class Sites4(Sites):
    """an arbitrary chain of N sites with a row and a column qubit each"""
    def site(s, I, i):
        L, R = s.bond(I, simp(i)), s.bond(I, simp(i+1)); ix = z3.simplify(z(i)).sexpr()
        return [[N_.nc_op(Op('A', (ix, q, p), L, R)) for p in range(2)] for q in range(2)]
    def getitem(s, I, i):
        if isinstance(i, slice): return tail(s, i)
        if not is_int(i): raise Unsupported('index of the chain')
        i = TT.neg_idx(I.ctx, i, s.N); v = s.site(I, i); a = oarr((2, 2))
        for q in range(2):
            for p in range(2): a[q, p] = v[q][p]
        L, R = v[0][0].r, v[0][0].c
        return T(a, [[2], [2], [] if L.const() == 1 else [B(L, 'R')], [] if R.const() == 1 else [B(R, 'C')]], s.tok)
def nonzero(p):
    for a in p.atoms(): a.inv = True
class FromMPDO(Inv):
    """before iteration k >= 1: c[x, y, 0, :] = A_0[x_0, y_0]...A_{k-1}[x_{k-1}, y_{k-1}] for all bit strings x, y of length k"""
    peel = 1
    def __init__(s, m): s.m = m
    def init(s, e, env): s.off = offset(s, e); s.peel = 1-s.off
    def base(s, e, env):
        s.ct = carried(s, env, lambda v: isinstance(v, T) and v.ndim() == 4, 'the running product')
        v = env.v[s.ct]; A = s.m.site(e.I, 0); w = site4(v)
        if w is None: e.check('the first site', None, f'{v.axes}'); return
        for q in range(2):
            for p in range(2): e.eq(f'the first site ({q}, {p})', w[q][p], A[q][p])
    def havoc(s, e, env, k):
        k = simp(k+s.off); R = s.m.bond(e.I, k); x, y, b = leg('x', Dim.pow2(k)), leg('y', Dim.pow2(k)), leg('b', R)
        env.v[s.ct] = IdxT(named('C', (), ['x', 'y'], ['b']), [[x], [y], [], [b]])
    def post(s, e, env, k):
        k = simp(k+s.off); ctx = e.ctx; t = env.v[s.ct]
        if not isinstance(t, IdxT): e.check('one more site', None, f'{type(t).__name__}'); return
        ax = [[l.id for l in a] for a in t.axes]; A = s.m.site(e.I, k); R = s.m.bond(e.I, simp(k+1)); nb = [] if R.const() == 1 else ['bond']
        e.check('four axes', len(ax) == 4, f'{ax}')
        if len(ax) != 4 or ax[2] or ax[3] != nb: e.check('layout', None, f'{ax}'); return
        for nm, a, o in (('row', ax[0], 'x'), ('column', ax[1], 'y')):
            e.check(f'the new {nm} qubit is the last one', True if len(a) == 2 and a[0] == o and a[1].startswith('q') else False if sorted(a)[-1:] == [o] else None, f'{ax}')
        L = Dim.pow2(simp(2*k)); c = N_.nc_op(Op('C', (), L, s.m.bond(e.I, k)))
        for q in range(2):
            for p in range(2):
                got = t.src.block({ax[0][1]: q, ax[1][1]: p}, ('x', 'y'), tuple(nb), L, R)
                e.eq(f'product extended by site k ({q}, {p})', got, N_.mul(ctx, c, A[q][p]))
    def exit(s, e, env):
        ctx = e.ctx; N = s.m.N; t = e.params(1, 'trace')[0]; nonzero(t); s.t = t
        if ctx.decide(N == 1): return
        L = Dim.pow2(N); ctx.__dict__.setdefault('traces', {})['X'] = t
        env.v[s.ct] = T(TT.oscal(N_.nc_op(Op('X', (), L, L))), [[B(L, 'R')], [B(L, 'C')], [], []])
def from_mps(e):
    N = e.N(); m = Sites4(N); inv = FromMPDO(m); annotate(e, QT+'MPS2Rho', inv); e.ctx.assume(N >= 2)
    r = e.call(e.get(QT+'MPS2Rho'), m)
    e.check('sites unchanged', not m.tok.written)
    X = N_.nc_op(Op('X', (), Dim.pow2(N), Dim.pow2(N))); e.eq('the product of the sites, normalised to unit trace', nc_of(r), N_.scale(e.ctx, P.const(1)/inv.t, X))
def from_one(e):
    """one site"""
    ctx = e.ctx; a = oarr((2, 2)); N = 1
    for q in range(2):
        for p in range(2): a[q, p] = P.atom(ctx.atom(f'a{q}{p}', 'cplx'))
    tr = (a[0, 0]+a[1, 1]).real()
    r = e.call(e.get(QT+'MPS2Rho'), [T(a.reshape(2, 2, 1, 1))])
    e.check('two by two', isinstance(r, T) and r.shape() == [2, 2], f'{r}')
    for q in range(2):
        for p in range(2): e.check(f'entry {q}{p}', peq(ctx, r.arr[q, p], a[q, p]/tr))
def rankform(e):
    N = e.N(); rho = rho_in(e, N); r = e.call(e.get(QT+'MatrixProductDensityOperator'), rho, N)
    if not isinstance(r, BitsT): e.check('rank 2N', None, f'{type(r).__name__}'); return
    e.check('2N axes', e.ctx.valid(z(r.n) == 2*N)); e.check('row qubits in order, then column qubits in order', [l.id for a in r.t.axes for l in a] == ['row', 'col'] and not r.t.fix, f'{r.t.axes}')
    e.check('input unchanged', not rho.tok.written)
def refuse(e, f, shape):
    N = e.N(); M = z3.Int('M'); e.ctx.assume(z3.And(M >= 1, M != N)); q = QT+f
    sh = {'other rows': lambda: rho_in(e, N, rows=M), 'other columns': lambda: rho_in(e, N, cols=M), 'another square size': lambda: rho_in(e, N, M, M),
          'a vector': lambda: IdxT(named('rho', (), ['row'], []), [[leg('row', Dim.pow2(N))]]),
          'a tensor of rank three': lambda: IdxT(named('rho', (), ['row'], ['col']), [[leg('row', Dim.pow2(N))], [leg('col', Dim.pow2(N))], []])}[shape]()
    try: e.call(e.get(q), sh, N)
    except Exc: e.check('refused', True); return
    e.check(f'{shape} is refused', False)
def roundtrip(e):
    """product of the sites = rho / r with r the real, nonzero 1x1 remainder of the last decomposition; normalising gives rho"""
    N = e.N(); ctx = e.ctx; r = e.params(1, 'r')[0]; nonzero(r); rho = dmat(e, N)
    X = N_.scale(ctx, P.const(1)/r, rho); t = N_.trace(ctx, X)
    t = t if isinstance(t, P) else t.t[0][0]
    e.eq('unit-trace normalisation undoes the remainder', N_.scale(ctx, P.const(1)/t, X), rho)
def obligations(tier):
    obs = [Ob('Rho2MPS: chain of N sites representing rho up to the last 1x1 factor (loop invariant)', to_mps), Ob('MPS2Rho: the product of any chain of at least two sites, normalised (loop invariant)', from_mps),
           Ob('MPS2Rho: one site', from_one), Ob('round trip: the last factor cancels', roundtrip), Ob('MatrixProductDensityOperator: row qubits first', rankform)]
    for f in ('Rho2MPS', 'MatrixProductDensityOperator'):
        for s in ('other rows', 'other columns', 'another square size', 'a vector', 'a tensor of rank three'): obs.append(Ob(f'{f}: {s} refused', refuse, f, s))
    return obs
ASSUMPTIONS = ['the singular value decomposition of a single column returns a real right factor (LAPACK), so the discarded last factor is real', 'invariant step lemma (multilinearity of the chain product)', 'density matrices have unit trace and are not zero']
