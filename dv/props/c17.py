"""C17: matrix predicates and helpers."""
from .common import *
from ..fun import FunT, total, absval
from ..torchmod import VecT
from ..tensor import small, oarr
QM = 'deepquantum.gates.qmath.'
EPS = z3.RealVal('0.000001')
def eps(): return z3.RealVal(str(Fr(1e-6)))
def mat(e, n, m=None, name='a'):
    ctx = e.ctx
    return FunT([n, n if m is None else m], lambda i, j: P.atom(ctx.atom(name, 'cplx', i, j)))
def size(e, lo=1, name='n'):
    n = z3.Int(name); e.ctx.assume(n >= lo); e.Nv = n; return n
def ent(e, i, j, name='a'): return P.atom(e.ctx.atom(name, 'cplx', i, j))
def big(e, p):
    """|p| > tolerance, as a formula over the indices in p"""
    a = absval(e.ctx, p); return e.I.pcmp('Gt', a, P.const(1e-6))
def decision(e, r, parts):
    """r is True exactly when no part (vars, range, formula 'too big') holds anywhere"""
    good = z3.And(*[z3.ForAll(vs, z3.Implies(rng, z3.Not(f))) for vs, rng, f in parts])
    if not (isinstance(r, bool) or z3.is_bool(r)): e.check('a truth value', None if isinstance(r, T) else False, f'{r}'); return
    e.check('accepts exactly when every entry is within tolerance', e.ctx.valid_hard(good if r is True else z3.Not(good) if r is False else r == good), f'returned {r}')
def qv(e, *ns): return [e.ctx.var(n) for n in ns]
def at(e, n, idx, f):
    """a formula built at generic indices"""
    i = qv(e, *['k']*idx)
    return i, f(*i)
def unitary(e, fn=None):
    n = size(e); a = mat(e, n); ctx = e.ctx
    e.note = lambda rec: dict(pred='IsUnitary', n=rec(n))
    i, k, l = qv(e, 'k', 'k', 'k')
    norm = big(e, total(ctx, n, lambda j: ent(e, i, j)*ent(e, i, j).conj()) - P.const(1))
    orth = big(e, total(ctx, n, lambda j: ent(e, k, j)*ent(e, l, j).conj()))
    r = e.call(fn(e) if fn else e.get(QM+'IsUnitary'), a)
    decision(e, r, [([i], z3.And(i >= 0, i < n), norm), ([k, l], z3.And(k >= 0, k < l, l < n), orth)])
    e.check('input unchanged', not a.tok.written)
def hermitian(e, fn=None):
    n = size(e); a = mat(e, n); k, l = qv(e, 'k', 'k')
    e.note = lambda rec: dict(pred='IsHermitian', n=rec(n))
    f = big(e, ent(e, k, l)-ent(e, l, k).conj())
    r = e.call(fn(e) if fn else e.get(QM+'IsHermitian'), a)
    decision(e, r, [([k, l], z3.And(k >= 0, k <= l, l < n), f)])
    e.check('input unchanged', not a.tok.written)
def normalised(e):
    n = size(e); x = lambda j: P.atom(e.ctx.atom('v', 'cplx', j)); v = VecT(n, x)
    e.note = lambda rec: dict(pred='IsNormalized', n=rec(n))
    f = big(e, total(e.ctx, n, lambda j: x(j)*x(j).conj()) - P.const(1))
    r = e.call(e.get(QM+'IsNormalized'), v)
    decision(e, r, [([z3.Int('unused')], z3.BoolVal(True), f)]); e.check('input unchanged', not v.tok.written)
def refuses(e, f, shape):
    n = size(e); m = size(e, name='m'); k = size(e, name='l')
    e.note = lambda rec: dict(pred=f, shape=[rec(x) for x in (n, m, k)[:len(shape)]])
    if shape == 'nm': e.ctx.assume(n != m)
    d = [n, m, k][:len(shape)]
    x = FunT(d, lambda *ix: P.atom(e.ctx.atom('a', 'cplx', *ix))) if len(d) != 1 else VecT(n, lambda j: P.atom(e.ctx.atom('a', 'cplx', j)))
    try: r = e.call(e.get(QM+f), x)
    except Exc as ex: e.check('refused', True); return
    e.check('malformed shape refused', False, f'returned {r}')
def dagger(e):
    n, m = size(e), size(e, name='m'); a = mat(e, n, m)
    e.note = lambda rec: dict(pred='dag', n=rec(n), m=rec(m))
    r = e.call(e.get(QM+'dag'), a)
    if not isinstance(r, FunT): e.check('a matrix', None, f'{r}'); return
    e.check('shape', len(r.sh) == 2 and e.ctx.valid(z3.And(r.sh[0] == m, r.sh[1] == n)))
    i, j = qv(e, 'k', 'k')
    e.check('entry (i,j) is the conjugate of entry (j,i)', e.ctx.forall(lambda: peq_(e, r.at(i, j), ent(e, j, i).conj()), [i >= 0, i < m, j >= 0, j < n]))
    e.check('input unchanged', not a.tok.written)
def peq_(e, x, y):
    from ..smt import peq
    return peq(e.ctx, x, y)
def kron(e, n=None):
    """left-to-right Kronecker product of a list"""
    c = e.get(QM+'multi_kron'); ctx = e.ctx; e.I.skip.add(QM+'multi_kron')
    ms = [small([[P.atom(ctx.atom(f'm{k}', 'cplx', i, j)) for j in range(2+k % 2)] for i in range(1+k)]) for k in range(n)]
    e.note = lambda rec: dict(pred='multi_kron', n=n)
    r = e.call(c, list(ms)); want = ms[0]
    for x in ms[1:]: want = TT.kron(ctx, want, x)
    e.check('shape', r.shape() == want.shape(), f'{r.shape()}')
    e.check('every entry', all(x == y for x, y in zip(r.arr.reshape(-1), want.arr.reshape(-1))))
    e.check('inputs unchanged', all(not x.tok.written for x in ms) and all(x.shape() == [1+k, 2+k % 2] for k, x in enumerate(ms)))
def kron_any(e):
    ctx = e.ctx; q = QM+'multi_kron'; e.I.skip.add(q); n = size(e, 2)
    def at(k):
        a = oarr((2, 2))
        for i in range(2):
            for j in range(2): a[i, j] = P.atom(ctx.atom(f'm{i}{j}', 'cplx', k))
        return T(a)
    e.note = lambda rec: dict(pred='multi_kron', n=rec(n))
    l = SL(n, at); r = e.call(e.get(q), l)
    want = N_.nc_op(N_.Kron(n, SL(n, at))) if False else NC([(P.const(1), (N_.Kron(n, SL(n, at)),))], Dim.pow2(n), Dim.pow2(n))
    e.eq('Kronecker product of a list of any length', r, want)
    e.check('list unchanged', not l.stores and ctx.valid(z(l.n) == n))
def obligations(tier):
    return [Ob('IsUnitary accepts exactly the matrices with orthonormal rows, for every size', unitary), Ob('IsHermitian accepts exactly a = a^dagger, for every size', hermitian),
            Ob('Operation.IsUnitary accepts the same matrices', unitary, lambda e: e.I.getattr(e.get('deepquantum.gates.qoperator.Operation'), 'IsUnitary')),
            Ob('Observable.IsHermitian accepts the same matrices', hermitian, lambda e: e.I.getattr(e.get('deepquantum.gates.qoperator.Observable'), 'IsHermitian')),
            Ob('IsNormalized accepts exactly unit 2-norm, for every length', normalised), Ob('dag is the conjugate transpose, for every shape', dagger),
            Ob('multi_kron: list of any length', kron_any)] + [Ob(f'multi_kron: {n} matrices of unequal shapes', kron, n) for n in (1, 2, 3)] + \
           [Ob(f'{f} refuses a shape with {len(s)} unequal dimension(s)', refuses, f, s) for f, s in (('IsUnitary', 'nm'), ('IsHermitian', 'nm'), ('IsNormalized', 'nm'), ('IsNormalized', 'nmk'), ('dag', 'n'), ('dag', 'nmk'))]
ASSUMPTIONS = ['floating point arithmetic in the predicates is exact (a matrix whose defect is within rounding of 1e-6 may go either way)']
