"""Contracts (assumed) of the external functions the repository calls: torch, numpy, math, copy and Python builtins.
They are the trusted base listed in the evidence."""
import numpy as np, z3, math
from fractions import Fraction as Fr
from .scalar import P, Unsupported, PI
from . import scalar as S
from . import tensor as TT
from .tensor import T, StateT, small, scal, B, oarr, dense
from . import perm as PERM
from . import nc as N_
from .nc import NC, Op
from .vals import *
from .vals import z
EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d
def arg(args, kw, i, name, dflt=None):
    if i < len(args): return args[i]
    return kw.get(name, dflt)
def detach(v, I=None):
    if isinstance(v, T): return T(TT.mapent(v, det_entry), v.axes, v.tok)
    if isinstance(v, StateT): return v.with_(content=det_entry(v.content))
    if isinstance(v, VecT): return (lambda b: VecT(v.n, lambda j: det_entry(b(j)), v.tok))(v.snap())
    if isinstance(v, (list, tuple)): return type(v)(detach(x) if isinstance(x, (T, StateT, VecT)) else x for x in v) if any(isinstance(x, (T, StateT, VecT)) for x in v) and isinstance(v, tuple) else v
    return v
def det_entry(x): return x.detached() if isinstance(x, P) else NC([(c.detached(), tuple(detf(f) for f in w)) for c, w in x.t], x.r, x.c)
def detf(f):
    from .nc import Loc, Prod
    if isinstance(f, Loc): return Loc(f.N, f.wires, {k: v.detached() for k, v in f.m.items()})
    if isinstance(f, Prod): return Prod(f.N, f.n, lambda k: tuple(detf(g) for g in f.body(k)))
    if isinstance(f, Op):
        o = f.flip(False, False); o.det = True; return o
    if isinstance(f, N_.Tr): return N_.Tr(tuple(detf(g) for g in f.w))
    if isinstance(f, N_.Kron):
        c = f.sl.copy(); raise Unsupported('detaching a Kronecker product')
    return f
def tensor_of(I, v, det=True):
    """torch.tensor(data)"""
    if isinstance(v, T): r = T(v.arr.copy(), v.axes)
    elif isinstance(v, VecT): r = VecT(v.n, v.snap())
    elif isinstance(v, (list, tuple)):
        r = TT.stack(I.ctx, [tensor_of(I, x, False) for x in v]) if v else T(oarr((0,)))
    elif isinstance(v, SL):
        if isinstance(v.n, int): return tensor_of(I, [v.get(I.ctx, i) for i in range(v.n)], det)
        r = VecT(v.n, (lambda c: lambda j: _sc(I, c.get(I.ctx, j)))(v.copy())); r.grid = grid_of(v)
        if getattr(v, '_isint', None) or is_int(v.get(I.ctx, z3.Int('probe!q'))): r.ilist = v.copy(kind='list')
        return r
    elif isinstance(v, Opaque_()): return v
    elif z3.is_expr(v): r = scal(I.int2p(v))
    else: r = small(v)
    return detach(r) if det else r
def grid_of(l):
    """(n, m, f): the list is f(x, y) for x < n, y < m, in this nesting order"""
    g = getattr(l.base, 'grid', None)
    return g if g is not None and not l.stores and z3.simplify(z(l.n)-z(g[0])*z(g[1]), som=True).eq(z3.IntVal(0)) else None
def Opaque_():
    from .interp import Opaque
    return Opaque
def _sc(I, v):
    if isinstance(v, T): return v.arr.reshape(())[()]
    return P.const(I.int2p(v))
@ext('torch.tensor', 'torch.as_tensor', 'torch.Tensor', 'torch.from_numpy', 'numpy.array', 'torch.FloatTensor')
def _tensor(I, args, kw): return tensor_of(I, args[0])
def tmap(f):
    def h(I, args, kw):
        x = args[0]
        if isinstance(x, T):
            if not x.is_small(): raise Unsupported('elementwise function of a bulk tensor')
            return T(TT.mapent(x.chk(), f))
        if isinstance(x, VecT): return vec_map(f, x)
        if isinstance(x, Opaque_()): return x.method(I, 'map', [f], {})
        raise Exc('TypeError', 'expected a tensor')
    return h
EXT['torch.cos'] = tmap(S.cos); EXT['torch.sin'] = tmap(S.sin)
def _sqrt(p, ctx):
    from .fun import sqrtval
    return sqrtval(ctx, P.const(p))
EXT['torch.sqrt'] = lambda I, a, k: tmap(lambda x: _sqrt(x, I.ctx))(I, a, k)
def _exp(x):
    x = P.const(x)
    # exp(i*linear)
    y = x * P.const(-1j)
    if y.is_real(): return S.expi(y)
    raise Unsupported('exp of a non-imaginary argument')
EXT['torch.exp'] = tmap(_exp)
EXT['torch.conj'] = lambda I, a, k: TT.conj(a[0]) if isinstance(a[0], (T, StateT)) else method(I, a[0], 'conj', [], {})
def _re(x):
    if isinstance(x, P): return x.real()
    raise Unsupported('real part')
EXT['torch.real'] = lambda I, a, k: attr(I, a[0], 'real')
EXT['torch.imag'] = lambda I, a, k: attr(I, a[0], 'imag')
def _abs(p, ctx=None):
    p = P.const(p); c = p.cval()
    if c is not None and not any(c[1:]): return P.const(abs(c[0]))
    if len(p.d) == 1:
        # a single product: |c x^2 y z*| = |c| |x|^2 |y| |z|, even powers without the absolute value
        ((m, e), c0), = p.d.items(); k = {}
        for a, n in m: b = a.twin() if a.conjd else a; k[b] = k.get(b, 0)+n
        cc = P.const(P({((), ()): c0})); n2 = (cc*cc.conj()).cval()
        if sum(k.values()) > 1 and all(n > 0 for n in k.values()) and n2 is not None and not any(n2[1:]):
            from fractions import Fraction
            from math import isqrt
            f = Fraction(n2[0]); q = Fraction(isqrt(f.numerator), isqrt(f.denominator))
            if q*q == f:
                r = P.const(q)
                for a, n in k.items():
                    x = P.atom(a)
                    for _ in range(n//2): r = r*x*x.conj()
                    if n % 2: r = r*AbsP(x, ctx)
                return P(r.d, p.det)
    return AbsP(p, ctx)
ABS = {}      # name -> (atom, argument)
class AbsP(P):
    """|p|, opaque: only comparisons and squares are understood"""
    __slots__ = ('arg',)
    def __init__(s, p, ctx=None):
        s.arg = p
        if ctx is not None and any(z3.is_expr(t) for a in p.atoms() for t in a.index):
            from .fun import absval
            P.__init__(s, absval(ctx, p).d); return
        nm = f'|{p}|'
        if nm not in ABS: ABS[nm] = (S.Atom(nm, 'real'), p)
        P.__init__(s, P.atom(ABS[nm][0]).d)
    def __pow__(s, n):
        if n == 2: return s.arg*s.arg.conj()
        return P.__pow__(s, n)
_tabs = lambda I, a, k: tmap(lambda x: _abs(x, I.ctx))(I, a, k)
EXT['torch.abs'] = EXT['torch.absolute'] = lambda I, a, k: a[0].method(I, 'abs', [], {}) if isinstance(a[0], Opaque_()) else _tabs(I, a, k)
def builtin_abs(I, a, k):
    x = a[0]
    if isinstance(x, T) or isinstance(x, VecT): return EXT['torch.abs'](I, a, k)
    if isinstance(x, Opaque_()): return x.method(I, 'abs', [], {})
    if isinstance(x, P): return _abs(x, I.ctx)
    if z3.is_expr(x): return x if I.ctx.decide(x >= 0) else simp(-x)
    return abs(x)
EXT['abs'] = builtin_abs
for m in ('math', 'numpy', 'np', 'torch'): EXT[m+'.pi'] = P.atom(PI)
def fscalar(f):
    def h(I, a, k):
        x = a[0]
        if isinstance(x, T): return T(TT.mapent(x, f))
        return f(P.const(I.int2p(x)))
    return h
for m in ('math', 'numpy'):
    EXT[m+'.cos'] = fscalar(S.cos); EXT[m+'.sin'] = fscalar(S.sin); EXT[m+'.sqrt'] = fscalar(S.sqrt); EXT[m+'.exp'] = fscalar(_exp)
def _log2(I, a, k):
    x = a[0]
    if isinstance(x, Dim) and x.k == 1 and not x.b: 
        from .interp import FloatInt
        return FloatInt(x.e)
    if isinstance(x, int): return math.log2(x)
    raise Unsupported('log2')
EXT['math.log2'] = EXT['numpy.log2'] = _log2
def size_args(a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)): return list(a[0])
    return a
def eye_of(I, d): return EXT['torch.eye'](I, [d], {})
@ext('torch.eye')
def _eye(I, a, k):
    n = arg(a, k, 0, 'n'); m = arg(a, k, 1, 'm', n)
    if isinstance(n, T): n = TT._toint(n.arr[()])
    if isinstance(n, FracNum_()) or isinstance(m, FracNum_()): raise Exc('TypeError', 'eye() of a fraction')
    if isinstance(n, int) and isinstance(m, int):
        if n > 64: raise Unsupported('large concrete matrix')
        return small([[int(i == j) for j in range(m)] for i in range(n)])
    if is_int(n) and is_int(m) and not isinstance(n, Dim):
        from .fun import FunT
        def at(i, j):
            c = z(i) == z(j)
            return P.const(int(c if isinstance(c, bool) else I.ctx.decide(c)))
        return FunT([n, m], at)
    if isinstance(n, Dim) and m is n or isinstance(n, Dim) and dim_eq(I.ctx, n, m) is True:
        return dense(N_.nc_id(n))
    raise Unsupported('eye')
_unk = [0]
def unknown(I, d):
    """an array of arbitrary real entries"""
    _unk[0] += 1; nm = f'any#{_unk[0]}'; d = [d] if not isinstance(d, (list, tuple)) else list(d)
    at = lambda *ix: P.atom(I.ctx.atom(nm, 'real', *ix))
    if all(isinstance(x, int) for x in d):
        r = oarr(tuple(d))
        for i in np.ndindex(*d): r[i] = at(*i)
        return T(r)
    if not all(is_int(x) for x in d): raise Unsupported('array of arbitrary entries')
    if len(d) == 1: return VecT(d[0], at)
    from .fun import FunT
    return FunT(d, at)
@ext('torch.empty', 'torch.rand', 'torch.randn')
def _empty(I, a, k): return unknown(I, size_args(a))
@ext('torch.nn.init.uniform_', 'torch.nn.init.normal_', 'torch.nn.init.xavier_uniform_', 'torch.nn.init.kaiming_uniform_')
def _init(I, a, k):
    x = a[0]; u = unknown(I, list(x.shape()) if isinstance(x, T) else [x.n] if isinstance(x, VecT) else x.sh)
    if isinstance(x, T): x.arr = u.arr
    else: x.base = u.base
    x.tok.ver += 1; x.tok.written = True; x.ver = x.tok.ver
    return x
@ext('torch.nn.Parameter', 'torch.nn.parameter.Parameter')
def _param(I, a, k): return a[0]
def filled(v):
    def h(I, a, k):
        d = size_args(a)
        if len(d) == 0 and 'size' in k: d = list(k['size'])
        if all(isinstance(x, int) for x in d): 
            r = oarr(tuple(d)); 
            for i in np.ndindex(*d): r[i] = P.const(v)
            return T(r)
        if len(d) == 1 and isinstance(d[0], Dim): return VecT(dim_int(I.ctx, d[0]), lambda j: P.const(v))
        if len(d) == 1 and z3.is_expr(d[0]): return VecT(d[0], lambda j: P.const(v))
        if len(d) >= 2 and all(is_int(x) for x in d):
            from .fun import FunT
            return FunT(d, lambda *ix: P.const(v))
        if len(d) == 2 and v == 0 and any(isinstance(x, Dim) for x in d):
            return dense(N_.nc_zero(Dim.of(d[0]), Dim.of(d[1])))
        raise Unsupported('symbolic fill')
    return h
EXT['torch.zeros'] = filled(0); EXT['torch.ones'] = filled(1)
@ext('torch.zeros_like', 'torch.ones_like')
def _zl(I, a, k, *r): raise Unsupported('zeros_like')
def like(v):
    def h(I, a, k):
        x = a[0]
        if isinstance(x, VecT): return VecT(x.n, lambda j: P.const(v))
        if isinstance(x, T) and x.is_small(): return T(TT.mapent(x.chk(), lambda q: P.const(v)), x.axes)
        raise Unsupported('zeros_like')
    return h
EXT['torch.zeros_like'] = like(0); EXT['torch.ones_like'] = like(1)
@ext('torch.cat', 'torch.concat')
def _cat(I, a, k):
    ts = I.concrete(a[0]) if not (isinstance(a[0], SL) and not isinstance(a[0].n, int)) else None
    if ts is None: return cat_sl(I, a[0], arg(a, k, 1, 'dim', 0))
    if any(isinstance(t, (VecT,)) for t in ts): return veccat(I, ts)
    if any(isinstance(t, Opaque_()) for t in ts): return next(t for t in ts if isinstance(t, Opaque_())).method(I, 'cat', [ts, arg(a, k, 1, 'dim', 0)], {})
    return TT.cat(I.ctx, ts, arg(a, k, 1, 'dim', 0))
def cat_sl(I, l, d):
    q = I.ctx.var('k')
    for x in list(I.ctx.explore(lambda: l.get(I.ctx, q), [q >= 0, q < z(l.n)])):
        if isinstance(x, Opaque_()): return x.method(I, 'cat_sl', [l, d], {})
    raise Unsupported('cat of a symbolic list')
def veccat(I, ts):
    out = None
    for t in ts:
        v = VecT(t.n, t.snap()) if isinstance(t, VecT) else VecT(t.arr.shape[0], (lambda arr: lambda j: selp(I, arr, j))(t.arr))
        if out is None: out = v
        else:
            a, n = out, out.n
            out = VecT(simp(z(n)+z(v.n)), (lambda a, n, v: lambda j: a.at(j) if I.ctx.decide(z(j) < z(n)) else v.at(simp(z(j)-z(n))))(a, n, v))
    return out
def selp(I, arr, j):
    if isinstance(j, int): return arr[j]
    for k in range(len(arr)-1):
        if I.ctx.decide(j == k): return arr[k]
    return arr[-1]
@ext('torch.flip', 'torch.fliplr', 'torch.flipud')
def _flip(I, a, k):
    k = dict(k); d = k.pop('dims', None); x = [a[0] if a else k.pop('input')] + list(a[1:]) + ([d] if d is not None else [])
    if k: raise Unsupported('arguments of flip')
    return method(I, x[0], 'flip', x[1:], {})
EXT['torch.fliplr'] = lambda I, a, k: method(I, a[0], 'flip', [[1]], {})
EXT['torch.flipud'] = lambda I, a, k: method(I, a[0], 'flip', [[0]], {})
@ext('torch.stack')
def _stack(I, a, k):
    l = a[0]; d = arg(a, k, 1, 'dim', 0)
    if isinstance(l, SL) and not isinstance(l.n, int):
        c = l.copy()
        return VecT(l.n, lambda j: c.get(I.ctx, j).arr.reshape(())[()] if isinstance(c.get(I.ctx, j), T) else _bad('stack of a symbolic list'))
    ts = I.concrete(l)
    if any(isinstance(t, Opaque_()) for t in ts): return next(t for t in ts if isinstance(t, Opaque_())).method(I, 'stack', [ts, d], {})
    return TT.stack(I.ctx, ts, d)
def _bad(m): raise Unsupported(m)
@ext('torch.chunk')
def _chunk(I, a, k):
    if isinstance(a[0], Opaque_()): return a[0].method(I, 'chunk', list(a[1:]), k)
    return tuple(TT.chunk(I.ctx, a[0], arg(a, k, 1, 'chunks'), arg(a, k, 2, 'dim', 0)))
@ext('torch.kron')
def _kron(I, a, k):
    from .dense import FoldAcc, FoldRes
    if isinstance(a[0], FoldAcc):
        if isinstance(a[1], FoldAcc): raise Unsupported('kron')
        return FoldRes(a[1])
    if isinstance(a[0], Opaque_()) or isinstance(a[1], Opaque_()):
        from .dense import KronT
        from .interp import sl_concat
        return KronT(sl_concat(I, *[x.sl if isinstance(x, KronT) else SL(1, None, x) for x in a]))
    return TT.kron(I.ctx, a[0], a[1])
@ext('torch.matmul', 'torch.mm', 'torch.bmm')
def _mm(I, a, k):
    if isinstance(a[0], Opaque_()): return a[0].binop(I, 'MatMult', a[0], a[1])
    return TT.matmul(I.ctx, a[0], a[1])
def _dot(conj):
    def h(I, a, k):
        x, y = a[0], a[1]
        if not isinstance(x, (T, VecT)) or not isinstance(y, (T, VecT)): raise Unsupported('dot product of these values')
        if any(len(t.shape()) != 1 for t in (x, y) if isinstance(t, T)): raise Exc('RuntimeError', '1D tensors expected')
        if conj: x = method(I, x, 'conj', [], {})
        r = TT.binop(I.ctx, '*', x, y) if isinstance(x, T) and isinstance(y, T) else vec_op(I, 'Mult', x, y)
        return r.method(I, 'sum', [], {}) if isinstance(r, Opaque_()) else method(I, r, 'sum', [], {})
    return h
EXT['torch.dot'] = EXT['torch.inner'] = _dot(False); EXT['torch.vdot'] = _dot(True)
@ext('torch.einsum')
def _ein(I, a, k):
    ops = a[1] if len(a) == 2 and isinstance(a[1], (list, tuple)) else a[1:]
    if not isinstance(a[0], str): raise Unsupported('symbolic einsum')
    if any(isinstance(o, StateT) for o in ops): return PERM.einsum(I, a[0], list(ops))
    for o in ops:
        if isinstance(o, Opaque_()): return o.method(I, 'einsum', [a[0], list(ops)], {})
    return TT.einsum(I.ctx, a[0], list(ops))
@ext('torch.trace')
def _trace(I, a, k):
    t = a[0]
    if isinstance(t, T) and t.is_small():
        if t.arr.ndim != 2: raise Exc('RuntimeError', 'trace: expected a matrix')
        r = P()
        for i in range(min(t.arr.shape)): r = r + t.arr[i, i]
        return scal(r)
    if isinstance(t, T):
        from .dense import trace_dense
        return trace_dense(I, t)
    raise Unsupported('trace')
@ext('torch.diag')
def _diag(I, a, k):
    t = a[0]
    if isinstance(t, T) and t.is_small():
        if t.arr.ndim == 1: 
            n = t.arr.shape[0]; return small([[t.arr[i] if i == j else P() for j in range(n)] for i in range(n)])
        r = oarr((min(t.arr.shape),))
        for i in range(len(r)): r[i] = t.arr[i, i]
        return T(r)
    if isinstance(t, Opaque_()): return t.method(I, 'diag', [], {})
    if isinstance(t, T) and all(d == 1 for d in t.shape()): return T(t.arr.reshape(()) if t.arr.size == 1 else t.arr, [[]])
    raise Unsupported('diag')
@ext('torch.svd')
def _svd(I, a, k):
    from .dense import svd
    return svd(I, a[0].as_T(I.ctx) if hasattr(a[0], 'as_T') else a[0])
@ext('torch.linalg.svd')
def _lsvd(I, a, k):
    from .dense import svd
    if arg(a, k, 1, 'full_matrices', True) is not False: raise Unsupported('full singular value decomposition')
    return svd(I, a[0].as_T(I.ctx) if hasattr(a[0], 'as_T') else a[0], True)
@ext('torch.index_select')
def _isel(I, a, k): return method(I, a[0], 'index_select', [arg(a, k, 1, 'dim'), arg(a, k, 2, 'index')], {})
@ext('torch.squeeze')
def _sq(I, a, k): return method(I, a[0], 'squeeze', a[1:], k)
@ext('torch.unsqueeze')
def _usq(I, a, k): return method(I, a[0], 'unsqueeze', a[1:], k)
@ext('torch.reshape')
def _rs(I, a, k): return method(I, a[0], 'reshape', a[1:], k)
@ext('torch.permute')
def _pm(I, a, k): return method(I, a[0], 'permute', a[1:], k)
@ext('torch.transpose')
def _tp(I, a, k): return method(I, a[0], 'transpose', a[1:], k)
@ext('torch.sum')
def _sum(I, a, k): return method(I, a[0], 'sum', a[1:], k)
@ext('torch.norm', 'torch.linalg.norm', 'torch.linalg.vector_norm')
def _norm(I, a, k): return method(I, a[0], 'norm', a[1:], k)
@ext('torch.mean')
def _mean(I, a, k): return method(I, a[0], 'mean', a[1:], k)
@ext('torch.outer', 'torch.ger')
def _outer(I, a, k):
    if all(isinstance(x, VecT) for x in a[:2]):
        from .fun import FunT
        x, y = a[0].snap(), a[1].snap(); return FunT([a[0].n, a[1].n], lambda i, j: x(i)*y(j))
    raise Unsupported('outer')
@ext('torch.is_tensor')
def _ist(I, a, k): return isinstance(a[0], (T, StateT, VecT))
@ext('torch.diagonal')
def _diagl(I, a, k): return method(I, a[0], 'diagonal', a[1:], k)
@ext('torch.vstack', 'torch.row_stack')
def _vst(I, a, k):
    ts = [EXT['torch.unsqueeze'](I, [t, 0], {}) if rank_of(t) == 1 else t for t in I.concrete(a[0])]
    return EXT['torch.cat'](I, [ts, 0], {})
@ext('torch.hstack')
def _hst(I, a, k):
    ts = list(I.concrete(a[0])); r = {rank_of(t) for t in ts}
    if len(r) != 1 or 0 in r: raise Unsupported('hstack')
    return EXT['torch.cat'](I, [ts, 0 if r == {1} else 1], {})
def rank_of(t):
    r = t.ndim() if isinstance(t, T) else len(t.shape()) if hasattr(t, 'shape') else None
    if r is None: raise Unsupported('stack of these values')
    return r
@ext('torch.numel')
def _nume(I, a, k): return method(I, a[0], 'numel', [], {})
@ext('torch.movedim')
def _mvd(I, a, k): return method(I, a[0], 'movedim', a[1:], k)
EXT['torch.moveaxis'] = _mvd
@ext('torch.flatten')
def _flat(I, a, k): return method(I, a[0], 'flatten', a[1:], k)
@ext('torch.tensordot')
def _td(I, a, k):
    for o in a[:2]:
        if isinstance(o, Opaque_()): return o.method(I, 'tensordot', [a[0], a[1], arg(a, k, 2, 'dims', 2)], {})
    return PERM.tensordot(I, a[0], a[1], arg(a, k, 2, 'dims', 2))
@ext('torch.swapaxes')
def _swp(I, a, k): return method(I, a[0], 'transpose', a[1:], k)
EXT['torch.mul'] = lambda I, a, k: I.binop(__import__('ast').Mult(), a[0], a[1])
EXT['torch.add'] = lambda I, a, k: I.binop(__import__('ast').Add(), a[0], a[1])
@ext('copy.deepcopy', 'copy.copy')
def _dc(I, a, k):
    return deepcopy(I, a[0], {})
def deepcopy(I, v, memo):
    """deepcopy. A tensor computed from grad-tracking parameters (non-leaf) cannot be deep-copied (torch raises); the
    interpreted parameters do not distinguish leaves, so the copy is accepted and its result counted as detached."""
    if isinstance(v, T):
        I.deepcopied = True
        return detach(T(v.arr.copy(), v.axes))
    if isinstance(v, list): return [deepcopy(I, x, memo) for x in v]
    if isinstance(v, tuple): return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, SL):
        c = v.copy(); return c
    if isinstance(v, Opaque_()): return v.method(I, 'deepcopy', [], {})
    if isinstance(v, VecT): return v.method(I, 'clone', [], {})
    from .interp import PyObj
    if isinstance(v, PyObj):
        if id(v) in memo: return memo[id(v)]
        o = PyObj(v.cls); memo[id(v)] = o
        for n, x in v.attrs.items(): o.attrs[n] = deepcopy(I, x, memo)
        return o
    return v
# ---------------------------------------------------------------- builtins
@ext('len')
def _len(I, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, str)): return len(v)
    if isinstance(v, SL): return v.n
    if isinstance(v, T):
        if v.ndim() == 0: raise Exc('TypeError', 'len() of a 0-d tensor')
        return v.shape()[0]
    if isinstance(v, StateT): return 2 
    if isinstance(v, VecT): return v.n
    from .interp import Dict, Lazy
    if isinstance(v, Dict): return len(v.d)
    if isinstance(v, Lazy): raise Exc('TypeError', 'len() of an iterator')
    if isinstance(v, Opaque_()): return v.method(I, '__len__', [], {})
    if is_int(v) or isinstance(v, (float, P)) or v is None: raise Exc('TypeError', 'object has no len()')
    raise Unsupported(f'len of {type(v).__name__}')
@ext('range')
def _range(I, a, k):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(hi, Opaque_()) and lo == 0 and st == 1: return hi.method(I, '__range__', [], {})
    lo, hi, st = [toint(I, x) for x in (lo, hi, st)]
    if isinstance(lo, Dim) or isinstance(hi, Dim):
        if isinstance(lo, int) and lo == 0 and st == 1 and isinstance(hi, Dim): return DimRange(hi)
        lo, hi, st = [dim_int(I.ctx, x) if isinstance(x, Dim) else x for x in (lo, hi, st)]
    if all(isinstance(x, int) for x in (lo, hi, st)): return range(lo, hi, st)
    if not isinstance(st, int):
        if I.ctx.valid(z(st) > 0) is not True:
            if I.ctx.decide(z(st) == 0): raise Exc('ValueError', 'range() arg 3 must not be zero')
            raise Unsupported('range with a step of unknown sign')
        if not I.ctx.decide(z(hi)-z(lo) > 0): return range(0)
        q, r = split_mult(z(hi)-z(lo)+st-1, st)
        r = SL(simp(z(q)+z(r)/st), lambda j: simp(z(lo)+z(j)*st), kind='range'); r.rng = (lo, hi, st)
        return r
    d = z(hi)-z(lo) if st > 0 else z(lo)-z(hi)
    from . import dense as DN
    if len(DN.pow2_apps(d)) > 1: d = z3.simplify(DN.pow2_norm(I.ctx, d), som=True)
    if abs(st) != 1: d = (d + (abs(st)-1))/abs(st)
    if not I.ctx.decide(d > 0): return range(0)
    r = SL(simp(d), lambda j: simp(z(lo)+z(j)*st), kind='range'); r.rng = (lo, hi, st)
    return r
@ext('torch.arange')
def _arange(I, a, k):
    r = _range(I, list(a), {})
    return tensor_of(I, call_list(I, [r], {}))
class DimRange:
    def __init__(s, d): s.d = d
def FracNum_():
    from .interp import FracNum
    return FracNum
@ext('torch.argsort', 'numpy.argsort')
def _argsort(I, a, k):
    v = a[0]; l = getattr(v, 'ilist', None) if isinstance(v, VecT) else v if isinstance(v, SL) else None
    if l is None or len(a) > 1 or k: raise Unsupported('argsort')
    r = PERM.inverse(I.ctx, l)
    if r is None: raise Unsupported('argsort')
    return tensor_of(I, r)
@ext('filter')
def _filter(I, a, k):
    v = a[1]
    try: l = I.concrete(v)
    except Unsupported: l = None
    if l is not None: return [x for x in l if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)]
    f = a[0]; node = getattr(f, 'node', None); import ast
    if not isinstance(node, ast.Lambda) or len(node.args.args) != 1: raise Unsupported('filter')
    from .interp import Env
    v = v if isinstance(v, (SL, list, tuple)) else seq(I, v)
    r = PERM.filtered(I, [node.body], ast.Name(node.args.args[0].arg), v, f.closure)
    if r is None: raise Unsupported('filter')
    return r
def toint(I, v):
    from .interp import FloatInt
    if isinstance(v, T): return TT._toint(v.arr.reshape(())[()])
    if isinstance(v, (FloatInt, FracNum_())): raise Exc('TypeError', "'float' object cannot be interpreted as an integer")
    if isinstance(v, bool): return int(v)
    if isinstance(v, P): return TT._toint(v)
    if is_int(v) or isinstance(v, Dim): return v
    if isinstance(v, float): raise Exc('TypeError', 'float as an integer')
    raise Exc('TypeError', 'not an integer')
def call_int(I, a, k):
    from .interp import FloatInt
    v = a[0]
    if isinstance(v, Opaque_()): return v.method(I, '__int__', [], {})
    if isinstance(v, FloatInt): return v.v
    if isinstance(v, (int, float)): return int(v)
    if is_int(v) or isinstance(v, Dim): return v
    if isinstance(v, T): v = v.arr.reshape(())[()]
    if isinstance(v, P):
        if len(v.d) == 1:
            (m, e), c = next(iter(v.d.items()))
            if len(m) == 1 and m[0][0].name == 'int' and m[0][1] == 1 and not e and c == S.ONE: return m[0][0].index[0]
        return TT._toint(v)
    raise Unsupported('int()')
def call_float(I, a, k):
    v = a[0]
    if isinstance(v, T): return v.arr.reshape(())[()].detached()
    if isinstance(v, (int, float)): return float(v)
    return v
def call_list(I, a, k):
    if not a: return []
    v = a[0]
    from .interp import Lazy
    if isinstance(v, Lazy): v = v.value(I)
    if isinstance(v, range): return list(v)
    if isinstance(v, SL): return v.copy('list') if not isinstance(v.n, int) else [v.get(I.ctx, i) for i in range(v.n)]
    if isinstance(v, Opaque_()): return v.method(I, '__list__', [], {})
    if is_int(v) or v is None: raise Exc('TypeError', 'object is not iterable')
    return I.concrete(v)
def call_tuple(I, a, k):
    r = call_list(I, a, k)
    if isinstance(r, SL): return r.copy('tuple')
    return tuple(r) if isinstance(r, list) else r
def call_set(I, a, k):
    l = call_list(I, a, k)
    if isinstance(l, SL): return SymSet(I, l)
    out = []
    for x in l:
        if not any(I.truth(I.cmp(__import__('ast').Eq(), x, y)) for y in out): out.append(x)
    return SetV(out)
def set_op(I, k, a, b):
    import ast
    if k not in ('Sub', 'BitAnd', 'BitOr', 'BitXor'): raise Exc('TypeError', 'set operand')
    for x in (a, b):
        if not (isinstance(x, SetV) or isinstance(x, SL) and x.kind == 'set'): raise Exc('TypeError', 'set operand')
    has = lambda x, l: any(I.truth(I.cmp(ast.Eq(), x, y)) for y in l)
    if isinstance(a, SetV) and isinstance(b, SetV):
        if k == 'Sub': return SetV(x for x in a if not has(x, b))
        if k == 'BitAnd': return SetV(x for x in a if has(x, b))
        r = [x for x in a if k == 'BitOr' or not has(x, b)]; return SetV(r + [x for x in b if not has(x, a)])
    if k == 'Sub' and isinstance(a, SL) and isinstance(b, SetV) and getattr(a, 'elems', None) is not None:
        e = PERM.without(I, a.elems, list(b)); r = SL(e.n, lambda q: _bad('element of a set'), kind='set'); r.elems = e; return r
    raise Unsupported('operation on a symbolic set')
def set_method(I, o, name, args, kw):
    k = {'difference': 'Sub', 'intersection': 'BitAnd', 'union': 'BitOr', 'symmetric_difference': 'BitXor'}.get(name)
    if k and len(args) == 1: return set_op(I, k, o, args[0] if isinstance(args[0], SetV) else I.call(EXT['set'], [args[0]]))
    if name == 'copy': return o
    raise Unsupported(f'set method {name}')
def SymSet(I, l):
    """set of a symbolic integer list: only its size is used. len == n iff the entries are pairwise distinct"""
    ctx = I.ctx; i, j = z3.Ints('si sj'); c = l.copy()
    a, b = c.get(ctx, i), c.get(ctx, j)
    if not (is_int(a) and is_int(b)): raise Unsupported('set of a symbolic list')
    n = z(l.n)
    distinct = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z(a) != z(b)))
    if ctx.valid(distinct) is True:
        r = SL(l.n, lambda q: _bad('element of a set'), kind='set'); r.elems = c; return r
    m = ctx.var('setsize'); ctx.assume(z3.And(m >= 0, m <= n, (m == n) == distinct)); 
    return SL(m, lambda q: _bad('element of a set'), kind='set')
def mk(name, call):
    from .interp import TypeTok
    t = TypeTok(name, call); EXT[name] = t; return t
_done = []
def init_once():
    if not _done: _done.append(1); _init()
def call_dict(I, a, k):
    from .interp import Dict
    d = Dict()
    if a:
        if isinstance(a[0], Dict): d.d = dict(a[0].d)
        else:
            for x in I.concrete(a[0]):
                x = I.concrete(x)
                if len(x) != 2: raise Exc('ValueError', 'dictionary update sequence')
                I.setitem(d, x[0], x[1])
    for x, v in k.items(): I.setitem(d, x, v)
    return d
def _init():
    from .interp import TypeTok, Lazy, Dict
    mk('int', call_int); mk('float', call_float); mk('list', call_list); mk('tuple', call_tuple); mk('set', call_set)
    mk('str', lambda I, a, k: str(a[0]) if isinstance(a[0], (int, str, float)) else f'<{a[0]}>')
    mk('bool', lambda I, a, k: I.truth(a[0])); mk('dict', call_dict)
    def call_complex(I, a, k):
        r = P.const(I.int2p(a[0])); 
        return r + P.const(1j)*P.const(I.int2p(a[1])) if len(a) > 1 else r
    mk('complex', call_complex)
    mk('object', None)
    for e in ('Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'RuntimeError', 'AssertionError', 'NotImplementedError', 'AttributeError', 'ZeroDivisionError', 'UserWarning', 'BaseException', 'ArithmeticError', 'LookupError', 'OverflowError'): mk(e, None)
    t = TypeTok('Tensor', lambda I, a, k: tensor_of(I, a[0])); EXT['torch.Tensor'] = t
    EXT['NotImplemented'] = None
    for n in ('cfloat', 'complex64', 'complex128', 'float32', 'float64', 'float', 'int64', 'long', 'cdouble', 'double', 'int', 'int32', 'bool'): EXT['torch.'+n] = 'dtype:'+n
    EXT['zip'] = lambda I, a, k: Lazy(lambda I: zipped(I, a))
    EXT['enumerate'] = lambda I, a, k: Lazy(lambda I: enumd(I, a[0], arg(a, k, 1, 'start', 0)))
    EXT['reversed'] = lambda I, a, k: rev(I, a[0])
    EXT['map'] = lambda I, a, k: Lazy(lambda I: mapd(I, a[0], a[1]))
def seq(I, v):
    from .interp import Lazy
    if isinstance(v, Lazy): v = v.value(I)
    if type(v).__name__ == 'FunT' and not isinstance(v.sh[0], int): return SL(v.sh[0], lambda j: v.getitem(I, j))
    if isinstance(v, Opaque_()):
        v = v.method(I, '__iter__', [], {})
        if isinstance(v, tuple) and len(v) == 2 and callable(v[1]): v = SL(*v)
    if isinstance(v, SL) and not isinstance(v.n, int): return v
    if isinstance(v, DimRange): return SL(dim_int(I.ctx, v.d), lambda j: j, kind='range')
    if isinstance(v, VecT): return (lambda b: SL(v.n, lambda j: T(TT.oscal(b(j)))))(v.snap())
    return I.concrete(v)
def zipped(I, a):
    ss = [seq(I, v) for v in a]
    if all(isinstance(s, list) for s in ss): return list(zip(*ss))
    n = None
    for s in ss:
        m = s.n if isinstance(s, SL) else len(s)
        if n is None: n = m
        elif not (isinstance(m == n, bool) and m == n):
            n = m if I.ctx.decide(z(m) <= z(n)) else n
    ss = [I.as_sl(s) for s in ss]
    return SL(n, lambda j: tuple(s.get(I.ctx, j) for s in ss))
def enumd(I, v, st):
    s = seq(I, v)
    if isinstance(s, list): return [(st+i, x) if isinstance(st, int) else (simp(st+i), x) for i, x in enumerate(s)]
    c = s.copy(); return SL(s.n, lambda j: (simp(z(j)+st), c.get(I.ctx, j)))
def rev(I, v):
    s = seq(I, v)
    if isinstance(s, list): return s[::-1]
    c = s.copy(); return SL(s.n, lambda j: c.get(I.ctx, simp(z(c.n)-1-z(j))))
def mapd(I, f, v):
    if isinstance(v, Opaque_()) and hasattr(v, 'elementwise'):
        import ast
        from .interp import Env
        e = Env(I.envs[-1].mod if I.envs else None, None, None); e.v['__l'] = v; e.v['__f'] = f
        return I.ev(ast.parse('[__f(__x) for __x in __l]', mode='eval').body, e)
    s = seq(I, v)
    if isinstance(s, list): return [I.call(f, [x]) for x in s]
    c = s.copy(); return SL(s.n, lambda j: I.call(f, [c.get(I.ctx, j)]))
def ext_minmax(name):
    def h(I, a, k):
        if k:
            import ast
            l = list(a) if len(a) > 1 else I.concrete(a[0]); key = k.get('key')
            if set(k) - {'key', 'default'}: raise Unsupported('min/max arguments')
            if not l:
                if 'default' in k: return k['default']
                raise Exc('ValueError', 'empty sequence')
            r = l[0]; f = (lambda x: I.call(key, [x], {})) if key is not None else (lambda x: x)
            for x in l[1:]:
                if I.truth(I.cmp(ast.Gt() if name == 'max' else ast.Lt(), f(x), f(r))): r = x
            return r
        l = a if len(a) > 1 else a[0]
        if isinstance(l, SL) and not isinstance(l.n, int):
            ctx = I.ctx
            if not ctx.decide(z(l.n) > 0): raise Exc('ValueError', 'empty sequence')
            c = l.copy(); m = ctx.var(name); p = ctx.var('p'); q = z3.Int(f'mq!{ctx.fresh}'); ctx.fresh += 1
            v = c.get(ctx, q)
            if not is_int(v): raise Unsupported('min/max of a symbolic list')
            ctx.assume(z3.And(p >= 0, p < z(l.n), m == z3.substitute(z(v), (q, p))))
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(l.n)), z(v) <= m if name == 'max' else z(v) >= m)))
            # element 0 as an explicit instance
            ctx.assume((z3.substitute(z(v), (q, z3.IntVal(0))) <= m) if name == 'max' else (z3.substitute(z(v), (q, z3.IntVal(0))) >= m))
            return m
        l = I.concrete(l) if not isinstance(l, list) else l
        if not l: raise Exc('ValueError', 'empty sequence')
        r = l[0]
        import ast
        for x in l[1:]:
            if I.truth(I.cmp(ast.Gt() if name == 'max' else ast.Lt(), x, r)): r = x
        return r
    return h
EXT['min'] = ext_minmax('min'); EXT['max'] = ext_minmax('max')
def key_list(I, l, key):
    from .interp import Env
    import ast
    e = Env(I.envs[-1].mod if I.envs else None, None, None); e.v['__l'] = l; e.v['__k'] = key
    n = ast.parse('[__k(x) for x in __l]', mode='eval').body
    r = I.comp(n, e)
    return r if isinstance(r, SL) else SL(len(r), lambda j: TT._sel(r, j))
@ext('sorted')
def _sorted(I, a, k):
    k = dict(k); rv = I.truth(k.pop('reverse', False)); key = k.pop('key', None)
    if k: raise Unsupported('sorted: '+', '.join(k))
    if isinstance(a[0], SL) and a[0].kind == 'set':
        if getattr(a[0], 'elems', None) is None: raise Unsupported('sorted set')
        a = [a[0].elems] + list(a[1:])
    if isinstance(a[0], SL) and not isinstance(a[0].n, int):
        if key is not None:
            l = a[0]; ks = key_list(I, l, key)
            if rv or not PERM.ints(I.ctx, l) or not PERM.ints(I.ctx, ks): raise Unsupported('sorted with key')
            return PERM.sorted_by(I.ctx, l, ks)
        return sort_sl(I, a[0], {'reverse': rv})
    l = I.concrete(a[0])
    import ast
    out = []          # stable: equal elements keep their order, also in reverse
    for x in l:
        kx = x if key is None else I.call(key, [x], {}); i = 0
        while i < len(out) and not I.truth(I.cmp(ast.Gt() if rv else ast.Lt(), kx, out[i][0])): i += 1
        out.insert(i, (kx, x))
    return [x for _, x in out]
@ext('sum')
def _bsum(I, a, k):
    l = sym_seq(I, a[0]); import ast
    if isinstance(l, SL): return prelude(I, 'sum1', l, a[1] if len(a) > 1 else k.get('start', 0))
    r = a[1] if len(a) > 1 else 0
    for x in l: r = I.binop(ast.Add(), r, x)
    return r
@ext('any')
def _any(I, a, k):
    l = sym_seq(I, a[0])
    return prelude(I, 'any1', l) if isinstance(l, SL) else any(I.truth(x) for x in l)
@ext('all')
def _all(I, a, k):
    l = sym_seq(I, a[0])
    return prelude(I, 'all1', l) if isinstance(l, SL) else all(I.truth(x) for x in l)
def sym_seq(I, v):
    """a Python list, or a list of symbolic length"""
    try: return I.concrete(v)
    except Unsupported:
        l = seq(I, v)
        return l
def prelude(I, name, *args): return I.call(I.get('_dvprelude.'+name), list(args), {})
@ext('functools.reduce')
def _reduce(I, a, k):
    l = sym_seq(I, a[1])
    if isinstance(l, SL): return prelude(I, 'reduce2', a[0], l, a[2]) if len(a) > 2 else prelude(I, 'reduce1', a[0], l)
    if len(a) > 2: r = a[2]
    elif l: r, l = l[0], l[1:]
    else: raise Exc('TypeError', 'reduce() of empty iterable with no initial value')
    for x in l: r = I.call(a[0], [r, x], {})
    return r
@ext('itertools.chain')
def _chain(I, a, k):
    import ast
    r = []
    for x in a: r = I.binop(ast.Add(), r, sym_seq(I, x))
    return r
@ext('itertools.product')
def _product(I, a, k):
    import itertools
    rep = k.get('repeat', 1); ls = [sym_seq(I, x) for x in a]
    if all(isinstance(l, list) for l in ls) and isinstance(rep, int): return [tuple(t) for t in itertools.product(*ls, repeat=rep)]
    if rep != 1 or len(ls) != 2: raise Unsupported('product of symbolic sequences')
    x, y = [I.as_sl(l) if isinstance(l, list) else l for l in ls]; c, d = x.copy(), y.copy(); n, m = z(x.n), z(y.n)
    at = lambda i, j: (c.get(I.ctx, i), d.get(I.ctx, j))
    r = SL(simp(n*m), lambda j: at(simp(z(j)/m), simp(z(j) % m))); r.base.grid = (x.n, y.n, at); return r
@ext('itertools.permutations')
def _permutations(I, a, k):
    import itertools
    return [tuple(t) for t in itertools.permutations(I.concrete(a[0]), *a[1:])]
@ext('itertools.combinations')
def _combinations(I, a, k):
    import itertools
    return [tuple(t) for t in itertools.combinations(I.concrete(a[0]), a[1])]
@ext('divmod')
def _divmod(I, a, k):
    import ast
    return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))
@ext('pow')
def _powb(I, a, k):
    import ast
    if len(a) != 2: raise Unsupported('pow')
    return I.binop(ast.Pow(), a[0], a[1])
def _op2(name, node):
    @ext('operator.'+name)
    def h(I, a, k):
        import ast
        return I.binop(getattr(ast, node)(), a[0], a[1])
for _n, _k in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('matmul', 'MatMult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod')): _op2(_n, _k)
@ext('print')
def _print(I, a, k): return None
@ext('type')
def _type(I, a, k): return typeof(I, a[0])
def typeof(I, v):
    if getattr(v, "accold", False): raise I.loopmod.AccRead("type of a loop-carried value")
    from .interp import TypeTok, PyObj, Dict, FloatInt, Fn
    if isinstance(v, bool) or z3.is_bool(v): n = 'bool'
    elif is_int(v) or isinstance(v, Dim): n = 'int'
    elif isinstance(v, (float, P, Fr, FloatInt)): n = 'float'
    elif isinstance(v, complex): n = 'complex'
    elif isinstance(v, str): n = 'str'
    elif isinstance(v, list): n = 'list'
    elif isinstance(v, SetV): n = 'set'
    elif isinstance(v, tuple): n = 'tuple'
    elif isinstance(v, SL): n = v.kind
    elif isinstance(v, Dict): n = 'dict'
    elif v is None: n = 'NoneType'
    elif isinstance(v, (T, StateT, VecT)): n = 'Tensor'
    elif isinstance(v, PyObj): return v.cls
    elif isinstance(v, Opaque_()) and hasattr(v, 'pytype'): return v.pytype(I)
    else: raise Unsupported(f'type of {type(v).__name__}')
    return EXT.get(n) if isinstance(EXT.get(n), TypeTok) and n != 'Tensor' else TypeTok(n)
_seq = ('list', 'tuple', 'range', 'str')
ABC = dict(Iterable=_seq+('dict', 'set', 'Tensor'), Sized=_seq+('dict', 'set', 'Tensor'), Container=_seq+('dict', 'set', 'Tensor'), Sequence=_seq, Collection=_seq+('dict', 'set', 'Tensor'), List=('list',), Tuple=('tuple',))
@ext('isinstance')
def _isinst(I, a, k):
    from .interp import TypeTok, Cls, PyObj, Ext
    v, t = a
    ts = list(t) if isinstance(t, (tuple, list)) else [t]
    vt = typeof(I, v)
    for c in ts:
        if isinstance(c, Cls):
            if isinstance(vt, Cls) and c in vt.mro(): return True
        elif isinstance(c, TypeTok):
            if vt == c or (c.name == 'object') or (c.name == 'int' and isinstance(vt, TypeTok) and vt.name == 'bool'): return True
        elif isinstance(c, Ext) and c.path.startswith(('collections.abc.', 'typing.')) and c.path.split('.')[-1] in ABC:
            n = vt.name if isinstance(vt, TypeTok) else None
            if n is None: raise Unsupported(f'isinstance {c.path}')
            if n in ABC[c.path.split('.')[-1]]: return True
        elif isinstance(c, Ext) and c.path in ('numbers.Integral', 'numbers.Real', 'numbers.Number', 'numpy.integer', 'np.integer'):
            if isinstance(vt, TypeTok) and vt.name in (('int', 'bool') if 'nteg' in c.path else ('int', 'bool', 'float')): return True
        elif isinstance(c, Ext):
            if c.path in ('torch.nn.Module', 'nn.Module') and isinstance(vt, Cls) and any(isinstance(b, Ext) and b.path.endswith('nn.Module') for b in vt.ext_base()): return True
            if c.path in ('torch.nn.Parameter', 'torch.nn.parameter.Parameter'): raise Unsupported('isinstance Parameter')
        else: raise Unsupported('isinstance')
    return False
@ext('hasattr')
def _hasattr(I, a, k):
    try: I.getattr(a[0], a[1]); return True
    except Exc as e:
        if e.typ == 'AttributeError': return False
        raise
@ext('getattr')
def _getattr(I, a, k):
    try: return I.getattr(a[0], a[1])
    except Exc as e:
        if e.typ == 'AttributeError' and len(a) > 2: return a[2]
        raise
@ext('setattr')
def _setattr(I, a, k): I.setattr(a[0], a[1], a[2])
@ext('id')
def _id(I, a, k): return id(a[0])
@ext('round')
def _round(I, a, k):
    if all(isinstance(x, (int, float)) for x in a): return round(*a)
    raise Unsupported('round')
# ---------------------------------------------------------------- vectors of symbolic length
class VecT:
    """1-d tensor of symbolic length; at(j): exact scalar"""
    rec = None           # set while a loop is being summarised: reads of the state before the iteration, writes of the iteration
    def __init__(s, n, at, tok=None): s.n, s.base, s.tok = simp(n), at, tok or TT.Tok(); s.ver = s.tok.ver
    def at(s, j):
        if s.ver != s.tok.ver: raise Unsupported('read of a view whose base was modified in place')
        return s.base(j)
    def snap(s):
        if s.rec is not None: raise Unsupported('a loop copies a vector it is changing')
        if s.ver != s.tok.ver: raise Unsupported('read of a view whose base was modified in place')
        return s.base
    def put(s, ctx, i, v):
        old = s.base
        def at(j):
            c = z(i) == z(j)
            if not isinstance(c, bool): c = ctx.decide(c)
            return v if c else old(j)
        s.base = at; s.tok.ver += 1; s.tok.written = True; s.ver = s.tok.ver
        if s.rec is not None: s.rec.writes.append((i, v))
class RowV(VecT):
    """a 1-d view of an array; stores go through to the array"""
    def __init__(s, n, at, arr, ix): VecT.__init__(s, n, at, arr.tok); s.arr, s.ix = arr, ix
    def put(s, ctx, i, v):
        if s.ver != s.tok.ver: raise Unsupported('store through a view whose base was modified in place')
        a, ix = s.arr, s.ix
        if a.ver != s.ver: raise Unsupported('store through a view whose base was modified in place')
        a.put(ctx, ix(i), v); b = a.base; s.ver = a.ver; s.base = lambda j: b(*ix(j))
class VecRec:
    def __init__(s): s.reads, s.writes = [], []
def vec_map(f, *vs):
    """elementwise function of vectors of the same length"""
    bs = [v.snap() for v in vs]
    return VecT(vs[0].n, lambda j: f(*[b(j) for b in bs]))
def vec_op(I, k, a, b):
    f = {'Add': lambda x, y: x+y, 'Sub': lambda x, y: x-y, 'Mult': lambda x, y: x*y, 'Div': lambda x, y: x/y}.get(k)
    if k == 'Pow' and isinstance(b, int) and isinstance(a, VecT): return vec_map(lambda x: x**b, a)
    if f is None: raise Unsupported(f'{k} of vectors')
    if isinstance(a, VecT) and isinstance(b, VecT):
        if I.ctx.valid(z(a.n) == z(b.n)) is not True: raise Unsupported('vectors of different lengths')
        return vec_map(f, a, b)
    def sc(x):
        if isinstance(x, T) and x.is_small() and x.arr.size == 1: return x.arr.reshape(-1)[0]
        if isinstance(x, (int, float, complex, P)) or z3.is_arith(x): return P.const(I.int2p(x))
        raise Unsupported(f'{k} of a vector and {type(x).__name__}')
    if isinstance(a, VecT): c = sc(b); return vec_map(lambda x: f(x, c), a)
    c = sc(a); return vec_map(lambda x: f(c, x), b)
def vec_attr(I, v, a):
    if a == 'shape': return (v.n,)
    if a in ('dtype', 'device', 'requires_grad', 'grad'): return f'{a}:?'
    return None
def dim_int(ctx, d):
    """a dimension as an integer term: k*2^e with 2^e an uninterpreted function that grows with e"""
    d = Dim.of(d)
    if d.b: raise Unsupported('bond dimension as a number')
    if d.const() is not None: return d.const()
    f = z3.Function('pow2', z3.IntSort(), z3.IntSort()); e = z(simp(d.e)); c = 0
    # split off the constant part of the exponent
    t = simp(z3.substitute(e, *[(v, z3.IntVal(0)) for v in _consts_of(e)])) if _consts_of(e) else 0
    if isinstance(t, int) and t != 0 and not z3.is_int_value(e):
        c = t; e = z(simp(e-t))
    p = f(e); ctx.assume(z3.Implies(e >= 0, p >= e+1))
    if c > 0: return simp(d.k*2**c*p)
    if c < 0:
        q = f(simp(e+c)); ctx.assume(z3.Implies(e+c >= 0, z3.And(p == 2**(-c)*q, q >= e+c+1))); return simp(d.k*q)
    return simp(d.k*p)
def _consts_of(e):
    from .vals import _consts
    out = []
    for v in _consts(e):
        if not any(v.eq(o) for o in out): out.append(v)
    return out
def vec_slice_store(I, o, i, v):
    ctx = I.ctx
    if o.rec is not None or type(o) is not VecT: raise Unsupported('slice store on a vector')
    if i.step not in (None, 1): return vec_stride_store(I, o, i, v)
    def end(x, d):
        if x is None: return d
        if not is_int(x): raise Unsupported('slice store on a vector')
        if ctx.valid(z3.And(z(x) >= 0, z(x) <= z(o.n))) is not True: raise Unsupported('slice store on a vector')
        return x
    lo, hi = end(i.start, 0), end(i.stop, o.n)
    if ctx.valid(z(hi) >= z(lo)) is not True: raise Unsupported('slice store on a vector')
    if isinstance(v, VecT):
        if ctx.valid(z(v.n) == z(hi)-z(lo)) is not True:
            if ctx.decide(z(v.n) != z(hi)-z(lo)): raise Unsupported('slice store of another length')
        b = v.snap(); f = lambda j: b(simp(z(j)-z(lo)))
    else:
        w = v.chk() if isinstance(v, T) else small(I.int2p(v))
        if not w.is_small() or w.arr.size != 1: raise Unsupported('slice store on a vector')
        c = w.arr.reshape(-1)[0]; f = lambda j: c
    old = o.base
    def at(j):
        c = simp(z3.And(z(j) >= z(lo), z(j) < z(hi)))
        return f(j) if (c if isinstance(c, bool) else ctx.decide(c)) else old(j)
    o.base = at; o.tok.ver += 1; o.tok.written = True; o.ver = o.tok.ver
def vec_stride_store(I, o, i, v):
    """v[a::m] = w, constant a and m, length a multiple of m"""
    ctx = I.ctx; m = i.step; lo = 0 if i.start is None else i.start
    if not isinstance(m, int) or m < 2 or not isinstance(lo, int) or not 0 <= lo < m: raise Unsupported('slice store on a vector')
    if i.stop is not None and ctx.valid(z(i.stop) == z(o.n)) is not True: raise Unsupported('slice store on a vector')
    if ctx.valid(z(o.n) % m == 0) is not True: raise Unsupported('slice store on a vector')
    q = simp(z(o.n)/m)
    if isinstance(v, VecT):
        if ctx.valid(z(v.n) == z(q)) is not True: raise Unsupported('slice store of another length')
        b = v.snap(); f = lambda j: b(simp((z(j)-lo)/m))
    else:
        w = v.chk() if isinstance(v, T) else small(I.int2p(v))
        if not w.is_small() or w.arr.size != 1: raise Unsupported('slice store on a vector')
        c = w.arr.reshape(-1)[0]; f = lambda j: c
    old = o.base
    def at(j):
        c = simp(z(j) % m == lo)
        return f(j) if (c if isinstance(c, bool) else ctx.decide(c)) else old(j)
    o.base = at; o.tok.ver += 1; o.tok.written = True; o.ver = o.tok.ver
def vec_get(I, v, i):
    ctx = I.ctx
    if isinstance(i, slice):
        l = I.sl_get(SL(v.n, lambda j: j, kind='list'), i)
        if isinstance(l, (list, tuple)):
            r = oarr((len(l),))
            for q, x in enumerate(l): r[q] = v.at(x)
            return T(r, tok=v.tok)
        b = v.snap(); return VecT(l.n, lambda j: b(l.get(ctx, j)), v.tok)
    if isinstance(i, (list, SL)) and not (isinstance(i, list) and any(not is_int(x) for x in i)):
        b = v.snap()
        if isinstance(i, list):
            r = oarr((len(i),))
            for q, x in enumerate(i): r[q] = b(TT.neg_idx(ctx, x, v.n))
            return T(r)
        l = i.copy(); j = ctx.var('j')
        def inside():
            x = l.get(ctx, j); return ctx.valid(z3.And(z(x) >= 0, z(x) < z(v.n))) if is_int(x) else None
        if ctx.forall(inside, [j >= 0, j < z(l.n)]) is not True: raise Unsupported('index list')
        return VecT(l.n, lambda q: b(l.get(ctx, q)))
    if not is_int(i): raise Unsupported('index of a vector')
    i = TT.neg_idx(ctx, i, v.n); return T(np.array(v.at(i), dtype=object), tok=v.tok)
# ---------------------------------------------------------------- attributes and methods of tensors, lists, strings
def attr(I, o, a):
    from .interp import BMeth, Dict, Opaque
    if isinstance(o, Opaque): return o.attr(I, a)
    if isinstance(o, T):
        if a in ('shape',): return tuple(o.chk().shape())
        if a == 'real':
            if o.is_small(): 
                from .dense import re_nc
                return T(TT.mapent(o.chk(), lambda v: v.real() if isinstance(v, P) else re_nc(I.ctx, v)))
            from .dense import real_dense
            return real_dense(I, o)
        if a == 'imag':
            if o.is_small(): return T(TT.mapent(o.chk(), lambda v: v.imag()))
        if a == 'T': return TT.permute(I.ctx, o, list(range(o.ndim()))[::-1])
        if a == 'H': return TT.conj(TT.permute(I.ctx, o, [1, 0]))
        if a == 'ndim': return o.ndim()
        if a == 'data': return detach(o)
        if a in ('dtype', 'device'): return a+':?'
        if a in ('requires_grad',): return I.ctx.decide(z3.Bool('requires_grad')) if o.is_small() else False
        if a == 'grad': return None
        return BMeth(o, a)
    if isinstance(o, StateT):
        if a == 'shape': return o.shape_list(I)
        if a in ('dtype', 'device'): return a+':?'
        if a == 'ndim': return o.rank()
        return BMeth(o, a)
    if isinstance(o, VecT):
        if a == 'shape': return (o.n,)
        if a == 'ndim': return 1
        if a in ('real', 'imag'): return vec_map(lambda x: getattr(x, a)(), o)
        if a == 'data': return detach(o)
        if a == 'T': return o
        if a in ('dtype', 'device'): return a+':?'
        if a == 'requires_grad': return I.ctx.decide(z3.Bool('requires_grad'))
        return BMeth(o, a)
    if isinstance(o, (list, tuple, SL, str, Dict)): return BMeth(o, a)
    if isinstance(o, P) and a == 'real': return o.real()
    if isinstance(o, (P, complex)): return BMeth(o, a)
    if a == '__name__' and hasattr(o, 'name'): return o.name
    if o is None or is_int(o) or isinstance(o, float): raise Exc('AttributeError', f'no attribute {a}')
    raise Unsupported(f'attribute {a} of {type(o).__name__}')
def method(I, o, name, args, kw):
    if name == 'flip' and set(kw) == {'dims'} and not args: args, kw = [kw['dims']], {}
    from .interp import Dict, Opaque, PyObj
    ctx = I.ctx
    if isinstance(o, Opaque): return o.method(I, name, args, kw)
    if isinstance(o, PyObj): return module_method(I, o, name, args, kw)
    if isinstance(o, T): return t_method(I, o, name, args, kw)
    if isinstance(o, StateT): return st_method(I, o, name, args, kw)
    if isinstance(o, SetV) or isinstance(o, SL) and o.kind == 'set': return set_method(I, o, name, args, kw)
    if isinstance(o, VecT):
        if name == 'detach': return detach(o)
        if name == 'clone': return VecT(o.n, o.snap())
        if name in ('neg', 'negative'): return vec_op(I, 'Mult', -1, o)
        if name in ('mul', 'add', 'sub'): return vec_op(I, {'mul': 'Mult', 'add': 'Add', 'sub': 'Sub'}[name], o, args[0])
        if name == 'flip' and size_args(args) in ([0], [-1]): return VecT(o.n, (lambda b: lambda j: b(simp(z(o.n)-1-z(j))))(o.snap()))
        if name in ('view', 'reshape') and size_args(args) == [-1]: return o
        if name in ('view', 'reshape') and len(size_args(args)) > 1:
            from .fun import FunT, split_dims
            sh = split_dims(ctx, o.n, size_args(args))
            if sh is not None:
                b = o.snap()
                def flat(*ix):
                    p = ix[0]
                    for j, n in zip(ix[1:], sh[1:]): p = simp(z(p)*z(n)+z(j))
                    return b(p)
                return FunT(sh, flat, o.tok)
        if name in ('view', 'reshape') and size_args(args) in ([1, -1], [-1, 1]):
            name, args = 'unsqueeze', [0 if size_args(args) == [1, -1] else 1]
        if name == 'unsqueeze':
            from .fun import FunT
            d = TT.axis_no(arg(args, kw, 0, 'dim'), 2); b = o.snap()
            return FunT([1, o.n], lambda i, j: b(j), o.tok) if d == 0 else FunT([o.n, 1], lambda i, j: b(i), o.tok)
        if name == 'norm' and not args and not kw:
            from .fun import total, sqrtval
            b = o.snap(); return scal(sqrtval(ctx, total(ctx, o.n, lambda j: b(j)*b(j).conj())))
        if name == 'sum' and not args and not kw:
            from .fun import total
            b = o.snap(); return scal(total(ctx, o.n, b))
        if name in ('sqrt', 'abs', 'cos', 'sin', 'exp'): return EXT['torch.'+name](I, [o], {})
        if name in ('conj', 'resolve_conj', 'conj_physical'): return vec_map(lambda x: x.conj(), o) if name != 'resolve_conj' else o
        if name in ('type', 'cfloat', 'double', 'requires_grad_', 'T'): return o
        if name == 'div': return vec_op(I, 'Div', o, args[0])
        if name == 'pow' and isinstance(args[0], int): return vec_map(lambda x: x**args[0], o)
        if name in ('size',): return o.n if args else (o.n,)
        if name in ('numel', '__len__'): return o.n
        if name in ('dim',): return 1
        if name in ('squeeze', 'flatten', 'float', 'cpu', 'contiguous', 'to'): return o
        if name == 'tolist' and getattr(o, 'ilist', None) is not None and not getattr(o, 'stored', False): return o.ilist.copy()
        if name == 'tolist': return (lambda b: SL(o.n, lambda j: b(j).detached()))(o.snap())
        raise Unsupported(f'{name} of a vector of symbolic length')
    if isinstance(o, list): return list_method(I, o, name, args, kw)
    if isinstance(o, SL): return sl_method(I, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index': return list_method(I, list(o), 'index', args, kw)
        if name == 'count': return list_method(I, list(o), 'count', args, kw)
        if name == 'numel':
            r = Dim(1)
            for d in o: r = r*d
            return r.norm()
    if isinstance(o, str):
        if all(isinstance(x, (str, int, list, tuple)) for x in args) and name in ('lower', 'upper', 'strip', 'split', 'replace', 'startswith', 'endswith', 'join', 'format', 'title', 'capitalize', 'count', 'find'):
            return getattr(o, name)(*args, **kw)
        if name in ('format', 'join'): return '<fmt>'
    if isinstance(o, Dict):
        if name == 'keys': return list(o.d.keys())
        if name == 'values': return list(o.d.values())
        if name == 'items': return [tuple(x) for x in o.d.items()]
        if name in ('get', 'setdefault', 'pop'):
            q = I.dict_key(o.d, args[0])
            if name == 'pop':
                if q: return o.d.pop(q[0])
                if len(args) > 1: return args[1]
                raise Exc('KeyError', str(args[0]))
            if q: return o.d[q[0]]
            v = args[1] if len(args) > 1 else None
            if name == 'setdefault': o.d[args[0]] = v
            return v
        if name == 'clear': o.d.clear(); return None
        if name == 'copy': return Dict(dict(o.d))
        if name == 'update':
            for x, v in (call_dict(I, args, kw).d).items(): I.setitem(o, x, v)
            return None
    if isinstance(o, (P, complex)) and name in ('conjugate', 'conj'): return P.const(o).conj()
    raise Unsupported(f'method {name} of {type(o).__name__}')
def module_method(I, o, name, args, kw):
    """nn.Module services"""
    if name in ('train', 'eval', 'to', 'cpu', 'double', 'float'): return o
    if name == 'register_buffer': o.attrs[args[0]] = args[1]; return None
    if name == 'register_parameter': o.attrs[args[0]] = args[1]; return None
    raise Unsupported(f'nn.Module.{name}')
def t_method(I, o, name, args, kw):
    ctx = I.ctx
    if name in ('permute',): return TT.permute(ctx, o, size_args(args) if not (len(args) == 1 and isinstance(args[0], SL)) else args[0])
    if name in ('transpose', 'swapaxes'):
        i, j = [TT.axis_no(x, o.ndim()) for x in args]; p = list(range(o.ndim())); p[i], p[j] = p[j], p[i]; return TT.permute(ctx, o, p)
    if name == 't': return TT.permute(ctx, o, [1, 0])
    if name in ('view', 'reshape'):
        d = args[0] if len(args) == 1 and isinstance(args[0], SL) else size_args(args)
        return TT.view(ctx, o, d)
    if name == 'flatten' and not args: return TT.view(ctx, o, [-1])
    if name == 'unsqueeze': return TT.unsqueeze(ctx, o, arg(args, kw, 0, 'dim'))
    if name == 'squeeze': return TT.squeeze(ctx, o, arg(args, kw, 0, 'dim'))
    if name in ('conj', 'conj_physical'): return TT.conj(o.chk())
    if name == 'adjoint': return TT.conj(TT.permute(ctx, o, [1, 0]))
    if name == 'clone': return T(o.chk().arr.copy(), o.axes)
    if name == 'detach': return detach(o.chk())
    if name in ('contiguous', 'requires_grad_', 'to', 'cpu', 'float', 'double', 'resolve_conj', 'type'): return o
    if name in ('size',): return tuple(o.shape()) if not args else o.shape()[args[0]]
    if name in ('dim', 'ndimension'): return o.ndim()
    if name == 'numel':
        r = Dim(1)
        for d in o.shape(): r = r*d
        return r.norm()
    if name == 'item': 
        if not o.is_small(): raise Unsupported('item')
        if o.arr.size != 1: raise Exc('ValueError', 'only one element tensors can be converted')
        return o.arr.reshape(())[()].detached()
    if name == 'tolist':
        if not o.is_small(): raise Unsupported('tolist')
        def rec(a): return [rec(x) for x in a] if isinstance(a, np.ndarray) and a.ndim else (a.detached() if isinstance(a, P) else a[()].detached())
        return rec(o.arr)
    if name == 'new_ones':
        return filled(1)(I, args, kw)
    if name == 'new_zeros': return filled(0)(I, args, kw)
    if name == 'trace': return EXT['torch.trace'](I, [o], {})
    if name == 'diag': return EXT['torch.diag'](I, [o], {})
    if name == 'matmul' or name == 'mm': return TT.matmul(ctx, o, args[0])
    if name in ('cos', 'sin', 'sqrt', 'abs', 'exp'): return EXT['torch.'+name](I, [o], {})
    if name == 'index_select':
        from .dense import index_select
        return index_select(I, o, arg(args, kw, 0, 'dim'), arg(args, kw, 1, 'index'))
    if name == 'sum' and o.is_small() and not args and not kw:
        r = P()
        for x in o.arr.reshape(-1): r = r + x
        return scal(r)
    if name in ('chunk',): return tuple(TT.chunk(ctx, o, arg(args, kw, 0, 'chunks'), arg(args, kw, 1, 'dim', 0)))
    if name == 'numpy': return detach(o)
    if name == '__len__': return o.shape()[0]
    if name == 'pow' and isinstance(args[0], int): return T(TT.mapent(o, lambda v: v**args[0]))
    if name in ('add', 'mul', 'sub'):
        import ast; return I.binop({'add': ast.Add(), 'mul': ast.Mult(), 'sub': ast.Sub()}[name], o, args[0])
    if name in ('add_', 'mul_', 'sub_'):
        import ast; return I.iop({'add_': ast.Add(), 'mul_': ast.Mult(), 'sub_': ast.Sub()}[name], o, args[0])
    if name == 'movedim': 
        i, j = [TT.axis_no(x, o.ndim()) for x in args]; p = list(range(o.ndim())); p.remove(i); p.insert(j, i); return TT.permute(ctx, o, p)
    if name in ('backward', 'zero_', 'fill_', 'copy_', 'uniform_', 'normal_'): raise Unsupported(f'tensor method {name}')
    raise Unsupported(f'tensor method {name}')
def st_method(I, o, name, args, kw):
    ctx = I.ctx
    if name == 'permute':
        p = args[0] if len(args) == 1 else args
        if isinstance(p, tuple): p = list(p)
        return o.permute(ctx, p)
    if name in ('view', 'reshape'): 
        p = args[0] if len(args) == 1 and isinstance(args[0], (SL, list, tuple)) else args
        return TT.view(ctx, o, p)
    if name == 'unsqueeze': return o.unsqueeze(arg(args, kw, 0, 'dim'))
    if name == 'squeeze': return o.squeeze(arg(args, kw, 0, 'dim'))
    if name in ('clone', 'contiguous'): return o.with_(tok=TT.Tok() if name == 'clone' else o.tok)
    if name == 'detach': return detach(o)
    if name in ('movedim', 'moveaxis'): return PERM.movedim(I, o, arg(args, kw, 0, 'source'), arg(args, kw, 1, 'destination'))
    if name in ('t',) and o.flat or name == 'transpose' and o.flat: return o.permute(ctx, [1, 0])
    if name == 'matmul': return o.rmul(ctx, args[0])
    if name == 'flatten' and not o.merged and not o.ones and not o.flat: return st_flatten(I, o, arg(args, kw, 0, 'start_dim', 0), arg(args, kw, 1, 'end_dim', -1))
    if name in ('transpose', 'swapaxes'):
        i, j = [_axn(I, x, o) for x in args]
        return o.permute(ctx, SL(o.n, lambda q: z3.If(z(q) == z(i), z(j), z3.If(z(q) == z(j), z(i), z(q)))))
    if name == 'conj': return TT.conj(o)
    if name in ('dim', 'ndimension'): return o.rank()
    if name == 'size': 
        s = o.shape_list(I); return s if not args else I.getitem(s, args[0])
    if name == 'numel': return Dim.pow2(o.n)
    raise Unsupported(f'method {name} of a rank-N tensor')
def st_flatten(I, o, a, b):
    ctx = I.ctx; a, b = _axn(I, a, o), _axn(I, b, o)
    m = simp(z(b)-z(a)+1)
    if ctx.valid(z(a) == 0) is True and ctx.valid(z(b) == z(o.n)-1) is True: return o.view(ctx, [-1])
    if isinstance(m, int) and m >= 2 and ctx.valid(z(b) == z(o.n)-1) is True: return o.with_(merged=m)
    raise Unsupported('flatten of a rank-N tensor')
def _axn(I, x, o):
    return TT.neg_idx(I.ctx, x, o.rank())
def list_method(I, o, name, args, kw):
    import ast
    if name == 'append': o.append(args[0]); return None
    if name == 'extend':
        v = args[0]
        r = seq(I, v)
        if isinstance(r, SL): grow(I, o, r); return None
        o.extend(r); return None
    if name == 'copy': return list(o)
    if name == 'reverse': o.reverse(); return None
    if name == 'clear': o.clear(); return None
    if name == 'sort': o[:] = EXT['sorted'](I, [o], dict(kw)); return None
    if name == 'pop':
        i = args[0] if args else -1
        if isinstance(i, int):
            try: return o.pop(i)
            except IndexError: raise Exc('IndexError', 'pop index out of range')
        i = TT.neg_idx(I.ctx, i, len(o))
        for k in range(len(o)):
            if k == len(o)-1 or I.ctx.decide(z(i) == k): return o.pop(k)
    if name == 'insert':
        i = args[0]
        if isinstance(i, int): o.insert(i, args[1]); return None
        for k in range(len(o)):
            if I.ctx.decide(z(i) <= k) : 
                o.insert(k, args[1]); return None     # negative positions were excluded by the caller's range facts
        o.append(args[1]); return None
    if name == 'remove':
        for k, x in enumerate(o):
            if I.truth(I.cmp(ast.Eq(), x, args[0])): o.pop(k); return None
        raise Exc('ValueError', 'list.remove(x): x not in list')
    if name == 'index':
        for k, x in enumerate(o):
            if I.truth(I.cmp(ast.Eq(), x, args[0])): return k
        raise Exc('ValueError', 'not in list')
    if name == 'count':
        return sum(1 for x in o if I.truth(I.cmp(ast.Eq(), x, args[0])))
    raise Unsupported(f'list method {name}')
def grow(I, o, r):
    """a concrete list is extended by a list of symbolic length"""
    from .interp import sl_concat
    n = sl_concat(I, I.as_sl(list(o)), r.copy()) if o else r.copy('list'); n.kind = 'list'
    I.become(o, n, I.cur); return n
def acc_extend(I, o, v):
    r = seq(I, v)
    if isinstance(r, list): o.appended.extend(r); return
    from .loops import Block
    o.appended.append(Block(r.copy()))
def sl_method(I, o, name, args, kw):
    ctx = I.ctx
    def put(r): o.n, o.base, o.base_const, o.stores = r.n, r.base, r.base_const, list(r.stores)
    if name == 'copy': return o.copy()
    if o.kind == 'tuple' and name in ('append', 'remove', 'pop', 'insert', 'extend', 'sort', 'reverse'): raise Exc('AttributeError', name)
    if name == 'numel': return Dim.pow2(o.n)
    from .interp import sl_concat
    if name == 'append' and hasattr(o, 'appended'): o.appended.append(args[0]); return None
    if name == 'append': put(sl_concat(I, o.copy(), I.as_sl([args[0]]))); return None
    if name == 'extend' and hasattr(o, 'appended'): acc_extend(I, o, args[0]); return None
    if name == 'extend':
        r = seq(I, args[0]); put(sl_concat(I, o.copy(), I.as_sl(r))); return None
    if name == 'reverse':
        c = o.copy(); put(SL(c.n, lambda j: c.get(ctx, simp(z(c.n)-1-z(j))))); return None
    if name == 'pop':
        i = TT.neg_idx(ctx, args[0] if args else -1, o.n)
        c = o.copy(); v = c.get(ctx, i)
        put(SL(simp(z(c.n)-1), shift_get(I, c, i))); o._isint = getattr(c, '_isint', None); return v
    if name == 'insert':
        i, v = args
        if not is_int(i): raise Exc('TypeError', 'insert')
        if ctx.decide(z(i) < 0):
            i = simp(z(i)+z(o.n)); 
            if ctx.decide(z(i) < 0): i = 0
        elif ctx.decide(z(i) > z(o.n)): i = o.n
        c = o.copy()
        if is_int(v): base = lambda j: z3.If(z(j) < z(i), z(c.get(ctx, j)), z3.If(z(j) == z(i), z(v), z(c.get(ctx, simp(z(j)-1)))))
        else:
            def base(j):
                if ctx.decide(z(j) == z(i)): return v
                return c.get(ctx, j) if ctx.decide(z(j) < z(i)) else c.get(ctx, simp(z(j)-1))
        put(SL(simp(z(c.n)+1), base)); return None
    if name in ('remove', 'index'):
        v = args[0]; c = o.copy()
        if not is_int(v): raise Unsupported('remove of a non-integer')
        q = z3.Int(f'rq!{ctx.fresh}'); ctx.fresh += 1
        e = c.get(ctx, q)
        if not is_int(e): raise Unsupported('search in a non-integer list')
        e = z(e)
        # position: try the value itself and simple candidates first (lists built from range)
        p = None
        for cand in (v, simp(z(v)-1), simp(z(v)-2), simp(z(v)+1)):
            cz = z(cand)
            if ctx.valid(z3.And(cz >= 0, cz < z(c.n), z3.substitute(e, (q, cz)) == z(v))) is True \
               and ctx.valid(z3.Implies(z3.And(q >= 0, q < cz), e != z(v))) is True: p = cand; break
        if p is None and name == 'index': p = PERM.index_in_perm(ctx, c, v)
        if p is None:
            # case split on the ground candidates before falling back to an unknown position
            for cand in (v, simp(z(v)-1), simp(z(v)-2), simp(z(v)+1)):
                cz = z(cand)
                if ctx.valid(z3.Implies(z3.And(cz >= 0, cz < z(c.n), z3.substitute(e, (q, cz)) == z(v), q >= 0, q < cz), e != z(v))) is True \
                   and ctx.decide(z3.And(cz >= 0, cz < z(c.n), z3.substitute(e, (q, cz)) == z(v))): p = cand; break
        if p is None:
            if not ctx.decide(z3.Exists([q], z3.And(q >= 0, q < z(c.n), e == z(v)))): raise Exc('ValueError', 'x not in list')
            p = ctx.var('pos'); ctx.assume(z3.And(p >= 0, p < z(c.n), z3.substitute(e, (q, p)) == z(v)))
            ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p), e != z(v))))
        if name == 'index': return p
        put(SL(simp(z(c.n)-1), shift_get(I, c, p))); return None
    if name == 'sort': put(sort_sl(I, o, kw)); return None
    if name == '__len__': return o.n
    raise Unsupported(f'method {name} of a symbolic list')
def sort_sl(I, o, kw):
    """contract of list.sort on integers: the same entries (a permutation p of the positions), in ascending order"""
    ctx = I.ctx
    if kw.get('reverse') not in (None, False) or kw.get('key') is not None: raise Unsupported('sort with key or reverse')
    i, j = ctx.var('sa'), ctx.var('sb'); c = o.copy()
    if is_int(c.get(ctx, i)) and ctx.valid(z3.Implies(z3.And(i >= 0, i < j, j < z(c.n)), z(c.get(ctx, i)) <= z(c.get(ctx, j)))) is True:
        c = o.copy(kind='list'); c._isint = True; return c
    c = o.copy(); n = z(c.n); nm = f'perm#{ctx.fresh}'; ctx.fresh += 1; p = z3.Function(nm, z3.IntSort(), z3.IntSort())
    if not is_int(c.get(ctx, z3.Int('probe!q'))): raise Unsupported('sorting a symbolic list that is not of integers')
    inr = lambda t: z3.And(t >= 0, t < n); v = lambda a: z(c.get(ctx, a))
    ctx.inst[nm] = (lambda t, a: z3.Implies(inr(t), z3.And(a >= 0, a < n, *( [x for x in elem_facts(ctx, v(a), a, n)] ))),
                    lambda t, a, u, b: z3.And(z3.Implies(z3.And(inr(t), inr(u), t != u), a != b), z3.Implies(z3.And(inr(t), inr(u), t < u), v(a) <= v(b)), z3.Implies(z3.And(inr(t), inr(u), u < t), v(b) <= v(a)),
                                              *pair_facts(ctx, v(a), a, v(b), b, z3.And(inr(t), inr(u)))))
    # every entry is at least the first one of the sorted list
    ctx.assume(z3.Implies(n >= 1, z3.And(p(0) >= 0, p(0) < n)))
    pr = c.get(ctx, z3.Int('probe!q')); first = v(p(z3.IntVal(0)))
    if z3.is_app(pr) and pr.num_args() == 1 and pr.decl().kind() == z3.Z3_OP_UNINTERPRETED and pr.arg(0).eq(z3.Int('probe!q')):
        f = pr.decl().name(); one, two = ctx.inst.get(f, (None, None))
        ctx.inst[f] = (lambda t, a: z3.And(one(t, a) if one else True, z3.Implies(inr(t), first <= a)), two)
    r = SL(c.n, lambda j: z3.simplify(v(p(z(j))))); r._isint = True; return r
def elem_facts(ctx, v, a, n):
    return [ctx.inst[x.decl().name()][0](x.arg(0), x) for x in ctx.apps(v) if x.decl().name() in ctx.inst and ctx.inst[x.decl().name()][0] and not x.decl().name().startswith('perm#')]
def pair_facts(ctx, v, a, w, b, rng):
    out = []
    for x in ctx.apps(v):
        for y in ctx.apps(w):
            if x.decl().eq(y.decl()) and not x.decl().name().startswith('perm#') and ctx.inst[x.decl().name()][1]: out.append(z3.Implies(rng, ctx.inst[x.decl().name()][1](x.arg(0), x, y.arg(0), y)))
    return out
def shift_get(I, c, p):
    ctx = I.ctx
    from .interp import _intlist
    if _intlist(ctx, c): return lambda j: z3.If(z(j) < z(p), z(c.get(ctx, j)), z(c.get(ctx, simp(z(j)+1))))
    def at(j):
        return c.get(ctx, j) if ctx.decide(z(j) < z(p)) else c.get(ctx, simp(z(j)+1))
    return at
