"""elementwise product of two vectors, kept unevaluated until it is summed"""
from .interp import Opaque, BMeth
from .vals import *
from . import tensor as TT, nc as N_
from .tensor import T
from .scalar import Unsupported
def col(t):
    """the vector as a column, or None"""
    m = TT.as_nc(t)
    if m is None and t.axes is not None and len(t.axes) == 1 and t.arr.size == 1 and len([f for f in t.axes[0] if isinstance(f, TT.B)]) == 1: m = t.chk().arr.reshape(-1)[0]
    if m is None: return None
    if m.c.const() == 1: return m
    if m.r.const() == 1: return N_.transpose(m)
    return None
class Had(Opaque):
    def __init__(s, a, b, shape): s.a, s.b, s.sh = a, b, shape
    def total(s, I): return T(TT.oscal(N_.mul(I.ctx, N_.transpose(s.a), s.b)), [])
    def attr(s, I, a):
        if a == 'shape': return tuple(s.sh)
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        if name == 'sum':
            d = args[0] if args else kw.get('dim')
            if d is None and not kw: return s.total(I)
            if isinstance(d, int) and set(kw) <= {'dim', 'keepdim'}:
                d = d % len(s.sh)
                if all(x == 1 for i, x in enumerate(s.sh) if i != d):
                    r = s.total(I); n = len(s.sh) if kw.get('keepdim') else len(s.sh)-1
                    return T(r.arr, [[] for _ in range(n)])
        if name in ('clone', 'contiguous'): return s
        raise Unsupported(f'{name} of an elementwise product')
class HadM(Opaque):
    """elementwise product of two matrices: its sum is tr(A B^T)"""
    def __init__(s, a, b, shape): s.a, s.b, s.sh = a, b, shape
    def attr(s, I, a):
        if a == 'shape': return tuple(s.sh)
        if a == 'mT' or a == 'T': return HadM(N_.transpose(s.a), N_.transpose(s.b), s.sh[::-1])
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        if name == 'sum' and not args and not kw: return tr(I.ctx, N_.mul(I.ctx, s.a, N_.transpose(s.b)))
        if name == 'sum' and len(args) == 1 and args[0] in ((0, 1), [0, 1], (-1, -2), (-2, -1), (1, 0)): return s.method(I, 'sum', [], {})
        if name in ('clone', 'contiguous'): return s
        if name == 't': return s.attr(I, 'T')
        raise Unsupported(f'{name} of an elementwise product of matrices')
def tr(ctx, m):
    from .dense import scalar_of
    x = N_.trace(ctx, m); v = scalar_of(x)
    return T(TT.oscal(v if v is not None else x))
def had(ctx, a, b):
    x, y = col(a), col(b)
    if x is None and y is None and len(a.shape()) == 2 == len(b.shape()):
        x, y = TT.as_nc(a), TT.as_nc(b)
        if x is None or y is None or any(not isinstance(d, Dim) or d.const() == 1 for m in (x, y) for d in (m.r, m.c)): return None
        if dim_eq(ctx, x.r, y.r) is not True or dim_eq(ctx, x.c, y.c) is not True: return None
        return HadM(x, y, a.shape())
    if x is None or y is None or dim_eq(ctx, x.r, y.r) is not True or len(a.shape()) != len(b.shape()): return None
    # no broadcasting: both rows, both columns or both of rank one
    if [q == 1 for q in a.shape()] != [q == 1 for q in b.shape()]: return None
    return Had(x, y, a.shape())
