"""Tensors of the verified programs.

T     small tensor: every dimension concrete, entries exact scalars (`arr`, a numpy object array), or
      bulk tensor: some axes carry symbolic dimensions. Then `axes` lists, per axis, its factors in row-major order:
      an int n (concrete factor, one axis of `arr` each, in order) or a B (symbolic factor). At most one B is tagged 'R'
      and one 'C'; the entries of arr are NC matrices whose rows/columns are indexed by those factors.
StateT  a rank-N (or 1+N, with batch label) tensor of 2-dimensional axes holding an N-qubit state: `content` is the state
        as NC column vector, `lab` maps axis position -> qubit label (-1: batch axis).
"""
import numpy as np, itertools, z3
from fractions import Fraction as Fr
from .scalar import P, Unsupported
from . import nc as N_
from .nc import NC, Op
from .vals import Dim, dim_eq, SL, is_int, simp, Exc, z
class Tok:
    """storage identity, for frame conditions"""
    def __init__(s, name=None): s.name, s.ver, s.written = name, 0, False
class B:
    __slots__ = ('d', 'tag')
    def __init__(s, d, tag): s.d, s.tag = Dim.of(d), tag
    def __repr__(s): return f'{s.tag}:{s.d}'
def oarr(shape): return np.empty(shape, dtype=object)
def oscal(x):
    a = oarr(()); a[()] = x; return a
class T:
    def __init__(s, arr, axes=None, tok=None, det=False):
        s.arr, s.axes, s.tok = arr if isinstance(arr, np.ndarray) else oscal(arr), axes, tok or Tok(); s.ver = s.tok.ver; s.det = det
    def is_small(s): return s.axes is None
    def chk(s):
        if s.ver != s.tok.ver: raise Unsupported('read of a view whose base was modified in place')
        return s
    def __repr__(s): return f'T{s.shape()}' + (repr(s.arr.tolist()) if s.arr.size <= 16 else '')
    def shape(s):
        if s.axes is None: return list(s.arr.shape)
        return [axdim(a) for a in s.axes]
    def ndim(s): return s.arr.ndim if s.axes is None else len(s.axes)
    def bulk(s): return [f for a in s.axes or [] for f in a if isinstance(f, B)]
    def written(s):
        s.tok.ver += 1; s.tok.written = True; s.ver = s.tok.ver
def axdim(a):
    d = Dim(1)
    for f in a: d = d * (f.d if isinstance(f, B) else f)
    return d.norm()
def small(x, tok=None):
    a = np.asarray(x, dtype=object)
    f = np.frompyfunc(lambda v: v if isinstance(v, P) else P.const(v), 1, 1)
    r = f(a)
    if not isinstance(r, np.ndarray):
        q = oarr(()); q[()] = r; r = q
    return T(r, tok=tok)
def scal(p): return small(P.const(p))
def is_scalar(x): return isinstance(x, (int, float, complex, P, Fr)) and not isinstance(x, bool) or isinstance(x, bool)
def zi(x): return z3.is_expr(x)
def lift(t):
    """small tensor as (trivially) factored form"""
    return t.axes if t.axes is not None else [([n] if n != 1 else [1]) for n in t.arr.shape]
def dense(ncv, tok=None):
    """2-d tensor from an NC matrix"""
    a = oarr(()); a[()] = ncv
    R, C = Dim.of(ncv.r), Dim.of(ncv.c)
    axes = []
    axes.append([] if R.const() == 1 else [B(R, 'R')]); axes.append([] if C.const() == 1 else [B(C, 'C')])
    if not any(axes): raise Unsupported('1x1 dense')
    return T(a, axes, tok)
def as_nc(t):
    """NC matrix of a 2-d bulk tensor without concrete factors; orientation = axes order"""
    if t.axes is None or t.arr.ndim and t.arr.size != 1 or len(t.axes) != 2: return None
    e = t.arr.reshape(())[()]
    r = [f for f in t.axes[0] if isinstance(f, B)]; c = [f for f in t.axes[1] if isinstance(f, B)]
    if len(r) > 1 or len(c) > 1: return None
    if (r and r[0].tag == 'C') or (c and c[0].tag == 'R'): e = N_.transpose(e)
    return e
def mapent(t, f):
    out = oarr(t.arr.shape)
    for ix in np.ndindex(*t.arr.shape): out[ix] = f(t.arr[ix])
    return out
def conj(t):
    if isinstance(t, StateT): return t.with_(content=N_.conj(t.content), conj=not t.conj)
    return T(mapent(t, lambda v: v.conj() if isinstance(v, P) else N_.conj(v)), t.axes)
def neg_idx(ctx, i, n):
    """Python index -> 0..n-1 or IndexError. forks on symbolic values"""
    if isinstance(i, int) and isinstance(n, int):
        if i < 0: i += n
        if not 0 <= i < n: raise Exc('IndexError', 'index out of range')
        return i
    if isinstance(n, Dim): raise Unsupported('index into an exponentially long axis')
    if ctx.decide(z(i) < 0): i = simp(i + n)
    if not ctx.decide(z3.And(z(i) >= 0, z(i) < z(n))): raise Exc('IndexError', 'index out of range')
    return i
def axis_no(k, nd):
    if not isinstance(k, int): raise Unsupported('symbolic axis number')
    if k < 0: k += nd
    if not 0 <= k < nd: raise Exc('IndexError', 'Dimension out of range')
    return k
def arr_axes(t):
    """for each axis the list of arr axis numbers of its concrete factors"""
    out, p = [], 0
    for a in t.axes:
        l = []
        for f in a:
            if not isinstance(f, B): l.append(p); p += 1
        out.append(l)
    return out
def permute(ctx, t, perm):
    if isinstance(t, StateT): return t.permute(ctx, perm)
    t.chk()
    if isinstance(perm, SL):
        if not isinstance(perm.n, int): raise Unsupported('permute by a symbolic list')
        perm = [perm.get(ctx, i) for i in range(perm.n)]
    perm = [axis_no(p, t.ndim()) for p in perm]
    if sorted(perm) != list(range(t.ndim())): raise Exc('RuntimeError', 'permute: not a permutation of the axes')
    if t.is_small(): return T(t.arr.transpose(perm), tok=t.tok)
    aa = arr_axes(t); order = [x for p in perm for x in aa[p]]
    return T(t.arr.transpose(order), [t.axes[p] for p in perm], t.tok)
def unsqueeze(ctx, t, k):
    if isinstance(t, StateT): return t.unsqueeze(k)
    if k < 0: k += t.ndim()+1
    if t.is_small(): return T(np.expand_dims(t.arr, k), tok=t.tok)
    return T(t.arr, t.axes[:k]+[[]]+t.axes[k:], t.tok)
def squeeze(ctx, t, k=None):
    if isinstance(t, StateT): return t.squeeze(k)
    if t.is_small():
        if k is None: return T(t.arr.reshape([n for n in t.arr.shape if n != 1]), tok=t.tok)
        k = axis_no(k, t.ndim())
        return T(t.arr.reshape([n for i, n in enumerate(t.arr.shape) if i != k or n != 1]), tok=t.tok)
    out = []
    for i, a in enumerate(t.axes):
        d = axdim(a)
        if k is not None and i != axis_no(k, t.ndim()): out.append(a); continue
        if isinstance(d, int):
            if d != 1: out.append(a)
            continue
        one = dim_is_one(ctx, d)
        if not one: out.append(a)
        else: raise Unsupported('squeezing a symbolic axis of size one')
    arr = t.arr.reshape([f for a in out for f in a if not isinstance(f, B)])
    return T(arr, out, t.tok)
def dim_is_one(ctx, d):
    if isinstance(d, int): return d == 1
    if d.b: raise Unsupported('size of a bond axis')
    if d.k != 1: return False
    return ctx.decide(d.e == 0)
def view(ctx, t, dims):
    if not isinstance(dims, SL) and any(isinstance(d, float) or type(d).__name__ == 'FracNum' for d in dims): raise Exc('TypeError', 'sizes must be integers')
    try: return view_(ctx, t, dims)
    except Unsupported:
        if isinstance(dims, SL): raise
        from .seg import of
        r = of(ctx, t, list(dims))
        if r is None: raise
        return r
def view_(ctx, t, dims):
    if isinstance(t, StateT): return t.view(ctx, dims)
    t.chk()
    if isinstance(dims, SL):
        if isinstance(dims.n, int): dims = [dims.get(ctx, i) for i in range(dims.n)]
        else: return view_rank(ctx, t, dims)
    dims = list(dims)
    if t.is_small():
        if all(isinstance(d, int) for d in dims):
            n = t.arr.size; k = 1
            for d in dims: k *= d
            if (-1 in dims and (n % -k if k else True)) or (-1 not in dims and k != n): raise Exc('RuntimeError', f'shape {dims} is invalid for input of size {n}')
            return T(t.arr.reshape(dims), tok=t.tok)
        raise Unsupported(f'view of {t.shape()} as {dims}')
    fl = [f for a in t.axes for f in a if isinstance(f, B) or f != 1]
    arr = t.arr.reshape([f for f in fl if not isinstance(f, B)])
    if any(zi(d) for d in dims): raise Unsupported('symbolic view')
    def take(fl, d, front):
        """split factors making dimension d off the front/back of fl -> (taken, rest, fl', splits)"""
        d = Dim.of(d); got = []; fl = list(fl)
        cur = Dim(1)
        while dim_eq(ctx, cur, d) is not True:
            if not fl: return None
            f = fl.pop(0 if front else -1)
            if isinstance(f, B):
                got.append(f); cur = cur*f.d
            else:
                need = None
                try: need = d.div(cur).const()
                except Unsupported: need = None
                if need is not None and need < f and f % need == 0:
                    a, b = (need, f//need) if front else (f//need, need)
                    # split f
                    got.append(('s', need)); fl.insert(0 if front else len(fl), ('s', f//need)) ; cur = cur*need
                else: got.append(f); cur = cur*f
            if len(got) > 40: return None
        return (got if front else got[::-1]), fl
    out = []; rest = fl; i = 0
    while i < len(dims) and dims[i] != -1:
        r = take(rest, _n(dims[i]), True)
        if r is None: raise Unsupported(f'view of {t.shape()} as {dims}')
        out.append(r[0]); rest = _s(r[1]); i += 1
    tail = []
    if i < len(dims):
        j = len(dims)-1
        while j > i:
            r = take(rest, _n(dims[j]), False)
            if r is None: raise Unsupported(f'view of {t.shape()} as {dims}')
            tail.insert(0, r[0]); rest = _s(r[1]); j -= 1
        out.append(rest); rest = []
    if rest: raise Exc('RuntimeError', f'view of {t.shape()} as {dims}: sizes differ')
    axes = [_s(a) for a in out+tail]
    newc = [f for a in axes for f in a if not isinstance(f, B)]
    return T(arr.reshape(newc), axes, t.tok)
def _n(d): return d
def _s(l): return [f[1] if isinstance(f, tuple) else f for f in l]
def view_rank(ctx, t, dims):
    """view/reshape to a list of symbolic length: rank-N tensor of a 2^N vector (leading concrete batch allowed)"""
    raise_if = None
    n = dims.n
    # all entries must be 2
    j = ctx.var('j')
    if ctx.forall(lambda: ctx.valid(z(dims.get(ctx, j)) == 2), [j >= 0, j < z(n)]) is not True: raise Unsupported('reshape to a list of sizes other than 2')
    if t.axes is None: raise Unsupported('small tensor to symbolic rank')
    bs = t.bulk()
    if len(bs) == 1 and t.arr.size == 1:
        if dim_eq(ctx, bs[0].d, Dim.pow2(n)) is not True: 
            raise Exc('RuntimeError', 'invalid shape')
        e = t.arr.reshape(())[()]
        if bs[0].tag == 'C': e = N_.transpose(e)
        return StateT(n, None, e, tok=t.tok)
    if len(bs) == 2 and t.arr.size == 1 and bs[0].tag == 'R':
        tot = bs[0].d*bs[1].d
        if dim_eq(ctx, tot, Dim.pow2(n)) is not True: raise Exc('RuntimeError', 'invalid shape')
        # rank-2N tensor of a matrix: labels 0..N-1 rows, N..2N-1 columns
        e = t.arr.reshape(())[()]
        return StateT(n, None, N_.nc_op(Op('vec', (id(e),), Dim.pow2(n), Dim(1))), tok=t.tok, mat=e)
    raise Unsupported('reshape to symbolic rank')
def binop(ctx, op, a, b):
    """elementwise + - * / with broadcasting"""
    if isinstance(a, StateT) or isinstance(b, StateT): return state_binop(ctx, op, a, b)
    if not isinstance(a, T): a = small(a)
    if not isinstance(b, T): b = small(b)
    a.chk(); b.chk()
    f = {'+': lambda x, y: x+y, '-': lambda x, y: x-y, '*': lambda x, y: x*y, '/': lambda x, y: x/y}[op]
    if a.is_small() and b.is_small():
        try: r = f(a.arr, b.arr)
        except ValueError: raise Exc('RuntimeError', 'shapes cannot be broadcast')
        if not isinstance(r, np.ndarray): q = oarr(()); q[()] = r; r = q
        return T(r)
    if a.is_small() or b.is_small():
        sm, bk = (a, b) if a.is_small() else (b, a)
        if sm.arr.size == 1:
            c = sm.arr.reshape(())[()]
            if op == '*': return T(mapent(bk, lambda v: N_.scale(ctx, c, v)), bk.axes)
            if op == '/' and bk is a: return T(mapent(bk, lambda v: N_.scale(ctx, c.inv(), v)), bk.axes)
            if op in '+-' and c.is_zero():
                if op == '-' and bk is b: return T(mapent(bk, lambda v: N_.scale(ctx, P.const(-1), v)), bk.axes)
                return T(bk.arr.copy(), bk.axes)
        raise Unsupported(f'elementwise {op} of {a.shape()} and {b.shape()}')
    if op in '+-':
        a2, b2 = same_struct(ctx, a, b)
        out = oarr(a2.arr.shape)
        for ix in np.ndindex(*out.shape):
            y = b2.arr[ix]
            out[ix] = N_.add(ctx, a2.arr[ix], y if op == '+' else N_.scale(ctx, P.const(-1), y))
        return T(out, a2.axes)
    if op == '*':
        from .had import had
        r = had(ctx, a, b)
        if r is not None: return r
    raise Unsupported(f'elementwise {op} of bulk tensors')
def same_struct(ctx, a, b):
    if len(a.axes) != len(b.axes): raise Unsupported('rank mismatch')
    swap = None
    for x, y in zip(a.axes, b.axes):
        x = [f for f in x if isinstance(f, B) or f != 1]; y = [f for f in y if isinstance(f, B) or f != 1]
        if len(x) != len(y): raise Unsupported('axis structure mismatch')
        for f, g in zip(x, y):
            if isinstance(f, B) != isinstance(g, B): raise Unsupported('axis structure mismatch')
            if isinstance(f, B):
                e = dim_eq(ctx, f.d, g.d)
                if e is False: raise Exc('RuntimeError', 'sizes do not match')
                if e is None: raise Unsupported(f'dimensions {f.d} and {g.d}')
                w = f.tag != g.tag
                if swap is None: swap = w
                elif swap != w: raise Unsupported('orientation mismatch')
            elif f != g: raise Exc('RuntimeError', 'sizes do not match')
    if swap: b = T(mapent(b, N_.transpose), a.axes, b.tok)
    return T(a.arr, a.axes), T(b.arr.reshape(a.arr.shape), a.axes)
def getitem(ctx, t, idx):
    if isinstance(t, StateT): raise Unsupported('indexing a rank-N tensor')
    t.chk()
    if not isinstance(idx, tuple): idx = (idx,)
    idx = [int(i) if isinstance(i, bool) else (i.arr[()] if isinstance(i, T) and i.is_small() and i.arr.ndim == 0 else i) for i in idx]
    idx = [_toint(i) for i in idx]
    if any(i is Ellipsis for i in idx):
        k = [i is Ellipsis for i in idx].index(True); idx = idx[:k] + [slice(None)]*(t.ndim()-len(idx)+1) + idx[k+1:]
    if len(idx) > t.ndim(): raise Exc('IndexError', 'too many indices for tensor')
    if any(i is None for i in idx): raise Unsupported('None index')
    if t.is_small():
        out = []
        for k, i in enumerate(idx):
            n = t.arr.shape[k]
            if isinstance(i, slice):
                if any(zi(x) for x in (i.start, i.stop, i.step)): raise Unsupported('symbolic slice of a small tensor')
                out.append(i)
            elif isinstance(i, int): out.append(neg_idx(ctx, i, n))
            elif zi(i):
                i = neg_idx(ctx, i, n)
                if isinstance(i, int): out.append(i); continue
                for c in range(n-1):
                    if ctx.decide(i == c): out.append(c); break
                else: out.append(n-1)
            else: raise Unsupported(f'index {i}')
        r = t.arr[tuple(out)]
        if not isinstance(r, np.ndarray): q = oarr(()); q[()] = r; r = q
        return T(r, tok=t.tok)
    if len(idx) == 1 and t.ndim() == 2 and not isinstance(idx[0], slice) and (isinstance(idx[0], int) or zi(idx[0])):
        r = unit_row(ctx, t, idx[0])
        if r is not None: return r
    if len(idx) == 2 and t.ndim() == 2:
        for q in (0, 1):
            o = idx[1-q]; i = idx[q]
            if isinstance(o, slice) and o == slice(None) and (isinstance(i, int) or zi(i)) and not isinstance(i, bool):
                r = matrix_line(ctx, t, q, i)
                if r is not None: return r
    if len(idx) == 1 and t.ndim() == 2 and (isinstance(idx[0], int) or zi(idx[0])) and not isinstance(idx[0], bool):
        r = matrix_line(ctx, t, 0, idx[0])
        if r is not None: return r
    aa = arr_axes(t); sel = [slice(None)]*t.arr.ndim; axes = []
    for k, a in enumerate(t.axes):
        i = idx[k] if k < len(idx) else slice(None)
        if isinstance(i, slice) and hasattr(i.stop, 'rec') and i.start in (None, 0) and i.step is None:
            from .mps import index_select
            if any(not isinstance(j, slice) for j in idx[:k]): raise Unsupported('mixed index')
            t2 = index_select(_I(ctx), t, k, i.stop)
            return getitem(ctx, t2, tuple(slice(None) if q == k else j for q, j in enumerate(idx)))
        if isinstance(i, slice) and i.step is not None and t.ndim() == 2 and not t.is_small():
            r = strided(ctx, t, k, i)
            if r is None: raise Unsupported('strided slice of a matrix')
            return getitem(ctx, r, tuple(slice(None) if q == k else j for q, j in enumerate(idx)))
        if isinstance(i, SL) or type(i).__name__ == 'VecT' and getattr(i, 'ilist', None) is not None:
            from .torchmod import grid_of
            g = grid_of(i if isinstance(i, SL) else i.ilist)
            if g is None: raise Unsupported('index list')
            from .dense import select_bit
            if any(not (isinstance(j, slice) and j == slice(None)) for q, j in enumerate(idx) if q != k): raise Unsupported('mixed index')
            r = select_bit(_I(ctx), t, k, g)
            if r is None: raise Unsupported('index vector')
            return r
        if getattr(i, 'grid', None) is not None:
            from .dense import select_bit
            if any(not (isinstance(j, slice) and j == slice(None)) for q, j in enumerate(idx) if q != k): raise Unsupported('mixed index')
            r = select_bit(_I(ctx), t, k, i.grid)
            if r is None: raise Unsupported('index vector')
            return r
        if isinstance(i, slice) and i == slice(None): axes.append(a); continue
        con = [f for f in a if not isinstance(f, B)]
        if isinstance(i, int) and len(con) == len(a):
            n = int(np.prod(con)) if con else 1; i = neg_idx(ctx, i, n)
            mi = np.unravel_index(i, con) if con else ()
            for p, m in zip(aa[k], mi): sel[p] = int(m)
            continue
        if isinstance(i, slice) and len(a) >= 1 and not isinstance(a[0], B) and i.step is None:
            # slice along the leading concrete factor
            blk = Dim(1)
            for f in a[1:]: blk = blk*(f.d if isinstance(f, B) else f)
            lo, hi = blk_no(ctx, i.start, blk, 0, a[0]), blk_no(ctx, i.stop, blk, a[0], a[0])
            if lo is not None and hi is not None and 0 <= lo <= hi <= a[0]:
                sel[aa[k][0]] = slice(lo, hi); axes.append([hi-lo]+a[1:]); continue
        raise Unsupported(f'index {i} of an axis {a}')
    arr = t.arr[tuple(sel)]
    if not isinstance(arr, np.ndarray): q = oarr(()); q[()] = arr; arr = q
    return T(arr, axes, t.tok)
def strided(ctx, t, k, s):
    """rows (columns) s.start, s.start + m, ..: those whose low digit in base m is s.start, 0 <= s.start < m, m a divisor"""
    from .torchmod import dim_int, eye_of
    from .dense import exponent
    from .dense import qbits
    m = as_nc(t); st = s.step; lo = 0 if s.start is None else s.start
    if m is None or s.stop is not None: return None
    e = simp(st.e) if isinstance(st, Dim) and st.k == 1 and not st.b else exponent(st) if is_int(st) else None
    N = qbits((m.r, m.c)[k])
    if e is None or N is None or ctx.valid(z3.And(z(e) >= 0, z(e) <= z(N))) is not True: return None
    B_ = Dim.pow2(e); A_ = Dim.pow2(simp(z(N)-z(e)))
    if ctx.valid(z3.And(z(lo) >= 0, z(lo) < z(dim_int(ctx, B_)))) is not True: return None
    I = _I(ctx); row = getitem(ctx, eye_of(I, B_), lo) if B_.const() is None else None
    if row is None: return None
    E = kron(ctx, eye_of(I, A_), row)
    return matmul(ctx, E, t) if k == 0 else matmul(ctx, t, permute(ctx, E, [1, 0]))
def unit_row(ctx, t, i):
    """row i of an identity matrix"""
    m = as_nc(t)
    if m is None or len(m.t) != 1 or m.t[0][1] or not isinstance(m.r, Dim) or m.r.const() is not None: return None
    from .torchmod import dim_int
    from .vals import z, simp
    n = dim_int(ctx, m.r)
    if ctx.valid(z3.And(z(i) >= 0, z(i) < n)) is not True:
        if not ctx.decide(z3.And(z(i) >= -n, z(i) < n)): raise Exc('IndexError', 'index out of range')
        if ctx.decide(z(i) < 0): i = simp(z(i)+n)
    from .nc import NC, Op
    return T(oscal(NC([(m.t[0][0], (Op('unit', (i,), m.r, Dim(1), real=True),))], m.r, Dim(1))), [[B(m.r, 'R')]])
def matrix_line(ctx, t, q, i):
    """row i (q = 0) or column i (q = 1) of a matrix of symbolic size"""
    m = as_nc(t)
    if m is None or any(not isinstance(d, Dim) or d.const() is not None for d in (m.r, m.c)): return None
    from .torchmod import dim_int
    from .vals import z, simp
    from .nc import NC, Op, mul, transpose
    d = (m.r, m.c)[q]; n = dim_int(ctx, d)
    if ctx.valid(z3.And(z(i) >= 0, z(i) < n)) is not True:
        if not ctx.decide(z3.And(z(i) >= -n, z(i) < n)): raise Exc('IndexError', 'index out of range')
        if ctx.decide(z(i) < 0): i = simp(z(i)+n)
    if q == 0: m = transpose(m)
    v = mul(ctx, m, NC([(P.const(1), (Op('unit', (i,), d, Dim(1), real=True),))], d, Dim(1)))
    return T(oscal(v), [[B(v.r, 'R')]], t.tok)
class _I:
    def __init__(s, ctx): s.ctx = ctx
def _toint(i):
    if isinstance(i, P):
        c = i.cval()
        if c is None or any(c[1:]) or c[0].denominator != 1: raise Unsupported('scalar index')
        return int(c[0])
    return i
def blk_no(ctx, v, blk, dflt, n):
    if v is None: return dflt
    if isinstance(v, int) and v == 0: return 0
    for k in range(n+1):
        if k and isinstance(v, (int, Dim)) and dim_eq(ctx, Dim.of(v), blk*k) is True: return k
    return None
def cat(ctx, ts, dim):
    if not ts: raise Exc('RuntimeError', 'expected a non-empty list of tensors')
    ts = [t.chk() for t in ts]
    nd = ts[0].ndim(); dim = axis_no(dim, nd)
    if all(t.is_small() for t in ts):
        try: return T(np.concatenate([t.arr for t in ts], axis=dim))
        except ValueError as e: raise Exc('RuntimeError', f'cat: {e}')
    if any(t.is_small() for t in ts): raise Unsupported('cat of small and bulk tensors')
    if len(ts) == 1: return ts[0]
    base = [t.axes for t in ts]
    t0 = ts[0]
    al = [t0] + [same_struct(ctx, t0, t)[1] for t in ts[1:]]
    pos = sum(1 for a in t0.axes[:dim] for f in a if not isinstance(f, B))
    arr = np.stack([t.arr for t in al], axis=pos)
    axes = [list(a) for a in t0.axes]; axes[dim] = [len(ts)] + axes[dim]
    return T(arr, axes)
def stack(ctx, ts, dim=0):
    return cat(ctx, [unsqueeze(ctx, t if isinstance(t, T) else small(t), dim) for t in ts], dim)
def chunk(ctx, t, k, dim):
    t.chk(); dim = axis_no(dim, t.ndim())
    if not isinstance(k, int): raise Unsupported('symbolic number of chunks')
    if t.is_small():
        n = t.arr.shape[dim]; sz = -(-n//k)
        return [T(x, tok=t.tok) for x in np.split(t.arr, list(range(sz, n, sz)), axis=dim)]
    a = t.axes[dim]; aa = arr_axes(t)
    a1 = [f for f in a if isinstance(f, B) or f != 1]
    if a1 != a: t = T(t.arr.reshape([f for x in (t.axes[:dim]+[a1]+t.axes[dim+1:]) for f in x if not isinstance(f, B)]), t.axes[:dim]+[a1]+t.axes[dim+1:], t.tok); a = a1; aa = arr_axes(t)
    if a and not isinstance(a[0], B) and a[0] % k == 0:
        p = aa[dim][0]
        if a[0] == k:
            axes = t.axes[:dim]+[a[1:]]+t.axes[dim+1:]
            return [T(t.arr.take(i, axis=p), axes, t.tok) for i in range(k)]
        m = a[0]//k; axes = t.axes[:dim]+[[m]+a[1:]]+t.axes[dim+1:]
        return [T(t.arr.take(range(i*m, i*m+m), axis=p), axes, t.tok) for i in range(k)]
    if a and isinstance(a[0], B) and k == 2 and len(a) == 1:
        d = a[0].d
        if ctx.valid(z(d.e) >= 1) is not True:
            if not ctx.decide(z(d.e) >= 1): raise Unsupported('chunk of a one-column axis')
        nd = d.div(2); axes = t.axes[:dim]+[[B(nd, a[0].tag)] if nd.const() != 1 else []]+t.axes[dim+1:]
        return [T(mapent(t, lambda v: split_nc(v, a[0].tag, b, nd)), axes, t.tok) for b in range(2)]
    raise Unsupported(f'chunk of {t.shape()} along {dim}')
def split_nc(v, tag, b, nd):
    """block b (leading qubit fixed to b) of the row/column space of an NC matrix"""
    out = []
    for c, w in v.t:
        w = list(w)
        if not w: raise Unsupported('splitting an identity')
        i = 0 if tag == 'R' else -1
        o = w[i]
        if not isinstance(o, Op): raise Unsupported('splitting a structured operator')
        w[i] = split_op(o, tag, b, nd); out.append((c, tuple(w)))
    return NC(out, nd if tag == 'R' else v.r, v.c if tag == 'R' else nd)
def split_op(o, tag, b, nd):
    # |b on the R side of o; recorded in the atom's own (unflipped) orientation
    side = tag if not o.tr else ('C' if tag == 'R' else 'R')
    n = Op(o.name+'|'+side, tuple(o.idx)+(b,), o.r, o.c, o.conj, o.tr, False, False, o.real)
    if tag == 'R': n.r = nd
    else: n.c = nd
    return n
def factors_match(ctx, f, g):
    """common refinement of two factor lists with equal total dimension -> (f', g') both lists of equal factors"""
    f = [x for x in f if isinstance(x, B) or x != 1]; g = [x for x in g if isinstance(x, B) or x != 1]
    out = []
    f, g = list(f), list(g)
    while f and g:
        x, y = f.pop(0), g.pop(0)
        if isinstance(x, B) and isinstance(y, B):
            e = dim_eq(ctx, x.d, y.d)
            if e is False: raise Exc('RuntimeError', f'sizes {x.d} and {y.d} do not match')
            if e is None: raise Unsupported(f'dimensions {x.d} and {y.d} not known equal')
            out.append((x, y))
        elif isinstance(x, B) or isinstance(y, B): raise Unsupported('contracting a symbolic with a concrete factor')
        elif x == y: out.append((x, y))
        elif x > y and x % y == 0: out.append((y, y)); f.insert(0, x//y)
        elif y > x and y % x == 0: out.append((x, x)); g.insert(0, y//x)
        else: raise Exc('RuntimeError', 'sizes do not match')
    if f or g: raise Exc('RuntimeError', 'contracted sizes do not match')
    return out
def contract(ctx, A, la, Bt, lb, out):
    """einsum of two tensors with axis labels la, lb -> axes order out"""
    A, Bt = A.chk(), Bt.chk()
    if A.is_small() and Bt.is_small():
        names = {l: chr(97+i) for i, l in enumerate(dict.fromkeys(la+lb))}
        x, y = A.arr, Bt.arr
        # numpy einsum on objects: do by hand through tensordot-like loops
        dims = {}
        for l, n in list(zip(la, x.shape))+list(zip(lb, y.shape)):
            if l in dims and dims[l] != n:
                if 1 in (dims[l], n): dims[l] = max(dims[l], n); continue
                raise Exc('RuntimeError', 'contracted sizes do not match')
            dims[l] = n
        summed = [l for l in dims if l not in out]
        r = oarr([dims[l] for l in out])
        for ix in np.ndindex(*r.shape):
            env = dict(zip(out, ix)); acc = P()
            for sx in itertools.product(*[range(dims[l]) for l in summed]):
                env.update(zip(summed, sx))
                u = x[tuple(env[l] if x.shape[i] != 1 else 0 for i, l in enumerate(la))]
                if u.is_zero(): continue
                v = y[tuple(env[l] if y.shape[i] != 1 else 0 for i, l in enumerate(lb))]
                if v.is_zero(): continue
                acc = acc + u*v
            r[ix] = acc
        return T(r)
    fa, fb = dict(zip(la, [list(a) for a in lift(A)])), dict(zip(lb, [list(a) for a in lift(Bt)]))
    shared = [l for l in la if l in lb]
    # refine shared labels to common factors
    ref = {}
    for l in shared:
        if axdim(fa[l]) == 1 or axdim(fb[l]) == 1:
            one = 'a' if axdim(fa[l]) == 1 else 'b'
            if axdim(fa[l]) == 1 and axdim(fb[l]) == 1: ref[l] = []; fa[l] = fb[l] = []; continue
            if l not in out: raise Exc('RuntimeError', 'contracted sizes do not match')
            if one == 'a': fa[l] = []; ref[l] = ('b',)
            else: fb[l] = []; ref[l] = ('a',)
            continue
        ref[l] = factors_match(ctx, fa[l], fb[l])
        fa[l] = [x for x, _ in ref[l]]; fb[l] = [y for _, y in ref[l]]
    def relab(t, labs, f, pre):
        arr = t.arr.reshape([x for l in labs for x in f[l] if not isinstance(x, B)])
        names = []; 
        for l in labs:
            for j, x in enumerate(f[l]):
                if not isinstance(x, B): names.append((l, j) if l in ref and isinstance(ref[l], list) else (l, j, 'one') if l in ref else (l, j))
        return arr, names
    xa, na = relab(A, la, fa, 'a'); xb, nb = relab(Bt, lb, fb, 'b')
    # bulk bookkeeping
    ba = {(l, j): x for l in la for j, x in enumerate(fa[l]) if isinstance(x, B)}
    bb = {(l, j): x for l in lb for j, x in enumerate(fb[l]) if isinstance(x, B)}
    con = [k for k in ba if k in bb and k[0] not in out]
    both = [k for k in ba if k in bb and k[0] in out]
    if both: raise Unsupported('elementwise product along a symbolic axis')
    if len(con) > 1 and not len(con) == 2: raise Unsupported('contraction')
    freea = [k for k in ba if k not in bb]; freeb = [k for k in bb if k not in ba]
    for k in freea+freeb:
        if k[0] not in out: raise Unsupported('summing a symbolic axis')
    if len(con) == 2:   # trace-like full contraction: sum_ab A_ab B_ab = tr(A^T B)
        x, y = as_nc(A), as_nc(Bt)
        if x is None or y is None or len(la) != 2 or len(lb) != 2 or len(set(la)) != 2 or set(la) != set(lb) or out: raise Unsupported('double symbolic contraction')
        from .had import tr
        return tr(ctx, N_.mul(ctx, x, y if la[0] == lb[1] else N_.transpose(y)))
    if len(freea) + len(freeb) > 2: raise Unsupported('more than two symbolic axes')
    hasa, hasb = any(isinstance(v, NC) for v in xa.reshape(-1)), any(isinstance(v, NC) for v in xb.reshape(-1))
    def ea(v):
        if not hasa: return v
        if con:
            if ba[con[0]].tag == 'R': return N_.transpose(v)
            return v
        if len(freea) == 1 and len(ba) == 1:   # outer product: column
            return N_.transpose(v) if ba[freea[0]].tag == 'C' else v
        return v
    def eb(v):
        if not hasb: return v
        if con: return N_.transpose(v) if bb[con[0]].tag == 'C' else v
        if len(freeb) == 1 and len(bb) == 1: return N_.transpose(v) if bb[freeb[0]].tag == 'R' else v
        return v
    dims = {}
    for nm, n in list(zip(na, xa.shape))+list(zip(nb, xb.shape)): dims[nm] = n
    onames = []; axes = []
    for l in out:
        if l in fa and (l not in fb or fa[l]): src, who = fa[l], 'a'
        else: src, who = fb[l], 'b'
        ax = []
        for j, x in enumerate(src):
            if isinstance(x, B):
                if hasa and hasb and (con or (freea and freeb)):
                    tag = 'R' if (l, j) in freea else 'C'
                else: tag = x.tag
                ax.append(B(x.d, tag))
            else:
                nm = (l, j) if not (l in ref and not isinstance(ref[l], list)) else (l, j, 'one')
                onames.append(nm); ax.append(x)
        axes.append(ax)
    summed = [n for n in dims if n not in onames]
    cache_a, cache_b = {}, {}
    r = oarr([dims[n] for n in onames])
    anyb = any(isinstance(x, B) for a in axes for x in a)
    for ix in np.ndindex(*r.shape):
        env = dict(zip(onames, ix)); acc = None
        for sx in itertools.product(*[range(dims[n]) for n in summed]):
            env.update(zip(summed, sx))
            ka = tuple(env[n] for n in na); kb = tuple(env[n] for n in nb)
            u, v = xa[ka], xb[kb]
            if (isinstance(u, P) and u.is_zero()) or (isinstance(v, P) and v.is_zero()): continue
            if not hasa: term = N_.scale(ctx, u, v)
            elif not hasb: term = N_.scale(ctx, v, u)
            else:
                if ka not in cache_a: cache_a[ka] = ea(u)
                if kb not in cache_b: cache_b[kb] = eb(v)
                term = N_.mul(ctx, cache_a[ka], cache_b[kb])
            acc = term if acc is None else N_.add(ctx, acc, term)
        if acc is None:
            Rd = [x.d for a in axes for x in a if isinstance(x, B) and x.tag == 'R']; Cd = [x.d for a in axes for x in a if isinstance(x, B) and x.tag == 'C']
            acc = N_.nc_zero(Rd[0] if Rd else Dim(1), Cd[0] if Cd else Dim(1))
        r[ix] = acc
    if not anyb:
        # 1x1 results: scalars as opaque values
        return T(r, [[x for x in a] for a in axes])
    return T(r, axes)
def matmul(ctx, A, Bt):
    if isinstance(A, StateT): return A.rmul(ctx, Bt)
    if isinstance(Bt, StateT): return Bt.lmul(ctx, A)
    if not isinstance(A, T) or not isinstance(Bt, T): raise Exc('TypeError', 'matmul of non-tensors')
    na, nb = A.ndim(), Bt.ndim()
    if na == nb == 2 and A.is_small() != Bt.is_small():
        sm, bk = (A, Bt) if A.is_small() else (Bt, A)
        from .dense import as_qnc
        x = as_qnc(bk)
        if x is not None and sm.arr.shape[0] == sm.arr.shape[1] and dim_eq(ctx, x.r if A.is_small() else x.c, sm.arr.shape[0]) is True:
            y = as_qnc(sm)
            if y is not None:
                y = NC(y.t, Dim.of(x.r if A.is_small() else x.c), Dim.of(x.r if A.is_small() else x.c))
                return dense(N_.mul(ctx, y, x) if A.is_small() else N_.mul(ctx, x, y))
    if na == 0 or nb == 0: raise Exc('RuntimeError', 'matmul of 0-d tensor')
    la = ['k'] if na == 1 else [f'x{i}' for i in range(na-2, 0, -1)] + ['i', 'k']
    lb = ['k'] if nb == 1 else [f'x{i}' for i in range(nb-2, 0, -1)] + ['k', 'j']
    m = max(na, nb)-2
    out = [f'x{i}' for i in range(m, 0, -1)] if m > 0 else []
    if na > 1: out.append('i')
    if nb > 1: out.append('j')
    return contract(ctx, A, la, Bt, lb, out)
def einsum(ctx, spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec; ls = ins.replace(',', ''); out = ''.join(sorted(l for l in set(ls) if ls.count(l) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops): raise Exc('RuntimeError', 'einsum: operand count')
    if '.' in spec: raise Unsupported('einsum ellipsis')
    for i, o in zip(ins, ops):
        if isinstance(o, StateT): raise Unsupported('einsum on rank-N tensors')
        if o.ndim() != len(i): raise Exc('RuntimeError', 'einsum: rank mismatch')
    if len(ops) == 1:
        if sorted(ins[0]) == sorted(out) and len(set(out)) == len(out): return permute(ctx, ops[0], [ins[0].index(l) for l in out])
        raise Unsupported('einsum trace')
    cur, lab = ops[0], list(ins[0])
    for n, (o, l) in enumerate(zip(ops[1:], ins[1:])):
        later = set(''.join(ins[n+2:])) | set(out)
        keep = [x for x in dict.fromkeys(lab+list(l)) if x in later]
        if n == len(ops)-2: keep = list(out)
        cur = contract(ctx, cur, lab, o, list(l), keep); lab = keep
    return cur
def kron(ctx, a, b):
    if not isinstance(a, T) or not isinstance(b, T): raise Unsupported('kron')
    a.chk(); b.chk()
    if a.is_small() and b.is_small():
        x, y = a.arr, b.arr; n = max(x.ndim, y.ndim)
        x = x.reshape((1,)*(n-x.ndim)+x.shape); y = y.reshape((1,)*(n-y.ndim)+y.shape)
        r = oarr([p*q for p, q in zip(x.shape, y.shape)])
        for i in np.ndindex(*x.shape):
            u = x[i]
            for j in np.ndindex(*y.shape):
                r[tuple(p*q+t for p, q, t in zip(i, y.shape, j))] = u*y[j]
        return T(r)
    from .dense import kron_dense
    return kron_dense(ctx, a, b)
# ------------------------------------------------------------------ rank-N states
class StateT:
    """axes: positions 0..n-1 (n symbolic). lab(p): qubit label of axis p, -1 = batch. merged: the last `merged` axes are
    fused into one axis of size 2^merged followed by `ones` axes of size one."""
    def __init__(s, n, lab, content, merged=0, ones=0, batch=False, tok=None, mat=None, conj=False, flat=None):
        s.flat = flat
        s.n, s.lab, s.content, s.merged, s.ones, s.batch, s.tok, s.mat, s.conj = simp(n), lab, content, merged, ones, batch, tok or Tok(), mat, conj
    def label(s, p): return p if s.lab is None else s.lab(p)
    def with_(s, **k):
        d = dict(n=s.n, lab=s.lab, content=s.content, merged=s.merged, ones=s.ones, batch=s.batch, tok=s.tok, mat=s.mat, conj=s.conj, flat=s.flat); d.update(k)
        return StateT(**d)
    def rank(s):
        if s.flat: return 2
        return simp(s.n - (s.merged-1 if s.merged else 0) + s.ones)
    def shape_list(s, I):
        """shape as SL: 2 everywhere except the merged/one axes (and the batch axis, an opaque dim)"""
        base = s.n - s.merged
        bd = s.bdim()
        def at(p):
            if not isinstance(p, int) or True:
                conds = []
            v = z3.IntVal(2)
            if s.merged: v = z3.If(z(p) == z(base), z3.IntVal(2**s.merged), v)
            if s.ones: v = z3.If(z(p) >= z(base+(1 if s.merged else 0)), z3.IntVal(1), v)
            if s.batch: v = z3.If(z(p) == z(0), bd, v) if s.lab is None or True else v
            return simp(v)
        return SL(s.rank(), at, kind='tuple')
    def bdim(s): return z3.Int('batchsize')
    def permute(s, ctx, perm):
        if s.flat and not isinstance(perm, SL) and list(perm) in ([1, 0], [1, -2], [-1, 0], [-1, -2]): return s.with_(flat=(('head' if s.flat[0] == 'tail' else 'tail'), s.flat[1]), lab=rotated(s))
        if s.merged or s.ones or s.flat: raise Unsupported('permuting a partly merged state tensor')
        if not isinstance(perm, SL):
            perm = SL(len(perm), (lambda l: (lambda j: _sel(l, j)))(list(perm)))
        e = perm.n == s.n
        if not (e if isinstance(e, bool) else ctx.decide(e)): raise Exc('RuntimeError', 'permute: wrong number of axes')
        # must be a permutation: every entry in range and injective
        a, b = ctx.var('pa'), ctx.var('pb')
        n = z(s.n)
        from .perm import term
        tm = term(ctx, perm)
        if tm is None: tm = lambda p: perm.get(ctx, p)
        va, vb = z(tm(a)), z(tm(b))
        ok = ctx.valid(z3.Implies(z3.And(a >= 0, a < n), z3.And(va >= 0, va < n)))
        inj = ctx.valid(z3.Implies(z3.And(a >= 0, a < b, b < n), va != vb))
        if ok is False or inj is False:
            # some entry out of range (negative entries count from the end) or repeated: an error for that input
            raise PermBad()
        if ok is None or inj is None: raise Unsupported('cannot establish that the list is a permutation')
        old = s.label
        return s.with_(lab=lambda p: simp(old(simp(z(tm(p))))))
    def unsqueeze(s, k):
        if k == -1: return s.with_(ones=s.ones+1)
        raise Unsupported('unsqueeze of a rank-N tensor')
    def squeeze(s, k):
        if s.ones and k == -1: return s.with_(ones=s.ones-1)
        raise Unsupported('squeeze of a rank-N tensor')
    def view(s, ctx, dims):
        """merge trailing axes / restore [2]*n"""
        if not isinstance(dims, SL): dims = SL(len(dims), (lambda l: (lambda j: _sel(l, j)))(list(dims)))
        n = z(s.n)
        if isinstance(dims.n, int) and dims.n == 2 and not s.merged and not s.ones and not s.flat:
            f = s.flatten2(ctx, [dims.get(ctx, i) for i in range(2)])
            if f is not None: return f
        if (dims.n == 1 or dims.n == 2) and not s.merged and not s.flat:
            d = [dims.get(ctx, i) for i in range(dims.n)]
            return s.to_dense(ctx, d)
        j = ctx.var('vj')
        # full restoration?
        e = dims.n == s.n
        if (e if isinstance(e, bool) else ctx.valid(e) is True):
            v = z(dims.get(ctx, j)); want = z3.If(j == 0, s.bdim(), 2) if s.batch else z3.IntVal(2)
            if ctx.valid(z3.Implies(z3.And(j >= 0, j < n), v == want)) is True:
                if s.batch and ctx.valid(z(s.label(0)) == -1) is not True: raise Unsupported('batch axis not leading')
                return s.with_(merged=0, ones=0, flat=None)
        if s.flat: raise Unsupported('reshape of a rank-N tensor')
        for m in (2, 3, 4):
            for o in (m-1, m-2, 0):
                if o < 0: continue
                r = simp(s.n - (m-1) + o)
                e = dims.n == r
                if not (e if isinstance(e, bool) else ctx.valid(e) is True): continue
                v = z(dims.get(ctx, j)); rr = z(r)
                base = z(s.n) - m
                want = z3.If(j < base, z3.If(j == 0, s.bdim(), 2) if s.batch else z3.IntVal(2), z3.If(j == base, 2**m, 1))
                if ctx.valid(z3.Implies(z3.And(j >= 0, j < rr), v == want)) is True and ctx.valid(n >= m) is True:
                    if s.merged: raise Unsupported('re-merging')
                    return s.with_(merged=m, ones=o)
        raise Unsupported('reshape of a rank-N tensor')
    def flatten2(s, ctx, d):
        """the last m axes as columns (all others as rows), or the first m axes as rows (all others as columns)"""
        def log(x):
            x = x if isinstance(x, int) else None
            return x.bit_length()-1 if x and x >= 2 and x & (x-1) == 0 else None
        for kind, big, sm in (('tail', d[0], d[1]), ('head', d[1], d[0])):
            m = log(sm)
            if m is None or s.batch and kind == 'head': continue
            if ctx.valid(z(s.n) >= m) is not True: continue
            if isinstance(big, int) and big == -1 or not s.batch and not isinstance(big, int) and dim_eq(ctx, big, Dim.pow2(simp(z(s.n)-m))) is True: return s.with_(flat=(kind, m))
        return None
    def to_dense(s, ctx, d):
        if s.merged or s.ones or s.batch: raise Unsupported('flattening a merged/batched tensor')
        if s.lab is not None:
            p = ctx.var('p')
            if ctx.valid(z3.Implies(z3.And(p >= 0, p < z(s.n)), z(s.label(p)) == p)) is not True: raise Unsupported('flattening a permuted state')
        D = Dim.pow2(s.n); col = s.content
        if len(d) == 1 and (d[0] == -1 if isinstance(d[0], int) else dim_eq(ctx, d[0], D) is True):
            a = oarr(()); a[()] = col; return T(a, [[B(D, 'R')]], s.tok)
        if len(d) == 2:
            if d[0] == 1 if isinstance(d[0], int) else False: return dense(N_.transpose(col), s.tok)
            if isinstance(d[1], int) and d[1] == 1: return dense(col, s.tok)
        raise Unsupported('reshape of a rank-N tensor')
    def lmul(s, ctx, M):
        """small matrix @ tensor: contracts axis -2"""
        if not (isinstance(M, T) and M.is_small() and M.arr.ndim == 2): raise Unsupported('matrix on a rank-N tensor')
        r, c = M.arr.shape
        if s.flat:
            kind, m = s.flat
            if kind != 'head' or r != c: raise Unsupported('matrix product on this layout')
            if c != 2**m: raise Exc('RuntimeError', f'matmul: size {c} against {2**m}')
            return s.apply(ctx, M, [simp(s.label(i)) for i in range(m)])
        m = s.merged or 1
        if s.ones != 1: 
            # axis -2 is then an ordinary qubit axis (or the merged axis is last)
            if s.ones == 0 and not s.merged:
                # contracts the last-but-one axis
                if c != 2: raise Exc('RuntimeError', 'sizes do not match')
                l = [simp(s.label(s.n-2))]
                return s.apply(ctx, M, l)
            raise Unsupported('matrix product on this layout')
        if c != 2**m or r != c: raise Exc('RuntimeError', f'matmul: size {c} against {2**m}')
        labs = [simp(s.label(simp(s.n-m+i))) for i in range(m)]
        return s.apply(ctx, M, labs)
    def rmul(s, ctx, M):
        """tensor (last m axes merged, all others merged before them) @ small matrix"""
        if not s.flat or s.flat[0] != 'tail' or not (isinstance(M, T) and M.is_small() and M.arr.ndim == 2) or M.arr.shape[0] != M.arr.shape[1]: raise Unsupported('state tensor on the left of @')
        m = s.flat[1]
        if M.arr.shape[0] != 2**m: raise Exc('RuntimeError', f'matmul: size {2**m} against {M.arr.shape[0]}')
        return s.apply(ctx, small(M.arr.T), [simp(s.label(simp(z(s.n)-m+i))) for i in range(m)])
    def apply(s, ctx, M, labs):
        if s.batch:
            for l in labs:
                if ctx.valid(z(l) != -1) is not True: raise Unsupported('matrix product along the batch axis')
        mat = {(i, j): M.arr[i, j] for i in range(M.arr.shape[0]) for j in range(M.arr.shape[1]) if not M.arr[i, j].is_zero()}
        nq = simp(s.n-1) if s.batch else s.n
        L = N_.Loc(nq, tuple(labs), mat)
        return s.with_(content=N_.simp(ctx, NC([(c, (L,)+tuple(w)) for c, w in s.content.t], s.content.r, s.content.c)), tok=Tok())
def rotated(s):
    """labels after the transposition of a tensor flattened to two axes"""
    kind, m = s.flat; old = s.label; n = z(s.n)
    if kind == 'tail': return lambda p: simp(z3.If(z(p) < m, z(old(simp(n-m+z(p)))), z(old(simp(z(p)-m)))))
    return lambda p: simp(z3.If(z(p) < n-m, z(old(simp(z(p)+m))), z(old(simp(z(p)-(n-m))))))
class PermBad(Exception):
    """the axis list is not a permutation for some input on this path"""
def _sel(l, j):
    if isinstance(j, int): return l[j] if -len(l) <= j < len(l) or not l else l[-1]
    v = z(l[-1]) if l else z3.IntVal(0)
    for i in range(len(l)-2, -1, -1): v = z3.If(j == i, z(l[i]), v)
    return v
def state_binop(ctx, op, a, b):
    if isinstance(a, StateT) and not isinstance(b, StateT):
        c = b if is_scalar(b) else b.arr.reshape(())[()] if isinstance(b, T) and b.is_small() and b.arr.size == 1 else None
        if c is None: raise Unsupported('state arithmetic')
        c = P.const(c)
        if op in '+-' and c.is_zero(): return a.with_(tok=Tok())
        if op == '*': return a.with_(content=N_.scale(ctx, c, a.content), tok=Tok())
        if op == '/': return a.with_(content=N_.scale(ctx, c.inv(), a.content), tok=Tok())
    if isinstance(b, StateT) and not isinstance(a, StateT) and op in '+*': return state_binop(ctx, op, b, a)
    if isinstance(a, StateT) and isinstance(b, StateT) and op in '+-' and not (a.merged or b.merged or a.ones or b.ones):
        p = ctx.var('p')
        if ctx.valid(z(a.n) == z(b.n)) is True and ctx.valid(z3.Implies(z3.And(p >= 0, p < z(a.n)), z(a.label(p)) == z(b.label(p)))) is True:
            y = b.content if op == '+' else N_.scale(ctx, P.const(-1), b.content)
            return a.with_(content=N_.add(ctx, a.content, y), tok=Tok())
    raise Unsupported('state arithmetic')
