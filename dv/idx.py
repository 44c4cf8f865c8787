"""Re-indexing of a tensor whose axes are products of several symbolic legs (a density matrix during its conversion): chunk,
cat, slices, views and permutations only rename positions. Values are known per assignment of the concrete legs."""
import numpy as np, z3
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, B, oarr
from .nc import NC, Op
from .interp import Opaque, BMeth
class Leg:
    def __init__(s, id, d): s.id, s.d = id, d
    def __repr__(s): return f'{s.id}:{s.d}'
def one(d): return (d if isinstance(d, int) else Dim.of(d).const()) == 1
def legs(*ls): return [l for l in ls if not one(l.d)]
def prod(ls):
    d = Dim(1)
    for l in ls: d = d*Dim.of(l.d)
    c = d.const(); return d if c is None else c
class Source:
    """entries: block(values of the concrete legs, names of the row legs, names of the column legs) -> matrix"""
    def __init__(s, block): s.block = block
def named(nm, conc, rows, cols):
    """a free tensor: concrete legs `conc` (names), matrix index `rows` x `cols` in this order"""
    def block(v, rl, cl, rd, cd):
        lay = () if (rl, cl) == (tuple(rows), tuple(cols)) else ('|'.join([','.join(rl), ','.join(cl)]),)
        return N_.nc_op(Op(nm, tuple(v[c] for c in conc if c in v)+lay, rd, cd))
    return Source(block)
class IdxT(Opaque):
    def __init__(s, src, axes, fix=None, tok=None): s.src, s.axes, s.fix, s.tok = src, axes, fix or {}, tok or TT.Tok()
    def re(s, axes, fix=None): return IdxT(s.src, axes, s.fix if fix is None else fix, s.tok)
    def pytype(s, I): return TypeTok('Tensor')
    def shape(s): return tuple(prod(a) for a in s.axes)
    def ndim(s): return len(s.axes)
    def form_(s): return ('last',)
    def parts_(s): return list(s.fix.values())
    def attr(s, I, a):
        if a == 'shape': return s.shape()
        if a == 'ndim': return len(s.axes)
        if a == 'T' and len(s.axes) == 2: return s.re(s.axes[::-1])
        if a in ('dtype', 'device'): return a+':?'
        return BMeth(s, a)
    def ax(s, d):
        if not isinstance(d, int): raise Unsupported('symbolic axis')
        if not -len(s.axes) <= d < len(s.axes): raise Exc('IndexError', 'axis out of range')
        return d % len(s.axes)
    def method(s, I, name, a, k):
        ctx = I.ctx; f = lambda i, n, *d: a[i] if len(a) > i else k[n] if n in k else d[0] if d else _un(f'{name}: missing {n}')
        if name in ('view', 'reshape'):
            sz = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple, SL)) else a
            if isinstance(sz, SL) and not isinstance(sz.n, int): return s.bits(I, sz)
            return s.regroup(ctx, [TT._toint(x.arr[()]) if isinstance(x, T) else x for x in sz])
        if name in ('contiguous', 'detach', 'cpu'): return s
        if name == 'clone': return IdxT(s.src, s.axes, s.fix)
        if name == 'size': return s.shape()[s.ax(f(0, 'dim'))] if a or k else s.shape()
        if name in ('dim', 'ndimension'): return len(s.axes)
        if name == '__len__': return s.shape()[0]
        if name == 'permute':
            p = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a; p = [s.ax(x) for x in p]
            if sorted(p) != list(range(len(s.axes))): raise Exc('RuntimeError', 'permute: axes')
            return s.re([s.axes[x] for x in p])
        if name in ('transpose', 'swapaxes'):
            i, j = s.ax(f(0, 'dim0')), s.ax(f(1, 'dim1')); x = list(s.axes); x[i], x[j] = x[j], x[i]; return s.re(x)
        if name == 't' and len(s.axes) == 2: return s.re(s.axes[::-1])
        if name == 'unsqueeze':
            d = f(0, 'dim'); n = len(s.axes)
            if not isinstance(d, int) or not -n-1 <= d <= n: raise Exc('IndexError', 'unsqueeze')
            x = list(s.axes); x.insert(d % (n+1), []); return s.re(x)
        if name == 'squeeze':
            if a or k:
                d = s.ax(f(0, 'dim')); return s.re(s.axes[:d]+s.axes[d+1:]) if s.is1(ctx, s.axes[d]) else s
            return s.re([x for x in s.axes if not s.is1(ctx, x)])
        if name == 'chunk': return s.chunk(I, f(0, 'chunks'), s.ax(f(1, 'dim', 0)))
        if name == 'cat': return cat(I, a[0], a[1])
        if name == 'cat_sl': return cat_sl(I, a[0], a[1])
        if name == 'flatten' and not a and not k: return s.re([[l for x in s.axes for l in x]])
        if name == '__iter__': raise Unsupported('iteration over a re-indexed tensor')
        t = s.as_T(ctx)
        from . import torchmod
        return torchmod.method(I, t, name, a, k)
    def is1(s, ctx, ls):
        d = prod(ls)
        if isinstance(d, int): return d == 1
        if d.b: return False
        if ctx.valid(z(d.e) >= 1) is True or d.k > 1: return False
        raise Unsupported('axis that may have length one')
    def regroup(s, ctx, sz):
        ls = [l for x in s.axes for l in x]; out = []; i = 0
        def take(want):
            nonlocal i
            got = []; p = Dim(1)
            while dim_eq(ctx, p, Dim.of(want)) is not True:
                if i >= len(ls): return None
                got.append(ls[i]); p = p*Dim.of(ls[i].d); i += 1
            return got
        neg = [j for j, x in enumerate(sz) if isinstance(x, int) and x == -1]
        if len(neg) > 1: raise Exc('RuntimeError', 'only one dimension can be inferred')
        tail = []
        if neg:
            # the axes after -1 are taken from the end
            end = len(ls)
            for want in reversed(sz[neg[0]+1:]):
                got = []; p = Dim(1)
                while dim_eq(ctx, p, Dim.of(want)) is not True:
                    if end == 0: raise Unsupported('view splits a leg')
                    end -= 1; got.insert(0, ls[end]); p = p*Dim.of(ls[end].d)
                tail.insert(0, got)
            head = sz[:neg[0]]
        else: end = len(ls); head = sz
        for want in head:
            g = take(want)
            if g is None: raise Unsupported('view splits a leg')
            out.append(g)
        if neg: out.append(ls[i:end]); out += tail
        elif i != len(ls): raise Unsupported('view of another size')
        if i > end: raise Unsupported('view overlaps')
        return s.re(out)
    def bits(s, I, sz):
        ctx = I.ctx; d = Dim.of(prod([l for x in s.axes for l in x])); j = ctx.var('j')
        if ctx.forall(lambda: ctx.valid(z(sz.get(ctx, j)) == 2) is True, [j >= 0, j < z(sz.n)]) is not True: raise Unsupported('view with sizes other than two')
        if d.b or d.k != 1: raise Unsupported('view of bonds as qubits')
        if ctx.valid(z(d.e) == z(sz.n)) is not True: raise Exc('RuntimeError', 'shape is invalid for input') if ctx.valid(z(d.e) != z(sz.n)) is True else Unsupported('number of qubits')
        return BitsT(s, sz.n)
    def split(s, ctx, d, n):
        """leading legs of axis d whose sizes multiply to n"""
        got = []; p = Dim(1); ls = s.axes[d]
        while dim_eq(ctx, p, Dim.of(n)) is not True:
            if len(got) == len(ls): raise Unsupported('chunks that split a leg')
            p = p*Dim.of(ls[len(got)].d); got.append(ls[len(got)])
        return got, ls[len(got):]
    def at(s, d, got, rest, k):
        """chunk number k"""
        fix = dict(s.fix); q = k
        for i, l in enumerate(reversed(got)):
            if i == len(got)-1: fix[l.id] = simp(z(q)) if z3.is_expr(q) else q
            else:
                if not isinstance(l.d, int): raise Unsupported('chunks over two symbolic legs')
                fix[l.id] = q % l.d if isinstance(q, int) else simp(z(q) % l.d); q = q//l.d if isinstance(q, int) else simp(z(q)/l.d)
        return s.re(s.axes[:d]+[rest]+s.axes[d+1:], fix)
    def chunk(s, I, n, d):
        got, rest = s.split(I.ctx, d, n)
        m = prod(got)
        if isinstance(m, int): return tuple(s.at(d, got, rest, k) for k in range(m))
        from .torchmod import dim_int
        return SL(dim_int(I.ctx, m), lambda k: s.at(d, got, rest, k), kind='tuple')
    def getitem(s, I, i):
        i = i if isinstance(i, tuple) else (i,); r = s; d = 0
        for x in i:
            if x is Ellipsis: raise Unsupported('ellipsis')
            a = r.axes[d]
            if isinstance(x, slice):
                if x == slice(None): d += 1; continue
                if x.step is not None or not a or not isinstance(a[0].d, int): raise Unsupported('slice')
                blk = Dim.of(prod(a[1:])); lo, hi = TT.blk_no(I.ctx, x.start, blk, 0, a[0].d), TT.blk_no(I.ctx, x.stop, blk, a[0].d, a[0].d)
                if lo is None or hi is None or hi-lo != 1: raise Unsupported(f'slice {x} of {a}')
                r = r.re(r.axes[:d]+[a[1:]]+r.axes[d+1:], dict(r.fix, **{a[0].id: lo})); d += 1
            elif isinstance(x, int) and len(a) == 1 and isinstance(a[0].d, int):
                if not -a[0].d <= x < a[0].d: raise Exc('IndexError', 'index out of range')
                r = r.re(r.axes[:d]+r.axes[d+1:], dict(r.fix, **{a[0].id: x % a[0].d}))
            elif isinstance(x, int) and not a and x in (0, -1): r = r.re(r.axes[:d]+r.axes[d+1:])
            else: raise Unsupported('index')
        return r
    def as_T(s, ctx):
        """as a blocked matrix: one symbolic group per side"""
        if any(not isinstance(v, int) for v in s.fix.values()): raise Unsupported('part of a re-indexed tensor')
        if len(s.axes) > 2: raise Unsupported('re-indexed tensor of higher rank')
        ax = []; grp = []; con = []
        for a, tag in zip(s.axes, 'RC'):
            c = [l for l in a if isinstance(l.d, int)]; b = [l for l in a if not isinstance(l.d, int)]
            if a != c+b: raise Unsupported('legs interleaved')
            d = Dim.of(prod(b)); con += c; grp.append((tuple(l.id for l in b), d)); ax.append([l.d for l in c]+([B(d, tag)] if b else []))
        while len(grp) < 2: grp.append(((), Dim(1)))
        arr = oarr(tuple(l.d for l in con))
        for ix in np.ndindex(*arr.shape):
            v = dict(s.fix); v.update({l.id: int(q) for l, q in zip(con, ix)})
            arr[ix] = s.src.block(v, grp[0][0], grp[1][0], grp[0][1], grp[1][1])
        return T(arr, ax, s.tok)
    def binop(s, I, k, a, b):
        if k == 'MatMult' and a is s and isinstance(b, T): return matmul(I, s, b)
        if k in ('Add', 'Sub') and a is s and isinstance(b, (int, float, complex)) and b == 0: return s
        return I.binop_vals(k, a.as_T(I.ctx) if a is s else a, b.as_T(I.ctx) if b is s else b) if hasattr(I, 'binop_vals') else _un(f'operator {k}')
def _un(m): raise Unsupported(m)
class BitsT(Opaque):
    """every leg split into qubits, most significant first: a tensor of n axes of length two"""
    def __init__(s, t, n): s.t, s.n = t, n
    def attr(s, I, a):
        if a == 'shape': return SL(s.n, None, 2, kind='tuple')
        if a == 'ndim': return s.n
        return BMeth(s, a)
    def method(s, I, name, a, k):
        if name in ('contiguous', 'clone', 'detach'): return s
        if name == 'dim': return s.n
        raise Unsupported(f'{name} of a rank-2N tensor')
def same_axes(a, b): return len(a) == len(b) and all([l.id for l in x] == [l.id for l in y] for x, y in zip(a, b))
def fixed_int(ctx, v, d):
    if isinstance(v, int): return v
    for c in range(d):
        if ctx.valid(z(v) == c) is True: return c
    return None
def cat(I, ts, d):
    ctx = I.ctx; ts = list(ts)
    if not all(isinstance(t, IdxT) for t in ts): raise Unsupported('cat of different tensors')
    t0 = ts[0]; d = t0.ax(d)
    if len(ts) == 1: return t0
    if any(t.src is not t0.src or not same_axes(t.axes, t0.axes) or set(t.fix) != set(t0.fix) for t in ts): raise Unsupported('cat of different parts')
    leg = []; fix = {}
    for id in t0.fix:
        D = LEGS[id]
        vs = [fixed_int(ctx, t.fix[id], D) if isinstance(D, int) else t.fix[id] for t in ts]
        if any(v is None for v in vs): raise Unsupported('part of unknown position')
        if all((v is vs[0]) or (isinstance(v, int) and v == vs[0]) or (not isinstance(D, int) and ctx.valid(z(v) == z(vs[0])) is True) for v in vs): fix[id] = vs[0]
        else: leg.append((id, vs))
    if len(leg) != 1: raise Unsupported('cat of parts that are not the parts of one leg')
    id, vs = leg[0]
    if sorted(vs) == list(range(len(vs))) and len(vs) == LEGS[id] and vs != list(range(len(vs))): return flipped(t0, id, vs, fix, d)
    if vs != list(range(len(vs))) or len(vs) != LEGS[id]: raise Unsupported('cat of some parts')
    return t0.re(t0.axes[:d]+[[Leg(id, LEGS[id])]+t0.axes[d]]+t0.axes[d+1:], fix)
def flipped(t, id, vs, fix, d):
    """the parts in another order: the leg's values are renamed"""
    nid = id+'p'+''.join(map(str, vs)); LEGS[nid] = LEGS[id]; old = t.src.block
    def block(v, rl, cl, rd, cd): return old({id if k == nid else k: vs[x] if k == nid else x for k, x in v.items()}, rl, cl, rd, cd)
    return IdxT(Source(block), t.axes[:d]+[[Leg(nid, LEGS[id])]+t.axes[d]]+t.axes[d+1:], fix, t.tok)
def cat_sl(I, l, d):
    ctx = I.ctx; k = ctx.var('k')
    rs = list(ctx.explore(lambda: l.get(ctx, k), [k >= 0, k < z(l.n)]))
    if len(rs) != 1 or not isinstance(rs[0], IdxT): raise Unsupported('cat of a symbolic list')
    t = rs[0]; d = t.ax(d); hit = None; fix = {}
    for c in (k >= 0, k < z(l.n)): pass
    def is_(f): return ctx.forall(lambda: ctx.valid(f) is True, [k >= 0, k < z(l.n)]) is True
    from .torchmod import dim_int
    for id, v in t.fix.items():
        D = LEGS[id]
        if isinstance(D, int):
            c = v if isinstance(v, int) else next((c for c in range(D) if is_(z(v) == c)), None)
            if c is None: raise Unsupported('part of unknown position')
            fix[id] = c
        elif hit is None and is_(z(v) == k) and ctx.valid(z(dim_int(ctx, D)) == z(l.n)) is True: hit = id
        else: raise Unsupported('part of unknown position')
    if hit is None: raise Unsupported('cat of a symbolic list of equal parts')
    return t.re(t.axes[:d]+[[Leg(hit, LEGS[hit])]+t.axes[d]]+t.axes[d+1:], fix)
LEGS = {}        # leg name -> size, for legs that are currently fixed
def leg(id, d):
    LEGS[id] = d; return Leg(id, d)
def matmul(I, a, b):
    """[.., x] @ [.., x, y] with b a small stack of matrices; the contracted leg is the last axis of a"""
    ctx = I.ctx
    if len(a.axes) != b.ndim() or len(a.axes) < 3 or a.axes[-2] or len(a.axes[-1]) > 1 or a.fix: raise Unsupported('product of re-indexed tensors')
    nb = b.axes; axes = []; con = []
    for x, y in zip(a.axes[:-2], nb[:-2]):
        if any(isinstance(f, B) for f in y) or x and y: raise Unsupported('broadcast of symbolic axes')
        if y:
            if len(y) != 1: raise Unsupported('grouped axis')
            l = leg(f'q{len(con)}', y[0]); con.append(l); axes.append([l])
        else: axes.append(list(x))
    inner, outer = nb[-2], nb[-1]
    if any(not isinstance(f, B) for f in inner+outer): raise Unsupported('site layout')
    tr = [f.tag for f in inner] == ['C'] or [f.tag for f in outer] == ['R']
    v = {ix: (N_.transpose(b.arr[ix]) if tr else b.arr[ix]) for ix in np.ndindex(*b.arr.shape)}
    sh = [l.d for l in con]
    if list(b.arr.shape) != sh: raise Unsupported('site layout')
    x0 = v[tuple(0 for _ in sh)]; K = Dim.of(prod(a.axes[-1]))
    if dim_eq(ctx, K, x0.r) is not True: raise Exc('RuntimeError', 'dimensions differ in a product')
    old = a.src.block; rl0 = tuple(l.id for ax in a.axes[:-2] for l in ax); cl0 = tuple(l.id for l in a.axes[-1]); new = leg('bond', x0.c if x0.c.const() is None else x0.c.const())
    nl = legs(new)
    if any(isinstance(l.d, int) for ax in a.axes[:-2] for l in ax): raise Unsupported('product with concrete legs')
    rd = Dim.of(prod([l for ax in a.axes[:-2] for l in ax]))
    def block(val, rl, cl, r_, c_):
        if rl != rl0 or cl != tuple(l.id for l in nl): raise Unsupported('layout of a product')
        return N_.mul(ctx, old({}, rl0, cl0, rd, K), v[tuple(val[l.id] for l in con)])
    return IdxT(Source(block), axes+[[], nl])
