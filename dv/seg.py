"""A matrix or vector on qubits with its indices split at qubit boundaries: reshape(2**i, 2, 2**(N-i-1), ...), items, traces of a
row leg with a column leg, products with small matrices, and back to a matrix. Positions and lengths are symbolic."""
import numpy as np, z3
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, B, oarr
from .nc import NC, Op, Loc, Sum
from .interp import Opaque, BMeth
class Leg:
    def __init__(s, side, n): s.side, s.n = side, n
    def __repr__(s): return f'{s.side}{s.n}'
def expo(d):
    d = Dim.of(d)
    return d.e if d.k == 1 and not d.b else None
def simp0(x): return simp(z(x)) if z3.is_expr(x) else x
class SegT(Opaque):
    """content: NC with 2^(sum R) rows and 2^(sum C) columns; axes: lists of legs; diag: axis position -> (row leg, column leg)"""
    def __init__(s, content, R, C, axes, tok=None): s.x, s.R, s.C, s.axes, s.tok = content, list(R), list(C), axes, tok or TT.Tok()
    def pytype(s, I): return TypeTok('Tensor')
    def new(s, **k):
        d = dict(content=s.x, R=s.R, C=s.C, axes=s.axes, tok=s.tok); d.update(k); return SegT(**d)
    def legs(s): return [l for a in s.axes for l in a]
    def size(s, a):
        if a and a[0].side == 'B': return z3.Int('batchsize')
        e = 0
        for l in a: e = l.n if isinstance(e, int) and e == 0 else simp(z(e)+z(l.n))
        d = Dim.pow2(e) if not isinstance(e, int) else Dim.of(2**e); c = d.const(); return d if c is None else c
    def shape(s): return tuple(s.size(a) for a in s.axes)
    def lo(s, leg):
        t = 0
        for l in (s.R if leg.side == 'R' else s.C):
            if l is leg: return simp0(t)
            t = t+l.n if isinstance(t, int) and isinstance(l.n, int) else simp(z(t)+z(l.n))
        raise Unsupported('leg')
    def total(s, side):
        t = 0
        for l in (s.R if side == 'R' else s.C): t = t+l.n if isinstance(t, int) and isinstance(l.n, int) else simp(z(t)+z(l.n))
        return simp0(t)
    def one(s, ctx, l): return False if l.side == 'B' else l.n == 1 if isinstance(l.n, int) else ctx.valid(z(l.n) == 1) is True
    def zero(s, ctx, l): return False if l.side == 'B' else l.n == 0 if isinstance(l.n, int) else ctx.valid(z(l.n) == 0) is True
    # ---- layout
    def ranks(s, I, sz):
        """every qubit an axis of its own (after the batch axis)"""
        ctx = I.ctx; b = s.batch(); j = ctx.var('j'); legs = [l for a in s.axes for l in a if l.side != 'B' and not s.zero(ctx, l)]
        if s.C or b and not (s.axes[0] and s.axes[0][0].side == 'B') or len(legs) != len([l for l in s.R if not s.zero(ctx, l)]) or any(x is not y for x, y in zip(legs, [l for l in s.R if not s.zero(ctx, l)])): raise Unsupported('reshape of permuted qubits')
        N = s.total('R'); n = simp(z(N)+1) if b else N
        if ctx.valid(z(sz.n) == z(n)) is not True: raise Exc('RuntimeError', 'shape is invalid for this input') if ctx.valid(z(sz.n) != z(n)) is True else Unsupported('number of axes')
        st = TT.StateT(n, None, s.x, batch=b, tok=s.tok)
        if b: st.lab = lambda p: simp(z(p)-1)
        v = z(sz.get(ctx, j)); want = z3.If(j == 0, st.bdim(), 2) if b else z3.IntVal(2)
        if ctx.valid(z3.Implies(z3.And(j >= 0, j < z(n)), v == want)) is not True: raise Unsupported('reshape with other sizes')
        return st
    def batch(s): return any(l.side == 'B' for a in s.axes for l in a)
    def regroup(s, I, sz):
        if s.batch():
            if not (s.axes[0] and s.axes[0][0].side == 'B') or not len(sz): raise Unsupported('reshape of the batch axis')
            full = isinstance(sz[0], int) and sz[0] == -1 and not any(isinstance(d, int) and d == -1 for d in sz[1:])
            if not full and not (is_int(sz[0]) and I.ctx.valid(z(sz[0]) == z3.Int('batchsize')) is True): raise Unsupported('reshape of the batch axis')
            r = s.new(axes=s.axes[1:])
            f = SegT.settle; SegT.settle = lambda s, I: s
            try: r = r.regroup(I, sz[1:])
            finally: SegT.settle = f
            return r.new(axes=[s.axes[0]]+r.axes)
        ctx = I.ctx; sz = list(sz)
        neg = [i for i, d in enumerate(sz) if isinstance(d, int) and d == -1]
        if len(neg) > 1: raise Exc('RuntimeError', 'only one dimension can be inferred')
        ex = []
        for d in sz:
            if isinstance(d, int) and d == -1: ex.append(None); continue
            e = expo(d)
            if e is None: raise Unsupported(f'size {d} of an axis of qubits')
            ex.append(e)
        legs = s.legs(); R, C = list(s.R), list(s.C)
        def split(l, e, front):
            a, b = Leg(l.side, e if front else simp(z(l.n)-z(e))), Leg(l.side, simp(z(l.n)-z(e)) if front else e)
            L = R if l.side == 'R' else C; i = [x is l for x in L].index(True); L[i:i+1] = [a, b]
            return (a, b)
        def take(e, front):
            nonlocal legs
            got = []
            while not (e == 0 if isinstance(e, int) else ctx.valid(z(e) == 0) is True):
                if not legs: raise Exc('RuntimeError', 'shape is invalid for this input') if isinstance(e, int) or ctx.valid(z(e) > 0) is True else Unsupported('reshape of qubits')
                l = legs[0 if front else -1]
                v = ctx.valid(z(e) < z(l.n))
                if ctx.valid(z(e) >= z(l.n)) is True:
                    legs = legs[1:] if front else legs[:-1]; got.append(l) if front else got.insert(0, l)
                    e = simp(z(e)-z(l.n))
                elif v is True or ctx.valid(z(e) <= z(l.n)) is True:
                    a, b = split(l, e, front)
                    if front: legs = [b]+legs[1:]; got.append(a)
                    else: legs = legs[:-1]+[a]; got.insert(0, b)
                    e = 0
                else: raise Unsupported('reshape that may split differently for different sizes')
            return got
        out = []
        for i, e in enumerate(ex):
            if e is None: break
            out.append(take(e, True))
        if neg:
            tail = []
            for e in reversed(ex[neg[0]+1:]): tail.insert(0, take(e, False))
            out.append(legs); out += tail
        else:
            for l in legs:
                if not s.zero(ctx, l):
                    raise Exc('RuntimeError', 'shape is invalid for this input') if ctx.valid(z(l.n) > 0) is True else Unsupported('reshape of qubits')
            if out: out[-1] = out[-1]+legs
        return s.new(R=R, C=C, axes=out).settle(I)
    def settle(s, I):
        """back to an ordinary tensor when the axes are the whole rows and columns"""
        if s.batch(): return s
        ctx = I.ctx; nz = lambda a: [l for l in a if not s.zero(ctx, l)]
        R, C = nz(s.R), nz(s.C); ax = [nz(a) for a in s.axes]; same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
        if len(ax) == 2 and same(ax[0], R) and same(ax[1], C): return s.mat(s.x)
        if len(ax) == 2 and same(ax[0], C) and same(ax[1], R): return s.mat(N_.transpose(s.x))
        if len(ax) == 1 and not C and same(ax[0], R): return T(TT.oscal(s.x), [[B(s.x.r, 'R')]], s.tok)
        return s
    def mat(s, x):
        if Dim.of(x.r).const() == 1 and Dim.of(x.c).const() == 1: return T(TT.oscal(x), [[], []], s.tok)
        return TT.dense(x, s.tok)
    def permute(s, I, p):
        p = [TT.axis_no(x, len(s.axes)) for x in p]
        if sorted(p) != list(range(len(s.axes))): raise Exc('RuntimeError', 'permute: axes')
        return s.new(axes=[s.axes[x] for x in p]).settle(I)
    # ---- values
    def drop(s, ctx, leg, bit):
        """the leg (one qubit) fixed to a value"""
        n = s.total(leg.side); q = N_.nc_op(N_.bra(s.lo(leg), bit, n))
        x = N_.mul(ctx, q, s.x) if leg.side == 'R' else N_.mul(ctx, s.x, N_.transpose(q))
        return s.new(content=x, R=[l for l in s.R if l is not leg], C=[l for l in s.C if l is not leg], axes=[[l for l in a if l is not leg] for a in s.axes])
    def drop_last(s, ctx, leg, i):
        L = s.R if leg.side == 'R' else s.C
        if L[-1] is not leg: raise Unsupported('item of a leg in the middle')
        a = s.lo(leg); N = s.total(leg.side)
        q = N_.nc_op(Op('iunit', (i, a), Dim.pow2(N), Dim.pow2(a), real=True))
        x = N_.mul(ctx, N_.transpose(q), s.x) if leg.side == 'R' else N_.mul(ctx, s.x, q)
        return s.new(content=x, R=[l for l in s.R if l is not leg], C=[l for l in s.C if l is not leg], axes=[[l for l in a_ if l is not leg] for a_ in s.axes])
    def pick(s, I, d, i):
        """axis d at position i, the axis removed"""
        if s.axes[d] and s.axes[d][0].side == 'B': raise Unsupported('one member of a batch')
        ctx = I.ctx; a = [l for l in s.axes[d] if not s.zero(ctx, l)]
        from .torchmod import dim_int
        n = dim_int(ctx, s.size(a)) if a else 1
        i = TT.neg_idx(ctx, i, n)
        if len(a) == 1 and s.one(ctx, a[0]):
            if not isinstance(i, int): i = 0 if ctx.decide(z(i) == 0) else 1
            r = s.drop(ctx, a[0], i)
        elif not a: r = s
        elif len(a) == 1: r = s.drop_last(ctx, a[0], i)
        else: raise Unsupported('item of several legs')
        return r.new(axes=[x for k, x in enumerate(r.axes) if k != d])
    def getitem(s, I, ix):
        ix = ix if isinstance(ix, tuple) else (ix,); ix = [TT._toint(i.arr[()]) if isinstance(i, T) and i.is_small() and i.arr.ndim == 0 else i for i in ix]
        if any(i is Ellipsis for i in ix):
            k = [i is Ellipsis for i in ix].index(True); ix = ix[:k]+[slice(None)]*(len(s.axes)-sum(1 for i in ix if i is not None)+1)+ix[k+1:]
        r = s; d = 0
        for i in ix:
            if i is None: r = r.new(axes=r.axes[:d]+[[]]+r.axes[d:]); d += 1
            elif d >= len(r.axes): raise Exc('IndexError', 'too many indices for tensor')
            elif isinstance(i, slice):
                if i != slice(None): raise Unsupported('slice of split qubits')
                d += 1
            elif is_int(i): r = r.pick(I, d, i)
            else: raise Unsupported('index of split qubits')
        return r.settle(I)
    def trace_pair(s, I, i, j):
        """sum over equal values of axes i and j, which disappear"""
        ctx = I.ctx; a = [l for l in s.axes[i] if not s.zero(ctx, l)]; b = [l for l in s.axes[j] if not s.zero(ctx, l)]
        if len(a) != len(b) or len(a) > 1: raise Unsupported('trace over several legs')
        r = s
        if a:
            a, b = a[0], b[0]
            if {a.side, b.side} != {'R', 'C'}: raise Unsupported('trace within rows or columns')
            if a.side == 'C': a, b = b, a
            if s.one(ctx, a) and s.one(ctx, b):
                x = None
                for v in (0, 1):
                    t = s.drop(ctx, a, v).drop(ctx, b, v); x = t.x if x is None else N_.add(ctx, x, t.x)
                r = t.new(content=x)
            else:
                if ctx.valid(z(a.n) == z(b.n)) is not True: raise Unsupported('trace over axes of unknown relation')
                from .torchmod import dim_int
                t = s.drop_last(ctx, a, z3.Int('seg!k')).drop_last(ctx, b, z3.Int('seg!k'))
                f = lambda k: s.drop_last(ctx, a, k).drop_last(ctx, b, k).x
                r = t.new(content=NC([(P.const(1), (Sum(dim_int(ctx, Dim.pow2(a.n)), f, t.x.r, t.x.c),))], t.x.r, t.x.c))
        return r.new(axes=[x for k, x in enumerate(r.axes) if k not in (i, j)])
    def bits(s, ctx, leg, n):
        """a leg as n single qubits"""
        lo = s.lo(leg); return tuple(simp(z(lo)+k) if z3.is_expr(lo) else lo+k for k in range(n))
    def small(s, I, M, lm, ls, out):
        """einsum of a small tensor M (labels lm) with this one (labels ls)"""
        ctx = I.ctx; con = [c for c in lm if c in ls]; free = [c for c in lm if c not in ls]
        if len(set(lm)) < len(lm) or len(set(ls)) < len(ls) or any(c in out for c in con) or any(c not in out for c in free) or any(c not in out for c in ls if c not in con): raise Unsupported('einsum on split qubits')
        if free and len(free) != len(con): raise Unsupported('einsum changing the number of qubits')
        at = {}
        for c in con:
            a = [l for l in s.axes[ls.index(c)] if not s.zero(ctx, l)]
            if a and a[0].side == 'B': raise Unsupported('contraction of the batch axis')
            m = M.arr.shape[lm.index(c)]; q = m.bit_length()-1
            if m != 2**q or len(a) != 1 or not (ctx.valid(z(a[0].n) == q) is True): raise Unsupported('contraction of an axis of unknown length') 
            at[c] = (a[0], q)
        if len({l.side for l, _ in at.values()}) > 1: raise Unsupported('contraction of rows and columns')
        axes = list(s.axes)
        if free:
            side = next(iter(at.values()))[0].side; wires = tuple(w for c in con for w in s.bits(ctx, *at[c]))
            for f, c in zip(free, con):
                if M.arr.shape[lm.index(f)] != M.arr.shape[lm.index(c)]: raise Unsupported('einsum changing a size')
            a = M.arr.transpose([lm.index(f) for f in free]+[lm.index(c) for c in con]); k = 2**len(wires); a = a.reshape(k, k)
            if side == 'C': a = a.T
            L = N_.nc_loc(s.total(side), wires, {(i, j): a[i, j] for i in range(k) for j in range(k) if not a[i, j].is_zero()})
            x = N_.mul(ctx, L, s.x) if side == 'R' else N_.mul(ctx, s.x, L)
            r = s.new(content=N_.simp(ctx, x), tok=TT.Tok()); lab = [free[con.index(c)] if c in con else c for c in ls]
        else:
            if any(q != 1 for _, q in at.values()) or len(con) > 2: raise Unsupported('vector on several qubits')
            a = M.arr.transpose([lm.index(c) for c in con]); x = None
            for ix in np.ndindex(*a.shape):
                t = s
                for c, b in zip(con, ix): t = t.drop(ctx, at[c][0], int(b))
                y = N_.scale(ctx, a[ix], t.x); x = y if x is None else N_.add(ctx, x, y)
            r = t.new(content=N_.simp(ctx, x), axes=[v for c, v in zip(ls, t.axes) if c not in con], tok=TT.Tok()); lab = [c for c in ls if c not in con]
        if sorted(lab) != sorted(out): raise Unsupported('einsum output')
        return r.permute(I, [lab.index(c) for c in out])
    def shaped(s, o, ctx):
        """same axes: same sides, same lengths, in the same order"""
        def eq(a, b): return a.side == b.side and (a.n == b.n if isinstance(a.n, int) and isinstance(b.n, int) else ctx.valid(z(a.n) == z(b.n)) is True)
        if len(s.axes) != len(o.axes) or len(s.R) != len(o.R) or len(s.C) != len(o.C): return False
        m = {}
        for A, B_ in [(s.R, o.R), (s.C, o.C)]:
            for x, y in zip(A, B_):
                if not eq(x, y): return False
                m[id(x)] = y
        return all(len(a) == len(b) and all(m[id(x)] is y for x, y in zip(a, b)) for a, b in zip(s.axes, o.axes))
    # ---- interface
    def attr(s, I, a):
        if a == 'shape': return s.shape()
        if a == 'ndim': return len(s.axes)
        if a in ('dtype', 'device'): return a+':?'
        if a in ('T', 'mT') and len(s.axes) == 2: return s.permute(I, [1, 0])
        return BMeth(s, a)
    def method(s, I, name, a, k):
        f = lambda i, n, *d: a[i] if len(a) > i else k[n] if n in k else d[0] if d else _un(f'{name}: missing {n}')
        if name in ('view', 'reshape'):
            sz = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple, SL)) else a
            if isinstance(sz, SL) and not isinstance(sz.n, int): return s.ranks(I, sz)
            if isinstance(sz, SL): sz = I.concrete(sz)
            return s.regroup(I, [TT._toint(x.arr[()]) if isinstance(x, T) else x for x in sz])
        if name == 'flatten' and not a and not k: return s.regroup(I, [-1])
        if name in ('contiguous', 'cpu', 'resolve_conj'): return s
        if name == 'clone': return s.new(tok=TT.Tok())
        if name == '__len__': return s.shape()[0]
        if name == 'size': return s.shape()[TT.axis_no(f(0, 'dim'), len(s.axes))] if a or k else s.shape()
        if name in ('dim', 'ndimension'): return len(s.axes)
        if name in ('conj', 'conj_physical'): return s.new(content=N_.conj(s.x), tok=TT.Tok())
        if name == 'permute': return s.permute(I, list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a))
        if name in ('transpose', 'swapaxes'):
            n = len(s.axes); p = list(range(n)); i, j = TT.axis_no(f(0, 'dim0'), n), TT.axis_no(f(1, 'dim1'), n); p[i], p[j] = j, i
            return s.permute(I, p)
        if name in ('movedim', 'moveaxis'):
            n = len(s.axes); L = lambda v: [TT.axis_no(x, n) for x in (v if isinstance(v, (list, tuple)) else [v])]
            src, dst = L(f(0, 'source')), L(f(1, 'destination')); o = [i for i in range(n) if i not in src]
            if len(src) != len(dst) or len(set(src)) < len(src): raise Exc('RuntimeError', 'movedim')
            for d, q in sorted(zip(dst, src)): o.insert(d, q)
            return s.permute(I, o)
        if name == 'unsqueeze':
            n = len(s.axes); d = f(0, 'dim')
            if not isinstance(d, int) or not -n-1 <= d <= n: raise Exc('IndexError', 'unsqueeze')
            d %= n+1; return s.new(axes=s.axes[:d]+[[]]+s.axes[d:]).settle(I)
        if name == 'squeeze' and (a or k):
            d = TT.axis_no(f(0, 'dim'), len(s.axes)); v = [l for l in s.axes[d] if not s.zero(I.ctx, l)]
            if not v: return s.new(axes=s.axes[:d]+s.axes[d+1:]).settle(I)
            if all(I.ctx.valid(z(l.n) >= 1) is True for l in v): return s
            raise Unsupported('squeeze of an axis that may have length one')
        if name == 'diagonal':
            n = len(s.axes)
            if f(0, 'offset', 0) != 0: raise Unsupported('diagonal with an offset')
            i, j = TT.axis_no(f(1, 'dim1', 0), n), TT.axis_no(f(2, 'dim2', 1), n)
            return DiagT(s, i, j)
        if name == 'select': return s.pick(I, TT.axis_no(f(0, 'dim'), len(s.axes)), f(1, 'index')).settle(I)
        if name == 'unbind':
            d = TT.axis_no(f(0, 'dim', 0), len(s.axes)); n = s.shape()[d]
            if not isinstance(n, int): raise Unsupported('unbind of a symbolic axis')
            return tuple(s.pick(I, d, i).settle(I) for i in range(n))
        if name == 'einsum': return einsum(I, a[0], a[1])
        if name == 'tensordot': return tensordot(I, a[0], a[1], a[2])
        if name in ('stack', 'cat', '__iter__'): raise Unsupported(f'{name} of split qubits')
        raise Unsupported(f'{name} of split qubits')
    def binop(s, I, k, a, b):
        ctx = I.ctx
        if k == 'MatMult':
            if isinstance(a, T) and a.is_small() and a.arr.ndim == 2 and len(s.axes) >= 2:
                l = [f'x{i}' for i in range(len(s.axes))]; return s.small(I, a.chk(), ['new', l[-2]], l, l[:-2]+['new', l[-1]])
            if isinstance(b, T) and b.is_small() and b.arr.ndim in (1, 2) and len(s.axes) >= 1:
                l = [f'x{i}' for i in range(len(s.axes))]; return s.small(I, b.chk(), [l[-1]]+['new']*(b.arr.ndim-1), l, l[:-1]+['new']*(b.arr.ndim-1))
            raise Unsupported('product of split qubits')
        if k in ('Add', 'Sub') and isinstance(a, SegT) and isinstance(b, SegT):
            if not a.shaped(b, ctx): raise Unsupported('sum of differently split qubits')
            return a.new(content=N_.add(ctx, a.x, b.x if k == 'Add' else N_.scale(ctx, P.const(-1), b.x)), tok=TT.Tok())
        o = b if a is s else a
        if isinstance(o, T) and o.is_small() and o.arr.size == 1: o = o.arr.reshape(-1)[0]
        if isinstance(o, (int, float, complex, P)) and not isinstance(o, bool):
            c = P.const(o)
            if k in ('Add', 'Sub') and c.is_zero(): return s if k == 'Add' or a is s else s.new(content=N_.scale(ctx, P.const(-1), s.x))
            if k == 'Mult': return s.new(content=N_.scale(ctx, c, s.x), tok=TT.Tok())
            if k == 'Div' and a is s: return s.new(content=N_.scale(ctx, c.inv(), s.x), tok=TT.Tok())
        raise Unsupported(f'operator {k} on split qubits')
class DiagT(Opaque):
    """the diagonal of two axes, as the last axis: only its sum is understood"""
    def __init__(s, t, i, j): s.t, s.i, s.j = t, i, j
    def attr(s, I, a): return BMeth(s, a)
    def method(s, I, name, a, k):
        if name == 'sum':
            d = a[0] if a else k.get('dim', k.get('axis')); n = len(s.t.axes)-1
            if isinstance(d, (list, tuple)) and len(d) == 1: d = d[0]
            if d in (-1, n-1) and not k.get('keepdim'): return s.t.trace_pair(I, s.i, s.j).settle(I)
        raise Unsupported(f'{name} of a diagonal')
def _un(m): raise Unsupported(m)
def einsum(I, spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec; ls = ins.replace(',', ''); out = ''.join(sorted(l for l in set(ls) if ls.count(l) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops): raise Exc('RuntimeError', 'einsum: operand count')
    if '.' in spec: raise Unsupported('einsum ellipsis')
    if sum(isinstance(o, SegT) for o in ops) != 1 or not all(isinstance(o, SegT) or isinstance(o, T) and o.is_small() for o in ops): raise Unsupported('einsum on split qubits')
    q = next(i for i, o in enumerate(ops) if isinstance(o, SegT)); t, lab = ops[q], list(ins[q])
    if len(lab) != len(t.axes): raise Exc('RuntimeError', 'einsum: rank mismatch')
    rest = [(o, l) for i, (o, l) in enumerate(zip(ops, ins)) if i != q]
    for c in list(dict.fromkeys(lab)):
        if lab.count(c) == 2:
            if c in out or any(c in l for _, l in rest): raise Unsupported('diagonal in einsum')
            i = lab.index(c); j = lab.index(c, i+1); t = t.trace_pair(I, i, j); lab = [x for k, x in enumerate(lab) if k not in (i, j)]
    for n, (o, l) in enumerate(rest):
        if o.arr.ndim != len(l): raise Exc('RuntimeError', 'einsum: rank mismatch')
        if not isinstance(t, SegT): raise Unsupported('einsum on split qubits')
        con = [c for c in l if c in lab]; free = [c for c in l if c not in lab]
        if free and len(free) != len(con): raise Unsupported('einsum changing the number of qubits')
        new = [free[con.index(c)] if free and c in con else c for c in lab if free or c not in con]
        t = hold(I, t, o, list(l), lab, new); lab = new
    if sorted(lab) != sorted(out): raise Unsupported('summing a whole axis')
    return t.permute(I, [lab.index(c) for c in out]) if isinstance(t, SegT) else t
def hold(I, t, o, l, lab, new):
    """t.small without turning back into a matrix"""
    f = SegT.settle
    try:
        SegT.settle = lambda s, I: s
        return t.small(I, o.chk(), l, lab, new)
    finally: SegT.settle = f
def tensordot(I, A, Bt, dims):
    left = isinstance(Bt, SegT); S, M = (Bt, A) if left else (A, Bt)
    if not isinstance(M, T) or not M.is_small(): raise Unsupported('tensordot of split qubits')
    ns, nm = len(S.axes), M.arr.ndim; na, nb = (nm, ns) if left else (ns, nm)
    if isinstance(dims, int): da, db = list(range(na-dims, na)), list(range(dims))
    else: da, db = [[TT.axis_no(x, n) for x in (v if isinstance(v, (list, tuple)) else [v])] for v, n in zip(dims, (na, nb))]
    if len(da) != len(db): raise Exc('RuntimeError', 'tensordot')
    la, lb = [f'a{i}' for i in range(na)], [f'b{i}' for i in range(nb)]
    for i, (x, y) in enumerate(zip(da, db)): la[x] = lb[y] = f'k{i}'
    out = [l for l in la+lb if not l.startswith('k')]
    return S.small(I, M.chk(), la if left else lb, lb if left else la, out)
def of(ctx, t, dims):
    """reshape of a matrix or vector on qubits that splits its indices; None when it is something else"""
    if isinstance(t, T):
        if t.axes is None or t.arr.size != 1 or any(isinstance(f, int) and f != 1 for a in t.axes for f in a): return None
        x = t.arr.reshape(())[()]
        if not isinstance(x, NC): return None
        R = C = None; axes = []; seen = []
        for a in t.axes:
            b = [f for f in a if isinstance(f, B)]; ax = []
            for f in b:
                if f.tag in seen or qn(f.d) is None: return None
                seen.append(f.tag); ax.append(Leg(f.tag, qn(f.d)))
            axes.append(ax)
        ls = [l for a in axes for l in a]
        R, C = [l for l in ls if l.side == 'R'], [l for l in ls if l.side == 'C']
        for L, d in ((R, x.r), (C, x.c)):
            if not L and Dim.of(d).const() != 1: return None
        s = SegT(x, R, C, axes, t.tok)
    elif isinstance(t, TT.StateT):
        if t.merged or t.ones or t.flat or t.mat is not None: return None
        if t.lab is not None or t.batch:
            p = ctx.var('p')
            if ctx.valid(z3.Implies(z3.And(p >= 0, p < z(t.n)), z(t.label(p)) == p-(1 if t.batch else 0))) is not True: return None
        l = Leg('R', simp(z(t.n)-1) if t.batch else t.n); s = SegT(t.content, [l], [], ([[Leg('B', None)]] if t.batch else [])+[[l]], t.tok)
        if t.batch: return s.regroup(type('I', (), {'ctx': ctx}), dims)
    else: return None
    if any(not (isinstance(d, int) and (d == -1 or d > 0 and d & (d-1) == 0)) and expo(d) is None if not z3.is_expr(d) else True for d in dims): return None
    return s.regroup(type('I', (), {'ctx': ctx}), dims)
def qn(d): return expo(d)
