"""Dense matrices of symbolic size: folds of Kronecker products, traces, row/column selection, singular values."""
import z3
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, B, oarr, dense, small
from .nc import NC, Op, Kron, Loc, Prod
from .interp import Opaque
class FoldAcc(Opaque):
    """loop-carried matrix whose size grows: only torch.kron(acc, m) is understood"""
    def __init__(s, nm, old): s.nm, s.old = nm, old
class FoldRes(Opaque):
    def __init__(s, right): s.right = right
def fold_close(I, old, n, right, known=()):
    """((old x right(0)) x right(1)) x ... x right(n-1); known: lists in scope, one of which may be the very list multiplied"""
    from .interp import sl_concat
    lst = sl_concat(I, SL(1, None, old), SL(n, right)); ctx = I.ctx
    if all_2x2(I, lst):
        for c in known:
            if c.base_const is None or ctx.valid(z(c.n) == z(lst.n)) is not True: continue
            j = ctx.var('j')
            def same():
                x, y = N_.as_sp(c.get(ctx, j), 2, ctx), N_.as_sp(lst.get(ctx, j), 2, ctx)
                return x is not None and y is not None and N_.sp_eq(ctx, x, y) is True
            if ctx.forall(same, [j >= 0, j < z(c.n)]) is True: return kron_list(I, c)
    return kron_list(I, lst)
class KronT(Opaque):
    """Kronecker product of a list whose elements are not known to be 2x2: only the list matters"""
    def __init__(s, sl): s.sl = sl
def kron_list(I, lst):
    """Kronecker product of a symbolic list"""
    ctx = I.ctx
    if not all_2x2(I, lst): return KronT(lst)
    N = lst.n
    if lst.base is not None: lst = as_updates(ctx, lst) or lst
    return dense(N_.simp(ctx, NC([(P.const(1), (Kron(N, lst.copy()),))], Dim.pow2(N), Dim.pow2(N))))
def as_updates(ctx, lst):
    """the same list as identities with finitely many updated positions, when its generic element shows which"""
    from .loops import drop_conservative, fresh_vars
    j = ctx.var('j'); eye2 = N_.sp_eye(2); f0 = ctx.fresh
    def go():
        b = len(ctx.pc); m = N_.as_sp(lst.get(ctx, j), 2, ctx)
        if m is None: return False, None, None
        if N_.sp_eq(ctx, m, eye2) is True: return True, None, None
        pc = drop_conservative(ctx, ctx.pc[b:])
        fv = [v for v in fresh_vars(z3.And(*pc), f0)] if pc else []
        # what this path assumed about names of its own holds for some value of them
        pc = [z3.Exists(f, z3.And(*g)) if f else c for f, g, c in split_fresh(pc, fv)]
        return False, next((t for c in pc for t in pinned(c, j) if ctx.valid(z(j) == z(t)) is True), None), pc
    at = []
    for isid, t, pc in ctx.explore(go, [j >= 0, j < z(lst.n)]):
        if isid: continue
        if t is None: return None
        at.append((t, pc))
    st = []
    for t, pc in at:
        if ctx.decide(z3.And(z(t) >= 0, z(t) < z(lst.n), *[z3.substitute(c, (j, z(t))) for c in pc])): st.append(Pt(t, lst.get(ctx, t)))
    return SL(lst.n, None, small([[1, 0], [0, 1]]), st)
def split_fresh(pc, fv):
    from .loops import has_const
    free = [c for c in pc if not any(has_const(c, v) for v in fv)]; rest = [c for c in pc if any(has_const(c, v) for v in fv)]
    for c in free: yield [], None, c
    if rest: yield [v for v in fv if any(has_const(c, v) for c in rest)], rest, None
def pinned(c, j):
    """terms t the literal c may pin j to: a*j + r (=, <, <=) s with a = +-1"""
    if z3.is_not(c): c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)) or not (z3.is_eq(c) or z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)): return
    x = z3.simplify(c.arg(0)-c.arg(1), som=True)
    q = z3.simplify(z3.substitute(x, (j, z3.IntVal(0)))); d = z3.simplify(z3.substitute(x, (j, z3.IntVal(1)))-q)
    if not (z3.is_int_value(d) and abs(d.as_long()) == 1 and z3.is_true(z3.simplify(x-d*j-q == 0))): return
    t = -q if d.as_long() == 1 else q
    yield simp(t)
    if not z3.is_eq(c): yield simp(t-1); yield simp(t+1)
def all_2x2(I, lst):
    ctx = I.ctx
    def ok(v): return isinstance(v, T) and v.is_small() and v.arr.shape == (2, 2)
    for st in lst.stores:
        if isinstance(st, Pt):
            if not ok(st.val): return False
        else:
            k = ctx.var('k')
            if ctx.forall(lambda: ok(st.val(k)), [k >= 0, k < z(st.n)]) is not True: return False
    if lst.base is None: return ok(lst.base_const)
    j = ctx.var('j'); c = SL(lst.n, lst.base, lst.base_const)
    return ctx.forall(lambda: ok(c.get(ctx, j)), [j >= 0, j < z(lst.n)]) is True
def kron_dense(ctx, a, b):
    """kron of 2-d tensors with at least one symbolic dimension: factored axes (a's index first)"""
    if a.ndim() != 2 or b.ndim() not in (1, 2): raise Unsupported('kron of symbolic tensors')
    if b.ndim() == 1: b = TT.unsqueeze(ctx, b, 0)
    fa = [list(x) for x in TT.lift(a)]; fb = [list(x) for x in TT.lift(b)]
    ba = [f for x in fa for f in x if isinstance(f, B)]; bb = [f for x in fb for f in x if isinstance(f, B)]
    if ba and bb:
        ma, mb = TT.as_nc(a), TT.as_nc(b)
        if ma is None or mb is None: raise Unsupported('kron of blocked symbolic tensors')
        return kron_nc(ctx, ma, mb)
    x = kron_bra(ctx, a, b)
    if x is not None: return x
    if ba and b.is_small():
        x = lift_kron(ctx, a, b)
        if x is not None: return x
    big = a if ba else b
    m, n = a.arr.shape, b.arr.shape
    out = oarr(tuple(m)+tuple(n))
    import numpy as np
    for i in np.ndindex(*m):
        for j in np.ndindex(*n):
            u, v = a.arr[i], b.arr[j]
            out[i+j] = N_.scale(ctx, v, u) if ba else N_.scale(ctx, u, v)
    # axes: (row a)(row b) , (col a)(col b); reorder concrete axes of arr accordingly
    def cnt(x): return len([f for f in x if not isinstance(f, B)])
    ra, ca, rb, cb = cnt(fa[0]), cnt(fa[1]), cnt(fb[0]), cnt(fb[1])
    pos = list(range(ra)) + list(range(ra+ca, ra+ca+rb)) + list(range(ra, ra+ca)) + list(range(ra+ca+rb, ra+ca+rb+cb))
    return T(out.transpose(pos) if out.ndim else out, [fa[0]+fb[0], fa[1]+fb[1]])
def lift_factor(f, m):
    """f acting on the leading qubits of a register with m more qubits"""
    if isinstance(f, Loc): return Loc(simp(f.N+m), f.wires, f.m)
    if isinstance(f, Prod): return Prod(simp(f.N+m), f.n, lambda k: tuple(lift_factor(g, m) for g in f.body(k)))
    if isinstance(f, Op) and f.name.startswith('acc.'):
        d = Dim.pow2(m); return Op(f.name, f.idx, f.r*d, f.c*d, f.conj, f.tr, f.herm, f.unitary, f.real)
    return None
def qbits(d):
    d = Dim.of(d); return d.e if d.k == 1 and not d.b else None
def as_qnc(t):
    """operator on qubits: NC form of a square power-of-two matrix (small ones too)"""
    if not isinstance(t, T): return None
    if t.is_small():
        if t.arr.ndim != 2 or t.arr.shape[0] != t.arr.shape[1]: return None
        q = qbits(t.arr.shape[0])
        if q is None or q > 4: return None
        return N_.nc_loc(q, tuple(range(q)), {(i, j): t.arr[i, j] for i in range(2**q) for j in range(2**q) if not t.arr[i, j].is_zero()})
    return TT.as_nc(t)
def lift_kron(ctx, a, b):
    if b.arr.ndim != 2 or b.arr.shape[0] != b.arr.shape[1]: return None
    q = qbits(b.arr.shape[0]); ma = TT.as_nc(a)
    if q is None or not 1 <= q <= 3 or ma is None or dim_eq(ctx, ma.r, ma.c) is not True: return None
    n = qbits(ma.r)
    if n is None: return None
    ts = []
    for c, w in ma.t:
        w2 = [lift_factor(f, q) for f in w]
        if any(f is None for f in w2): return None
        ts.append((c, tuple(w2)))
    B_ = Loc(simp(n+q), tuple(simp(n+i) for i in range(q)), {(i, j): b.arr[i, j] for i in range(2**q) for j in range(2**q) if not b.arr[i, j].is_zero()})
    if N_.sp_eq(ctx, B_.m, N_.sp_eye(2**q)) is True: tail = ()
    else: tail = (B_,)
    return dense(N_.simp(ctx, NC([(c, w+tail) for c, w in ts], Dim.pow2(n+q), Dim.pow2(n+q))))
def kron_bra(ctx, a, b):
    """identity (x) basis row of one qubit, identity (x) a row of an identity"""
    ma = TT.as_nc(a)
    if ma is None or len(ma.t) != 1: return None
    c, w = ma.t[0]; s = qbits(ma.c)
    if s is None or w: return None
    if b.is_small() and b.shape() == [1, 2]:
        v = [P.const(x) for x in b.arr.reshape(-1)]
        for i in (0, 1):
            if v[i] == P.const(1) and v[1-i].is_zero():
                n = simp(s+1); return dense(NC([(c, (N_.bra(s, i, n),))], Dim.pow2(s), Dim.pow2(n)))
    return None
def kron_nc(ctx, ma, mb):
    """kron of two operators on qubit registers: identity factors only"""
    ia = len(ma.t) == 1 and not ma.t[0][1] ; ib = len(mb.t) == 1 and not mb.t[0][1]
    if ib and len(ma.t) == 1 and len(ma.t[0][1]) == 1 and isinstance(ma.t[0][1][0], Op) and ma.t[0][1][0].name == 'bra' and qbits(mb.r) is not None:
        f = ma.t[0][1][0]; m = qbits(mb.r); r, k = ma.r*mb.r, ma.c*mb.c
        return dense(NC([(ma.t[0][0]*mb.t[0][0], (Op('bra', f.idx, f.r*mb.r, f.c*mb.c, tr=f.tr, real=True),))], r, k))
    if ia and len(mb.t) == 1 and len(mb.t[0][1]) == 1 and isinstance(mb.t[0][1][0], Op) and mb.t[0][1][0].name == 'unit':
        f = mb.t[0][1][0]; r, k = f.r*ma.r, f.c*ma.c
        return dense(NC([(ma.t[0][0]*mb.t[0][0], (Op('iunit', f.idx+(ma.r.e,), r, k, tr=f.tr, real=True),))], ma.r*mb.r, ma.c*mb.c))
    if ia and ib:
        d = ma.r*mb.r
        return dense(NC([(ma.t[0][0]*mb.t[0][0], ())], d, ma.c*mb.c))
    raise Unsupported('kron of two operators of symbolic size')
def real_dense(I, t):
    if t.arr.size == 1 and all(d == 1 for d in t.shape()):
        x = t.arr.reshape(())[()]
        return T(N_wrap(re_nc(I.ctx, x)), [[] for _ in t.axes])
    raise Unsupported('real part of a symbolic tensor')
def N_wrap(x):
    a = oarr(()); a[()] = x; return a
def re_nc(ctx, x):
    """real part of a 1x1 matrix"""
    y = N_.add(ctx, x, N_.dagger(x)) if True else None
    return N_.scale(ctx, P.const(1)*P.const(0.5), y)
def trace_dense(I, t):
    if t.ndim() != 2 or dim_eq(I.ctx, t.shape()[0], t.shape()[1]) is not True: raise Unsupported('trace of a matrix that is not square')
    x = trace_terms(I.ctx, t)
    v = scalar_of(x)
    return T(TT.oscal(v if v is not None else x))
def scalar_of(x):
    """the exact scalar held by a 1x1 value without opaque factors"""
    if isinstance(x, P): return x
    r = P()
    for c, w in x.t:
        if w: return None
        r = r + c
    return r
def trace_terms(ctx, t):
    m = TT.as_nc(t)
    if m is not None: return N_.trace(ctx, m)
    # blocked matrix: concrete factors of the row index next to those of the column index
    fa = TT.lift(t); n = [len([f for f in x if not isinstance(f, B)]) for x in fa]
    if n[0] != n[1] or [isinstance(f, B) for f in fa[0]] != [isinstance(f, B) for f in fa[1]]: raise Unsupported('trace of a blocked matrix')
    import numpy as np
    sh = t.arr.shape; out = None
    if sh[:n[0]] != sh[n[0]:]: raise Unsupported('trace of a blocked matrix')
    for i in np.ndindex(*sh[:n[0]]):
        v = t.arr[i+i]
        if isinstance(v, P): raise Unsupported('trace of a blocked matrix')
        v = N_.trace(ctx, v); out = v if out is None else N_.add(ctx, out, v)
    return out
def index_select(I, t, d, idx):
    g = getattr(idx, 'grid', None)
    if g is not None and isinstance(t, T):
        r = select_bit(I, t.chk(), TT.axis_no(d, t.ndim()), g)
        if r is not None: return r
    from .mps import index_select as f
    return f(I, t, d, idx)
def svd(I, t, vh=False):
    from .mps import svd as f
    return f(I, t, vh)

class ZeroRow(Opaque):
    """a row of an all-zero matrix: only stores are understood"""
    def __init__(s, t, i): s.t, s.i = t, i
    def setitem(s, I, j, v): store_entry(I, s.t, (s.i, j), v)
def store_entry(I, t, ix, v):
    """m[i, j] = v on an all-zero matrix"""
    m = TT.as_nc(t.chk())
    if m is None or m.t: raise Unsupported('store into a matrix')
    v = v.chk() if isinstance(v, T) else TT.small(I.int2p(v))
    if not v.is_small() or v.arr.size != 1 or any(i < 0 for i in ix): raise Unsupported('store into a matrix')
    from .torchmod import dim_int
    for i, d in zip(ix, (m.r, m.c)):
        c = I.cmp(__import__('ast').Lt(), i, dim_int(I.ctx, d))
        if not (c if isinstance(c, bool) else I.ctx.decide(c)): raise Exc('IndexError', 'index out of range')
    q = v.arr.reshape(-1)[0]
    if not isinstance(q, P): raise Unsupported('store into a matrix')
    o = N_.Op('E', ix, m.r, m.c, real=True, herm=ix[0] == ix[1]); n = TT.dense(N_.NC([(q, (o,))] if not q.is_zero() else [], m.r, m.c))
    t.arr, t.axes = n.arr, n.axes; t.written()

def exponent(x):
    """e when x is the integer term 2^e"""
    if isinstance(x, int): return x.bit_length()-1 if x > 0 and x & (x-1) == 0 else None
    if z3.is_app(x) and x.decl().name() == 'pow2' and x.num_args() == 1: return simp(x.arg(0))
    if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
        a, b = exponent(x.arg(0).as_long()), exponent(x.arg(1))
        return None if a is None or b is None else simp(a+b)
    return None
def pow2_apps(t):
    out = []; st = [t]
    while st:
        x = st.pop(); st += x.children()
        if z3.is_app(x) and x.decl().name() == 'pow2' and x.num_args() == 1 and not any(x.eq(y) for y in out): out.append(x)
    return out
def pow2_norm(ctx, d):
    """2^(e+c) = 2^c * 2^e (c >= 0, both occurring)"""
    ps = pow2_apps(d)
    for x in ps:
        best = None
        for y in ps:
            c = simp(x.arg(0)-y.arg(0))
            if isinstance(c, int) and c > 0 and (best is None or c > best[0]) and ctx.valid(y.arg(0) >= 0) is True: best = (c, y)
        if best: d = z3.substitute(d, (x, 2**best[0]*best[1]))
    return d
def int_same(ctx, a, b):
    """equality of integer terms with powers of two, as polynomials"""
    d = pow2_norm(ctx, z(a)-z(b))
    return True if z3.simplify(d, som=True).eq(z3.IntVal(0)) else ctx.valid(z(a) == z(b))
def select_bit(I, t, d, g):
    """rows (columns) whose index has bit b at one position, kept in order"""
    from .torchmod import dim_int
    ctx = I.ctx; n, m, f = g; a, b = exponent(n), exponent(m); x = TT.as_nc(t)
    if x is None or t.ndim() != 2: return None
    N = qbits(x.r if d == 0 else x.c)
    if N is None or a is None and b is None: return None
    # a count written as a difference: is it the power that is left over?
    if b is None and int_same(ctx, z(m), z(dim_int(ctx, Dim.pow2(simp(z(N)-z(a)-1))))) is True: b = simp(z(N)-z(a)-1)
    if a is None and int_same(ctx, z(n), z(dim_int(ctx, Dim.pow2(simp(z(N)-z(b)-1))))) is True: a = simp(z(N)-z(b)-1)
    if a is None or b is None or ctx.valid(z3.And(z(a) >= 0, z(b) >= 0, z(a)+z(b)+1 == z(N))) is not True: return None
    lo = dim_int(ctx, Dim.pow2(simp(z(N)-z(a)-1)))
    u, v = ctx.var('k'), ctx.var('k'); rng = [u >= 0, u < z(n), v >= 0, v < z(m)]
    for bit in (0, 1):
        def ok():
            w = f(u, v); u1 = 0 if any(c.eq(u == 0) for c in ctx.pc) else u
            return int_same(ctx, z(w), z(u1)*2*z(lo) + bit*z(lo) + z(v))
        if ctx.forall(ok, rng) is True:
            q = N_.nc_op(N_.bra(a, bit, N))
            return dense(N_.mul(ctx, q, x) if d == 0 else N_.mul(ctx, x, N_.transpose(q)))
    return None
