"""Matrix product states.

MPSV   a list of N (symbolic) site tensors of an N-qubit state. Site i is a tensor [2, bond(i), bond(i+1)] whose two
       matrices are opaque; `content` is the state vector the chain represents. Sites that the program has overwritten are
       `dirty` until commit(): a window of dirty sites whose outer bonds are the old ones and whose product is
       sum_t M[s,t] A_t1(a)...A_tm(a+m-1) represents (M on wires a..a+m-1) * content, because the represented vector is
       multilinear in the sites (meta-lemma, see DESIGN). bond(0) = bond(N) = 1 is kept because outer bonds never change.
SVD    torch.svd(M): M = U S V^dagger; S sorted, non-negative. Counting / selecting the S above a tolerance and
       cutting U, S, V to that many columns is exact up to the dropped values, which must be numerically zero
       (tolerance at most 1e-6): the rule  E E^T S = S  for the selection matrix E."""
import numpy as np, z3
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, B, oarr, Tok
from .nc import NC, Op, Loc, Prod
from .interp import Opaque, TypeTok
_n = [0]
def fresh(): _n[0] += 1; return _n[0]
TOL = 1e-6
def bond(name): return Dim(1, 0, (name,))
class MPSV(Opaque):
    def __init__(s, N, content, I=None):
        s.N, s.content = N, content; s.ver = fresh(); s.reps = []; s.dirty = []; s.tok = Tok(); s.I = I; s.handed = []   # dirty: [(rep, delta, T)]
    def __repr__(s): return f'MPS[{s.N}]'
    def pytype(s, I): return TypeTok('list')
    def copy(s):
        n = MPSV(s.N, s.content, s.I); n.ver = s.ver; n.reps = list(s.reps); n.dirty = list(s.dirty); n.handed = s.handed; return n
    # ---- indices
    def key(s, ctx, i):
        i = z(i)
        for k, r in enumerate(s.reps):
            for d in (0, 1, -1, 2, -2, 3, -3):
                if ctx.valid(i == r+d) is True: return (k, d)
        s.reps.append(i); return (len(s.reps)-1, 0)
    def tag(s, k, d): return f'{z3.simplify(s.reps[k]).sexpr()}+{d}'
    def bname(s, k, d): return f'b{s.ver}[{s.tag(k, d)}]'
    def orig(s, k, d):
        L, R = bond(s.bname(k, d)), bond(s.bname(k, d+1)); a = oarr((2,))
        for q in range(2): a[q] = N_.nc_op(Op('A', (s.ver, s.tag(k, d), q), L, R))
        return T(a, [[2], [B(L, 'R')], [B(R, 'C')]])
    def find(s, ctx, i):
        """position in dirty of index i, or None"""
        for p, (k, d, t) in enumerate(s.dirty):
            if ctx.decide(z(i) == s.reps[k]+d): return p
        return None
    # ---- Python protocol
    def getitem(s, I, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None: return s.copy()
            raise Unsupported('slice of a matrix product state')
        if not is_int(i): raise Exc('TypeError', 'list indices must be integers')
        i = TT.neg_idx(I.ctx, i, s.N); p = s.find(I.ctx, i)
        if p is not None: return s.dirty[p][2]
        t = s.orig(*s.key(I.ctx, i)); s.handed.append(t); return t
    def setitem(s, I, i, v):
        if not is_int(i): raise Unsupported('slice store into a matrix product state')
        i = TT.neg_idx(I.ctx, i, s.N); p = s.find(I.ctx, i); s.tok.written = True
        if p is not None: s.dirty[p] = s.dirty[p][:2] + (v,)
        else: s.dirty.append(s.key(I.ctx, i) + (v,))
    def method(s, I, name, args, kw):
        if name == '__len__': return s.N
        if name in ('__list__', 'copy', 'deepcopy'): return s.copy()
        if name == '__iter__':
            s.commit(I); c = s.copy(); return s.N, (lambda k: c.getitem(I, k))
        raise Unsupported(f'method {name} of a matrix product state')
    def elementwise(s, I, k, v):
        """v, computed from site k, is that site again (a clone)"""
        if not isinstance(v, T) or v.is_small() or v.ndim() != 3: return False
        t = s.orig(*s.key(I.ctx, k)); v.chk()
        return v.arr.shape == t.arr.shape and [str(a) for a in v.axes] == [str(a) for a in t.axes] and all(N_.nc_eq(I.ctx, a, b) is True for a, b in zip(v.arr.reshape(-1), t.arr.reshape(-1))) and ('shared' if any(h.tok is v.tok for h in s.handed) else True)
    # ---- meaning
    def commit(s, I):
        ctx = I.ctx
        if any(t.tok.written for t in s.handed): raise Unsupported('a site tensor is changed in place')
        if not s.dirty: return
        w = sorted(s.dirty, key=lambda x: (x[0], x[1])); wins = []
        for x in w:
            if wins and wins[-1][-1][0] == x[0] and wins[-1][-1][1] == x[1]-1: wins[-1].append(x)
            else: wins.append([x])
        content = s.content
        for win in wins:
            m = len(win); k, d0 = win[0][0], win[0][1]
            if m > 4: raise Unsupported('more than four sites replaced together')
            for x in win:
                t = x[2]
                if not isinstance(t, T) or t.ndim() != 3: raise Unsupported('site that is not a rank-3 tensor')
                t.chk()
                fl = [[f for f in a if isinstance(f, B) or f != 1] for a in TT.lift(t)]
                if not (fl[0] == [2] and len(fl[1]) == 1 and len(fl[2]) == 1 and isinstance(fl[1][0], B) and isinstance(fl[2][0], B)): raise Unsupported(f'site of shape {t.shape()}')
            dl, dr = win[0][2].shape()[1], win[-1][2].shape()[2]
            if dim_eq(ctx, dl, bond(s.bname(k, d0))) is not True or dim_eq(ctx, dr, bond(s.bname(k, d0+m))) is not True:
                raise Unsupported(f'outer bonds {dl}, {dr} of the replaced sites are not the old ones')
            def mat(t, q):
                e = t.arr.reshape(2)[q]
                r = [f for f in t.axes[1] if isinstance(f, B)][0]
                return N_.transpose(e) if r.tag == 'C' else e
            M = {}
            for sidx in range(2**m):
                bits = [sidx >> (m-1-j) & 1 for j in range(m)]
                x = mat(win[0][2], bits[0])
                for j in range(1, m): x = N_.mul(ctx, x, mat(win[j][2], bits[j]))
                x = expand_svd(ctx, x)
                for c, wd in x.t:
                    if len(wd) != m or not all(isinstance(f, Op) and f.name == 'A' and f.idx[0] == s.ver and not f.conj and not f.tr and f.idx[1] == s.tag(k, d0+j) for j, f in enumerate(wd)):
                        raise Unsupported(f'replaced sites are not a linear image of the old ones: {list(wd)}')
                    t = 0
                    for f in wd: t = 2*t + f.idx[2]
                    M[(sidx, t)] = M.get((sidx, t), P()) + c
            M = {kk: v for kk, v in M.items() if not v.is_zero()}
            content = N_.mul(ctx, N_.nc_loc(s.N, tuple(simp(s.reps[k]+d0+j) for j in range(m)), M), content)
        s.content = content; s.ver = fresh(); s.reps = []; s.dirty = []
    def apply(s, I, op):
        """left-multiply the represented vector (used by contracts)"""
        s.commit(I); s.content = N_.mul(I.ctx, op, s.content); s.ver = fresh(); s.reps = []; s.tok.written = True
    # ---- loops
    def clone_(s): return s.copy()
    def changed_(s, c):
        c.commit(s.I); return c.ver != s.ver
    def acc_(s):
        s.content = N_.nc_op(Op(f'acc.mps#{fresh()}', (), s.content.r, s.content.c)); s.ver = fresh(); s.reps = []; s.dirty = []
        return s
    def form_(s):
        x = s.content
        if len(x.t) == 1:
            c, w = x.t[0]
            if c == P.const(1) and w and isinstance(w[-1], Op) and w[-1].name.startswith('acc.mps') and not any(isinstance(f, Op) and f.name.startswith('acc.') for f in w[:-1]): return ('opq',)
        raise Unsupported('recurrence of a matrix product state')
    def close_(s, I, f, n, rexec):
        def body(k):
            c = rexec(k); c.commit(I); t = c.content.t
            if len(t) != 1 or t[0][0] != P.const(1): raise Unsupported('recurrence of a matrix product state')
            return tuple(t[0][1][:-1])
        c = N_.mul(I.ctx, NC([(P.const(1), (Prod(s.N, n, body),))], Dim.pow2(s.N), Dim.pow2(s.N)), s.content)
        r = MPSV(s.N, c, I); return r
    def become_(s, v): s.content, s.ver, s.reps, s.dirty = v.content, v.ver, [], []; s.tok.written = True
# ------------------------------------------------------------------ singular values
class Rec:
    def __init__(s, n, M, K): s.n, s.M, s.K, s.rank, s.cut, s.D = n, M, K, None, None, bond(f'rk{n}')
def entry(t, i, j):
    """matrix block (i, j) of a 2-axis tensor with one bond per axis, as NC rows = axis 0"""
    e = t.arr[tuple(i)+tuple(j)]
    r = [f for f in t.axes[0] if isinstance(f, B)]; c = [f for f in t.axes[1] if isinstance(f, B)]
    if (r and r[0].tag == 'C') or (c and c[0].tag == 'R'): e = N_.transpose(e)
    return e
def svd(I, t, vh=False):
    if not isinstance(t, T) or t.is_small() or t.ndim() != 2: raise Unsupported('svd of this tensor')
    t.chk(); ax = [[f for f in a if isinstance(f, B) or f != 1] for a in t.axes]
    for a in ax:
        if len([f for f in a if isinstance(f, B)]) > 1: raise Unsupported('svd of a doubly symbolic axis')
    t = T(t.arr.reshape([f for a in ax for f in a if not isinstance(f, B)]), ax)
    n = fresh(); K = bond(f'sv{n}'); r = Rec(n, t, K)
    I.ctx.__dict__.setdefault('svds', {})[n] = r
    c0, c1 = [[f for f in a if not isinstance(f, B)] for a in ax]
    def side(nm, a, c):
        b = [f for f in a if isinstance(f, B)]; d = b[0].d if b else Dim(1)
        arr = oarr(tuple(c))
        for ix in np.ndindex(*c): arr[ix] = N_.nc_op(Op(f'{nm}#{n}', tuple(int(q) for q in ix), d, K))
        return T(arr, [[B(f.d, 'R') if isinstance(f, B) else f for f in a], [B(K, 'C')]])
    U, V = side('U', ax[0], c0), side('V', ax[1], c1)
    S = SVec(I, r)
    if vh: return U, S, TT.conj(TT.permute(I.ctx, V, [1, 0]))
    return U, S, V
class SVec(Opaque):
    """singular values, or the part above the tolerance"""
    def __init__(s, I, rec, kept=False): s.I, s.rec, s.kept = I, rec, kept
    def pytype(s, I): return TypeTok('Tensor')
    def method(s, I, name, args, kw):
        if name in ('abs', 'map', 'detach', 'clone', 'cpu', 'contiguous', 'flatten'): return s if name != 'map' else _un('map')
        if name in ('view', 'reshape') and args in ([-1], [[-1]]): return s
        if name in ('__len__', 'numel'): return s.length()
        if name == 'size': return s.length() if args else [s.length()]
        if name == 'diag': return s.diag()
        if name in ('gt', 'ge'): return s.cmp(I, 'Gt', s, args[0])
        if name == 'max': return P.atom(I.ctx.atom(f'smax#{s.rec.n}'))
        raise Unsupported(f'method {name} of singular values')
    def length(s): return RankV(s.rec) if s.kept else s.rec.K
    def attr(s, I, a):
        if a == 'shape': return [s.length()]
        if a in ('dtype', 'device'): return a
        from .interp import BMeth
        return BMeth(s, a)
    def diag(s):
        d = s.rec.D if s.kept else s.rec.K
        x = N_.nc_op(Op(f'S#{s.rec.n}', (), s.rec.K, s.rec.K, herm=True, real=True))
        if s.kept: x = cutm(s.I.ctx, cutm(s.I.ctx, x, s.rec, 0), s.rec, 1)
        a = oarr(()); a[()] = x; return T(a, [[B(d, 'R')], [B(d, 'C')]])
    def getitem(s, I, i):
        if isinstance(i, Mask): 
            if i.rec is not s.rec: raise Unsupported('mask of other values')
            return SVec(I, s.rec, True)
        if isinstance(i, slice) and isinstance(i.stop, RankV) and i.start in (None, 0) and i.step is None and i.stop.rec is s.rec: return SVec(I, s.rec, True)
        if i == 0: return P.atom(I.ctx.atom(f'smax#{s.rec.n}'))
        raise Unsupported('selection of singular values')
    def cmp(s, I, k, a, b):
        if s.kept: raise Unsupported('comparison of kept values')
        if k in ('Gt', 'GtE') and a is s or k in ('Lt', 'LtE') and b is s: return mask(I, s.rec, b if a is s else a)
        return Opaque.cmp(s, I, k, a, b)
    def binop(s, I, k, a, b):
        o = b if a is s else a
        if k in ('Add', 'Sub') and isinstance(o, (int, float, complex)) and o == 0: return s
        raise Unsupported(f'operator {k} on singular values')
def _un(m): raise Unsupported(m)
def mask(I, rec, tol):
    ok = None
    if isinstance(tol, T) and tol.is_small() and tol.arr.size == 1: tol = tol.arr.reshape(())[()]
    if isinstance(tol, P) and tol.cval() is not None and not any(tol.cval()[1:]): tol = float(tol.cval()[0])
    if isinstance(tol, (int, float)): ok = 0 <= tol <= TOL
    elif isinstance(tol, P):
        l = tol.linear()
        if l is not None and len(l[0]) == 1 and l[0][0][1].name.startswith('smax#'): ok = 0 <= l[0][0][0] <= TOL and 0 <= l[1] <= TOL
    if ok is None: raise Unsupported('tolerance of a truncation')
    if not ok: I.ctx.__dict__.setdefault('cuts', []).append(f'Schmidt values up to {tol} are discarded')
    return Mask(rec)
class Mask(Opaque):
    def __init__(s, rec): s.rec = rec
    def pytype(s, I): return TypeTok('Tensor')
    def method(s, I, name, args, kw):
        if name == 'sum' and not args: return RankV(s.rec)
        raise Unsupported(f'method {name} of a mask')
    def attr(s, I, a):
        from .interp import BMeth
        return BMeth(s, a)
class RankV(Opaque):
    """number of singular values above the tolerance"""
    def __init__(s, rec): s.rec = rec
    def pytype(s, I): return TypeTok('int')
    def attr(s, I, a):
        from .interp import BMeth
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        if name in ('item', '__int__', 'int', 'long'): return s
        if name == '__range__': return IdxV(s.rec)
        raise Unsupported(f'method {name} of a rank')
    def cmp(s, I, k, a, b):
        o = b if a is s else a
        if isinstance(o, Dim) and o.b == s.rec.K.b and o.k == 1:
            c = z3.Bool(f'cut!{s.rec.n}')        # rank < number of values
            if a is not s: k = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(k, k)
            return {'Lt': c, 'NotEq': c, 'Eq': z3.Not(c), 'GtE': z3.Not(c), 'LtE': True, 'Gt': False}[k]
        if isinstance(o, int) and o <= 0:        # a state is not the zero vector, so at least one value is kept
            if a is not s: k = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(k, k)
            return {'Gt': True, 'GtE': True, 'NotEq': True, 'Lt': False, 'LtE': False, 'Eq': False}[k]
        return Opaque.cmp(s, I, k, a, b)
class IdxV(Opaque):
    """the index list 0..rank-1"""
    def __init__(s, rec): s.rec = rec
    def pytype(s, I): return TypeTok('list')
    def method(s, I, name, args, kw):
        if name in ('__list__', 'long', 'to', 'int'): return s
        if name == '__len__': return RankV(s.rec)
        raise Unsupported(f'method {name} of an index list')
    def attr(s, I, a):
        from .interp import BMeth
        return BMeth(s, a)
def E_op(rec): return Op(f'E#{rec.n}', (), rec.K, rec.D, real=True)
def cutm(ctx, x, rec, side):
    """select the first `rank` rows (side 0) / columns (side 1)"""
    e = N_.nc_op(E_op(rec))
    return N_.mul(ctx, N_.transpose(e), x) if side == 0 else N_.mul(ctx, x, e)
def index_select(I, t, d, idx):
    if not isinstance(idx, (IdxV, RankV)) or not isinstance(t, T) or t.is_small(): raise Unsupported('index_select')
    d = TT.axis_no(d, t.ndim()); t.chk(); rec = idx.rec; a = [f for f in t.axes[d] if isinstance(f, B) or f != 1]
    if len(a) != 1 or not isinstance(a[0], B) or dim_eq(I.ctx, a[0].d, rec.K) is not True: raise Unsupported('index_select along another axis')
    arr = TT.mapent(t, lambda v: cutm(I.ctx, v, rec, 0 if a[0].tag == 'R' else 1))
    return T(arr, t.axes[:d]+[[B(rec.D, a[0].tag)]]+t.axes[d+1:])
def expand_svd(ctx, x):
    """rewrite E E^T S -> S, S E E^T -> S, U_i S V_j^dagger -> M_ij until nothing changes"""
    svds = ctx.__dict__.get('svds', {})
    if not svds: return x
    for _ in range(200):
        out = []; hit = False
        for c, w in x.t:
            r = None if hit and False else rewrite(svds, w)
            if r is None: out.append((c, w)); continue
            hit = True
            for d, v in r: out.append((c*d, v))
        if not hit: return x
        x = N_.simp(ctx, NC(out, x.r, x.c))
    raise Unsupported('singular value rewriting does not end')
def sv(f, k):
    return isinstance(f, Op) and f.name.startswith(k+'#')
def num(f): return int(f.name.split('#')[1])
def rewrite(svds, w):
    for i in range(len(w)-2):
        a, b, c = w[i:i+3]
        if sv(a, 'E') and sv(b, 'E') and not a.tr and b.tr and num(a) == num(b) and sv(c, 'S') and num(c) == num(a): return [(P.const(1), w[:i]+w[i+2:])]
        if sv(a, 'S') and sv(b, 'E') and sv(c, 'E') and not b.tr and c.tr and num(a) == num(b) == num(c): return [(P.const(1), w[:i+1]+w[i+3:])]
        if sv(b, 'S') and num(b) in svds:
            n = num(b); rec = svds[n]
            if sv(a, 'U') and sv(c, 'V') and num(a) == num(c) == n and not a.conj and not a.tr and c.conj and c.tr:
                m = entry(rec.M, a.idx, c.idx)
                return [(d, w[:i]+v+w[i+3:]) for d, v in m.t]
            if sv(a, 'V') and sv(c, 'U') and num(a) == num(c) == n:
                # adjoint / transpose / conjugate of the same
                m = entry(rec.M, c.idx, a.idx)
                if not a.conj and not a.tr and c.conj and c.tr: m = N_.dagger(m)
                elif a.conj and not a.tr and not c.conj and c.tr: m = N_.transpose(m)
                else: continue
                return [(d, w[:i]+v+w[i+3:]) for d, v in m.t]
    return None
# ------------------------------------------------------------------ products of neighbouring swaps
def swappy(ctx, f):
    """can a member of the product be a single swap? (the answer only saves work)"""
    if f.swappy is None:
        from .specs import SW
        k = ctx.var('k'); f.swappy = False
        def one(r): return len(r) == 1 and isinstance(r[0], Loc) and len(r[0].wires) == 2 and N_.sp_eq(ctx, r[0].m, SW) is True
        try:
            for r in ctx.explore(lambda: f.body(k), [k >= 0, k < z(f.n)]):
                if one(r) or one(N_.reduce_word(ctx, tuple(r))): f.swappy = True; break
        except (Unsupported, Exc): f.swappy = True
    return f.swappy
def swapform(ctx, f, cache):
    """Prod of neighbouring swaps (lo(k), lo(k)+1), lo(k) = lo0 +- k  ->  (lo0, n, +-1) or None"""
    from .specs import SW
    if not isinstance(f, Prod): return None
    c = cache
    if id(f) in c: return c[id(f)][1]
    r = None
    try: r = _swapform(ctx, f, SW)
    except (Unsupported, Exc): r = None
    c[id(f)] = (f, r); return r
def _swapform(ctx, f, SW):
    k = ctx.var('k'); got = []
    for r in ctx.explore(lambda: f.body(k), [k >= 0, k < z(f.n)]):
        w = N_.reduce_word(ctx, tuple(r))
        if len(w) != 1 or not isinstance(w[0], Loc) or len(w[0].wires) != 2 or N_.sp_eq(ctx, w[0].m, SW) is not True: return None
        a, b = z(w[0].wires[0]), z(w[0].wires[1])
        if ctx.valid(b == a+1) is True: lo = a
        elif ctx.valid(a == b+1) is True: lo = b
        else: return None
        got.append(lo)
    if not got or any(not z3.simplify(g).eq(z3.simplify(got[0])) for g in got): return None
    lo = z3.simplify(got[0]); at = lambda t: simp(z3.substitute(lo, (k, z(t))))
    from .loops import bad_cond
    if bad_cond(lo, k): return None
    for d in (1, -1):
        if ctx.valid(z(at(k+1)) - z(lo) == d) is True: return (at(0), f.n, d)
    return None
def move(ctx, sw, x):
    """position to which the swaps carry the qubit at x (applied k = 0, 1, ...)"""
    lo, n, d = sw
    start, end = (z(lo), z(lo)+z(n)) if d == 1 else (z(lo)+1, z(lo)+1-z(n))
    if ctx.decide(z(x) == start): return simp(end)
    inr = z3.And(z(x) > start, z(x) <= end) if d == 1 else z3.And(z(x) < start, z(x) >= end)
    if ctx.decide(inr): return simp(z(x)-d)
    return x
def inverse(ctx, a, b):
    """are the swap families a (left) and b (right) inverse to each other?"""
    (l, n, d), (m, p, e) = a, b
    return d == -e and ctx.valid(z3.And(z(n) == z(p), z(l) == z(m)+e*(z(p)-1))) is True
def perm_norm(ctx, w):
    """cancel products of neighbouring swaps against their inverses, moving local factors out of the way"""
    w = list(w)
    if not any(isinstance(f, Prod) for f in w): return tuple(w)
    cache = {}; w2 = []
    for f in w:
        m = small_n(ctx, f.n) if isinstance(f, Prod) else None
        if m is None or m > 4: w2.append(f)
        else:
            for k in range(m-1, -1, -1): w2 += list(f.body(k))
    if not any(swappy(ctx, f) for f in w2 if isinstance(f, Prod)): return tuple(N_.reduce_word(ctx, tuple(w2)))
    w2 = split_ends(ctx, w2, cache)
    w = list(N_.reduce_word(ctx, tuple(w2)))
    for _ in range(60):
        i, b = next(((i, swapform(ctx, f, cache)) for i, f in enumerate(w) if isinstance(f, Prod) and swapform(ctx, f, cache) and _partner(ctx, w, i, cache)), (None, None))
        if i is None: break
        j, kind = _partner(ctx, w, i, cache)           # w[j] (left) cancels w[i] (right); everything in between is moved left past w[j]
        a = swapform(ctx, w[j], cache)
        mid = w[j+1:i]; newmid = []
        for f in mid:
            if isinstance(f, Loc): newmid.append(Loc(f.N, tuple(move(ctx, a, x) for x in f.wires), f.m))
            else: newmid.append(f)              # disjoint
        if kind == 'eq': w = w[:j] + newmid + w[i+1:]
        elif kind == 'peel_r':                  # the right family is one longer: its last swap stays
            P1 = w[i]; last = [Loc(g.N, tuple(move(ctx, a, x) for x in g.wires), g.m) for g in P1.body(simp(z(P1.n)-1))]
            w = w[:j] + newmid + last + w[i+1:]
        else:                                   # the left family is one longer: its first swap stays on the right end
            P2 = w[j]; first = list(P2.body(0))
            # P2 = Q . first ; Q cancels P1:  P2 mid P1 = Q first mid P1
            q = (simp(z(a[0])+a[2]), simp(z(a[1])-1), a[2])
            seq = first + mid
            w = w[:j] + [Loc(f.N, tuple(move(ctx, q, x) for x in f.wires), f.m) if isinstance(f, Loc) else f for f in seq] + w[i+1:]
        w = list(N_.reduce_word(ctx, tuple(w)))
    return tuple(w)
def split_ends(ctx, w, cache):
    """a family that is a run of swaps except for its last (or first) member: take that member out"""
    out = []
    for f in w:
        if isinstance(f, Prod) and swapform(ctx, f, cache) is None and ctx.valid(z(f.n) >= 2) is True:
            n1 = simp(z(f.n)-1)
            a = Prod(f.N, n1, f.body); b = Prod(f.N, n1, lambda k, f=f: f.body(simp(z(k)+1)))
            if swapform(ctx, a, cache): out += list(f.body(n1))+[a]; continue
            if swapform(ctx, b, cache): out += [b]+list(f.body(0)); continue
        out.append(f)
    return out
def small_n(ctx, n):
    """the value of n when the path condition determines it"""
    if isinstance(n, int): return max(n, 0)
    m = ctx.model()
    if m is None: return None
    v = m.eval(n, model_completion=True)
    if not z3.is_int_value(v): return None
    v = v.as_long()
    return max(v, 0) if ctx.valid(n == v) is True else None
def _partner(ctx, w, i, cache):
    b = swapform(ctx, w[i], cache)
    for j in range(i-1, -1, -1):
        f = w[j]
        if isinstance(f, Loc): continue
        a = swapform(ctx, f, cache) if isinstance(f, Prod) else None
        if a is None: return None
        if inverse(ctx, a, b): return (j, 'eq')
        bl = (b[0], simp(z(b[1])-1), b[2])     # without the last swap
        if ctx.valid(z(b[1]) >= 1) is True and inverse(ctx, a, bl): return (j, 'peel_r')
        al = (simp(z(a[0])+a[2]), simp(z(a[1])-1), a[2])
        if ctx.valid(z(a[1]) >= 1) is True and inverse(ctx, al, b): return (j, 'peel_l')
        if not N_.disjoint(ctx, f, w[i]): return None
    return None
