"""Non-commutative algebra of (possibly exponentially large) matrices.

NC = sum of  coef * word ;  word = tuple of factors, a product of matrices, leftmost factor first.
Factors:
  Loc(N, wires, m)    sparse exact matrix m acting on the listed (symbolic, distinct) wires of N qubits, identity elsewhere
  Kron(N, sl)         Kronecker product of the N 2x2 matrices of a symbolic list
  Prod(N, n, body)    body(n-1) . ... . body(1) . body(0)   (index 0 acts first); body(k) -> tuple of factors
  Op(name, idx, ...)  opaque matrix, with conjugate/transpose flags and dimensions
"""
import z3
from .scalar import P, Unsupported
from .smt import peq, eqs, same
from .vals import Dim, dim_eq
class Factor: pass
class Loc(Factor):
    def __init__(s, N, wires, m): s.N, s.wires, s.m = N, tuple(wires), m   # m: {(r,c): P}
    def __repr__(s): return f'Loc{list(s.wires)}{s.m}'
class Kron(Factor):
    def __init__(s, N, sl, conj=False, tr=False): s.N, s.sl, s.conj, s.tr = N, sl, conj, tr
    def __repr__(s): return f'Kron({s.sl})'
class Prod(Factor):
    swappy = None
    def __init__(s, N, n, body): s.N, s.n, s.body = N, n, body
    def __repr__(s): return f'Prod[{s.n}]'
class Op(Factor):
    """opaque; herm: equals its conjugate transpose. unitary: cancels with its adjoint. det: cut from the autograd graph"""
    det = False
    def __init__(s, name, idx=(), r=None, c=None, conj=False, tr=False, herm=False, unitary=False, real=False):
        s.name, s.idx, s.r, s.c, s.conj, s.tr, s.herm, s.unitary, s.real = name, tuple(idx), r, c, conj, tr, herm, unitary, real
        if herm and conj and tr: s.conj = s.tr = False
        elif herm and conj: s.conj, s.tr = False, True
        if real: s.conj = False
        if tr and r is not None and c is not None and Dim.of(r).const() == 1 and Dim.of(c).const() == 1: s.tr = False
    def flip(s, conj, tr):
        o = Op(s.name, s.idx, s.c if tr else s.r, s.r if tr else s.c, s.conj ^ conj, s.tr ^ tr, s.herm, s.unitary, s.real)
        if s.det: o.det = True
        return o
    def __repr__(s): return s.name + (str(list(s.idx)) if s.idx else '') + ('^' + ('*' if s.conj else '') + ('T' if s.tr else '') if s.conj or s.tr else '')
class Sum(Factor):
    """body(0) + .. + body(n-1), body(k) -> NC of dimensions r x c"""
    def __init__(s, n, body, r, c): s.n, s.body, s.r, s.c = n, body, r, c
    def __repr__(s): return f'Sum[{s.n}]'
class Tr(Factor):
    """the number tr(word), as a 1x1 factor"""
    def __init__(s, w): s.w = tuple(w)
    def __repr__(s): return f'tr{list(s.w)}'
def trace(ctx, m):
    """1x1 value: the trace of a square matrix"""
    known = ctx.__dict__.get('traces', {}); ts = []
    for c, w in m.t:
        w = tuple(w)
        if len(w) == 1 and isinstance(w[0], Op) and w[0].name in known: ts.append((c*(known[w[0].name].conj() if w[0].conj else known[w[0].name]), ()))
        elif not w:
            d = Dim.of(m.r)
            if d.const() is None: raise Unsupported('trace of an identity of symbolic size')
            ts.append((c*d.const(), ()))
        else: ts.append((c, (Tr(w),)))
    return simp(ctx, NC(ts, Dim(1), Dim(1)))
def sp_mul(a, b):
    rows = {}
    for (r, c), v in b.items(): rows.setdefault(r, []).append((c, v))
    out = {}
    for (r, k), v in a.items():
        for c, w in rows.get(k, ()):
            x = v*w
            if (r, c) in out: x = out[(r, c)] + x
            out[(r, c)] = x
    return {k: v for k, v in out.items() if not v.is_zero()}
def sp_add(a, b):
    out = dict(a)
    for k, v in b.items():
        x = out[k] + v if k in out else v
        if x.is_zero(): out.pop(k, None)
        else: out[k] = x
    return out
def sp_scale(c, a): return {k: v for k, v in ((k, c*v) for k, v in a.items()) if not v.is_zero()}
def sp_eye(d): return {(i, i): P.const(1) for i in range(d)}
def sp_eq(ctx, a, b):
    out = True
    for k in set(a) | set(b):
        r = peq(ctx, a.get(k, P()), b.get(k, P()))
        if r is False: return False
        if r is None: out = None
    return out
def embed(m, k, pos, K):
    """matrix on k wires placed at positions pos of K wires (wire 0 most significant)"""
    rest = [i for i in range(K) if i not in pos]; out = {}
    for x in range(2**len(rest)):
        base = 0
        for j, q in enumerate(rest):
            if x >> (len(rest)-1-j) & 1: base |= 1 << (K-1-q)
        for (r, c), v in m.items():
            R = C = base
            for j, q in enumerate(pos):
                if r >> (k-1-j) & 1: R |= 1 << (K-1-q)
                if c >> (k-1-j) & 1: C |= 1 << (K-1-q)
            out[(R, C)] = v
    return out
def weq(ctx, a, b):
    if same((a,), (b,)): return True
    return ctx.decide(a == b)
def align(ctx, A, B):
    """both matrices on the union of the two wire lists"""
    W = list(A.wires); pos = []
    for w in B.wires:
        for i, v in enumerate(W):
            if i < len(A.wires) and weq(ctx, v, w): pos.append(i); break
        else: W.append(w); pos.append(len(W)-1)
    if len(W) > 6: raise Unsupported('operator supported on more than 6 wires')
    return W, embed(A.m, len(A.wires), list(range(len(A.wires))), len(W)), embed(B.m, len(B.wires), pos, len(W))
def trim(L):
    """drop wires on which the matrix is the identity"""
    k = len(L.wires)
    for j in range(k):
        b = 1 << (k-1-j); ok = True; red = {}
        for (r, c), v in L.m.items():
            if (r & b) != (c & b): ok = False; break
            if r & b:
                if L.m.get((r ^ b, c ^ b)) != v: ok = False; break
            else:
                if L.m.get((r | b, c | b)) != v: ok = False; break
                low = b-1
                red[((r >> 1) & ~low | r & low, (c >> 1) & ~low | c & low)] = v
        if ok: return trim(Loc(L.N, L.wires[:j]+L.wires[j+1:], red))
    return L
def disjoint(ctx, a, b):
    """do two factors certainly act on disjoint wires?"""
    if isinstance(a, Loc) and isinstance(b, Loc):
        return all(ctx.valid(x != y) is True for x in a.wires for y in b.wires)
    if isinstance(a, Prod) and isinstance(b, (Loc, Prod)):
        k = ctx.var('k')
        return ctx.forall(lambda: all(disjoint(ctx, f, b) for f in a.body(k)), [k >= 0, k < a.n]) is True
    if isinstance(b, Prod): return disjoint(ctx, b, a)
    return False
class NC:
    """value: sum over terms (coef, word); r, c: dimensions"""
    def __init__(s, terms, r, c): s.t, s.r, s.c = terms, r, c
    def __repr__(s): return ' + '.join(f'{c}·{list(w)}' for c, w in s.t) or '0'
def nc_zero(r, c): return NC([], r, c)
def nc_id(r): return NC([(P.const(1), ())], r, r)
def nc_loc(N, wires, m): return NC([(P.const(1), (Loc(N, wires, m),))], Dim.pow2(N), Dim.pow2(N))
def nc_op(o): return NC([(P.const(1), (o,))], o.r, o.c)
def reduce_word(ctx, w):
    """merge neighbouring local factors (commuting past disjoint ones is left to comparison)"""
    out = []
    for f in w:
        if isinstance(f, Kron):
            out2 = kron_to_factors(ctx, f)
        else: out2 = [f]
        for g in out2:
            if isinstance(g, Loc) and out and isinstance(out[-1], Loc):
                a = out[-1]
                n = len(a.wires) + sum(1 for x in g.wires if not any(same((x,), (y,)) for y in a.wires))
                if n <= 4 or _union(ctx, a, g) <= 4:
                    W, A, B = align(ctx, a, g)
                    out.pop(); g = trim(Loc(a.N, W, sp_mul(A, B)))
            if isinstance(g, Loc) and not g.wires:
                s = g.m.get((0, 0), P())
                if s == P.const(1): continue
                if out and isinstance(out[-1], Loc):
                    a = out.pop(); out.append(Loc(a.N, a.wires, sp_scale(s, a.m))); continue
            if isinstance(g, Prod) and isinstance(g.n, int) and g.n == 0: continue
            if isinstance(g, Op) and g.name == 'unit' and g.tr and out and isinstance(out[-1], Op) and out[-1].name == 'unit' and not out[-1].tr:
                a = out.pop(); out.append(Op('E', a.idx+g.idx, a.r, g.c, real=True, herm=same(a.idx, g.idx))); continue    # |i><j|
            if isinstance(g, Op) and g.unitary and out and isinstance(out[-1], Op) and out[-1].name == g.name and same(out[-1].idx, g.idx) \
               and (g.conj ^ out[-1].conj) and (g.tr ^ out[-1].tr):
                out.pop(); continue
            if isinstance(g, Op) and g.name == 'bra' and not g.tr and out and isinstance(out[-1], Op) and out[-1].name == 'bra' and out[-1].tr and g.idx[2] == out[-1].idx[2] \
               and (same(g.idx[:2], out[-1].idx[:2]) or ctx.valid(z3.IntVal(0)+g.idx[0] == out[-1].idx[0]) is True and g.idx[1] == out[-1].idx[1]):
                N = qubits(g.c)
                if N is not None: out[-1] = Loc(N, (g.idx[0],), {(g.idx[1], g.idx[1]): P.const(1)}); continue
            out.append(g)
    return tuple(out)
def qubits(d): d = Dim.of(d); return d.e if d.k == 1 and not d.b else None
def bra(s, b, N):
    """<b| on wire s of N, identity on the other wires: 2^(N-1) x 2^N"""
    return Op('bra', (s, b, 0), Dim.pow2(simp_(N-1) if z3.is_expr(N) else N-1), Dim.pow2(N), real=True)
def _union(ctx, a, b):
    return len(a.wires) + sum(1 for x in b.wires if not any(ctx.valid(x == y) is True if not isinstance(x == y, bool) else x == y for y in a.wires))
def simp(ctx, x):
    ts = []
    for c, w in x.t:
        w = reduce_word(ctx, w)
        # pull scalars out of empty-support local factors
        w2 = []
        for f in w:
            if isinstance(f, Loc) and not f.wires: c = c * f.m.get((0, 0), P())
            elif isinstance(f, Loc) and not f.m: c = P()
            else: w2.append(f)
        if not c.is_zero(): ts.append((c, tuple(w2)))
    # add up words that differ in at most one local factor
    out = []
    for c, w in ts:
        for i, (c2, w2) in enumerate(out):
            m = _merge(ctx, c, w, c2, w2)
            if m is not None:
                if m == 'zero': out.pop(i)
                else: out[i] = m
                break
        else: out.append((c, w))
    return NC(out, x.r, x.c)
def fid(f, g):
    """cheap syntactic identity of two factors"""
    if f is g: return True
    if isinstance(f, Op) and isinstance(g, Op):
        return f.name == g.name and same(f.idx, g.idx) and f.conj == g.conj and f.tr == g.tr
    return False
def _merge(ctx, c, w, c2, w2, fid=fid):
    p = 0
    while p < len(w) and p < len(w2) and fid(w[p], w2[p]): p += 1
    q = 0
    while q < len(w)-p and q < len(w2)-p and fid(w[-1-q], w2[-1-q]): q += 1
    a, b = w[p:len(w)-q], w2[p:len(w2)-q]
    if not a and not b:
        s = c + c2
        return 'zero' if s.is_zero() else (s, w)
    if len(a) <= 1 and len(b) <= 1 and all(isinstance(f, Loc) for f in a+b):
        N = (a+b)[0].N
        A = a[0] if a else Loc(N, (), sp_eye(1)); B = b[0] if b else Loc(N, (), sp_eye(1))
        if _union(ctx, A, B) > 4: return None
        W, x, y = align(ctx, A, B)
        m = sp_add(sp_scale(c, x), sp_scale(c2, y))
        if not m: return 'zero'
        L = trim(Loc(N, W, m))
        if not L.wires: return (L.m.get((0, 0), P()), w[:p] + w[len(w)-q:])
        return (P.const(1), w[:p] + (L,) + w[len(w)-q:])
    return None
def kron_exceptions(ctx, K):
    """a Kronecker list that is the identity except at finitely many named positions -> Loc factors, else None"""
    sl = K.sl; j = ctx.var('j'); cand = []; n0 = len(ctx.pc); f0 = ctx.fresh
    def eqs(c):
        if z3.is_eq(c):
            for a, b in (c.children(), c.children()[::-1]):
                if a.eq(j) and z3.is_int(b) and not mentions_(b, j): yield b
                elif z3.is_add(a) and z3.is_int(a):
                    d = z3.simplify(j-(a-b), som=True)          # a == b  <=>  j == j-(a-b)
                    if not mentions_(d, j): yield d
        for x in c.children():
            if z3.is_bool(x): yield from eqs(x)
    def probe():
        v = sl.get(ctx, j)
        for c in ctx.pc[n0:]:
            for t in eqs(c):
                if not any(t.eq(x) for x in cand): cand.append(t)
        return as_sp(v, 2, ctx)
    try:
        vals = list(ctx.explore(probe, [j >= 0, j < K.N]))
        if not cand or len(cand) > 4 or any(v is None for v in vals): return None
        from .loops import fresh_vars
        if any(fresh_vars(t, f0) for t in cand): return None
        if any(ctx.valid(z3.And(t >= 0, t < K.N)) is not True for t in cand): return None
        if any(ctx.valid(a != b) is not True for i, a in enumerate(cand) for b in cand[:i]): return None
        I2 = sp_eye(2)
        if ctx.forall(lambda: sp_eq(ctx, as_sp(sl.get(ctx, j), 2, ctx), I2), [j >= 0, j < K.N] + [j != t for t in cand]) is not True: return None
        out = []
        for t in cand:
            ms = list(ctx.explore(lambda: as_sp(sl.get(ctx, simp_(t)), 2, ctx), []))
            if not ms or any(m is None or sp_eq(ctx, m, ms[0]) is not True for m in ms): return None
            m = ms[0]
            if K.conj: m = {k: v.conj() for k, v in m.items()}
            if K.tr: m = {(c, r): v for (r, c), v in m.items()}
            if sp_eq(ctx, m, I2) is not True: out.append(Loc(K.N, (simp_(t),), m))
        return out
    except (Unsupported, TypeError): return None
def mentions_(t, v): return t.eq(v) or any(mentions_(c, v) for c in t.children())
def kron_to_factors(ctx, K):
    """Kronecker list with constant identity base and finitely many / injectively many updates -> Loc / Prod factors.
    Different tensor positions commute, so a later update of the same position replaces the earlier one."""
    from .vals import SL, Pt, Fam
    sl = K.sl
    if isinstance(sl, SL) and sl.base_const is None and not sl.stores:
        r = kron_exceptions(ctx, K)
        return [K] if r is None else r
    if not (isinstance(sl, SL) and sl.base_const is not None): return [K]
    base = as_sp(sl.base_const, 2, ctx)
    if base is None or sp_eq(ctx, base, sp_eye(2)) is not True: return [K]
    def flip(m):
        if K.conj: m = {k: v.conj() for k, v in m.items()}
        if K.tr: m = {(c, r): v for (r, c), v in m.items()}
        return m
    out = []          # list of factors on pairwise distinct positions
    for st in sl.stores:
        if isinstance(st, Pt):
            keep = []
            for f in out:
                if isinstance(f, Loc):
                    if weq(ctx, f.wires[0], st.idx): continue
                else:
                    k = ctx.var('k')
                    if ctx.forall(lambda: ctx.valid(f.body(k)[0].wires[0] != st.idx), [k >= 0, k < f.n]) is not True: return [K]
                keep.append(f)
            m = as_sp(st.val, 2, ctx)
            if m is None: return [K]
            out = keep + [Loc(K.N, (st.idx,), flip(m))]
        else:
            # a family: positions idx(k), 0<=k<n; must be injective and either disjoint from earlier ones
            a, b = ctx.var('a'), ctx.var('b')
            if ctx.forall(lambda: ctx.valid(st.idx(a) != st.idx(b)), [a >= 0, a < b, b < st.n]) is not True:
                # repeated positions are harmless when the value does not depend on k: keep as a set-family
                return [K]
            for f in out:
                if isinstance(f, Loc):
                    if ctx.forall(lambda: ctx.valid(st.idx(a) != f.wires[0]), [a >= 0, a < st.n]) is not True: return [K]
                else:
                    if ctx.forall(lambda: ctx.valid(st.idx(a) != f.body(b)[0].wires[0]), [a >= 0, a < st.n, b >= 0, b < f.n]) is not True: return [K]
            def body(k, st=st):
                m = as_sp(st.val(k), 2, ctx)
                if m is None: raise Unsupported('Kronecker family of unknown matrices')
                return (Loc(K.N, (st.idx(k),), flip(m)),)
            out.append(Prod(K.N, st.n, body))
    return out
def as_kron(ctx, N, w):
    """single-wire factors on pairwise different wires as one Kronecker product over the register"""
    from .vals import SL, Pt, Fam
    from .tensor import T, oarr
    def mat(L):
        if not (isinstance(L, Loc) and len(L.wires) == 1): raise Unsupported('not a single-wire factor')
        a = oarr((2, 2))
        for i in range(2):
            for j in range(2): a[i, j] = L.m.get((i, j), P())
        return T(a)
    I2 = T(oarr((2, 2))); 
    for i in range(2):
        for j in range(2): I2.arr[i, j] = P.const(int(i == j))
    a, b = ctx.var('a'), ctx.var('b'); st = []
    try:
        one = lambda f, k: (lambda x: (x[0].wires[0], mat(x[0])) if len(x) == 1 else _no())(f.body(k))
        for n, f in enumerate(w):
            for g in w[:n]:
                if not disjoint(ctx, f, g): return None
            if isinstance(f, Loc): st.append(Pt(f.wires[0], mat(f)))
            elif isinstance(f, Prod):
                if ctx.forall(lambda: ctx.valid(one(f, a)[0] != one(f, b)[0]), [a >= 0, a < b, b < f.n]) is not True: return None
                st.append(Fam(f.n, lambda k, f=f: one(f, k)[0], lambda k, f=f: one(f, k)[1]))
            else: return None
    except Unsupported: return None
    return Kron(N, SL(N, None, I2, st))
def _no(): raise Unsupported('not a single-wire factor')
def as_sp(v, d, ctx):
    """tensor value -> sparse d x d matrix of scalars, or None"""
    from .tensor import T
    if isinstance(v, T) and v.is_small() and v.arr.shape == (d, d):
        return {(i, j): v.arr[i, j] for i in range(d) for j in range(d) if not v.arr[i, j].is_zero()}
    return None
def add(ctx, a, b):
    if dim_eq(ctx, a.r, b.r) is False or dim_eq(ctx, a.c, b.c) is False: raise Unsupported('adding matrices of different sizes')
    return simp(ctx, NC(a.t + b.t, a.r, a.c))
def scale(ctx, c, a): return NC([(c*x, w) for x, w in a.t if not (c*x).is_zero()], a.r, a.c)
def mul(ctx, a, b):
    if dim_eq(ctx, a.c, b.r) is not True:
        raise Unsupported(f'product of matrices with inner dimensions {a.c} and {b.r}')
    return simp(ctx, NC([(x*y, u+v) for x, u in a.t for y, v in b.t], a.r, b.c))
def flipf(f, conj, tr):
    if isinstance(f, Loc):
        m = f.m
        if conj: m = {k: v.conj() for k, v in m.items()}
        if tr: m = {(c, r): v for (r, c), v in m.items()}
        return Loc(f.N, f.wires, m)
    if isinstance(f, Kron): return Kron(f.N, f.sl, f.conj ^ conj, f.tr ^ tr)
    if isinstance(f, Prod):
        def body(k, f=f):
            kk = f.n - 1 - k if tr else k
            w = [flipf(g, conj, tr) for g in f.body(kk)]
            return tuple(reversed(w)) if tr else tuple(w)
        p = Prod(f.N, f.n, body); p.swappy = f.swappy; return p
    if isinstance(f, Sum):
        g = lambda m: dagger(m) if conj and tr else globals()['conj'](m) if conj else transpose(m) if tr else m
        return Sum(f.n, lambda k: g(f.body(k)), f.c if tr else f.r, f.r if tr else f.c)
    if isinstance(f, Tr): return Tr(tuple(flipf(g, True, True) for g in reversed(f.w))) if conj else f
    return f.flip(conj, tr)
def conj(a): return NC([(c.conj(), tuple(flipf(f, True, False) for f in w)) for c, w in a.t], a.r, a.c)
def transpose(a): return NC([(c, tuple(flipf(f, False, True) for f in reversed(w))) for c, w in a.t], a.c, a.r)
def dagger(a): return conj(transpose(a))

# ------------------------------------------------------------------ equality
def factor_eq(ctx, f, g):
    if f is g: return True
    if isinstance(f, Loc) and isinstance(g, Loc):
        W, A, B = align(ctx, f, g)
        return sp_eq(ctx, A, B)
    if isinstance(f, Op) and isinstance(g, Op):
        if f.name != g.name or f.conj != g.conj or f.tr != g.tr or len(f.idx) != len(g.idx): return None
        return True if all(x == y if isinstance(x == y, bool) else ctx.valid(x == y) is True for x, y in zip(f.idx, g.idx)) else None
    if isinstance(f, Tr) and isinstance(g, Tr):
        # cyclic invariance, and tr(w) = tr(w^T)
        t = tuple(flipf(h, False, True) for h in reversed(f.w))
        kinds = lambda w: [(type(h), h.name if isinstance(h, Op) else None) for h in w]; kg = kinds(reduce_word(ctx, g.w))
        for w, i in sorted(((w, i) for w in (f.w, t) for i in range(max(1, len(w)))), key=lambda p: kinds(p[0][p[1]:]+p[0][:p[1]]) != kg):
                if word_eq(ctx, reduce_word(ctx, w[i:]+w[:i]), reduce_word(ctx, g.w)) is True: return True
        return None
    if isinstance(f, Prod) and isinstance(g, Prod):
        e = f.n == g.n
        if not (e if isinstance(e, bool) else ctx.valid(e)): return None
        k = ctx.var('k'); rng = [k >= 0, k < f.n]
        cmp_ = lambda q: lambda: word_eq(ctx, reduce_word(ctx, tuple(f.body(k))), reduce_word(ctx, tuple(g.body(q(k)))))
        r = ctx.forall(cmp_(lambda k: k), rng)
        if r is True: return True
        # members on disjoint wires commute: compare with the members of one side in the opposite order
        a, b = ctx.var('a'), ctx.var('b')
        if ctx.forall(cmp_(lambda k: simp_(z3.IntVal(0)+f.n-1-k)), rng) is True and ctx.forall(lambda: True if all(disjoint(ctx, x, y) for x in f.body(a) for y in f.body(b)) else None, [a >= 0, a < b, b < f.n]) is True: return True
        # members that differ need not make the products differ, except when there is only one
        if isinstance(f.n, int): return r if f.n == 1 else None
        if r is False and ctx.check(f.n == 1) == 'sat':
            only = ctx.all(lambda: word_eq(ctx, reduce_word(ctx, tuple(f.body(z3.IntVal(0)))), reduce_word(ctx, tuple(g.body(z3.IntVal(0))))), [f.n == 1])
            if only and all(x is False for x in only): ctx.only = [f.n == 1]; return False
        return None
    if isinstance(f, Sum) and isinstance(g, Sum):
        e = f.n == g.n
        if not (e if isinstance(e, bool) else ctx.valid(e) is True): return None
        k = ctx.var('k'); r = ctx.forall(lambda: nc_eq(ctx, f.body(k), g.body(k)), [k >= 0, k < f.n])
        return True if r is True else None
    if isinstance(f, Kron) and isinstance(g, Kron):
        j = ctx.var('j')
        def at():
            a, b = as_sp(f.sl.get(ctx, j), 2, ctx), as_sp(g.sl.get(ctx, j), 2, ctx)
            if a is None or b is None: return None
            for h, n in ((f, 0), (g, 1)):
                x = (a, b)[n]
                if h.conj: x = {k: v.conj() for k, v in x.items()}
                if h.tr: x = {(c, r): v for (r, c), v in x.items()}
                if n == 0: a = x
                else: b = x
            return sp_eq(ctx, a, b)
        return ctx.forall(at, [j >= 0, j < f.N])
    return None
def word_eq(ctx, u, v):
    if any(isinstance(f, Kron) for f in u) != any(isinstance(f, Kron) for f in v):
        k, o = (u, v) if any(isinstance(f, Kron) for f in u) else (v, u)
        K = as_kron(ctx, k[0].N, o) if len(k) == 1 else None
        if K is not None and factor_eq(ctx, k[0], K) is True: return True
    r = _word_eq(ctx, u, v)
    if r is not True and len(u) != len(v):
        # products over an empty range are the identity
        u2, v2 = [[f for f in w if not (isinstance(f, Prod) and ctx.valid((z3.IntVal(f.n) if isinstance(f.n, int) else f.n) <= 0) is True)] for w in (u, v)]
        if len(u2)+len(v2) < len(u)+len(v): r = _word_eq(ctx, u2, v2)
    if r is not True and any(isinstance(f, Prod) for f in u+v) and not all(any(isinstance(f, Prod) for f in w) for w in (u, v)):
        # a product whose length is determined is written out
        u2, v2 = unroll(ctx, u), unroll(ctx, v)
        if u2 is not None and v2 is not None: r = _word_eq(ctx, u2, v2)
    return r
def unroll(ctx, w, most=5):
    out = []
    for f in w:
        if not isinstance(f, Prod): out.append(f); continue
        for c in range(1, most+1):
            if f.n == c if isinstance(f.n, int) else ctx.valid(f.n == c) is True: break
        else: return None
        for q in range(c-1, -1, -1): out += list(f.body(z3.IntVal(q)))
    return reduce_word(ctx, tuple(out))
def _word_eq(ctx, u, v):
    from .mps import perm_norm
    u, v = list(perm_norm(ctx, u)), list(perm_norm(ctx, v))
    definite = all(isinstance(f, Loc) for f in u+v)
    if definite:
        # product of local factors: multiply out when the joint support is small enough
        try: return _small_eq(ctx, u, v)
        except Unsupported: pass
    fails = None
    while u:
        f = u.pop(0); hit = None
        for i, g in enumerate(v):
            r = factor_eq(ctx, f, g) if type(f) is type(g) else None
            if r is True: hit = i; break
            if r is False and fails is None and len(u) == 0 and len(v) == 1: fails = False
            if not disjoint(ctx, f, g): break
        if hit is None:
            # peel a Prod against its first/last member
            return _peel(ctx, [f]+u, v, fails)
        v.pop(hit)
    if v:
        return None if not all(isinstance(g, Prod) and ctx.valid(g.n == 0) is True for g in v) else True
    return True
from .vals import simp as simp_
def _split_prods(ctx, u, v):
    """words with equally many products, one of them c members longer on one side: split c members off its ends"""
    pu, pv = [i for i, f in enumerate(u) if isinstance(f, Prod)], [i for i, f in enumerate(v) if isinstance(f, Prod)]
    if not pu or len(pu) != len(pv): return None
    for i, j in zip(pu, pv):
        d = u[i].n - v[j].n
        if ctx.valid(d == 0) is True if not isinstance(d, int) else d == 0: continue
        for c in (1, 2, 3, 4, -1, -2, -3, -4):
            if (d == c) if isinstance(d, int) else ctx.valid(d == c) is True: break
        else: return None
        a, ia, b = (u, i, v) if c > 0 else (v, j, u); c = abs(c); Q = a[ia]
        if ctx.valid(Q.n >= c if not isinstance(Q.n, int) else Q.n >= c) is not True: return None
        for cb in range(c+1):
            cf = c-cb
            mid = [g for q in range(cf) for g in Q.body(simp_(Q.n-1-q))] + [Prod(Q.N, simp_(Q.n-c), lambda k, cb=cb: Q.body(simp_(k+cb)))] + [g for q in range(cb-1, -1, -1) for g in Q.body(q)]
            try: r = word_eq(ctx, reduce_word(ctx, tuple(a[:ia])+tuple(mid)+tuple(a[ia+1:])), tuple(b))
            except Unsupported: r = None
            if r is True: return True
        return None
    return None
def _peel(ctx, u, v, dflt):
    """compare after splitting the first (leftmost = last applied) member off a Prod when the other side has a Loc there"""
    r = _split_prods(ctx, u, v)
    if r is True: return r
    while u and v and type(u[-1]) is type(v[-1]) and factor_eq(ctx, u[-1], v[-1]) is True: u, v = u[:-1], v[:-1]
    for a, b in ((u, v), (v, u)):
        if a and b and isinstance(a[-1], Prod) and not isinstance(b[-1], Prod) and ctx.valid(a[-1].n > 0) is True:
            P0 = a[-1]
            a2 = a[:-1] + [Prod(P0.N, simp_(P0.n-1), lambda k, P0=P0: P0.body(simp_(k+1)))] + list(reduce_word(ctx, tuple(P0.body(0))))
            if len(a2) > 12: return dflt
            return word_eq(ctx, reduce_word(ctx, tuple(a2)), tuple(b))
        if a and b and isinstance(a[0], Prod) and not isinstance(b[0], Prod) and ctx.valid(a[0].n > 0) is True:
            P0 = a[0]
            a2 = list(reduce_word(ctx, tuple(P0.body(P0.n-1)))) + [Prod(P0.N, P0.n-1, P0.body)] + a[1:]
            if len(a2) > 12: return dflt
            return word_eq(ctx, reduce_word(ctx, tuple(a2)), tuple(b))
    # a product of products against the same with a member written out
    np_ = lambda w: sum(isinstance(f, Prod) for f in w)
    if np_(u) == np_(v): return dflt
    a, b = (u, v) if np_(u) < np_(v) else (v, u)
    for i, Q in enumerate(a):
        if not isinstance(Q, Prod) or ctx.valid(z3_int(Q.n) > 0) is not True: continue
        for first in (True, False):
            m = list(Q.body(0 if first else simp_(Q.n-1)))
            if not any(isinstance(g, Prod) for g in m): break
            rest = Prod(Q.N, simp_(Q.n-1), (lambda k, Q=Q: Q.body(simp_(k+1))) if first else Q.body)
            a2 = a[:i] + ([rest]+m if first else m+[rest]) + a[i+1:]
            if len(a2) > 12 or np_(a2) > np_(b): continue
            if word_eq(ctx, reduce_word(ctx, tuple(a2)), tuple(b)) is True: return True
    return dflt
def z3_int(n): return z3.IntVal(n) if isinstance(n, int) else n
def _small_eq(ctx, u, v):
    def tot(w):
        if not w: return None
        L = w[0]
        for f in w[1:]:
            W, A, B = align(ctx, L, f); L = Loc(L.N, W, sp_mul(A, B))
        return trim(L)
    a, b = tot(u), tot(v)
    N = (u+v)[0].N if u+v else None
    if a is None and b is None: return True
    a = a or Loc(N, (), sp_eye(1)); b = b or Loc(N, (), sp_eye(1))
    W, A, B = align(ctx, a, b)
    return sp_eq(ctx, A, B)
def nc_eq(ctx, a, b):
    """True: equal for every value of the indeterminates; False: certainly different; None: undecided"""
    if dim_eq(ctx, a.r, b.r) is False or dim_eq(ctx, a.c, b.c) is False: return False
    a, b = simp(ctx, a), simp(ctx, b)
    if not a.t and not b.t: return True
    if len(a.t) == 1 and len(b.t) == 1:
        (c, u), (d, v) = a.t[0], b.t[0]
        cd = peq(ctx, c, d)
        if cd is True: return word_eq(ctx, u, v)
        # absorb scalar into a local factor
        if all(isinstance(f, Loc) for f in u+v):
            N = (u+v)[0].N if u+v else 0
            return _small_eq(ctx, list(u)+[Loc(N, (), {(0, 0): c})], list(v)+[Loc(N, (), {(0, 0): d})])
        return None
    # difference, merged modulo provable equality of factors
    def sem(f, g):
        if fid(f, g): return True
        if type(f) is not type(g): return False
        k = (id(f), id(g))
        if k not in cache: cache[k] = factor_eq(ctx, f, g) is True
        return cache[k]
    cache = {}; acc = []
    for c, w in a.t + [(-d, v) for d, v in b.t]:
        while True:
            for i, (c2, w2) in enumerate(acc):
                m = _merge(ctx, c, w, c2, w2, sem)
                if m is not None:
                    acc.pop(i)
                    if m == 'zero': c = None
                    else: c, w = m
                    break
            else: acc.append((c, w)); break
            if c is None or c.is_zero(): break
    if not acc: return True
    # multiset matching of terms
    rest = list(b.t)
    for c, u in a.t:
        for i, (d, v) in enumerate(rest):
            if peq(ctx, c, d) is True and word_eq(ctx, u, v) is True: rest.pop(i); break
        else: return None
    return True if not rest else None
