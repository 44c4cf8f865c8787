"""C10: state vector -> matrix product state -> state vector is the identity."""
from .common import *
from ..inv import Inv, annotate, carried
from ..interp import Opaque
from ..loops import AccSL, clone_graph
from ..mps import bond, expand_svd
from .c20 import attempt
QT = 'deepquantum.gates.qtensornetwork.'
def one(env, pred, what):
    l = [k for k, v in env.v.items() if pred(v)]
    if len(l) != 1: raise Unsupported(f'loop invariant: {len(l)} candidates for {what}')
    return l[0]
def chi(k): return bond(f'chi[{z3.simplify(z(k)).sexpr()}]')
class Chain(Opaque):
    """result of the conversion: N sites whose product is psi (ghost)"""
    def __init__(s, N, content): s.N, s.content = N, content
    def method(s, I, name, a, k):
        if name == '__len__': return s.N
        raise Unsupported('reading the sites')
class ToMPS(Inv):
    """before iteration k:  A_0[s0]...A_{k-1}[s_{k-1}] . c = psi[s0...s_{k-1}, :],  c of shape (chi_k, 2^(N-k)), k sites in the list.
    Step lemma: it suffices that  A_k[s] . c' = (rows of c selected by the next qubit s)."""
    def __init__(s, N, psi): s.N, s.psi = N, psi
    def init(s, e, env):
        s.ct = carried(s, env, lambda v: isinstance(v, T) and not v.is_small() and v.tok is not s.tok, 'the remaining tensor')
        s.rl = one(env, lambda v: isinstance(v, list) and v == [], 'the list of sites')
        c = TT.as_nc(env.v[s.ct])
        e.eq('invariant before the loop', env.v[s.ct], N_.transpose(s.psi))
        s.early = e.ctx.valid(z(s.n) == s.N-1) is True          # the last site is made after the loop
        e.check('as many iterations as qubits, or one less', s.early or e.ctx.valid(z(s.n) == s.N), f'{s.n}')
    def havoc(s, e, env, k):
        R = bond('chi'); last = e.ctx.decide(k == s.N-1); C = Dim(1) if last else Dim.pow2(simp(s.N-k-1)); a = oarr((2,))
        for q in range(2): a[q] = N_.nc_op(Op('c', (q,), R, C))
        env.v[s.ct] = T(a, [[B(R, 'R')], [2] if last else [2, B(C, 'C')]]); env.v[s.rl] = s.acc = AccSL(k); s.R, s.C = R, C
    def post(s, e, env, k):
        ctx = e.ctx; l = env.v[s.rl]
        s.site(e, env, l, k)
    def site(s, e, env, l, k):
        ctx = e.ctx
        if not isinstance(l, AccSL) or len(l.appended) != 1 or l.stores: e.check('one site per iteration', False if isinstance(l, AccSL) else None); return
        A = l.appended[0]; last = ctx.decide(k == s.N-1)
        sh = A.shape(); e.check('site has physical dimension 2 and continues the chain', len(sh) == 3 and sh[0] == 2 and same_dim(ctx, sh[1], s.R), f'{sh}')
        x = blocks(A)
        if x is None: e.check('site layout', None, f'{A.axes}'); return
        if last: e.check('last bond has dimension one', sh[2] == 1 or same_dim(ctx, sh[2], 1), f'{sh}')
        for q in range(2):
            want = N_.nc_op(Op('c', (q,), s.R, s.C))
            if last: got = x[q]; got = NC(got.t, want.r, want.c)
            else:
                c = TT.as_nc(env.v[s.ct])
                if c is None: e.check('remaining tensor', None); return
                e.check('remaining tensor continues the chain', dim_eq(ctx, x[q].c, c.r))
                e.check('remaining tensor has one qubit less', dim_eq(ctx, c.c, s.C))
                got = N_.mul(ctx, x[q], c)
            e.eq(f'site times remainder is the selected half (qubit value {q})', expand_svd(ctx, got), want)
        cut = ctx.__dict__.get('cuts')
        e.check('only numerically zero Schmidt components are discarded', not cut, f'{cut}')
    def exit(s, e, env):
        if s.early: s.havoc(e, env, simp(s.N-1)); return
        env.v[s.ct] = None; env.v[s.rl] = Chain(s.N, s.psi)
def same_(a, b): return tuple(a) == tuple(b)
def same_dim(ctx, a, b): return dim_eq(ctx, Dim.of(a), Dim.of(b)) is True
def blocks(A):
    """the two matrices of a site tensor [2, L, R], oriented left to right"""
    if A.is_small() or len(A.axes) != 3 or A.arr.size != 2: return None
    tg = [[f.tag for f in a if isinstance(f, B)] for a in A.axes]
    v = list(A.arr.reshape(-1))
    if tg[0]: return None
    if tg[1] in (['R'], []) and tg[2] in (['C'], []): return v
    if tg[1] in (['C'], []) and tg[2] in (['R'], []): return [N_.transpose(x) for x in v]
    return None
def to_mps(e):
    N = e.N(); psi = column(e, N); row = TT.dense(N_.transpose(psi)); inv = ToMPS(N, psi); inv.tok = row.tok
    e.I.skip.add(QT+'StateVec2MPS'); d = annotate(e, QT+'StateVec2MPS', inv)
    r = e.call(e.get(QT+'StateVec2MPS'), row, N)
    if getattr(inv, 'early', False) and r is getattr(inv, 'acc', None): inv.site(e, None, r, simp(N-1))
    elif isinstance(r, list) and e.ctx.valid(z(N) == 1) is True:         # the loop makes no pass: the chain is the one site
        A = r[0] if len(r) == 1 and isinstance(r[0], T) else None; x = A is not None and blocks(A)
        e.check('one site of shape 2 x 1 x 1', bool(x) and len(A.shape()) == 3 and all(same_dim(e.ctx, d, w) for d, w in zip(A.shape(), (2, 1, 1))) or None)
        if x:
            for q in range(2):
                y = x[q].t; ok = len(y) == 1 and y[0][0] == P.const(1) and len(y[0][1]) == 1 and isinstance(y[0][1][0], Op) and y[0][1][0].name == 'psi|R' and same_(y[0][1][0].idx, (q,))
                e.check(f'the site is the vector (entry {q})', ok or None, f'{x[q]}')
    else: e.check('returns the chain built by the loop', isinstance(r, Chain) or None)
    e.check('input unchanged', not row.tok.written)
def offset(s, e):
    """how many sites the loop leaves to the code before it"""
    if e.ctx.valid(z(s.n) == s.m.N) is True: return 0
    if e.ctx.valid(z(s.n) == s.m.N-1) is True: return 1
    raise Unsupported('loop invariant: the number of iterations is neither that of the sites nor one less')
class FromMPS(Inv):
    """with k sites (k >= 1) multiplied: c[t, 0, :] = A_0[t_0]...A_{k-1}[t_{k-1}] for every bit string t of length k (C_k)"""
    peel = 1
    def __init__(s, e, m): s.m = m
    def init(s, e, env): s.off = offset(s, e); s.peel = 1-s.off
    def base(s, e, env):
        s.ct = carried(s, env, lambda v: isinstance(v, T) and v.ndim() == 3, 'the running product')
        v = blocks(env.v[s.ct]); A = s.m.site(e.I, 0)
        if v is None: e.check('the first site', None, f'{env.v[s.ct].axes}'); return
        for q in range(2): e.eq(f'the first site ({q})', v[q], A[q])
    def havoc(s, e, env, k):
        k = simp(k+s.off); L, R = Dim.pow2(k), s.m.bond(e.I, k)
        env.v[s.ct] = T(TT.oscal(N_.nc_op(Op('C', (), L, R))), [[B(L, 'R')], [], [B(R, 'C')]])
    def post(s, e, env, k):
        k = simp(k+s.off)
        ctx = e.ctx; t = env.v[s.ct]; L, R = Dim.pow2(k), s.m.bond(e.I, k); R2 = s.m.bond(e.I, simp(k+1))
        c = N_.nc_op(Op('C', (), L, R)); sh = t.shape()
        e.check('shape after the step', len(sh) == 3 and same_dim(ctx, sh[0], Dim.pow2(simp(k+1))) and sh[1] == 1 and same_dim(ctx, sh[2], R2), f'{sh}')
        rows = [f if not isinstance(f, B) else 'B' for f in t.axes[0]]
        if rows != ['B', 2]: e.check('new qubit is the last one of the row index', False if rows == [2, 'B'] else None, f'{t.axes}'); return
        v = list(t.arr.reshape(-1)); A = s.m.site(e.I, k)
        for q in range(2): e.eq(f'product extended by site k (value {q})', v[q], N_.mul(ctx, c, A[q]))
    def exit(s, e, env):
        N = s.m.N
        if e.ctx.decide(N == 1): return 'unchanged'       # only the first site
        L = Dim.pow2(N)
        env.v[s.ct] = T(TT.oscal(N_.nc_op(Op('SV', (), L, Dim(1)))), [[B(L, 'R')], [], []])
class Sites(Opaque):
    """an arbitrary valid chain of N sites"""
    def __init__(s, N): s.N = N; s.tok = TT.Tok()
    def bond(s, I, k):
        if I.ctx.valid(z(k) == 0) is True or I.ctx.valid(z(k) == s.N) is True: return Dim(1)
        if I.ctx.valid(z3.And(z(k) > 0, z(k) < s.N)) is True: return chi(k)
        if I.ctx.decide(z3.Or(z(k) == 0, z(k) == s.N)): return Dim(1)
        return chi(k)
    def site(s, I, i):
        L, R = s.bond(I, simp(i)), s.bond(I, simp(i+1)); ix = z3.simplify(z(i)).sexpr()
        return [N_.nc_op(Op('A', (ix, q), L, R)) for q in range(2)]
    def getitem(s, I, i):
        if isinstance(i, slice): return tail(s, i)
        if not is_int(i): raise Unsupported('index of the chain')
        i = TT.neg_idx(I.ctx, i, s.N); a = oarr((2,)); v = s.site(I, i)
        for q in range(2): a[q] = v[q]
        L, R = v[0].r, v[0].c
        return T(a, [[2], [] if L.const() == 1 else [B(L, 'R')], [] if R.const() == 1 else [B(R, 'C')]], s.tok)
    def method(s, I, name, a, k):
        if name == '__len__': return s.N
        if name == '__iter__': return s.N, (lambda j: s.getitem(I, j))
        raise Unsupported(f'method {name}')
class Tail(Opaque):
    """the chain without its first sites"""
    def __init__(s, m, lo): s.m, s.lo = m, lo
    def getitem(s, I, i):
        if not is_int(i): raise Unsupported('slice of a slice of the chain')
        return s.m.getitem(I, simp(TT.neg_idx(I.ctx, i, simp(s.m.N-s.lo))+s.lo))
    def method(s, I, name, a, k):
        if name == '__len__': return simp(s.m.N-s.lo)
        if name == '__iter__': return simp(s.m.N-s.lo), (lambda j: s.m.getitem(I, simp(j+s.lo)))
        raise Unsupported(f'method {name}')
def tail(m, i):
    if i.stop is not None or i.step not in (None, 1) or i.start not in (0, 1, None): raise Unsupported('slice of the chain')
    return Tail(m, i.start or 0)
def from_mps(e):
    N = e.N(); m = Sites(N); inv = FromMPS(e, m); e.I.skip.add(QT+'MPS2StateVec'); annotate(e, QT+'MPS2StateVec', inv)
    r = e.call(e.get(QT+'MPS2StateVec'), m)
    sh = r.shape(); e.check('one row of 2^N amplitudes', len(sh) == 2 and sh[0] == 1 and same_dim(e.ctx, sh[1], Dim.pow2(N)), f'{sh}')
    if e.ctx.decide(N == 1):
        v = list(r.arr.reshape(-1)); A = m.site(e.I, 0)
        e.check('two amplitudes', len(v) == 2)
        for q in range(2): e.eq(f'amplitude {q}', v[q] , A[q])
    else: e.eq('the represented vector', r, N_.transpose(N_.nc_op(Op('SV', (), Dim.pow2(N), Dim(1)))))
    e.check('sites unchanged', not m.tok.written)
class RankT(Opaque):
    """tensor [2]*k + [1, chi]: the running product of the rank-N form; blocks: one extra qubit just appended"""
    def __init__(s, k, content, up=False): s.k, s.c, s.up = k, content, up
    def attr(s, I, a):
        from ..interp import BMeth
        if a == 'shape':
            if s.c.c.const() == 1: raise Unsupported('shape')
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        if name == 'unsqueeze' and not s.up:
            p = args[0] if args else kw['dim']
            if I.ctx.valid(z(p) == z(s.k)) is True: return RankT(s.k, s.c, True)
            if p == -3 or p == -2: return RankT(s.k, s.c, True)
            raise Unsupported('unsqueeze at another position')
        if name == 'squeeze' and not s.up and s.c.c.const() == 1 and not args and not kw: return StateT(s.k, None, s.c)
        raise Unsupported(f'{name} of the running product')
    def binop(s, I, k, a, b):
        if k == 'MatMult' and a is s and s.up and isinstance(b, T) and b.ndim() == 4 and b.shape()[0] == 1 and b.shape()[1] == 2:
            t = T(b.arr, b.axes[1:], b.tok); v = blocks(t)
            if v is None: raise Unsupported('site layout')
            if dim_eq(I.ctx, s.c.c, v[0].r) is not True: raise Exc('RuntimeError', 'bond dimensions differ')
            return Stepped(simp(z(s.k)+1), [N_.mul(I.ctx, s.c, x) for x in v])
        raise Unsupported('product')
class Stepped(Opaque):
    def __init__(s, k, v): s.k, s.v = k, v
class FromMPSN(FromMPS):
    def havoc(s, e, env, k):
        k = simp(k+s.off); env.v[s.ct] = RankT(k, N_.nc_op(Op('C', (), Dim.pow2(k), s.m.bond(e.I, k))))
    def post(s, e, env, k):
        k = simp(k+s.off); ctx = e.ctx; t = env.v[s.ct]
        if not isinstance(t, Stepped): e.check('one more site', None, f'{type(t).__name__}'); return
        c = N_.nc_op(Op('C', (), Dim.pow2(k), s.m.bond(e.I, k))); A = s.m.site(e.I, k)
        e.check('one more axis', ctx.valid(z(t.k) == k+1))
        for q in range(2): e.eq(f'product extended by site k (value {q})', t.v[q], N_.mul(ctx, c, A[q]))
    def exit(s, e, env):
        if e.ctx.decide(s.m.N == 1): return 'unchanged'
        env.v[s.ct] = RankT(s.m.N, N_.nc_op(Op('SV', (), Dim.pow2(s.m.N), Dim(1))))
def from_mps_n(e):
    N = e.N(); m = Sites(N); inv = FromMPSN(e, m); q = QT+'MPS2StateVec'
    e.I.skip.add(q); 
    # the variable is found on the state left by the first iteration
    annotate(e, q, inv)
    r = e.call(e.get(q), m, return_sv=False)
    if e.ctx.decide(N == 1):
        v = list(r.arr.reshape(-1)); A = m.site(e.I, 0); e.check('rank 1', r.shape() == [2], f'{r.shape()}')
        for i in range(2): e.eq(f'amplitude {i}', v[i], A[i])
    else:
        got = read(e, r, N, False)
        if got is not None: e.eq('the represented vector', got, N_.nc_op(Op('SV', (), Dim.pow2(N), Dim(1))))
    e.check('sites unchanged', not m.tok.written)
def refuse(e, f, shape):
    """wrong shapes raise"""
    N = e.N(); M = z3.Int('M'); e.ctx.assume(z3.And(M >= 1, M != N)); q = QT+f; e.I.skip.add(q)
    v = {'other length': lambda: TT.dense(N_.transpose(column(e, M))), 'a column': lambda: TT.dense(column(e, N)),
         'a vector of rank one': lambda: T(TT.oscal(column(e, N)), [[B(Dim.pow2(N), 'R')]]),
         'a square matrix': lambda: TT.dense(N_.nc_op(Op('X', (), Dim.pow2(N), Dim.pow2(N))))}[shape]()
    try: e.call(e.get(q), v, N)
    except Exc: e.check('refused', True); return
    e.check(f'{shape} is refused', False)
def rankform(e):
    """MatrixProductState: the same vector as a rank-N tensor"""
    N = e.N(); psi = column(e, N); row = TT.dense(N_.transpose(psi))
    got = read(e, e.call(e.get(QT+'MatrixProductState'), row, N), N, False)
    if got is not None: e.eq('values', got, psi)
    e.check('input unchanged', not row.tok.written)
def obligations(tier):
    obs = [Ob('StateVec2MPS: chain of N sites representing the vector (loop invariant)', to_mps), Ob('MPS2StateVec: row vector of the chain (loop invariant)', from_mps),
           Ob('MPS2StateVec [return_sv=False]: rank-N tensor of the chain (loop invariant)', from_mps_n), Ob('MatrixProductState: rank-N tensor of the vector', rankform)]
    for f in ('StateVec2MPS', 'MatrixProductState'):
        for sh in ('other length', 'a column', 'a vector of rank one', 'a square matrix'): obs.append(Ob(f'{f}: {sh} is refused', refuse, f, sh))
    return obs
ASSUMPTIONS = ['step lemma: if A_0..A_{k-1} c = psi and A_k[s] c\' = c[s] for both s then A_0..A_k c\' = psi (congruence of matrix products)',
               'the state vector is not zero (the singular value decomposition keeps at least one value)']
