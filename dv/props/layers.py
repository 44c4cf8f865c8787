"""Layers: construction and specification."""
from .common import *
from .c20 import LAYERS, RINGS, QL, pvec, plist
from ..vals import SL
ROT = S.LROT
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def succ(k, L, d=1):
    """(k+d) mod L for 0 <= k < L, d <= L"""
    return simp(z3.If(zi(k)+d < zi(L), zi(k)+d, zi(k)+d-zi(L)))
def rot_word(e, c, N, wl, at):
    """factors of a rotation layer: on wire j the named rotations in reading order (first acts first)"""
    s = ROT[c]; m = len(s)
    def body(k):
        x = None
        for q in range(m):
            r = S.R(S.PAULI[s[q]], at(simp(m*zi(k)+q)))
            x = r if x is None else N_.sp_mul(r, x)
        return (Loc(N, (wl.fn(zi(k)),), x),)
    return (N_.Prod(N, wl.n, body),)
def h_word(N, wl): return (N_.Prod(N, wl.n, lambda k: (Loc(N, (wl.fn(zi(k)),), S.H),)),)
def ring_word(e, N, wl, step=1, dag=False):
    """e decides whether the ring has two wires"""
    L = wl.n; f = wl.fn
    if e.ctx.decide(z(L) == 2): return (Loc(N, (f(z3.IntVal(0)), f(z3.IntVal(1))), S.ctrl(S.X)),)
    def body(k): 
        if dag: k = simp(zi(L)-1-zi(k))
        return (Loc(N, (f(zi(k)), f(zi(succ(k, L, step)))), S.ctrl(S.X)),)
    return (N_.Prod(N, L, body),)
def nc_of_word(N, w): return NC([(P.const(1), tuple(w))], Dim.pow2(N), Dim.pow2(N))
def layer_word(e, c, N, wl, at, rep=None):
    if c in ROT: return rot_word(e, c, N, wl, at)
    if c == 'HLayer': return h_word(N, wl)
    if c == 'ring_of_cnot': return ring_word(e, N, wl)
    if c == 'ring_of_cnot_dagger': return ring_word(e, N, wl, dag=True)
    if c == 'ring_of_cnot2': return ring_word(e, N, wl, 2)
    if c == 'BasicEntangleLayer':
        L = wl.n; ring = ring_word(e, N, wl)
        return (N_.Prod(N, rep, lambda r: ring + rot_word(e, 'YZYLayer', N, wl, lambda j: at(simp(3*L*zi(r)+zi(j))))),)
    raise KeyError(c)
def spec(e, c, N, wl, at, rep=None): return nc_of_word(N, layer_word(e, c, N, wl, at, rep))
def dagger_word(e, c, N, wl, at): return tuple(N_.dagger(nc_of_word(N, layer_word(e, c, N, wl, at))).t[0][1])
def fnat(ctx, name='th'): return lambda j: P.atom(ctx.atom(name, 'real', j))
# ---- contracts of U_expand, used where one layer's body builds on another's
def valid_wires(ctx, wl, N):
    a, b = ctx.var('a'), ctx.var('b'); n = zi(wl.n)
    def rng():
        x = wl.get(ctx, a)
        return ctx.valid(z3.And(zi(x) >= 0, zi(x) < zi(N)))
    if ctx.forall(rng, [a >= 0, a < n]) is not True: return False
    return ctx.forall(lambda: ctx.valid(zi(wl.get(ctx, a)) != zi(wl.get(ctx, b))), [a >= 0, a < b, b < n]) is True
class WL:
    def __init__(s, ctx, l): s.n = l.n; s.fn = lambda k: l.get(ctx, k)
def as_wl(I, l):
    return WL(I.ctx, I.as_sl(l)) if isinstance(l, (list, tuple, SL)) else None
KNOWN = {'label', 'nqubits', 'wires', 'params', 'num_params', 'supportTN'}
def expand_contract(c):
    def h(I, fn, args, kw):
        if len(args) != 1 or kw or not isinstance(args[0], PyObj) or args[0].cls.name != c: return NotImplemented
        o = args[0]; ctx = I.ctx
        if not set(o.attrs) <= KNOWN: return NotImplemented       # hidden state: run the body
        N = o.attrs.get('nqubits'); l = o.attrs.get('wires')
        from ..vals import is_int
        if not is_int(N) or not isinstance(l, (list, SL)): return NotImplemented
        l = I.as_sl(l); wl = WL(ctx, l)
        if not all(is_int(x) for x in [wl.fn(z3.Int('probe!q'))]) or not valid_wires(ctx, l, N): return NotImplemented
        at = None
        if LAYERS[c]:
            p = o.attrs.get('params')
            if isinstance(p, VecT): n, at = p.n, p.at
            elif isinstance(p, T) and p.is_small() and p.arr.ndim == 1: n = p.arr.shape[0]; at = lambda j: TT_sel(p.arr, j)
            else: return NotImplemented
            if isinstance(n, int) and not isinstance(l.n, int) or ctx.valid(zi(n) == LAYERS[c]*zi(l.n)) is not True: return NotImplemented
        elif c in RINGS and ctx.valid(zi(l.n) >= 2) is not True: return NotImplemented
        class X: pass
        x = X(); x.ctx = ctx
        return TT.dense(spec(x, c, N, wl, at))
    return h
def TT_sel(arr, j):
    if isinstance(j, int): return arr[j]
    raise Unsupported('symbolic index into a concrete parameter list')
def _reg(c):
    q = QL+c+'.U_expand'; CONTRACTS[q] = expand_contract(c)
    def p(e):
        e.I.skip.add(q)
        s = mk_layer(e, c)
        e.eq('U_expand', e.meth(s.o, 'U_expand'), spec(e, c, s.N, s.wl, s.at))
    CONTRACT_OBS.setdefault(q, []).append((f'{c}.U_expand is the documented product, for every register, wire list and parameters', p))
for _c in ('YZYLayer', 'ring_of_cnot'): _reg(_c)
class Lay:
    """a layer under contract: class, register, wires, parameters"""
def mk_layer(e, c, form='tensor', N=None, wl=None, name='th', lo=None):
    k = LAYERS[c]; s = Lay(); s.c = c
    s.N = e.N() if N is None else N
    s.wl = e.wirelist(s.N, lo=(2 if c in RINGS else 1) if lo is None else lo) if wl is None else wl
    L = s.wl.n; s.rep = None
    if c == 'BasicEntangleLayer': s.rep = z3.Int('repeat'); e.ctx.assume(s.rep >= 1)
    s.at = fnat(e.ctx, name)
    if k:
        s.M = simp(k*L) if s.rep is None else simp(3*L*s.rep)
        s.p = VecT(s.M, s.at) if form == 'tensor' else SL(s.M, s.at)
    else: s.M, s.p = 0, None
    cl = e.get(QL+c)
    s.args = [s.N, s.wl] + ([s.p] if k else []) + ([s.rep] if s.rep is not None else [])
    s.note = lambda rec: dict(op=c, N=rec(s.N), wires=rec(s.wl), params=[rec(s.at(i)) for i in range(rec(s.M))] if k else [], form=form if k else 'tensor', repeat=rec(s.rep) if s.rep is not None else 1)
    e.note = s.note
    s.o = e.call(cl, *s.args)
    return s
