"""C19: quanvolution."""
from .c13 import *
from .. import ghost
from ..fun import FunT
from ..nc import Tr
from ..vals import SL, PyObj, Exc, fdiv, fmod
QV = 'deepquantum.nn.modules.quanv.QuanConv2D'
QCQ = 'deepquantum.gates.qmath.measure'
def unitary_factor(ctx, f):
    if isinstance(f, Loc):
        d = 2**len(f.wires); ad = {(c, r): v.conj() for (r, c), v in f.m.items()}
        return N_.sp_eq(ctx, N_.sp_mul(f.m, ad), N_.sp_eye(d)) is True
    if isinstance(f, N_.Prod):
        k = ctx.var('k'); return ctx.forall(lambda: all(unitary_factor(ctx, g) for g in f.body(k)), [k >= 0, k < z(f.n)]) is True
    return False
def pure(ctx, x):
    """x = V |0><0| V^dagger with V unitary: the precondition (Hermitian, unit trace) of `measure`"""
    if len(x.t) != 1 or x.t[0][0] != P.const(1): return False
    w = x.t[0][1]; m = [i for i, f in enumerate(w) if isinstance(f, N_.Op) and f.name == 'E' and f.idx == (0, 0)]
    if len(m) != 1: return False
    V = NC([(P.const(1), w[:m[0]])], x.r, x.r); R = NC([(P.const(1), w[m[0]+1:])], x.r, x.r)
    return all(unitary_factor(ctx, f) for f in w[:m[0]]) and N_.nc_eq(ctx, R, N_.dagger(V)) is True
def measure_contract(I, fn, args, kw):
    """measure(n, V|0><0|V^dagger) = [tr(rho Z_0), .., tr(rho Z_{n-1})] (C13)"""
    env = I.bind(fn, args, kw).v; n, st = env['n_qubit'], env['state']
    if env.get('ith') is not None or not isinstance(st, T): return NotImplemented
    rho = TT.as_nc(st)
    if rho is None or not pure(I.ctx, rho): return NotImplemented
    class X: ctx = I.ctx
    return VecT(n, lambda k: zval(X, rho, n, k))
def zval(e, rho, n, k): return N_.trace(e.ctx, N_.mul(e.ctx, rho, Zq(n, k)))
def layer(e):
    ks, st = z3.Int('kernel'), z3.Int('stride'); e.ctx.assume(ks >= 2); e.ctx.assume(st >= 1)
    n = simp(ks*ks); e.ctx.assume(n >= 4)
    o = e.call(e.get(QV), n, st, ks); w = o.attrs.get('weight')
    if not isinstance(w, VecT): e.check('weights', None); raise Unsupported('weights')
    e.check('three weights per qubit', e.ctx.valid(z(w.n) == 3*z(n)))
    at = fnat(e.ctx, 'weight'); o.attrs['weight'] = VecT(w.n, at)
    m = o.attrs.get('w_mul')
    if not isinstance(m, (P, int, float)): raise Unsupported('weight multiplier')
    return o, n, ks, st, (lambda j: at(simp(z(j)))*P.const(m))
from .layers import fnat
def trained(e, n, w):
    def rot(q):
        m = S.R(S.X, w(3*z(q)))
        m = N_.sp_mul(S.R(S.Z, w(3*z(q)+1)), m); m = N_.sp_mul(S.R(S.X, w(3*z(q)+2)), m)
        return (Loc(n, (simp(z(q)),), m),)
    ring = lambda q: (Loc(n, (simp(z(q)), simp(z3.If(z(q)+1 < z(n), z(q)+1, 0))), S.ctrl(S.X)),)
    D = Dim.pow2(n)
    return NC([(P.const(1), (N_.Prod(n, n, ring), N_.Prod(n, n, rot)))], D, D)
def encode(n, px):
    D = Dim.pow2(n); pi = P.atom(S.PI)
    return NC([(P.const(1), (N_.Prod(n, n, lambda q: (Loc(n, (simp(z(q)),), S.R(S.Y, pi*px(q))),)),))], D, D)
def forward(e):
    ghost.install(e); e.I.contracts[QCQ] = measure_contract
    ctx = e.ctx; o, n, ks, st, w = layer(e); attrs = dict(o.attrs); wt = o.attrs['weight']
    B_, Cn, H, W = [z3.Int(x) for x in ('batch', 'channels', 'height', 'width')]
    for c in (B_ >= 1, Cn >= 1, H >= ks, W >= ks): ctx.assume(c)
    x = lambda b, c, i, j: P.atom(ctx.atom('x', 'real', b, c, i, j)); img = FunT([B_, Cn, H, W], x)
    def note(rec):
        k = rec(ks)
        return dict(k=k, st=rec(st), h=rec(H), w=rec(W), b=rec(B_), c=rec(Cn), seed=1)
    e.note = note
    ho, wo = (H-ks)/st+1, (W-ks)/st+1
    r = e.meth(o, 'forward', img)
    if not isinstance(r, FunT) or len(r.sh) != 4: e.check('output', None, f'{r}'); return
    for nm, d, v in zip(('batch', 'channels', 'rows', 'columns'), r.sh, (B_, n, ho, wo)): e.check(f'shape: {nm}', ctx.valid(z(d) == v), f'{d}')
    b, c, i, j = [ctx.var('o') for _ in range(4)]
    D = Dim.pow2(n); E0 = N_.nc_op(N_.Op('E', (0, 0), D, D, real=True, herm=True))
    V = N_.mul(ctx, trained(e, n, w), encode(n, lambda q: x(b, 0, simp(i*st+fdiv(q, ks)), simp(j*st+fmod(q, ks)))))
    rho = N_.mul(ctx, V, N_.mul(ctx, E0, N_.dagger(V)))
    want = zval(e, rho, n, c)
    def at():
        v = r.at(b, c, i, j)
        if isinstance(v, P): v = NC([(v, ())], Dim(1), Dim(1))
        return N_.nc_eq(ctx, v, want)
    e.check('entry (image, channel, row, column) is <Z_channel> of the circuit on its window', ctx.forall(at, [b >= 0, b < B_, c >= 0, c < n, i >= 0, i < ho, j >= 0, j < wo]))
    e.check('the image is not modified', not img.tok.written)
    e.check('the weights are not modified', not wt.tok.written and all(o.attrs.get(k) is v for k, v in attrs.items()))
def refuse(e):
    ks, st, n = z3.Int('kernel'), z3.Int('stride'), z3.Int('n'); e.ctx.assume(z3.And(ks >= 2, st >= 1, n >= 1, n != ks*ks))
    e.note = lambda rec: dict(k=rec(ks), bad=rec(n))
    try: e.call(e.get(QV), n, st, ks)
    except Exc: e.check('refused', True); return
    e.check('a qubit count that does not match the kernel is refused', False)
def zlist(e, how):
    """the list of observables: entry k is Z on qubit k"""
    ctx = e.ctx
    if how == 'layer': o, n = layer(e)[:2]; r = o.attrs.get('M_lst')
    else:
        try: f = e.get('deepquantum.nn.modules.quanv.Zmeasure')
        except Exception: e.check('no such helper', True); return
        n = e.N(); o = PyObj(e.get(QV)); o.attrs['nqubits'] = n; r = e.call(f, o)
    if not isinstance(r, (SL, list)): e.check('a list', None, f'{type(r).__name__}'); return
    r = e.I.as_sl(r); e.check('one observable per qubit', ctx.valid(z(r.n) == z(n)), f'{r.n}')
    k = ctx.var('k'); e.check('observable k is Z on qubit k', ctx.forall(lambda: N_.nc_eq(ctx, TT.as_nc(r.get(ctx, k)), Zq(n, k)), [k >= 0, k < z(n)]))
def obligations(tier):
    return [Ob('observables of the layer', zlist, 'layer'), Ob('observables of the module-level helper', zlist, 'helper'), Ob('forward: every window, once, into its own cell', forward), Ob('a mismatching qubit count is refused', refuse)] + ghost.contract_obs(('rx', 'ry', 'rz', 'cnot'))
ASSUMPTIONS = ['images at least as large as the kernel; kernel size at least two; stride at least one', 'the builder contract used for rx, ry, rz, cnot is proved here of the real Circuit; the contract of measure is proved in C13']
