"""The circuit builder by contract: a circuit's ghost state is the operator accumulated so far; each builder call multiplies the
named textbook operator from the left, and U() returns it. Proved of the real Circuit by the obligations in contract_obs()."""
from .props.common import *
from .circ import QC, circuit, prod, G
from .prove import Ob
from .vals import Exc
from .interp import PyObj
GATES = {g: g for g in S.GATES}
def scalar(I, v):
    if isinstance(v, T):
        if v.arr.size != 1: raise Unsupported('parameter of a gate')
        return v.chk().arr.reshape(-1)[0]
    return P.const(I.int2p(v))
def angles(I, v, n):
    if n == 1: return [scalar(I, v)]
    if isinstance(v, T) and v.is_small() and v.arr.size == n: return list(v.chk().arr.reshape(-1))
    if isinstance(v, (list, tuple)) and len(v) == n: return [scalar(I, x) for x in v]
    raise Unsupported('parameters of a gate')
def install(e):
    """use the contract for every circuit the code under check builds"""
    C = e.I.contracts; used = e.rec.setdefault('used', set())
    def new(I, c, args, kw):
        n = args[0] if args else kw['N']; o = PyObj(c); o.attrs.update(nqubits=n, **{'#U': TT.dense(N_.nc_id(Dim.pow2(n)))}); return o
    C[QC+'Circuit'] = new
    def builder(g):
        n, k, f = S.GATES[g]
        def h(I, fn, args, kw):
            o = args[0]
            if '#U' not in o.attrs: return NotImplemented
            env = I.bind(fn, args, kw).v; names = [x.arg for x in fn.node.args.args][1:]
            w = env[names[-1]]; ps = angles(I, env[names[0]], n) if n else []
            ctx = I.ctx; N = o.attrs['nqubits']
            w = [w] if k == 1 and is_int(w) else list(I.concrete(w))
            if len(w) != k: raise Unsupported('wires of a gate')
            ok = z3.And(*[z3.And(z(x) >= 0, z(x) < z(N)) for x in w], *[z(x) != z(y) for i, x in enumerate(w) for y in w[:i]])
            if not ctx.decide(ok): raise Exc('ValueError', 'wires of a gate')
            o.attrs['#U'] = TT.dense(N_.mul(ctx, S.op(N, tuple(w), f(ps)), TT.as_nc(o.attrs['#U']))); return None
        return h
    for g in GATES: C[QC+'Circuit.'+g] = builder(g)
    def U(I, fn, args, kw):
        if '#U' not in args[0].attrs or len(args) > 1 or kw: return NotImplemented
        return args[0].attrs['#U']
    C[QC+'Circuit.U'] = U
def call_ok(e, g):
    """one builder call on a circuit of arbitrary operations, then U(): the textbook operator times the operator before"""
    n, k, f = S.GATES[g]; c = circuit(e, support=False); N = c.N; w = e.wires(k, N); ps = e.params(n)
    from .circ import with_books
    with_books(e, c)
    a = [] if n == 0 else [TT.scal(ps[0])] if n == 1 else [TT.small(ps)]
    e.meth(c.o, g, *a, w[0] if k == 1 else list(w))
    e.eq('operator', e.meth(c.o, 'U'), N_.mul(e.ctx, S.op(N, w, f(ps)), prod(c)))
def new_ok(e):
    N = e.N(); o = e.call(e.get(QC+'Circuit'), N); e.eq('operator of a new circuit', e.meth(o, 'U'), N_.nc_id(Dim.pow2(N)))
def contract_obs(gates=GATES): return [Ob('contract of a new circuit', new_ok)] + [Ob(f'contract of the builder: {g}', call_ok, g) for g in gates]
