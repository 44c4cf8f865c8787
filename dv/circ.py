"""Circuits of arbitrary operations: element k of the gate list is any object that satisfies the gate contract
(proved of every gate in C01..C03 and of every layer in C06, C07): U_expand is an operator G(k) on the register,
TN_operation / TN_contract apply that same operator when supportTN holds."""
import z3
from .props.common import *
from .interp import Opaque, Bound
QC = 'deepquantum.gates.qcircuit.'
class Sym(Opaque):
    """an uninterpreted value identified by name and index"""
    def __init__(s, name, *ix): s.name, s.ix = name, ix
    def __repr__(s): return f'{s.name}{list(s.ix)}'
def G(N, k, name='G'): d = Dim.pow2(N); return Op(name, (simp(z(k)),), d, d)
class GateObj(Opaque):
    def __init__(s, c, k): s.c, s.k = c, k
    def attr(s, I, a):
        c, k = s.c, z(s.k)
        if a == 'supportTN': return c.sup(k)
        if a == 'num_params': return c.npar(k)
        if a == 'nqubits': return c.N
        if a in ('params', 'wires', 'label'): return Sym(a, s.k)
        from .interp import BMeth
        return BMeth(s, a)
    def method(s, I, name, args, kw):
        c = s.c; ctx = I.ctx
        if name == 'U_expand' and not args and not kw: return TT.dense(N_.nc_op(G(c.N, s.k)))
        if name == 'info': return Dict({'label': 'label'})
        if name == 'TN_operation' and len(args) == 1 and not kw:
            if not ctx.decide(c.sup(z(s.k))): raise Exc('ValueError', 'no tensor-network support')
            m = args[0]
            if not isinstance(m, MPSV): raise Unsupported('TN_operation of a gate on another value')
            m.apply(I, N_.nc_op(G(c.N, s.k))); return m
        if name == 'TN_contract' and len(args) >= 1:
            if not ctx.decide(c.sup(z(s.k))): raise Exc('ValueError', 'no tensor-network support')
            st = args[0]; b = kw.get('batch_mod', args[1] if len(args) > 1 else False)
            if not isinstance(st, StateT) or st.merged or st.ones or st.batch is not b: raise Unsupported('TN_contract of a gate on another value')
            return st.with_(content=N_.mul(ctx, N_.nc_op(G(c.N, s.k)), st.content), tok=TT.Tok())
        raise Unsupported(f'method {name} of a gate')
    def cmp(s, I, k, a, b):
        if isinstance(a, GateObj) and isinstance(b, GateObj) and k in ('Eq', 'NotEq'):
            r = z(a.k) == z(b.k); return r if k == 'Eq' else z3.Not(r)
        return Opaque.cmp(s, I, k, a, b)
class C: pass
def circuit(e, N=None, lo=0, support=True):
    """a circuit of K >= lo arbitrary operations"""
    N = N if N is not None else e.N(); ctx = e.ctx
    c = C(); c.N = N; c.K = z3.Int('K'); ctx.assume(c.K >= lo)
    c.sup = z3.Function('supportTN', z3.IntSort(), z3.BoolSort()); c.npar = z3.Function('num_params', z3.IntSort(), z3.IntSort())
    o = e.call(e.get(QC+'Circuit'), N); c.o = o
    gl = SL(c.K, lambda k: GateObj(c, k)); c.gl = gl
    o.attrs['gate'] = gl
    q = z3.Int('q')
    if support: ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c.K), c.sup(q))))
    ctx.inst['num_params'] = (lambda t, a: a >= 0, None)
    return c
from .nc import Prod
from fractions import Fraction as Fr
def prod(c, lo=0, n=None, rev=False, name='G'):
    n = c.K if n is None else n
    D = Dim.pow2(c.N)
    f = (lambda j: (G(c.N, z(lo)+z(n)-1-z(j), name),)) if rev else (lambda j: (G(c.N, z(lo)+z(j), name),))
    return NC([(P.const(1), (Prod(c.N, n, f),))], D, D)
class SymDict(Opaque):
    """dictionary with keys 0..n-1 (values base(j)) and the stores made since"""
    def __init__(s, n, base): s.n, s.base, s.st = n, base, []
    def clone_(s): r = SymDict(s.n, s.base); r.st = list(s.st); return r
    def changed_(s, c): return len(c.st) != len(s.st)
    def acc_(s): raise Unsupported('a loop changes a dictionary')
    def setitem(s, I, i, v):
        if not is_int(i): raise Unsupported('dictionary key')
        s.st.append((i, v))
    def getitem(s, I, i):
        for k, v in reversed(s.st):
            if I.ctx.decide(z(k) == z(i)): return v
        if I.ctx.decide(z3.And(z(i) >= 0, z(i) < z(s.n))): return s.base(i)
        raise Exc('KeyError', '')
    def has(s, i): return z3.Or(z3.And(z(i) >= 0, z(i) < z(s.n)), *[z(k) == z(i) for k, _ in s.st])
    def method(s, I, name, a, k):
        if name == 'update' and len(a) == 1 and isinstance(a[0], Dict):
            for x, v in a[0].d.items(): s.setitem(I, x, v)
            return None
        if name == '__len__':
            n = z(s.n)
            for i, (x, _) in enumerate(s.st):
                old = z3.Or(z3.And(z(x) >= 0, z(x) < z(s.n)), *[z(y) == z(x) for y, _ in s.st[:i]])
                n = n + z3.If(old, 0, 1)
            return simp(n)
        if name == 'get': return s.getitem(I, a[0]) if I.ctx.decide(s.has(a[0])) else (a[1] if len(a) > 1 else None)
        raise Unsupported(f'dictionary method {name}')
    def attr(s, I, a):
        from .interp import BMeth
        return BMeth(s, a)
def with_books(e, c, n0=None):
    """the bookkeeping of the operations present (the invariant of the builder)"""
    c.n0 = z3.Int('n0') if n0 is None else n0; e.ctx.assume(c.n0 >= 0)
    c.o.attrs['cir_num_params'] = c.n0; c.books = c.o.attrs['cir_params'] = SymDict(c.K, lambda j: Sym('recorded', j))
