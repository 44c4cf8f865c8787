"""C21: the classic circuit class. One call on an arbitrary instance (any number of gates recorded before): exactly one entry and
one matrix are added, the matrix being the textbook operator; U() is the product of whatever matrices are recorded. The empty
circuit and induction over the calls give every history."""
from ..circ import *
from .c13 import dmat, on_rho, Zq
QG = 'deepquantum.gates.qgate.'
ONE = {'x_gate': ('X', S.X), 'y_gate': ('Y', S.Y), 'z_gate': ('Z', S.Z), 'Hadamard': ('H', S.H)}
ROT1 = {'rx': S.X, 'ry': S.Y, 'rz': S.Z}
CTRL = {'cnot': S.X, 'cz': S.Z}
ROT2 = {'rxx': S.X, 'ryy': S.Y, 'rzz': S.Z}
ARITY = {**dict.fromkeys(list(ONE)+list(ROT1), 1), **dict.fromkeys(list(CTRL)+list(ROT2), 2)}
def builder(e):
    N = e.N(); o = e.call(e.get(QG+'Circuit'), N); ctx = e.ctx
    for a in ('gate_list', 'u'): e.check(f'a new circuit has no {a}', isinstance(o.attrs.get(a), list) and not o.attrs[a])
    c = C(); c.N, c.o = N, o; c.K = z3.Int('K'); ctx.assume(c.K >= 0)
    o.attrs['gate_list'] = SL(c.K, lambda j: Sym('entry', j)); o.attrs['u'] = SL(c.K, lambda j: TT.dense(N_.nc_op(G(N, j))))
    return c
def angle(e, form):
    if form == '-': return None, None
    if form == 'int': t = z3.Int('angle'); return t, e.I.int2p(t)
    p = e.params(1)[0]; return (TT.scal(p) if form == 'tensor' else p), p
def recorded(e, c, name, qubits, ang, want):
    ctx = e.ctx; j = ctx.var('j')
    g, u = e.I.as_sl(c.o.attrs['gate_list']), e.I.as_sl(c.o.attrs['u'])
    e.check('one more entry', ctx.valid(z(g.n) == c.K+1), f'{g.n}'); e.check('one more matrix', ctx.valid(z(u.n) == c.K+1), f'{u.n}')
    def old():
        x, y = g.get(ctx, j), u.get(ctx, j)
        if not (isinstance(x, Sym) and x.name == 'entry' and ctx.valid(z(x.ix[0]) == j)): return False
        return N_.nc_eq(ctx, TT.as_nc(y), N_.nc_op(G(c.N, j))) if not y.tok.written else False
    e.check('earlier entries and matrices are kept', ctx.forall(old, [j >= 0, j < c.K]))
    x = g.get(ctx, c.K)
    if not isinstance(x, Dict): e.check('the entry', None, f'{x}'); return
    e.check('the entry names the gate', set(x.d) == {'gate', 'theta', 'which_qubit'} and x.d['gate'] == name, f'{x.d}')
    e.check('the entry lists the qubits', veq(e, x.d.get('which_qubit'), qubits), f"{x.d.get('which_qubit')}")
    t = x.d.get('theta')
    e.check('the entry holds the angle', t is None if ang is None else veq(e, t, ang) or (False if t is None else None), f'{t}')
    e.eq('matrix', u.get(ctx, c.K), want)
def mat_of(c, m, w, p):
    if m in ONE: return S.op(c.N, w, ONE[m][1])
    if m in ROT1: return S.op(c.N, w, S.R(ROT1[m], p))
    if m in CTRL: return S.op(c.N, w, S.ctrl(CTRL[m]))
    return S.op(c.N, w, S.R(S.kron(ROT2[m], ROT2[m], 2), p, 4))
def note(e, c, m, w, p, form): e.note = dict(N=c.N, calls=[[m, list(w), 0. if p is None else p, {'tensor': 't', 'float': 'f', 'int': 'i', '-': 't'}[form]]])
def call(e, m, form):
    c = builder(e); w = e.wires(ARITY[m], c.N); t, p = angle(e, form); note(e, c, m, w, p, form)
    e.meth(c.o, m, *w, *([] if t is None else [t]))
    recorded(e, c, ONE[m][0] if m in ONE else m, w[0] if len(w) == 1 else list(w), t, mat_of(c, m, w, p))
    if isinstance(t, T): e.check("caller's angle unchanged", not t.tok.written)
def mcx(e):
    from .c01 import mcx_spec
    c = builder(e); wl = e.wirelist(c.N, lo=2); ctx = e.ctx; f = wl.fn; L = wl.n
    e.note = lambda rec: dict(N=rec(c.N), calls=[['mcx', rec(wl), 0., 't']])
    cl = SL(simp(L-1), lambda q: f(z(q))); cl._isint = True
    e.meth(c.o, 'multi_control_cnot', cl, f(z(L-1)))
    recorded(e, c, 'multi_control_cnot', wl, None, mcx_spec(c.N, wl))
    e.check("caller's control list unchanged", not cl.stores and ctx.valid(z(cl.n) == L-1))
def raises(e, f):
    try: f()
    except Exc: e.check('refused', True); return
    e.check('refused', False, 'returned')
def badq(e, m, i):
    """qubit i is unavailable"""
    c = builder(e); w = e.wires(ARITY[m], c.N, valid=False, distinct=False); t, p = angle(e, 'tensor' if m in ROT1 or m in ROT2 else '-')
    e.ctx.assume(z3.Or(w[i] < 0, w[i] >= c.N)); e.note = dict(N=c.N, bad=[m, list(w)])
    raises(e, lambda: e.meth(c.o, m, *w, *([] if t is None else [t])))
def sameq(e, m):
    c = builder(e); w = e.wires(2, c.N, distinct=False); t, p = angle(e, 'tensor' if m in ROT2 else '-'); e.ctx.assume(w[0] == w[1])
    e.note = dict(N=c.N, bad=[m, list(w)])
    raises(e, lambda: e.meth(c.o, m, *w, *([] if t is None else [t])))
def mcbad(e, kind):
    c = builder(e); wl = e.wirelist(c.N, lo=2, valid=kind != 'range', distinct=False); j = e.ctx.var('badwire'); L = wl.n; f = wl.fn
    e.ctx.assume(z3.And(j >= 0, j < L))
    e.ctx.assume(z3.Or(f(j) < 0, f(j) >= c.N) if kind == 'range' else z3.And(j < L-1, f(j) == f(z(L-1))))
    e.note = lambda rec: dict(N=rec(c.N), badmc=rec(wl))
    cl = SL(simp(L-1), lambda q: f(z(q))); cl._isint = True
    raises(e, lambda: e.meth(c.o, 'multi_control_cnot', cl, f(z(L-1))))
def product(e, how):
    c = builder(e)
    u = e.meth(c.o, 'U') if how == 'U' else e.meth(c.o, 'gate_sequence_product', *([] if how == 'default' else [how == 'left to right']))
    e.eq('product', u, prod(c, rev=how == 'right to left'))
    l = c.o.attrs['u']; g = c.o.attrs['gate_list']
    e.check('the lists are unchanged', isinstance(l, SL) and isinstance(g, SL) and not l.stores and not g.stores and e.ctx.valid(z3.And(z(l.n) == c.K, z(g.n) == c.K)) is True)
def scal_is(e, name, got, want):
    x = got
    if isinstance(x, T) and x.arr.size == 1: x = x.arr.reshape(-1)[0]
    if isinstance(x, P): x = NC([(x, ())], Dim(1), Dim(1))
    if not isinstance(x, NC): e.check(name, None, f'{type(got).__name__}'); return
    e.eq(name, x, want)
def expecval(e):
    c = builder(e); n = z3.Int('n'); e.ctx.assume(n >= 1); q = e.wires(1, n)[0]
    e.note = dict(N=n, meas=1)
    rho = herm_rho(e, n); rt = TT.dense(rho)
    scal_is(e, 'tr(rho Z_q)', e.meth(c.o, 'expecval_ZI', rt, n, q), on_rho(e, rho, Zq(n, q)))
    e.check('state unchanged', not rt.tok.written)
def herm_rho(e, n): return dmat(e, n)
def measure(e):
    c = builder(e); n = z3.Int('n'); e.ctx.assume(n >= 1); e.note = dict(N=n, meas=1); ctx = e.ctx
    rho = herm_rho(e, n); rt = TT.dense(rho)
    r = e.meth(c.o, 'measure', rt, n)
    rows = shape2(e, r)
    if rows is None: e.check('an n x 1 column', None, f'{r}'); return
    k = ctx.var('k'); e.check('one value per qubit', ctx.valid(z(rows[0]) == n))
    def at():
        x = rows[1](k)
        if isinstance(x, P): x = NC([(x, ())], Dim(1), Dim(1))
        return N_.nc_eq(ctx, x, on_rho(e, rho, Zq(n, k))) if isinstance(x, NC) else None
    e.check('value k is tr(rho Z_k)', ctx.forall(at, [k >= 0, k < n])); e.check('state unchanged', not rt.tok.written)
def shape2(e, r):
    from ..fun import FunT
    if isinstance(r, FunT) and len(r.sh) == 2 and e.ctx.valid(z(r.sh[1]) == 1) is True: return r.sh[0], lambda k: r.at(k, 0)
    if isinstance(r, VecT): return r.n, r.at
    return None
def obligations(tier):
    obs = []
    for m in ARITY:
        for form in (('tensor', 'float', 'int') if m in ROT1 or m in ROT2 else ('-',)): obs.append(Ob(f'{m}: one entry, one matrix' + (f' [{form} angle]' if form != '-' else ''), call, m, form))
        for i in range(ARITY[m]): obs.append(Ob(f'{m}: unavailable qubit {i} is refused', badq, m, i))
        if ARITY[m] == 2: obs.append(Ob(f'{m}: coinciding qubits are refused', sameq, m))
    obs += [Ob('multi_control_cnot: one entry, one matrix [any number of controls]', mcx)] + [Ob(f'multi_control_cnot: {d} is refused', mcbad, k) for k, d in (('range', 'an unavailable qubit'), ('repeat', 'the target among the controls'))]
    obs += [Ob(f'product of the recorded matrices [{h}]', product, h) for h in ('U', 'default', 'left to right', 'right to left')]
    obs += [Ob('expecval_ZI', expecval), Ob('measure', measure)]
    return obs
ASSUMPTIONS = ['density matrices are Hermitian of unit trace', 'a refused call may leave an entry behind (unspecified)', 'angles: Python numbers or zero-dimensional tensors']
