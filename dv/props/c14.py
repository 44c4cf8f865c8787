"""C14: parameter-shift gradient."""
from ..grad import *
def grad(e, loose=False):
    c = param_circuit(e); init, M = Sym('init'), Sym('M'); ps = e.call(e.get(PS), c.o, init, M)
    e.I.contracts[QC+'Circuit.cir_expectation'] = expectation_contract(e, c, init, M)
    before = dict(c.o.attrs); pa = dict(ps.attrs); dispatch(e, pick(e, c, deriv, loose))
    r = e.meth(ps, 'cal_params_grad'); result_ok(e, c, r)
    restored(e, c, 'parameters afterwards')
    e.check('the circuit is not changed', all(c.o.attrs.get(k) is v for k, v in before.items()) and set(before) == set(c.o.attrs) and not c.gl.stores and not c.books.st)
    e.check('the routine object is not changed', all(ps.attrs.get(k) is v for k, v in pa.items()))
from .layers import *
from .c05 import uptensor
def exponents(P_, a):
    """rates at which an entry's terms turn with atom a; None: not a pure sum of exponentials in it"""
    out = set()
    for (m, x), c in P_.d.items():
        if any(b is a for b, _ in m): return None
        out.add(dict(x).get(a, Fr(0)))
    return out
def inside(e, what, entries, th, allowed):
    a = one_atom(th)
    for v in entries:
        x = exponents(v, a); e.check(f'{what}: rates of the parameter', None if x is None else x <= set(map(Fr, allowed)), f'{x}')
def one_atom(p): ((m, x), c), = p.d.items(); return m[0][0]
def signature(e, o, num, label=None, labels=('cu3',)):
    """what the gradient routines read off an operation"""
    e.soft = True; l = o.attrs.get('label'); n = o.attrs.get('num_params'); special = [k for k in labels if k == l]
    e.check('a spectrum of its own is announced by the label, and only then', special == ([label] if label in labels else []) if isinstance(l, str) else None, f'{l}')
    e.check('num_params', e.ctx.valid(z(n) == z(num)) if is_int(n) else None, f'{n}')
    if is_int(num) and num == 0 or e.ctx.decide(z(num) == 0): return
    p = o.attrs.get('params')
    if is_int(num) and num == 1: e.check('one parameter is kept as a scalar or a vector of length 1', isinstance(p, T) and p.is_small() and p.arr.size == 1 and p.arr.ndim <= 1 or isinstance(p, VecT), f'{p}')
    else: e.check('several parameters are kept as a vector', isinstance(p, VecT) and e.ctx.valid(z(p.n) == z(num)) or isinstance(p, T) and p.is_small() and p.arr.shape == (num,), f'{p}')
def gate_spectrum(e, g, labels=('cu3',)):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n); t = uptensor(e, g, ps)
    e.note = dict(op=g, N=N, wires=w, params=ps, form='tensor', repeat=1)
    o = e.call(e.get(QO+g), *([t] if n else []), N, w[0] if k == 1 else list(w))
    signature(e, o, n, g if g in LABELS else None, labels)
    if not n: return
    e.eq('dense operator', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
    for x in ps: inside(e, g, f(ps).values(), x, W[g if g in LABELS else None])
def layer_spectrum(e, c, labels=('cu3',)):
    s = mk_layer(e, c); o = s.o; L = s.wl.n; signature(e, o, s.M, None, labels)
    if not LAYERS[c] or e.ctx.decide(z(L) == 0): return
    # each parameter enters exactly one rotation of the product specification (C06: that is what the layer applies)
    names = ROT[c if c in ROT else 'YZYLayer']; m = len(names); ctx = e.ctx
    for q in range(m):
        k = ctx.var('k')
        def one():
            a = s.at(simp(m*k+q))
            for r in range(m):
                R_ = S.R(S.PAULI[names[r]], s.at(simp(m*k+r)))
                for v in R_.values():
                    x = exponents(v, one_atom(a)); ok = x is not None and x <= set(W[None] if r == q else (0,))
                    if not ok: return False
            return True
        e.check('one rotation per parameter, with half-angle rates', ctx.forall(one, [k >= 0, k < z(L)]))
        k2 = ctx.var('k'); q2 = ctx.var('q')
        e.check('the parameters of different rotations are different', ctx.forall(lambda: ctx.valid(z3.Or(m*k+q != m*k2+q2, z3.And(k == k2, q2 == q))), [k >= 0, k2 >= 0, q2 >= 0, q2 < m]))
def obligations(tier):
    return [Ob('cal_params_grad: exact derivatives, in order, parameters restored', grad, alts=[dict(loose=True)])] \
        + [Ob(f'{g}: label, parameter count and spectrum', lambda e, g=g: gate_spectrum(e, g)) for g in S.GATES] \
        + [Ob(f'{c}: label, parameter count and spectrum', lambda e, c=c: layer_spectrum(e, c)) for c in LAYERS]
ASSUMPTIONS = [
    "an operation sum_w e^{i w theta} A_w with rates w in W makes every expectation value a trigonometric polynomial in theta with rates W - W (bilinearity of <psi|U^ M U|psi>; meta-lemma)",
    "Circuit.cir_expectation returns the expectation at the gates' current parameters (contract; proved in C13 and C08)",
    "params_update makes its argument the current value (contract; proved in C05)",
    "layers apply the product of rotations of their specification (proved in C06 and C07)",
    "operations in the circuit are distinct objects, with parameters of rank 0 or 1"]
