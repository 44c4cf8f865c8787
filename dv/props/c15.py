"""C15: adjoint gradient over matrix product states."""
from ..grad import *
from .. import grad as GR
from .c14 import gate_spectrum, layer_spectrum
from .c20 import LAYERS
def observable(c):
    class M(Opaque):
        def attr(s, I, a): return True if a == 'supportTN' else BMeth(s, a)
        def method(s, I, name, args, kw):
            if name == 'TN_operation' and len(args) == 1 and isinstance(args[0], MPSV) and not kw: args[0].apply(I, c.M); return args[0]
            raise Unsupported(f'method {name} of the observable')
    D = Dim.pow2(c.N); c.M = N_.nc_op(Op('M', (), D, D)); return M()
def kept(e, c, ps, before, pa):
    restored(e, c, 'parameters afterwards')
    e.check('the circuit is not changed', all(c.o.attrs.get(k) is v for k, v in before.items()) and set(before) == set(c.o.attrs) and not c.gl.stores and not c.books.st)
    e.check('the routine object is not changed', all(ps.attrs.get(k) is v for k, v in pa.items()))
    e.check('the initial state is not written', not c.init.tok.written)
def save(e):
    c = tn_circuit(e); mo = observable(c); ps = e.call(e.get(PS), c.o, c.init, Sym('M')); before, pa = dict(c.o.attrs), dict(ps.attrs)
    mf = N_.mul(e.ctx, c.M, c.F(c.K)); n = [0]
    def pick(m, env):
        if e.ctx.valid(z(m) == c.K) is not True: return None
        n[0] += 1
        return Forward(c) if n[0] == 1 else Backward(c, mf) if n[0] == 2 else None
    dispatch(e, pick)
    r = e.meth(ps, 'save_mid_MPS', mo)
    if not isinstance(r, tuple) or len(r) != 2: e.check('saved states and final vector', None); return
    d, sv = r
    if not isinstance(d, Saved): e.check('saved states', None, f'{type(d).__name__}'); return
    matches(e, d, all_rule(c, c.K), None, 'every state the gradient needs is saved')
    e.eq('the final state vector', sv, N_.transpose(c.F(c.K))); kept(e, c, ps, before, pa)
def grad(e, loose=False):
    c = tn_circuit(e); c.scalars = lambda x: as_number(e.ctx, c, x); ps = e.call(e.get(PS), c.o, c.init, Sym('M')); before, pa = dict(c.o.attrs), dict(ps.attrs)
    d = Saved(c, all_rule(c, c.K)); GR.SCALARS = c.scalars; dispatch(e, pick(e, c, adjoint_deriv, loose))
    r = e.meth(ps, 'cal_params_grad2', d); result_ok(e, c, r); kept(e, c, ps, before, pa)
    e.check('the saved states are not changed', not d.st and not any(v.tok.written for _, v in d.out))
ALL = ('cu3', 'u1', 'cphase')
def obligations(tier):
    return [Ob('save_mid_MPS: every state the gradient needs, and the final vector', save), Ob('cal_params_grad2: exact derivatives, in order, parameters restored', grad, alts=[dict(loose=True)])] \
        + [Ob(f'{g}: label, parameter count and spectrum', lambda e, g=g: gate_spectrum(e, g, ALL)) for g in S.GATES] \
        + [Ob(f'{c}: label, parameter count and spectrum', lambda e, c=c: layer_spectrum(e, c, ALL)) for c in LAYERS if c not in ('ring_of_cnot2', 'BasicEntangleLayer')]
ASSUMPTIONS = [
    "adjoint identity (meta-lemma): with F_k = G(k-1)...G(0)|init>, B_k = G(k)^+ ... G(K-1)^+ M F_K and Hermitian M, d<M>/d p_i of operation k is 2 Re <B_{k+1}| dG(k)/dp_i |F_k>",
    "an operation is sum_w e^{i w p} A_w in each single parameter, with the rates checked by the spectrum obligations",
    "TN_operation and operation_dagger of the operations are as proved in C03, C04, C07; params_update as proved in C05",
    "a one-qubit Pauli observable's TN_operation multiplies the state by it (C03)",
    "operations in the circuit are distinct objects, with parameters of rank 0 or 1"]
