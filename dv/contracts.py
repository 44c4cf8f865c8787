"""Contracts of repository functions, used at call sites instead of the callee's body. Each has an obligation that
proves it of the callee's current body (CONTRACT_OBS); the obligation is part of every property that uses the contract."""
import z3
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, StateT
from .prove import Ob
CONTRACTS = {}; CONTRACT_OBS = {}
def contract(q):
    def d(f): CONTRACTS[q] = f; return f
    return d
def proof(q, name):
    def d(f): CONTRACT_OBS.setdefault(q, []).append((name, f)); return f
    return d
QM = 'deepquantum.gates.qmath.'; QO = 'deepquantum.gates.qoperator.'; QT = 'deepquantum.gates.qtensornetwork.'
# ---- multi_kron: Kronecker product of the list, left to right
@contract(QM+'multi_kron')
def _mk(I, fn, args, kw):
    l = args[0] if args else kw['lst']
    if isinstance(l, list) and len(l) <= 4: return NotImplemented      # short concrete list: run the body
    if not isinstance(l, (list, SL, tuple)): return NotImplemented
    from .dense import kron_list
    if isinstance(l, SL) and I.ctx.valid(z(l.n) >= 1) is not True:
        if not I.ctx.decide(z(l.n) >= 1): raise Exc('IndexError', 'list index out of range')
    return kron_list(I, I.as_sl(l))
@proof(QM+'multi_kron', 'multi_kron(lst) is the left-to-right Kronecker product of any non-empty list')
def _mkp(e):
    """elements are matrices of unspecified shape, identified by their position"""
    from .dense import KronT, kron_list
    from .interp import Opaque
    class El(Opaque):
        def __init__(s, i): s.i = i
    n = z3.Int('n'); e.ctx.assume(n >= 1)
    lst = SL(n, lambda j: El(j))
    f = e.get(QM+'multi_kron'); e.I.skip.add(QM+'multi_kron')
    r = e.call(f, lst)
    if isinstance(r, El):
        e.check('single factor', e.ctx.valid(z3.And(n == 1, z(r.i) == 0)), f'returned element {r.i}'); return
    if not isinstance(r, KronT): e.check('Kronecker product', None, f'{type(r).__name__}'); return
    e.check('length', e.ctx.valid(z(r.sl.n) == n), f'{r.sl.n} factors')
    j = e.ctx.var('j')
    def at():
        x = r.sl.get(e.ctx, j)
        return e.ctx.valid(z(x.i) == j) if isinstance(x, El) else None
    e.check('factor j is element j', e.ctx.forall(at, [j >= 0, j < n]))
    e.check('argument unchanged', len(lst.stores) == 0 and e.ctx.valid(z(lst.n) == n))
def contract_obs(used):
    out = []
    for q in sorted(used):
        for name, f in CONTRACT_OBS.get(q, []): out.append(Ob(f'contract {q.replace("deepquantum.","")}: {name}', f))
    return out
TRUSTED = ['the verifier itself: dv/ (symbolic interpreter of the Python subset, exact scalar and operator normal forms, loop summaries)', 'z3 (integer arithmetic, path feasibility)',
 'contracts of torch / numpy / math / copy functions and Python builtins (dv/torchmod.py, dv/tensor.py)',
 'machine floating point treated as exact real/complex arithmetic', 'textbook matrices of dv/specs.py']
# ---- SWAP on a matrix product state (used inside the other gates' bodies; proved of SWAP's body in C03)
@contract(QO+'SWAP.TN_operation')
def _swap_tn(I, fn, args, kw):
    from .mps import MPSV
    from .interp import PyObj
    from . import specs as S
    if len(args) != 2 or kw or not isinstance(args[0], PyObj) or args[0].cls.name != 'SWAP' or not isinstance(args[1], MPSV): return NotImplemented
    o, m = args; w = o.attrs.get('wires')
    if not isinstance(w, (list, tuple)) or len(w) != 2 or not all(is_int(x) for x in w): return NotImplemented
    a, b = w; N = o.attrs.get('nqubits'); ctx = I.ctx
    if not is_int(N) or ctx.valid(z(N) == z(m.N)) is not True: return NotImplemented
    if ctx.valid(z3.And(z(a) >= 0, z(a) < N, z(b) >= 0, z(b) < N, z(a) != z(b))) is not True: return NotImplemented
    m.apply(I, S.op(m.N, (a, b), S.SW)); return m
@proof(QO+'SWAP.TN_operation', 'SWAP(N, [a, b]).TN_operation(mps) exchanges the two qubits of the state, for all distinct a, b in range')
def _swap_tn_p(e):
    from .props.c03 import tn_op
    tn_op(e, 'SWAP', '-')
# ---- state vector <-> matrix product state (proved in C10)
@contract(QT+'StateVec2MPS')
def _sv2mps(I, fn, args, kw):
    from .mps import MPSV
    if kw or len(args) != 2 or not isinstance(args[0], T) or args[0].is_small() or not is_int(args[1]): return NotImplemented
    t, N = args; sh = t.shape()
    if len(sh) != 2 or sh[0] != 1 or not isinstance(sh[1], (int, Dim)) or dim_eq(I.ctx, Dim.of(sh[1]), Dim.pow2(N)) is not True: return NotImplemented
    if I.ctx.valid(z(N) >= 1) is not True: return NotImplemented
    x = TT.as_nc(t)
    return MPSV(N, N_.transpose(x), I) if x is not None else NotImplemented
@contract(QT+'MPS2StateVec')
def _mps2sv(I, fn, args, kw):
    from .mps import MPSV
    m = args[0] if args else kw.get('tensor_lst')
    rs = kw.get('return_sv', args[1] if len(args) > 1 else True)
    if not isinstance(m, MPSV) or rs not in (True, False) or set(kw) - {'return_sv', 'tensor_lst'}: return NotImplemented
    m.commit(I)
    return TT.dense(N_.transpose(m.content)) if rs is True else StateT(m.N, None, m.content)
@proof(QT+'StateVec2MPS', 'StateVec2MPS(psi, N) is a chain of N sites representing psi, for every N and psi (proved with the loop invariant of C10)')
def _sv2mps_p(e):
    from .props.c10 import to_mps
    to_mps(e)
@proof(QT+'MPS2StateVec', 'MPS2StateVec(m) is the row vector the chain represents')
def _mps2sv_p(e):
    from .props.c10 import from_mps
    from_mps(e)
@proof(QT+'MPS2StateVec', 'MPS2StateVec(m, return_sv=False) is the rank-N tensor the chain represents')
def _mps2sv_n(e):
    from .props.c10 import from_mps_n
    from_mps_n(e)
