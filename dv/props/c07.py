"""C07: tensor-network paths of the layers equal the dense operator; unsupported wire lists are refused."""
from .layers import *
from .c20 import attempt
TNL = list(ROT) + ['HLayer', 'ring_of_cnot', 'ring_of_cnot_dagger']
def rng(e, s):
    """the wire list 0..N-1, the only one the rings' tensor-network paths accept"""
    e.ctx.assume(s.N >= 2)
def ring_wl(e):
    """wires = list(range(N)) of a register of at least two qubits"""
    N = e.N(2); l = SL(N, lambda j: j); l.fn = lambda k: k; l._isint = True
    return N, l
def mk(e, c, form='tensor'):
    if c in RINGS:
        N, l = ring_wl(e); return mk_layer(e, c, form, N, l)
    return mk_layer(e, c, form)
def contract(e, c, form, batch):
    s = mk(e, c, form); N = s.N
    check_tn(e, s.o, N, batch, lambda col: N_.mul(e.ctx, spec(e, c, N, s.wl, s.at), col))
def operation(e, c, form):
    s = mk(e, c, form)
    check_mps(e, s.o, s.N, lambda col: N_.mul(e.ctx, spec(e, c, s.N, s.wl, s.at), col))
def refuse(e, c, path):
    """any other wire list: an error (or the right answer)"""
    s = mk_layer(e, c); j = e.ctx.var('odd'); N = s.N
    e.ctx.assume(z3.Or(s.wl.n != N, z3.And(j >= 0, j < s.wl.n, s.wl.fn(j) != j)))
    want = lambda col: N_.mul(e.ctx, spec(e, c, N, s.wl, s.at), col)
    try:
        if path == 'mps': check_mps(e, s.o, N, want)
        else: check_tn(e, s.o, N, path == 'batch', want)
    except Exc: e.check('refused', True)
def flag(e, c):
    s = mk(e, c); e.check('supportTN is declared', e.I.getattr(s.o, 'supportTN') is True)
def obligations(tier):
    obs = []
    for c in TNL:
        for form in (('tensor', 'list') if LAYERS[c] else ('-',)):
            t = f' {form} parameters' if LAYERS[c] else ''
            for b in (False, True): obs.append(Ob(f'{c}.TN_contract [{"batched" if b else "plain"}{t}]', contract, c, form, b))
            obs.append(Ob(f'{c}.TN_operation' + (f' [{t.strip()}]' if t else ''), operation, c, form))
        obs.append(Ob(f'{c}.supportTN', flag, c))
        if c in RINGS:
            for p, nm in (('plain', 'TN_contract'), ('batch', 'batched TN_contract'), ('mps', 'TN_operation')): obs.append(Ob(f'{c}.{nm}: other wire lists are refused', refuse, c, p))
    return obs
ASSUMPTIONS = ['the wires of a layer are distinct']
