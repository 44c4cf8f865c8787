"""C20: invalid placements and counts are refused, valid ones are not."""
from .c01 import *
from ..torchmod import VecT
from ..prove import Failed
from ..vals import Exc, SL, Dim
QL = 'deepquantum.layers.qlayers.'
RF = {g: 'scalar' if S.GATES[g][0] == 1 else 'vec' if S.GATES[g][0] == 3 else '-' for g in S.GATES}
def attempt(e, f):
    """True when the call ends normally, False when it raises"""
    try: f(); return True
    except Exc: return False
def expect(e, name, f, ok):
    r = attempt(e, f)
    e.check(name, r == ok, 'returned instead of raising' if r else 'raised instead of returning')
def gate_note(e, g, N, w, ps, bad=True): e.note = dict(k='gate', op=g, N=N, wires=list(w), params=ps)
def bad_range(e, g):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N, valid=False, distinct=False); ps = e.params(n)
    e.ctx.assume(z3.Or(*[z3.Or(x < 0, x >= N) for x in w]))
    gate_note(e, g, N, w, ps)
    o = mk(e, g, RF[g], ps, N, w)
    expect(e, 'refused', lambda: e.meth(o, 'U_expand'), False)
def bad_repeat(e, g, i, j):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N, distinct=False); ps = e.params(n)
    e.ctx.assume(w[i] == w[j]); gate_note(e, g, N, w, ps)
    o = mk(e, g, RF[g], ps, N, w)
    expect(e, 'refused', lambda: e.meth(o, 'U_expand'), False)
def bad_none(e, g, what):
    n, k, f = S.GATES[g]; N = e.N(); ps = e.params(n); p = give(e, ps, RF[g])
    c = e.get(QO+g); w = e.wires(k, N); wl = w[0] if k == 1 else list(w)
    def go():
        o = e.call(c, *p) if what == 'neither' else e.call(c, *p, N) if what == 'no wires' else e.call(c, *p, -1, wl)
        e.meth(o, 'U_expand')
    expect(e, 'refused', go, False)
def good(e, g):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n); gate_note(e, g, N, w, ps, False)
    expect(e, 'accepted', lambda: e.meth(mk(e, g, RF[g], ps, N, w), 'U_expand'), True)
def mcx_bad(e, kind):
    N = e.N(); wl = e.wirelist(N, lo=2, valid=kind != 'range', distinct=False); j = e.ctx.var('badwire'); L = wl.n
    e.ctx.assume(z3.And(j >= 0, j < L))
    f = wl.fn
    if kind == 'range': e.ctx.assume(z3.Or(f(j) < 0, f(j) >= N))
    else: e.ctx.assume(z3.And(j < L-1, f(j) == f(L-1)))
    e.note = dict(k='gate', op='multi_control_cnot', N=N, wires=wl, params=[])
    o = e.call(e.get(QO+'multi_control_cnot'), N, wl)
    expect(e, 'refused', lambda: e.meth(o, 'U_expand'), False)
def mcx_good(e):
    N = e.N(); wl = e.wirelist(N, lo=2)
    o = e.call(e.get(QO+'multi_control_cnot'), N, wl)
    expect(e, 'accepted', lambda: e.meth(o, 'U_expand'), True)
# ---- layers
LAYERS = {'XYZLayer': 3, 'ZYXLayer': 3, 'YZYLayer': 3, 'XZXLayer': 3, 'XZLayer': 2, 'ZXLayer': 2, 'HLayer': 0, 'ring_of_cnot': 0, 'ring_of_cnot_dagger': 0, 'ring_of_cnot2': 0, 'BasicEntangleLayer': 3}
RINGS = ('ring_of_cnot', 'ring_of_cnot_dagger', 'ring_of_cnot2', 'BasicEntangleLayer')
def pvec(e, n, name='th'):
    """parameter tensor of symbolic length"""
    return VecT(n, lambda j: P.atom(e.ctx.atom(name, 'real', j)))
def plist(e, n, name='th'): return SL(n, lambda j: P.atom(e.ctx.atom(name, 'real', j)))
def layer_ctor(e, c, kind, form):
    k = LAYERS[c]; N = e.N(); wl = e.wirelist(N, lo=0, distinct=False); L = wl.n; M = z3.Int('nparams'); rep = z3.Int('repeat')
    e.ctx.inst.clear()
    e.ctx.assume(M >= 0)
    if kind != 'wires': e.ctx.assume(L <= N)
    if kind != 'ring' and c in RINGS: e.ctx.assume(L >= 2)
    if c == 'BasicEntangleLayer':
        if kind == 'repeat': e.ctx.assume(rep < 1)
        else: e.ctx.assume(rep >= 1)
        R = z3.Int('total'); e.ctx.assume(R == 3*L*rep)
    else: R = k*L
    if kind == 'count': e.ctx.assume(M != R)
    elif k: e.ctx.assume(M == R)
    if kind == 'wires': e.ctx.assume(L > N)
    if kind == 'ring': e.ctx.assume(L < 2)
    cl = e.get(QL+c)
    a = [N, wl] + ([] if not k else [pvec(e, M) if form == 'tensor' else plist(e, M)]) + ([rep] if c == 'BasicEntangleLayer' else [])
    e.note = lambda rec: dict(k='layer', op=c, N=rec(N), L=rec(L), n=rec(M) if k else 0, ok=kind == 'good', **(dict(rep=rec(rep)) if c == 'BasicEntangleLayer' else {}))
    expect(e, 'accepted' if kind == 'good' else 'refused', lambda: e.call(cl, *a), kind == 'good')
def obligations(tier):
    obs = []
    for g, (n, k, f) in S.GATES.items():
        obs.append(Ob(f'{g}: a wire out of range is refused', bad_range, g))
        for i in range(k):
            for j in range(i+1, k):
                if g == 'toffoli' and j == 1: continue       # repeated controls: unspecified
                obs.append(Ob(f'{g}: equal wires {i} and {j} are refused', bad_repeat, g, i, j))
        for w in ('neither', 'no wires', 'no register'): obs.append(Ob(f'{g}: expansion with {w} given is refused', bad_none, g, w) if w == 'neither' else Ob(f'{g}: expansion with {w} is refused', bad_none, g, w))
        obs.append(Ob(f'{g}: every valid placement is accepted', good, g))
    obs += [Ob('multi_control_cnot: a wire out of range is refused', mcx_bad, 'range'), Ob('multi_control_cnot: target among the controls is refused', mcx_bad, 'repeat'),
            Ob('multi_control_cnot: every valid placement is accepted', mcx_good)]
    for c, k in LAYERS.items():
        for form in (('tensor', 'list') if k else ('-',)):
            kinds = ['wires', 'good'] + (['count'] if k else []) + (['ring'] if c in RINGS else []) + (['repeat'] if c == 'BasicEntangleLayer' else [])
            for kd in kinds:
                nm = {'wires': 'more wires than qubits are refused', 'good': 'every valid wire list and parameter count is accepted', 'count': 'a wrong parameter count is refused', 'ring': 'fewer than two wires are refused', 'repeat': 'a repeat below one is refused'}[kd]
                obs.append(Ob(f'{c} [{form} parameters]: {nm}' if k else f'{c}: {nm}', layer_ctor, c, kd, form))
    return obs
ASSUMPTIONS = ['repeated controls of toffoli / multi_control_cnot are outside the property', 'layer wire lists are distinct']
