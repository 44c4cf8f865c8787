"""C09: the builder appends exactly the named operation and keeps the books. One builder call on an arbitrary circuit
(any number of operations already present, books as the invariant says): the invariant holds again and the new operation
is the one named; with Circuit(N) and clear() establishing it, every history is covered by induction."""
from ..circ import *
from .layers import *
GATE_CALLS = {'Hadamard': 'Hadamard', 'PauliX': 'PauliX', 'PauliY': 'PauliY', 'PauliZ': 'PauliZ', 'rx': 'rx', 'ry': 'ry', 'rz': 'rz', 'u1': 'u1', 'u3': 'u3',
    'rxx': 'rxx', 'ryy': 'ryy', 'rzz': 'rzz', 'cnot': 'cnot', 'cz': 'cz', 'cphase': 'cphase', 'cu3': 'cu3', 'SWAP': 'SWAP', 'toffoli': 'toffoli'}
LAYER_CALLS = list(ROT) + ['ring_of_cnot', 'ring_of_cnot2', 'BasicEntangleLayer', 'HLayer', 'multi_control_cnot']
def kept(e, c, cls, N, wires, params, npar):
    """books and list after the call; returns the new operation"""
    ctx = e.ctx; o = c.o; g = o.attrs.get('gate')
    e.check('register size unchanged', veq(e, o.attrs.get('nqubits'), N))
    if not isinstance(g, (SL, list)): e.check('operation list', None); return None
    g = e.I.as_sl(g)
    e.check('exactly one more operation', ctx.valid(z(g.n) == c.K+1), f'{g.n}')
    j = ctx.var('j')
    def same_old():
        x = g.get(ctx, j); return ctx.valid(z(x.k) == j) if isinstance(x, GateObj) else False
    e.check('the earlier operations are the same, in order', ctx.forall(same_old, [j >= 0, j < c.K]))
    x = g.get(ctx, c.K)
    if not isinstance(x, PyObj): e.check('the new operation is last', False, f'{type(x).__name__}'); return None
    e.check('kind of the operation', x.cls.name == cls, x.cls.name)
    e.check('register size of the operation', veq(e, x.attrs.get('nqubits'), N))
    e.check('wires of the operation', veq(e, x.attrs.get('wires'), wires), f"{x.attrs.get('wires')}")
    if params is not None: e.check('parameters of the operation', veq(e, x.attrs.get('params'), params), f"{x.attrs.get('params')}")
    e.check('parameter count of the operation', veq(e, x.attrs.get('num_params'), npar), f"{x.attrs.get('num_params')}")
    e.check('parameter count of the circuit', veq(e, o.attrs.get('cir_num_params'), simp(c.n0+npar)), f"{o.attrs.get('cir_num_params')}")
    d = o.attrs.get('cir_params')
    if not isinstance(d, SymDict): e.check('parameter table', None); return x
    e.check('parameter table has one entry per operation', ctx.forall(lambda: ctx.valid(d.has(j) == z3.And(j >= 0, j <= c.K)), []))
    def old_entry():
        v = d.getitem(e.I, j); return ctx.valid(z(v.ix[0]) == j) if isinstance(v, Sym) and v.name == 'recorded' else False
    e.check('earlier table entries are kept', ctx.forall(old_entry, [j >= 0, j < c.K]))
    v = d.getitem(e.I, c.K)
    zero = ctx.valid(z(npar) == 0) is True
    e.check('table entry of the new operation', v is None if zero else v is x.attrs.get('params') or veq(e, v, x.attrs.get('params')), f'{v}')
    return x
CONTROLLED = {'cnot': 1, 'cz': 1, 'cphase': 1, 'cu3': 1, 'toffoli': 2}
def described(e, x, cls, wires):
    """info(): label, control wires, target wires and current parameters of the operation"""
    ctx = e.ctx
    if x is None: return
    d = e.meth(x, 'info')
    if not isinstance(d, Dict): e.check('description', None); return
    d = d.d; e.check('description: its keys', set(d) == {'label', 'contral_lst', 'target_lst', 'params'}, f'{list(d)}')
    if cls in CONTROLLED: cw, tw = list(wires)[:CONTROLLED[cls]], list(wires)[CONTROLLED[cls]:]
    elif cls == 'multi_control_cnot':
        w = e.I.as_sl(wires); cw, tw = SL(simp(z(w.n)-1), lambda j: w.get(ctx, j)), [w.get(ctx, simp(z(w.n)-1))]
    elif cls.startswith('ring_of_cnot'):
        w = e.I.as_sl(wires); L = z(w.n); st = 2 if cls == 'ring_of_cnot2' else 1
        if ctx.decide(L == 2): cw, tw = [w.get(ctx, 0)], [w.get(ctx, 1)]
        else: cw, tw = w, SL(w.n, lambda j: w.get(ctx, simp((z(j)+st) % L)))
    else: cw, tw = [], wires if isinstance(wires, (list, tuple, SL)) else [wires]
    e.check('description: label', veq(e, d.get('label'), x.attrs.get('label')), f"{d.get('label')}")
    e.check('description: control wires', veq(e, d.get('contral_lst'), cw), f"{d.get('contral_lst')}")
    e.check('description: target wires', veq(e, d.get('target_lst'), tw), f"{d.get('target_lst')}")
    e.check('description: parameters', veq(e, d.get('params'), x.attrs.get('params')) if cls in LAYERS and LAYERS[cls] or cls in S.GATES and S.GATES[cls][0] else d.get('params') is None, f"{d.get('params')}")
def gate_call(e, meth, form):
    cls = GATE_CALLS[meth]; n, k, f = S.GATES[cls]; c = circuit(e, support=False); with_books(e, c); N = c.N
    w = e.wires(k, N); ps = e.params(n); wl = list(w); t = give(e, ps, form) if n else []
    r = e.meth(c.o, meth, *t, w[0] if k == 1 else wl)
    want = None if not n else t[0] if isinstance(t[0], T) else (TT.scal(ps[0]) if n == 1 else TT.small(ps))
    x = kept(e, c, cls, N, w[0] if k == 1 else list(w), want, n)
    described(e, x, cls, w[0] if k == 1 else list(w))
    if k > 1: e.check("caller's wire list unchanged", veq(e, wl, list(w)))
    for y in t:
        if isinstance(y, T): e.check("caller's tensor unchanged", not y.tok.written)
def layer_call(e, cls, form):
    c = circuit(e, support=False); with_books(e, c); N = c.N; ctx = e.ctx
    wl = e.wirelist(N, 2 if cls in RINGS or cls.startswith('ring') or cls in ('BasicEntangleLayer', 'multi_control_cnot') else 1)
    n = LAYERS.get(cls, 0); at = fnat(ctx); rep = None
    args = [wl]; kw = {}
    np_ = 0; want = None
    if form == 'range': wl = SL(N, lambda j: j, kind='range')
    if form == 'tuple': wl = tuple(e.wires(3, N))
    args = [wl]
    if n:
        L = wl.n
        if cls == 'BasicEntangleLayer':
            rep = z3.Int('repeat'); ctx.assume(rep >= 1)
            if form == 'tensor default': rep = 1
            np_ = simp(3*L*rep)
        else: np_ = simp(n*L)
        want = VecT(np_, at) if form.startswith('tensor') else SL(np_, at)
        args.append(want)
        if cls == 'BasicEntangleLayer' and form != 'tensor default': args.append(rep)
        want = VecT(np_, at)
    e.meth(c.o, 'Hadamard' if cls == 'HLayer' else cls, *args, **kw)
    w0 = wl if isinstance(wl, tuple) or form == 'range' else wl.copy()
    x = kept(e, c, cls, N, w0, want, np_)
    described(e, x, cls, w0)
    if x is not None and rep is not None and 'repeat' in x.attrs: e.check('number of repetitions', veq(e, x.attrs['repeat'], rep))
def add(e):
    """add() of any operation"""
    c = circuit(e, support=False); with_books(e, c); ctx = e.ctx; g = GateObj(c, simp(c.K)); e.meth(c.o, 'add', g)
    sl = e.I.as_sl(c.o.attrs['gate']); j = ctx.var('j')
    e.check('one more operation', ctx.valid(z(sl.n) == c.K+1))
    e.check('operations in order', ctx.forall(lambda: ctx.valid(z(sl.get(ctx, j).k) == j), [j >= 0, j <= c.K]))
    np_ = c.npar(c.K)
    e.check('parameter count', ctx.valid(z(c.o.attrs['cir_num_params']) == c.n0+np_))
    d = c.o.attrs['cir_params']; v = d.getitem(e.I, c.K)
    if ctx.decide(np_ == 0): e.check('table entry', v is None, f'{v}')
    else: e.check('table entry', isinstance(v, Sym) and v.name == 'params' and ctx.valid(z(v.ix[0]) == c.K) is True, f'{v}')
def fresh(e):
    """a new circuit is empty and its books say so; clear() restores exactly that"""
    c = circuit(e, support=False); with_books(e, c); f = e.call(e.get(QC+'Circuit'), c.N)
    e.check('a new circuit is empty', veq(e, f.attrs.get('gate'), []) is True and veq(e, f.attrs.get('cir_num_params'), 0) is True and isinstance(f.attrs.get('cir_params'), Dict) and not f.attrs['cir_params'].d)
    e.check('register size', veq(e, f.attrs.get('nqubits'), c.N))
    e.meth(c.o, 'clear')
    r, k = attrs_eq(e, c.o.attrs, f.attrs); e.check('a cleared circuit equals a new one', r, f'attribute {k}')
    e.check('the cleared list is not shared with anything', c.o.attrs['gate'] is not f.attrs['gate'])
def init(e):
    N = e.N(); c = e.call(e.get(QC+'Circuit'), N); v = e.meth(c, 'state_init')
    from .c18 import basis0
    basis0(e, v, N)
def obligations(tier):
    obs = [Ob('Circuit.add', add), Ob('Circuit(N) and clear()', fresh), Ob('Circuit.state_init is |0..0>', init)]
    for m, g in GATE_CALLS.items():
        for form in FORMS[S.GATES[g][0]]:
            if form == 'vec' and S.GATES[g][0] == 1: continue
            obs.append(Ob(f'Circuit.{m} [{form} parameters]' if S.GATES[g][0] else f'Circuit.{m}', gate_call, m, form))
    for l in LAYER_CALLS:
        forms = ('-',) if not LAYERS.get(l) else ('tensor', 'list') if l != 'BasicEntangleLayer' else ('tensor', 'list', 'tensor default')
        for f in forms: obs.append(Ob(f'Circuit.{l}' + (f' [{f} parameters]' if f != '-' else ''), layer_call, l, f))
    obs += [Ob(f'Circuit.HLayer [wires a {k}]', layer_call, 'HLayer', k) for k in ('range', 'tuple')]
    return obs
ASSUMPTIONS = ["wires of an operation are in range and distinct, parameter counts match (other inputs: C20)"]
