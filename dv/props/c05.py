"""C05: updating parameters is building afresh; uses leave the object alone.

Closure argument, each part an obligation about the real methods:
 (a) every attribute of  update(o(p0), p)  equals that of  o(p)  - so by induction an object after any number of updates
     is attribute-wise a fresh one;
 (b) every use (dense operator, matrix, contractions, matrix-product application, adjoint, description) leaves every
     attribute as it was - so uses in between change nothing;
 (c) after a generic history use-update-use-update every representation is that of the last parameters;
 (d) neither writes the tensor the caller supplied."""
from .layers import *
def form_of(g): return '-' if S.GATES[g][0] == 0 else 'scalar' if S.GATES[g][0] == 1 else 'vec'
def built(e, g, ps, N, w, tok=None):
    t = uptensor(e, g, ps)
    n, k, f = S.GATES[g]
    a = [t] if n else []
    return e.call(e.get(QO+g), *a, N, w[0] if k == 1 else list(w)), t
def use_all(e, g, o, N, w, mp=True):
    e.meth(o, 'U_expand'); e.I.getattr(o, 'matrix')
    e.meth(o, 'TN_contract', state(e, N, False, 'phi')); e.meth(o, 'TN_contract', state(e, N, True, 'phi'), batch_mod=True)
    if mp: e.meth(o, 'TN_operation', mps(e, N, 'phi'))
    e.meth(o, 'info'); e.meth(o, 'operation_dagger')
def update(e, g):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); p0 = e.params(n, 'old'); ps = e.params(n)
    e.note = hist(g, N, w, p0, [['P', ps]])
    o, t0 = built(e, g, p0, N, w); t = uptensor(e, g, ps); e.meth(o, 'params_update', t)
    fr, _ = built(e, g, ps, N, w)
    if n: same_public(e, 'public attribute', o, fr)
    r, kk = attrs_eq(e, o.attrs, fr.attrs)
    # attributes that differ can still behave alike; behaviours are checked by the history obligation
    e.check('all attributes', None if r is False and kk not in PUBLIC else r, f'attribute {kk}')
    for x in (t0, t):
        if x is not None: e.check("caller's tensor", not x.tok.written, 'written')
def hist(g, N, w, p0, h): return dict(op=g, N=N, wires=w, params=p0, form='tensor', repeat=1, hist=[[x, q] for x, q in h])
def uses(e, g, form):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); ps = e.params(n)
    e.note = hist(g, N, w, ps, [[x, None] for x in 'UCBMDI'])
    wl = list(w); t = give(e, ps, form)
    o = e.call(e.get(QO+g), *t, N, w[0] if k == 1 else wl)
    for nm, f2 in (('U_expand', lambda: e.meth(o, 'U_expand')), ('TN_contract', lambda: e.meth(o, 'TN_contract', state(e, N, False, 'phi'))),
                  ('batched TN_contract', lambda: e.meth(o, 'TN_contract', state(e, N, True, 'phi'), batch_mod=True)),
                  ('TN_operation', lambda: e.meth(o, 'TN_operation', mps(e, N, 'phi'))), ('info', lambda: e.meth(o, 'info')), ('operation_dagger', lambda: e.meth(o, 'operation_dagger'))):
        b = snap(e, o); f2(); unchanged_obj(e, nm+' leaves the gate unchanged', b, o)
    if k > 1: e.check("caller's wire list", veq(e, wl, list(w)), 'changed')
    for x in t:
        if isinstance(x, T): e.check("caller's tensor", not x.tok.written, 'written')
        if isinstance(x, list): e.check("caller's list", veq(e, x, list(ps)), 'changed')
def history(e, g, parts=('dense', 'tn', 'mps')):
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); p0 = e.params(n, 'old'); p1 = e.params(n, 'mid'); ps = e.params(n)
    e.note = hist(g, N, w, p0, [[x, None] for x in 'UCBMDI'] + [['P', p1]] + [[x, None] for x in 'UCBMDI'] + [['P', ps]])
    o, _ = built(e, g, p0, N, w); use_all(e, g, o, N, w, k < 3)     # three wires: the (long) matrix-product use is covered by its frame obligation
    if n: e.meth(o, 'params_update', uptensor(e, g, p1)); use_all(e, g, o, N, w)
    e.meth(o, 'params_update', uptensor(e, g, ps))
    behaves(e, g, o, N, w, ps, parts)
def refill(t, new):
    """the caller (an optimiser, say) writes new values into its own tensor"""
    if isinstance(t, VecT): t.base = new
    else: t.arr = TT.scal(new[0]).arr if t.arr.ndim == 0 else TT.small(new).arr
    t.tok.ver += 1; t.ver = t.tok.ver
def inplace(e, g):
    """the same tensor object, with new contents, given again"""
    n, k, f = S.GATES[g]; N = e.N(); w = e.wires(k, N); p0 = e.params(n, 'old'); p1 = e.params(n, 'mid'); ps = e.params(n)
    e.note = hist(g, N, w, p0, [[x, None] for x in 'UCD'] + [['P', p1]] + [[x, None] for x in 'UCD'] + [['Q', ps]])
    o, t = built(e, g, p0, N, w); e.meth(o, 'U_expand'); e.meth(o, 'operation_dagger')
    for q in (p1, ps):
        refill(t, q); e.meth(o, 'params_update', t)
        if q is p1: e.meth(o, 'U_expand'); e.meth(o, 'TN_contract', state(e, N, False, 'phi'))
    behaves(e, g, o, N, w, ps, ('dense', 'tn'))
def linplace(e, c):
    s = mk_layer(e, c, name='old'); o = s.o; N = s.N; e.I.skip.add(f'{QL}{c}.U_expand'); at = s.at
    q1, q = fnat(e.ctx, 'mid'), fnat(e.ctx, 'th'); ps = lambda rec, f: [rec(f(i)) for i in range(rec(s.M))]
    e.note = lambda rec: dict(s.note(rec), hist=[['U', None], ['P', ps(rec, q1)], ['U', None], ['Q', ps(rec, q)]])
    e.meth(o, 'U_expand')
    for f in (q1, q):
        refill(s.p, f); e.meth(o, 'params_update', s.p)
        if f is q1: e.meth(o, 'U_expand'); e.meth(o, 'TN_contract', state(e, N, False, 'phi')) if tn(c) else None
    e.eq('dense operator', e.meth(o, 'U_expand'), spec(e, c, N, s.wl, q, s.rep))
    if tn(c): check_tn(e, o, N, False, lambda col: N_.mul(e.ctx, spec(e, c, N, s.wl, q, s.rep), col), 'contraction')
def behaves(e, g, o, N, w, ps, parts=('dense', 'tn', 'mps')):
    n, k, f = S.GATES[g]
    if 'tn' in parts:
        check_tn(e, o, N, False, lambda col: applied(e, N, w, f(ps), col), 'contraction', w)
        check_tn(e, o, N, True, lambda col: applied(e, N, w, f(ps), col), 'batched contraction', w)
    if 'mps' in parts: check_mps(e, o, N, lambda col: applied(e, N, w, f(ps), col))
    if 'dense' not in parts: return
    e.eq('dense operator', e.meth(o, 'U_expand'), S.op(N, w, f(ps)))
    m = e.I.getattr(o, 'matrix')
    e.check('gate matrix', N_.sp_eq(e.ctx, sp_of(m), f(ps)) if isinstance(m, T) and m.is_small() else None, f'{m}')
    e.eq('adjoint', e.meth(e.meth(o, 'operation_dagger'), 'U_expand'), S.op(N, w, dag_sp(f(ps))))
    fr, _ = built(e, g, ps, N, w); info_same(e, 'description', o, fr)
    if n: same_public(e, 'attribute', o, fr)
def lmk(e, c, at, name_args=None):
    """a layer of class c with the given parameters on the same register and wires"""
    cl = e.get(QL+c); a = list(name_args.args)
    if LAYERS[c]: p = VecT(name_args.M, at); a[2] = p
    else: p = None
    return e.call(cl, *a), p
def full_ring(e, c):
    N = e.N(2); l = SL(N, lambda j: j); l.fn = lambda k: k; l._isint = True
    return mk_layer(e, c, 'tensor', N, l, name='old')
def lup(e, c):
    s = mk_layer(e, c, name='old'); q = fnat(e.ctx, 'th'); t = VecT(s.M, q)
    e.note = lambda rec: dict(s.note(rec), hist=[['P', [rec(q(i)) for i in range(rec(s.M))]]])
    e.meth(s.o, 'params_update', t); fr, _ = lmk(e, c, q, s)
    r, kk = attrs_eq(e, s.o.attrs, fr.attrs)
    same_public(e, 'public attribute', s.o, fr, ('label', 'nqubits', 'wires', 'params', 'num_params', 'supportTN'))
    e.check('all attributes', None if r is False else r, f'attribute {kk}')
    for x in (s.p, t): e.check("caller's tensor is not written", not x.tok.written)
def luse(e, c, form):
    s = mk_layer(e, c, form) if c not in RINGS or c == 'ring_of_cnot2' else full_ring(e, c); o = s.o; N = s.N
    p0 = s.p.copy() if isinstance(s.p, SL) else None
    e.note = lambda rec: dict(s.note(rec), hist=[[x, None] for x in ('UCBMDI' if tn(c) else 'UI')])
    us = [('U_expand', lambda: (e.I.skip.add(f'{QL}{c}.U_expand'), e.meth(o, 'U_expand'))), ('info', lambda: e.meth(o, 'info'))]
    if tn(c): us += [('TN_contract', lambda: e.meth(o, 'TN_contract', state(e, N, False, 'phi'))), ('batched TN_contract', lambda: e.meth(o, 'TN_contract', state(e, N, True, 'phi'), batch_mod=True)),
                     ('TN_operation', lambda: e.meth(o, 'TN_operation', mps(e, N, 'phi'))), ('operation_dagger', lambda: e.meth(o, 'operation_dagger'))]
    for nm, f in us:
        b = snap(e, o); f(); unchanged_obj(e, nm+' leaves the layer unchanged', b, o)
    if isinstance(s.p, VecT): e.check("caller's tensor is not written", not s.p.tok.written)
    elif p0 is not None: e.check("caller's list is not changed", veq(e, s.p, p0))
    e.check("caller's wire list is not changed", not s.wl.stores and e.ctx.valid(z(s.wl.n) == z(s.args[1].n)) is True)
def tn(c): return c not in ('ring_of_cnot2', 'BasicEntangleLayer')
def lhist(e, c, part):
    s = mk_layer(e, c, name='old') if c not in RINGS or c == 'ring_of_cnot2' else full_ring(e, c); o = s.o; N = s.N
    e.I.skip.add(f'{QL}{c}.U_expand')
    q1, q = fnat(e.ctx, 'mid'), fnat(e.ctx, 'th'); ps = lambda rec, f: [rec(f(i)) for i in range(rec(s.M))]
    u = 'UCBMDI' if tn(c) else 'UI'
    e.note = lambda rec: dict(s.note(rec), hist=[[x, None] for x in u] + [['P', ps(rec, q1)]] + [[x, None] for x in u] + [['P', ps(rec, q)]])
    def use():
        e.meth(o, 'U_expand'); e.meth(o, 'info')
        if tn(c): e.meth(o, 'TN_contract', state(e, N, False, 'phi')); e.meth(o, 'operation_dagger')
        if tn(c) and c not in RINGS: e.meth(o, 'TN_operation', mps(e, N, 'phi'))       # for the rings: see 'uses leave the layer unchanged'
    at = s.at
    if LAYERS[c]:
        for f in (q1, q): use(); e.meth(o, 'params_update', VecT(s.M, f))
        at = q
    else: use(); use()
    want = lambda col: N_.mul(e.ctx, spec(e, c, N, s.wl, at, s.rep), col)
    if part == 'dense':
        e.eq('dense operator', e.meth(o, 'U_expand'), spec(e, c, N, s.wl, at, s.rep))
        fr, _ = lmk(e, c, at, s); info_same(e, 'description', o, fr); same_public(e, 'attribute', o, fr, ('label', 'nqubits', 'wires', 'params', 'num_params', 'supportTN'))
    elif part == 'adjoint': e.eq('adjoint', e.meth(e.meth(o, 'operation_dagger'), 'U_expand'), nc_of_word(N, dagger_word(e, c, N, s.wl, at)))
    elif part == 'mps': check_mps(e, o, N, want)
    else:
        check_tn(e, o, N, False, want, 'contraction'); check_tn(e, o, N, True, want, 'batched contraction')
def mcx(e):
    """no parameters: uses and updates leave it as it was built"""
    from .c01 import mcx_spec
    N = e.N(); wl = e.wirelist(N, lo=2); e.note = lambda rec: dict(op='multi_control_cnot', N=rec(N), wires=rec(wl), params=[], form='tensor', hist=[[x, None] for x in 'UIDP'])
    o = e.call(e.get(QO+'multi_control_cnot'), N, wl)
    for nm, f in (('U_expand', lambda: e.meth(o, 'U_expand')), ('info', lambda: e.meth(o, 'info')), ('operation_dagger', lambda: e.meth(o, 'operation_dagger')), ('params_update', lambda: e.meth(o, 'params_update', None))):
        b = snap(e, o); f(); unchanged_obj(e, nm+' leaves the gate unchanged', b, o)
    e.eq('dense operator', e.meth(o, 'U_expand'), mcx_spec(N, wl))
    fr = e.call(e.get(QO+'multi_control_cnot'), N, wl); info_same(e, 'description', o, fr)
    e.check("caller's wire list is not changed", not wl.stores)
def obligations(tier):
    obs = [Ob('multi_control_cnot: uses and updates leave it unchanged', mcx)]
    for c, k in LAYERS.items():
        if k: obs += [Ob(f'{c}.params_update equals building afresh', lup, c), Ob(f'{c}: the same tensor updated in place and given again', linplace, c)]
        for form in (('tensor', 'list') if k else ('-',)): obs.append(Ob(f'{c}: uses leave the layer unchanged' + (f' [{form} parameters]' if k else ''), luse, c, form))
        for p in (('dense', 'tn', 'mps', 'adjoint') if tn(c) else ('dense',)): obs.append(Ob(f'{c}: use, update, use, update [{p}]', lhist, c, p))
    for g, (n, k, f) in S.GATES.items():
        obs.append(Ob(f'{g}.params_update equals building afresh', update, g))
        if n: obs.append(Ob(f'{g}: the same tensor updated in place and given again', inplace, g))
        for form in FORMS[n]:
            if form == 'vec' and n == 1: continue
            obs.append(Ob(f'{g}: uses leave the gate unchanged [{form} parameters]', uses, g, form))
        if k < 3: obs.append(Ob(f'{g}: use, update, use, update', history, g))
        else:
            for p in ('dense', 'tn', 'mps'): obs.append(Ob(f'{g}: use, update, use, update [{p}]', history, g, (p,)))
    return obs
ASSUMPTIONS = ['parameter updates are given tensors']
