"""C12: partial traces. The recursive functions are verified against their own contract: a call from inside the body is
answered by the contract (result = reduced matrix of the arguments), after checking that the arguments satisfy it."""
from .c13 import *
from ..torchmod import dim_int
nc_of = TT.as_nc
class Rec:
    """contract of a recursive function during the verification of its own body"""
    def __init__(s, e, q):
        s.e, s.q, s.calls, s.top, s.args = e, q, 0, True, None
        e.I.contracts = dict(e.I.contracts); e.I.contracts[q] = s.handle
    def handle(s, I, fn, args, kw):
        if s.top: s.top = False; return NotImplemented
        s.calls += 1; s.args = bind(fn, args, kw)
        rho, M, l = s.args
        if not isinstance(rho, T): raise Unsupported('recursive call on something that is not a matrix')
        d = Dim.pow2(M); s.res = Op('reduced', (s.calls,), *[s.dim(M, l)]*2, herm=True)
        return TT.dense(N_.nc_op(s.res))
    def dim(s, M, l):
        n = l.n if isinstance(l, SL) else len(l)
        return Dim.pow2(simp(z(M)-z(n)))
def bind(fn, args, kw):
    names = [a.arg for a in fn.node.args.args]; v = dict(zip(names, args)); v.update(kw); return [v[k] for k in names]
def unit_trace(e, name, t, rho, want):
    """the matrix handed on has the trace of the original"""
    x = nc_of(t); ctx = e.ctx; rot = None
    for c, w in x.t:                       # tr(<b| A |b>) = tr(|b><b| A)
        if len(w) < 2 or not isinstance(w[-1], Op) or w[-1].name != 'bra' or not w[-1].tr: rot = None; break
        y = NC([(c, (w[-1],)+tuple(w[:-1]))], w[-1].r, w[-1].r); rot = y if rot is None else N_.add(ctx, rot, y)
    if rot is not None: rot = N_.simp(ctx, rot); x = rho if N_.nc_eq(ctx, rot, rho) is True else rot
    x = N_.trace(ctx, x); e.eq(name, NC([(x, ())], Dim(1), Dim(1)) if isinstance(x, P) else x, NC([(want, ())], Dim(1), Dim(1)))
def reduced_once(ctx, rho, s, N):
    """sum over b of (I x <b| x I) rho (I x |b> x I), qubit s of N"""
    out = None
    for b in (0, 1):
        q = N_.nc_op(N_.bra(s, b, N)); t = N_.mul(ctx, N_.mul(ctx, q, rho), N_.transpose(q)); out = t if out is None else N_.add(ctx, out, t)
    return out
def pre(e, lo, sel):
    N = e.N()
    if sel is None: l = e.wirelist(N, lo=lo)
    else: l = e.wires(sel, N)
    return N, l
def step(e, q, sel):
    """qubits to trace: a list of unknown length (sel None) or of sel entries"""
    ctx = e.ctx; N, l = pre(e, 1, sel); rho = dmat(e, N); rt = TT.dense(rho); R = Rec(e, q)
    e.note = lambda rec: dict(N=rec(N), lst=rec(l), kind='random', seed=1)
    n = l.n if isinstance(l, SL) else len(l); arg = l.copy() if isinstance(l, SL) else list(l)
    r = e.call(e.get(q), rt, N, arg)
    e.check('the input matrix is not written', not rt.tok.written)
    if R.calls != 1: e.check('one recursive step', None, f'{R.calls} recursive calls'); return
    m, M, rest = R.args
    e.check('one qubit fewer', ctx.valid(z(M) == z(N)-1) is True)
    rn = rest.n if isinstance(rest, SL) else len(rest)
    e.check('one index fewer', ctx.valid(z(rn) == z(n)-1) is True)
    # the smallest index s is traced; every other index t of the request is handed on as t-1 (its position after removal)
    at = lambda k: rest.get(ctx, k) if isinstance(rest, SL) else TT._sel(list(rest), k)
    orig = lambda k: l.get(ctx, k) if isinstance(l, SL) else TT._sel(list(l), k)
    s = first_traced(e, m)
    if s is None: e.check('the traced qubit', None, 'not of the form sum_b <b|rho|b>'); return
    k, j = ctx.var('k'), ctx.var('j')
    e.check('the traced qubit is one of the register', ctx.valid(z3.And(z(s) >= 0, z(s) < z(N))))
    e.eq('the reduced matrix of that qubit', nc_of(m), reduced_once(ctx, rho, s, N))
    if isinstance(l, SL):
        p, sigma = perm_of(e, rest, l)
        if p is None: e.check('the rest of the request', None, 'not recognised as positions of the request'); return
        e.check('the traced qubit is requested', ctx.valid(z(s) == z(orig(p(0)))))
        e.check('every other requested qubit, renumbered', ctx.forall(lambda: ctx.valid(z(at(k)) == z(orig(p(simp(k+1))))-1), [k >= 0, k < z(rn)]))
    else:
        w = list(l); e.check('the traced qubit is requested', ctx.valid(z3.Or([z(s) == x for x in w])))
        r_ = [z(x) for x in rest]
        e.check('every other requested qubit, renumbered', ctx.valid(z3.And([z3.Or([z(x) == z(s)]+[y == z(x)-1 for y in r_]) for x in w]+[z3.Or([z3.And(y == z(x)-1, z(x) != z(s)) for x in w]) for y in r_])) if r_ or len(w) == 1 else None)
    e.check('indices stay distinct', ctx.forall(lambda: ctx.valid(z(at(k)) != z(at(j))), [k >= 0, k < j, j < z(rn)]))
    e.check('indices stay in range', ctx.forall(lambda: ctx.valid(z3.And(z(at(k)) >= 0, z(at(k)) < z(M))), [k >= 0, k < z(rn)]))
    unit_trace(e, 'unit trace is kept', m, rho, P.const(1))
    e.eq('the result is that of the recursive call', nc_of(r), N_.nc_op(R.res))
def first_traced(e, m):
    """s when m = sum_b <b|_s rho |b>_s: read off the bras of its words"""
    x = nc_of(m)
    for c, w in x.t:
        for f in w:
            if isinstance(f, Op) and f.name == 'bra': return f.idx[0]
    return None
def perm_of(e, rest, l):
    """the permutation introduced by sorting, if the code sorts"""
    ctx = e.ctx; k = z3.Int('pr!k'); t = z(rest.get(ctx, k))
    for a in ctx.apps(t):
        if a.decl().name().startswith('perm#'):
            d = a.decl(); return (lambda i: d(z(i))), None
    return None, None
def base(e, q, form):
    N = e.N(); rho = dmat(e, N); rt = TT.dense(rho); R = Rec(e, q)
    e.note = lambda rec: dict(N=rec(N), lst=[], kind='random', seed=1)
    if form == 'symbolic': l = e.wirelist(N, lo=0); e.ctx.assume(l.n == 0)
    else: l = []
    r = e.call(e.get(q), rt, N, l)
    e.check('no recursion', R.calls == 0); e.eq('the matrix itself', nc_of(r), rho); e.check('the input matrix is not written', not rt.tok.written)
def refuse(e, q, why, sel):
    ctx = e.ctx; N = e.N(); R = Rec(e, q)
    l = e.wirelist(N, lo=1, valid=why != 'index' and why != 'negative', distinct=True) if sel is None else e.wires(sel, N, valid=why not in ('index', 'negative'))
    e.note = lambda rec: dict(N=rec(N), lst=rec(l), bad=why)
    M = N
    if why == 'dimension':
        M = z3.Int('M'); ctx.assume(z3.And(M >= 1, M != N)); e.note = lambda rec: dict(N=rec(N), lst=rec(l), bad=why, M=rec(M))
    rho = dmat(e, M)
    if why == 'trace':
        t = e.params(1, 'trace')[0]; ctx.traces = {'rho': t}; zt = e.I.real_of(list(t.atoms())[0]); ctx.assume(z3.Or(zt > z3.RealVal('1.01'), zt < z3.RealVal('0.99')))
    if why in ('index', 'negative'):
        k = z3.Int('bad'); n = l.n if isinstance(l, SL) else len(l); v = (l.fn(k) if isinstance(l, SL) else TT._sel(list(l), k))
        ctx.assume(z3.And(k >= 0, k < n))
        ctx.assume(z(v) >= z(N) if why == 'index' else z(v) < 0)
    arg = l.copy() if isinstance(l, SL) else list(l)
    try: r = e.call(e.get(q), TT.dense(rho), N, arg)
    except Exc as x: e.check('refused', True); return
    e.check('refused', False if R.calls == 0 or why != 'negative' else None, 'accepted')
def keep_leading(e):
    ctx = e.ctx; a, b = z3.Int('a'), z3.Int('b'); ctx.assume(z3.And(a >= 0, b >= 0)); N = simp(a+b)
    rho = dmat(e, N); rt = TT.dense(rho); e.note = lambda rec: dict(N=rec(N), lst=list(range(rec(b))), kind='random', seed=1)
    r = e.call(e.get(QM+'ptrace'), rt, a, b)
    D = dim_int(ctx, Dim.pow2(b)); A = Dim.pow2(a); full = Dim.pow2(N)
    def term(k):
        q = N_.nc_op(Op('iunit', (k, a), full, A, real=True)); return N_.mul(ctx, N_.mul(ctx, N_.transpose(q), rho), q)
    want = NC([(P.const(1), (N_.Sum(D, term, A, A),))], A, A)
    e.eq('sum over the basis of the trailing qubits', nc_of(r), want)
    e.check('the input matrix is not written', not rt.tok.written)
FNS = [QM+'partial_trace', QM+'partial_trace_old']
def obligations(tier):
    obs = []
    for q in FNS:
        n = q.split('.')[-1]
        obs.append(Ob(f'{n}: the smallest requested qubit is reduced and the rest handed on, any number of qubits', step, q, None))
        for k in (1, 2, 3): obs.append(Ob(f'{n}: {k} requested qubit(s) in any order', step, q, k))
        obs += [Ob(f'{n}: tracing nothing returns the matrix ({f})', base, q, f) for f in ('literal', 'symbolic')]
        for w in ('dimension', 'trace', 'index', 'negative'):
            for k in (None, 1, 2): obs.append(Ob(f'{n}: refuses wrong {w} ({k or "any number of"} indices)', refuse, q, w, k))
    obs.append(Ob('ptrace keeps the leading qubits, every size', keep_leading))
    return obs
ASSUMPTIONS = ['partial traces of disjoint qubits commute (meta-lemma), so tracing the smallest index first gives the reduction of the whole set; the recursion ends because the list gets shorter']
