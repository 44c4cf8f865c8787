"""Arrays given by an entry function, of any shape, and sums of a symbolic number of terms.

FunT: shape is a list of ints / z3 integers; at(i, j, ..) is the exact scalar at that position.
A sum  f(0)+..+f(n-1)  and an absolute value |x| whose arguments depend on loop indices become one atom of a *family*:
a template over parameters, applied to the actual indices. Two are equal when the templates are, and their real values
are applications of one uninterpreted function to the indices, so loop conditions on them can be quantified."""
import z3, itertools
from .scalar import P, Unsupported, Atom
from . import scalar as S, tensor as TT
from .tensor import T, Tok, scal, oarr, small
from .vals import *
from .vals import z
from .interp import Opaque
from .smt import peq, same
def is_param(v): return z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in v.decl().name() and v.decl().name().rsplit('!', 1)[1].isdigit()
def params_of(ts):
    """loop indices (generated integer constants) occurring in integer terms, in order of first occurrence"""
    out = []
    def go(t):
        if not z3.is_expr(t): return
        if is_param(t):
            if not any(t.eq(o) for o in out): out.append(t)
            return
        for c in t.children(): go(c)
    for t in ts: go(t)
    return out
def terms_of(p): return [t for a in sorted(p.atoms(), key=lambda a: (a.name, a.conjd, [str(i) for i in a.index])) for t in a.index]
def psubst(ctx, p, m):
    """substitute integer terms in the indices of p's atoms"""
    m = [(a, z(b)) for a, b in m if not (z3.is_expr(b) and a.eq(b))]
    if not m: return p
    def f(a):
        if not a.index or not any(z3.is_expr(i) for i in a.index): return None
        ix = tuple(z3.simplify(z3.substitute(i, *m)) if z3.is_expr(i) else i for i in a.index)
        if same(ix, a.index): return None
        ix = tuple(i.as_long() if z3.is_int_value(i) else i for i in ix)
        b = ctx.atom(a.name, a.kind, *ix); b.inv = a.inv
        return P.atom(b.twin() if a.conjd else b)
    return p.subs(f)
class Family:
    sym = None
    def __init__(s, name, kind, params, tmpl, n=None, b=None): s.name, s.kind, s.params, s.tmpl, s.n, s.b = name, kind, params, tmpl, n, b
def families(ctx): return ctx.__dict__.setdefault('families', [])
def subst_t(t, m):
    if not z3.is_expr(t): return t
    m = [(a, z(b)) for a, b in m]
    return simp(z3.substitute(t, *m)) if m else t
def apply_family(ctx, what, p, n=None, b=None):
    """the atom for  Sum_{b<n} p  (n, b given) or for |p|"""
    # parameters: whole index terms, unless some term mixes the bound index with others
    ts = [t for t in terms_of(p) + ([n] if n is not None else []) if z3.is_expr(t) and params_of([t]) and not (b is not None and t.eq(b))]
    if b is not None and any(occurs(t, b) for t in ts): ps = [v for v in params_of(ts) if not v.eq(b)]
    else:
        ps = []
        for t in ts:
            if not any(t.eq(u) for u in ps): ps.append(t)
    for f in families(ctx):
        if f.name[0] != what or len(f.params) != len(ps): continue
        m = list(zip(f.params, ps))
        if n is not None and not same((subst_t(f.n, m),), (n,)): continue
        q = psubst(ctx, f.tmpl, m + ([(f.b, b)] if b is not None else []))
        for cj in (False, True):
            if (q.conj() if cj else q) == p:
                a = ctx.atom(f.name, f.kind, *ps); return P.atom(a.twin() if cj else a)
    for f in families(ctx):
        if f.name[0] != what: continue
        # possible values of a parameter: index terms of p at the places where the parameter stands alone
        cands = []
        for v in f.params:
            c = []
            for a in f.tmpl.atoms():
                for q, t in enumerate(a.index):
                    if z3.is_expr(t) and t.eq(v):
                        for a2 in p.atoms():
                            if a2.name == a.name and len(a2.index) == len(a.index):
                                u = a2.index[q]
                                if not (b is not None and z3.is_expr(u) and u.eq(b)) and not any(same((u,), (x,)) for x in c): c.append(u)
            for u in ps:
                if not any(same((u,), (x,)) for x in c): c.append(u)
            cands.append(c[:5])
        for k, args in enumerate(itertools.product(*cands)):
            if k > 40: break
            m = list(zip(f.params, args))
            if n is not None:
                n2 = subst_t(f.n, m)
                if not (same((n2,), (n,)) or ctx.valid(z(n2) == z(n)) is True): continue
            q = psubst(ctx, f.tmpl, m + ([(f.b, b)] if b is not None else []))
            for cj in (False, True):
                q2 = q.conj() if cj else q
                if not struct_ok(q2, p): continue
                rng = [b >= 0, b < z(n)] if b is not None else []
                if ctx.forall(lambda: peq(ctx, q2, p), rng) is True:
                    a = ctx.atom(f.name, f.kind, *args)
                    return P.atom(a.twin() if cj else a)
    nm = f'{what}{len(families(ctx))}'
    fr = [ctx.var('fp') for _ in ps]; m = list(zip(ps, fr))
    def ren(t):
        for a, c in m:
            if z3.is_expr(t) and t.eq(a): return c
        return subst_t(t, [x for x in m if is_param(x[0])])
    def ra(a):
        if not a.index: return None
        x = ctx.atom(a.name, a.kind, *[ren(t) for t in a.index]); x.inv = a.inv
        return P.atom(x.twin() if a.conjd else x)
    f = Family(nm, 'real' if what == '|' or p.is_real() else 'cplx', fr, p.subs(ra), ren(n), b); families(ctx).append(f)
    return P.atom(ctx.atom(nm, f.kind, *ps))
def symmetric(ctx, f):
    """|t(x, y)| = |t(y, x)|: swapping the two parameters gives +-t or +-t^dagger"""
    if f.sym is None:
        x, y = f.params; bs = {}
        def open_sums(p):
            """every sum replaced by its term at a common bound index (only where p is linear in one sum)"""
            def g(a):
                h = next((h for h in families(ctx) if h.name == a.name), None) if a.name[0] == 'S' else None
                if h is None: return None
                m = list(zip(h.params, a.index)); n = subst_t(h.n, m); b = bs.setdefault(str(n), ctx.var('b'))
                t = psubst(ctx, h.tmpl, m + [(h.b, b)]); return t.conj() if a.conjd else t
            return p.subs(g)
        lin = all(sum(k for a, k in m if a.name[0] == 'S') <= 1 for m, e in f.tmpl.d) and sum(any(a.name[0] == 'S' for a, k in m) for m, e in f.tmpl.d) <= 1
        q = ctx.var('fp'); t = f.tmpl; u = psubst(ctx, psubst(ctx, psubst(ctx, t, [(x, q)]), [(y, x)]), [(q, y)])
        if lin: t, u = open_sums(t), open_sums(u)
        f.sym = any(u == v for v in (t, -t, t.conj(), -t.conj()))
    return f.sym
def diagonal(ctx, f, x):
    """|t(x, x)| as a value of a family in one parameter; None when it is not one"""
    def go(a):
        h = next((h for h in families(ctx) if h.name == a.name), None) if a.name[0] == 'S' else None
        if h is None: return None
        m = list(zip(h.params, a.index)); r = total(ctx, subst_t(h.n, m), lambda b: psubst(ctx, h.tmpl, m + [(h.b, b)]))
        return r.conj() if a.conjd else r
    if not any(a.name[0] == 'S' for a in f.tmpl.atoms()): return None
    q = psubst(ctx, f.tmpl, [(v, x) for v in f.params]).subs(go)
    r = absval(ctx, q)
    return None if r.linear() is None or len(r.d) != 1 or any(a.name == f.name for a in r.atoms()) else r
def struct_ok(a, b): return len(a.d) == len(b.d) and {(x.name, x.conjd) for x in a.atoms()} == {(x.name, x.conjd) for x in b.atoms()}
def total(ctx, n, f):
    """f(0) + ... + f(n-1)"""
    if isinstance(n, int):
        r = P()
        for k in range(n): r = r + f(k)
        return r
    b = ctx.var('b'); vals = list(ctx.explore(lambda: f(b), [b >= 0, b < z(n)]))
    if not vals: return P()
    if len(vals) != 1: raise Unsupported('sum of terms given by cases')
    p = vals[0]
    if p.is_zero(): return P()
    # the sum is linear: one atom per monomial, with constants outside
    r = P()
    for (m, e), c in p.d.items():
        q = P({(m, e): S.ONE})
        if not any(z3.is_expr(t) and occurs(t, b) for a in q.atoms() for t in a.index):
            r = r + P({((), ()): c})*q*P.atom(ctx.atom('int', 'real', n)); continue
        r = r + P({((), ()): c})*apply_family(ctx, 'S', q, n, b)
    return P(r.d, p.det)
def occurs(t, b):
    st = [t]
    while st:
        x = st.pop()
        if x.eq(b): return True
        st += x.children()
    return False
def absval(ctx, p):
    return apply_family(ctx, '|', p)
def sqrtval(ctx, p):
    try: return S.sqrt(p)
    except Unsupported: pass
    if len(p.d) == 1:
        (m, e), c = next(iter(p.d.items()))
        # c * |x|^2 * |y|^4 ..: the root is read off when every factor is a square of something non-negative
        if m and not e and all(a.name[0] in '|Q' and k % 2 == 0 for a, k in m):
            try: r = S.sqrt(P.const(c))
            except Unsupported: r = None
            if r is not None: return r*P({(tuple((a, k//2) for a, k in m), ()): S.ONE}, p.det)
    r = apply_family(ctx, 'Q', p)
    for a in r.atoms(): a.inv = True; a.twin().inv = True
    return P(r.d, p.det)
# ------------------------------------------------------------------ arrays
class Wr:
    """stores of a loop nest: for every k1 < bounds[0](), k2 < bounds[1](k1), ..: position idx(k1, ..) := val(k1, ..); the
    positions are pairwise different"""
    def __init__(s, bounds, idx, val): s.bounds, s.idx, s.val = bounds, idx, val
def hit(ctx, w, js):
    """(parameters, condition) under which position js is stored by w"""
    m = len(w.bounds); qs = [ctx.var('q') for _ in range(m)]; ts = [z(t) for t in w.idx(*qs)]; js = [z(j) for j in js]
    sol = {}
    sub = lambda t: z3.substitute(t, *[(qs[p], z(v)) for p, v in sol.items()]) if sol else t
    todo = list(range(len(ts)))
    while len(sol) < m:
        for c in todo:
            t = z3.simplify(sub(ts[c]), som=True); fr = [p for p in range(m) if p not in sol and occurs(t, qs[p])]
            if len(fr) != 1: continue
            q = qs[fr[0]]; r = z3.simplify(z3.substitute(t, (q, z3.IntVal(0)))); a = z3.simplify(z3.substitute(t, (q, z3.IntVal(1)))-r, som=True)
            if occurs(a, q) or not z3.is_true(z3.simplify(t-a*q-r == 0, som=True)): continue
            if z3.is_int_value(a) and abs(a.as_long()) == 1: sol[fr[0]] = simp((js[c]-r)*a)
            elif ctx.valid(a != 0) is True: sol[fr[0]] = simp((js[c]-r)/a)
            else: continue
            todo.remove(c); break
        else: raise Unsupported('positions stored by a loop')
    ks = [sol[p] for p in range(m)]
    cond = [z(t) == j for t, j in zip(w.idx(*ks), js)]
    for p in range(m): cond += [z(ks[p]) >= 0, z(ks[p]) < z(w.bounds[p](*ks[:p]))]
    return ks, simp(z3.And(*cond))
def memo_tuple(ctx, doms, f):
    """integer tuple f(k1, ..), executed once at generic indices and instantiated by substitution. doms: bounds"""
    from .loops import fresh_vars
    qs = [ctx.var('q') for _ in doms]; f0 = ctx.fresh; rng = []
    vals = list(ctx.explore(lambda: [ctx.assume(z3.And(q >= 0, q < z(d(*qs[:p])))) for p, (q, d) in enumerate(zip(qs, doms))] and f(*qs), []))
    if not vals or not all(is_int(v) for v in vals[0]) or any(not z(a).eq(z(b)) for v in vals for a, b in zip(v, vals[0])): raise Unsupported('positions stored by a loop are given by cases')
    ts = [z(v) for v in vals[0]]
    if any(fresh_vars(t, f0) for t in ts): raise Unsupported('positions stored by a loop')
    return lambda *ks: tuple(simp(z3.substitute(t, *[(q, z(k)) for q, k in zip(qs, ks)])) for t in ts)
def at_generic(ctx, gen, doms, f):
    """memo_tuple from the writes recorded at the generic iteration `gen`; None when they do not determine the value"""
    from .loops import fresh_vars
    qs = [ctx.var('q') for _ in doms]; out = None
    for k, fr, ws in gen:
        def go():
            ctx.assume(z3.And(k >= 0, k < z(doms[0]())))
            for p, (q, d) in enumerate(zip(qs[1:], doms[1:])): ctx.assume(z3.And(q >= 0, q < z(z3.substitute(z(d(k, *qs[1:p+1])), (qs[0], k)))))
            return f(ws)(*qs[1:])
        for v in ctx.explore(go, []):
            if not all(is_int(t) for t in v): return None
            v = [z(t) for t in v]
            if any(str(c) not in {str(x) for x in qs} and not c.eq(k) for t in v for c in fresh_vars(t, fr[0])): return None
            if out is None: out = (k, v)
            elif out[0] is not k or any(not a.eq(b) for a, b in zip(v, out[1])): return None
    if out is None: return None
    k, ts = out
    return lambda *ks: tuple(simp(z3.substitute(t, (k, z(ks[0])), *[(q, z(x)) for q, x in zip(qs[1:], ks[1:])])) for t in ts)
def close_stores(ctx, ob, n, nw, wr, gen=None):
    """the stores of a whole loop: wr(k) lists the writes of iteration k, nw of them"""
    new = []
    def memo(doms, f, one=False):
        g = at_generic(ctx, gen, doms, (lambda ws: lambda *ks: (f(ws)(*ks),)) if one else f) if gen else None
        if g is None: g = memo_tuple(ctx, doms, (lambda k, *ks: (f(wr[0](k))(*ks),)) if one else (lambda k, *ks: f(wr[0](k))(*ks)))
        return (lambda *ks: g(*ks)[0]) if one else g
    for r in range(nw):
        nb = len(wr[1][r].bounds)
        doms = [lambda: n]
        for p in range(nb): doms.append(memo(list(doms), (lambda p, r: lambda ws: lambda *ks: ws[r].bounds[p](*ks))(p, r), True))
        idx = memo(doms, (lambda r: lambda ws: lambda *ks: ws[r].idx(*ks))(r))
        new.append(Wr(doms, idx, (lambda r: lambda k, *ks: wr[0](k)[r].val(*ks))(r)))
    for r in range(nw):
        for r2 in range(r, nw):
            a = [ctx.var('a') for _ in new[r].bounds]; b = [ctx.var('b') for _ in new[r2].bounds]
            rng = [z3.And(q >= 0, q < z(d(*v[:p]))) for w, v in ((new[r], a), (new[r2], b)) for p, (q, d) in enumerate(zip(v, w.bounds))]
            if r == r2: rng.append(z3.Or(*[x != y for x, y in zip(a, b)]))
            if ctx.check(*rng, *[z(x) == z(y) for x, y in zip(new[r].idx(*a), new[r2].idx(*b))]) != 'unsat': raise Unsupported('positions stored by a loop may coincide')
    return new
class Mask(Opaque):
    """the truth values of an elementwise comparison"""
    def __init__(s, sh, at): s.sh, s.at = sh, at
    def pytype(s, I):
        from .interp import TypeTok
        return TypeTok('Tensor')
    def attr(s, I, a):
        from .interp import BMeth
        return tuple(s.sh) if a == 'shape' else BMeth(s, a)
    def getitem(s, I, i):
        ix = i if isinstance(i, tuple) else (i,)
        if len(ix) != len(s.sh) or not all(is_int(x) for x in ix): raise Unsupported('index of a mask')
        return s.at(*[TT.neg_idx(I.ctx, x, d) for x, d in zip(ix, s.sh)])
    def quant(s, I, which):
        from .torchmod import prelude
        if len(s.sh) > 2: raise Unsupported('all/any of a mask')
        return prelude(I, f'{which}_m{len(s.sh)}', s, *s.sh)
    def method(s, I, name, args, kw):
        if name in ('all', 'any') and not args and not kw: return s.quant(I, name)
        if name in ('item', 'bool', 'cpu', 'detach'): return s
        raise Unsupported(f'{name} of a mask')
def compare(I, k, a, b):
    """elementwise comparison of an array with a scalar or an array of the same shape"""
    import ast
    from .torchmod import VecT
    sh = [a.n] if isinstance(a, VecT) else a.sh if isinstance(a, FunT) else [b.n] if isinstance(b, VecT) else b.sh
    def get(x):
        if isinstance(x, (FunT, VecT)):
            s2 = [x.n] if isinstance(x, VecT) else x.sh
            if len(s2) != len(sh) or any(I.ctx.valid(z(p) == z(q)) is not True for p, q in zip(s2, sh)): raise Unsupported('arrays of different shapes compared')
            return x.snap()
        if isinstance(x, T):
            if not x.is_small() or x.arr.size != 1: raise Unsupported('arrays of different shapes compared')
            v = x.chk().arr.reshape(())[()]; return lambda *ix: v
        v = P.const(I.int2p(x)); return lambda *ix: v
    f, g = get(a), get(b)
    return Mask(sh, lambda *ix: I.pcmp(k, f(*ix), g(*ix)))
class FunT(Opaque):
    def cmp(s, I, k, a, b):
        if k in ('Eq', 'NotEq') and any(v is None or isinstance(v, str) for v in (a, b)): return k == 'NotEq'
        return compare(I, k, a, b)
    def __init__(s, shape, at, tok=None):
        s.sh = [simp(d) if z3.is_expr(d) else d for d in shape]; s.base = at; s.tok = tok or Tok(); s.ver = s.tok.ver; s.written_ = False
    def pytype(s, I):
        from .interp import TypeTok
        return TypeTok('Tensor')
    def at(s, *ix):
        if s.ver != s.tok.ver: raise Unsupported('read of a view whose base was modified in place')
        return s.base(*ix)
    def snap(s):
        if s.rec is not None: raise Unsupported('a loop copies an array it is changing')
        if s.ver != s.tok.ver: raise Unsupported('read of a view whose base was modified in place')
        return s.base
    def attr(s, I, a):
        from .interp import BMeth
        if a == 'shape': return tuple(s.sh)
        if a == 'ndim': return len(s.sh)
        if a == 'T': return s.perm(list(range(len(s.sh)))[::-1])
        if a == 'H': return s.perm(list(range(len(s.sh)))[::-1]).map(lambda x: x.conj())
        if a == 'mT': return s.perm(list(range(len(s.sh)-2))+[len(s.sh)-1, len(s.sh)-2])
        if a == 'real': return s.map(lambda x: x.real())
        if a == 'imag': return s.map(lambda x: x.imag())
        if a in ('dtype', 'device'): return a+':?'
        if a == 'data': return s.map(lambda x: x.detached())
        return BMeth(s, a)
    def map(s, f):
        b = s.snap(); return FunT(s.sh, lambda *ix: f(b(*ix)))
    def perm(s, p):
        b = s.snap()
        def at(*ix):
            o = [None]*len(p)
            for k, q in enumerate(p): o[q] = ix[k]
            return b(*o)
        return FunT([s.sh[q] for q in p], at, s.tok)
    def getitem(s, I, i):
        ix = list(i) if isinstance(i, tuple) else [i]
        if len(ix) > len(s.sh): raise Exc('IndexError', 'too many indices')
        if any(isinstance(x, T) for x in ix): ix = [TT._toint(x.arr.reshape(())[()]) if isinstance(x, T) and x.arr.size == 1 else x for x in ix]
        if any(x is Ellipsis or x is None for x in ix): raise Unsupported('index of an array')
        ix += [slice(None)]*(len(s.sh)-len(ix)); fixed = []; sh = []; copied = False
        for x, d in zip(ix, s.sh):
            if isinstance(x, slice):
                l = I.sl_get(SL(d, lambda j: j, kind='list'), x)
                if isinstance(l, (list, tuple)): fixed.append(('s', (lambda l: lambda j: TT._sel(l, j))(list(l)))); sh.append(len(l))
                else: fixed.append(('s', (lambda l: lambda j: l.get(I.ctx, j))(l))); sh.append(l.n)
            elif is_int(x): fixed.append(('i', TT.neg_idx(I.ctx, x, d)))
            elif isinstance(x, list) and all(is_int(q) for q in x) and sum(isinstance(q, (list, SL)) for q in ix) == 1 and not any(is_int(q) for q in ix):
                l = [TT.neg_idx(I.ctx, q, d) for q in x]; fixed.append(('s', (lambda l: lambda j: TT._sel(l, j))(l))); sh.append(len(l)); copied = True
            else: raise Unsupported('index of an array')
        b = s.snap()
        def at(*js):
            js = list(js); return b(*[v if k == 'i' else v(js.pop(0)) for k, v in fixed])
        if not sh: return T(TT.oscal(at()), tok=s.tok)
        if all(isinstance(d, int) for d in sh) and _size(sh) <= 64:
            r = oarr(tuple(sh))
            for q in itertools.product(*[range(d) for d in sh]): r[q] = at(*q)
            return T(r, tok=None if copied else s.tok)
        if len(sh) == 1:
            from .torchmod import RowV, VecT
            def full(j): return tuple(v if k == 'i' else v(j) for k, v in fixed)
            if copied: return VecT(sh[0], at)
            return RowV(sh[0], at, s, full)
        return FunT(sh, at, None if copied else s.tok)
    def setitem(s, I, i, v):
        ctx = I.ctx
        if s.ver != s.tok.ver: raise Unsupported('store through a view whose base was modified in place')
        ix = list(i) if isinstance(i, tuple) else [i]
        if len(ix) > len(s.sh) or not all(is_int(x) or isinstance(x, slice) for x in ix): raise Unsupported('store into an array')
        ix += [slice(None)]*(len(s.sh)-len(ix)); par = []; pos = []
        for x, d in zip(ix, s.sh):
            if not isinstance(x, slice): c = TT.neg_idx(ctx, x, d); pos.append((lambda c: lambda k: c)(c)); continue
            l = I.sl_get(SL(d, lambda j: j, kind='list'), x); l = I.as_sl(l); p = len(par); par.append(l.n)
            pos.append((lambda l, p: lambda k: l.get(ctx, k[p]))(l, p))
        def dims(): return [n for n in par if not (isinstance(n, int) and n == 1)]
        one = lambda n: isinstance(n, int) and n == 1
        from .torchmod import VecT
        if isinstance(v, T):
            if v.arr.size != 1 and not v.is_small(): raise Unsupported('store into an array')
            a = v.chk().arr; sh = list(a.shape); get = lambda *js: a[tuple(js)]
        elif isinstance(v, VecT): sh = [v.n]; get = v.snap()
        elif isinstance(v, FunT): sh = list(v.sh); get = v.snap()
        else: sh = []; c0 = P.const(I.int2p(v)); get = lambda *js: c0
        while len(sh) > len(par) and one(sh[0]): g0 = get; sh = sh[1:]; get = (lambda g0: lambda *js: g0(0, *js))(g0)
        if len(sh) > len(par): raise Exc('RuntimeError', 'shape mismatch in a store')
        off = len(par)-len(sh)
        for q, n in enumerate(sh):
            if not one(n) and ctx.valid(z(n) == z(par[off+q])) is not True:
                if ctx.valid(z(n) != z(par[off+q])) is True: raise Exc('RuntimeError', 'shape mismatch in a store')
                raise Unsupported('store of another shape')
        val = lambda *ks: get(*[0 if one(n) else ks[off+q] for q, n in enumerate(sh)])
        if any(isinstance(d, int) and d == 0 for d in par): return
        live = [p for p, n in enumerate(par) if not one(n)]
        full = lambda ks: [ks[live.index(p)] if p in live else 0 for p in range(len(par))]
        s.store(ctx, Wr([(lambda n: lambda *k: n)(par[p]) for p in live], lambda *ks: tuple(f(full(ks)) for f in pos), lambda *ks: val(*full(ks))))
    rec = None
    def put(s, ctx, ix, v): s.store(ctx, Wr([], lambda: tuple(ix), lambda: v))
    def store(s, ctx, w):
        old = s.base
        def at(*js):
            ks, c = hit(ctx, w, js)
            return w.val(*ks) if (c if isinstance(c, bool) else ctx.decide(c)) else old(*js)
        s.base = at; s.tok.ver += 1; s.tok.written = True; s.ver = s.tok.ver
        if s.rec is not None: s.rec.writes.append(w)
    def method(s, I, name, args, kw):
        from .torchmod import size_args, arg
        if name == 'permute': return s.perm([TT.axis_no(x, len(s.sh)) for x in size_args(args)])
        if name in ('transpose', 'swapaxes'):
            i, j = [TT.axis_no(x, len(s.sh)) for x in args]; p = list(range(len(s.sh))); p[i], p[j] = p[j], p[i]; return s.perm(p)
        if name == 't': return s.perm([1, 0]) if len(s.sh) == 2 else s
        if name in ('conj', 'conj_physical'): return s.map(lambda x: x.conj())
        if name == 'adjoint': return s.perm([1, 0]).map(lambda x: x.conj())
        if name == 'map': return s.map(args[0])
        if name == 'abs':
            from .torchmod import _abs
            return s.map(lambda x: _abs(x, I.ctx))
        if name in ('clone',): return FunT(s.sh, s.snap())
        if name == 'detach': return s.map(lambda x: x.detached())
        if name in ('contiguous', 'to', 'cpu', 'float', 'double', 'resolve_conj', 'type', 'cfloat'): return s
        if name == 'norm' and not args and not kw:
            b = s.snap(); return scal(sqrtval(I.ctx, FunT(s.sh, lambda *ix: b(*ix)*b(*ix).conj()).method(I, 'sum', [], {}).arr[()]))
        if name in ('sqrt', 'cos', 'sin', 'exp'):
            from .torchmod import EXT
            return EXT['torch.'+name](I, [s], {})
        if name in ('flip', 'fliplr', 'flipud'):
            ds = [1] if name == 'fliplr' else [0] if name == 'flipud' else [TT.axis_no(x, len(s.sh)) for x in size_args(args)]
            b = s.snap(); return FunT(s.sh, lambda *ix: b(*[simp(z(n)-1-z(i)) if q in ds else i for q, (i, n) in enumerate(zip(ix, s.sh))]))
        if name in ('unbind', 'split1'):
            d = TT.axis_no(arg(args, kw, 0, 'dim', 0), len(s.sh))
            g = lambda k: s.getitem(I, tuple([slice(None)]*d+[k]))
            return tuple(g(k) for k in range(s.sh[d])) if isinstance(s.sh[d], int) else SL(s.sh[d], g)
        if name in ('reshape', 'view', 'flatten', 'ravel'):
            d = size_args(args) if name in ('reshape', 'view') else [-1]
            if name == 'flatten' and (args or kw): raise Unsupported('flatten of an array')
            tot = 1
            for n in s.sh: tot = simp(z(tot)*z(n)) if z3.is_expr(tot) or z3.is_expr(n) else tot*n
            if len(d) != 1 or not (d[0] == -1 if isinstance(d[0], int) else I.ctx.valid(z(d[0]) == z(tot)) is True): raise Unsupported(f'{name} of an array of symbolic shape')
            from .torchmod import VecT
            import ast
            b = s.snap()
            def at(p):
                ix = []
                for n in reversed(s.sh[1:]): ix.append(I.binop(ast.Mod(), p, n) if not (isinstance(n, int) and n == 1) else 0); p = I.binop(ast.FloorDiv(), p, n) if not (isinstance(n, int) and n == 1) else p
                return b(*([p]+ix[::-1]))
            return VecT(tot, at, s.tok)
        if name == 'unsqueeze':
            d = TT.axis_no(arg(args, kw, 0, 'dim'), len(s.sh)+1); b = s.snap()
            return FunT(s.sh[:d]+[1]+s.sh[d:], lambda *ix: b(*(ix[:d]+ix[d+1:])), s.tok)
        if name == 'squeeze':
            b = s.snap(); d = arg(args, kw, 0, 'dim')
            one = [q for q in range(len(s.sh)) if isinstance(s.sh[q], int) and s.sh[q] == 1 and (d is None or TT.axis_no(d, len(s.sh)) == q)]
            if any(not isinstance(s.sh[q], int) and I.ctx.valid(z(s.sh[q]) != 1) is not True for q in range(len(s.sh)) if d is None or TT.axis_no(d, len(s.sh)) == q): raise Unsupported('squeeze of a dimension that may be one')
            keep = [q for q in range(len(s.sh)) if q not in one]
            def at(*ix):
                o = [0]*len(s.sh)
                for q, i in zip(keep, ix): o[q] = i
                return b(*o)
            if len(keep) == 1:
                from .torchmod import VecT
                return VecT(s.sh[keep[0]], at, s.tok)
            return FunT([s.sh[q] for q in keep], at, s.tok)
        if name in ('dim', 'ndimension'): return len(s.sh)
        if name == 'size': return tuple(s.sh) if not args else s.sh[args[0]]
        if name == '__len__': return s.sh[0]
        if name == 'diag' or name == 'diagonal':
            if len(s.sh) != 2 or args or kw or I.ctx.valid(z(s.sh[0]) == z(s.sh[1])) is not True: raise Unsupported('diagonal')
            from .torchmod import VecT
            b = s.snap(); return VecT(s.sh[0], lambda j: b(j, j))
        if name == 'trace':
            v = s.method(I, 'diag', [], {}); return scal(total(I.ctx, v.n, v.at))
        if name == 'sum' and not args and not kw:
            b = s.snap(); tot = lambda k, ix: b(*ix) if k == len(s.sh) else total(I.ctx, s.sh[k], lambda j: tot(k+1, ix+[j]))
            return scal(tot(0, []))
        raise Unsupported(f'{name} of an array of symbolic shape')
    def binop(s, I, k, a, b):
        f = {'Add': lambda x, y: x+y, 'Sub': lambda x, y: x-y, 'Mult': lambda x, y: x*y, 'Div': lambda x, y: x/y}.get(k)
        if f is None: 
            if k == 'Pow' and isinstance(b, int): return s.map(lambda x: x**b)
            if k == 'MatMult': return matmul(I, a, b)
            raise Unsupported(f'{k} of an array of symbolic shape')
        if isinstance(a, FunT) and isinstance(b, FunT):
            if len(a.sh) != len(b.sh): raise Unsupported('arrays of different shapes')
            sh, ia, ib = [], [], []
            for m, n in zip(a.sh, b.sh):
                if I.ctx.valid(z(m) == z(n)) is True: sh.append(m); ia.append(0); ib.append(0)
                elif isinstance(m, int) and m == 1: sh.append(n); ia.append(1); ib.append(0)
                elif isinstance(n, int) and n == 1: sh.append(m); ia.append(0); ib.append(1)
                else: raise Unsupported('arrays of different shapes')
            x, y = a.snap(), b.snap(); at = lambda g, one: lambda ix: g(*[0 if o else i for i, o in zip(ix, one)])
            x, y = at(x, ia), at(y, ib); return FunT(sh, lambda *ix: f(x(ix), y(ix)))
        def sc(x):
            if isinstance(x, T) and x.is_small() and x.arr.size == 1 and x.ndim() <= len(s.sh): return x.arr.reshape(-1)[0]
            if isinstance(x, (int, float, complex, P)) or z3.is_arith(x): return P.const(I.int2p(x))
            raise Unsupported(f'{k} of an array and {type(x).__name__}')
        if isinstance(a, FunT): c = sc(b); return a.map(lambda x: f(x, c))
        c = sc(a); return b.map(lambda x: f(c, x))
def split_dims(ctx, n, d):
    """the dimensions d (one may be -1) of n elements, all but the first known numbers"""
    r = 1
    for x in d[1:]:
        if not isinstance(x, int) or x < 1: return None
        r *= x
    q = divexact(n, r)
    if q is None and ctx.valid(z(n) % r == 0) is True: q = simp(z(n)/r)
    if q is None: return None
    if not (isinstance(d[0], int) and d[0] == -1) and ctx.valid(z(d[0]) == z(q)) is not True: return None
    return [q]+list(d[1:])
def divexact(n, r):
    """n/r when every coefficient of the linear term n is a multiple of r"""
    if isinstance(n, int): return n//r if n % r == 0 else None
    t = z3.simplify(z(n), som=True); out = []
    for x in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(x): c, y = x.as_long(), None
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)): c = x.arg(0).as_long(); y = x.arg(1) if x.num_args() == 2 else z3.Product(*x.children()[1:])
        else: c, y = 1, x
        if c % r: return None
        out.append((c//r, y))
    return simp(z3.Sum([c*y if y is not None else z3.IntVal(c) for c, y in out])) if out else None
def _size(sh):
    r = 1
    for d in sh: r *= d
    return r
def matmul(I, a, b):
    if not (isinstance(a, FunT) and isinstance(b, FunT) and len(a.sh) == len(b.sh) == 2): raise Unsupported('product of arrays of symbolic shape')
    if I.ctx.valid(z(a.sh[1]) == z(b.sh[0])) is not True: raise Unsupported('product of arrays of different shapes')
    x, y, n = a.snap(), b.snap(), a.sh[1]
    return FunT([a.sh[0], b.sh[1]], lambda i, j: total(I.ctx, n, lambda k: x(i, k)*y(k, j)))
