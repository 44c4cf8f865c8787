"""axis orders of rank-N tensors (N symbolic): inverse permutations, movedim, tensordot, einsum with an ellipsis, and lists
obtained by leaving entries out of a list of distinct integers."""
import ast, re, z3
from .vals import *
from .vals import simp, SL, is_int, z
from . import tensor as TT
from .tensor import T, StateT
def ints(ctx, l):
    from .interp import _intlist
    return bool(_intlist(ctx, l))
def as_sl(I, l):
    if isinstance(l, SL): return l
    return SL(len(l), (lambda v: lambda j: TT._sel(v, j))(list(l)))
def term(ctx, l):
    """entry of a list of integers as a term in its position (0 <= position < n), one path; None when it has no such form"""
    from .smt import consts
    k = ctx.fresh; a = ctx.var('ta'); outs = []
    def go():
        base = len(ctx.pc); v = l.get(ctx, a)
        return v, [c for i, c in enumerate(ctx.pc) if i >= base and i not in ctx.implied]
    try:
        for r in ctx.explore(go, [a >= 0, a < z(l.n)]): outs.append(r)
    except (Exc, Unsupported): return None
    if not outs or len(outs) > 12 or not all(is_int(v) for v, _ in outs): return None
    known = {str(x) for x in ctx.pc_consts()} | {str(a)} | {str(x) for x in consts((z(l.n),))}
    for v, pc in outs:
        for x in consts([z(v)]+list(pc)):
            m = re.search(r'!(\d+)$', str(x))
            if str(x) not in known and m and int(m.group(1)) > k: return None
        if any(z3.is_quantifier(c) for c in pc): return None
    t = z(outs[-1][0])
    for v, pc in reversed(outs[:-1]): t = z3.If(z3.And(*pc) if pc else z3.BoolVal(True), z(v), t)
    return lambda j: z3.simplify(z3.substitute(t, (a, z(j))))
def distinct(ctx, l, t=None):
    a, b = ctx.var('da'), ctx.var('db'); t = t or term(ctx, l)
    return t is not None and ctx.valid(z3.Implies(z3.And(a >= 0, a < b, b < z(l.n)), t(a) != t(b))) is True
def is_perm(ctx, l, t=None):
    if not ints(ctx, l): return False
    t = t or term(ctx, l)
    if t is None: return False
    a = ctx.var('da'); v = t(a)
    return ctx.valid(z3.Implies(z3.And(a >= 0, a < z(l.n)), z3.And(v >= 0, v < z(l.n)))) is True and distinct(ctx, l, t)
def inverse(ctx, l):
    """the list inv with l[inv[p]] = p, for a list that is provably a permutation of 0..n-1; else None"""
    g = getattr(l, '_isint', None); l = l.copy(); l._isint = g; t0 = term(ctx, l)
    if t0 is None or not is_perm(ctx, l, t0): return None
    nm = f'inv#{ctx.fresh}'; ctx.fresh += 1; f = z3.Function(nm, z3.IntSort(), z3.IntSort()); n = z(l.n)
    ctx.inst[nm] = (lambda t, a: z3.Implies(z3.And(t >= 0, t < n), z3.And(a >= 0, a < n, t0(a) == t)), None)
    r = SL(l.n, lambda p: f(z(p))); r._isint = True; return r
def index_in_perm(ctx, l, v):
    """position of v in a permutation of 0..n-1, v proved in range; None when that is not so"""
    if ctx.valid(z3.And(z(v) >= 0, z(v) < z(l.n))) is not True: return None
    r = inverse(ctx, l)
    return None if r is None else r.get(ctx, v)
def sorted_by(ctx, l, key):
    """sorted(l, key=..) when the keys are a permutation of 0..n-1"""
    r = inverse(ctx, key)
    if r is None: raise Unsupported('sorted with key')
    l = l.copy(); o = SL(l.n, lambda p: l.get(ctx, r.get(ctx, p))); o._isint = True; return o
def without(I, l, vals):
    """the entries of l (distinct integers) other than those in vals, in order"""
    from .torchmod import sl_method
    ctx = I.ctx
    g = getattr(l, '_isint', None); l = l.copy(kind='list'); l._isint = g
    if not ints(ctx, l) or not distinct(ctx, l): raise Unsupported('leaving entries out of this list')
    done = []
    for v in vals:
        if not is_int(v): raise Unsupported('leaving out something that is not an integer')
        if any((v is u) or ctx.decide(z(v) == z(u)) for u in done): continue
        done.append(v)
        try: sl_method(I, l, 'remove', [v], {})
        except Exc as x:
            if x.typ != 'ValueError': raise
    return l
def names(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
def conjuncts(c, neg=False):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not): return conjuncts(c.operand, not neg)
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.Or if neg else ast.And):
        out = []
        for v in c.values:
            x = conjuncts(v, neg)
            if x is None: return None
            out += x
        return out
    if isinstance(c, ast.Compare):
        l = c.left; out = []
        for op, r in zip(c.ops, c.comparators): out.append((op, l, r)); l = r
        if not neg: return out
        if len(out) == 1:
            op, a, b = out[0]
            m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}.get(type(op))
            return m and [(m(), a, b)]
    return None
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq, ast.Eq: ast.Eq}
def filtered(I, conds, target, it, env):
    """the sub-list of `it` (integers, symbolic length) selected by conditions of the form target != a, target not in (a, b),
    target < a ..; None when the conditions have another form"""
    ctx = I.ctx
    if not isinstance(target, ast.Name): return None
    todo = []
    for c in conds:
        x = conjuncts(c)
        if x is None: return None
        todo += x
    l = as_sl(I, it) if isinstance(it, (SL, list, tuple)) else None
    if l is None: return None
    l = l.copy(kind='list'); out, bounds = [], []
    for op, a, b in todo:
        if target.id not in names(a) and isinstance(b, ast.Name) and b.id == target.id and type(op) in FLIP: op, a, b = FLIP[type(op)](), b, a
        if not (isinstance(a, ast.Name) and a.id == target.id) or target.id in names(b): return None
        v = I.ev(b, env)
        if isinstance(op, ast.NotEq): out.append(v)
        elif isinstance(op, ast.NotIn):
            try: out += list(I.concrete(v))
            except Unsupported: return None
        elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)): bounds.append((op, v))
        else: return None
    for op, v in bounds:
        # an ascending run of consecutive integers only
        if not is_int(v) or not ints(ctx, l): return None
        q = ctx.var('fq'); lo = l.get(ctx, 0)
        if ctx.valid(z3.Implies(z3.And(q >= 0, q < z(l.n)), z(l.get(ctx, q)) == z(lo)+q)) is not True: return None
        n = z(l.n)
        if isinstance(op, (ast.Lt, ast.LtE)):
            m = simp(z(v)-z(lo)+(1 if isinstance(op, ast.LtE) else 0))
            if ctx.decide(z(m) <= 0): l = SL(0, lambda j: z3.IntVal(0))
            elif ctx.decide(z(m) < n): l = SL(m, l.copy().base if False else (lambda b: lambda j: simp(z(b)+z(j)))(lo))
        else:
            d = simp(z(v)-z(lo)+(1 if isinstance(op, ast.Gt) else 0))
            if ctx.decide(z(d) >= n): l = SL(0, lambda j: z3.IntVal(0))
            elif ctx.decide(z(d) > 0): l = SL(simp(n-z(d)), (lambda b: lambda j: simp(b+z(j)))(z(lo)+z(d)))
        l._isint = True
    if out: l = without(I, l, out)
    return l
# ------------------------------------------------------------------ rank-N tensors
def norm(I, t, x): return TT.neg_idx(I.ctx, x, t.rank())
def axes(I, v): return list(I.concrete(v)) if isinstance(v, (list, tuple, SL)) else [v]
def by_value(ctx, ps):
    """pairs sorted by (symbolic) first component"""
    import ast as _
    out = []
    for p in ps:
        i = 0
        while i < len(out) and not ctx.decide(z(p[0]) < z(out[i][0])): i += 1
        out.insert(i, p)
    return out
def movedim(I, t, src, dst):
    from .torchmod import sl_method
    ctx = I.ctx
    src, dst = axes(I, src), axes(I, dst)
    if len(src) != len(dst): raise Exc('RuntimeError', 'movedim: numbers of axes differ')
    if isinstance(t, T):
        n = t.ndim(); s, d = [TT.axis_no(x, n) for x in src], [TT.axis_no(x, n) for x in dst]
        if len(set(s)) < len(s) or len(set(d)) < len(d): raise Exc('RuntimeError', 'movedim: repeated axis')
        order = [i for i in range(n) if i not in s]
        for a, b in sorted(zip(d, s)): order.insert(a, b)
        return TT.permute(ctx, t, order)
    if t.ones or t.merged or t.flat: raise Unsupported('movedim of a partly merged state tensor')
    s, d = [norm(I, t, x) for x in src], [norm(I, t, x) for x in dst]
    for l in (s, d):
        for i in range(len(l)):
            for j in range(i):
                if ctx.decide(z(l[i]) == z(l[j])): raise Exc('RuntimeError', 'movedim: repeated axis')
    order = SL(t.n, lambda j: j); order._isint = True
    for x in s: sl_method(I, order, 'remove', [x], {})
    for a, b in by_value(ctx, list(zip(d, s))): sl_method(I, order, 'insert', [a, b], {})
    return t.permute(ctx, order)
def small_op(M, free, con):
    """entries of a small tensor as a matrix (axes free) x (axes con), all axes of length 2 or single square ones"""
    import numpy as np
    a = M.arr.transpose(free+con); r = 1
    for k in free: r *= M.arr.shape[k]
    return T(a.reshape(r, -1), TT.arr_axes(a.reshape(r, -1))) if False else TT.small(a.reshape(r, -1))
def tensordot(I, A, Bt, dims):
    ctx = I.ctx
    if is_int(dims) and not isinstance(dims, int): raise Unsupported('tensordot over a symbolic number of axes')
    ra = A.rank() if isinstance(A, StateT) else A.ndim(); rb = Bt.rank() if isinstance(Bt, StateT) else Bt.ndim()
    if isinstance(dims, int): da, db = [simp(z(ra)-dims+i) for i in range(dims)], list(range(dims))
    else: da, db = [axes(I, x) for x in I.concrete(dims)]
    if len(da) != len(db): raise Exc('RuntimeError', 'tensordot: numbers of axes differ')
    if isinstance(A, T) and isinstance(Bt, T):
        da, db = [TT.axis_no(x, ra) for x in da], [TT.axis_no(x, rb) for x in db]
        la, lb = [f'a{i}' for i in range(ra)], [f'b{i}' for i in range(rb)]
        for i, (x, y) in enumerate(zip(da, db)): la[x] = lb[y] = f'k{i}'
        out = [l for i, l in enumerate(la) if i not in da] + [l for i, l in enumerate(lb) if i not in db]
        return TT.contract(ctx, A, la, Bt, lb, out)
    if isinstance(A, StateT) and isinstance(Bt, StateT): raise Unsupported('tensordot of two rank-N tensors')
    M, S, dm, ds, left = (A, Bt, da, db, True) if isinstance(A, T) else (Bt, A, db, da, False)
    if not M.is_small() or S.ones or S.merged or S.flat: raise Unsupported('tensordot with this operand')
    nm = M.arr.ndim; dm = [TT.axis_no(x, nm) for x in dm]; free = [i for i in range(nm) if i not in dm]
    if any(M.arr.shape[i] != 2 for i in range(nm)): raise Unsupported('tensordot with axes of length other than 2')
    if len(free) != len(dm): raise Unsupported('tensordot changing the number of axes')
    ds = [norm(I, S, x) for x in ds]; labs = [simp(S.label(x)) for x in ds]
    S2 = S.apply(ctx, small_op(M, free, dm), labs)
    from .torchmod import sl_method
    order = SL(S.n, lambda j: j); order._isint = True
    for x in ds: sl_method(I, order, 'remove', [x], {})
    for k, x in enumerate(ds):
        if left: sl_method(I, order, 'insert', [k, x], {})
        else: sl_method(I, order, 'append', [x], {})
    return S2.permute(ctx, order)
def einsum(I, spec, ops):
    """einsum of a small tensor and a rank-N tensor: 'ab,...b->...a' and the like"""
    ctx = I.ctx; spec = spec.replace(' ', '')
    if '->' not in spec: raise Unsupported('einsum without output')
    ins, out = spec.split('->'); ins = ins.split(',')
    if len(ins) != 2 or len(ops) != 2: raise Unsupported('einsum on rank-N tensors')
    k = 0 if isinstance(ops[1], StateT) else 1
    M, S, ml, sl = ops[k], ops[1-k], ins[k], ins[1-k]
    if not isinstance(M, T) or not M.is_small() or '.' in ml or not sl.startswith('...') or not out.startswith('...') or S.ones or S.merged or S.flat: raise Unsupported('einsum on rank-N tensors')
    sl, out = sl[3:], out[3:]
    if '.' in sl+out or len(set(sl)) < len(sl) or len(set(ml)) < len(ml) or len(out) != len(sl): raise Unsupported('einsum on rank-N tensors')
    con = [c for c in ml if c in sl]; free = [c for c in ml if c not in sl]
    if any(c in out for c in con) or len(free) != len(con) or any(d != 2 for d in M.arr.shape): raise Unsupported('einsum on rank-N tensors')
    m = len(sl); pos = {c: simp(z(S.n)-m+i) for i, c in enumerate(sl)}
    S2 = S.apply(ctx, small_op(M, [ml.index(c) for c in free], [ml.index(c) for c in con]), [simp(S.label(pos[c])) for c in con])
    at = dict(pos); at.update({f: pos[c] for f, c in zip(free, con)})
    if sorted(out) != sorted([c for c in sl if c not in con]+free): raise Unsupported('einsum on rank-N tensors')
    def order(j):
        r = z(j)
        for i, c in enumerate(out): r = z3.If(z(j) == z(S.n)-m+i, z(at[c]), r)
        return r
    return S2.permute(ctx, SL(S.n, order))
