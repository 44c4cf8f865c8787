"""Values of the interpreted programs that are not tensors."""
import z3
from fractions import Fraction as Fr
from .scalar import P, Unsupported
from .smt import same
def is_int(x): return (isinstance(x, int) and not isinstance(x, bool)) or z3.is_arith(x) and x.is_int()
def is_z(x): return z3.is_expr(x)
def simp(x): return _c(z3.simplify(x)) if z3.is_expr(x) else x
def _c(x):
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
class Dim:
    """dimension  k * 2^e * prod(opaque bond dimensions)   (k int >= 0, e int or z3 int term)"""
    __slots__ = ('k', 'e', 'b')
    def __init__(s, k=1, e=0, b=()):
        e = simp(e)
        while k > 0 and k % 2 == 0: k //= 2; e = simp(e+1)
        s.k, s.e, s.b = k, e, tuple(sorted(b))
    @staticmethod
    def of(x):
        if isinstance(x, Dim): return x
        if isinstance(x, int): return Dim(x)
        raise Unsupported(f'dimension {x}')
    @staticmethod
    def pow2(e): return Dim(1, e)
    def __mul__(s, o): o = Dim.of(o); return Dim(s.k*o.k, s.e+o.e, s.b+o.b)
    __rmul__ = __mul__
    def const(s): return 0 if s.k == 0 else s.k * 2**s.e if not s.b and isinstance(s.e, int) and s.e >= 0 else None
    def div(s, o):
        o = Dim.of(o); b = list(s.b)
        for x in o.b:
            if x not in b: raise Unsupported(f'{s} / {o}')
            b.remove(x)
        if s.k % o.k: raise Unsupported(f'{s} / {o}')
        return Dim(s.k//o.k, s.e-o.e, b)
    def norm(s):
        c = s.const(); return c if c is not None else s
    def __repr__(s):
        return '*'.join(([str(s.k)] if s.k != 1 else []) + ([f'2^({s.e})'] if not (isinstance(s.e, int) and s.e == 0) else []) + list(s.b)) or '1'
def dim_eq(ctx, a, b):
    """True/False/None"""
    if a is None or b is None: return None
    a, b = Dim.of(a), Dim.of(b)
    if a.k == b.k and a.b == b.b:
        e = a.e == b.e
        if isinstance(e, bool): return e
        r = ctx.valid(e)
        if r is True: return True
        if ctx.valid(z3.Not(e)) is True: return False
        return None
    if not a.b and not b.b: return False if a.k != b.k else None
    return None
def dim_cond(a, b):
    """z3/bool condition for a == b"""
    a, b = Dim.of(a), Dim.of(b)
    if a.k == b.k and a.b == b.b: return a.e == b.e
    if not a.b and not b.b and a.k != b.k: return False
    raise Unsupported(f'comparing dimensions {a} and {b}')
def _factors(t):
    """integer monomial as (coefficient, factors)"""
    if z3.is_int_value(t): return t.as_long(), []
    if z3.is_mul(t):
        c, fs = 1, []
        for x in t.children():
            d, g = _factors(x); c *= d; fs += g
        return c, fs
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS: c, f = _factors(t.arg(0)); return -c, f
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)): return 1, [t.arg(0)]*t.arg(1).as_long()
    return 1, [t]
def split_const(a, b):
    """a = b*q + r: the terms of a whose coefficients are multiples of the number b go to q"""
    if isinstance(a, int): return a//b, a % b
    t = z3.simplify(z(a), som=True); q, r = [], []
    for x in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(x): c = x.as_long(); q.append(z3.IntVal(c//b)); r.append(z3.IntVal(c % b)); continue
        c = x.arg(0).as_long() if z3.is_mul(x) and z3.is_int_value(x.arg(0)) else 1
        if c != 1 and c % b == 0: q.append(z3.IntVal(c//b)*(z3.Product(*x.children()[1:]) if x.num_args() > 2 else x.arg(1)))
        else: r.append(x)
    return simp(z3.Sum(q+[z3.IntVal(0)])), simp(z3.Sum(r+[z3.IntVal(0)]))
def split_mult(a, b):
    """a = b*q + r, collecting the monomials of a that contain b"""
    if not is_z(a) or not is_z(b): return 0, a
    a = z3.simplify(a, som=True); cb, fb = _factors(z3.simplify(b)); q, r = [], []
    if cb != 1 or not fb: return 0, a
    for m in (a.children() if z3.is_add(a) else [a]):
        c, fs = _factors(m); rest = list(fs); ok = True
        for x in fb:
            h = next((i for i, y in enumerate(rest) if y.eq(x)), None)
            if h is None: ok = False; break
            rest.pop(h)
        if not ok: r.append(m); continue
        t = z3.IntVal(c)
        for x in rest: t = t*x
        q.append(t)
    return simp(z3.Sum(q)) if q else 0, simp(z3.Sum(r)) if r else 0
def fdiv(a, b):
    """floor(a / b), b > 0, in the form the interpreter gives it"""
    q, r = split_mult(a, b); return simp(z(q) + z(r)/z(b)) if is_z(r) or r else q
def fmod(a, b):
    q, r = split_mult(a, b); return simp(z(r) % z(b)) if is_z(r) or r else 0
def _lin(t, q):
    """t as (a, b) with t = a*q + b, a in {1, -1}, or None"""
    if not is_z(t) or not t.sort() == z3.IntSort(): return None
    for a in (1, -1):
        b = simp(t - a*q)
        if not is_z(b): return a, b
        if q.get_id() not in _ids(b): return a, b
    return None
def _ids(t):
    out = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in out: continue
        out.add(x.get_id()); st += x.children()
    return out
def solve_idx(ctx, st, j):
    """the last k with idx(k) == j when it can be read off the terms and proved, else None"""
    q = ctx.var('q')
    try: t = st.idx(q)
    except Exception: return None
    u = z3.IntVal(j) if isinstance(j, int) else j
    if not is_z(t): return None
    t = z3.simplify(t); u = z3.simplify(u)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and z3.is_app(u) and u.decl().eq(t.decl()): t, u = t.arg(0), u.arg(0)
    l = _lin(t, q)
    if l is None: return None
    k0 = simp((u-l[1])*l[0])
    k0z = z3.IntVal(k0) if isinstance(k0, int) else k0
    n = z3.IntVal(st.n) if isinstance(st.n, int) else st.n
    if ctx.valid(z3.And(k0z >= 0, k0z < n, st.idx(k0z) == j)) is not True: return None
    r = ctx.var('q')
    if ctx.valid(z3.Implies(z3.And(r > k0z, r < n), st.idx(r) != j)) is not True: return None
    return k0z
def solve_mod(ctx, st, j):
    """idx(k) = a*k + b with a constant |a| > 1: the only candidate k, False when j is not hit, None when not of this form"""
    q = ctx.var('q')
    try: t = st.idx(q)
    except Exception: return None
    if not is_z(t) or t.sort() != z3.IntSort(): return None
    a = simp(z3.substitute(t, (q, q+1)) - t)
    if not isinstance(a, int) or abs(a) < 2: return None
    b = simp(z3.substitute(t, (q, z3.IntVal(0))))
    if simp(t - a*q - z(b)) != 0: return None
    d = simp(z(j)-z(b)); n = z(st.n)
    if a < 0: return None
    if not ctx.decide(z(d) % a == 0): return False
    k0 = simp(z(d)/a)
    for c in _quot(ctx, d, a):
        if ctx.valid(z(c)*a == z(d)) is True: k0 = c; break
    return k0 if ctx.decide(z3.And(z(k0) >= 0, z(k0) < n)) else False
def _quot(ctx, d, a):
    """candidates for d/a when d is a*x for a visible x"""
    if isinstance(d, int): yield d//a; return
    for v in [x for x in _consts(d)]: 
        c = simp(z3.substitute(z(d), (v, v+1)) - d)
        if isinstance(c, int) and c % a == 0:
            r = simp(z(d) - c*v)
            if isinstance(r, int): 
                if r % a == 0: yield simp((c//a)*v + r//a)
            elif not any(x.eq(v) for x in _consts(r)):
                for y in _quot(ctx, r, a): yield simp((c//a)*v + y)
        return
def _consts(t):
    st = [t]; out = []
    while st:
        x = st.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st += x.children()
    return out
def solve_perm(ctx, l, st, j):
    """the k with idx(k) == j when the stores hit every position of the list exactly once"""
    if ctx.valid(z(st.n) == z(l.n)) is not True: return None
    if not hasattr(st, 'inv'):
        from .perm import inverse
        st.inv = inverse(ctx, SL(st.n, st.idx))
    return None if st.inv is None else st.inv.get(ctx, j)
class Pt:
    def __init__(s, idx, val): s.idx, s.val = idx, val
class Fam:
    """updates at positions idx(k) with val(k), k = 0..n-1 in this order"""
    def __init__(s, n, idx, val): s.n, s.idx, s.val = n, idx, val
class SL:
    """a Python list of symbolic length n (or a tuple / range when kind says so).
    element j: the last store that hits j, else base(j)."""
    def __init__(s, n, base=None, const=None, stores=(), kind='list'):
        s.n = simp(n); s.base = base; s.base_const = const; s.stores = list(stores); s.kind = kind
    def copy(s, kind=None): return SL(s.n, s.base, s.base_const, s.stores, kind or s.kind)
    def raw(s, ctx, j): return s.base_const if s.base is None else s.base(j)
    def get(s, ctx, j):
        """element at j, 0 <= j < n assumed"""
        out = None; conds = []
        for st in reversed(s.stores):
            if isinstance(st, Pt):
                c = st.idx == j
                if isinstance(c, bool):
                    if c: out = st.val; break
                    continue
                if is_int(st.val): conds.append((c, st.val)); continue
                if conds: raise Unsupported('mixed list')
                if ctx.decide(c): out = st.val; break
            else:
                if conds: raise Unsupported('mixed list')
                k0 = solve_idx(ctx, st, j)
                if k0 is not None: out = st.val(k0); break
                k0 = solve_mod(ctx, st, j)
                if k0 is False: continue
                if k0 is not None: out = st.val(k0); break
                k0 = solve_perm(ctx, s, st, j)
                if k0 is not None: out = st.val(k0); break
                k = ctx.var('k'); q = ctx.var('q')
                hit = z3.Exists([q], z3.And(q >= 0, q < st.n, st.idx(q) == j))
                if ctx.decide(hit):
                    ctx.assume(z3.And(k >= 0, k < st.n, st.idx(k) == j))
                    ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q > k, q < st.n), st.idx(q) != j)))
                    out = st.val(k); break
        if out is None: out = s.raw(ctx, j)
        for c, v in reversed(conds): out = z3.If(c, z(v), z(out))
        return simp(out) if z3.is_expr(out) else out
    def __repr__(s): return f'SL(n={s.n},{len(s.stores)} stores)'
def z(x): return z3.IntVal(x) if isinstance(x, int) else x
class SetV(tuple):
    """a set of known size, in insertion order"""
class PyObj:
    """instance of an interpreted class"""
    def __init__(s, cls): s.cls, s.attrs = cls, {}
    def __repr__(s): return f'<{s.cls.name}>'
class Exc(Exception):
    """a Python exception raised by the interpreted program"""
    def __init__(s, typ, msg=''): s.typ, s.msg = typ, msg; Exception.__init__(s, f'{typ}: {msg}')
