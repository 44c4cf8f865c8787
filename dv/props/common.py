"""Shared pieces of the property obligations."""
from .c02 import *
from ..interp import PyObj, Dict
from ..torchmod import VecT
from ..prove import Failed
from ..vals import Exc
def veq(e, a, b):
    """equality of two interpreted values: True / False / None"""
    ctx = e.ctx
    if a is b: return True
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, T) and isinstance(b, T):
        if a.is_small() and b.is_small():
            if a.arr.shape != b.arr.shape: return False
            out = True
            for x, y in zip(a.arr.reshape(-1), b.arr.reshape(-1)):
                r = smt_peq(ctx, x, y)
                if r is False: return False
                if r is None: out = None
            return out
        x, y = TT.as_nc(a), TT.as_nc(b)
        return N_.nc_eq(ctx, x, y) if x is not None and y is not None else None
    if type(a).__name__ == type(b).__name__ == 'FunT':
        if len(a.sh) != len(b.sh) or any(ctx.valid(z(x) == z(y)) is not True for x, y in zip(a.sh, b.sh)): return None
        if a.written_ or b.written_ or a.tok.written or b.tok.written or a.rec is not None or b.rec is not None: return None
        ix = [ctx.var('j') for _ in a.sh]
        r = True if a.base is b.base else ctx.forall(lambda: smt_peq(ctx, a.at(*ix), b.at(*ix)), [q for x, n in zip(ix, a.sh) for q in (x >= 0, x < z(n))])
        return True if r is True else None
    if isinstance(a, P) or isinstance(b, P):
        try: return smt_peq(ctx, P.const(e.I.int2p(a)), P.const(e.I.int2p(b)))
        except Exception: return None
    from ..vals import is_int
    if is_int(a) and is_int(b): 
        r = ctx.valid(z(a) == z(b)); return r
    if isinstance(a, (list, tuple, SL)) and isinstance(b, (list, tuple, SL)):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): return False
            rs = [veq(e, x, y) for x, y in zip(a, b)]
            return False if False in rs else None if None in rs else True
        A, Bq = e.I.as_sl(a), e.I.as_sl(b)
        r = ctx.valid(z(A.n) == z(Bq.n))
        if r is not True: return r
        j = ctx.var('j')
        return ctx.forall(lambda: veq(e, A.get(ctx, j), Bq.get(ctx, j)), [j >= 0, j < z(A.n)])
    if isinstance(a, VecT) and isinstance(b, VecT):
        r = ctx.valid(z(a.n) == z(b.n))
        if r is not True: return r
        j = ctx.var('j')
        return ctx.forall(lambda: smt_peq(ctx, a.at(j), b.at(j)), [j >= 0, j < z(a.n)])
    if isinstance(a, VecT) and isinstance(b, T) and b.is_small() and b.arr.ndim == 1:
        r = ctx.valid(z(a.n) == b.arr.shape[0])
        return r if r is not True else veq(e, T(np_obj([a.at(i) for i in range(b.arr.shape[0])])), b)
    if isinstance(b, VecT) and isinstance(a, T): return veq(e, b, a)
    if isinstance(a, Dict) and isinstance(b, Dict):
        if set(a.d) != set(b.d): return False
        rs = [veq(e, a.d[k], b.d[k]) for k in a.d]
        return False if False in rs else None if None in rs else True
    if isinstance(a, PyObj) and isinstance(b, PyObj):
        if a.cls is not b.cls: return False
        return attrs_eq(e, a.attrs, b.attrs)[0]
    return None
def np_obj(l):
    r = oarr((len(l),))
    for i, x in enumerate(l): r[i] = x
    return r
from ..smt import peq as smt_peq
def attrs_eq(e, a, b):
    out, bad = True, ''
    for k in dict.fromkeys(list(a)+list(b)):
        if k not in a or k not in b: 
            if out is True: out, bad = None, k
            continue
        r = veq(e, a[k], b[k])
        if r is False: return False, k
        if r is None and out is True: out, bad = None, k
    return out, bad
def snap(e, o):
    """copy of an object's attributes (values themselves are immutable in the interpreter except through the calls under test)"""
    from ..loops import clone_graph
    return clone_graph(o, {})
def unchanged_obj(e, name, before, o):
    r, k = attrs_eq(e, before.attrs, o.attrs)
    # a private cache may appear; a changed public attribute is a change of the object
    if r is False and k.startswith('_'): r = None
    e.check(name, r, f'attribute {k}')
PUBLIC = ('label', 'num_params', 'num_wires', 'nqubits', 'wires', 'params', 'supportTN')
def same_public(e, name, o, f, keys=PUBLIC):
    for k in keys:
        if k in f.attrs: e.check(f'{name}: {k}', veq(e, o.attrs.get(k), f.attrs[k]) if k in o.attrs else False, f'{o.attrs.get(k)} instead of {f.attrs[k]}')
def info_same(e, name, o, f):
    a, b = e.meth(o, 'info'), e.meth(f, 'info')
    if not isinstance(a, Dict) or not isinstance(b, Dict): e.check(name, None); return
    e.check(name, veq(e, a, b), f'{a.d} instead of {b.d}')
def tmpl(form): return {'scalar': 'tensor', 'vec': 'tensor', 'list': 'float', 'float': 'float', '-': 'tensor'}[form]
def dag_sp(m): return {(c, r): v.conj() for (r, c), v in m.items()}
def uptensor(e, g, ps):
    """the tensor form a parameter update is given"""
    n = S.GATES[g][0]
    return None if n == 0 else TT.scal(ps[0]) if n == 1 else TT.small(ps)

from ..mps import MPSV
def mps(e, N, name='psi'): return MPSV(N, column(e, N, name), e.I)
def mps_result(e, r, m, N, want, tag='TN_operation'):
    """r is a chain of the same length representing `want`"""
    if not isinstance(r, MPSV): e.check(tag+' returns a matrix product state', None, f'{type(r).__name__}'); return
    r.commit(e.I)
    e.check(tag+': length', e.ctx.valid(z(r.N) == N), f'{r.N}')
    e.eq(tag+': state', r.content, want)
    c = e.ctx.__dict__.get('cuts')
    e.check(tag+': only numerically zero Schmidt components are discarded', not c, f'{c}')
def check_mps(e, o, N, want, tag='matrix-product application', name='psi'):
    m = mps(e, N, name); c0 = m.content
    mps_result(e, e.meth(o, 'TN_operation', m), m, N, want(c0), tag)
