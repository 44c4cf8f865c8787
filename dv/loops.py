"""Loops of symbolic length. A loop is replaced by its inductive summary:

 1. the body is executed once, at a generic iteration k (0 <= k < n arbitrary), on a clone of the environment, to find
    which slots it changes;
 2. each changed slot is replaced by an opaque accumulator (nothing is known about it: the generic inductive state) and
    the body is executed again on every path; the new value must be an instance of a closed induction scheme:
        acc -> L(k).acc.R(k)        ordered product                  (Prod factors)
        acc -> kron(acc, m(k))      Kronecker fold                   (Kron factor)
        acc -> acc + c              linear counter
        list: one append of v(k)    element map
        list: stores at i(k) := v(k), not reading the list           (family of updates)
        independent of acc          value of the last iteration
    anything else is Unsupported;
 3. iterations that raise, return or break are found as a condition E(k); the loop forks on  exists k. E(k)  (executing
    the first such iteration for real) against  forall k. not E(k).
The values L(k), v(k) ... are obtained by re-executing the real body at the requested index."""
import ast, z3, itertools
from .scalar import P, Unsupported
from .vals import *
from .vals import z
from . import tensor as TT, nc as N_
from .tensor import T, StateT, B, Tok, oarr, dense
from .nc import NC, Op, Prod, Kron, Loc
from .smt import Abort, Budget, same

class AccRead(Unsupported): pass
class AccSL(SL):
    """list accumulator: contents unknown, records appends and stores"""
    def __init__(s, n, elem=None):
        def rd(j): raise AccRead('the loop reads a list it is building')
        SL.__init__(s, n, elem or rd); s.appended = []; s.n0 = n
    def copy(s, kind=None): raise AccRead('the loop copies a list it is building')
class Block:
    """what an inner loop appended in one iteration of the outer one"""
    def __init__(s, l): s.l = l
class LoopTemp:
    """value a variable has after the loop: that of the last iteration, computed on demand"""
    def __init__(s, ctx, f): s.f = f; s.ctx = ctx; s.fr = ctx.frames[-1]; s.v = None; s.done = False
    def force(s):
        if s.done: return s.v
        v = s.f()
        if s.ctx.frames[-1] is s.fr: s.v = v; s.done = True       # not what holds under the extra assumptions of a nested exploration
        return v
def clone_graph(root, memo):
    from .interp import Env, PyObj, Dict, Opaque
    def c(v):
        if id(v) in memo: return memo[id(v)][1]
        if isinstance(v, Env):
            n = Env(v.mod, v.parent, v.fn); memo[id(v)] = (v, n)
            for k, x in v.v.items(): n.v[k] = c(x)
            return n
        if isinstance(v, AccSL):
            n = AccSL(v.n, v.base); n.n0 = v.n0; n.appended = list(v.appended); n.stores = list(v.stores); memo[id(v)] = (v, n); n._isint = getattr(v, '_isint', None); return n
        if isinstance(v, SL):
            n = SL(v.n, v.base, v.base_const, v.stores, v.kind); memo[id(v)] = (v, n)
            if hasattr(v, 'rng'): n.rng = v.rng
            return n
        if isinstance(v, list):
            n = []; memo[id(v)] = (v, n); n.extend(c(x) for x in v); return n
        if isinstance(v, tuple):
            n = tuple(c(x) for x in v)
            return v if all(x is y for x, y in zip(n, v)) else n
        if isinstance(v, Dict):
            n = Dict(); memo[id(v)] = (v, n); n.d = {k: c(x) for k, x in v.d.items()}; return n
        if isinstance(v, PyObj):
            n = PyObj(v.cls); memo[id(v)] = (v, n)
            for k, x in v.attrs.items(): n.attrs[k] = c(x)
            return n
        if isinstance(v, Tok):
            n = Tok(v.name); n.ver, n.written = v.ver, v.written; memo[id(v)] = (v, n); return n
        if isinstance(v, T):
            n = T(v.arr, v.axes, c(v.tok)); n.ver = v.ver; memo[id(v)] = (v, n); return n
        if type(v).__name__ == 'RowV':
            n = type(v)(v.n, v.base, c(v.arr), v.ix); n.ver = v.ver; memo[id(v)] = (v, n); return n
        if type(v).__name__ == 'VecT':
            n = type(v)(v.n, v.base, c(v.tok)); n.ver = v.ver; memo[id(v)] = (v, n); return n
        if type(v).__name__ == 'FunT':
            n = type(v)(v.sh, v.base, c(v.tok)); n.ver = v.ver; memo[id(v)] = (v, n); return n
        if isinstance(v, Opaque) and hasattr(v, 'clone_'):
            n = v.clone_(); memo[id(v)] = (v, n); return n
        return v
    return c(root)
def unchanged(a, b):
    """is clone b still a faithful copy of a (one level)?"""
    if a is b: return True
    if isinstance(a, SL) and isinstance(b, SL):
        return same((a.n,), (b.n,)) and a.base is b.base and a.base_const is b.base_const and len(a.stores) == len(b.stores) and all(x is y for x, y in zip(a.stores, b.stores))
    return False
class Body:
    def __init__(s, I, body, target, env, n, get, off=0):
        s.I, s.body, s.target, s.env, s.n, s.get = I, body, target, env, n, get
    def run(s, env, k):
        """one iteration; returns None or 'brk'; Exc / Ret propagate"""
        from .interp import Brk, Cnt
        s.I.assign(s.target, s.get(k), env)
        try: s.I.block(s.body, env)
        except Cnt: pass
        except Brk: return 'brk'
def diff(memo, root_env):
    """slots changed by a run on the clone: list of (kind, orig object, key, clone value)"""
    from .interp import Env, PyObj, Dict, Opaque
    out = []
    def img(v):
        m = memo.get(id(v))
        return m[1] if m else v
    def samev(old, new):
        i = img(old)
        if i is new: return True
        if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new): return all(samev(x, y) for x, y in zip(old, new))
        if z3.is_expr(old) and z3.is_expr(new): return old.eq(new)
        if isinstance(old, (int, float, str)) and type(old) is type(new): return old == new
        if isinstance(old, P) and isinstance(new, P): return old == new and old.det == new.det
        return False
    for o, c in list(memo.values()):
        if isinstance(o, Env):
            for k, v in c.v.items():
                if k not in o.v: out.append(('newvar', o, k, v))
                elif not samev(o.v[k], v): out.append(('var', o, k, v))
        elif isinstance(o, PyObj):
            for k, v in c.attrs.items():
                if k not in o.attrs or not samev(o.attrs[k], v): out.append(('attr', o, k, v))
        elif isinstance(o, Dict):
            if set(o.d) != set(c.d) or any(not samev(o.d[k], c.d[k]) for k in o.d): out.append(('dict', o, None, c))
        elif isinstance(o, SL):
            if not unchanged(o, c) or (isinstance(c, AccSL) and len(c.appended) != len(o.appended)): out.append(('sl', o, None, c))
        elif isinstance(o, list) and isinstance(c, AccSL):
            if c.appended or c.stores: out.append(('list', o, None, c))
        elif isinstance(o, list):
            if len(o) != len(c) or any(not samev(x, y) for x, y in zip(o, c)): out.append(('list', o, None, c))
        elif isinstance(o, T):
            if c.arr is not o.arr: out.append(('T', o, None, c))
        elif isinstance(o, Tok):
            if c.ver != o.ver: out.insert(0, ('tok', o, None, c))
        elif type(o).__name__ in ('VecT', 'FunT'):
            if c.base is not o.base and (c.rec is None or c.rec.writes): out.append(('vec', o, None, c))
        elif isinstance(o, Opaque) and hasattr(o, 'changed_'):
            if o.changed_(c): out.append(('opq', o, None, c))
    return out
def iter_of(I, it):
    from .interp import Lazy
    from .torchmod import VecT, DimRange
    if isinstance(it, Lazy): it = it.value(I)
    if isinstance(it, SL):
        c = it.copy(); return c.n, (lambda k: c.get(I.ctx, k))
    if isinstance(it, DimRange):
        from .torchmod import dim_int
        return dim_int(I.ctx, it.d), (lambda k: k)
    if type(it).__name__ == 'FunT': return it.sh[0], (lambda k: it.getitem(I, k))
    if isinstance(it, T) and not it.is_small() and it.ndim() == 2:
        from .torchmod import dim_int
        d = it.shape()[0]; return (d if is_int(d) else dim_int(I.ctx, d)), (lambda k: I.getitem(it, k))
    if isinstance(it, VecT): return it.n, (lambda k: T(TT.oscal(it.at(k))))
    from .interp import Opaque
    if isinstance(it, Opaque): return it.method(I, '__iter__', [], {})
    if isinstance(it, range): it = list(it)
    if isinstance(it, (list, tuple)): return len(it), (lambda k: I.getitem(it, k))
    raise Unsupported(f'loop over {type(it).__name__}')
def pcdelta(ctx, base): return list(ctx.pc[base:])
def bad_cond(c, k):
    """does a formula hide a dependence on k inside a name?"""
    s = str(k)
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and s in x.decl().name() and not x.eq(k): return True
        st += x.children()
    return False
def for_loop(I, node, it, env, peel=(1, 2)):
    if node.orelse: raise Unsupported('loop else')
    n, get = iter_of(I, it)
    summary(I, Body(I, node.body, node.target, env, n, get), env, peel)
def summary(I, bd, env, peel=(1, 2)):
    ctx = I.ctx; n = bd.n
    if isinstance(n, int) and n <= 0 or not isinstance(n, int) and ctx.valid(z(n) <= 0) is True: return
    if n == 1 if isinstance(n, int) else ctx.valid(n == 1) is True: bd.run(env, 0); return
    memo = {}; clone_graph(env, memo)
    for v, _ in list(memo.values()):
        if hasattr(v, 'commit'): v.commit(I)
    try: return summary1(I, bd, env)
    except (AccRead, ShapeMismatch, Unsupported) as e:
        first = e
    g = growing(bd, env)
    if g:
        try: return summary1(I, bd, env, g)
        except (AccRead, ShapeMismatch, Unsupported) as e: pass
    c = period(bd)
    if c and not isinstance(first, Budget):
        h = divided(ctx, n, c)
        if h is not None:
            try: return summary1(I, Unrolled(I, bd, env, h, c), env)
            except (AccRead, ShapeMismatch, Unsupported) as e: pass
    # peel one iteration off an end, provided the loop runs at all
    if peel == (0, 0) or isinstance(first, Budget): raise first
    if not ctx.decide(z(n) > 0): return
    if peel[0]:
        b2 = Body(I, bd.body, bd.target, env, simp(z(n)-1), lambda k: bd.get(simp(z(k)+1)))
        if bd.run(env, 0) == 'brk': return
        return summary(I, b2, env, (0, peel[1]))
    b2 = Body(I, bd.body, bd.target, env, simp(z(n)-1), bd.get)
    summary(I, b2, env, (0, peel[1]-1))
    bd.run(env, simp(z(n)-1))
def period(bd):
    """c when the body branches on a remainder modulo the constant c"""
    for st in bd.body:
        for x in ast.walk(st):
            if isinstance(x, ast.BinOp) and isinstance(x.right, ast.Constant) and isinstance(x.op, ast.Mod) and x.right.value in (2, 3, 4): return x.right.value
            if isinstance(x, ast.BinOp) and isinstance(x.right, ast.Constant) and isinstance(x.op, ast.BitAnd) and x.right.value == 1: return 2
    return None
def divided(ctx, n, c):
    """n/c when c divides n"""
    if isinstance(n, int): return None
    if c in (2, 4) and z3.is_app(n) and n.decl().name() == 'pow2':
        from .torchmod import dim_int
        e = simp(n.arg(0)-(1 if c == 2 else 2))
        return dim_int(ctx, Dim.pow2(e)) if ctx.valid(z(e) >= 0) is True else None
    return simp(z(n)/c) if ctx.valid(z(n) % c == 0) is True else None
class Unrolled(Body):
    """c iterations at a time"""
    def __init__(s, I, bd, env, n, c): Body.__init__(s, I, bd.body, bd.target, env, n, bd.get); s.b, s.c = bd, c
    def run(s, env, k):
        for r in range(s.c):
            if s.b.run(env, simp(z(k)*s.c+r)) == 'brk': return 'brk'
def growing(bd, env):
    """loop-carried square matrices whose register may grow by one qubit per iteration: {name: qubits before the loop}"""
    from .dense import as_qnc, qbits
    out = {}
    for st in bd.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in env.v and isinstance(env.v[x.id], T):
                t = env.v[x.id]; sh = t.shape()
                if len(sh) == 2 and sh[0] is not None and t.arr.size <= 256:
                    q = as_qnc(t)
                    if q is not None and qbits(q.r) is not None: out[x.id] = (qbits(q.r), sum(1 for y in ast.walk(ast.Module(bd.body, [])) if isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Load)))
    return {k: v[0] for k, v in out.items() if v[1] and _reads_itself(bd.body, k)}
def _reads_itself(body, nm):
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if any(isinstance(t, ast.Name) and t.id == nm for t in ts) and (isinstance(x, ast.AugAssign) or any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x.value))): return True
    return False
class ShapeMismatch(Unsupported): pass
def explore_body(I, bd, env, pre=None):
    """all outcomes of the body at a fresh generic index on a clone of env.
    pre(memo): called on the clone before running. yields dicts"""
    from .interp import Ret
    ctx = I.ctx; k = ctx.var('k'); out = []
    def go():
        base = len(ctx.pc)
        memo = {}; cl = clone_graph(env, memo); bd.k = k
        if pre: pre(memo)
        f0 = ctx.fresh; imp = []
        try:
            r = bd.run(cl, k)
            kind = 'brk' if r == 'brk' else 'norm'; val = None
        except Exc as x: kind, val = 'exc', x; imp = getattr(x, 'implied', [])
        except Ret as x: kind, val = 'ret', x.v; imp = getattr(x, 'implied', [])
        return dict(kind=kind, val=val, pc=[c for i, c in enumerate(ctx.pc) if i >= base and i not in ctx.implied and not any(a <= i < b for a, b in imp)], memo=memo, env=cl, diff=diff(memo, cl) if kind in ('norm', 'brk') else [], k=k, fresh=(f0, ctx.fresh))
    for r in ctx.explore(go, [k >= 0, k < z(bd.n)]): out.append(r)
    return k, out
def drop_conservative(ctx, pc):
    """leave out what names the first exit of an inner loop, when nothing else speaks of it: it exists anyway"""
    for f, v in reversed(ctx.__dict__.get('conserv', [])):
        if any(c is f or c.eq(f) for c in pc) and not any(has_const(c, v) for c in pc if not c.eq(f)): pc = [c for c in pc if not c.eq(f)]
    return pc
def has_const(e, v):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        st += [x.body()] if z3.is_quantifier(x) else x.children()
    return False
def resolve(pcs, f0):
    """path conditions that differ only in one condition and its negation (up to the numbering of fresh names) become one"""
    import re
    def show(c):
        if z3.is_quantifier(c):
            vs = [z3.Const(f'{c.var_name(i)}', c.var_sort(i)) for i in range(c.num_vars())]
            return f"({'all' if c.is_forall() else 'ex'} {' '.join(map(str, vs))} {show(z3.substitute_vars(c.body(), *reversed(vs)))})"
        if z3.is_and(c) or z3.is_or(c):
            return '(%s %s)' % (c.decl().name(), ' '.join(sorted(map(show, c.children()), key=lambda t: re.sub(r'!\d+', '!', t))))
        if z3.is_not(c): return f'(not {show(c.arg(0))})'
        return c.sexpr()
    def norm(pc):
        m = {}
        def f(x):
            n = int(x.group(1)); return x.group(0) if n <= f0 else '!#%d' % m.setdefault(n, len(m))
        return [re.sub(r'!(\d+)', f, show(z3.simplify(c))) for c in pc]
    def clash(a, b):
        d = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
        return d[0] if len(d) == 1 and (a[d[0]] == f'(not {b[d[0]]})' or b[d[0]] == f'(not {a[d[0]]})') else None
    pcs = [list(p) for p in pcs]; ns = [norm(p) for p in pcs]; go = True
    while go:
        go = False
        for i, j in itertools.combinations(range(len(pcs)), 2):
            p = clash(ns[i], ns[j]) if len(ns[i]) == len(ns[j]) else None
            if p is None: continue
            del pcs[i][p]; del pcs[j], ns[j]; ns[i] = norm(pcs[i]); go = True; break
    return pcs
def exit_cond(ctx, k, outs):
    """E(q) for the outcomes that leave the loop"""
    ds = []; pcs = [o['pc'] for o in outs if o['kind'] != 'norm']
    if 1 < len(pcs) <= 8: pcs = resolve(pcs, min(o['fresh'][0] for o in outs))
    for pc in pcs:
        pc = drop_conservative(ctx, pc)
        c = z3.And(*pc) if pc else z3.BoolVal(True)
        if bad_cond(c, k): raise Unsupported('loop exit on an opaque condition')
        ds.append(c)
    if not ds: return None
    e = z3.Or(*ds)
    fv = fresh_vars(e, min(o['fresh'][0] for o in outs))
    fv = [v for v in fv if not v.eq(k)]
    def E(q):
        x = z3.substitute(e, (k, z(q)))
        return z3.Exists(fv, x) if fv else x
    return E
def shifted(f, q):
    """f with q renamed to q - c when every function argument mentioning q is q + c: the solver can then match on q"""
    args = []; st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: args += [a for a in x.children() if has_const(a, q)]
            st += x.children()
    cs = []
    for a in args:
        c = z3.simplify(a-q)
        if has_const(c, q) or has_var(c): return f
        if not any(c.eq(d) for d in cs): cs.append(c)
    if len(cs) != 1 or z3.is_int_value(cs[0]) and cs[0].as_long() == 0: return f
    return z3.simplify(z3.substitute(f, (q, q-cs[0])))
def has_var(x): return z3.is_var(x) or any(has_var(c) for c in x.children())
def fresh_vars(e, f0):
    st = [e]; seen = set(); out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > f0: out.append(x)
        if z3.is_quantifier(x): st.append(x.body())
        else: st += x.children()
    return out
def slot_id(kind, o, key): return (kind, id(o), key)
def grow_acc(nm, q, k):
    d = Dim.pow2(simp(q+z(k))); t = dense(N_.nc_op(Op(nm, (), d, d))); t.accname = nm; return t
def summary1(I, bd, env, grow=None):
    from .interp import Ret
    ctx = I.ctx; n = bd.n; grow = grow or {}; gn = {}
    for nm in grow: _accn[0] += 1; gn[nm] = f'acc.{nm}#{_accn[0]}'
    def pre0(memo):
        cl = memo[id(env)][1]
        for nm, q in grow.items(): cl.v[nm] = grow_acc(gn[nm], q, bd.k)
    k, outs = explore_body(I, bd, env, pre0 if grow else None)
    if not outs: raise Unsupported('loop body has no feasible path')
    # which slots change on some path
    slots = {}
    for o in outs:
        for kind, ob, key, new in o['diff']:
            slots.setdefault(slot_id(kind, ob, key), (kind, ob, key, []))[3].append(new)
    slots = sorted(slots.values(), key=lambda t: t[0] != 'tok')
    guess = {}; nn = sum(o['kind'] == 'norm' for o in outs)
    for kind, ob, key, news in slots:
        # an integer advanced by the same constant on every path: value old + c*k at iteration k (checked on every path below)
        if kind not in ('var', 'attr') or len(news) != nn or kind == 'var' and ob is env and key in grow: continue
        old = ob.v.get(key) if kind == 'var' else ob.attrs.get(key)
        if not is_int(old) or not all(is_int(x) for x in news): continue
        cs = [simp(z(x)-z(old)) for x in news]
        if isinstance(cs[0], int) and all(isinstance(c, int) and c == cs[0] for c in cs): guess[slot_id(kind, ob, key)] = (old, cs[0])
    accs = {}; base0 = {id(ob): ob.base for kind, ob, key, news in slots if kind == 'vec'}
    def pre(memo):
        accs.clear()
        for kind, ob, key, news in slots:
            if kind == 'newvar': continue
            cl = memo[id(ob)][1]
            if slot_id(kind, ob, key) in guess:
                old, c = guess[slot_id(kind, ob, key)]; (cl.v if kind == 'var' else cl.attrs)[key] = simp(z(old)+c*z(bd.k)); continue
            if kind == 'var' and ob is env and key in grow: cl.v[key] = accs[slot_id(kind, ob, key)] = grow_acc(gn[key], grow[key], bd.k)
            elif kind == 'var':
                accs[slot_id(kind, ob, key)] = a = make_acc(I, ob.v[key], news, f'{key}')
                put(cl.v, key, a, memo, ob.v[key])
            elif kind == 'attr':
                a = accs[slot_id(kind, ob, key)] = make_acc(I, ob.attrs.get(key), news, f'{key}')
                put(cl.attrs, key, a, memo, ob.attrs.get(key))
            elif kind in ('sl', 'list'):
                a = accs[slot_id(kind, ob, key)] = make_list_acc(I, ob, news)
                replace(memo, cl, a, ob)
            elif kind == 'T':
                a = accs[slot_id(kind, ob, key)] = make_acc(I, ob, news, 'T')
                cl.arr, cl.axes = a.arr, a.axes; cl.ver = cl.tok.ver
            elif kind == 'tok': cl.ver += 1; cl.written = True      # views of the storage are out of date from the second iteration on
            elif kind == 'vec':
                from .torchmod import VecRec
                cl.rec = VecRec()
                def rd(*j, cl=cl, b=base0[id(ob)]): cl.rec.reads.append(j if len(j) > 1 else j[0]); return b(*j)
                cl.base = rd; cl.ver = cl.tok.ver
            elif kind == 'opq':
                a = accs[slot_id(kind, ob, key)] = cl.acc_()
            else: raise Unsupported(f'loop changes a {kind}')
    if any(s[0] != 'newvar' for s in slots):
        k, outs = explore_body(I, bd, env, pre)
        # stability: no further slot may change
        known = {slot_id(a, b, c) for a, b, c, _ in slots}
        for o in outs:
            for kind, ob, key, new in o['diff']:
                if slot_id(kind, ob, key) not in known and not (kind in ('sl', 'list') and any(id(ob) == id(s[1]) for s in slots)):
                    if kind == 'newvar': slots.append((kind, ob, key, [new])); known.add(slot_id(kind, ob, key))
                    else: raise ShapeMismatch('slot set of the loop is unstable')
    # closed forms, checked on every normal path
    norm = [o for o in outs if o['kind'] in ('norm',)]
    forms = {}; gen = {}
    saved = {}
    for kind, ob, key, news in slots:
        if kind == 'newvar': continue
        sid = slot_id(kind, ob, key)
        f = None
        for o in norm:
            if sid in guess:
                old, c = guess[sid]; d = simp(z(find_new(o, kind, ob, key))-z(old)-c*(z(k)+1))
                if not (isinstance(d, int) and d == 0): raise ShapeMismatch('integer recurrence')
                f = ('count', c); continue
            g = classify(I, kind, ob, key, o)
            if kind == 'var' and ob is env and key in grow:
                new = find_new(o, kind, ob, key)
                if g[0] != 'prod' or any(dim_eq(ctx, x, Dim.pow2(simp(grow[key]+z(k)+1))) is not True for x in (nc_of(new).r, nc_of(new).c)): raise ShapeMismatch('growing matrix')
                g = ('gprod',) + g[1:] + (grow[key],)
            if f is None: f = g
            elif f != g: raise ShapeMismatch(f'different effects on different paths: {f} / {g}')
        forms[sid] = f
        if f is not None and f[0] == 'fstore': gen[sid] = [(k, o['fresh'], find_new(o, kind, ob, key).rec.writes) for o in norm]
    snap_memo = {}; snap = clone_graph(env, snap_memo)     # environment before the loop, for re-execution
    def rexec(j, want):
        """value of a slot after iteration j started from accumulators"""
        memo = {}; memo2 = {}
        cl = clone_graph(snap, memo2)
        # translate: slots refer to objects of env; snapshot clones are snap_memo[orig]
        comp = {}
        for oid, (orig, sn) in snap_memo.items():
            if id(sn) in memo2: comp[oid] = (orig, memo2[id(sn)][1])
        bd.k = j; pre(comp)
        if bd.run(cl, j) == 'brk': raise Unsupported('break in a re-executed iteration')
        return want(comp, cl)
    E = exit_cond(ctx, k, outs)
    if E is not None:
        q = z3.Int(f'xq!{ctx.fresh}'); ctx.fresh += 1
        some = z3.Exists([q], shifted(z3.And(q >= 0, q < z(n), E(q)), q))
        # a loop whose only path is an exit leaves in its first iteration
        if ctx.decide(some):
            k0 = ctx.var('k0'); q2 = z3.Int(f'xq!{ctx.fresh}'); ctx.fresh += 1
            first = z3.And(k0 >= 0, k0 < z(n), E(k0), z3.ForAll([q2], z3.Not(shifted(z3.And(q2 >= 0, q2 < k0, E(q2)), q2))))
            ctx.__dict__.setdefault('conserv', []).append((first, k0)); ctx.assume(first)     # a first exit exists whenever there is an exit
            if forms: apply_forms(I, bd, slots, forms, k0, rexec, env, gen)
            for kind, ob, key, news in slots:
                if kind == 'newvar': pass
            i0 = len(ctx.pc)-1
            try: r = bd.run(env, k0)
            except (Exc, Ret) as x:
                # with a single way out, E(k0) says everything this iteration assumed: the path exists iff `some`
                if sum(o['kind'] != 'norm' for o in outs) == 1: x.implied = getattr(x, 'implied', []) + [(i0, len(ctx.pc))]
                raise
            if r == 'brk': return
            raise Abort()          # the exit condition was not taken on this fork of the re-execution
        ctx.assume(z3.ForAll([q], z3.Not(shifted(z3.And(q >= 0, q < z(n), E(q)), q))))
    if not norm: 
        if ctx.valid(z(n) <= 0) is True: return
        raise Abort()
    apply_forms(I, bd, slots, forms, n, rexec, env, gen)
def put(d, key, a, memo, old): d[key] = a
def replace(memo, cl, a, ob):
    """substitute clone cl by accumulator a everywhere in the cloned graph"""
    from .interp import Env, PyObj, Dict
    def r(v):
        if v is cl: return a
        if isinstance(v, tuple) and any(x is cl for x in v): return tuple(r(x) for x in v)
        return v
    for o, c in list(memo.values()):
        if isinstance(c, Env): c.v = {k: r(v) for k, v in c.v.items()}
        elif isinstance(c, PyObj): c.attrs = {k: r(v) for k, v in c.attrs.items()}
        elif isinstance(c, list): c[:] = [r(v) for v in c]
        elif isinstance(c, Dict): c.d = {k: r(v) for k, v in c.d.items()}
    memo[id(ob)] = (ob, a)
_accn = [0]
def make_acc(I, old, news, nm):
    ctx = I.ctx; _accn[0] += 1; nm = f'acc.{nm}#{_accn[0]}'
    new = news[0]
    if is_int(old) and all(is_int(x) for x in news): return ctx.var(nm)
    if scalar_like(old) and all(scalar_like(x) for x in news):
        a = P.atom(ctx.atom(nm, 'cplx')); a = T(TT.oscal(a)) if isinstance(new, T) else a
        if isinstance(a, T) and not isinstance(old, T): a.accold = True
        return a
    if isinstance(old, T) and isinstance(new, T):
        so, sn = old.shape(), new.shape()
        if len(so) == len(sn) == 2:
            if all(dim_eq(ctx, a, b) is True for a, b in zip(so, sn)) or True:
                return acc_matrix(I, old, new, nm)
        if old.is_small() and new.is_small() and old.arr.shape == new.arr.shape: return acc_small(I, old, nm)
    if isinstance(old, StateT) and isinstance(new, StateT):
        col = N_.nc_op(Op(nm, (), old.content.r, old.content.c)); r = old.with_(content=col, tok=Tok()); r.accname = nm; return r
    if isinstance(old, (float, int)) and old == 0 and isinstance(new, T) and not new.is_small() and new.ndim() == 2 and TT.as_nc(new) is not None:
        a = acc_matrix(I, new, new, nm)
        if isinstance(a, T): a.accold = True
        return a
    if isinstance(old, (P, float, int)) and isinstance(new, P):
        a = P.atom(ctx.atom(nm, 'cplx')); return a
    if isinstance(old, (list, SL)) and all(isinstance(x, (list, SL)) for x in news): return Havoc(nm)
    if hasattr(old, 'acc_'): return old.acc_()
    if type(new).__name__ == 'KronT':
        from .dense import FoldAcc
        return FoldAcc(nm, old)
    return Havoc(nm)
def scalar_like(v): return isinstance(v, (P, float, int, complex)) and not isinstance(v, bool) or isinstance(v, T) and v.is_small() and v.arr.ndim == 0
def pval(v): return v.arr[()] if isinstance(v, T) else P.const(v)
def own_acc(p, key):
    a = [x for x in p.atoms() if x.name.startswith('acc.')]
    if len(a) != 1 or a[0].conjd or (key is not None and not a[0].name.startswith(f'acc.{key}#')): raise ShapeMismatch('scalar recurrence')
    r = p - P.atom(a[0])
    if a[0] in r.atoms() or a[0].twin() in r.atoms(): raise ShapeMismatch('scalar recurrence')
    return r
class Havoc:
    """an unknown value; any use is outside the summaries"""
    def __init__(s, nm): s.nm = nm
def acc_small(I, old, nm):
    r = oarr(old.arr.shape)
    import numpy as np
    for i in np.ndindex(*r.shape): r[i] = P.atom(I.ctx.atom(f'{nm}{list(i)}', 'cplx'))
    t = T(r); t.accname = nm; return t
def acc_matrix(I, old, new, nm):
    from .dense import FoldAcc
    so, sn = old.shape(), new.shape()
    ctx = I.ctx
    if all(dim_eq(ctx, a, b) is True for a, b in zip(so, sn)):
        if all(isinstance(d, int) for d in so): return acc_small(I, old, nm)
        t = dense(N_.nc_op(Op(nm, (), Dim.of(so[0]), Dim.of(so[1])))); t.accname = nm; return t
    return FoldAcc(nm, old)
def make_list_acc(I, ob, news):
    if isinstance(ob, SL) and ob.kind != 'list': raise Unsupported('loop changes a tuple')
    n = ob.n if isinstance(ob, SL) else len(ob)
    # elements keep their kind when they are integers
    grows = any(not same((simp(x.n) if isinstance(x, SL) else len(x),), (simp(z(n)) if not isinstance(n, int) else n,)) for x in news)
    L = I.ctx.var('len') if grows else n
    a = AccSL(L)
    if grows:
        I.ctx.__dict__.setdefault('conserv', []).append((L >= 0, L)); I.ctx.assume(L >= 0)
    return a
def find_new(o, kind, ob, key):
    for kd, oo, ky, new in o['diff']:
        if oo is ob and ky == key: return new
    cl = o['memo'][id(ob)][1]
    if kind == 'var': return cl.v[key]
    if kind == 'attr': return cl.attrs[key]
    return cl
def classify(I, kind, ob, key, o):
    new = find_new(o, kind, ob, key); ctx = I.ctx
    if kind == 'opq': return new.form_()
    if kind == 'tok': return ('tok',)
    if kind == 'vec' and type(new).__name__ == 'FunT': return ('fstore', tuple(len(w.bounds) for w in new.rec.writes), len(new.rec.reads)) if new.rec is not None else ('none',)
    if kind == 'vec': return ('vstore', len(new.rec.writes)) if new.rec is not None else ('none',)
    if kind in ('sl', 'list'):
        if not isinstance(new, AccSL): raise ShapeMismatch('list replaced')
        if any(isinstance(x, Block) for x in new.appended):
            if len(new.appended) == 1 and not new.stores: return ('appendblk',)
            raise ShapeMismatch('list of blocks')
        if new.appended and not new.stores: return ('append', len(new.appended))
        if new.stores and not new.appended: return ('store', len(new.stores))
        if not new.stores and not new.appended: return ('none',)
        raise ShapeMismatch('list both appended and stored')
    if isinstance(new, Havoc): raise ShapeMismatch(f'{key} not updated on some path')
    if isinstance(new, LoopTemp): return ('last',)        # independence of accumulators is checked when it is read
    if is_int(new) and z3.is_expr(z(new)):
        a = acc_of(ctx, new, key)
        if a is None: return ('last',)
        c = simp(z(new) - a)
        if isinstance(c, int): return ('count', c)
        if not mentions(c, a) : return ('last?',) if False else ('sumint',)
        raise ShapeMismatch('integer recurrence')
    if isinstance(new, T) and not new.is_small():
        w = acc_word(new)
        return w
    if isinstance(new, T):
        ats = set()
        for x in new.arr.reshape(-1): ats |= {a.name for a in x.atoms() if a.name.startswith('acc.')}
        if not ats: return ('last',)
        if new.arr.ndim == 0: own_acc(new.arr[()], 'T' if kind == 'T' else key); return ('sum',)
        raise ShapeMismatch('small-matrix recurrence')
    if isinstance(new, StateT): return acc_word(new)
    if type(new).__name__ == 'FoldRes': return ('kron',)
    if isinstance(new, P):
        if not any(a.name.startswith('acc.') for a in new.atoms()): return ('last',)
        own_acc(new, key); return ('sum',)
    if hasattr(new, 'form_'): return new.form_()
    if isinstance(new, (list, tuple, str, type(None), bool, Dim, SL, float)): return ('last',)
    if kind == 'var' and type(new).__name__ == 'PyObj': return ('last',)
    raise ShapeMismatch(f'loop-carried {type(new).__name__}')
def noacc(v):
    """the value v, which must not depend on a loop accumulator"""
    from .smt import consts
    if isinstance(v, (bool, str, float, complex, type(None))): return v
    if is_int(v) or z3.is_expr(v): bad = any(c.startswith('acc.') for c in consts([z(v)]))
    elif isinstance(v, P): bad = any(a.name.startswith('acc.') for a in v.atoms())
    elif isinstance(v, T) and v.is_small(): bad = any(a.name.startswith('acc.') for x in v.arr.reshape(-1) for a in x.atoms())
    elif isinstance(v, T): bad = acc_word(v) != ('last',)
    elif isinstance(v, (list, tuple)): return type(v)(noacc(x) for x in v)
    else: raise Unsupported(f'value of a loop variable after the loop: {type(v).__name__}')
    if bad: raise ShapeMismatch('value after the loop depends on the iterations')
    return v
def mentions(e, a):
    if isinstance(e, int): return False
    st = [e]
    while st:
        x = st.pop()
        if x.eq(a): return True
        st += x.children()
    return False
def acc_of(ctx, e, key):
    if isinstance(e, int): return None
    st = [e]
    while st:
        x = st.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(f'acc.{key}#'): return x
        st += x.children()
    return None
def nc_of(t): return t.content if isinstance(t, StateT) else t.arr.reshape(-1)[0]
def is_acc(f): return isinstance(f, Op) and f.name.startswith('acc.')
def acc_scalar(x):
    """does an accumulator's entry occur among the scalars of a matrix?"""
    for c, w in x.t:
        if any(a.name.startswith('acc.') for a in c.atoms()): return True
        for f in w:
            if isinstance(f, Loc) and any(a.name.startswith('acc.') for v in f.m.values() for a in v.atoms()): return True
    return False
def acc_word(t):
    for x in (t.arr.reshape(-1) if isinstance(t, T) else [nc_of(t)]):
        if isinstance(x, NC) and acc_scalar(x): raise ShapeMismatch('matrix recurrence on entries')
    if isinstance(t, T) and t.arr.size != 1:
        if not any(is_acc(f) for x in t.arr.reshape(-1) if isinstance(x, NC) for c, w in x.t for f in w): return ('last',)
        raise ShapeMismatch('blocked matrix recurrence')
    x = nc_of(t)
    hits = [any(is_acc(f) for f in w) for c, w in x.t]
    if not any(hits): return ('last',)
    if len(x.t) == 1:
        c, w = x.t[0]
        p = [i for i, f in enumerate(w) if is_acc(f)]
        if len(p) == 1 and c == P.const(1) and not w[p[0]].conj and not w[p[0]].tr:
            return ('prod', p[0] > 0, p[0] < len(w)-1)
    h = [i for i, x in enumerate(hits) if x]
    if len(h) == 1 and x.t[h[0]][0] == P.const(1) and len(x.t[h[0]][1]) == 1 and not x.t[h[0]][1][0].conj and not x.t[h[0]][1][0].tr: return ('msum',)
    raise ShapeMismatch('matrix recurrence')
def split_word(t):
    x = nc_of(t)
    c, w = x.t[0]; p = [i for i, f in enumerate(w) if is_acc(f)][0]
    return w[:p], w[p+1:]
def apply_forms(I, bd, slots, forms, n, rexec, env, gen={}):
    ctx = I.ctx; todo = []
    def getter(kind, ob, key):
        def want(memo, cl):
            c = memo[id(ob)][1]
            if kind in ('var', 'newvar'): return c.v[key]
            if kind == 'attr': return c.attrs[key]
            return c
        return want
    for kind, ob, key, news in slots:
        want = getter(kind, ob, key)
        if kind == 'newvar':
            todo.append((kind, ob, key, LoopTemp(ctx, lambda want=want: rexec(simp(z(n)-1), want)))); continue
        f = forms[slot_id(kind, ob, key)]
        if f is None or f[0] == 'none': continue
        old = ob.v[key] if kind == 'var' else ob.attrs.get(key) if kind == 'attr' else ob
        if f[0] == 'appendblk':
            if isinstance(ob, AccSL): raise Unsupported('three nested appending loops')
            A = I.as_sl(list(old)) if isinstance(old, list) else old.copy()
            blk = lambda x, want=want: rexec(x, want).appended[0].l
            q = ctx.var('q'); f0 = ctx.fresh; ms = list(ctx.explore(lambda: simp(z(blk(q).n)), [q >= 0, q < z(n)]))
            if len(ms) != 1 or not isinstance(ms[0], int) and (mentions(ms[0], q) or fresh_vars(ms[0], f0)): raise Unsupported('blocks of different lengths')
            m = ms[0]; at = lambda x, y, blk=blk: blk(x).get(ctx, y)
            new = SL(simp(z(n)*z(m)), lambda j, at=at, m=m: at(simp(z(j)/z(m)), simp(z(j) % z(m)))); new.base.grid = (n, m, at)
            from .interp import sl_concat
            todo.append((kind, ob, key, sl_concat(I, A, new)))
        elif f[0] == 'append' and isinstance(ob, AccSL):
            # the list belongs to an enclosing loop: one block of its iteration
            if f[1] != 1: raise Unsupported('several appends per inner iteration')
            at1 = lambda j, want=want: rexec(j, want).appended[0]
            todo.append((kind, ob, key, Block(SL(n, at1))))
        elif f[0] == 'append':
            m = f[1]; A = I.as_sl(list(old)) if isinstance(old, list) else old.copy()
            at1 = lambda j, r, want=want: rexec(j, want).appended[r]
            if m == 1:
                new = SL(n, lambda j, at1=at1: at1(j, 0))
                probe = None
            else:
                def at(j, at1=at1, m=m):
                    r = simp(z(j) % m); qd = simp(z(j)/m)
                    for i in range(m-1):
                        if ctx.decide(z(r) == i): return at1(qd, i)
                    return at1(qd, m-1)
                new = SL(simp(z(n)*m), at)
            from .interp import sl_concat
            # are the appended values integers on all paths?
            new._isint = all(is_int(v) for o in [news] for x in o for v in getattr(x, 'appended', [])) if False else None
            if not (isinstance(A.n, int) and A.n == 0):
                ai, bi = isint_app(I, A), isint_loop(I, rexec, want, n)
                new._isint = bi
            res = sl_concat(I, A, new)
            todo.append((kind, ob, key, res))
        elif f[0] == 'store':
            st = []
            for r in range(f[1]):
                st.append(Fam(n, memo_idx(ctx, n, lambda kk, r=r, want=want: rexec(kk, want).stores[r].idx), (lambda kk, r=r, want=want: rexec(kk, want).stores[r].val)))
            if f[1] > 1: raise Unsupported('several stores per iteration')
            A = I.as_sl(list(old)) if isinstance(old, list) else old.copy()
            A.stores = A.stores + st
            todo.append((kind, ob, key, A))
        elif f[0] == 'tok': todo.insert(0, (kind, ob, key, None))
        elif f[0] == 'vstore':
            m = f[1]; wr = lambda kk, want=want: rexec(kk, want).rec
            idx = [memo_idx(ctx, n, lambda kk, r=r: wr(kk).writes[r][0]) for r in range(m)]
            a, b = ctx.var('a'), ctx.var('b')
            for r in range(m):
                for r2 in range(r, m):
                    c = [a >= 0, a < z(n), b >= 0, b < z(n)] + ([a < b] if r == r2 else [])
                    if ctx.forall(lambda: ctx.valid(z(idx[r](a)) != z(idx[r2](b))), c) is not True: raise Unsupported('positions written by a loop may coincide')
            def rdok():
                rec = wr(b)
                return all(ctx.valid(z(idx[r](a)) != z(j)) is True for j in rec.reads for r in range(m))
            if ctx.forall(rdok, [a >= 0, a < b, b < z(n)]) is not True: raise Unsupported('a loop reads positions it has written')
            A = SL(ob.n, ob.base); A.stores = [Fam(n, idx[r], (lambda kk, r=r: wr(kk).writes[r][1])) for r in range(m)]
            todo.append((kind, ob, key, (lambda A: lambda j: A.get(ctx, j))(A)))
        elif f[0] == 'fstore':
            if f[2]: raise Unsupported('a loop reads an array it is storing into')
            from .fun import close_stores
            class _W:
                def __init__(s, nb): s.bounds = [None]*nb
            todo.append((kind, ob, key, close_stores(ctx, ob, n, len(f[1]), (lambda kk, want=want: rexec(kk, want).rec.writes, [_W(nb) for nb in f[1]]), gen.get(slot_id(kind, ob, key)))))
        elif f[0] == 'count': todo.append((kind, ob, key, simp(z(old) + f[1]*z(n))))
        elif f[0] == 'sum':
            from .fun import total
            v = pval(old) + total(ctx, n, lambda kk, want=want, key=key, kind=kind: own_acc(pval(rexec(kk, want)), 'T' if kind == 'T' else key))
            todo.append((kind, ob, key, T(TT.oscal(v)) if kind == 'T' or any(isinstance(x, T) for x in news) else v))
        elif f[0] == 'msum':
            def term(kk, want=want):
                x = nc_of(rexec(kk, want)); return NC([(c, w) for c, w in x.t if not any(is_acc(g) for g in w)], x.r, x.c)
            q = ctx.var('q'); ds = list(ctx.explore(lambda: (lambda y: (y.r, y.c))(term(q)), [q >= 0, q < z(n)]))
            if any(dim_eq(ctx, a, b) is not True for d in ds[1:] for a, b in zip(d, ds[0])): raise Unsupported('sum of matrices')
            y = NC([(P.const(1), (N_.Sum(n, term, *ds[0]),))], *ds[0])
            if isinstance(old, (int, float)): v = dense(y)
            else: v = dense(N_.add(ctx, nc_of(old), y))
            todo.append((kind, ob, key, v))
        elif f[0] == 'last' and kind == 'var':
            def lastv(want=want, old=old):
                if ctx.decide(z(n) > 0):
                    v = rexec(simp(z(n)-1), want)
                    while isinstance(v, LoopTemp): v = v.force()
                    return noacc(v)
                return old.force() if isinstance(old, LoopTemp) else old
            todo.append((kind, ob, key, LoopTemp(ctx, lastv)))
        elif f[0] == 'last':
            if not ctx.decide(z(n) > 0): continue
            todo.append((kind, ob, key, rexec(simp(z(n)-1), want)))
        elif f[0] == 'prod':
            N = regn(I, old)
            x = nc_of(old)
            L = R = ()
            if f[1]: L = (Prod(N, n, lambda kk, want=want: split_word(rexec(kk, want))[0]),)
            if f[2]: R = (Prod(N, n, lambda kk, want=want: split_word(rexec(simp(z(n)-1-z(kk)), want))[1]),)
            y = NC([(c, L+tuple(w)+R) for c, w in x.t], x.r, x.c)
            if isinstance(old, StateT): v = old.with_(content=N_.simp(ctx, y), tok=Tok())
            else: v = dense(N_.simp(ctx, y))
            todo.append((kind, ob, key, v))
        elif f[0] == 'gprod':
            from .dense import as_qnc, lift_factor
            Nf = simp(z(f[3])+z(n)); x = as_qnc(old)
            def up(w, kk):
                m = simp(z(n)-1-z(kk)); r = [lift_factor(g, m) for g in w]
                if any(g is None for g in r): raise Unsupported('growing product')
                return tuple(r)
            L = R = ()
            if f[1]: L = (Prod(Nf, n, lambda kk, want=want: up(split_word(rexec(kk, want))[0], kk)),)
            if f[2]: R = (Prod(Nf, n, lambda kk, want=want: (lambda q: up(split_word(rexec(q, want))[1], q))(simp(z(n)-1-z(kk)))),)
            ts = []
            for c, w in x.t:
                w2 = [lift_factor(g, n) for g in w]
                if any(g is None for g in w2): raise Unsupported('growing product')
                ts.append((c, L+tuple(w2)+R))
            todo.append((kind, ob, key, dense(N_.simp(ctx, NC(ts, Dim.pow2(Nf), Dim.pow2(Nf))))))
        elif f[0] == 'kron':
            from .dense import fold_close
            todo.append((kind, ob, key, fold_close(I, old, n, lambda kk, want=want: rexec(kk, want).right, [v for v in env.v.values() if isinstance(v, SL)])))
        elif f[0] == 'opq': todo.append((kind, ob, key, old.close_(I, f, n, lambda kk, want=want: rexec(kk, want))))
        else: raise Unsupported(f'loop summary {f[0]}')
    for kind, ob, key, v in sorted(todo, key=lambda t: t[0] != 'tok'):
        if kind in ('var', 'newvar'): ob.v[key] = v
        elif kind == 'attr': ob.attrs[key] = v
        elif isinstance(v, Block): ob.appended.append(v)
        elif kind == 'sl': ob.n, ob.base, ob.base_const, ob.stores = v.n, v.base, v.base_const, list(v.stores); ob._isint = getattr(v, '_isint', None)
        elif kind == 'list': I.become(ob, v, env)
        elif kind == 'tok': ob.ver += 1; ob.written = True
        elif kind == 'T': ob.arr, ob.axes = v.arr, v.axes; ob.ver = ob.tok.ver
        elif kind == 'vec' and isinstance(v, list):
            v0 = ob.tok.ver
            for w in v: ob.ver = ob.tok.ver; ob.store(ctx, w)
            ob.ver = ob.tok.ver
        elif kind == 'vec': ob.base = v; ob.ver = ob.tok.ver
        elif kind == 'opq': ob.become_(v)
def memo_idx(ctx, n, f):
    """f(k), the position written by iteration k: executed once at a generic k, then instantiated by substitution"""
    q = ctx.var('q'); f0 = ctx.fresh
    vals = list(ctx.explore(lambda: f(q), [q >= 0, q < z(n)]))
    def guarded(k):
        try: return f(k)
        except Exc as x: raise Unsupported(f'position written by an iteration: {x}')
    if not vals or not all(is_int(v) and z(v).eq(z(vals[0])) for v in vals): return guarded
    t = z3.IntVal(vals[0]) if isinstance(vals[0], int) else vals[0]
    if fresh_vars(t, f0): return guarded
    return lambda k: simp(z3.substitute(t, (q, z(k))))
def isint_app(I, A):
    from .interp import _intlist
    return _intlist(I.ctx, A)
def isint_loop(I, rexec, want, n):
    ctx = I.ctx; k = ctx.var('k'); out = []
    for r in ctx.explore(lambda: is_int(rexec(k, want).appended[0]), [k >= 0, k < z(n)]): out.append(r)
    return all(out)
def regn(I, t):
    """register size of a dense matrix / state"""
    if isinstance(t, StateT): return simp(t.n-1) if t.batch else t.n
    d = Dim.of(t.shape()[0])
    if d.k == 1 and not d.b: return d.e
    raise Unsupported('product of matrices that are not on qubits')
def comprehension(I, node, gen, it, env):
    """[elt for x in it] with it of symbolic length"""
    ctx = I.ctx; n, get = iter_of(I, it)
    from .interp import Env
    memo0 = {}; snap = clone_graph(env, memo0)
    def elt_of(binds):
        e = clone_graph(snap, {})
        for t, v in binds: I.assign(t, v, e)
        return I.ev(node.elt, e)
    def at(j): return elt_of([(gen.target, get(j))])
    chain = it if hasattr(it, 'elementwise') else None
    # exits (exceptions raised by the element expression)
    k = ctx.var('k'); f0 = ctx.fresh; outs = []
    def go():
        base = len(ctx.pc)
        try: v = at(k); return dict(kind='norm', pc=[], v=v, fresh=(f0, 0), same=chain is not None and chain.elementwise(I, k, v))
        except Exc as x: return dict(kind='exc', pc=[c for i, c in enumerate(ctx.pc) if i >= base and i not in ctx.implied], fresh=(f0, 0))
    for r in ctx.explore(go, [k >= 0, k < z(n)]): outs.append(r)
    E = exit_cond(ctx, k, outs)
    if E is not None:
        q = z3.Int(f'xq!{ctx.fresh}'); ctx.fresh += 1
        if ctx.decide(z3.Exists([q], z3.And(q >= 0, q < z(n), E(q)))):
            k0 = ctx.var('k0'); ctx.assume(z3.And(k0 >= 0, k0 < z(n), E(k0)))
            at(k0); raise Abort()
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(n)), z3.Not(E(q)))))
    if chain is not None and outs and all(o.get('same') for o in outs):
        r = chain.copy(); r.handed = chain.handed if any(o['same'] == 'shared' for o in outs) else list(chain.handed); r.tok = TT.Tok(); return r
    r = SL(n, at)
    nv = [o['v'] for o in outs if o['kind'] == 'norm']
    r._isint = bool(nv) and all(is_int(v) for v in nv)
    g = getattr(it.base, 'grid', None) if isinstance(it, SL) and not it.stores else None
    if g is not None: r.base.grid = g[:2] + (lambda x, y: elt_of([(gen.target, g[2](x, y))]),)
    return r
def comprehension2(I, node, gens, it, env):
    """[elt for x in it for y in it2] with symbolic lengths, the inner one independent of x"""
    ctx = I.ctx; n, get = iter_of(I, it); memo0 = {}; snap = clone_graph(env, memo0)
    from .interp import Env
    def inner(x):
        e = clone_graph(snap, {}); I.assign(gens[0].target, get(x), e); return e, iter_of(I, I.ev(gens[1].iter, e))
    def at(x, y):
        e, (m, g2) = inner(x); I.assign(gens[1].target, g2(y), e); return I.ev(node.elt, e)
    a, b = ctx.var('k'), ctx.var('k'); f0 = ctx.fresh
    ms = list(ctx.explore(lambda: simp(z(inner(a)[1][0])), [a >= 0, a < z(n)]))
    if len(ms) != 1 or not isinstance(ms[0], int) and (mentions(ms[0], a) or fresh_vars(ms[0], f0)): raise Unsupported('inner generator of varying length')
    m = ms[0]
    def go():
        try: return is_int(at(a, b))
        except Exc: raise Unsupported('exception in a nested comprehension')
    ints = list(ctx.explore(go, [a >= 0, a < z(n), b >= 0, b < z(m)]))
    
    def flat(j):
        if isinstance(m, int) and m > 0: q, x = split_const(j, m); return at(simp(z(q)+z(x)/m), simp(z(x) % m))
        return at(simp(z(j)/z(m)), simp(z(j) % z(m)))
    r = SL(simp(z(n)*z(m)), flat); r._isint = bool(ints) and all(ints); r.base.grid = (n, m, at); return r
