"""Annotated loop invariants. The obligation supplies, for one loop of one function,
     init(env)        checks the invariant before the loop
     havoc(env, k)    puts an arbitrary state satisfying the invariant at the start of iteration k into env
     post(env, k)     checks the invariant after iteration k
     exit(env)        puts an arbitrary state satisfying the invariant at n into env
 The loop body is the one in /repo, executed once at a generic k (0 <= k < n) on every path."""
import ast, z3
from .vals import *
from .vals import z
from .loops import iter_of, clone_graph, diff, Havoc
from .interp import Brk, Cnt, Ret
from .scalar import Unsupported
class Inv:
    keeps = ()     # variables whose value before the loop is also that at the start of every iteration
    def frame(s, e, kind, o, key): return False     # may the body change this slot of this object?
    peel = 0       # iterations executed on the real state before the invariant takes over
    def init(s, e, env): pass
    def base(s, e, env): pass
    def havoc(s, e, env, k): pass
    def post(s, e, env, k): pass
    def exit(s, e, env): pass
def stored(body):
    return {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
def carries(body, done=None):
    """names an iteration may read before it has assigned them"""
    out = set(); done = set() if done is None else done
    def loads(x): return {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
    for st in body:
        if isinstance(st, ast.If):
            out |= loads(st.test)-done; a, b = set(done), set(done)
            out |= carries(st.body, a) | carries(st.orelse, b)
            ends = lambda l: bool(l) and isinstance(l[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))
            done |= b if ends(st.body) else a if ends(st.orelse) else a & b
        elif isinstance(st, (ast.For, ast.While)):
            hd = [st.iter] if isinstance(st, ast.For) else [st.test]
            for h in hd: out |= loads(h)-done
            inner = set(done)
            if isinstance(st, ast.For): inner |= {y.id for y in ast.walk(st.target) if isinstance(y, ast.Name)}
            out |= carries(st.body, inner) | carries(st.orelse, set(done))
        elif isinstance(st, (ast.With, ast.Try)):
            out |= loads(st)-done
        else:
            out |= loads(st)-done; done |= stored([st])
    return out
def carried(s, env, pred, what):
    """the one variable of this kind that an iteration takes over from the previous one"""
    l = [k for k, v in env.v.items() if pred(v)]
    c = carries(s.node.body) & stored(s.node.body); l2 = [k for k in l if k in c]
    if len(l2) == 1: return l2[0]
    if len(l) != 1: raise Unsupported(f'loop invariant: {len(l2) or len(l)} candidates for {what}')
    return l[0]
def annotate(e, qual, inv):
    """use `inv` for the first loop of symbolic length executed in the function"""
    done = []; e.soft = True
    def h(I, node, it, env):
        if done: return NotImplemented
        done.append(1)
        run_inv(e, inv, node, it, env)
    e.I.loopinv[qual] = h
    return done
def dispatch(e, pick):
    """use the invariant pick(n, env) for a loop of symbolic length n, wherever it is; None: no annotation"""
    e.soft = True
    def h(I, node, it, env):
        n, get = iter_of(I, it); inv = pick(n, env)
        if inv is None: return NotImplemented
        run_inv(e, inv, node, it, env)
    e.I.loopinv['*'] = h
def run_inv(e, inv, node, it, env):
    I = e.I; ctx = I.ctx
    if node.orelse: raise Unsupported('loop else')
    n, get = iter_of(I, it); inv.n = n; inv.node = node
    inv.init(e, env)
    def body(cl, k):
        I.assign(node.target, get(k), cl)
        try: I.block(node.body, cl)
        except Cnt: pass
        except Brk:
            # leaving the loop in its last iteration is the same as finishing it
            if ctx.valid(z(k) == z(n)-1) is not True: raise Unsupported('the loop under an invariant ends early')
        except Ret: raise Unsupported('the loop under an invariant ends early')
    for p in range(inv.peel):
        if not ctx.decide(z(n) > p): return
        body(env, p)
    inv.base(e, env)
    k = ctx.var('k')
    def go():
        memo = {}; cl = clone_graph(env, memo); inv.memo = memo
        before = dict(cl.v); inv.havoc(e, cl, k)
        # what the body assigns and the invariant does not describe is unknown at the start of an iteration
        own = {x for x in cl.v if x not in before or cl.v[x] is not before[x]}; described = [(o, c) for o, c in memo.values() if any(c is before.get(x) for x in own)]
        for x in stored(node.body):
            if x in cl.v and x not in own and x not in inv.keeps: cl.v[x] = Havoc(x)
        body(cl, k); inv.post(e, cl, k)
        for kind, o, key, new in diff(memo, cl):
            if kind in ('newvar', 'var') or any(o is d for d, _ in described) or kind == 'tok' and any(getattr(d, 'tok', None) is o for d, _ in described): continue
            if inv.frame(e, kind, o, key): continue
            raise Unsupported(f'the loop changes a {kind} its invariant does not describe')
        return True
    for r in ctx.explore(go, [k >= inv.peel, k < z(n)]): pass
    inv.memo = None
    b4 = dict(env.v)
    if inv.exit(e, env) == 'unchanged': return
    for x in stored(node.body):
        if x in b4 and env.v.get(x) is b4[x] and x not in inv.keeps: env.v[x] = Havoc(x)
        elif x not in b4 and x not in env.v: env.v[x] = Havoc(x)
