"""Obligations: generated from /repo's current source on every run and discharged path by path."""
import os, sys, time, json, traceback, multiprocessing as mp, random, signal
import z3
from .scalar import P, Unsupported, Atom
from .smt import Ctx, Abort, Budget
from .vals import Exc, Dim, SL, simp, z
from .interp import Interp, Repo, PyObj, Ret, Brk, Cnt
from .tensor import T, StateT, PermBad
from . import tensor as TT, nc as N_
REPO = os.environ.get('DV_REPO', '/repo')
class Failed(Exception):
    """a conjunct of the contract is refuted on the current path"""
class Ob:
    def __init__(s, name, fn, *args, bounded=None, fns=(), alts=(), **kw):
        s.alts = alts
        s.name, s.fn, s.args, s.kw, s.bounded = name, fn, args, kw, bounded
class E:
    """one path of one obligation"""
    def __init__(s, ctx, repo, contracts, rec):
        s.ctx = ctx; s.I = Interp(ctx, repo, contracts); s.rec = rec; s.note = None; s.checks = 0; s.result = True
        s.bad = None; s.soft = False       # soft: an unprovable step of an annotated invariant is not a counterexample
    # inputs
    def N(s, lo=1, name='N'):
        n = z3.Int(name); s.ctx.assume(n >= lo); s.Nv = n; return n
    def wires(s, k, N, name='w', distinct=True, valid=True):
        w = [z3.Int(f'{name}{i}') for i in range(k)]
        if valid:
            for x in w: s.ctx.assume(z3.And(x >= 0, x < N))
        if distinct:
            for i in range(k):
                for j in range(i): s.ctx.assume(w[i] != w[j])
        return w
    def wirelist(s, N, lo=1, name='wires', distinct=True, valid=True):
        """symbolic list of wires"""
        L = z3.Int(f'len_{name}'); f = z3.Function(name, z3.IntSort(), z3.IntSort()); ctx = s.ctx
        ctx.assume(L >= lo)
        inr = lambda t: z3.And(t >= 0, t < L)
        ctx.inst[name] = ((lambda t, a: z3.Implies(inr(t), z3.And(a >= 0, a < N))) if valid else None,
                          (lambda t, a, u, b: z3.Implies(z3.And(inr(t), inr(u), t != u), a != b)) if distinct else None)
        if distinct: ctx.assume(L <= N)
        l = SL(L, lambda q: f(z(q))); l._isint = True; l.fn = f
        return l
    def params(s, n, name='th'): return [P.atom(s.ctx.atom(f'{name}{i}')) for i in range(n)]
    # running the real code
    def get(s, path): return s.I.get(path)
    def call(s, f, *args, **kw): return s.I.call(f, list(args), kw)
    def meth(s, o, name, *args, **kw): return s.I.call(s.I.getattr(o, name), list(args), kw)
    # conclusions
    def check(s, name, r, detail=''):
        s.checks += 1
        if r is True: return True
        if s.soft and r is False: r = None; detail = 'not inductive: '+detail
        if r is False and not s.ctx.__dict__.get('tainted') and s.ctx.check() == 'sat':
            s.bad = (name, detail); raise Failed(name)
        s.result = None; s.rec['undecided'].append(f'{name} {detail}'.strip()); return False
    def eq(s, name, got, want):
        """two NC matrices / tensors / scalars are equal for every value of the inputs"""
        ctx = s.ctx
        if isinstance(got, T): 
            g = TT.as_nc(got)
            if g is None: return s.check(name, None, 'blocked matrix')
            got = g
        ctx.only = []
        r = N_.nc_eq(ctx, got, want)
        if r is False and ctx.only:          # shown different for these inputs only
            if ctx.check(*ctx.only) == 'sat':
                for c in ctx.only: ctx.assume(c)
            else: r = None
        return s.check(name, r, '' if r is True else f'got {got}; expected {want}'[:1500])
    def fail(s, name, detail=''): s.bad = (name, detail); raise Failed(name)
def instance(model, t, seed=0):
    """concrete value of a template under a z3 model"""
    rng = random.Random(seed)
    def num_of(x):
        from .scalar import num
        env = {}
        for a in x.atoms():
            r = z3.Real(str(a)); v = model.eval(r)
            env[a] = float(v.as_fraction()) if z3.is_rational_value(v) else rng.uniform(-3, 3)
        return num(x, env).real
    def rec(x):
        if isinstance(x, dict): return {k: rec(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [rec(v) for v in x]
        if isinstance(x, SL):
            n = rec(x.n); return [rec(x.get(None, i)) for i in range(n)]
        if isinstance(x, P): return num_of(x)
        if z3.is_expr(x):
            v = model.eval(x, model_completion=True)
            return v.as_long() if z3.is_int_value(v) else (z3.is_true(v) if z3.is_bool(v) else float(v.as_fraction()))
        if isinstance(x, Dim): return x.k*2**rec(x.e)
        if callable(x): return x(rec)
        return x
    return rec(t)
def small_model(ctx, N):
    for k in (1, 2, 3, 4, 5, 6):
        m = ctx.model(N <= k) if N is not None else ctx.model()
        if m is not None: return m
        if N is None: return None
    return None
def run_ob(ob, repo, contracts, timeout, maxpaths=400, seed=0):
    """decide one obligation. returns a plain dict. An obligation may offer several annotations (loop invariants) of the same
    contract; it is discharged when every obligation generated from one of them is."""
    first = None; t0 = time.time()
    for v in [{}]+list(getattr(ob, 'alts', ())):
        left = timeout-(time.time()-t0)
        if first is not None and (left < 1 or first['status'] != 'undecided'): break
        r = run_ob1(ob, repo, contracts, left, maxpaths, seed, v)
        if r['status'] == 'proved' and first is not None: r['wall'] = round(time.time()-t0, 3)
        if first is None or r['status'] == 'proved': first = r
    return first
def run_ob1(ob, repo, contracts, timeout, maxpaths, seed, alt):
    t0 = time.time()
    ctx = Ctx(timeout_ms=5000, max_paths=20000, deadline=t0+timeout)
    rec = dict(undecided=[], called=set(), used=set(), paths=0, checks=0, witnesses=[], assumed=set())
    status = 'proved'; detail = ''; wit = None
    cons = {}
    for q, h in contracts.items():
        def wrap(I, fn, args, kw, q=q, h=h):
            r = h(I, fn, args, kw)
            if r is not NotImplemented: rec['used'].add(q)
            return r
        cons[q] = wrap
    def go():
        e = E(ctx, repo, cons, rec)
        r = True; why = ''
        try:
            ob.fn(e, *ob.args, **{**ob.kw, **alt})
            r = e.result
        except Failed as f:
            r = False; why = f'{e.bad[0]}: {e.bad[1]}'
        except Exc as x:
            r = False; why = f'the code raises {x.typ}: {x.msg}'
            if ctx.__dict__.get('tainted') or ctx.check() != 'sat': r = None
        except PermBad: r = None; why = 'axis list is not a permutation'
        except Unsupported as x: r = None; why = f'unsupported: {x}' + where()
        except RecursionError: r = None; why = 'recursion'
        except (Ret, Brk, Cnt): r = None; why = 'control'
        except Abort: raise
        except Budget: raise
        except z3.Z3Exception as x: r = None; why = f'z3: {x}' + where()
        except Exception as x: r = None; why = f'engine: {type(x).__name__}: {x}' + where()
        rec['called'] |= e.I.called; rec['paths'] += 1; rec['checks'] += e.checks
        w = None
        if e.note is not None and (r is not True or len(rec['witnesses']) < 12):
            try:
                m = small_model(ctx, getattr(e, 'Nv', None))
                if m is not None: w = instance(m, e.note, seed)
            except Exception: w = None
        return r, why, w, e.checks
    try:
        for r, why, w, nchk in ctx.explore(go):
            if w is not None:
                rec['witnesses'].append(w)
            if r is False:
                status = 'refuted'; detail = why; wit = w; break
            if r is None:
                status = 'undecided'
                if why: rec['undecided'].append(why)
            if nchk == 0 and r is True: status = 'undecided'; rec['undecided'].append('path without a check')
            if len(rec['undecided']) > 20: break
    except Budget as b: status = 'undecided'; detail = f'budget: {b}'
    except Exception as x:
        status = 'undecided'; detail = f'engine: {type(x).__name__}: {x}' + where()
    if status == 'proved' and (rec['paths'] == 0 or rec['checks'] == 0): status = 'undecided'; detail = 'vacuous: no feasible path reached a check'
    if status == 'undecided' and not detail: detail = '; '.join(dict.fromkeys(rec['undecided']))[:1200]
    return dict(name=ob.name, status=status, bounded=ob.bounded, detail=detail[:3000], paths=rec['paths'], checks=rec['checks'], queries=ctx.q, unknown=ctx.unknown,
                solver_s=round(ctx.t, 3), wall=round(time.time()-t0, 3), called=sorted(rec['called']), used=sorted(rec['used']), witness=wit, witnesses=rec['witnesses'][:12])
def where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    f = [x for x in tb if '/dv/' in x.filename]
    return ' @ ' + ' < '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in reversed(f[-4:]))
_G = {}
def _work(i):
    ob = _G['obs'][i]
    try:
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(_G['timeout']*1.5)+10)
        r = run_ob(ob, _G['repo'], _G['contracts'], _G['timeout'], seed=_G['seed'])
        signal.alarm(0); return i, r
    except BaseException as x:
        return i, dict(name=ob.name, status='undecided', bounded=ob.bounded, detail=f'engine: {type(x).__name__} {x}', paths=0, checks=0, queries=0, unknown=0, solver_s=0, wall=0, called=[], used=[], witness=None, witnesses=[])
def _alarm(*a): raise TimeoutError('obligation time limit')
def prove_all(obs, contracts, timeout=60, jobs=8, seed=0, total=None):
    _G.update(obs=obs, repo=Repo(REPO), contracts=contracts, timeout=timeout, seed=seed)
    sys.setrecursionlimit(20000)
    out = [None]*len(obs)
    if not obs: return []
    with mp.get_context('fork').Pool(min(jobs, len(obs)), maxtasksperchild=8) as pool:
        t0 = time.time()
        it = pool.imap_unordered(_work, range(len(obs)))
        for _ in range(len(obs)):
            try:
                i, r = it.next(timeout=None if total is None else max(0.1, total-(time.time()-t0)))
                out[i] = r
            except (mp.TimeoutError, StopIteration): break
        pool.terminate()
    for i, r in enumerate(out):
        if r is None: out[i] = dict(name=obs[i].name, status='undecided', bounded=obs[i].bounded, detail='total time budget', paths=0, checks=0, queries=0, unknown=0, solver_s=0, wall=0, called=[], used=[], witness=None, witnesses=[])
    return out
