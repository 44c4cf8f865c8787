"""z3 front end: path condition, forking by re-execution (nestable), pointwise proofs, query counters."""
import z3, time
class Abort(Exception):
    """the current path is infeasible"""
class Budget(Exception):
    """exploration budget exhausted: undecided"""
class Frame:
    def __init__(s, prefix): s.prefix = list(prefix); s.pos = 0; s.pending = []; s.taken = []
class Ctx:
    def __init__(s, timeout_ms=10000, max_paths=3000, deadline=None):
        s.timeout = timeout_ms; s.q = 0; s.t = 0.0; s.unknown = 0; s.max_paths = max_paths; s.paths = 0
        s.fresh = 0; s.deadline = deadline; s.interned = {}
        s.solver = z3.SimpleSolver(); s.solver.set('timeout', timeout_ms); s.solver.set('mbqi', False); s.pc = []; s.implied = set(); s.frames = []
        s.inst = {}           # uninterpreted function -> (fact about f(t), fact about f(t), f(u)); instantiated at the ground terms of each query
        s.axioms = {}; s._apps = {}; s._cc = {}; s._ai = {}; s.hide = []
        s.notes = []          # human readable names of interesting input terms, for witnesses
    def var(s, name, sort='int'):
        s.fresh += 1; n = f'{name}!{s.fresh}'
        return z3.Int(n) if sort == 'int' else z3.Real(n) if sort == 'real' else z3.Bool(n)
    def fun(s, name, *sorts):
        s.fresh += 1
        return z3.Function(f'{name}!{s.fresh}', *sorts)
    def assume(s, c):
        if isinstance(c, bool):
            if not c: raise Abort()
            return
        s.pc.append(c); s.solver.add(c)
    def _chk(s, solver):
        if s.deadline and time.time() > s.deadline: raise Budget('time')
        t = time.time(); s.q += 1
        r = solver.check(); s.t += time.time()-t
        if r == z3.unknown: s.unknown += 1
        return str(r)
    def apps(s, e):
        """ground applications of functions with declared facts, in e"""
        i = e.get_id()
        if i in s._apps: return s._apps[i][1]
        out = {}; st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.num_args() == 1 and x.decl().name() in s.inst and not _hasvar(x): out[x.get_id()] = x
                st += x.children()
        s._apps[i] = (e, list(out.values())); return s._apps[i][1]
    def hints(s, extra):
        base = [a for l in s.axioms.values() for a in l]
        if not s.inst: return base
        by = {}
        for e in list(s.pc)+list(extra):
            for a in s.apps(e): by.setdefault(a.decl().name(), {})[a.get_id()] = a
        out = []
        for nm, ts in by.items():
            one, two = s.inst[nm]; ts = list(ts.values())[:24]
            for i, a in enumerate(ts):
                if one: out.append(one(a.arg(0), a))
                if two:
                    for b in ts[:i]: out.append(two(a.arg(0), a, b.arg(0), b))
        return base + out
    def check(s, *extra):
        s.solver.push()
        try: s.solver.add(*extra); s.solver.add(*s.hints(extra)); return s._chk(s.solver)
        finally: s.solver.pop()
    def model(s, *extra):
        s.solver.push()
        try:
            s.solver.add(*extra); s.solver.add(*s.hints(extra))
            return s.solver.model() if s._chk(s.solver) == 'sat' else None
        finally: s.solver.pop()
    def valid(s, c):
        """True: pc => c is proved; False: counter-model; None: unknown"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        r = s.check(z3.Not(c))
        return True if r == 'unsat' else False if r == 'sat' else None
    def valid_hard(s, c):
        """valid, with model-based quantifier instantiation when plain matching does not settle it"""
        r = s.valid(c)
        if r is not None: return r
        h = z3.Solver(); h.set('timeout', s.timeout); h.add(*s.pc); h.add(z3.Not(c)); h.add(*s.hints([c]))
        r = s._chk(h); return True if r == 'unsat' else False if r == 'sat' else None
    def decide(s, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        f = s.frames[-1]
        if f.pos < len(f.prefix):
            b, imp = f.prefix[f.pos]; f.pos += 1
        else:
            fr = s.fresh; t = s.check(s.witness(c)[0]); s.fresh = fr; n = s.check(s.witness(z3.Not(c))[0]); s.fresh = fr
            if t == 'unsat' and n == 'unsat': raise Abort()
            b = t != 'unsat'; imp = t == 'unsat' or n == 'unsat'
            if not imp: f.pending.append(f.taken + [(False, False)])
            f.prefix.append((b, imp)); f.pos += 1
        c = c if b else z3.Not(c)
        f.taken.append((b, imp)); s.assume(c)
        if imp: s.implied.add(len(s.pc)-1)        # follows from the path condition so far
        w, vs = s.witness(c)
        if vs:                                    # name what is claimed to exist
            for v in vs: s.__dict__.setdefault('conserv', []).append((w, v))
            s.assume(w); s.implied.add(len(s.pc)-1)
        return b
    def witness(s, c):
        """c with the things it claims to exist given fresh names"""
        if z3.is_not(c) and z3.is_quantifier(c.arg(0)) and c.arg(0).is_forall(): q, neg = c.arg(0), True
        elif z3.is_quantifier(c) and c.is_exists(): q, neg = c, False
        else: return c, []
        vs = [s.var('wit') if q.var_sort(i) == z3.IntSort() else z3.FreshConst(q.var_sort(i)) for i in range(q.num_vars())]
        b = z3.substitute_vars(q.body(), *reversed(vs))
        return (z3.Not(b) if neg else b), vs
    def explore(s, fn, assume=()):
        """run fn once per feasible path under the current path condition plus `assume`; yields results while the
        path's condition is still in force"""
        work = [[]]; base = len(s.pc); ass = assume
        while work:
            s.paths += 1
            if s.paths > s.max_paths: raise Budget(f'more than {s.max_paths} paths')
            f = Frame(work.pop()); s.frames.append(f); s.solver.push()
            try:
                try:
                    for a in ass: s.assume(a)
                    r = fn()
                except Abort: r = Abort
                if r is not Abort: yield r
            finally:
                s.solver.pop(); del s.pc[base:]; s.implied -= {i for i in s.implied if i >= base}; s.frames.remove(f)
            work += f.pending
    def all(s, fn, assume=()):
        return list(s.explore(fn, assume))
    def forall(s, fn, assume=()):
        """conjunction of the three-valued fn() over all paths under `assume`"""
        out = True
        for r in s.explore(fn, assume):
            if r is False: return False
            if r is None: out = None
        return out
    def pc_consts(s):
        out = set()
        for c in s.pc:
            i = c.get_id(); r = s._cc.get(i)
            if r is None or not r[0].eq(c): r = s._cc[i] = (c, consts((c,)))
            out |= r[1]
        return out
    # -- interned indeterminates
    def atom(s, name, kind='real', *index):
        from .scalar import Atom
        if not index:
            k = (name, kind)
            if k not in s.interned: s.interned[k] = [(index, Atom(name, kind, index))]
            return s.interned[k][0][1]
        l = s.interned.setdefault((name, kind), [])
        key = (name, kind) + tuple(x if isinstance(x, int) else ('e', x.get_id()) if z3.is_expr(x) else ('o', id(x)) for x in index)
        h = s._ai.get(key)
        if h is not None: return h[1]
        mine = consts(index); known = None
        for ix, a in l:
            o = a.ixc = a.ixc if a.ixc is not None else consts(ix)
            if not o <= mine:
                if known is None: known = s.pc_consts()
                if not o <= known | mine: continue       # speaks of an index this path knows nothing about
            if s.valid(eqs(ix, index)) is True: return a
        a = Atom(name, kind, index); l.append((index, a)); s._ai[key] = (index, a); return a
def _hasvar(x):
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y): return True
        st += y.children()
    return False
def consts(ts):
    """names of the constants occurring in terms"""
    out = set(); st = [t for t in ts if z3.is_expr(t)]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0: 
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: st += x.children()
    return out
def same(a, b):
    return len(a) == len(b) and all((x is y) or (isinstance(x, int) and isinstance(y, int) and x == y) or
        (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for x, y in zip(a, b))
def eqs(a, b):
    if len(a) != len(b): return False
    c = [x == y for x, y in zip(a, b)]
    if any(x is False for x in c): return False
    return z3.And(*[x for x in c if x is not True])
def unify(ctx, atoms):
    """map: atom -> representative, for atoms provably equal under the current path condition; ambiguous: two
    atoms of one family whose equality is not determined"""
    rep = {}; amb = False; fam = {}
    for a in sorted(atoms, key=lambda a: a.id):
        if not a.index: continue
        for b in fam.setdefault((a.name, a.kind, a.conjd), []):
            v = ctx.valid(eqs(a.index, b.index))
            if v is True: rep[a] = b; break
            if v is None or ctx.valid(z3.Not(eqs(a.index, b.index))) is not True: amb = True
        else: fam[(a.name, a.kind, a.conjd)].append(a)
    return rep, amb
def peq(ctx, x, y):
    """are two scalars equal for every value of their atoms? True / False / None"""
    from .scalar import P
    x, y = P.const(x), P.const(y)
    if x == y: return True
    rep, amb = unify(ctx, x.atoms() | y.atoms())
    if rep:
        f = lambda a: P.atom(rep[a]) if a in rep else None
        if x.subs(f) == y.subs(f): return True
    return None if amb else False
