"""Symbolic interpreter of the Python subset the repository is written in. It reads /repo's current source with `ast`
on every run; nothing of the verified text is copied or translated by hand. Anything outside the subset raises
Unsupported, which makes the obligation undecided (never proved, never refuted)."""
import ast, os, z3, builtins
from fractions import Fraction as Fr
from .scalar import P, Unsupported, PI, Atom
from .vals import *
from .vals import z
from . import tensor as TT
from .tensor import T, StateT, small, scal, PermBad
from . import perm as PERM
from .smt import Abort

class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cnt(Exception): pass
class TypeTok:
    def __init__(s, name, call=None): s.name, s.call = name, call
    def __eq__(s, o): return isinstance(o, TypeTok) and o.name == s.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return f'<type {s.name}>'
class Mod:
    def __init__(s, name): s.name = name
class Ext:
    """name in an external module"""
    def __init__(s, path): s.path = path
    def __repr__(s): return s.path
class Fn:
    def __init__(s, node, mod, qual, closure=None, cls=None, static=False):
        s.node, s.mod, s.qual, s.closure, s.cls, s.static = node, mod, qual, closure, cls, static
        s.defaults = None
    def __repr__(s): return f'<fn {s.qual}>'
class Cls:
    def __init__(s, name, bases, mod): s.name, s.bases, s.mod, s.ns = name, bases, mod, {}
    def mro(s):
        out = [s]
        for b in s.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out
    def find(s, n):
        for c in s.mro():
            if n in c.ns: return c.ns[n]
        return None
    def ext_base(s): return [b for c in s.mro() for b in c.bases if not isinstance(b, Cls)]
    def __repr__(s): return f'<class {s.name}>'
class Bound:
    def __init__(s, fn, self_): s.fn, s.self_ = fn, self_
class BMeth:
    """method of a modelled value"""
    def __init__(s, obj, name): s.obj, s.name = obj, name
class Super:
    def __init__(s, obj, cls): s.obj, s.cls = obj, cls
class Dict:
    def __init__(s, d=None): s.d = d or {}
class Env:
    def __init__(s, mod, parent=None, fn=None): s.v, s.mod, s.parent, s.fn = {}, mod, parent, fn
# library functions over sequences of symbolic length, as Python run by the interpreter itself
PRELUDE = """
def reduce1(f, seq):
    r = seq[0]
    for x in seq[1:]: r = f(r, x)
    return r
def reduce2(f, seq, r):
    for x in seq: r = f(r, x)
    return r
def any1(seq):
    for x in seq:
        if x: return True
    return False
def all1(seq):
    for x in seq:
        if not x: return False
    return True
def sum1(seq, r):
    for x in seq: r = r + x
    return r
def all_m1(m, a):
    for i in range(a):
        if not m[i]: return False
    return True
def all_m2(m, a, b):
    for i in range(a):
        for j in range(b):
            if not m[i, j]: return False
    return True
def any_m1(m, a):
    for i in range(a):
        if m[i]: return True
    return False
def any_m2(m, a, b):
    for i in range(a):
        for j in range(b):
            if m[i, j]: return True
    return False
"""
class Repo:
    """lazily parsed modules of the repository package"""
    def __init__(s, root):
        s.root = root; s.trees = {'_dvprelude': ast.parse(PRELUDE)}; s.src = {}
    def path(s, mod):
        p = os.path.join(s.root, *mod.split('.'))
        if os.path.isdir(p): p = os.path.join(p, '__init__')
        return p + '.py'
    def tree(s, mod):
        if mod not in s.trees:
            p = s.path(mod)
            if not os.path.exists(p): s.trees[mod] = None
            else:
                src = open(p, encoding='utf8').read(); s.src[mod] = src; s.trees[mod] = ast.parse(src)
        return s.trees[mod]
class ModNS:
    def __init__(s, I, name): s.I, s.name, s.v, s.pend = I, name, {}, {}
MAXDEPTH = 60
class Interp:
    def __init__(s, ctx, repo, contracts=None, ext=None):
        s.ctx, s.repo = ctx, repo; s.mods = {}; s.contracts = contracts or {}; s.quants = {}; s.skip = set(); s.depth = 0
        from . import torchmod
        torchmod.init_once()
        s.ext = dict(torchmod.EXT); s.ext.update(ext or {})
        s.loops = None; s.cur = None; s.envs = []; s.roots = []; s.called = set(); s.steps = 0; s.nograd = 0; s.hooks = []; s.loopinv = {}; s.st_cache = {}; s.st_keep = []
        from . import loops
        s.loopmod = loops
    # ---------------------------------------------------------------- modules
    def module(s, name):
        if name in s.mods: return s.mods[name]
        t = s.repo.tree(name)
        if t is None: return None
        m = ModNS(s, name); s.mods[name] = m
        env = Env(m)
        env.v = m.v
        s.modbody(t.body, m, env)
        return m
    def modbody(s, body, m, env):
        for st in body:
            if isinstance(st, (ast.FunctionDef,)): m.v[st.name] = Fn(st, m, f'{m.name}.{st.name}')
            elif isinstance(st, ast.ClassDef): m.pend[st.name] = ('class', st); m.v.pop(st.name, None)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname: m.v[a.asname] = s.modref(a.name)
                    else: m.v[a.name.split('.')[0]] = s.modref(a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                if st.level:
                    base = m.name.split('.')
                    isp = os.path.isdir(os.path.join(s.repo.root, *base))
                    base = base if isp else base[:-1]
                    base = base[:len(base)-(st.level-1)] if st.level > 1 else base
                    src = '.'.join(base + ([st.module] if st.module else []))
                else: src = st.module
                for a in st.names:
                    if a.name != '*': m.pend[a.asname or a.name] = ('from', src, a.name)
                    else: m.pend.setdefault('*', ('star', []))[1].append(src)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                m.pend[st.targets[0].id] = ('expr', st.value)
            elif isinstance(st, ast.If): 
                if isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__': continue
            # other module-level statements have no influence on the functions
    def modref(s, name):
        if name.split('.')[0] == 'deepquantum': return Mod(name)
        return Ext(name)
    def modget(s, m, name):
        if name in m.v: return m.v[name]
        if name in m.pend:
            k = m.pend[name]
            if k[0] == 'class': v = s.mkclass(k[1], m)
            elif k[0] == 'from':
                if k[1].split('.')[0] == 'deepquantum':
                    sub = s.module(k[1])
                    v = s.modget(sub, k[2]) if sub else None
                    if v is None and s.repo.tree(k[1]+'.'+k[2]) is not None: v = Mod(k[1]+'.'+k[2])
                else: v = Ext(k[1]+'.'+k[2])
            elif k[0] == 'expr':
                v = s.ev(k[1], Env(m))
            m.v[name] = v; return v
        for src in (m.pend.get('*') or (0, []))[1]:
            if src.split('.')[0] == 'deepquantum':
                sub = s.module(src)
                if sub:
                    v = s.modget(sub, name)
                    if v is not None: return v
        return None
    def mkclass(s, node, m):
        bases = [s.ev(b, Env(m)) for b in node.bases]
        c = Cls(node.name, [b for b in bases if not (isinstance(b, TypeTok) and b.name == 'object')], m)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                dec = [d.id for d in st.decorator_list if isinstance(d, ast.Name)]
                f = Fn(st, m, f'{m.name}.{node.name}.{st.name}', cls=c, static='staticmethod' in dec)
                f.prop = 'property' in dec; f.clsm = 'classmethod' in dec
                c.ns[st.name] = f
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                c.ns[st.targets[0].id] = ('lazy', st.value, m)
        return c
    def get(s, path):
        """function/class object from 'deepquantum.gates.qoperator.rx.U_expand'"""
        parts = path.split('.')
        for i in range(len(parts), 0, -1):
            if s.repo.tree('.'.join(parts[:i])) is not None:
                m = s.module('.'.join(parts[:i])); o = s.modget(m, parts[i])
                for p in parts[i+1:]:
                    o = o.find(p)
                return o
        raise Unsupported(f'{path} not found')
    # ---------------------------------------------------------------- names
    def lookup(s, n, env):
        e = env
        while e is not None:
            if n in e.v:
                v = e.v[n]
                if isinstance(v, s.loopmod.LoopTemp):
                    t = v; v = t.force()
                    if t.done: e.v[n] = v
                return v
            e = e.parent
        v = s.modget(env.mod, n)
        if v is not None: return v
        if n in s.ext: return Ext(n) if not isinstance(s.ext[n], TypeTok) else s.ext[n]
        raise Exc('NameError', n) if hasattr(builtins, n) is False else Unsupported(f'builtin {n}')
    # ---------------------------------------------------------------- calls
    def cut(s, r):
        """results computed under torch.no_grad() are cut from the autograd graph"""
        if not s.nograd: return r
        from .torchmod import detach
        return detach(r)
    def call(s, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound): return s.call_fn(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Fn): return s.call_fn(f, list(args), kw)
        if isinstance(f, Cls): return s.instantiate(f, args, kw)
        if isinstance(f, BMeth):
            from . import torchmod
            return s.cut(torchmod.method(s, f.obj, f.name, list(args), kw))
        if isinstance(f, TypeTok):
            if f.call: return f.call(s, args, kw)
            if f.name.endswith(('Error', 'Exception', 'Warning')): return ExcVal(f.name, args)
            raise Unsupported(f'calling {f}')
        if isinstance(f, Ext):
            h = s.ext.get(f.path)
            if h is None and f.path.startswith('torch.') and f.path[6:] in FUNC_AS_METHOD and args:
                from . import torchmod
                return s.cut(torchmod.method(s, args[0], f.path[6:], list(args[1:]), kw))
            if h is None: raise Unsupported(f'external function {f.path}')
            if isinstance(h, TypeTok): return s.call(h, args, kw)
            if not callable(h): raise Unsupported(f'calling {f.path}')
            return s.cut(h(s, list(args), kw))
        if isinstance(f, PyObj):
            c = f.cls.find('__call__') or (f.cls.find('forward') if f.cls.ext_base() else None)
            if c: return s.call_fn(c, [f]+list(args), kw)
        if callable(f) and not isinstance(f, type): return f(s, list(args), kw)
        raise Unsupported(f'call of {type(f).__name__}')
    def instantiate(s, c, args, kw):
        h = s.contracts.get(f'{c.mod.name}.{c.name}')
        if h and f'{c.mod.name}.{c.name}' not in s.skip: 
            r = h(s, c, list(args), kw)
            if r is not NotImplemented: return r
        o = PyObj(c)
        for b in c.ext_base():
            if isinstance(b, Ext) and b.path in ('torch.nn.Module', 'nn.Module'): o.attrs['training'] = True
            elif isinstance(b, Ext): raise Unsupported(f'subclass of {b.path}')
        i = c.find('__init__')
        if i: s.call_fn(i, [o]+list(args), kw)
        elif args or kw: raise Exc('TypeError', f'{c.name}() takes no arguments')
        return o
    def bind(s, fn, args, kw):
        a = fn.node.args; env = Env(fn.mod, fn.closure, fn)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg: raise Exc('TypeError', f'{fn.qual}() takes {len(names)} arguments, {len(args)} given')
        for n, v in zip(names, args): env.v[n] = v
        if a.vararg: env.v[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]; extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env.v: raise Exc('TypeError', f'multiple values for {k}')
                env.v[k] = v
            elif a.kwarg: extra[k] = v
            else: raise Exc('TypeError', f'unexpected argument {k}')
        if a.kwarg: env.v[a.kwarg.arg] = Dict(extra)
        d = a.defaults
        for n, dv in zip(names[len(names)-len(d):], d):
            if n not in env.v: env.v[n] = s.ev(dv, Env(fn.mod, fn.closure))
        for n, dv in zip(kwonly, a.kw_defaults):
            if n not in env.v and dv is not None: env.v[n] = s.ev(dv, Env(fn.mod, fn.closure))
        for n in names+kwonly:
            if n not in env.v: raise Exc('TypeError', f'missing argument {n}')
        return env
    def call_fn(s, fn, args, kw):
        h = s.contracts.get(fn.qual)
        if h and fn.qual not in s.skip:
            r = h(s, fn, args, kw)
            if r is not NotImplemented: return r
        return s.run_fn(fn, args, kw)
    def run_fn(s, fn, args, kw):
        if isinstance(fn.node, ast.Lambda):
            env = s.bind(fn, args, kw); return s.ev(fn.node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fn.node)): raise Unsupported('generator')
        ng = 0
        for d in getattr(fn.node, 'decorator_list', ()):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'): continue
            t = ast.unparse(d)
            if t in ('torch.no_grad()', 'torch.no_grad', 'torch.inference_mode()', 'no_grad()'): ng = 1; continue
            if t in ('torch.enable_grad()', 'functools.wraps') : continue
            raise Unsupported(f'decorator {t}')
        s.called.add(fn.qual); s.depth += 1
        if s.depth > MAXDEPTH: s.depth -= 1; raise Unsupported('recursion depth')
        try:
            env = s.bind(fn, args, kw); s.envs.append(env); s.nograd += ng
            try: s.block(fn.node.body, env)
            except Ret as r: return r.v
            finally: s.envs.pop(); s.nograd -= ng
            return None
        finally: s.depth -= 1
    def become(s, old, new, env):
        """a Python list object turns into a list of symbolic length: every reference is redirected"""
        seen = set()
        def r(v):
            if v is old: return new
            if id(v) in seen: return v
            if isinstance(v, PyObj):
                seen.add(id(v))
                for k in list(v.attrs): v.attrs[k] = r(v.attrs[k])
            elif isinstance(v, list):
                seen.add(id(v)); v[:] = [r(x) for x in v]
            elif isinstance(v, Dict):
                seen.add(id(v)); v.d = {k: r(x) for k, x in v.d.items()}
            elif isinstance(v, tuple) and any(x is old for x in v): return tuple(r(x) for x in v)
            return v
        for e in s.envs + [env]:
            while e is not None and not isinstance(e, ModNS):
                for k in list(e.v): e.v[k] = r(e.v[k])
                e = e.parent
        for o in s.roots: r(o)
    # ---------------------------------------------------------------- statements
    def block(s, body, env):
        for st in body: s.stmt(st, env)
    def stmt(s, n, env):
        s.steps += 1
        if s.steps > 400000: raise Unsupported('too many steps')
        m = getattr(s, 'st_' + type(n).__name__, None)
        if m is None: raise Unsupported(f'statement {type(n).__name__} at line {n.lineno}')
        old = s.cur; s.cur = env
        try: m(n, env)
        finally: s.cur = old
    def st_Pass(s, n, e): pass
    def st_Expr(s, n, e):
        if isinstance(n.value, ast.Constant): return
        s.ev(n.value, e)
    def st_Return(s, n, e): raise Ret(s.ev(n.value, e) if n.value else None)
    def st_Break(s, n, e): raise Brk()
    def st_Continue(s, n, e): raise Cnt()
    def st_Global(s, n, e): raise Unsupported('global statement')
    def st_Import(s, n, e):
        for a in n.names: e.v[a.asname or a.name.split('.')[0]] = s.modref(a.name if a.asname else a.name.split('.')[0])
    def st_ImportFrom(s, n, e):
        for a in n.names:
            if n.module.split('.')[0] == 'deepquantum': e.v[a.asname or a.name] = s.modget(s.module(n.module), a.name)
            else: e.v[a.asname or a.name] = Ext(n.module+'.'+a.name)
    def st_FunctionDef(s, n, e): e.v[n.name] = Fn(n, e.mod, f'{e.mod.name}.<local>.{n.name}', closure=e)
    def st_Assign(s, n, e):
        v = s.ev(n.value, e)
        for t in n.targets: s.assign(t, v, e)
    def st_AnnAssign(s, n, e):
        if n.value is not None: s.assign(n.target, s.ev(n.value, e), e)
    def st_AugAssign(s, n, e):
        t = n.target
        import copy as _c
        load = _c.copy(t); load.ctx = ast.Load()
        if isinstance(t, ast.Subscript):
            o = s.ev(t.value, e); i = s.index(t.slice, e)
            cur = s.getitem(o, i)
            v = s.iop(n.op, cur, s.ev(n.value, e)); s.setitem(o, i, v)
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value, e); v = s.iop(n.op, s.getattr(o, t.attr), s.ev(n.value, e)); s.setattr(o, t.attr, v)
        else:
            v = s.iop(n.op, s.ev(load, e), s.ev(n.value, e)); s.assign(t, v, e)
    def iop(s, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add):
            from .torchmod import seq, grow
            r = seq(s, b)
            if isinstance(r, SL): return grow(s, a, r)
            a.extend(s.concrete(b)); return a
        if isinstance(a, SL) and a.kind == 'list' and hasattr(a, 'appended') and isinstance(op, ast.Add):
            from .torchmod import acc_extend
            acc_extend(s, a, b); return a
        if isinstance(a, SL) and a.kind == 'list' and isinstance(op, ast.Add):
            r = s.binop(ast.Add(), a.copy(), s.tolist(b)); a.n, a.base, a.base_const, a.stores = r.n, r.base, r.base_const, r.stores; return a
        r = s.binop(op, a, b)
        if isinstance(a, T) and isinstance(r, T):
            # in-place: the object keeps its identity
            if a.shape() != r.shape() and not (a.axes is not None or r.axes is not None): raise Exc('RuntimeError', 'in-place shape change')
            a.arr, a.axes = r.arr, r.axes; a.written(); return a
        if isinstance(a, StateT): a.tok.written = True
        return r
    def assign(s, t, v, e):
        if isinstance(t, ast.Name): e.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i, m = st[0], len(t.elts)-1-st[0]; l = s.concrete(v, soft=True)
                if l is None:
                    l = s.as_sl(v)
                    if s.ctx.decide(z(l.n) < len(t.elts)-1): raise Exc('ValueError', 'unpack')
                elif len(l) < len(t.elts)-1: raise Exc('ValueError', 'unpack')
                rest = s.getitem(l, slice(i, -m if m else None)); rest = list(rest) if isinstance(rest, (list, tuple)) else s.tolist(rest)
                for k, x in enumerate(t.elts): s.assign(x.value if k == i else x, rest if k == i else s.getitem(l, k if k < i else k-len(t.elts)), e)
                return
            vs = s.concrete(v)
            if len(vs) != len(t.elts): raise Exc('ValueError', 'unpack')
            for x, y in zip(t.elts, vs): s.assign(x, y, e)
        elif isinstance(t, ast.Attribute): s.setattr(s.ev(t.value, e), t.attr, v)
        elif isinstance(t, ast.Subscript): s.setitem(s.ev(t.value, e), s.index(t.slice, e), v)
        else: raise Unsupported('assignment target')
    def st_Delete(s, n, e):
        for t in n.targets:
            if isinstance(t, ast.Name): del e.v[t.id]
            elif isinstance(t, ast.Subscript):
                o = s.ev(t.value, e)
                from . import torchmod
                torchmod.method(s, o, 'pop', [s.index(t.slice, e)], {})
            else: raise Unsupported('del')
    def st_If(s, n, e):
        s.block(n.body if s.truth(s.ev(n.test, e)) else n.orelse, e)
    def st_Assert(s, n, e):
        if not s.truth(s.ev(n.test, e)): raise Exc('AssertionError', '')
    def st_Raise(s, n, e):
        if n.exc is None: raise Exc('Exception', 're-raise')
        v = s.ev(n.exc, e)
        if isinstance(v, ExcVal): raise Exc(v.typ, str(v.args[0]) if v.args else '')
        if isinstance(v, TypeTok): raise Exc(v.name, '')
        raise Unsupported('raise')
    def st_Try(s, n, e):
        try:
            try:
                s.block(n.body, e)
            except Exc as x:
                for h in n.handlers:
                    names = None if h.type is None else [q.name if isinstance(q, TypeTok) else None for q in s.concrete_or(s.ev(h.type, e))]
                    if names is None or 'Exception' in names or 'BaseException' in names or x.typ in names \
                       or ('LookupError' in names and x.typ in ('IndexError', 'KeyError')):
                        if h.name: e.v[h.name] = ExcVal(x.typ, (x.msg,))
                        s.block(h.body, e); break
                else: raise
            else: s.block(n.orelse, e)
        finally:
            if n.finalbody: s.block(n.finalbody, e)
    def concrete_or(s, v): return list(v) if isinstance(v, (tuple, list)) else [v]
    def st_With(s, n, e):
        ng = 0
        for it in n.items:
            v = it.context_expr
            src = ast.unparse(v)
            if src in ('torch.no_grad()',): ng += 1
            else: raise Unsupported(f'with {src}')
        s.nograd += ng
        try: s.block(n.body, e)
        finally: s.nograd -= ng
    def st_While(s, n, e):
        if s.counting(n, e): return
        k = 0
        while s.truth(s.ev(n.test, e)):
            k += 1
            if k > 64: raise Unsupported('while loop')
            try: s.block(n.body, e)
            except Brk: return
            except Cnt: continue
        s.block(n.orelse, e)
    def counting(s, n, e):
        """while i < E: ..; i += 1   with E unchanged by the body: the same as a for loop over range(i, E)"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1): return False
        l, op, r = t.left, type(t.ops[0]).__name__, t.comparators[0]
        st = n.body[-1] if n.body else None; nm = step = None
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)) and isinstance(st.value, ast.Constant) and type(st.value.value) is int:
            nm, step = st.target.id, st.value.value * (1 if isinstance(st.op, ast.Add) else -1)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)) and isinstance(st.value.left, ast.Name) \
                and st.value.left.id == st.targets[0].id and isinstance(st.value.right, ast.Constant) and type(st.value.right.value) is int:
            nm, step = st.targets[0].id, st.value.right.value * (1 if isinstance(st.value.op, ast.Add) else -1)
        if nm is None or step == 0: return False
        if isinstance(r, ast.Name) and r.id == nm and not (isinstance(l, ast.Name) and l.id == nm): l, r, op = r, l, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op)
        if not (isinstance(l, ast.Name) and l.id == nm) or op not in ({'Lt', 'LtE'} if step > 0 else {'Gt', 'GtE'}): return False
        body = n.body[:-1]
        if not body or nm not in e.v or not is_int(e.v[nm]): return False
        stored = set(); attrs = set(); used = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Continue, ast.Break, ast.While, ast.FunctionDef, ast.Lambda, ast.Delete)): return False
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): stored.add(x.id)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): attrs.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name): used.add(x.func.value.id)
        if nm in stored: return False
        for x in ast.walk(r):
            if isinstance(x, ast.Name) and (x.id in stored or x.id == nm): return False
            if isinstance(x, ast.Attribute) and x.attr in attrs: return False
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max', 'int', 'abs') and all(not (isinstance(y, ast.Name) and y.id in used) for a in x.args for y in ast.walk(a))): return False
        E = s.ev(r, e); i0 = e.v[nm]
        if not is_int(E): return False
        stop = E if op in ('Lt', 'Gt') else s.binop(ast.Add(), E, 1 if step > 0 else -1)
        nx = s.st_cache.get(id(n))
        if nx is None:
            it = ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ast.Name(id='__i0', ctx=ast.Load()), ast.Name(id='__stop', ctx=ast.Load()), ast.Constant(value=step)], keywords=[])
            tgt = ast.Name(id=nm, ctx=ast.Store())
            nx = ast.copy_location(ast.For(target=tgt, iter=it, body=body, orelse=[], type_comment=None), n); ast.fix_missing_locations(nx)
            s.st_cache[id(n)] = nx; s.st_keep.append(n)
        d = s.binop(ast.Sub(), stop, i0) if step > 0 else s.binop(ast.Sub(), i0, stop); m = abs(step)
        c = s.binop(ast.FloorDiv(), s.binop(ast.Add(), d, m-1), m)
        pos = s.truth(s.cmp(ast.Gt(), d, 0))
        if not pos: return True if not n.orelse else (s.block(n.orelse, e), True)[1]
        end = s.binop(ast.Add(), i0, s.binop(ast.Mult(), c, step))
        del e.v[nm]
        e.v.update(__i0=i0, __stop=stop)
        try: s.stmt(nx, e)
        finally:
            for k in ('__i0', '__stop'): e.v.pop(k, None)
        e.v[nm] = end
        if n.orelse: s.block(n.orelse, e)
        return True
    def st_For(s, n, e):
        it = s.ev(n.iter, e)
        try: vals = s.concrete(it, soft=True)
        except Unsupported: vals = None
        if vals is None: n, it = s.guarded(n, it, e)
        if vals is not None:
            for v in vals:
                s.assign(n.target, v, e)
                try: s.block(n.body, e)
                except Brk: return
                except Cnt: continue
            s.block(n.orelse, e); return
        h = (s.loopinv.get(e.fn.qual) if e.fn is not None else None) or s.loopinv.get('*')
        if h is not None:
            r = h(s, n, it, e)
            if r is not NotImplemented: return
        s.loopmod.for_loop(s, n, it, e)
    def guarded(s, n, it, e):
        """for t in it: if cond: x.append(..)   and   for t in it: if cond: continue; x.append(..)   as loops over the filtered list"""
        app = lambda st: isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'append'
        b = n.body; c = None
        if n.orelse: return n, it
        if len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and app(b[0].body[0]): c, body = b[0].test, b[0].body
        elif len(b) == 2 and isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Continue) and app(b[1]): c, body = ast.UnaryOp(ast.Not(), b[0].test), b[1:]
        if c is None: return n, it
        fl = PERM.filtered(s, [c], n.target, it, e)
        if fl is None: return n, it
        k = (id(n), 'guarded')
        if k not in s.quants:
            st = ast.copy_location(ast.For(n.target, n.iter, body, []), n); ast.fix_missing_locations(st); s.quants[k] = (st, n)
        return s.quants[k][0], fl
    # ---------------------------------------------------------------- helpers
    def concrete(s, v, soft=False):
        """Python list of the elements of an iterable of concrete length"""
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, range): return list(v)
        if isinstance(v, SL):
            if isinstance(v.n, int): return [v.get(s.ctx, i) for i in range(v.n)]
            if s.ctx.valid(z(v.n) <= 0) is True: return []
            m = s.small_n(v.n)
            if m is not None: return [v.get(s.ctx, i) for i in range(m)]
        if isinstance(v, Dict): return list(v.d.keys())
        if isinstance(v, str): return list(v)
        if isinstance(v, T) and v.is_small() and v.arr.ndim: return [TT.getitem(s.ctx, v, i) for i in range(v.arr.shape[0])]
        if isinstance(v, Lazy): return s.concrete(v.value(s), soft)
        if type(v).__name__ in ('VecT', 'FunT'):
            m = v.n if type(v).__name__ == 'VecT' else v.sh[0]
            if not isinstance(m, int): m = s.small_n(m) if z3.is_expr(m) else None
            if m is not None: return [s.getitem(v, i) for i in range(m)]
        if soft: return None
        raise Unsupported(f'iterating {type(v).__name__} of {getattr(v, "n", None)}')
    def small_n(s, n):
        """concrete value of n if the path condition determines it"""
        m = s.ctx.model()
        if m is None: return None
        v = m.eval(n, model_completion=True)
        if not z3.is_int_value(v): return None
        v = v.as_long()
        return v if 0 <= v <= 16 and s.ctx.valid(n == v) is True else None
    def tolist(s, v):
        if isinstance(v, SL): return SL(v.n, v.base, v.base_const, v.stores)
        if isinstance(v, Lazy): v = v.value(s); return s.tolist(v) if isinstance(v, SL) else list(v)
        return s.concrete(v)
    def truth(s, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, (int, float, complex, str, list, tuple)): return bool(v)
        if z3.is_bool(v): return s.ctx.decide(v)
        if z3.is_arith(v): return s.ctx.decide(v != 0)
        if isinstance(v, Cond): return s.ctx.decide(v.c)
        if isinstance(v, SL): return s.ctx.decide(z(v.n) > 0)
        if isinstance(v, Dict): return bool(v.d)
        if isinstance(v, P):
            c = v.cval()
            if c is not None: return any(c)
            return s.truth(s.cmp(ast.NotEq(), v, 0))
        if isinstance(v, T):
            if v.is_small() and v.arr.size == 1:
                x = v.arr.reshape(())[()]
                return s.truth(x if isinstance(x, P) else x)
            if v.is_small(): raise Exc('RuntimeError', 'truth value of a tensor is ambiguous')
        if isinstance(v, (PyObj, Fn, Bound, TypeTok, Ext, Cls)): return True
        raise Unsupported(f'truth of {type(v).__name__}')
    # ---------------------------------------------------------------- expressions
    def ev(s, n, e):
        m = getattr(s, 'ex_' + type(n).__name__, None)
        if m is None: raise Unsupported(f'expression {type(n).__name__}')
        return m(n, e)
    def ex_Constant(s, n, e): return n.value
    def ex_Name(s, n, e): return s.lookup(n.id, e)
    def ex_Tuple(s, n, e):
        r = s.elts(n.elts, e)
        return r.copy(kind='tuple') if isinstance(r, SL) else tuple(r)
    def ex_List(s, n, e): 
        r = s.elts(n.elts, e)
        return r
    def elts(s, l, e):
        out = []
        for x in l:
            if isinstance(x, ast.Starred):
                v = s.ev(x.value, e)
                try: out += s.concrete(v)
                except Unsupported:
                    if not isinstance(v, SL): raise
                    return s.elts_sl(l, e)
            else: out.append(s.ev(x, e))
        return out
    def elts_sl(s, l, e):
        """a display with a starred list of symbolic length"""
        r = None
        for x in l:
            v = s.ev(x.value, e) if isinstance(x, ast.Starred) else [s.ev(x, e)]
            v = s.as_sl(v).copy(kind='list'); r = v if r is None else sl_concat(s, r, v)
        return r
    def ex_Dict(s, n, e):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                for a, b in s.dict_of(s.ev(v, e)).items(): s.setitem(d, a, b)
            else: k = s.ev(k, e); s.setitem(d, k, s.ev(v, e))
        return d
    def dict_key(s, d, k):
        """the key of the dictionary equal to k: (key,) or None; a symbolic comparison forks"""
        sym = lambda x: z3.is_expr(x) or (isinstance(x, tuple) and any(sym(y) for y in x))
        if not sym(k) and not any(sym(x) for x in d): return (k,) if k in d else None
        for x in d:
            if is_int(x) and is_int(k):
                c = simp(z(x) == z(k))
                if c if isinstance(c, bool) else s.ctx.decide(c): return (x,)
            elif sym(x) and sym(k) and type(x) is type(k) or isinstance(x, tuple) and isinstance(k, tuple): raise Unsupported('dictionary key')
            elif not sym(x) and not sym(k) and x == k: return (x,)
        return None
    def dict_of(s, v):
        if isinstance(v, Dict): return v.d
        raise Unsupported(f'dictionary from {type(v).__name__}')
    def ex_DictComp(s, n, e):
        if any(g.is_async for g in n.generators): raise Unsupported('async')
        g = ast.copy_location(ast.ListComp(ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n), n.generators), n)
        k = (id(n), 'dict')
        if k not in s.quants: s.quants[k] = (g, n)
        r = s.comp(s.quants[k][0], e)
        if not isinstance(r, list): raise Unsupported('symbolic dictionary')
        d = Dict()
        for a, b in r: s.setitem(d, a, b)
        return d
    def ex_JoinedStr(s, n, e):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant): out += v.value
            else:
                x = s.ev(v.value, e); out += str(x) if isinstance(x, (int, str, float)) else '<sym>'
        return out
    def ex_Lambda(s, n, e): return Fn(n, e.mod, '<lambda>', closure=e)
    def ex_IfExp(s, n, e): return s.ev(n.body if s.truth(s.ev(n.test, e)) else n.orelse, e)
    def ex_BoolOp(s, n, e):
        isand = isinstance(n.op, ast.And); v = None
        for x in n.values:
            v = s.ev(x, e)
            if isinstance(v, (bool,)) or z3.is_bool(v) or isinstance(v, Cond):
                t = s.truth(v)
                v = t
            else: t = s.truth(v)
            if isand and not t: return v
            if not isand and t: return v
        return v
    def ex_UnaryOp(s, n, e):
        v = s.ev(n.operand, e)
        if isinstance(n.op, ast.Not): return not s.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (T, StateT)) or type(v).__name__ in ('VecT', 'RowV'): return s.binop(ast.Mult(), -1, v)
            if isinstance(v, (int, float, complex, P, Fr)): return -v
            if z3.is_arith(v): return simp(-v)
        if isinstance(n.op, ast.UAdd): return v
        raise Unsupported('unary operator')
    def ex_BinOp(s, n, e): return s.binop(n.op, s.ev(n.left, e), s.ev(n.right, e))
    def ex_Compare(s, n, e):
        l = s.ev(n.left, e); res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            r = s.ev(r, e); c = s.cmp(op, l, r)
            if i == len(n.ops)-1 and res is True and len(n.ops) == 1: return c
            if not s.truth(c): return False
            l = r
        return True
    def ex_Call(s, n, e):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            env = e
            while env.fn is None or env.fn.cls is None: env = env.parent
            first = env.fn.node.args.args[0].arg
            return Super(env.v[first], env.fn.cls)
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            a = [s.ev(x, e) for x in n.args]; return Super(a[1], a[0])
        f = s.ev(n.func, e)
        if isinstance(f, Ext) and f.path in ('any', 'all') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.GeneratorExp):
            r = s.quantifier(f.path == 'all', n.args[0], e)
            if r is not None: return r[0]
        args = s.elts(n.args, e); kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = s.ev(k.value, e); kw.update(d.d)
            else: kw[k.arg] = s.ev(k.value, e)
        if f is print or (isinstance(f, Ext) and f.path == 'print'): return None
        if isinstance(args, SL):
            if isinstance(f, BMeth) and isinstance(f.obj, (T, StateT)) and f.name in ('permute', 'view', 'reshape'): args = [args]
            else: raise Unsupported('starred argument of symbolic length')
        return s.call(f, args, kw)
    def ex_Attribute(s, n, e): return s.getattr(s.ev(n.value, e), n.attr)
    def ex_Subscript(s, n, e): return s.getitem(s.ev(n.value, e), s.index(n.slice, e))
    def ex_Slice(s, n, e): return s.index(n, e)
    def index(s, n, e):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else s.ev(x, e)
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple): return tuple(s.index(x, e) for x in n.elts)
        return s.ev(n, e)
    def ex_ListComp(s, n, e): return s.comp(n, e)
    def ex_GeneratorExp(s, n, e): return s.comp(n, e)
    def ex_SetComp(s, n, e):
        r = s.comp(n, e)
        if not isinstance(r, list): raise Unsupported('symbolic set')
        return s.call(s.ext['set'], [r])
    def ex_Set(s, n, e): return s.call(s.ext['set'], [s.elts(n.elts, e)])
    def quantifier(s, is_all, g, e):
        """all(..) / any(..) over a generator with several clauses or conditions, as the nested loop it stands for"""
        if len(g.generators) == 1 and not g.generators[0].ifs: return None
        k = (id(g), is_all)
        if k not in s.quants:
            test = ast.UnaryOp(ast.Not(), g.elt) if is_all else g.elt
            body = ast.If(test, [ast.Return(ast.Constant(not is_all))], [])
            for c in reversed(g.generators):
                for f in reversed(c.ifs): body = ast.If(f, [body], [])
                body = ast.For(c.target, c.iter, [body], [])
            st = ast.copy_location(body, g); ast.fix_missing_locations(st); s.quants[k] = (st, g)
        sub = Env(e.mod, e, e.fn); s.envs.append(sub)
        try: s.block([s.quants[k][0]], sub)
        except Ret as r: return (r.v,)
        finally: s.envs.pop()
        return (is_all,)
    def comp(s, n, e):
        sub = Env(e.mod, e, e.fn)
        def rec(gs, envx):
            if not gs: return [s.ev(n.elt, envx)]
            g = gs[0]; it = s.ev(g.iter, envx)
            vals = s.concrete(it, soft=True)
            if vals is None: raise Unsupported('nested symbolic comprehension')
            out = []
            for v in vals:
                s.assign(g.target, v, envx)
                if all(s.truth(s.ev(c, envx)) for c in g.ifs): out += rec(gs[1:], envx)
            return out
        if len(n.generators) == 1:
            g = n.generators[0]; it = s.ev(g.iter, sub); vals = s.concrete(it, soft=True)
            if vals is None:
                if g.ifs:
                    it = PERM.filtered(s, g.ifs, g.target, it, sub)
                    if it is None: raise Unsupported('filtered symbolic comprehension')
                    if isinstance(n.elt, ast.Name) and n.elt.id == g.target.id: return it
                return s.loopmod.comprehension(s, n, g, it, sub)
        if len(n.generators) == 2 and not any(g.ifs for g in n.generators):
            it = s.ev(n.generators[0].iter, sub)
            if s.concrete(it, soft=True) is None: return s.loopmod.comprehension2(s, n, n.generators, it, sub)
        return rec(n.generators, sub)
    # ---------------------------------------------------------------- attributes / items
    def getattr(s, o, a):
        if isinstance(o, PyObj):
            if a in o.attrs: return o.attrs[a]
            f = o.cls.find(a)
            if isinstance(f, Fn):
                if getattr(f, 'prop', False): return s.call_fn(f, [o], {})
                if f.static: return f
                if getattr(f, 'clsm', False): return Bound(f, o.cls)
                return Bound(f, o)
            if isinstance(f, tuple): return s.ev(f[1], Env(f[2]))
            if f is not None: return f
            if a == '__class__': return o.cls
            if o.cls.ext_base():
                return BMeth(o, a)
            raise Exc('AttributeError', f'{o.cls.name} has no attribute {a}')
        if isinstance(o, Cls):
            if a == '__name__': return o.name
            f = o.find(a)
            if isinstance(f, tuple): return s.ev(f[1], Env(f[2]))
            if f is None: raise Exc('AttributeError', a)
            return f
        if isinstance(o, Mod):
            m = s.module(o.name); v = s.modget(m, a) if m else None
            if v is None and s.repo.tree(o.name+'.'+a) is not None: return Mod(o.name+'.'+a)
            if v is None: raise Exc('AttributeError', a)
            return v
        if isinstance(o, Ext):
            p = o.path + '.' + a
            p = {'nn': 'torch.nn', 'F': 'torch.nn.functional'}.get(p, p)
            h = s.ext.get(p)
            if h is not None and (isinstance(h, TypeTok) or not callable(h)): return h
            return Ext(p)
        if isinstance(o, Super):
            m = o.obj.cls.mro() if isinstance(o.obj, PyObj) else []
            i = m.index(o.cls)
            for c in m[i+1:]:
                if a in c.ns: return Bound(c.ns[a], o.obj)
            return (lambda I, args, kw: None) if a == '__init__' else BMeth(o.obj, a)
        from . import torchmod
        return torchmod.attr(s, o, a)
    def setattr(s, o, a, v):
        if isinstance(o, PyObj): o.attrs[a] = v; return
        if isinstance(o, Opaque): o.set(s, a, v); return
        if isinstance(o, T) and a == 'requires_grad': return
        raise Unsupported(f'attribute store on {type(o).__name__}')
    def getitem(s, o, i):
        if isinstance(i, T) and i.is_small() and i.arr.ndim == 0 and not isinstance(o, T):
            i = TT._toint(i.arr[()])
        if isinstance(i, P): i = TT._toint(i)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, slice):
                lo, hi, st = i.start, i.stop, i.step
                if any(z3.is_expr(x) for x in (lo, hi, st)): return s.getitem(SL(len(o), (lambda l: lambda j: TT._sel(l, j))(list(o)), kind='tuple' if isinstance(o, tuple) else 'list'), i)
                return o[i]
            if isinstance(i, bool): i = int(i)
            if isinstance(i, int):
                try: return o[i]
                except IndexError: raise Exc('IndexError', 'list index out of range')
            if z3.is_arith(i):
                i = TT.neg_idx(s.ctx, i, len(o))
                if isinstance(i, int): return o[i]
                for k in range(len(o)-1):
                    if s.ctx.decide(i == k): return o[k]
                return o[-1]
            raise Exc('TypeError', 'list indices must be integers')
        if isinstance(o, SL): return s.sl_get(o, i)
        if isinstance(o, Dict):
            k = s.dict_key(o.d, i)
            if k: return o.d[k[0]]
            raise Exc('KeyError', str(i))
        if isinstance(o, T):
            if isinstance(i, int) and not o.is_small() and o.ndim() == 2 and (lambda c: c is not None and not c.t)(TT.as_nc(o)):
                from .dense import ZeroRow
                return ZeroRow(o, i)
            return TT.getitem(s.ctx, o, i)
        if type(o).__name__ in ('VecT', 'RowV'):
            from .torchmod import vec_get
            return vec_get(s, o, i)
        if isinstance(o, Opaque): return o.getitem(s, i)
        if isinstance(o, Ext): return o            # typing: List[...]
        if isinstance(o, TypeTok): return o
        if is_int(o) or isinstance(o, (float, bool)) or o is None: raise Exc('TypeError', 'object is not subscriptable')
        raise Unsupported(f'subscript of {type(o).__name__}')
    def sl_get(s, o, i):
        ctx = s.ctx; n = z(o.n)
        if isinstance(i, slice):
            st = 1 if i.step is None else i.step
            if isinstance(st, int) and st == -1 and i.start is None and i.stop is None:
                c = o.copy(); return SL(o.n, lambda j: c.get(ctx, simp(z(o.n)-1-z(j))), kind=o.kind)
            if isinstance(st, int) and st > 1 and i.stop is None and (i.start is None or isinstance(i.start, int) and 0 <= i.start):
                s0 = i.start or 0; h = s.loopmod.divided(ctx, o.n if isinstance(o.n, int) else z(o.n), st) if s0 < st else None
                if h is None:
                    if not ctx.decide(n >= s0): return SL(0, None, None, kind=o.kind) if False else ([] if o.kind != 'tuple' else ())
                    h = simp((n-s0+st-1)/st)
                c = o.copy(); return SL(h, lambda j: c.get(ctx, simp(z(j)*st+s0)), kind=o.kind)
            if not (isinstance(st, int) and st == 1): raise Unsupported('slice step')
            def bound(x, d):
                if x is None: return d
                if isinstance(x, int) and isinstance(o.n, int):
                    x = x+o.n if x < 0 else x; return min(max(x, 0), o.n)
                if ctx.decide(z(x) < 0):
                    x = simp(z(x)+n)
                    if ctx.decide(z(x) < 0): return 0
                if ctx.decide(z(x) > n): return o.n
                return x
            lo, hi = bound(i.start, 0), bound(i.stop, o.n)
            ln = simp(z(hi)-z(lo))
            if not isinstance(ln, int) and not ctx.decide(z(ln) >= 0): ln = 0
            if isinstance(ln, int) and ln < 0: ln = 0
            c = o.copy()
            if isinstance(lo, int) and lo == 0 and not c.stores and c.base_const is not None: return SL(ln, None, c.base_const, kind=o.kind)
            if isinstance(ln, int): 
                r = [c.get(ctx, simp(z(lo)+k)) for k in range(ln)]
                return tuple(r) if o.kind == 'tuple' else r
            return SL(ln, lambda j: c.get(ctx, simp(z(j)+z(lo))), kind=o.kind)
        if isinstance(i, bool): i = int(i)
        if not is_int(i): raise Exc('TypeError', 'list indices must be integers or slices')
        i = TT.neg_idx(ctx, i, o.n)
        return o.get(ctx, i)
    def setitem(s, o, i, v):
        if isinstance(i, T) and i.is_small() and i.arr.ndim == 0 and not isinstance(o, T): i = TT._toint(i.arr[()])
        if isinstance(o, list):
            if isinstance(i, int):
                try: o[i] = v
                except IndexError: raise Exc('IndexError', 'list assignment index out of range')
                return
            if z3.is_arith(i):
                i = TT.neg_idx(s.ctx, i, len(o))
                for k in range(len(o)-1):
                    if s.ctx.decide(i == k): o[k] = v; return
                o[-1] = v; return
            raise Unsupported('list slice store')
        if isinstance(o, SL):
            if o.kind != 'list': raise Exc('TypeError', 'object does not support item assignment')
            if not is_int(i): raise Unsupported('symbolic slice store')
            i = TT.neg_idx(s.ctx, i, o.n); o.stores.append(Pt(i, v)); return
        if isinstance(o, Dict):
            k = s.dict_key(o.d, i); o.d[k[0] if k else i] = v; return
        if isinstance(o, Opaque): o.setitem(s, i, v); return
        if isinstance(o, T) and o.is_small():
            v = v.chk() if isinstance(v, T) else small(v)
            ix = i if isinstance(i, tuple) else (i,)
            ix = tuple(TT._toint(k.arr[()]) if isinstance(k, T) and k.arr.ndim == 0 else k for k in ix)
            if all(isinstance(k, (int, slice)) for k in ix) and v.is_small():
                a = o.arr.copy(); a[ix] = v.arr if v.arr.ndim else v.arr[()]; o.arr = a; o.written(); return
        if isinstance(o, T) and isinstance(i, tuple) and len(i) == 2 and all(isinstance(k, int) for k in i):
            from .dense import store_entry
            return store_entry(s, o, i, v)
        if type(o).__name__ in ('VecT', 'RowV') and is_int(i):
            v = v.chk() if isinstance(v, T) else small(s.int2p(v))
            if not v.is_small() or v.arr.size != 1: raise Unsupported('item store on a vector')
            o.put(s.ctx, TT.neg_idx(s.ctx, i, o.n), v.arr.reshape(-1)[0]); return
        if type(o).__name__ in ('VecT', 'RowV') and isinstance(i, slice):
            from .torchmod import vec_slice_store
            vec_slice_store(s, o, i, v); return
        raise Unsupported(f'item store on {type(o).__name__}')
    # ---------------------------------------------------------------- operators
    def binop(s, op, a, b):
        k = type(op).__name__
        if isinstance(a, Lazy): a = a.value(s)
        if isinstance(b, Lazy): b = b.value(s)
        if k == 'MatMult' and not isinstance(a, Opaque) and not isinstance(b, Opaque): return TT.matmul(s.ctx, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            return o.binop(s, k, a, b)
        if (type(a).__name__ in ('VecT', 'RowV') or type(b).__name__ in ('VecT', 'RowV')) and not any(isinstance(x, (list, tuple, str, SL)) or x is None for x in (a, b)):
            from .torchmod import vec_op
            return s.cut(vec_op(s, k, a, b))
        if isinstance(a, (T, StateT)) or isinstance(b, (T, StateT)):
            for x in (a, b):
                if isinstance(x, (list, tuple, str, SL)) or x is None: raise Exc('TypeError', 'unsupported operand types')
            if k == 'Pow':
                if isinstance(b, int) and isinstance(a, T) and a.is_small(): return T(TT.mapent(a, lambda v: v**b))
                if isinstance(a, T) and a.is_small() and isinstance(b, float) and b == 0.5: return T(TT.mapent(a, lambda v: __import__('dv.scalar', fromlist=['sqrt']).sqrt(v)))
                raise Unsupported('tensor power')
            sym = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(k)
            if not sym: raise Unsupported(f'tensor operator {k}')
            conv = lambda x: small(s.int2p(x)) if not isinstance(x, (T, StateT)) else x
            r = TT.binop(s.ctx, sym, conv(a), conv(b))
            return s.cut(r)
        if isinstance(a, (list, tuple, SL)) or isinstance(b, (list, tuple, SL)): return s.listop(k, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if k == 'Add' and isinstance(a, str) and isinstance(b, str): return a+b
            if k == 'Mod': return '<fmt>'
            if k == 'Mult' and isinstance(a, str) and isinstance(b, int): return a*b
            raise Exc('TypeError', 'str operand')
        if a is None or b is None: raise Exc('TypeError', 'NoneType operand')
        if isinstance(a, Dim) or isinstance(b, Dim): return s.dimop(k, a, b)
        sa, sb = z3.is_arith(a), z3.is_arith(b)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if sa or sb:
            if isinstance(a, (float, complex, P, Fr)) or isinstance(b, (float, complex, P, Fr)):
                a, b = s.int2p(a), s.int2p(b)
                return {'Add': lambda: P.const(a)+b, 'Sub': lambda: P.const(a)-b, 'Mult': lambda: P.const(a)*b, 'Div': lambda: P.const(a)/b}[k]()
            if k == 'Add': return simp(a+b)
            if k == 'Sub': return simp(a-b)
            if k == 'Mult': return simp(a*b)
            if k == 'FloorDiv':
                if isinstance(b, int) and b > 0:
                    q, r = split_const(a, b)
                    return simp(z(q)+z(r)/b)
                if s.ctx.valid(z(b) > 0) is True:
                    q, r = split_mult(a, b)
                    if r == 0 and not z3.is_expr(r) or s.ctx.valid(z3.And(z(r) >= 0, z(r) < z(b))) is True: return q
                    return simp(z(q)+z(r)/z(b))
                if s.ctx.decide(z(b) == 0): raise Exc('ZeroDivisionError', '')
                raise Unsupported('floor division by a non-positive number')
            if k == 'Mod':
                if isinstance(b, int) and b > 0: return simp(z(split_const(a, b)[1]) % b)
                if s.ctx.valid(z3.And(z(a) >= 0, z(a) < z(b))) is True: return a
                if s.ctx.valid(z(b) > 0) is True and z3.is_expr(b):
                    q, r = split_mult(a, b)
                    if z3.is_expr(q) or q: return s.binop(ast.Mod(), r, b) if z3.is_expr(r) else (0 if r == 0 else simp(z(r) % z(b)))
                if s.ctx.valid(z3.And(z(a) >= 0, z(a) < 2*z(b))) is True:
                    if s.ctx.valid(z(a) >= z(b)) is True: return simp(z(a)-z(b))
                    return simp(z3.If(z(a) < z(b), z(a), z(a)-z(b)))
                if s.ctx.valid(z(b) > 0) is True: return simp(z(a) % z(b))
                if s.ctx.decide(z(b) == 0): raise Exc('ZeroDivisionError', '')
                raise Unsupported('modulo by a non-positive number')
            if k == 'Pow' and z3.is_expr(a) and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 4:
                r = 1
                for _ in range(b): r = simp(z(r)*a)
                return r
            if k == 'Pow' and isinstance(a, int) and a == 2: 
                if s.ctx.valid(z(b) >= 0) is not True and not s.ctx.decide(z(b) >= 0): return FracNum(b)
                return Dim.pow2(b).norm()
            if k == 'LShift' and isinstance(a, int): return (Dim(a)*Dim.pow2(b)).norm()
            if k == 'Div':
                if isinstance(b, int) and b != 0 and s.ctx.valid(z(a) % b == 0) is True: return FloatInt(simp(z(a)/b))
                raise Unsupported('true division of symbolic integers')
            raise Unsupported(f'integer operator {k}')
        if isinstance(a, FloatInt): a = a.v
        if isinstance(b, FloatInt): b = b.v
        if isinstance(a, P) or isinstance(b, P):
            a, b = P.const(a), P.const(b) if k != 'Pow' else b
            return {'Add': lambda: a+b, 'Sub': lambda: a-b, 'Mult': lambda: a*b, 'Div': lambda: a/b, 'Pow': lambda: a**b}[k]()
        if isinstance(a, (int, float, complex, Fr)) and isinstance(b, (int, float, complex, Fr)):
            try:
                if k == 'Div' and isinstance(a, int) and isinstance(b, int): return a/b
                return {'Add': lambda: a+b, 'Sub': lambda: a-b, 'Mult': lambda: a*b, 'Div': lambda: a/b, 'FloorDiv': lambda: a//b,
                        'Mod': lambda: a % b, 'Pow': lambda: a**b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}[k]()
            except ZeroDivisionError: raise Exc('ZeroDivisionError', '')
        raise Unsupported(f'{k} of {type(a).__name__} and {type(b).__name__}')
    def int2p(s, x):
        """symbolic integer as an exact scalar"""
        if z3.is_arith(x): return P.atom(s.ctx.atom('int', 'real', x))
        if isinstance(x, FloatInt): return s.int2p(x.v)
        if isinstance(x, Dim): raise Unsupported('dimension as a scalar')
        return x
    def dimop(s, k, a, b):
        if k == 'Mult' and (isinstance(a, (int, Dim)) and isinstance(b, (int, Dim))): return (Dim.of(a)*Dim.of(b)).norm()
        if k in ('FloorDiv', 'Div') and isinstance(b, (int, Dim)) and isinstance(a, (int, Dim)):
            r = Dim.of(a).div(b)
            if z3.is_expr(r.e) and s.ctx.valid(r.e >= 0) is not True and not s.ctx.decide(r.e >= 0): raise Unsupported('fractional dimension')
            return r.norm()
        if k in ('Add', 'Sub') and all(isinstance(x, (int, Dim)) for x in (a, b)):
            if isinstance(b, int) and b == 0: return a
            if isinstance(a, int) and a == 0 and k == 'Add': return b
            if isinstance(a, Dim) and isinstance(b, Dim) and same((a.e,), (b.e,)) and a.b == b.b:
                c = a.k+b.k if k == 'Add' else a.k-b.k
                if c == 0: return 0
                if c > 0: return Dim(c, a.e, a.b).norm()
        if k in ('Add', 'Sub', 'Mult') and all(is_int(x) or isinstance(x, Dim) for x in (a, b)):
            from .torchmod import dim_int
            a, b = [z(dim_int(s.ctx, x)) if isinstance(x, Dim) else z(x) for x in (a, b)]
            return simp(a*b if k == 'Mult' else a+b if k == 'Add' else a-b)
        raise Unsupported(f'{k} on a dimension')
    def listop(s, k, a, b):
        ctx = s.ctx
        if any(isinstance(x, SetV) or isinstance(x, SL) and x.kind == 'set' for x in (a, b)):
            from .torchmod import set_op
            return set_op(s, k, a, b)
        if k == 'Mult':
            if not isinstance(a, (list, tuple, SL)): a, b = b, a
            if isinstance(b, (list, tuple, SL)) or isinstance(b, (float, T, P)): raise Exc('TypeError', 'list * non-int')
            if isinstance(b, int):
                if isinstance(a, (list, tuple)): return a*b
            if z3.is_arith(b) and isinstance(a, (list, tuple)) and len(a) == 1:
                n = b
                if not ctx.decide(z(b) >= 0): n = 0
                return SL(n, None, a[0], kind='tuple' if isinstance(a, tuple) else 'list') if not isinstance(n, int) else []
            if z3.is_arith(b) and isinstance(a, (list, tuple)) and a and all(isinstance(x, int) for x in a):
                n = b if ctx.decide(z(b) >= 0) else 0; l2 = list(a); m = len(a)
                if isinstance(n, int): return type(a)()
                if all(x == a[0] for x in a): return SL(simp(m*n), None, a[0], kind='tuple' if isinstance(a, tuple) else 'list')
                return SL(simp(m*n), lambda j: TT._sel(l2, simp(z(j) % m)), kind='tuple' if isinstance(a, tuple) else 'list')
            raise Unsupported('list repetition')
        if k == 'Add':
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if isinstance(a, list) != isinstance(b, list): raise Exc('TypeError', 'list + tuple')
                return a + b
            if not isinstance(a, (list, tuple, SL)) or not isinstance(b, (list, tuple, SL)): raise Exc('TypeError', 'list + non-list')
            A, Bq = s.as_sl(a), s.as_sl(b)
            return sl_concat(s, A, Bq)
        raise Exc('TypeError', 'list operand')
    def as_sl(s, l):
        if isinstance(l, SL): return l.copy()
        l2 = list(l)
        if all(is_int(x) for x in l2): return SL(len(l2), lambda j: TT._sel(l2, j) if l2 else z3.IntVal(0))
        def at(j):
            if isinstance(j, int): return l2[j]
            for i in range(len(l2)-1):
                if s.ctx.decide(j == i): return l2[i]
            return l2[-1]
        return SL(len(l2), at)
    def cmp(s, op, a, b):
        k = type(op).__name__; ctx = s.ctx
        if isinstance(a, Lazy): a = a.value(s)
        if isinstance(b, Lazy): b = b.value(s)
        if type(a).__name__ == 'Havoc' or type(b).__name__ == 'Havoc': raise s.loopmod.AccRead('comparison of an unknown value')
        if k in ('Is', 'IsNot'):
            if any(getattr(x, 'accname', None) and y is not None and not isinstance(y, (bool, int)) and not x is y for x, y in ((a, b), (b, a))): raise s.loopmod.AccRead('identity of a loop-carried object')
            r = a is b or (isinstance(a, TypeTok) and a == b) or (isinstance(a, (bool, int)) and type(a) == type(b) and a == b)
            return r if k == 'Is' else not r
        if k in ('In', 'NotIn'):
            r = s.contains(a, b)
            if k == 'In': return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, FloatInt): a = a.v
        if isinstance(b, FloatInt): b = b.v
        if k in ('Eq', 'NotEq') and (z3.is_bool(a) or z3.is_bool(b)) and (z3.is_bool(a) or isinstance(a, (bool, int))) and (z3.is_bool(b) or isinstance(b, (bool, int))):
            f = lambda x: x if z3.is_bool(x) else z3.BoolVal(bool(x)) if x in (0, 1) else None
            x, y = f(a), f(b)
            if x is None or y is None: return k == 'NotEq'
            return simp(x == y) if k == 'Eq' else simp(x != y)
        if isinstance(a, bool) and (z3.is_arith(b) or isinstance(b, int)): a = int(a)
        if isinstance(b, bool) and (z3.is_arith(a) or isinstance(a, int)): b = int(b)
        if isinstance(a, T) and a.is_small() and a.arr.size == 1 and not isinstance(b, (SL, list, tuple)) and b is not None and not isinstance(b, str): a = a.arr.reshape(())[()]; 
        if isinstance(b, T) and b.is_small() and b.arr.size == 1 and not isinstance(a, (SL, list, tuple)) and a is not None and not isinstance(a, str): b = b.arr.reshape(())[()]
        if any(type(v).__name__ in ('VecT', 'RowV') for v in (a, b)) and not any(v is None or isinstance(v, (str, Opaque)) for v in (a, b)):
            from .fun import compare
            return compare(s, k, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            r = o.cmp(s, k, a, b)
            return r
        if (is_int(a) or isinstance(a, (float, Fr))) and (is_int(b) or isinstance(b, (float, Fr))) :
            if not z3.is_expr(a) and not z3.is_expr(b):
                return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[k]
            f = lambda x: z3.RealVal(str(Fr(x))) if isinstance(x, (float, Fr)) else z(x)
            a, b = f(a), f(b)
            return simp({'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[k])
        if isinstance(a, Dim) or isinstance(b, Dim):
            if not isinstance(a, (int, Dim)) or not isinstance(b, (int, Dim)):
                if k in ('Eq', 'NotEq') and not z3.is_expr(a) and not z3.is_expr(b): return k == 'NotEq'
                if (is_int(a) or isinstance(a, Dim)) and (is_int(b) or isinstance(b, Dim)):
                    from .torchmod import dim_int
                    f = lambda x: dim_int(ctx, x) if isinstance(x, Dim) else x
                    return s.cmp(op, f(a), f(b))
                raise Unsupported('comparing a dimension with a symbolic integer')
            if k in ('Eq', 'NotEq'):
                c = dim_cond(a, b)
                return c if k == 'Eq' else (not c if isinstance(c, bool) else z3.Not(c))
            A, Bd = Dim.of(a), Dim.of(b)
            if A.k == Bd.k and A.b == Bd.b:
                return simp({'Lt': z(A.e) < z(Bd.e), 'LtE': z(A.e) <= z(Bd.e), 'Gt': z(A.e) > z(Bd.e), 'GtE': z(A.e) >= z(Bd.e)}[k])
            if Bd.const() is not None and Bd.const() <= 0 and not A.b: return {'Lt': False, 'LtE': False, 'Gt': True, 'GtE': True}[k]
            raise Unsupported('ordering dimensions')
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, (int, float, complex, Fr, P)) or z3.is_arith(a):
                if isinstance(b, (int, float, complex, Fr, P)) or z3.is_arith(b): return s.pcmp(k, P.const(s.int2p(a)), P.const(s.int2p(b)))
        if isinstance(a, complex) or isinstance(b, complex):
            if k == 'Eq': return a == b
            if k == 'NotEq': return a != b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and k in ('Eq', 'NotEq'):
            if isinstance(a, list) != isinstance(b, list): return k == 'NotEq'
            r = len(a) == len(b)
            if r:
                for x, y in zip(a, b):
                    if not s.truth(s.cmp(ast.Eq(), x, y)): r = False; break
            return r if k == 'Eq' else not r
        if (isinstance(a, SL) or isinstance(b, SL)) and k in ('Eq', 'NotEq'):
            if not isinstance(a, (list, tuple, SL)) or not isinstance(b, (list, tuple, SL)):
                return k == 'NotEq'
            A, Bq = s.as_sl(a), s.as_sl(b)
            ka = 'tuple' if isinstance(a, tuple) else a.kind if isinstance(a, SL) else 'list'
            kb = 'tuple' if isinstance(b, tuple) else b.kind if isinstance(b, SL) else 'list'
            if ka != kb: return k == 'NotEq'
            if not ctx.decide(z(A.n) == z(Bq.n)): return k == 'NotEq'
            q = z3.Int(f'q!{ctx.fresh}'); ctx.fresh += 1
            va, vb = A.get(ctx, q), Bq.get(ctx, q)
            if not (is_int(va) and is_int(vb)): raise Unsupported('comparing symbolic lists')
            r = ctx.decide(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z(A.n)), z(va) == z(vb))))
            return r if k == 'Eq' else not r
        if k in ('Eq', 'NotEq'):
            simple = (int, float, str, type(None), TypeTok, list, tuple, SL, Dict, PyObj, Dim)
            if isinstance(a, (str, type(None), TypeTok)) or isinstance(b, (str, type(None), TypeTok)):
                if isinstance(a, T) or isinstance(b, T) and False: raise Unsupported('comparing a tensor')
                r = (a == b) if type(a) is type(b) else (isinstance(a, TypeTok) and isinstance(b, TypeTok) and a == b)
                return r if k == 'Eq' else not r
            if isinstance(a, Cls) or isinstance(b, Cls): return (a is b) == (k == 'Eq')
            if type(a) is not type(b) and isinstance(a, (list, tuple, SL, Dict)) and (is_int(b) or isinstance(b, float)): return k == 'NotEq'
            if type(a) is not type(b) and isinstance(b, (list, tuple, SL, Dict)) and (is_int(a) or isinstance(a, float)): return k == 'NotEq'
            if isinstance(a, PyObj) and isinstance(b, PyObj): return (a is b) == (k == 'Eq')
        if k in ('Lt', 'LtE', 'Gt', 'GtE') and type(a) is type(b) and isinstance(a, (list, tuple)):
            # lexicographic: decided by the first position that differs
            for x, y in zip(a, b):
                if not s.truth(s.cmp(ast.Eq(), x, y)): return s.cmp(ast.Lt() if k in ('Lt', 'LtE') else ast.Gt(), x, y)
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[k]
        if isinstance(a, (list, tuple, SL)) or isinstance(b, (list, tuple, SL)):
            if k in ('Lt', 'LtE', 'Gt', 'GtE') and (is_int(a) or is_int(b)): raise Exc('TypeError', 'unorderable types')
        raise Unsupported(f'comparison {k} of {type(a).__name__} and {type(b).__name__}')
    def pcmp(s, k, a, b):
        """comparison of exact scalars"""
        d = a - b
        if d.is_const():
            c = d.cval()
            if any(c[1:]):
                if k in ('Eq', 'NotEq'): return k == 'NotEq'
                from .scalar import num
                v = num(d, {}).real
                return {'Lt': v < 0, 'LtE': v <= 0, 'Gt': v > 0, 'GtE': v >= 0}[k]
            v = c[0]
            return {'Eq': v == 0, 'NotEq': v != 0, 'Lt': v < 0, 'LtE': v <= 0, 'Gt': v > 0, 'GtE': v >= 0}[k]
        l = d.linear()
        if l is not None:
            terms, c0 = l; e = z3.RealVal(str(c0))
            for q, at in terms: e = e + z3.RealVal(str(q))*s.real_of(at)
            return simp({'Eq': e == 0, 'NotEq': e != 0, 'Lt': e < 0, 'LtE': e <= 0, 'Gt': e > 0, 'GtE': e >= 0}[k])
        # opaque condition, named by its normal form
        if k in ('Eq', 'NotEq'):
            c = z3.Bool(f'cond[{d} == 0]'); return c if k == 'Eq' else z3.Not(c)
        if k in ('Lt', 'GtE'): d = -d; k = {'Lt': 'Gt', 'GtE': 'LtE'}[k]
        c = z3.Bool(f'cond[{d} > 0]'); return c if k == 'Gt' else z3.Not(c)
    def real_of(s, at):
        if at is PI:
            p = z3.Real('pi')
            s.ctx.assume(z3.And(p > z3.RealVal('3.14159265'), p < z3.RealVal('3.14159266'))); return p
        if at.name[0] == '|' and at.index or at.name[1:].isdigit() and at.name[0] == '|':
            from .fun import families, psubst
            f = next(f for f in families(s.ctx) if f.name == at.name)
            l = psubst(s.ctx, f.tmpl, list(zip(f.params, at.index))).linear()
            if l is not None:
                e = z3.RealVal(str(l[1]))
                for q, b in l[0]: e = e + z3.RealVal(str(q))*s.real_of(b)
                return z3.If(e >= 0, e, -e)
            if len(at.index) == 2 and at.name not in s.ctx.axioms:
                # facts relating the values of a two-parameter family: symmetry, and its diagonal
                from .fun import symmetric, diagonal
                s.ctx.axioms[at.name] = ax = []; fn = z3.Function('re_'+at.name, z3.IntSort(), z3.IntSort(), z3.RealSort())
                x, y = z3.Int('ax!0'), z3.Int('ax!1')
                if symmetric(s.ctx, f): ax.append(z3.ForAll([x, y], fn(x, y) == fn(y, x), patterns=[fn(x, y)]))
                d = diagonal(s.ctx, f, x)
                if d is not None:
                    dd, off = d.linear(); w = z3.RealVal(str(off))
                    for q, b in dd: w = w + z3.RealVal(str(q))*s.real_of(b)
                    inner = [t for t in _subterms(w) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(c.eq(x) for c in t.children())]
                    ax.append(z3.ForAll([x], w == fn(x, x), patterns=inner[:1] + [fn(x, x)]))
        elif at.name[0] == '|':
            from .torchmod import ABS
            p = ABS[at.name][1]; l = p.linear()
            if l is not None:
                e = z3.RealVal(str(l[1]))
                for q, b in l[0]: e = e + z3.RealVal(str(q))*s.real_of(b)
                return z3.If(e >= 0, e, -e)
            x = z3.Real(at.name); s.ctx.assume(x >= 0); return x
        if at.name == 'int': return z3.ToReal(at.index[0])
        return z3.Real(str(at)) if not at.index else z3.Function('re_'+at.name, *([z3.IntSort()]*len(at.index) + [z3.RealSort()]))(*[z(i) for i in at.index])
    def contains(s, a, b):
        if isinstance(b, Dict): return bool(s.dict_key(b.d, a))
        if isinstance(b, str): return a in b
        if isinstance(b, SL) and not isinstance(b.n, int):
            if not is_int(a): raise Unsupported('membership of a non-integer')
            ctx = s.ctx; q = ctx.var('q')
            c = b.copy()
            if all(isinstance(st, Pt) for st in c.stores):
                v = c.get(ctx, q)
                if is_int(v): return z3.Exists([q], z3.And(q >= 0, q < z(b.n), z(v) == z(a)))
            raise Unsupported('membership in a symbolic list')
        l = s.concrete(b)
        cs = [s.cmp(ast.Eq(), a, x) for x in l]
        if any(c is True for c in cs): return True
        cs = [c for c in cs if c is not False]
        if not cs: return False
        if all(z3.is_bool(c) for c in cs): return z3.Or(*cs)
        return any(s.truth(c) for c in cs)
def _subterms(t):
    st = [t]; out = []
    while st:
        x = st.pop(); out.append(x); st += x.children()
    return out
class ExcVal:
    def __init__(s, typ, args): s.typ, s.args = typ, args
class Cond:
    def __init__(s, c): s.c = c
class FloatInt:
    """a Python float known to hold an integer (result of exact /)"""
    def __init__(s, v): s.v = v
class FracNum:
    """2 to a negative power"""
    def __init__(s, e): s.e = e
class Opaque:
    """base for modelled values with their own behaviour (matrix product states, circuits' gates, ...)"""
    def getitem(s, I, i): raise Unsupported(f'item of {type(s).__name__}')
    def setitem(s, I, i, v): raise Unsupported(f'item store on {type(s).__name__}')
    def attr(s, I, a): raise Unsupported(f'attribute {a} of {type(s).__name__}')
    def method(s, I, name, args, kw): raise Unsupported(f'method {name} of {type(s).__name__}')
    def set(s, I, a, v): raise Unsupported(f'attribute store {a}')
    def binop(s, I, k, a, b): raise Unsupported(f'operator {k} on {type(s).__name__}')
    def cmp(s, I, k, a, b):
        if k in ('Eq', 'NotEq') and (a is None or b is None or is_int(a) or is_int(b) or isinstance(a, str) or isinstance(b, str)): return k == 'NotEq'
        raise Unsupported(f'comparison {k} on {type(s).__name__}')
FUNC_AS_METHOD = {'clone', 'detach', 't', 'adjoint', 'narrow', 'select', 'unbind', 'split', 'swapdims', 'moveaxis', 'mv', 'dot', 'vdot', 'roll', 'cumsum', 'prod', 'ravel', 'unflatten', 'square', 'reciprocal', 'rsqrt', 'count_nonzero', 'take', 'addmm', 'flatten', 'broadcast_to', 'tile', 'repeat_interleave'}
class Lazy:
    """zip / enumerate / map objects"""
    def __init__(s, f): s.f = f; s._v = None
    def value(s, I):
        if s._v is None: s._v = s.f(I)
        return s._v
    def force(s, I):
        v = s.value(I); return I.concrete(v)
def sl_concat(I, A, Bq):
    ctx = I.ctx
    if isinstance(A.n, int) and A.n == 0: return Bq
    if isinstance(Bq.n, int) and Bq.n == 0: return A
    a, b = A.copy(), Bq.copy(); na = A.n
    def at(j):
        if isinstance(j, int) and isinstance(na, int): return a.get(ctx, j) if j < na else b.get(ctx, j-na)
        # integer lists: one If term; others fork
        try_int = _intlist(ctx, a) and _intlist(ctx, b)
        if try_int: return z3.If(z(j) < z(na), z(a.get(ctx, j)), z(b.get(ctx, simp(z(j)-z(na)))))
        if ctx.decide(z(j) < z(na)): return a.get(ctx, j)
        return b.get(ctx, simp(z(j)-z(na)))
    g = getattr(b.base, 'grid', None)
    if g is not None and not b.stores and same((simp(z(na)),), (simp(z(g[1])),)) and same((simp(z(Bq.n)),), (simp(z(g[0])*z(g[1])),)):
        # the first block in front of the blocks of a nested loop
        at.grid = (simp(z(g[0])+1), g[1], lambda x, y: a.get(ctx, y) if ctx.decide(z(x) == 0) else g[2](simp(z(x)-1), y))
    return SL(simp(z(A.n)+z(Bq.n)), at, kind=A.kind)
def _intlist(ctx, l):
    if getattr(l, '_isint', None) is not None: return l._isint
    if any(not isinstance(st, Pt) or not is_int(st.val) for st in l.stores): l._isint = False; return False
    if l.base_const is not None: l._isint = is_int(l.base_const); return l._isint
    q = z3.Int('probe!q')
    try:
        v = l.base(q); l._isint = is_int(v)
    except Exception: l._isint = False
    return l._isint
