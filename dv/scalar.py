"""Exact scalars.

A `P` is a finite sum  c * prod(atom^k) * exp(i * sum(q_j * atom_j))  with c in Q(zeta8) (zeta8 = e^{i pi/4}),
k positive (or negative, for atoms declared invertible) integers, q_j rational and the exponentiated atoms real.
The functions  exp(i q.theta)  with distinct q are linearly independent over polynomials in theta, and the ring of the
remaining atoms is a polynomial ring, so two values are equal for every value of the atoms iff their normal forms
are identical: equality is decided, not approximated. Machine floats are read as exact reals.
"""
from fractions import Fraction as Fr
import itertools

class Unsupported(Exception):
    """the construct is outside the verifier's language: the obligation is undecided"""

# ---- Q(zeta8): 4-tuples (a0,a1,a2,a3) = a0 + a1 z + a2 z^2 + a3 z^3, z^4 = -1, z^2 = i
def cmul(a, b):
    r = [0, 0, 0, 0]
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    k = i + j
                    if k >= 4: r[k-4] -= x*y
                    else: r[k] += x*y
    return tuple(r)
def cadd(a, b): return tuple(x+y for x, y in zip(a, b))
def cconj(a): return (a[0], -a[3], -a[2], -a[1])
ZERO = (0, 0, 0, 0); ONE = (1, 0, 0, 0)
def croot(k):
    k %= 8
    r = [0, 0, 0, 0]; r[k % 4] = 1 if k < 4 else -1
    return tuple(r)
def cinv(a):
    # 1/a through the field norm: a * prod(other conjugates) is rational
    def gal(a, s):  # z -> z^s
        r = [0, 0, 0, 0]
        for i, x in enumerate(a):
            k = (i*s) % 8
            if k >= 4: r[k-4] -= x
            else: r[k] += x
        return tuple(r)
    o = ONE
    for s in (3, 5, 7): o = cmul(o, gal(a, s))
    n = cmul(a, o)
    assert n[1:] == (0, 0, 0) and n[0] != 0
    return tuple(Fr(x)/n[0] for x in o)

class Atom:
    """an indeterminate. kind: 'real' or 'cplx'. index: tuple of z3 terms/ints. conj: the conjugated twin of a cplx atom."""
    _n = itertools.count()
    __slots__ = ('name', 'kind', 'index', 'id', '_tw', 'conjd', 'inv', 'ixc')
    def __init__(s, name, kind='real', index=()):
        s.name, s.kind, s.index, s.id, s._tw, s.conjd, s.inv = name, kind, index, next(Atom._n), None, False, False; s.ixc = None
    def twin(s):
        if s.kind == 'real': return s
        if s._tw is None:
            t = Atom(s.name, 'cplx', s.index); t.conjd = not s.conjd; t._tw = s; s._tw = t
        return s._tw
    def __lt__(s, o): return s.id < o.id
    def __repr__(s): return s.name + ('[' + ','.join(map(str, s.index)) + ']' if s.index else '') + ('*' if s.conjd else '')
PI = Atom('pi')

INVS = {}
def cnum(c):
    r = 0.5**0.5; return complex(c[0]+c[1]*r-c[3]*r, c[1]*r+c[2]+c[3]*r)
class P:
    __slots__ = ('d', 'det')
    # d: {(mono, expo): coef};  mono: ((atom,k),..) sorted; expo: ((atom,q),..) sorted
    # det: True when the value was cut from the autograd graph of an atom it depends on (C16)
    def __init__(s, d=None, det=False): s.d = d if d is not None else {}; s.det = det
    @staticmethod
    def const(x):
        if isinstance(x, P): return x
        if isinstance(x, bool): x = int(x)
        if isinstance(x, (int, Fr)): c = (Fr(x), 0, 0, 0)
        elif isinstance(x, float): c = (Fr(x), 0, 0, 0)
        elif isinstance(x, complex): c = (Fr(x.real), 0, Fr(x.imag), 0)
        elif isinstance(x, tuple): c = x
        else: raise Unsupported(f'scalar {type(x).__name__}')
        return P({((), ()): c}) if any(c) else P()
    @staticmethod
    def atom(a): return P({(((a, 1),), ()): ONE})
    def is_const(s): return all(k == ((), ()) for k in s.d)
    def cval(s):
        if not s.is_const(): return None
        return s.d.get(((), ()), ZERO)
    def is_zero(s): return not s.d
    def __add__(s, o):
        o = P.const(o); r = dict(s.d)
        for k, c in o.d.items():
            n = cadd(r[k], c) if k in r else c
            if any(n): r[k] = n
            else: r.pop(k, None)
        return P(r, s.det or o.det)
    __radd__ = __add__
    def __neg__(s): return P({k: tuple(-x for x in c) for k, c in s.d.items()}, s.det)
    def __sub__(s, o): return s + (-P.const(o))
    def __rsub__(s, o): return P.const(o) + (-s)
    def __mul__(s, o):
        if not isinstance(o, P):
            if not isinstance(o, (int, float, complex, Fr, tuple)): return NotImplemented
            o = P.const(o)
        r = {}
        for (m1, e1), c1 in s.d.items():
            for (m2, e2), c2 in o.d.items():
                m = _mm(m1, m2); e, c3 = _ee(e1, e2)
                c = cmul(c1, c2)
                if c3 is not None: c = cmul(c, c3)
                k = (m, e)
                n = cadd(r[k], c) if k in r else c
                if any(n): r[k] = n
                else: r.pop(k, None)
        return P(r, s.det or o.det)
    __rmul__ = __mul__
    def inv(s):
        if len(s.d) != 1:
            # an opaque number, the same for the same sum. Its defining equation (times the sum is 1) is not used
            if not s.d: raise Unsupported('division by zero')
            if any(not isinstance(t, int) for a in s.atoms() for t in a.index): raise Unsupported('division by a sum with indices')
            k = frozenset(s.d.items())
            if k not in INVS: 
                a = Atom(f'1/({s})', 'real' if s.is_real() else 'cplx'); a.inv = True; INVS[k] = a
            return P.atom(INVS[k])
        (m, e), c = next(iter(s.d.items()))
        if any(not a.inv for a, _ in m): raise Unsupported('division by an indeterminate')
        return P({(tuple((a, -k) for a, k in m), tuple((a, -q) for a, q in e)): cinv(c)}, s.det)
    def __truediv__(s, o): return s * P.const(o).inv()
    def __rtruediv__(s, o): return P.const(o) * s.inv()
    def __pow__(s, n):
        if not isinstance(n, int) or n < 0: raise Unsupported('power')
        r = P.const(1)
        for _ in range(n): r = r * s
        return r
    def conj(s):
        r = {}
        for (m, e), c in s.d.items():
            r[(tuple(sorted((a.twin(), k) for a, k in m)), tuple((a, -q) for a, q in e))] = cconj(c)
        return P(r, s.det)
    def real(s): return (s + s.conj()) * Fr(1, 2)
    def imag(s): return (s - s.conj()) * P.const((0, 0, Fr(-1, 2), 0))
    def is_real(s): return s == s.conj()
    def __eq__(s, o): return isinstance(o, P) and s.d == o.d
    def __hash__(s): return hash(frozenset(s.d.items()))
    def atoms(s):
        r = set()
        for m, e in s.d:
            for a, _ in m: r.add(a)
            for a, _ in e: r.add(a)
        return r
    def linear(s):
        """[(coef Fr, atom)], const  if s is a real linear form in real atoms, else None"""
        out, k0 = [], Fr(0)
        for (m, e), c in s.d.items():
            if e or any(c[1:]): return None
            if not m: k0 = Fr(c[0])
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'real': out.append((Fr(c[0]), m[0][0]))
            else: return None
        return out, k0
    def detached(s): return P(s.d, True) if s.d and (s.atoms() - {PI}) else s
    def subs(s, f):
        """replace atoms by f(atom) -> P or None (leave)"""
        r = P({}, s.det)
        for (m, e), c in s.d.items():
            t = P({((), ()): c})
            for a, k in m:
                v = f(a)
                if v is None: t = t * P({(((a, k),), ()): ONE})
                elif k >= 0:
                    for _ in range(k): t = t * v
                else:
                    for _ in range(-k): t = t * v.inv()
            for a, q in e:
                if a in PARTS:
                    c0, m0 = PARTS[a]; w = P({(m0, ()): c0}); v = w.subs(f)
                    if v == w: v = None
                else: v = f(a)
                t = t * (P({((), ((a, q),)): ONE}) if v is None else expi(v * q))
            r = r + t
        return r
    def __repr__(s):
        if not s.d: return '0'
        o = []
        for (m, e), c in sorted(s.d.items(), key=str):
            cs = '+'.join(f'{x}' + ('' if i == 0 else f'z{i}') for i, x in enumerate(c) if x)
            o.append(f'({cs})' + ''.join(f'*{a}' + (f'^{k}' if k != 1 else '') for a, k in m)
                     + ('*exp(i(' + '+'.join(f'{q}*{a}' for a, q in e) + '))' if e else ''))
        return ' + '.join(o)

def _mm(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, k in b:
        d[x] = d.get(x, 0) + k
        if d[x] == 0: del d[x]
    return tuple(sorted(d.items(), key=lambda t: t[0].id))
def _ee(a, b):
    if not a: return b, None
    if not b: return a, None
    d = dict(a)
    for x, q in b:
        n = d.get(x, 0) + q
        if n == 0: d.pop(x, None)
        else: d[x] = n
    c = None
    if PI in d and (4*d[PI]).denominator == 1:
        c = croot(int(4*d.pop(PI)))
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), c

DERIVED = {}; PARTS = {}
def derived(m, c):
    """(q, a) with q rational and q*a = c * m, for a real number c and a monomial m of real atoms: a is m itself when
    c is rational and m a single atom, otherwise an atom standing for the real number c/q * m (one per such number)"""
    i = next(i for i in range(4) if c[i]); q = Fr(c[i]); c0 = tuple(Fr(x)/q for x in c)
    if c0 == ONE and len(m) == 1 and m[0][1] == 1: return q, m[0][0]
    k = (c0, m)
    if k not in DERIVED:
        ix = tuple(t for a, _ in m for t in a.index)
        DERIVED[k] = Atom('(' + repr(P({((), ()): c0})) + '*' + '*'.join(f'{a.name}#{len(a.index)}^{n}' for a, n in m) + ')', 'real', ix)
        PARTS[DERIVED[k]] = k
    return q, DERIVED[k]
def expi(x):
    """e^{i x} for a real polynomial x"""
    x = P.const(x); e = {}; c = ONE
    for (m, ee), v in x.d.items():
        if ee or any(a.kind != 'real' or n < 0 for a, n in m) or cconj(v) != tuple(v): raise Unsupported('trigonometric function of a non-polynomial argument')
        # reading a machine float near a multiple of pi/4 as that multiple is not exact: refuse
        if not m: raise Unsupported('trigonometric function of a non-zero constant')
        q, a = derived(m, v)
        if a is PI and (4*q).denominator == 1: c = cmul(c, croot(int(4*q)))
        else: e[a] = e.get(a, 0) + q
    return P({((), tuple(sorted(((a, q) for a, q in e.items() if q), key=lambda t: t[0].id))): c}, x.det)
I = P.const(1j)
def cos(x): return (expi(x) + expi(-P.const(x))) * Fr(1, 2)
def sin(x): return (expi(x) - expi(-P.const(x))) * P.const((0, 0, Fr(-1, 2), 0))
SQRT2 = P.const((0, 1, 0, -1))
def sqrt(x):
    x = P.const(x); c = x.cval()
    if c is None or any(c[1:]): raise Unsupported('sqrt of a symbolic value')
    v = Fr(c[0])
    if v < 0: raise Unsupported('sqrt of a negative number')
    def isq(n):
        import math
        r = math.isqrt(n); return r if r*r == n else None
    for f, m in ((1, P.const(1)), (2, SQRT2)):
        w = v / f
        a, b = isq(w.numerator), isq(w.denominator)
        if a is not None and b is not None: return m * Fr(a, b)
    raise Unsupported(f'sqrt({v})')
def num(x, env):
    """numeric value under env: atom -> number (for building witnesses and for self-tests)"""
    import cmath, math
    z = cmath.exp(1j*math.pi/4); r = 0
    for (m, e), c in P.const(x).d.items():
        t = sum(float(v) * z**i for i, v in enumerate(c))
        for a, k in m: t *= (math.pi if a is PI else env[a])**k
        s = 0
        for a, q in e: s += float(q)*(math.pi if a is PI else env[a])
        r += t*cmath.exp(1j*s)
    return r
