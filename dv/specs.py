"""Specification side: textbook matrices (sparse, exact), written from the property statements, independent of /repo."""
from fractions import Fraction as Fr
from .scalar import P, PI, cos, sin, expi, SQRT2
from . import nc as N_
from .nc import NC, Loc, Prod, sp_mul, sp_eye, sp_add, sp_scale
from .vals import Dim
one = P.const(1); i_ = P.const(1j)
def M(rows): return {(r, c): P.const(v) for r, row in enumerate(rows) for c, v in enumerate(row) if not P.const(v).is_zero()}
X = M([[0, 1], [1, 0]]); Y = M([[0, -i_], [i_, 0]]); Z = M([[1, 0], [0, -1]]); I2 = sp_eye(2)
s2 = SQRT2 * Fr(1, 2)
H = M([[s2, s2], [s2, -s2]])
def kron(a, b, db):
    return {(r*db+s, c*db+t): v*w for (r, c), v in a.items() for (s, t), w in b.items()}
def R(G, t, d=2):
    h = P.const(t) * Fr(1, 2)
    return sp_add(sp_scale(cos(h), sp_eye(d)), sp_scale(P.const(-1j)*sin(h), G))
def U1(t): return M([[1, 0], [0, expi(P.const(t))]])
def U3(p):
    th, ph, la = p; hp = P.atom(PI)*Fr(1, 2)
    m = R(Z, ph)
    for f in (R(X, -hp), R(Z, th), R(X, hp), R(Z, la)): m = sp_mul(m, f)
    return m
def ctrl(U, n=1, d=2):
    D = d*2**n; m = {(k, k): one for k in range(D-d)}
    m.update({(D-d+r, D-d+c): v for (r, c), v in U.items()}); return m
SW = M([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
# name -> (number of parameters, number of wires, params -> sparse matrix, attribute holding the wire list)
GATES = {
 'Hadamard': (0, 1, lambda p: H), 'PauliX': (0, 1, lambda p: X), 'PauliY': (0, 1, lambda p: Y), 'PauliZ': (0, 1, lambda p: Z),
 'rx': (1, 1, lambda p: R(X, p[0])), 'ry': (1, 1, lambda p: R(Y, p[0])), 'rz': (1, 1, lambda p: R(Z, p[0])),
 'u1': (1, 1, lambda p: U1(p[0])), 'u3': (3, 1, lambda p: U3(p)),
 'rxx': (1, 2, lambda p: R(kron(X, X, 2), p[0], 4)), 'ryy': (1, 2, lambda p: R(kron(Y, Y, 2), p[0], 4)), 'rzz': (1, 2, lambda p: R(kron(Z, Z, 2), p[0], 4)),
 'cnot': (0, 2, lambda p: ctrl(X)), 'cz': (0, 2, lambda p: ctrl(Z)), 'cphase': (1, 2, lambda p: ctrl(U1(p[0]))),
 'cu3': (3, 2, lambda p: ctrl(U3(p))), 'SWAP': (0, 2, lambda p: SW), 'toffoli': (0, 3, lambda p: ctrl(X, 2)),
}
SINGLE = [g for g in GATES if GATES[g][1] == 1]
def op(N, wires, m):
    """NC: matrix m on the given wires of N qubits"""
    return NC([(one, (Loc(N, tuple(wires), m),))], Dim.pow2(N), Dim.pow2(N))
def mat(name, params): return GATES[name][2](params)
PAULI = {'X': X, 'Y': Y, 'Z': Z}
LROT = {'XYZLayer': 'XYZ', 'ZYXLayer': 'ZYX', 'YZYLayer': 'YZY', 'XZXLayer': 'XZX', 'XZLayer': 'XZ', 'ZXLayer': 'ZX'}
