"""Evaluation of the symbolic exit conditions and results of a function over families of configurations (numpy, all points of all
cells at once).  Every family is cut into cells on which the true answer is the same; inside a cell the comparisons of the function
are affine in the chosen coordinates (this is verified per comparison and cell), so that their truth on the corners of the cell is
their truth on all of it."""
import numpy as np
from .terms import *

np.seterr(all='ignore')


class Unknown(Exception):
    pass


UN = {'sqrt': np.sqrt, 'abs': np.abs, 'fabs': np.abs, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan,
      'exp': np.exp, 'log': np.log, 'floor': np.floor, 'ceil': np.ceil, 'cbrt': np.cbrt, 'square': np.square, 'abs2': np.square}
GV = {'UNITX_VEC3': (1, 0, 0), 'UNITY_VEC3': (0, 1, 0), 'UNITZ_VEC3': (0, 0, 1), 'ZEROS_VEC3': (0, 0, 0), 'ONES_VEC3': (1, 1, 1), 'NAN_VEC3': (np.nan,) * 3,
      'ORIGIN_POINT': (0, 0, 0), 'UNITX_POINT': (1, 0, 0), 'UNITY_POINT': (0, 1, 0), 'UNITZ_POINT': (0, 0, 1), 'ZEROS_POINT': (0, 0, 0), 'ONES_POINT': (1, 1, 1), 'NAN_POINT': (np.nan,) * 3}
GS = {'PI': np.pi, 'PI2': 2 * np.pi, 'PIDIV180': np.pi / 180, 'QUIET_NAN': np.nan, 'INFTY': np.inf, 'EPSILON_ACME': 2.0 ** -26, 'EPSILON_SQRT': 2.0 ** -26, 'EPSILON_MACHINE': 2.0 ** -52}


def norm(x):
    return np.sqrt((x * x).sum(1))


class Eval:
    def __init__(self, env, n):
        """env: leaf term -> array (n,) or (n,3)"""
        self.n = n
        self.S, self.V, self.B = {}, {}, {}
        self.M, self.A = {}, {}          # matrices, affine maps (linear part, translation)
        for t, v in env.items():
            v = np.asarray(v, float)
            (self.V if v.ndim == 2 else self.S)[t] = v

    def const(self, x):
        return np.full(self.n, float(x))

    def vconst(self, x):
        return np.tile(np.asarray(x, float), (self.n, 1))

    def isvec(self, t):
        if t in self.V or t.op == 'init' and t.a[0].op == 'G' and str(t.a[0].a[0]).split('::')[-1] in GV:
            return True
        if t in self.S:
            return False
        o = t.op
        if o in ('vec', 'setc'):
            return True
        if o == 'ite':
            return self.isvec(t.a[1])
        if o == 'op':
            if t.a[0] in ('s*', 'v/', 'm*'):
                return True
            if t.a[0] in ('+', '-', 'neg', '*', '/'):
                return any(self.isvec(x) for x in t.a[1:])
            return False
        if o == 'call':
            if t.a[0] == 'glob':
                return str(t.a[1]).split('::')[-1] in GV
            return t.a[0] in ('cross', 'normalized', 'zero', 'Zero', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Ones', 'cwiseMin', 'cwiseMax', 'cwiseAbs', 'cwiseProduct', 'transpose', 'eval')
        return False

    # ---- scalars
    def s(self, t):
        r = self.S.get(t)
        if r is None:
            r = self.S[t] = self._s(t)
        return r

    def _s(self, t):
        o, a = t.op, t.a
        if o in ('int', 'real', 'bool'):
            return self.const(a[0])
        if o == 'ite':
            return np.where(self.b(a[0]), self.s(a[1]), self.s(a[2]))
        if o == 'op':
            k = a[0]
            if k in ('<', '<=', '==', '!', '&&', '||'):
                return self.b(t).astype(float)
            if k == 'neg':
                return -self.s(a[1])
            if len(a) == 3 and k in ('+', '-', '*', '/', 's*', 'v/', 'int/', '%'):
                x, y = self.s(a[1]), self.s(a[2])
                if k == '+': return x + y
                if k == '-': return x - y
                if k in ('*', 's*'): return x * y
                if k in ('/', 'v/'): return x / y
        if o == 'comp' and isinstance(a[1], T) and a[1].op == 'int':
            return self.v(a[0])[:, a[1].a[0]]
        if o == 'init' and a[0].op == 'I' and len(a[0].a) == 3 and a[0].a[1] == '@' and a[0].a[2].op == 'int':
            return self.v(mk('init', a[0].a[0]))[:, a[0].a[2].a[0]]
        if o == 'call':
            n, A = a[0], a[1:]
            if n == 'dot':
                return (self.v(A[0]) * self.v(A[1])).sum(1)
            if n in ('norm', 'stableNorm'):
                return norm(self.v(A[0]))
            if n == 'squaredNorm':
                return (self.v(A[0]) ** 2).sum(1)
            if n in ('x', 'y', 'z') and len(A) == 1:
                return self.v(A[0])[:, 'xyz'.index(n)]
            if n in ('coeff', 'operator()', 'operator[]') and len(A) == 2 and A[1].op == 'int':
                return self.v(A[0])[:, A[1].a[0]]
            if n in ('sum', 'maxCoeff', 'minCoeff', 'prod') and len(A) == 1:
                return getattr(self.v(A[0]), {'sum': 'sum', 'maxCoeff': 'max', 'minCoeff': 'min', 'prod': 'prod'}[n])(1)
            if n == 'determinant' and A[0].op == 'blocks' and len(A[0].a) == 3:
                x, y, z = [self.v(c) for c in A[0].a]
                return (x * np.cross(y, z)).sum(1)
            if n in UN and len(A) == 1:
                return UN[n](self.s(A[0]))
            if n in ('min', 'fmin') and len(A) == 2:
                x, y = self.s(A[0]), self.s(A[1])
                return np.where(y < x, y, x)
            if n in ('max', 'fmax') and len(A) == 2:
                x, y = self.s(A[0]), self.s(A[1])
                return np.where(x < y, y, x)
            if n == 'pow':
                return np.power(self.s(A[0]), self.s(A[1]))
            if n == 'atan2':
                return np.arctan2(self.s(A[0]), self.s(A[1]))
            if n == 'hypot':
                return np.hypot(self.s(A[0]), self.s(A[1]))
            if n in ('isOrthogonal', 'isApprox', 'isNaN', 'isnan'):
                return self.b(t).astype(float)
            if n == 'glob' and str(A[0]).split('::')[-1] in GS:
                return self.const(GS[str(A[0]).split('::')[-1]])
        raise Unknown(t)

    # ---- vectors
    def v(self, t):
        r = self.V.get(t)
        if r is None:
            r = self.V[t] = self._v(t)
        return r

    def _v(self, t):
        if t.op == 'fld' and t.a[1] == '@translation':
            return self.aff(t.a[0])[1]
        o, a = t.op, t.a
        if o == 'init' and a[0].op == 'G' and str(a[0].a[0]).split('::')[-1] in GV:
            return self.vconst(GV[str(a[0].a[0]).split('::')[-1]])
        if o == 'vec' and len(a) == 3:
            return np.stack([self.s(x) for x in a], 1)
        if o == 'setc' and a[1].op == 'int':
            r = self.v(a[0]).copy()
            r[:, a[1].a[0]] = self.s(a[2])
            return r
        if o in ('int', 'real'):
            return self.vconst([a[0]] * 3)
        if o == 'ite':
            return np.where(self.b(a[0])[:, None], self.v(a[1]), self.v(a[2]))
        if o == 'op':
            k = a[0]
            if k in ('+', '-') and len(a) == 3:
                x, y = self.v(a[1]), self.v(a[2])
                return x + y if k == '+' else x - y
            if k == 'neg':
                return -self.v(a[1])
            if k == 'm*' and len(a) == 3:
                x = self.v(a[2])
                try:
                    L, o = self.aff(a[1])
                    return np.einsum('nij,nj->ni', L, x) + o
                except Unknown:
                    return np.einsum('nij,nj->ni', self.mat(a[1]), x)
            if k in ('s*', '*') and len(a) == 3:
                p, q = a[1], a[2]
                if k == '*' and self.isvec(p):
                    p, q = q, p
                return self.s(p)[:, None] * self.v(q)
            if k in ('v/', '/'):
                return self.v(a[1]) / self.s(a[2])[:, None]
        if o == 'call':
            n, A = a[0], a[1:]
            if n == 'cross':
                return np.cross(self.v(A[0]), self.v(A[1]))
            if n == 'normalized' and len(A) == 1:
                x = self.v(A[0])
                q = norm(x)
                return np.where((q > 0)[:, None], x / np.where(q > 0, q, 1)[:, None], x)
            if n in ('transpose', 'eval', 'matrix', 'array') and len(A) == 1:
                return self.v(A[0])
            if n in ('cwiseMin', 'cwiseMax', 'cwiseProduct') and len(A) == 2:
                return {'cwiseMin': np.minimum, 'cwiseMax': np.maximum, 'cwiseProduct': np.multiply}[n](self.v(A[0]), self.v(A[1]))
            if n == 'cwiseAbs':
                return np.abs(self.v(A[0]))
            if n in ('zero', 'Zero'):
                return self.vconst([0, 0, 0])
            if n == 'Ones':
                return self.vconst([1, 1, 1])
            if n == 'Constant' and len(A) == 1:
                return np.repeat(self.s(A[0])[:, None], 3, 1)
            if n in ('UnitX', 'UnitY', 'UnitZ'):
                return self.vconst(np.eye(3)['XYZ'.index(n[-1])])
            if n == 'glob' and str(A[0]).split('::')[-1] in GV:
                return self.vconst(GV[str(A[0]).split('::')[-1]])
        raise Unknown(t)

    # ---- matrices and affine maps
    def mat(self, t):
        r = self.M.get(t)
        if r is None:
            r = self.M[t] = self._mat(t)
        return r

    def _mat(self, t):
        if t.op == 'fld' and t.a[1] in ('@linear', '@rotation'):
            return self.aff(t.a[0])[0]
        if t.op == 'call' and t.a[0] == 'transpose':
            return self.mat(t.a[1]).transpose(0, 2, 1)
        if t.op == 'call' and t.a[0] == 'AngleAxis' and len(t.a) == 3:
            return self.turn(t)
        if t.op == 'call' and t.a[0] == 'glob' and 'IDENTITY_MAT3' in str(t.a[1]):
            return np.tile(np.eye(3), (self.n, 1, 1))
        if t.op == 'op' and t.a[0] == 'm*':
            return self.mat(t.a[1]) @ self.mat(t.a[2])
        raise Unknown(t)

    def turn(self, t):
        if not (t.op == 'call' and t.a[0] == 'AngleAxis' and len(t.a) == 3):
            return self.mat(t)
        an, ax = self.s(t.a[1]), self.v(t.a[2])
        x, y, z = ax.T
        K = np.zeros((self.n, 3, 3))
        K[:, 0, 1], K[:, 0, 2], K[:, 1, 0], K[:, 1, 2], K[:, 2, 0], K[:, 2, 1] = -z, y, z, -x, -y, x
        xx = ax[:, :, None] * ax[:, None, :]
        c, s = np.cos(an)[:, None, None], np.sin(an)[:, None, None]
        return c * np.eye(3) + s * K + (1 - c) * xx

    def aff(self, t):
        r = self.A.get(t)
        if r is None:
            r = self.A[t] = self._aff(t)
        return r

    def _aff(self, t):
        if t.op == 'call' and t.a[0] == 'glob' and 'IDENTITY_MAT4' in str(t.a[1]):
            return np.tile(np.eye(3), (self.n, 1, 1)), np.zeros((self.n, 3))
        if t.op == 'call' and t.a[0] in ('Eigen.rotate', 'Eigen.prerotate', 'Eigen.translate', 'Eigen.pretranslate') and len(t.a) == 3:
            L, o = self.aff(t.a[1])
            k = t.a[0][6:]
            if k == 'rotate':
                return L @ self.turn(t.a[2]), o
            if k == 'prerotate':
                R = self.turn(t.a[2])
                return R @ L, np.einsum('nij,nj->ni', R, o)
            x = self.v(t.a[2])
            return (L, o + np.einsum('nij,nj->ni', L, x)) if k == 'translate' else (L, o + x)
        if t.op == 'call' and t.a[0] == 'AngleAxis':
            return self.turn(t), np.zeros((self.n, 3))
        raise Unknown(t)

    # ---- conditions
    def b(self, t):
        r = self.B.get(t)
        if r is None:
            r = self.B[t] = self._b(t)
        return r

    def _b(self, t):
        o, a = t.op, t.a
        if o == 'bool':
            return np.full(self.n, bool(a[0]))
        if o == 'ite':
            return np.where(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if o == 'op':
            k = a[0]
            if k == '!':
                return ~self.b(a[1])
            if k == '&&':
                return np.logical_and.reduce([self.b(x) for x in a[1:]])
            if k == '||':
                return np.logical_or.reduce([self.b(x) for x in a[1:]])
            if k == '<':
                return self.s(a[1]) < self.s(a[2])
            if k == '<=':
                return self.s(a[1]) <= self.s(a[2])
            if k == '==':
                if self.isvec(a[1]) or self.isvec(a[2]):
                    return (self.v(a[1]) == self.v(a[2])).all(1)
                return self.s(a[1]) == self.s(a[2])
        if o == 'call':
            n, A = a[0], a[1:]
            if n == 'isOrthogonal' and len(A) == 3:
                x, y, e = self.v(A[0]), self.v(A[1]), self.s(A[2])
                return (x * y).sum(1) ** 2 <= e * e * (x * x).sum(1) * (y * y).sum(1)
            if n == 'isApprox' and len(A) == 3:
                x, y, e = self.v(A[0]), self.v(A[1]), self.s(A[2])
                return ((x - y) ** 2).sum(1) <= e * e * np.minimum((x * x).sum(1), (y * y).sum(1))
            if n in ('isnan', 'isNaN') and len(A) == 1:
                return np.isnan(self.s(A[0]))
        if o == 'init':
            return self.s(t) != 0
        raise Unknown(t)

    def exits(self, exits):
        """which exit each point takes: index array (-1: none), boolean matrix"""
        m = []
        for facts in exits:
            r = np.full(self.n, True)
            for c, w in facts.items():
                r &= self.b(c) == w
            m.append(r)
        m = np.array(m) if m else np.zeros((0, self.n), bool)
        return np.where(m.sum(0) == 1, m.argmax(0), -1), m
