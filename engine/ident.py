"""Random interpretation (Gulwani & Necula): terms are evaluated at pseudo-random points of the reals; two terms that agree at
several points are identical up to a negligible probability of error.  Used only to turn a structural difference into an equality
(never into an alarm), so that another way of writing the same formula is recognised.  Atoms and functions without a model get
values derived from their name and the values of their arguments."""
import hashlib, math
from .terms import *

UN = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'exp': math.exp,
      'log': math.log, 'abs': abs, 'fabs': abs, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'floor': math.floor, 'ceil': math.ceil, 'square': lambda x: x * x}
BIN = {'pow': math.pow, 'atan2': math.atan2, 'hypot': math.hypot, 'min': min, 'max': max, 'fmin': min, 'fmax': max}
AXES = {'X': 0, 'Y': 1, 'Z': 2}


class Skip(Exception):
    pass


def h(*k):
    """pseudo-random value in (0.2, 1.2) of a key"""
    d = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return 0.2 + int.from_bytes(d, 'big') / 2.0 ** 64


def rd(x):
    return float('%.7g' % x) if isinstance(x, float) and math.isfinite(x) else x


def hs(seed, *k):
    """value of an atom: positive in (0.2, 1.2); or, for the seeds >= SPREAD, positive of any magnitude; >= SIGNED, of any sign too"""
    v = h(seed, *k)
    if seed < SPREAD:
        return v
    m = 10.0 ** (3.0 * (v - 0.2) - 1.5)
    return -m if seed >= SIGNED and h(seed, 'sign', *k) < 0.7 else m


SPREAD, SIGNED = 1000, 2000
PIECES = {'abs', 'fabs', 'sqrt', 'min', 'max', 'fmin', 'fmax', 'floor', 'ceil', 'cwiseMin', 'cwiseMax', 'cwiseAbs', 'maxCoeff', 'minCoeff', 'clamp', 'hypot', 'cbrt', 'norm'}


def pieces(t):
    """does the term contain a function that is not analytic"""
    return any(x.op == 'ite' or x.op == 'call' and x.a[0] in PIECES for x in subterms(t))


def turn(q):
    """the rotation of a quaternion (the frames of this code base are rigid: F01)"""
    n = math.sqrt(sum(c * c for c in q))
    if n < 1e-6:
        raise Skip()
    w, x, y, z = (c / n for c in q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def inverse(L, t):
    a, b, c = L
    cof = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    cols = [cof(b, c), cof(c, a), cof(a, b)]
    d = sum(x * y for x, y in zip(a, cols[0]))
    if abs(d) < 1e-9:
        raise Skip()
    I = [[cols[j][i] / d for j in range(3)] for i in range(3)]
    return I, None if t is None else [-sum(I[i][j] * t[j] for j in range(3)) for i in range(3)]


def view(t):
    """(matrix term, 'col' or 'row', index) of a column or a row of a matrix"""
    if t.op == 'fld':
        b, n = t.a[0], str(t.a[1])
    elif t.op == 'init' and t.a[0].op == 'F':
        b, n = mk('init', t.a[0].a[0]), str(t.a[0].a[1])
    else:
        return None
    n, _, i = n.partition(':')
    if n in ('@col', '@row') and i.isdigit() and int(i) < 3:
        return b, n[1:], int(i)
    return None



class Ident:
    def __init__(self, seed):
        self.seed = seed
        self.ms, self.mv, self.mm = {}, {}, {}
        self.bind = {}

    # ---- atoms
    def key(self, t):
        """canonical key of an opaque term"""
        if t.op == 'bound' or t in self.bind:
            return ('b', self.bind.get(t, t.a[0] if t.a else 0))
        if t.op == 'init':
            l = t.a[0]
            if l.op == 'F' and str(l.a[1]).startswith('@'):
                return ('fld', self.key(mk('init', l.a[0])), l.a[1])
            return ('init', self.lkey(l))
        if t.op == 'call':
            return ('call', str(t.a[0])) + tuple(self.arg(x) for x in t.a[1:])
        if t.op in ('int', 'real', 'str', 'bool'):
            return t.a[0]
        return (t.op,) + tuple(self.arg(x) if isinstance(x, T) else x for x in t.a)

    def lkey(self, l):
        if l.op in ('V', 'THIS', 'G', 'H'):
            return l.id
        if l.op == 'D':
            return ('D', self.key(l.a[0]))
        if l.op == 'F':
            return ('F', self.lkey(l.a[0]), l.a[1])
        if l.op == 'I':
            return ('I', self.lkey(l.a[0])) + tuple(self.arg(x) if isinstance(x, T) else x for x in l.a[1:])
        return self.key(l)

    def arg(self, x):
        """value of an argument of an unmodelled function"""
        if not isinstance(x, T):
            return x
        if x.op in ('init', 'fld') and (view(x) or self.ismat(x)):
            return ('M',) + tuple(rd(c) for r in self.m(x)[0] for c in r) if self.ismat(x) else tuple(rd(c) for c in self.v(x))
        if x.op in ('init', 'fld', 'V', 'THIS', 'G', 'F', 'I', 'D', 'H', 'addr', 'objref', 'objat', 'str', 'bool', 'null'):
            return self.lkey(x) if x.op in ('V', 'THIS', 'G', 'F', 'I', 'D', 'H') else self.key(x)
        if self.ismat(x):
            return ('M',) + tuple(rd(c) for r in self.m(x)[0] for c in r)
        if self.isvec(x):
            return tuple(rd(c) for c in self.v(x))
        if x.op == 'op' and x.a[0] in ('<', '<=', '==', '!', '&&', '||'):
            return (x.a[0],) + tuple(self.arg(y) for y in x.a[1:])
        return rd(self.s(x))

    def isvec(self, t):
        o = t.op
        if o in ('vec', 'setc', 'blocks'):
            return True
        if o == 'op':
            if t.a[0] in ('s*', 'v/', 'm*'):
                return True
            if t.a[0] in ('+', '-', 'neg', '*'):
                return any(self.isvec(x) for x in t.a[1:])
            return False
        if o == 'call':
            n = t.a[0]
            if n == 'glob':
                return any(k in str(t.a[1]) for k in ('_VEC3', '_POINT', '_VEC2'))
            return n in ('cross', 'normalized', 'zero', 'Zero', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Ones', 'cwiseMin', 'cwiseMax', 'cwiseAbs', 'cwiseProduct')
        if o == 'sum':
            return self.isvec(t.a[3])
        if o == 'fld':
            return str(t.a[1]) != '@linear' and str(t.a[1]).startswith('@')
        return False

    # ---- scalars
    def s(self, t):
        r = self.ms.get(t)
        if r is None:
            r = self._s(t)
            if isinstance(r, complex) or not math.isfinite(r) or abs(r) > 1e9:
                raise Skip()
            self.ms[t] = r
        return r

    def _s(self, t):
        o, a = t.op, t.a
        try:
            if t in self.bind:
                return self.bind[t]
            if o in ('int', 'real'):
                return float(a[0])
            if o == 'bool':
                return float(a[0])
            if o == 'op':
                k = a[0]
                if k in ('+', '-', '*', '/', 's*', 'v/') and len(a) == 3:
                    x, y = self.s(a[1]), self.s(a[2])
                    if k == '+': return x + y
                    if k == '-': return x - y
                    if k in ('*', 's*'): return x * y
                    if abs(y) < 1e-9: raise Skip()
                    return x / y
                if k == 'neg':
                    return -self.s(a[1])
                return hs(self.seed, k, *[self.arg(x) for x in a[1:]])
            if o == 'comp' and len(a) == 2:
                if isinstance(a[1], T) and a[1].op == 'int':
                    return self.v(a[0])[a[1].a[0]]
                return hs(self.seed, 'comp', self.arg(a[0]), self.arg(a[1]))
            if o == 'comp' and len(a) == 3 and all(isinstance(x, T) and x.op == 'int' and 0 <= x.a[0] < 3 for x in a[1:]) and self.ismat(a[0]):
                return self.m(a[0])[0][a[1].a[0]][a[2].a[0]]
            if o == 'init' and a[0].op == 'I' and len(a[0].a) == 3 and a[0].a[1] == '@':
                i = a[0].a[2]
                if i.op == 'int':
                    return self.v(mk('init', a[0].a[0]))[i.a[0]]
            if o == 'sum':
                ph, lo, hi, body = a
                n = self.s(hi) - self.s(lo)
                tot = 0.0
                for k in range(3):
                    sub_ = Ident(self.seed)
                    sub_.bind = dict(self.bind)
                    sub_.bind[ph] = h(self.seed, 'ph', k, self.arg(lo), self.arg(hi))
                    tot += sub_.s(body)
                return n * tot / 3
            if o == 'call':
                n, A = a[0], a[1:]
                if n == 'dot' and len(A) == 2:
                    return sum(x * y for x, y in zip(self.v(A[0]), self.v(A[1])))
                if n in ('norm', 'squaredNorm', 'stableNorm') and len(A) == 1:
                    q = sum(x * x for x in self.v(A[0]))
                    return q if n == 'squaredNorm' else math.sqrt(q)
                if n in ('x', 'y', 'z') and len(A) == 1:
                    return self.v(A[0])['xyz'.index(n)]
                if n in ('coeff', 'operator()', 'operator[]') and len(A) == 2 and A[1].op == 'int':
                    return self.v(A[0])[A[1].a[0]]
                if n in ('sum', 'maxCoeff', 'minCoeff') and len(A) == 1:
                    v = self.v(A[0])
                    return sum(v) if n == 'sum' else max(v) if n == 'maxCoeff' else min(v)
                if n in UN and len(A) == 1:
                    return float(UN[n](self.s(A[0])))
                if n in BIN and len(A) == 2:
                    return float(BIN[n](self.s(A[0]), self.s(A[1])))
                if n == 'glob':
                    return h(self.seed, 'glob', str(A[0]).split('::')[-1])
        except (ValueError, ZeroDivisionError, OverflowError, IndexError):
            raise Skip()
        return hs(self.seed, self.key(t))

    # ---- vectors
    def v(self, t):
        r = self.mv.get(t)
        if r is None:
            r = self._v(t)
            if any(not math.isfinite(x) or abs(x) > 1e9 for x in r):
                raise Skip()
            self.mv[t] = r
        return r

    def ismat(self, t):
        if t.op == 'op' and t.a[0] in ('m*', '+', '-') and len(t.a) == 3:
            return self.ismat(t.a[1]) and self.ismat(t.a[2])
        if t.op == 'op' and t.a[0] == 'neg':
            return self.ismat(t.a[1])
        if t.op == 'call' and t.a[0] in ('transpose', 'inverse', 'eval') and len(t.a) == 2:
            return self.ismat(t.a[1])
        return self.linear_term(t)

    def _v(self, t):
        o, a = t.op, t.a
        w = view(t)
        if w:
            L, _ = self.m(w[0])
            return [L[i][w[2]] for i in range(3)] if w[1] == 'col' else list(L[w[2]])
        if o == 'vec':
            return [self.s(x) for x in a]
        if o == 'setc' and len(a) == 3 and a[1].op == 'int':
            v = list(self.v(a[0]))
            while len(v) <= a[1].a[0]:
                v.append(0.0)
            v[a[1].a[0]] = self.s(a[2])
            return v
        if o in ('int', 'real'):
            return [float(a[0])] * 3
        if o == 'op':
            k = a[0]
            if k in ('+', '-') and len(a) == 3:
                x, y = self.v(a[1]), self.v(a[2])
                return [p + q if k == '+' else p - q for p, q in zip(x, y)]
            if k == 'neg':
                return [-x for x in self.v(a[1])]
            if k in ('s*', '*') and len(a) == 3:
                p, q = a[1], a[2]
                if k == '*' and self.isvec(p) and not self.isvec(q):
                    p, q = q, p
                c = self.s(p)
                return [c * x for x in self.v(q)]
            if k in ('v/', '/'):
                c = self.s(a[2])
                if abs(c) < 1e-9:
                    raise Skip()
                return [x / c for x in self.v(a[1])]
            if k == 'm*':
                L, tr = self.m(a[1])
                x = self.v(a[2])
                if len(x) == 4:
                    return [sum(L[i][j] * x[j] for j in range(3)) + (tr[i] if tr else 0.0) * x[3] for i in range(3)] + [x[3]]
                return [sum(L[i][j] * x[j] for j in range(3)) + (tr[i] if tr else 0.0) for i in range(3)]
        if o == 'sum':
            ph, lo, hi, body = a
            n = self.s(hi) - self.s(lo)
            tot = [0.0] * 3
            for k in range(3):
                sub_ = Ident(self.seed)
                sub_.bind = dict(self.bind)
                sub_.bind[ph] = h(self.seed, 'ph', k, self.arg(lo), self.arg(hi))
                tot = [x + y for x, y in zip(tot, sub_.v(body))]
            return [n * x / 3 for x in tot]
        if o == 'call':
            n, A = a[0], a[1:]
            if n in ('zero', 'Zero'):
                return [0.0] * 3
            if n == 'Ones':
                return [1.0] * 3
            if n == 'Constant' and len(A) == 1:
                return [self.s(A[0])] * 3
            if n in ('UnitX', 'UnitY', 'UnitZ'):
                return [1.0 if i == AXES[n[-1]] else 0.0 for i in range(3)]
            if n == 'glob':
                b = str(A[0]).split('::')[-1]
                if b.startswith('UNIT') and b[4:5] in AXES:
                    return [1.0 if i == AXES[b[4]] else 0.0 for i in range(3)]
                if b.startswith('ZEROS_'):
                    return [0.0] * 3
                if b.startswith('ONES_'):
                    return [1.0] * 3
            if n == 'cross' and len(A) == 2:
                x, y = self.v(A[0]), self.v(A[1])
                return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
            if n == 'normalized' and len(A) == 1:
                x = self.v(A[0])
                q = math.sqrt(sum(c * c for c in x))
                if q < 1e-9:
                    raise Skip()
                return [c / q for c in x]
            if n in ('transpose', 'eval', 'matrix', 'array') and len(A) == 1:
                return self.v(A[0])
            if n in ('cwiseMin', 'cwiseMax', 'cwiseProduct') and len(A) == 2:
                f = {'cwiseMin': min, 'cwiseMax': max, 'cwiseProduct': lambda x, y: x * y}[n]
                return [f(x, y) for x, y in zip(self.v(A[0]), self.v(A[1]))]
            if n == 'cwiseAbs' and len(A) == 1:
                return [abs(x) for x in self.v(A[0])]
        k = self.key(t)
        return [hs(self.seed, k, i) for i in range(3)]

    # ---- linear and affine maps
    def linear_term(self, M):
        return M.op == 'fld' and M.a[1] in ('@linear', '@rotation') or M.op == 'init' and M.a[0].op == 'F' and M.a[0].a[1] in ('@linear', '@rotation') or \
            M.op == 'call' and (M.a[0] in ('transpose', 'rotation', 'toRotationMatrix') or M.a[0] == 'glob' and 'MAT3' in str(M.a[1])) or \
            M.op == 'call' and M.a[0] == 'inverse' and self.linear_term(M.a[1])

    def m(self, M):
        r = self.mm.get(M)
        if r is None:
            r = self._m(M)
            self.mm[M] = r
        return r

    def _m(self, M):
        if M.op == 'call' and M.a[0] == 'transpose':
            L, t = self.m(M.a[1])
            return [[L[j][i] for j in range(3)] for i in range(3)], None
        if M.op == 'call' and M.a[0] == 'inverse' and len(M.a) == 2:
            L, t = self.m(M.a[1])
            return inverse(L, t)
        if M.op == 'call' and M.a[0] in ('rotation', 'linear', 'eval') and len(M.a) == 2:
            L, t = self.m(M.a[1])
            return L, (t if M.a[0] == 'eval' else None)
        if M.op == 'op' and M.a[0] in ('+', '-') and len(M.a) == 3 and self.ismat(M):
            L, K = self.m(M.a[1])[0], self.m(M.a[2])[0]
            c = 1 if M.a[0] == '+' else -1
            return [[L[i][j] + c * K[i][j] for j in range(3)] for i in range(3)], None
        if M.op == 'op' and M.a[0] == 'neg':
            return [[-x for x in r] for r in self.m(M.a[1])[0]], None
        if M.op == 'op' and M.a[0] == 'm*':
            (L, t), (K, u) = self.m(M.a[1]), self.m(M.a[2])
            P = [[sum(L[i][j] * K[j][k] for j in range(3)) for k in range(3)] for i in range(3)]
            if t is None and u is None:
                return P, None
            t, u = t or [0.0] * 3, u or [0.0] * 3
            return P, [sum(L[i][j] * u[j] for j in range(3)) + t[i] for i in range(3)]
        if M.op == 'call' and M.a[0] in ('identity', 'Identity') or M.op == 'call' and M.a[0] == 'glob' and 'IDENTITY' in str(M.a[1]):
            return [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)], None
        lin = self.linear_term(M)
        if lin and M.op == 'fld':
            k = self.key(M.a[0])
        elif lin and M.op == 'init':
            k = self.key(mk('init', M.a[0].a[0]))
        else:
            k = self.key(M)
        L = turn([h(self.seed, 'lin', k, i) - 0.7 for i in range(4)])
        return L, (None if lin else [h(self.seed, ('fld', k, '@translation'), i) for i in range(3)])


def same(a, b, vec=False, n=5):
    """True: identical at n random points; False: different at one; None: could not be evaluated, or different only where some
    of the quantities are negative"""
    if a is b:
        return True
    r = _at(a, b, vec, n, 0)
    if r is not True:
        return r
    if pieces(a) or pieces(b):
        if _at(a, b, vec, 14, SPREAD) is False:
            return False
        if _at(a, b, vec, 14, SIGNED) is False:
            return None
    return True


def _at(a, b, vec, n, first):
    ok = tries = 0
    while ok < n and tries < 4 * n:
        tries += 1
        I = Ident(first + tries)
        try:
            if vec:
                x, y = I.v(a), I.v(b)
            else:
                x, y = [I.s(a)], [I.s(b)]
        except (Skip, RecursionError):
            continue
        if len(x) != len(y):
            return False
        sc = max([1e-3] + [abs(c) for c in x + y])
        if any(abs(p - q) > 1e-8 * sc for p, q in zip(x, y)):
            return False
        ok += 1
    return True if ok >= 3 else None
