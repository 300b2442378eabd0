"""Canonical forms of value-number terms: rational functions over scalar atoms,
linear combinations over vector atoms.  Two terms with equal canonical forms
denote the same value up to rounding, whatever the order in which the source
computes it.  Purely syntactic rewriting: no solver, no evaluation."""
from fractions import Fraction
from .terms import *
from . import ident

ZERO = {}          # polynomial
ONE = {(): Fraction(1)}
AX = ('ex', 'ey', 'ez')
UNITS = {'UNITX_VEC3': 0, 'UNITY_VEC3': 1, 'UNITZ_VEC3': 2, 'UNITX_POINT': 0, 'UNITY_POINT': 1, 'UNITZ_POINT': 2}


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise ValueError('non-finite constant')
    return Fraction(repr(x))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + k * c
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def pconst(p):
    """the constant value of a polynomial or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


class R:
    """rational function num/den over interned atoms (monomials use integer exponents, possibly negative)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = ONE if d is None else d
        if len(d) == 1:
            # divide out a monomial denominator
            (m, c), = d.items()
            inv = {tuple((a, -e) for a, e in m): 1 / c}
            n = pmul(n, inv)
            d = ONE
        self.n, self.d = n, d

    def __add__(s, o): return R(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d)) if s.d != o.d else R(padd(s.n, o.n), s.d)
    def __sub__(s, o): return s + o.scale(-1)
    def __mul__(s, o): return R(pmul(s.n, o.n), pmul(s.d, o.d))
    def __truediv__(s, o):
        if s.n == o.n and s.d == o.d and s.n:
            return R(ONE)
        return R(pmul(s.n, o.d), pmul(s.d, o.n))
    def scale(s, k): return R({m: c * k for m, c in s.n.items()}, s.d)
    def iszero(s): return not s.n
    def eq(s, o): return not padd(pmul(s.n, o.d), pmul(o.n, s.d), -1)
    def const(s):
        c = pconst(s.n)
        return c if c is not None and s.d == ONE else None

    def key(s):
        return (tuple(sorted(s.n.items())), tuple(sorted(s.d.items())))


class Norm:
    """eqs: optional substitution applied first (dict T->T)"""

    def __init__(self, vec_types=None, scalar=None):
        self.atoms = {}       # key -> small int
        self.names = []
        self.memo_s = {}
        self.memo_v = {}
        self.bound = 0
        self.nonneg = set()

    # ------------------------------------------------------------------ atoms
    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.names)
            self.atoms[key] = i
            self.names.append(key)
        return i

    def a(self, key):
        return R({((self.atom(key), 1),): Fraction(1)})

    # ----------------------------------------------------------------- kinds
    VECCALL = {'cross', 'normalized', 'zero', 'Constant', 'Zero', 'UnitX', 'UnitY', 'UnitZ', 'cwiseMin', 'cwiseMax', 'cwiseAbs', 'eulerAngles', 'sumv', 'Ones'}

    def isvec(self, t, depth=0):
        """syntactic guess: vector valued term"""
        o = t.op
        if o == 'vec' or o == 'setc':
            return True
        if o == 'op':
            if t.a[0] in ('s*', 'v/', 'm*'):
                return True
            if t.a[0] in ('+', '-', 'neg'):
                return any(self.isvec(x, depth + 1) for x in t.a[1:])
            return False
        if o == 'call':
            if t.a[0] == 'glob':
                return '_VEC3' in str(t.a[1]) or '_POINT' in str(t.a[1])
            return t.a[0] in self.VECCALL
        if o == 'sum':
            return self.isvec(t.a[3])
        if o == 'fld':
            return str(t.a[1]).startswith('@')
        if o in ('init',):
            l = t.a[0]
            return l.op == 'F' and (l.a[1] in ('m_origin', 'm_normal', 'm_direction', 'm_min', 'm_max', 'm_center', 'point', 'normal') or str(l.a[1]).startswith('@')) or \
                l.op == 'I' and l.a[0].op == 'F' and l.a[0].a[1] == 'm_vertex'
        return False

    # ---------------------------------------------------------------- scalars
    def s(self, t):
        r = self.memo_s.get(t)
        if r is None:
            r = self._s(t)
            self.memo_s[t] = r
        return r

    def _s(self, t):
        o = t.op
        if o in ('int', 'real'):
            try:
                return R(ONE).scale(frac(t.a[0])) if t.a[0] != 0 else R(ZERO)
            except ValueError:
                return self.a(('const', str(t.a[0])))
        if o == 'op':
            k = t.a[0]
            if k == '+': return self.s(t.a[1]) + self.s(t.a[2])
            if k == '-': return self.s(t.a[1]) - self.s(t.a[2])
            if k in ('*', 's*'): return self.s(t.a[1]) * self.s(t.a[2])
            if k in ('/', 'v/'):
                d = self.s(t.a[2])
                if d.iszero():
                    return self.a(('div0', self.s(t.a[1]).key()))
                return self.s(t.a[1]) / d
            if k == 'neg': return self.s(t.a[1]).scale(-1)
            if k in ('<', '<=', '=='):
                return self.a((k, self.s(t.a[1]).key(), self.s(t.a[2]).key()))
            if k == '!':
                return self.a(('!', self.s(t.a[1]).key()))
            return self.a((k,) + tuple(self.any(x) for x in t.a[1:]))
        if o == 'bool':
            return R(ONE) if t.a[0] else R(ZERO)
        if o == 'comp':
            return self.comp(t)
        if o == 'init' and t.a[0].op == 'I' and t.a[0].a[1] == '@' and len(t.a[0].a) == 3:
            return self.s(mk('comp', mk('init', t.a[0].a[0]), t.a[0].a[2]))
        if o == 'sum':
            return self.ssum(t)
        if o == 'call':
            n = t.a[0]
            A = t.a[1:]
            if n == 'dot' and len(A) == 2:
                return self.dot(self.v(A[0]), self.v(A[1]))
            if n in ('norm', 'squaredNorm') and len(A) == 1:
                v = self.v(A[0])
                if n == 'squaredNorm':
                    return self.dot(v, v)
                return self.norm(v)
            if n == 'abs' and len(A) == 1:
                x = self.s(A[0])
                c = x.const()
                if c is not None:
                    return R(ONE).scale(abs(c)) if c else R(ZERO)
                return self.a(('abs', self.posign(x).key()))
            if n == 'pow' and len(A) == 2 and A[1].op in ('int', 'real') and float(A[1].a[0]).is_integer() and 0 <= A[1].a[0] <= 4:
                r = R(ONE)
                for _ in range(int(A[1].a[0])):
                    r = r * self.s(A[0])
                return r
            if n == 'pow' and len(A) == 2:
                return self.power(self.s(A[0]), self.s(A[1]))
            if n in ('min', 'max'):
                flat = []
                st = [t]
                while st:
                    x = st.pop()
                    if x.op == 'call' and x.a[0] == n:
                        st += list(x.a[1:])
                    else:
                        flat.append(self.s(x).key())
                return self.a((n, tuple(sorted(set(flat), key=repr))))
            if n == 'glob':
                return self.a(('glob', str(t.a[1]).split('::')[-1]))
            return self.a(('call', n) + tuple(self.any(x) for x in A))
        return self.a(('t', self.canon(t)))

    def power(self, x, e):
        """x^e with the integer part of the exponent split off"""
        k = 0
        lead = sorted(e.d.items(), key=repr)[0]
        c = e.n.get(lead[0], 0) / lead[1]
        if c == int(c):
            k = int(c)
            e = e - R(ONE).scale(k)
        r = R(ONE)
        for _ in range(abs(k)):
            r = r * x
        if k < 0:
            r = R(ONE) / r if not r.iszero() else self.a(('div0', x.key()))
        if e.iszero():
            return r
        return r * self.a(('pow', x.key(), e.key()))

    def canon(self, t):
        return t.id

    def any(self, x):
        if not isinstance(x, T):
            return ('k', x)
        if self.isvec(x):
            return ('v',) + self.vkey(self.v(x))
        return ('s',) + self.s(x).key()

    def posign(self, x):
        """x or -x, chosen canonically"""
        if x.n and sorted(x.n.items())[0][1] < 0:
            return x.scale(-1)
        return x

    # ---------------------------------------------------------------- vectors
    def v(self, t):
        r = self.memo_v.get(t)
        if r is None:
            r = self._v(t)
            self.memo_v[t] = r
        return r

    def vadd(self, x, y, k=1):
        r = dict(x)
        for a, c in y.items():
            c2 = (r[a] + c.scale(k)) if a in r else c.scale(k)
            if c2.iszero():
                r.pop(a, None)
            else:
                r[a] = c2
        return r

    def vscale(self, x, k):
        return {} if k.iszero() else {a: c * k for a, c in x.items()}

    def va(self, key):
        return {('a', self.atom(key)): R(ONE)}

    def _v(self, t):
        o = t.op
        if o == 'vec':
            r = {}
            for i, c in enumerate(t.a):
                c = self.s(c)
                if not c.iszero():
                    r[AX[i] if len(t.a) <= 3 else ('e', i)] = c
            return r
        if o == 'op':
            k = t.a[0]
            if k in ('+', '-') and len(t.a) == 3:
                return self.vadd(self.v(t.a[1]), self.v(t.a[2]), 1 if k == '+' else -1)
            if k == 'neg':
                return self.vscale(self.v(t.a[1]), R(ONE).scale(-1))
            if k == 's*':
                return self.vscale(self.v(t.a[2]), self.s(t.a[1]))
            if k in ('*',) and len(t.a) == 3:
                a, b = (t.a[1], t.a[2]) if self.isvec(t.a[2]) else (t.a[2], t.a[1])
                return self.vscale(self.v(b), self.s(a))
            if k in ('v/', '/'):
                d = self.s(t.a[2])
                return {a: c / d for a, c in self.v(t.a[1]).items()} if not d.iszero() else self.va(('div0', t.id))
            if k == 'm*':
                M = t.a[1]
                return self.mul(M, self.v(t.a[2]))
        if o in ('int', 'real') and t.a[0] == 0:
            return {}
        w = ident.view(t)
        if w:
            # a column of a matrix is its product with a unit vector, a row one of its transpose
            return self.mul(w[0] if w[1] == 'col' else mk('call', 'transpose', w[0]), {AX[w[2]]: R(ONE)})
        if o == 'sum':
            return self.vsum(t)
        if o == 'call':
            n = t.a[0]
            A = t.a[1:]
            if n in ('zero', 'Zero'):
                return {}
            if n == 'Constant' and len(A) == 1:
                c = self.s(A[0])
                return {x: c for x in AX} if not c.iszero() else {}
            if n == 'Ones':
                return {x: R(ONE) for x in AX}
            if n in ('UnitX', 'UnitY', 'UnitZ'):
                return {AX['XYZ'.index(n[-1])]: R(ONE)}
            if n == 'glob':
                b = str(A[0]).split('::')[-1]
                if b in UNITS:
                    return {AX[UNITS[b]]: R(ONE)}
                if b.startswith('ZEROS_'):
                    return {}
                if b.startswith('ONES_'):
                    return {x: R(ONE) for x in AX}
                return self.va(('glob', b))
            if n == 'cross':
                return self.cross(self.v(A[0]), self.v(A[1]))
            if n == 'normalized':
                return self.normalized(self.v(A[0]))
            if n == 'transpose' and self.isvec(A[0]):
                return self.v(A[0])
            return self.va(('call', n) + tuple(self.any(x) for x in A))
        if o == 'setc' and len(t.a) == 3 and t.a[1].op == 'int':
            # vector with one component replaced
            base = {AX[i]: self.compv(t.a[0], i) for i in range(3)}
            base[AX[t.a[1].a[0]]] = self.s(t.a[2])
            return {a: c for a, c in base.items() if not c.iszero()}
        return self.va(('t', self.canon(t)))

    def vkey(self, v):
        return tuple(sorted(((repr(a), c.key()) for a, c in v.items())))

    def mul(self, M, v):
        mk_ = self.mkey(M)
        r = {}
        for a, c in v.items():
            r = self.vadd(r, self.vscale(self.va(('m*', mk_, a)), c))
        return r

    def mkey(self, M):
        if M.op == 'call' and M.a[0] == 'transpose':
            k = self.mkey(M.a[1])
            return k[1] if isinstance(k, tuple) and k[0] == 'T' else ('T', k)
        if M.op == 'op':
            return (M.a[0],) + tuple(self.mkey(x) for x in M.a[1:])
        return M.id

    def sgn_norm(self, v):
        """(canonical +-v, sign)"""
        items = sorted(v.items(), key=lambda kv: repr(kv[0]))
        if not items:
            return v, 1
        lead = sorted(items[0][1].n.items())
        if lead and lead[0][1] < 0:
            return self.vscale(v, R(ONE).scale(-1)), -1
        return v, 1

    def unit_scale(self, v):
        """divide out a common positive rational constant"""
        items = sorted(v.items(), key=lambda kv: repr(kv[0]))
        if not items:
            return v
        lead = sorted(items[0][1].n.items())
        if not lead:
            return v
        c = abs(lead[0][1])
        return {a: x.scale(1 / c) for a, x in v.items()}

    def normalized(self, v):
        if len(v) == 1:
            (a, c), = v.items()
            if a in AX and c.const() is not None:
                return {a: R(ONE).scale(1 if c.const() > 0 else -1)}
            if isinstance(a, tuple) and a[0] == 'a' and self.names[a[1]][0] == 'nz' and c.const() is not None:
                return {a: R(ONE).scale(1 if c.const() > 0 else -1)}
        v, sg = self.sgn_norm(v)
        v = self.unit_scale(v)
        return {('a', self.atom(('nz', self.vkey(v)))): R(ONE).scale(sg)}

    def norm(self, v):
        if not v:
            return R(ZERO)
        v, _ = self.sgn_norm(v)
        return self.a(('norm', self.vkey(v)))

    def dot(self, x, y):
        r = R(ZERO)
        for a, c in x.items():
            for b, d in y.items():
                r = r + c * d * self.dot1(a, b)
        return r

    def dot1(self, a, b):
        if a in AX and b in AX:
            return R(ONE) if a == b else R(ZERO)
        if a in AX or b in AX:
            if b in AX:
                a, b = b, a
            return self.compatom(b, AX.index(a))
        if repr(a) > repr(b):
            a, b = b, a
        return self.a(('dot', a, b))

    def cross(self, x, y):
        r = {}
        for a, c in x.items():
            for b, d in y.items():
                if a == b:
                    continue
                k = c * d
                if a in AX and b in AX:
                    i, j = AX.index(a), AX.index(b)
                    o = 3 - i - j
                    r = self.vadd(r, {AX[o]: k.scale(1 if (i + 1) % 3 == j else -1)})
                    continue
                s = 1
                p, q = a, b
                if repr(p) > repr(q):
                    p, q, s = q, p, -1
                r = self.vadd(r, self.vscale(self.va(('x', p, q)), k.scale(s)))
        return r

    def compatom(self, a, i):
        if a in AX:
            return R(ONE) if AX.index(a) == i else R(ZERO)
        return self.a(('comp', a, i))

    def compv(self, t, i):
        r = R(ZERO)
        for a, c in self.v(t).items():
            r = r + c * self.compatom(a, i)
        return r

    def comp(self, t):
        if len(t.a) == 2 and isinstance(t.a[1], T) and t.a[1].op == 'int' and 0 <= t.a[1].a[0] < 3:
            return self.compv(t.a[0], t.a[1].a[0])
        return self.a(('comp', self.any(t.a[0])) + tuple(self.any(x) for x in t.a[1:]))

    # ------------------------------------------------------------------- sums
    def placeholder(self, d):
        return mk('bound', d)

    def depth_of(self, t):
        return max([x.a[0] + 1 for x in subterms(t) if x.op == 'bound'] or [0])

    def sumparts(self, t):
        ph, lo, hi, body = t.a
        b = self.placeholder(self.depth_of(body))
        body = subst(body, {ph: b})
        return b, lo, hi, body

    def split(self, mono, b):
        inv, var = [], []
        for a, e in mono:
            (var if self.depends(a, b) else inv).append((a, e))
        return tuple(inv), tuple(var)

    def depends(self, a, b):
        return self.keydep(self.names[a], b)

    def keydep(self, k, b):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 't' and isinstance(k[1], int):
                return contains(self.byid(k[1]), b)
            if len(k) == 2 and k[0] == 'a' and isinstance(k[1], int):
                return self.keydep(self.names[k[1]], b)
            # monomials hold (atom, exponent) pairs; polynomials hold coefficient pairs
            for x in k:
                if isinstance(x, tuple) and self.keydep(x, b):
                    return True
                if isinstance(x, str) and x.startswith("('a', "):
                    if self.keydep(('a', int(x[6:-1])), b):
                        return True
            if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], int):
                return self.keydep(self.names[k[0]], b) if k[0] < len(self.names) else False
        return False

    def byid(self, i):
        from . import terms
        if not hasattr(self, '_ids') or len(self._ids) != len(terms._tab):
            self._ids = {t.id: t for t in terms._tab.values()}
        return self._ids[i]

    def ssum(self, t):
        b, lo, hi, body = self.sumparts(t)
        g = self.s(body)
        if g.d != ONE:
            return self.a(('sum', b.a[0], self.any(lo), self.any(hi), g.key()))
        r = R(ZERO)
        for m, c in g.n.items():
            inv, var = self.split(m, b)
            f = R({inv: c})
            if not var:
                n = self.s(hi) - self.s(lo)
                r = r + f * n
            else:
                r = r + f * self.a(('sum', b.a[0], self.any(lo), self.any(hi), var))
        return r

    def vsum(self, t):
        b, lo, hi, body = self.sumparts(t)
        g = self.v(body)
        r = {}
        for at, c in g.items():
            adep = at not in AX and self.keydep(at if at[0] != 'a' else self.names[at[1]], b)
            if c.d != ONE:
                r = self.vadd(r, self.va(('vsum', b.a[0], self.any(lo), self.any(hi), at, c.key())))
                continue
            for m, k in c.n.items():
                inv, var = self.split(m, b)
                f = R({inv: k})
                if adep:
                    r = self.vadd(r, self.vscale(self.va(('vsum', b.a[0], self.any(lo), self.any(hi), at, var)), f))
                elif var:
                    r = self.vadd(r, {at: f * self.a(('sum', b.a[0], self.any(lo), self.any(hi), var))})
                else:
                    r = self.vadd(r, {at: f * (self.s(hi) - self.s(lo))})
        return r

    # --------------------------------------------------------------- equality
    def eq(self, x, y, vec=None):
        if x is y:
            return True
        if vec is None:
            vec = self.isvec(x) or self.isvec(y)
        if vec:
            d = self.vadd(self.v(x), self.v(y), -1)
            return not d or ident.same(x, y, True) is True
        return self.s(x).eq(self.s(y)) or ident.same(x, y, False) is True


def poisoned(t, pats=('fresh', 'havoc', 'icall', 'other')):
    """term contains a value the engine could not model"""
    for x in subterms(t):
        if x.op in ('fresh', 'join', 'mix'):
            return True
        if x.op == 'call' and str(x.a[0]).startswith('other:'):
            return True
    return False
