"""Exact case analysis over the signs of differences: min / max / abs / comparisons inside terms and path facts are resolved lazily
under every realisable sign assignment.  Differences of two atoms are checked for realisability (no strict cycle); other
polynomials are treated as independent and mark the assignment as inexact, as do opaque predicates."""
from .terms import *
from .norm import Norm, R, ONE, AX
from fractions import Fraction


class Need(Exception):
    def __init__(self, key, opts):
        self.key, self.opts = key, opts


class TooBig(Exception):
    pass


class Asg:
    def __init__(self, N, signs, bools, sub=None, pos=None, assume=None):
        self.N, self.signs, self.bools = N, signs, bools
        self.sub = sub or {}          # atom number -> R
        self.pos = pos                # sign oracle: atoms known to be positive
        self.opaque = False
        self.free = set()

    # ---- sign of a polynomial
    def sgn(self, r):
        r = self.psub(r)
        n = r.n
        if not n:
            return 0
        c = r.const()
        if c is not None:
            return 1 if c > 0 else -1
        ds = 1
        if r.d != ONE:
            dv = [1 if c > 0 else -1 for c in r.d.values()]
            if len(set(dv)) != 1 or not self.allpos(r.d):
                d1 = R(r.d)
                ds = self.sgn(d1)
                if ds == 0:
                    raise TooBig()
            else:
                ds = dv[0]
        if self.pos and self.allpos(n):
            cs = {1 if c > 0 else -1 for c in n.values()}
            if len(cs) == 1:
                return ds * cs.pop()
        rn = [x for x, e in next(iter(n)) if self.N.names[x][0] == 'rn' and all(any(y == x for y, _ in m) for m in n)]
        if rn:
            # positive common factor
            d = {x: min(e for m in n for y, e in m if y == x) for x in rn}
            n = {tuple((y, e - d.get(y, 0)) for y, e in m if e != d.get(y, 0)): c for m, c in n.items()}
            if not n[next(iter(n))]:
                return 0
            return ds * self.sgn(R(n))
        key, s = self.canon(n)
        if key not in self.signs:
            raise Need(key, (0, 1) if key[1] == ('c', 0) and key[0][0] == 'a' and self.issize(key[0][1]) else (-1, 0, 1))
        if key[0][0] == 'p' or key[1][0] == 'p':
            self.opaque = True
        return ds * s * self.signs[key]

    def issize(self, i):
        k = self.N.names[i]
        if k[0] == 't' and isinstance(k[1], int):
            t = self.N.byid(k[1])
            l = t.a[0] if t.op == 'init' else t.a[1] if t.op == 'phi' else None
            return t.op == 'size' or isinstance(l, T) and l.op == 'F' and l.a[1] == '#size'
        return False

    def allpos(self, n):
        return self.pos is not None and all(a in self.pos for m in n for a, e in m)

    def canon(self, n):
        """polynomial != 0 -> ((x, y), sign) with sign(n) = sign * sign(x - y)"""
        items = sorted(n.items())
        if len(items) == 2:
            (m1, c1), (m2, c2) = items
            simple = lambda m: len(m) == 0 or len(m) == 1 and m[0][1] == 1
            if simple(m1) and simple(m2):
                if m1 == () or m2 == ():
                    if m2 == ():
                        m1, c1, m2, c2 = m2, c2, m1, c1
                    # c2 x + c1  ~  c2 (x - (-c1/c2))
                    k = (('a', m2[0][0]), ('c', -c1 / c2))
                    return k, (1 if c2 > 0 else -1)
                if c1 == -c2:
                    return ((('a', m1[0][0]), ('a', m2[0][0]))), (1 if c1 > 0 else -1)
        if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
            return (('a', items[0][0][0][0]), ('c', Fraction(0))), (1 if items[0][1] > 0 else -1)
        lead = items[0][1]
        key = tuple((m, c / abs(lead)) for m, c in items)
        s = 1
        if lead < 0:
            key = tuple((m, -c) for m, c in key)
            s = -1
        return (('p', key), ('c', Fraction(0))), s

    def psub(self, r):
        if not self.sub:
            return r
        return R_sub(r.n, self.sub) / R_sub(r.d, self.sub) if r.d != ONE else R_sub(r.n, self.sub)

    def cmp(self, a, b):
        a = self.num(a) if isinstance(a, T) else a
        b = self.num(b) if isinstance(b, T) else b
        return self.sgn(a - b)

    # ---- booleans
    def bool(self, t):
        if t.op == 'bool':
            return t.a[0]
        if t.op == 'op':
            k = t.a[0]
            if k == '!':
                return not self.bool(t.a[1])
            if k == '&&':
                return self.bool(t.a[1]) and self.bool(t.a[2])
            if k == '||':
                return self.bool(t.a[1]) or self.bool(t.a[2])
            if k in ('<', '<=', '=='):
                a, b = t.a[1], t.a[2]
                if not self.N.isvec(a) and not self.N.isvec(b) and not any(x.op in ('null', 'addr', 'str', 'ptr') for x in (a, b)):
                    c = self.cmp(a, b)
                    return c < 0 if k == '<' else c <= 0 if k == '<=' else c == 0
        if t.op == 'ite':
            return self.bool(t.a[1]) if self.bool(t.a[0]) else self.bool(t.a[2])
        key = ('b', t.id)
        if key not in self.bools:
            raise Need(key, (True, False))
        if t.id not in self.free:
            self.opaque = True
        return self.bools[key]

    # ---- numbers
    def num(self, t):
        o, a = t.op, t.a
        if o == 'op':
            k = a[0]
            if k in ('+', '-', '*', '/', 's*', 'v/') and len(a) == 3:
                x, y = self.num(a[1]), self.num(a[2])
                if k == '+': return x + y
                if k == '-': return x - y
                if k in ('*', 's*'): return x * y
                if y.iszero(): raise TooBig()
                return x / y
            if k == 'neg':
                return self.num(a[1]).scale(-1)
        if o == 'ite':
            return self.num(a[1]) if self.bool(a[0]) else self.num(a[2])
        if o == 'comp' and len(a) == 2 and a[1].op == 'int':
            return self.vec(a[0])[a[1].a[0]]
        if o == 'init' and a[0].op == 'I' and len(a[0].a) == 3 and a[0].a[1] == '@' and a[0].a[2].op == 'int':
            return self.psub(self.N.s(t))
        if o == 'call':
            n, A = a[0], a[1:]
            if n in ('min', 'max', 'fmin', 'fmax') and len(A) == 2:
                x, y = self.num(A[0]), self.num(A[1])
                c = self.sgn(x - y)
                return (x if c <= 0 else y) if n.endswith('min') else (x if c >= 0 else y)
            if n in ('abs', 'fabs') and len(A) == 1:
                x = self.num(A[0])
                return x if self.sgn(x) >= 0 else x.scale(-1)
            if n == 'sqrt' and len(A) == 1:
                return self.N.a(('sqrt', self.num(A[0]).key()))
            if n in ('norm', 'squaredNorm', 'dot'):
                v = self.vec(A[0])
                w = self.vec(A[1]) if n == 'dot' else v
                q = v[0] * w[0] + v[1] * w[1] + v[2] * w[2]
                return self.N.a(('sqrt', q.key())) if n == 'norm' else q
            if n == 'pow' and len(A) == 2 and A[1].op in ('int', 'real') and A[1].a[0] in (2, 3):
                x = self.num(A[0])
                return x * x if A[1].a[0] == 2 else x * x * x
            if n == 'hypot':
                xs = [self.num(x) for x in A]
                q = xs[0] * xs[0]
                for x in xs[1:]:
                    q = q + x * x
                return self.N.a(('sqrt', q.key()))
            if n in ('maxCoeff', 'minCoeff', 'sum') and len(A) == 1:
                v = self.vec(A[0])
                r = v[0]
                for x in v[1:]:
                    r = r + x if n == 'sum' else (x if (self.sgn(x - r) > 0) == (n == 'maxCoeff') else r)
                return r
        return self.psub(self.N.s(t))

    def vec(self, t):
        o, a = t.op, t.a
        if o == 'vec':
            return [self.num(x) for x in a]
        if o == 'setc' and len(a) == 3 and a[1].op == 'int':
            v = list(self.vec(a[0]))
            v[a[1].a[0]] = self.num(a[2])
            return v
        if o == 'ite':
            return self.vec(a[1]) if self.bool(a[0]) else self.vec(a[2])
        if o == 'op' and len(a) == 3 and a[0] in ('+', '-'):
            x, y = self.vec(a[1]), self.vec(a[2])
            return [p + q if a[0] == '+' else p - q for p, q in zip(x, y)]
        if o == 'op' and a[0] in ('s*',):
            c = self.num(a[1])
            return [c * x for x in self.vec(a[2])]
        if o == 'op' and a[0] in ('v/',):
            c = self.num(a[2])
            return [x / c for x in self.vec(a[1])]
        if o == 'op' and a[0] == 'neg':
            return [x.scale(-1) for x in self.vec(a[1])]
        if o == 'call' and a[0] in ('array', 'matrix', 'eval') and len(a) == 2:
            return self.vec(a[1])
        if o == 'call' and a[0] in ('cwiseMin', 'cwiseMax', 'min', 'max') and len(a) == 3:
            x, y = self.vec(a[1]), self.vec(a[2])
            r = []
            for p, q in zip(x, y):
                c = self.sgn(p - q)
                r.append((p if c <= 0 else q) if a[0].endswith('in') else (p if c >= 0 else q))
            return r
        if o == 'call' and a[0] in ('cwiseAbs', 'abs'):
            return [x if self.sgn(x) >= 0 else x.scale(-1) for x in self.vec(a[1])]
        if o == 'call' and a[0] == 'normalized' and len(a) == 2:
            nv = self.N.normalized(self.N.v(a[1]))
            if not any(x in AX for x in nv):
                # v / |v|: the reciprocal length is a positive atom
                k = self.N.a(('rn', self.N.vkey({x: (y if y.const() is None else y.scale(1 if y.const() > 0 else -1)) for x, y in nv.items()})))
                return [x * k for x in self.vec(a[1])]
        return [self.psub(self.N.compv(t, i)) for i in range(3)]


def R_sub(p, m):
    r = R({})
    for mono, c in p.items():
        x = R(ONE).scale(c)
        for a, e in mono:
            f = m.get(a)
            if f is None:
                f = R({((a, 1),): Fraction(1)})
            for _ in range(e):
                x = x * f
        r = r + x
    return r


def realisable(signs):
    """differences of atoms / constants admit an order"""
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    consts = sorted({y for k in signs for y in k if y[0] == 'c'}, key=lambda c: c[1])
    lt = []
    for (x, y), s in signs.items():
        if x[0] == 'p':
            continue
        if s == 0:
            par[find(x)] = find(y)
        elif s < 0:
            lt.append((x, y))
        else:
            lt.append((y, x))
    for a, b in zip(consts, consts[1:]):
        lt.append((a, b))
    g = {}
    for a, b in lt:
        g.setdefault(find(a), set()).add(find(b))
    state = {}

    def cyc(x):
        if state.get(x) == 1:
            return True
        if state.get(x) == 2:
            return False
        state[x] = 1
        for y in g.get(x, ()):
            if cyc(y):
                return True
        state[x] = 2
        return False
    return not any(cyc(x) for x in list(g))


def explore(fn, N=None, sub=None, pos=None, limit=20000):
    """run fn(asg) under every realisable assignment it asks for -> [(asg, result)]"""
    N = N or Norm()
    st = [({}, {})]
    out = []
    while st:
        sg, bl = st.pop()
        a = Asg(N, sg, bl, sub, pos)
        try:
            out.append((a, fn(a)))
        except Need as n:
            for o in n.opts:
                if n.key[0] == 'b':
                    st.append((sg, dict(bl, **{}) | {n.key: o}))
                else:
                    s2 = dict(sg)
                    s2[n.key] = o
                    if realisable(s2):
                        st.append((s2, bl))
        if len(out) > limit:
            raise TooBig()
    return out


def consistent(asg, s, skip=()):
    return all(asg.bool(t) == v for t, v in s.facts.items() if t not in skip)


def verdict(cases):
    """cases: [(asg, True/False/None)] -> (verdict, witness)"""
    bad = None
    unk = False
    for a, r in cases:
        if r is False:
            if a.opaque:
                unk = True
            else:
                bad = a
                break
        elif r is None:
            unk = True
    if bad is not None:
        return False, witness(bad)
    return (None if unk else True), ''


def witness(a):
    def nm(x):
        return str(float(x[1])) if x[0] == 'c' else short(a.N.names[x[1]], a.N) if x[0] == 'a' else '(polynomial)'
    return 'when ' + ', '.join('%s %s %s' % (nm(x), '<=>'[s + 1] if s else '=', nm(y)) for (x, y), s in list(a.signs.items())[:12])


def short(k, N):
    if isinstance(k, tuple) and k and k[0] == 't' and isinstance(k[1], int):
        return show(N.byid(k[1]))
    if isinstance(k, tuple) and k and k[0] == 'comp':
        x = k[1]
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'a' and isinstance(x[1], int):
            return '%s.%s' % (short(N.names[x[1]], N), 'xyz'[k[2]] if isinstance(k[2], int) and k[2] < 3 else k[2])
    return str(k)[:60]
