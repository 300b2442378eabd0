"""Members of the geometric entities: classification, motion, measures, boxes, inside and degeneracy tests."""
import itertools
import numpy as np
from .base import *
from .shell import deref
from .acme import KINDS, LINEAR, PLANAR, A
from .kernel import vertices
from .meet import leaf_terms, Geo, ORDER, fam_of_point, Family
from engine.cells import Eval, Unknown, norm

TOL = 1e-6
CLAMPABLE = {'point', 'segment', 'triangle', 'disk', 'ball'}
NR = 12


def rot(angle, axis):
    """rotation matrices, rows of angles and unit axes"""
    x, y, z = axis.T
    c, s = np.cos(angle), np.sin(angle)
    K = np.zeros((len(angle), 3, 3))
    K[:, 0, 1], K[:, 0, 2], K[:, 1, 0], K[:, 1, 2], K[:, 2, 0], K[:, 2, 1] = -z, y, z, -x, -y, x
    return np.eye(3) + s[:, None, None] * K + (1 - c)[:, None, None] * (K @ K)


def app(M, v):
    return np.einsum('nij,nj->ni', M, v)


def unit(x):
    return x / norm(x)[:, None]


class Obj:
    """generic values of the stored data of one entity; leaf name -> array or tuple of arrays"""

    def __init__(self, kind, g, n):
        V = lambda: np.array([g.vec() for _ in range(n)])
        R = lambda: g.r.uniform(.3, 2.5, n)
        self.kind = kind
        self.d = {'none': lambda: {}, 'point': lambda: {'p': V()}, 'line': lambda: {'origin': V(), 'direction': V()}, 'ray': lambda: {'origin': V(), 'direction': V()},
                  'plane': lambda: {'origin': V(), 'normal': V()}, 'segment': lambda: {'v': (V(), V())}, 'triangle': lambda: {'v': (V(), V(), V())},
                  'disk': lambda: {'radius': R(), 'center': V(), 'normal': V()}, 'ball': lambda: {'radius': R(), 'center': V()}}[kind]()

    def map(self, pt=None, dr=None):
        r = {}
        for k, x in self.d.items():
            if k in ('p', 'origin', 'center'):
                r[k] = pt(x) if pt else x
            elif k == 'v':
                r[k] = tuple(pt(y) for y in x) if pt else x
            elif k in ('direction', 'normal'):
                r[k] = dr(x) if dr else x
            else:
                r[k] = x
        return r


class Method:
    """one member function run on generic objects"""

    def __init__(self, ck, p, f, kind, obj, params, env=None):
        self.ck, self.f, self.kind, self.obj = ck, f, kind, obj
        self.it = it = ck.run(f, dyntype={THIS: A + kind}, env=env, disj_limit=40, max_states=600)
        self.leaves = leaf_terms(p, kind, THIS) if kind != 'none' else {}
        n = NR if not obj.d else len(next(iter([y if not isinstance(y, tuple) else y[0] for y in obj.d.values()])))
        e = {}
        for k, ts in self.leaves.items():
            for j, t in enumerate(ts):
                e[t] = obj.d[k][j] if isinstance(obj.d[k], tuple) else obj.d[k]
        self.n = n
        self.E = Eval({}, n)
        for i, x in enumerate(params):
            if isinstance(x, tuple):
                L, t = x
                self.E.A[init(P(it, i))] = x
                self.E.M[init(LF(P(it, i), '@linear'))] = L
                self.E.V[init(LF(P(it, i), '@translation'))] = t
            elif x is not None:
                e[init(P(it, i))] = x
        for t, v in e.items():
            v = np.asarray(v, float)
            (self.E.V if v.ndim == 2 else self.E.S)[t] = v
        self.exits = list(it.rets)

    def values(self, get, vec):
        """get(state, returned) -> term; array of the values on the exit each row takes"""
        if self.it.thrown:
            raise Unknown(mk('fresh', 'throws', 0))
        if len(self.exits) == 1:
            s, v = self.exits[0]
            t = get(s, v)
            return self.E.v(t) if vec else self.E.s(t)
        idx, M = self.E.exits([s.facts for s, v in self.exits])
        if (M.sum(0) == 0).any():
            raise Unknown(mk('fresh', 'no exit', 0))
        out, set_ = None, np.zeros(self.n, bool)
        for j, (s, v) in enumerate(self.exits):
            t = get(s, v)
            x = self.E.v(t) if vec else self.E.s(t).astype(float)
            out = x.copy() if out is None else out
            if not np.allclose(out[M[j] & set_], x[M[j] & set_], equal_nan=True):
                raise Unknown(mk('fresh', 'several exits', 0))
            out[M[j]] = x[M[j]]
            set_ |= M[j]
        return out

    def check(self, what, get, want, how='same'):
        """compare a value with the expected one"""
        want = np.asarray(want, float)
        try:
            x = self.values(get, want.ndim == 2)
        except Unknown as e:
            self.ck.require(None, self.f, what, show(e.args[0])[:200])
            return
        except AttributeError:
            self.ck.require(None, self.f, what, 'value not understood')
            return
        if how == 'same':
            d = np.abs(x - want)
            bad = ~(d <= 1e-9 * (1 + np.abs(want)))
        elif how == 'bool':
            bad = (x != 0) != (want != 0)
        elif how == 'dir':
            bad = ~((norm(np.cross(x, want)) <= 1e-9 * norm(x) * norm(want)) & ((x * want).sum(1) > 0))
        elif how == 'low':
            bad = ~(x <= want + 1e-9)
        elif how == 'high':
            bad = ~(x >= want - 1e-9)
        bad = bad.reshape(self.n, -1).any(1)
        w = ''
        if bad.any():
            i = int(bad.argmax())
            w = 'is %s instead of %s for %s' % (np.round(x[i], 4).tolist(), np.round(want[i], 4).tolist(), self.row(i))
        self.ck.require(not bad.any(), self.f, what, w)

    def row(self, i):
        r = []
        for k, x in self.obj.d.items():
            r.append('%s=%s' % (k, np.round(np.array([y[i] for y in x]) if isinstance(x, tuple) else x[i], 3).tolist()))
        return '%s(%s)' % (self.kind, ', '.join(r))

    def leaf(self, k, j, want, what, how='same'):
        loc = self.leaves[k][j].a[0]
        self.check(what, lambda s, v: self.it.load(s, loc), want, how)

    def state(self, want, what, dirs='same'):
        """every stored datum after the call"""
        for k, ts in self.leaves.items():
            for j in range(len(ts)):
                w = want[k][j] if isinstance(want[k], tuple) else want[k]
                self.leaf(k, j, w, '%s: %s%s' % (what, k, ' %d' % j if len(ts) > 1 else ''), dirs if k in ('direction', 'normal') else 'same')

    def ret(self, want, what, how='same'):
        self.check(what, lambda s, v: deref(self.it, (s, v)), want, how)


def own(p, kind, name):
    """definitions of a member, its own or inherited"""
    r = [f for f in p.fn(A + kind + '::' + name) if f.get('body')]
    return r or [f for f in p.fn(A + 'entity::' + name) if f.get('body')]


def types(f):
    return [strip(q['t']) for q in f['params']]


def members(ck):
    ck.rule = """The members of the nine kinds of entity are interpreted with the entity as the dynamic type of *this. Classification: constants of the
    type tests, level, type name and clampability fit together. Motion: every defining point is mapped by the translation,
    rotation or rigid transformation, directions and normals by its linear part only, radii not at all. Measures, vectors, edges,
    laying planes, boxes, inside and degeneracy tests: the value numbers of the results are identical to the geometric formula; identity of
    these expressions is decided by evaluating both at generic points (and on the cells of positions for the tests)."""
    p = ck.load('lib')
    classify(ck, p)
    motion(ck, p)
    measures(ck, p)
    blank(ck, p)
    boxes(ck, p)
    tests(ck, p)


def consts(ck, p, kind, name):
    fs = own(p, kind, name)
    if len(fs) != 1:
        return None, None
    it = ck.run(fs[0], dyntype={THIS: A + kind})
    vs = {v for s, v in it.rets}
    return fs[0], next(iter(vs)) if len(vs) == 1 and not it.thrown else None


def classify(ck, p):
    levels = {}
    for k in KINDS:
        for q in KINDS:
            f, v = consts(ck, p, k, 'is' + q.capitalize())
            if f:
                ck.require(None if v not in (TRUE, FALSE) else (v is TRUE) == (q == k), f, 'a %s is %sa %s' % (k, '' if q == k else 'not ', q), show(v))
            else:
                raise AnalysisBroken('%s::is%s not found' % (k, q.capitalize()))
        f, v = consts(ck, p, k, 'type')
        ck.require(None if v is None or v.op != 'str' else v.a[0] == k, f, 'the type name of a %s' % k, show(v))
        f, v = consts(ck, p, k, 'level')
        if v is not None and v.op == 'int':
            ck.require(v.a[0] not in levels and 0 <= v.a[0] < 100, f, 'the level tells a %s from the other kinds' % k, show(v))
            levels[v.a[0]] = k
        f, v = consts(ck, p, k, 'isClampable')
        ck.require(None if v not in (TRUE, FALSE) else (v is TRUE) == (k in CLAMPABLE), f, 'a %s is %s' % (k, 'bounded' if k in CLAMPABLE else 'not bounded'), show(v))
        f, v = consts(ck, p, k, 'isNonClampable')
        if k != 'none':
            ck.require(None if v not in (TRUE, FALSE) else (v is TRUE) == (k not in CLAMPABLE), f, 'non-clampable is the opposite of clampable for a %s' % k, show(v))


def blank(ck, p):
    """a default point holds no valid coordinates"""
    for f in p.fn(A + 'point::point'):
        if f['params'] or not f.get('body'):
            continue
        it = ck.run(f)
        for s, v in it.rets:
            x = it.load(s, THIS)
            if x is init(THIS):
                ok = False
            else:
                try:
                    ok = bool(np.isnan(Eval({}, 1).v(x)).all())
                except Unknown:
                    ok = None
            ck.require(ok, f, 'the coordinates of a default point are not-a-number', show(x)[:200])


def rigid(g, n):
    ax = np.array([g.unit() for _ in range(n)])
    an = g.r.uniform(.2, 2.8, n)
    return rot(an, ax), np.array([g.vec() for _ in range(n)]), an, ax


def motion(ck, p):
    for k in KINDS:
        g = Geo(7 + KINDS.index(k), True)
        o = Obj(k, g, NR)
        L, t, an, ax = rigid(g, NR)
        for f in own(p, k, 'translate'):
            Method(ck, p, f, k, o, [t]).state(o.map(lambda x: x + t), 'translation of a %s' % k)
        for f in own(p, k, 'transform'):
            Method(ck, p, f, k, o, [(L, t)]).state(o.map(lambda x: app(L, x) + t, lambda x: app(L, x)), 'rigid transformation of a %s' % k, 'dir')
        for f in own(p, k, 'rotate'):
            if types(f)[:1] == ['double']:
                Method(ck, p, f, k, o, [an, ax]).state(o.map(lambda x: app(L, x), lambda x: app(L, x)), 'rotation of a %s about an axis through the origin' % k, 'dir')
        if k == 'none':
            continue
        for f in own(p, k, 'reverse'):
            Method(ck, p, f, k, o, []).state(o.map(None, lambda x: -x), 'reversed %s' % k)
        for f in own(p, k, 'normalize'):
            Method(ck, p, f, k, o, []).state(o.map(None, unit), 'normalised %s' % k)
        for f in own(p, k, 'swap'):
            n = len(f['params'])
            m = len(o.d['v'])
            for i, j in ([(0, 1)] if n == 0 else itertools.product(range(m), repeat=2)):
                it0 = Interp(p)
                w = list(o.d['v'])
                w[i], w[j] = w[j], w[i]
                env = {} if n == 0 else {mk('V', 'p%d' % q, f['params'][q]['n']): Int(x) for q, x in enumerate((i, j))}
                Method(ck, p, f, k, o, [], env=env).state({'v': tuple(w)}, 'exchanged vertices %d and %d of a %s' % (i, j, k))


def measures(ck, p):
    for k in KINDS:
        g = Geo(27 + KINDS.index(k), True)
        o = Obj(k, g, NR)
        d = o.d
        q = np.array([g.vec() for _ in range(NR)])
        W = {}
        if k in ('line', 'ray'):
            W = {'toVector': d['direction'], 'toUnitVector': unit(d['direction'])}
        elif k == 'segment':
            e = d['v'][1] - d['v'][0]
            W = {'toVector': e, 'toUnitVector': unit(e), 'length': norm(e), 'centroid': (d['v'][0] + d['v'][1]) / 2}
        elif k == 'triangle':
            a, b, c = d['v']
            x = np.cross(b - a, c - a)
            W = {'normal': unit(x), 'area': norm(x) / 2, 'perimeter': norm(b - a) + norm(c - b) + norm(a - c), 'centroid': (a + b + c) / 3}
        elif k == 'plane':
            n = unit(d['normal'])
            h = ((q - d['origin']) * n).sum(1)
            W = {'unitNormal': n, 'd': -(d['origin'] * d['normal']).sum(1), 'signedDistance': h, 'distance': np.abs(h), 'squaredDistance': h * h}
        elif k == 'disk':
            W = {'perimeter': 2 * np.pi * d['radius'], 'area': np.pi * d['radius'] ** 2}
        elif k == 'ball':
            W = {'area': 4 * np.pi * d['radius'] ** 2, 'volume': 4 / 3 * np.pi * d['radius'] ** 3}
        for name, want in W.items():
            for f in [f for f in p.fn(A + k + '::' + name) if f.get('body')]:
                m = Method(ck, p, f, k, o, [q] if f['params'] else [])
                m.ret(want, '%s of a %s' % (name, k))
                m.state(d, '%s leaves the %s as it is' % (name, k))
        if k in ('triangle', 'segment'):
            for name in ('vertex', 'operator[]'):
                for f in p.fn(A + k + '::' + name):
                    for i in range(len(d['v'])):
                        Method(ck, p, f, k, o, [], env={mk('V', 'p0', f['params'][0]['n']): Int(i)}).ret(d['v'][i], 'vertex %d of a %s' % (i, k))
        if k == 'triangle':
            a, b, c = d['v']
            for f in p.fn(A + k + '::edge'):
                for i in range(3):
                    m = Method(ck, p, f, k, o, [], env={mk('V', 'p0', f['params'][0]['n']): Int(i)})
                    for j in range(2):
                        m.check('edge %d of a triangle: vertex %d' % (i, j), lambda s, v: m.it.load(s, vertices(p, 'segment', v.a[0], 2)[j].a[0]), d['v'][(i + j) % 3])
            for f in p.fn(A + k + '::barycentric'):
                if len(f['params']) != 4:
                    continue
                u, v = g.r.uniform(-1, 1.5, NR), g.r.uniform(-1, 1.5, NR)
                m = Method(ck, p, f, k, o, [a + u[:, None] * (b - a) + v[:, None] * (c - a)])
                for j, w in enumerate((1 - u - v, u, v)):
                    m.check('barycentric coordinate %d' % j, lambda s, r: m.it.load(s, P(m.it, j + 1)), w)
        if k in ('triangle', 'disk'):
            pt, n = (d['v'][0], np.cross(d['v'][1] - d['v'][0], d['v'][2] - d['v'][0])) if k == 'triangle' else (d['center'], d['normal'])
            for f in p.fn(A + k + '::layingPlane'):
                m = Method(ck, p, f, k, o, [])
                pl = lambda nm: lambda s, v: m.it.load(s, leaf_terms(p, 'plane', v.a[0])[nm][0].a[0])
                m.check('normal of the plane of a %s' % k, pl('normal'), n, 'dir')
                try:
                    org = m.values(pl('origin'), True)
                    off = np.abs(((org - pt) * unit(n)).sum(1)).max()
                    ck.require(bool(off < 1e-9), f, 'the plane of a %s contains it' % k, 'its origin is off by %g' % off)
                except Unknown as e:
                    ck.require(None, f, 'the plane of a %s contains it' % k, show(e.args[0])[:200])


def boxes(ck, p):
    for k in KINDS:
        g = Geo(47 + KINDS.index(k), True)
        o = Obj(k, g, 24)
        d = o.d
        if k == 'point':
            lo = hi = d['p']
        elif k in ('segment', 'triangle'):
            lo, hi = np.minimum.reduce(d['v']), np.maximum.reduce(d['v'])
        elif k == 'ball':
            lo, hi = d['center'] - d['radius'][:, None], d['center'] + d['radius'][:, None]
        elif k == 'disk':
            n = unit(d['normal'])
            w = d['radius'][:, None] * np.sqrt(1 - n * n)
            lo, hi = d['center'] - w, d['center'] + w
            ball = d['center'] - d['radius'][:, None], d['center'] + d['radius'][:, None]
        for f in [f for f in p.fn(A + k + '::clamp') if f.get('body')]:
            n = len(f['params'])
            old = [np.full((24, 3), 7.5)] * 2 if n == 2 else [np.full(24, 7.5)] * 6
            m = Method(ck, p, f, k, o, old)
            m.ret(np.full(m.n, float(k in CLAMPABLE)), 'a box is reported exactly for bounded entities (%s)' % k, 'bool')
            if k not in CLAMPABLE:
                continue
            for j in range(2):
                w = (lo, hi)[j]
                for c in range(3):
                    get = (lambda s, v: m.it.comp(m.it.load(s, P(m.it, j)), Int(c))) if n == 2 else (lambda s, v: m.it.load(s, P(m.it, 3 * j + c)))
                    txt = 'box of a %s: %s %s' % (k, ('lower', 'upper')[j], 'xyz'[c])
                    if k == 'disk':
                        m.check(txt + ' encloses it', get, w[:, c], ('low', 'high')[j])
                        m.check(txt + ' no larger than that of its ball', get, ball[j][:, c], ('high', 'low')[j])
                    else:
                        m.check(txt, get, w[:, c])


def stack(kind, rows):
    o = Obj.__new__(Obj)
    o.kind, o.d = kind, {}
    for k in rows[0]:
        o.d[k] = tuple(np.array([r[k][j] for r in rows]) for j in range(len(rows[0][k]))) if isinstance(rows[0][k], tuple) else np.array([r[k] for r in rows], float)
    return o


def tests(ck, p):
    for k in KINDS:
        if k in ('none', 'point'):
            continue
        for f in [f for f in p.fn(A + k + '::isInside') if f.get('body')]:
            if k == 'ball':
                rows = []
                g = Geo(3, False)
                for h in (0, .3, .95, 1.05, 2, 7):
                    for _ in range(4):
                        c, r = g.vec(), g.r.uniform(.4, 2)
                        rows.append((({'p': c + h * r * g.unit()}, {'radius': r, 'center': c}), h < 1))
                groups = {'a point in or beside a ball': rows}
            else:
                F = fam_of_point(ck, ['point', k], 'point')
                groups = {}
                for label, i0, kk, W in F.groups:
                    groups.setdefault(label, []).extend((F.rows[i][0], F.rows[i][1] is not None) for i in range(i0, i0 + len(W)))
            for label, rows in groups.items():
                o = stack(k, [r[0][1] for r in rows])
                pts = np.array([r[0][0]['p'] for r in rows])
                Method(ck, p, f, k, o, [pts, np.full(len(rows), TOL)]).ret([float(r[1]) for r in rows], 'inside a %s: %s' % (k, label), 'bool')
    for k in KINDS:
        g = Geo(67 + KINDS.index(k), True)
        for f in own(p, k, 'isDegenerated'):
            o = Obj(k, g, NR)
            Method(ck, p, f, k, o, [np.full(NR, TOL)]).ret(np.full(NR, float(k == 'none')), 'degenerate: a proper %s' % k, 'bool')
            for leaf in list(o.d):
                near = [(tl, q) for tl in (1e-2, 1e-10) for q in (.9, 1.1)] if k != 'disk' or leaf == 'radius' else []
                if leaf in ('direction', 'normal', 'radius'):
                    for tl, q in near:
                        o2 = Obj(k, g, NR)
                        x = o2.d[leaf]
                        o2.d[leaf] = x / (norm(x)[:, None] if x.ndim == 2 else np.abs(x)) * (tl * q)
                        Method(ck, p, f, k, o2, [np.full(NR, tl)]).ret(np.full(NR, float(q < 1)), 'degenerate: a %s whose %s is %s the tolerance' % (k, leaf, 'below' if q < 1 else 'above'), 'bool')
                    o2 = Obj(k, g, NR)
                    o2.d[leaf] = o2.d[leaf] * 0
                    Method(ck, p, f, k, o2, [np.full(NR, TOL)]).ret(np.ones(NR), 'degenerate: a %s with zero %s' % (k, leaf), 'bool')
                elif leaf == 'v':
                    for i, j in itertools.combinations(range(len(o.d['v'])), 2):
                        o2 = Obj(k, g, NR)
                        v = list(o2.d['v'])
                        for tl, q in near:
                            u = np.array([g.unit() for _ in range(NR)])
                            v[j] = v[i] + u * (tl * q)
                            o2.d['v'] = tuple(v)
                            Method(ck, p, f, k, o2, [np.full(NR, tl)]).ret(np.full(NR, float(q < 1)), 'degenerate: a %s with vertices %d and %d %s the tolerance apart' % (k, i, j, 'less than' if q < 1 else 'more than'), 'bool')
                        v[j] = v[i].copy()
                        o2.d['v'] = tuple(v)
                        Method(ck, p, f, k, o2, [np.full(NR, TOL)]).ret(np.ones(NR), 'degenerate: a %s with coincident vertices %d and %d' % (k, i, j), 'bool')
