"""Rules about the typed geometric tests and intersections."""
import numpy as np
from .base import *
from .shell import veq, deref
from .rib import at, add, sub, mul, call
from .ground import accpath_vertex, atoms_of, prop_eval
from .acme import KINDS, LINEAR, PLANAR, A, kind_of
from engine.ident import same

VEC3 = 'Eigen::Matrix<double, 3, 1, 0, 3, 1>'


class Ent:
    """what an operand is: its direction or normal, the points that fix its place"""

    def __init__(self, p, kind, loc):
        self.kind, self.loc = kind, loc
        self.pts, self.dir, self.nrm = [], None, None
        g = lambda n: init(at(p, A + kind, n, loc))
        if kind in ('line', 'ray'):
            self.dir, self.pts = g('direction'), [g('origin')]
        elif kind == 'plane':
            self.nrm, self.pts = g('normal'), [g('origin')]
        elif kind == 'disk':
            self.nrm, self.pts = g('normal'), [g('center')]
        elif kind == 'segment':
            v = vertices(p, kind, loc, 2)
            self.dir, self.pts = call('normalized', sub(v[1], v[0])), v
        elif kind == 'triangle':
            v = vertices(p, kind, loc, 3)
            self.nrm = call('normalized', call('cross', sub(v[1], v[0]), sub(v[2], v[0])))
            self.pts = v + [mkop('v/', add(add(v[0], v[1]), v[2]), Real(3.0))]
        elif kind == 'vector':
            self.dir = init(loc)

    @property
    def linear(self):
        return self.dir is not None

    @property
    def char(self):
        return self.dir if self.dir is not None else self.nrm


def vertices(p, kind, loc, n):
    nm = [f['n'] for _, f in p.all_fields(A + kind) if '[' in f['t'] or 'array' in f['t']]
    if len(nm) != 1:
        raise AnalysisBroken('vertices of a %s not found' % kind)
    return [init(LI(LF(loc, nm[0]), Int(i))) for i in range(n)]


def par(a, b): return ('par', call('norm', call('cross', a, b)), (a, b))
def orth(a, b): return ('orth', call('dot', a, b), (a, b))
def near(x): return ('near', x, None)


def wanted(name, x, y):
    """[(text, [variants])]: the conditions whose conjunction the test means; any one variant of each"""
    L = [e for e in (x, y) if e.linear]
    Pn = [e for e in (x, y) if not e.linear]
    a, b = x.char, y.char
    if name == 'IsParallel':
        return [('directions parallel', [orth(a, b) if len(L) == 1 else par(a, b)])]
    if name == 'IsOrthogonal':
        return [('directions orthogonal', [par(a, b) if len(L) == 1 else orth(a, b)])]
    diff = [sub(q, r) for q in x.pts for r in y.pts]
    if name == 'IsCollinear':
        return [('directions parallel', [par(a, b)]), ('connection of the two along the direction', [par(d, q) for d in (a, b) for q in diff])]
    if len(L) == 2:
        return [('both lines in a plane', [orth(q, call('cross', a, b)) for q in diff] + [near(call('dot', q, call('cross', a, b))) for q in diff])]
    if len(L) == 1:
        return [('direction in the plane', [orth(a, b)]), ('origin in the plane', [orth(Pn[0].nrm, q) for q in diff] + [near(call('dot', Pn[0].nrm, q)) for q in diff])]
    return [('normals parallel', [par(a, b)]), ('one plane contains a point of the other', [near(call('dot', n, q)) for n in (a, b) for q in diff])]


def plain(t):
    """stored directions and normals have unit length: normalising them again changes nothing"""
    m = {}
    for x in subterms(t):
        if x.op == 'call' and x.a[0] == 'normalized' and x.a[1].op == 'init':
            m[x] = x.a[1]
    return subst(t, m) if m else t


def absval(t):
    while t.op == 'call' and t.a[0] in ('abs', 'fabs'):
        t = t.a[1]
    return t


def shape(t, tol):
    """a comparison as (form, terms): ('orth', a, b) for the relative test, ('small', x) for |x| within tolerance; None if not understood"""
    if t.op == 'call' and t.a[0] == 'isOrthogonal' and len(t.a) == 4 and t.a[3] is tol:
        return ('orth', t.a[1], t.a[2])
    if t.op == 'op' and t.a[0] in ('<', '<=') and t.a[2] is tol:
        x = t.a[1]
        if x.op == 'call' and x.a[0] in ('abs', 'fabs', 'norm', 'sqrt', 'stableNorm'):
            return ('small', x)
        return ('signed', x)
    return None


def matches(sh, var):
    form, x, ab = var
    if sh[0] == 'orth':
        if form != 'orth':
            return False
        return any(same(plain(sh[1]), s1, True) and same(plain(sh[2]), s2, True)
                   for u, v in (ab, ab[::-1]) for s1 in (u, mkop('neg', u)) for s2 in (v, mkop('neg', v)))
    y = plain(absval(sh[1]))
    return any(same(y, z) for z in (x, mkop('neg', x)))


def predicates(ck):
    ck.rule = """Every typed overload of the four tests is interpreted down to comparisons on the stored data of the operands.  With the direction
    of lines, rays, segments and vectors and the normal of planes, triangles and disks, parallel means directions (or normals) parallel, for a
    direction and a normal orthogonal; orthogonal the reverse; collinear that the directions and the connection of two points are parallel;
    coplanar that the connection is orthogonal to the product of the directions, or the direction and the connection are orthogonal to the
    normal, or the normals are parallel and one plane holds a point of the other.  Each comparison reached must be one of these, within the
    tolerance of the caller, and the value of each exit must be their conjunction (truth table over the comparisons)."""
    p = ck.load('lib')
    n = 0
    for name in ('IsParallel', 'IsOrthogonal', 'IsCollinear', 'IsCoplanar'):
        for f in p.byname.get(A + name, []):
            if not f.get('body') or len(f['params']) != 3:
                continue
            ts = [strip(q['t'].replace('*', '').strip()) for q in f['params']]
            if ts[0] == A + 'entity':
                continue
            n += 1
            predicate(ck, p, f, name, ts)
    if n < 40:
        raise AnalysisBroken('only %d typed tests found' % n)


def predicate(ck, p, f, name, ts):
    it = ck.run(f)
    ks = ['vector' if t == VEC3 else t[len(A):] for t in ts[:2]]
    x, y = [Ent(p, k, P(it, i)) for i, k in enumerate(ks)]
    tol = init(P(it, 2))
    want = wanted(name, x, y)
    ck.require(not it.thrown, f, 'answers without error', 'raises an error')
    exits = [(s, deref(it, (s, v))) for s, v in it.rets]
    ats = set()
    for s, v in exits:
        atoms_of(v, ats)
        for c in s.facts:
            atoms_of(c, ats)
    ats = {a for a in ats if a.op != 'bool'}
    role, unknown = {}, False
    for a in ats:
        sh = shape(a, tol)
        if sh is None:
            if poisoned(a) or contains(a, tol):
                unknown = True
                ck.require(None, f, 'comparisons recognised', show(a))
            else:
                alt = None
                if a.op == 'op' and a.a[0] in ('<', '<='):
                    alt = shape(mk('op', a.a[0], a.a[1], tol), tol)
                elif a.op == 'call' and a.a[0] == 'isOrthogonal' and len(a.a) >= 3:
                    alt = ('orth', a.a[1], a.a[2])
                fixed = alt is not None and any(matches(alt, v) for _, vs in want for v in vs)
                unknown = True
                ck.require(False if fixed else None, f, 'the tolerance of the caller is used', show(a))
            continue
        if sh[0] == 'signed':
            ck.require(False if any(same(plain(sh[1]), z) for _, vs in want for v in vs for z in (v[1], mkop('neg', v[1]))) else None, f,
                       'the magnitude is compared', show(a))
            unknown = True
            continue
        r = [i for i, (_, vs) in enumerate(want) if any(matches(sh, v) for v in vs)]
        if r:
            role[a] = r
        else:
            unknown = True
            ck.require(None if poisoned(a) else False, f, 'every comparison is one the test means: %s' % '; '.join(w for w, _ in want), show(a))
    if unknown:
        sampled(ck, p, f, it, ks, want, exits, tol)
        return
    import itertools
    for vals in itertools.product((True, False), repeat=len(want)):
        env = {a: any(vals[i] for i in r) if len(r) == 1 else all(vals[i] for i in r) for a, r in role.items()}
        got = set()
        for s, v in exits:
            if all(prop_eval(c, env) in (None, w) for c, w in s.facts.items()):
                got.add(prop_eval(v, env))
        exp = all(vals)
        txt = ', '.join('%s: %s' % (w, 'yes' if b else 'no') for (w, _), b in zip(want, vals))
        ck.require(got == {exp} if None not in got else None, f, 'answer is %s for %s' % (exp, txt), 'answers %s' % sorted(map(str, got)))


# configurations for the predicates that compare in a way of their own
STOL = 1e-6


def placements():
    """(characteristic direction, point) of both operands: every relation of the directions with every way the points are connected"""

    rng = np.random.RandomState(7)
    rows = []
    for k in range(4):
        a = rng.randn(3) if k else np.array([1., 0., 0.])
        a /= np.linalg.norm(a)
        o = np.cross(a, [.3, -.5, .7] if k else [0., 1., 0.])
        o /= np.linalg.norm(o)
        g = .6 * a + .8 * o if k % 2 else a + .3 * o - .4 * np.cross(a, o)
        g = g / np.linalg.norm(g)
        P = rng.randn(3) if k else np.zeros(3)
        for b in (a, -a, o, np.cross(a, o), g):
            for d in (0 * a, 2. * a, -1.5 * a, 1.2 * o, -2.5 * np.cross(a, o), a + o, 1.1 * a - .6 * o + .8 * np.cross(a, o), 2. * b):
                rows.append((a, b, P, P + d))
    return rows


def place_values(kind, c, P):

    if kind == 'vector':
        return {'vec': 1.7 * c}
    if kind in ('line', 'ray'):
        return {'origin': P, 'direction': c}
    if kind == 'plane':
        return {'origin': P, 'normal': c}
    if kind == 'disk':
        return {'radius': 1.3, 'center': P, 'normal': c}
    if kind == 'segment':
        return {'v': [P, P + 1.7 * c]}
    u = np.cross(c, [.2, .9, -.4])
    u /= np.linalg.norm(u)
    w = np.cross(c, u)
    return {'v': [P, P + 1.1 * u, P + .4 * u + 1.3 * w]}


def sampled(ck, p, f, it, ks, want, exits, tol):
    """exits evaluated on all placements; a wrong answer is one on a placement where the meaning of the test is not in doubt"""

    from engine.cells import Eval, Unknown
    from .meet import leaf_terms
    if any(k not in ('vector', 'line', 'ray', 'plane', 'disk', 'segment', 'triangle') for k in ks):
        return
    rows = placements()
    N = len(rows)
    env = {tol: np.full(N, STOL)}
    for i, k in enumerate(ks):
        vals = [place_values(k, r[i], r[2 + i]) for r in rows]
        if k == 'vector':
            env[init(P(it, i))] = np.array([v['vec'] for v in vals])
            continue
        for nm, ts in leaf_terms(p, k, P(it, i)).items():
            for j, t in enumerate(ts):
                env[t] = np.array([v[nm][j] if len(ts) > 1 else v[nm] for v in vals], float)
    E = Eval(env, N)
    try:
        exp, sure = np.ones(N, bool), np.ones(N, bool)
        for _, vs in want:
            hold = []
            for form, x, ab in vs:
                m = np.abs(E.s(x))
                lim = STOL * (np.linalg.norm(E.v(ab[0]), axis=1) * np.linalg.norm(E.v(ab[1]), axis=1) if form == 'orth' else 1.0)
                hold.append(m <= lim)
                sure &= (m <= 1e-3 * lim) | (m >= 1e3 * lim)
            h = np.array(hold)
            sure &= h.all(0) | ~h.any(0)
            exp &= h.any(0)
        idx, M = E.exits([s.facts for s, v in exits])
        val = [E.b(v) for s, v in exits]
    except Unknown as e:
        ck.require(None, f, 'conditions understood', show(e.args[0])[:300])
        return
    for i in range(N):
        if not sure[i]:
            continue
        cand = {bool(val[j][i]) for j in range(len(exits)) if M[j, i]}
        if cand == {not exp[i]}:
            a, b, p0, p1 = (np.round(x, 3).tolist() for x in rows[i])
            ck.require(False, f, 'answer is %s where %s' % (bool(exp[i]), '; '.join(w for w, _ in want) + (' all hold' if exp[i] else ' do not all hold')),
                       'answers %s for directions or normals %s and %s at %s and %s' % (not exp[i], a, b, p0, p1))
            return
    ck.require(True, f, 'answers right on %d placements' % N)
