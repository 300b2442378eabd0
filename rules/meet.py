"""Typed intersections against the true intersection of the operands, by exhaustive case analysis over their relative positions."""
import itertools
import numpy as np
from .base import *
from .shell import deref
from .rib import at
from .acme import KINDS, LINEAR, PLANAR, A
from engine.cells import Eval, Unknown, norm

TOL = 1e-6


def V(*x):
    return np.array(x, float)


class Geo:
    """reproducible geometry of one seed"""

    def __init__(self, seed, scaled):
        self.r = np.random.RandomState(1000 + seed)
        self.scaled = scaled

    def vec(self):
        return self.r.uniform(-2, 2, 3)

    def unit(self):
        while True:
            x = self.r.uniform(-1, 1, 3)
            n = np.linalg.norm(x)
            if .2 < n < 1:
                return x / n

    def scale(self):
        return self.r.uniform(.4, 2.5) if self.scaled else 1.0

    def sgn(self):
        return 1.0 if self.r.uniform() < .5 else -1.0

    def across(self, n, lo=.35):
        """unit direction clearly not orthogonal to n nor parallel to it"""
        while True:
            d = self.unit()
            c = abs(d @ n) / np.linalg.norm(n)
            if lo < c < .93:
                return d

    def frame(self, n):
        e = np.cross(n, self.across(n))
        e /= np.linalg.norm(e)
        return e, np.cross(n, e)

    def inplane(self, n):
        e, f = self.frame(n)
        a = self.r.uniform(0, 6.28)
        return np.cos(a) * e + np.sin(a) * f


# ---------------------------------------------------------------- operands in general position: [(name, inside, corners)], leaves(params)
def linear(kind, g, O, d):
    s = g.scale()
    if kind == 'line':
        return [('', True, [(-3,), (4,)])], lambda c: {'origin': O - c * d, 'direction': d * s}
    if kind == 'ray':
        return [('ahead', True, [(.01,), (4,)]), ('behind', False, [(-4,), (-.01,)]), ('at the origin', True, [(0,)])], \
            lambda c: {'origin': O - c * d, 'direction': d * s}
    ln = g.r.uniform(.8, 3)
    return [('between the ends', True, [(.01,), (.99,)]), ('before the first end', False, [(-3,), (-.01,)]), ('beyond the second end', False, [(1.01,), (3,)]),
            ('at the first end', True, [(0,)]), ('at the second end', True, [(1,)])], \
        lambda c: {'v': (O - c * ln * d, O + (1 - c) * ln * d)}


def outside():
    """the regions around a triangle cut out by the lines on which a barycentric coordinate is 0 or 1, as (u, v) of O + u E1 + v E2"""
    r = []
    for txt, pts in (('beyond an edge', [(.505, .505, -.01), (.02, .99, -.01), (.99, .02, -.01), (.99, .99, -.98)]),
                     ('beyond an edge', [(1.2, .2, -.4), (1.2, .7, -.9), (1.8, .4, -1.2)]), ('beyond an edge', [(1.3, 1.3, -1.6), (2, 1.2, -2.2), (1.2, 2, -2.2)]),
                     ('beyond a vertex', [(1.4, -.2, -.2), (2.5, -1.2, -.3), (2.5, -.3, -1.2)])):
        seen = set()
        for pm in itertools.permutations(range(3)):
            q = frozenset(tuple(x[i] for i in pm) for x in pts)
            if q not in seen:
                seen.add(q)
                r.append((txt, False, [(x[1], x[2]) for x in sorted(q)]))
    return r


OUTSIDE = outside()


def planar(kind, g, O, n):
    e, f = g.frame(n)
    if kind == 'plane':
        s = g.scale()
        return [('', True, [(-3, -3), (3, -3), (-3, 3), (3, 3)])], lambda u, v: {'origin': O + u * e + v * f, 'normal': n * s}
    if kind == 'disk':
        r, s = g.r.uniform(.7, 2), g.scale()
        return [('inside the rim', True, [(-.99,), (.99,)]), ('outside the rim', False, [(1.01,), (3,)]), ('outside the rim', False, [(-3,), (-1.01,)])], \
            lambda u: {'radius': r, 'center': O + u * r * e, 'normal': n * s}
    a = g.r.uniform(.6, 2.4)
    E1, E2 = g.r.uniform(.8, 2) * e, g.r.uniform(.8, 2) * (np.cos(a) * e + g.sgn() * np.sin(a) * f)
    return [('inside', True, [(.01, .01), (.98, .01), (.01, .98)]), ('on the first edge', True, [(.02, 0), (.98, 0)]), ('on the last edge', True, [(0, .02), (0, .98)]),
            ('on the edge opposite to the first vertex', True, [(.98, .02), (.02, .98)]), ('at the first vertex', True, [(0, 0)]), ('at the second vertex', True, [(1, 0)]),
            ('at the third vertex', True, [(0, 1)])] + OUTSIDE, \
        lambda u, v: {'v': (O - u * E1 - v * E2, O + (1 - u) * E1 - v * E2, O - u * E1 + (1 - v) * E2)}


LENGTHS = {'p', 'v', 'origin', 'center', 'radius'}
OF_KIND = {'point': 'l', 'segment': 'll', 'triangle': 'lll', 'line': 'ld', 'ray': 'ld', 'plane': 'ld', 'disk': 'lld'}


def resize(row, k):
    """the same configuration with all lengths multiplied by k"""
    if k == 1:
        return row
    lv, e = row
    mul = lambda x: tuple(mul(y) for y in x) if isinstance(x, tuple) else x * k
    lv = [{n: mul(x) if n in LENGTHS else x for n, x in l.items()} for l in lv]
    if isinstance(e, tuple):
        e = (e[0],) + tuple(mul(x) if c == 'l' else x for c, x in zip(OF_KIND[e[0]], e[1:]))
    return lv, e


class Family:
    """configurations of one overload: points grouped into cells, with the expected answer"""

    def __init__(self):
        self.rows, self.groups = [], []

    def cell(self, label, corners, make, extra=3, seed=0):
        """make(*params) -> (leaves per operand, expected)"""
        r = np.random.RandomState(seed)
        k = len(corners)
        W = np.vstack([np.eye(k)] + ([r.dirichlet(np.ones(k), extra)] if k > 1 else []))
        C = np.array(corners, float).reshape(k, -1)
        i0 = len(self.rows)
        for w in W:
            self.rows.append(resize(make(*(w @ C)), (1, .2, 5)[seed % 3]))
        self.groups.append((label, i0, k, W))

    def one(self, label, leaves, exp):
        self.cell(label, [()], lambda: (leaves, exp))

    def product(self, label, g, parts, exp, seed=0):
        """parts: [(cells, leaves)] of the operands; exp(insides, all leaves) -> expected"""
        for combo in itertools.product(*[c for c, _ in parts]):
            corners = [sum(map(tuple, x), ()) for x in itertools.product(*[c[2] for c in combo])]
            ns = [len(c[2][0]) for c in combo]

            def make(*ps, combo=combo, ns=ns):
                lv, i = [], 0
                for (cs, fn), n in zip(parts, ns):
                    lv.append(fn(*ps[i:i + n]))
                    i += n
                return lv, exp([c[1] for c in combo], lv)
            self.cell(label + ''.join(', ' + c[0] for c in combo if c[0]), corners, make, seed=seed)


# ---------------------------------------------------------------- operands on a common line: interval on the axis
INF = 1e9


def on_axis(kind, O, d, lo, hi, flip=False, s=1.0):
    if kind == 'line':
        return {'origin': O + lo * d, 'direction': (-d if flip else d) * s}
    if kind == 'ray':
        return {'origin': O + (hi if flip else lo) * d, 'direction': (-d if flip else d) * s}
    return {'v': (O + hi * d, O + lo * d) if flip else (O + lo * d, O + hi * d)}


def chord(kind, g, O, d, n, lo, hi, form, f):
    """planar figure in the plane (O, n) whose chord on the line (O, d) is [lo, hi]; form: how the line crosses it"""
    p, q = O + lo * d, O + hi * d
    w = f * g.sgn()
    mid = (p + q) / 2
    if kind == 'plane':
        return {'origin': O + g.r.uniform(-2, 2) * d + g.r.uniform(-2, 2) * w, 'normal': n * g.scale()}
    if kind == 'disk':
        h = 0.0 if form == 0 else g.r.uniform(.2, .8)
        return {'radius': np.hypot(h, (hi - lo) / 2), 'center': mid + h * w, 'normal': n * g.scale()}
    a = mid + g.r.uniform(.8, 1.6) * w + g.r.uniform(-.7, .7) * d
    s1 = 1.0 if form in (1, 3) else g.r.uniform(.3, .75)
    s2 = 1.0 if form in (2, 3) else g.r.uniform(.3, .75)
    b, c = a + (p - a) / s1, a + (q - a) / s2
    if s1 == 1:
        b = p
    if s2 == 1:
        c = q
    vs = [a, b, c]
    k = g.r.randint(3)
    vs = vs[k:] + vs[:k]
    return {'v': tuple(vs[::-1] if g.r.uniform() < .5 else vs)}


FORMS = {'plane': (0,), 'disk': (0, 1), 'triangle': (0, 1, 2, 3)}
FORMTXT = {'plane': ('',), 'disk': ('through the centre', 'beside the centre'),
           'triangle': ('through two edges', 'through a vertex and an edge', 'through an edge and a vertex', 'along an edge')}


def apart(kind, g, O, d, n, f):
    """planar figure of the plane (O, n) that does not reach the line (O, d)"""
    w = f * g.sgn()
    if kind == 'disk':
        r = g.r.uniform(.5, 1.5)
        return {'radius': r, 'center': O + g.r.uniform(-1, 1) * d + (r + g.r.uniform(.3, 2)) * w, 'normal': n * g.scale()}
    k = g.r.randint(3)
    vs = [O + g.r.uniform(.3, .6) * w + g.r.uniform(-1.5, -.5) * d, O + g.r.uniform(.3, .6) * w + g.r.uniform(.5, 1.5) * d, O + g.r.uniform(1, 2) * w]
    return {'v': tuple(vs[k:] + vs[:k])}


def intervals(kind):
    """positions of an operand on the axis relative to [0, 1]: (text, lo, hi, flip), corners of (lo, hi)"""
    if kind == 'line':
        return [('', -INF, INF, fl, [(x, 0) for x in (-2, 3)]) for fl in (False, True)]
    if kind == 'ray':
        pos = [('before', [(-3,), (-.2,)]), ('between', [(.2,), (.8,)]), ('after', [(1.2,), (3,)])]
        return [('ray from %s, %s' % (t, 'backward' if fl else 'forward'), None, None, fl, c) for t, c in pos for fl in (False, True)]
    cls = [('before', -3, -.2), ('at the start', 0, 0), ('between', .2, .8), ('at the end', 1, 1), ('after', 1.2, 3)]
    r = []
    for (i, (t1, a, b)), (j, (t2, c, d)) in itertools.product(enumerate(cls), enumerate(cls)):
        if i > j or i == j and a == b:
            continue
        if i == j:
            m = (a + b) / 2
            pts = [(x, y) for x in {a, m - .15 * (b - a)} for y in {b, m + .15 * (b - a)}]
        else:
            pts = [(x, y) for x in {a, b} for y in {c, d}]
        for fl in (False, True):
            r.append(('segment from %s to %s%s' % (t1, t2, ', reversed' if fl else ''), None, None, fl, pts))
    return r


def span(kind, fl, ps):
    if kind == 'line':
        return (-INF, INF)
    if kind == 'ray':
        return (-INF, ps[0]) if fl else (ps[0], INF)
    return (ps[0], ps[1])


def place(kind, O, d, fl, ps, s=1.0):
    if kind == 'segment':
        return on_axis(kind, O, d, ps[0], ps[1], fl, s)
    return on_axis(kind, O, d, ps[0], ps[0], fl, s)


# ---------------------------------------------------------------- families
SEEDS = ((1, False), (2, False), (3, True))


def seeds(ck):
    return SEEDS if ck.tier == 'quick' else tuple((i, i % 3 == 0) for i in range(1, 13))


def fam_point(ck, ks):
    """two operands crossing in one point, or parallel"""
    F = Family()
    a, b = ks
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O = g.vec()
        exp = lambda ins, lv: ('point', O) if all(ins) else None
        if a in LINEAR and b in LINEAR:
            d1 = g.unit()
            d2 = g.across(d1, .2)
            F.product('crossing', g, [linear(a, g, O, d1), linear(b, g, O, d2)], exp, sd)
            h = g.inplane(d1) * g.r.uniform(.5, 2)
            for off, t in ((h, 'parallel'), (h * 0, 'collinear')):
                for sg in (1, -1):
                    F.product(t, g, [linear(a, g, O, d1), linear(b, g, O + off, sg * d1)], lambda ins, lv: None, sd)
            continue
        k, x = (a, b) if a in LINEAR else (b, a)
        n = g.unit()
        for sg in (1, -1):
            d = sg * g.across(n)
            parts = [linear(k, g, O, d), planar(x, g, O, n)]
            F.product('crossing', g, parts if k is a else parts[::-1], exp, sd)
        for h, t in ((0, 'in the plane'), (.7, 'parallel'), (-.7, 'parallel')):
            parts = [linear(k, g, O + h * n, g.inplane(n)), planar(x, g, O, n)]
            F.product(t, g, parts if k is a else parts[::-1], lambda ins, lv: None, sd)
    return F


def shift(lv, v):
    r = {}
    for k, x in lv.items():
        r[k] = tuple(y + v for y in x) if k == 'v' else x + v if k in ('origin', 'center') else x
    return r


def as_out(kind, lv):
    if kind in ('line', 'ray'):
        return (kind, lv['origin'], lv['direction'])
    if kind == 'segment':
        return ('segment',) + lv['v']
    if kind == 'plane':
        return ('plane', lv['origin'], lv['normal'])
    if kind == 'triangle':
        return ('triangle',) + lv['v']
    return ('disk', lv['radius'], lv['center'], lv['normal'])


def axis_result(out, a, b, O, d, lva=None):
    """expected result of kind `out` for the intersection of the intervals a, b on the axis; 'skip' for a single touching point"""
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    if hi - lo < -1e-9:
        return None
    if hi - lo < 1e-9:
        return 'skip'
    unb = (lo <= -INF / 2) + (hi >= INF / 2)
    if out == 'segment':
        return ('segment', O + lo * d, O + hi * d) if unb == 0 else None
    if out == 'ray':
        return (('ray', O + lo * d, d) if hi >= INF / 2 else ('ray', O + hi * d, -d)) if unb == 1 else None
    return ('line', O, d) if unb == 2 else None


def fam_collinear(ck, ks, out):
    F = Family()
    a, b = ks
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O, d = g.vec(), g.unit()
        sa, sb = g.scale(), g.scale()
        # first operand fixed on the unit interval (or its ray / line), second in every relative position, and conversely
        for fix in (0, 1):
            kf, kv = (a, b) if fix == 0 else (b, a)
            for ff in (False, True):
                fs = (0., 1.) if kf == 'segment' else (1. if ff else 0.,)
                lf = place(kf, O, d, ff, fs, sa)
                sf = span(kf, ff, fs)
                for t, _, _, fl, corners in intervals(kv):
                    def make(*ps):
                        lv = place(kv, O, d, fl, ps, sb)
                        e = axis_result(out, sf, span(kv, fl, ps), O, d)
                        return ([lf, lv] if fix == 0 else [lv, lf]), e
                    F.cell('collinear, %s%s %s' % (kf, ' reversed' if ff else '', t), corners, make, seed=sd)
        d2 = g.across(d, .2)
        h = g.inplane(d) * g.r.uniform(.5, 2)
        F.product('crossing', g, [linear(a, g, O, d), linear(b, g, O, d2)], lambda ins, lv: None, sd)
        F.product('parallel', g, [linear(a, g, O, d), linear(b, g, O + h, d)], lambda ins, lv: None, sd)
    return F


def fam_in_plane(ck, ks, out):
    """linear operand lying in the plane of the other"""
    F = Family()
    a, b = ks
    k, x = (a, b) if a in LINEAR else (b, a)
    order = (lambda p: p) if k is a else (lambda p: p[::-1])
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O, n = g.vec(), g.unit()
        d = g.inplane(n)
        f = np.cross(n, d)
        if x == 'plane':
            cells, lf = linear(k, g, O, d)
            F.product('in the plane', g, order([(cells, lf), planar(x, g, O, n)]), lambda ins, lv: as_out(k, lv[0] if k is a else lv[1]), sd)
            for h in (.7, -.7):
                F.product('parallel to the plane', g, order([linear(k, g, O + h * n, d), planar(x, g, O, n)]), lambda ins, lv: None, sd)
            F.product('crossing the plane', g, order([linear(k, g, O, g.across(n)), planar(x, g, O, n)]), lambda ins, lv: None, sd)
            continue
        s = g.scale()
        for form in FORMS[x]:
            fx = chord(x, g, O, d, n, 0., 1., form, f)
            for t, _, _, fl, corners in intervals(k):
                def make(*ps):
                    e = axis_result(out, (0., 1.), span(k, fl, ps), O, d)
                    return order([place(k, O, d, fl, ps, s), fx]), e
                F.cell('line %s%s' % (FORMTXT[x][form], ', ' + t if t else ''), corners, make, seed=sd)
        if x == 'disk':
            w = f * g.sgn()
            r = g.r.uniform(.5, 1.5)
            fx = {'radius': r, 'center': O + .5 * d + r * w, 'normal': n * g.scale()}
            for t, _, _, fl, corners in intervals(k):
                ends = [span(k, fl, c) for c in corners]
                if any(min(abs(lo - .5), abs(hi - .5)) < .35 for lo, hi in ends) or len({lo < .5 < hi for lo, hi in ends}) != 1:
                    continue

                def make(*ps):
                    lo, hi = span(k, fl, ps)
                    return order([place(k, O, d, fl, ps, s), fx]), ('segment', O + .5 * d, O + .5 * d) if lo < .5 < hi else None
                F.cell('line touching the rim%s' % (', ' + t if t else ''), corners, make, seed=sd)
        for j in range(3):
            fx = apart(x, g, O, d, n, f)
            F.product('beside the %s' % x, g, order([linear(k, g, O, d), ([('', True, [()])], lambda: fx)]), lambda ins, lv: None, sd)
    return F


def fam_planes(ck, ks, out):
    """two planar figures in different planes: their chords on the common line"""
    F = Family()
    a, b = ks
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O, d = g.vec(), g.unit()
        n1 = g.inplane(d)
        n2 = g.across(n1, .1)
        n2 = n2 - (n2 @ d) * d
        while np.linalg.norm(n2) < .3 or abs(n2 @ n1) / np.linalg.norm(n2) > .9:
            n2 = g.unit()
            n2 = n2 - (n2 @ d) * d
        n2 /= np.linalg.norm(n2)
        f1, f2 = np.cross(n1, d), np.cross(n2, d)
        pos = [('', 0, 1)] if 'plane' in ks else [('apart', 1.3, 2.2), ('apart', -2.1, -.4), ('overlapping', .4, 1.6), ('overlapping', -.7, .5),
                                                  ('inside', .2, .7), ('enclosing', -.5, 1.8)]
        for (t, lo, hi), fa, fb in itertools.product(pos, FORMS[a], FORMS[b]):
            la = chord(a, g, O, d, n1, 0., 1., fa, f1)
            lb = chord(b, g, O, d, n2, float(lo), float(hi), fb, f2)
            ia = (-INF, INF) if a == 'plane' else (0., 1.)
            ib = (-INF, INF) if b == 'plane' else (float(lo), float(hi))
            F.one('planes crossing: %s %s, %s %s%s' % (a, FORMTXT[a][fa], b, FORMTXT[b][fb], '; chords ' + t if t else ''), [la, lb],
                  axis_result(out, ia, ib, O, d))
        if 'plane' not in ks:
            for j in range(3):
                F.one('%s does not reach the common line' % b, [chord(a, g, O, d, n1, 0., 1., 0, f1), apart(b, g, O, d, n2, f2)], None)
                F.one('%s does not reach the common line' % a, [apart(a, g, O, d, n1, f1), chord(b, g, O, d, n2, 0., 1., 0, f2)], None)
        else:
            for x in ks:
                if x != 'plane':
                    for j in range(3):
                        lx = apart(x, g, O, d, n1, f1)
                        lp = chord('plane', g, O, d, n2, 0, 1, 0, f2)
                        F.one('%s does not reach the plane' % x, [lx, lp] if a == x else [lp, lx], None)
        for h in (.6, -.6):
            F.product('parallel planes', g, [planar(a, g, O, n1), planar(b, g, O + h * n1, n1 * g.sgn())], lambda ins, lv: None, sd)
    return F


def fam_same_plane(ck, ks, out):
    """planar figures in the same plane, one of them unbounded: the bounded one (or the plane)"""
    F = Family()
    a, b = ks
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O, n = g.vec(), g.unit()
        pick = 0 if a == out else 1
        for sg in (1, -1):
            F.product('same plane', g, [planar(a, g, O, n), planar(b, g, O + g.r.uniform(-1, 1) * g.inplane(n), sg * n)], lambda ins, lv: as_out(out, lv[pick]), sd)
            F.product('parallel planes', g, [planar(a, g, O, n), planar(b, g, O + sg * .6 * n, n)], lambda ins, lv: None, sd)
        m = g.across(n)
        F.product('planes crossing', g, [planar(a, g, O, n), planar(b, g, O, m)], lambda ins, lv: None, sd)
    return F


def fam_ball(ck, ks, out):
    F = Family()
    a, b = ks
    k = a if b == 'ball' else b
    order = (lambda p: p) if k is a else (lambda p: p[::-1])
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        C, d = g.vec(), g.unit()
        r = g.r.uniform(.6, 2)
        ball = {'radius': r, 'center': C}
        if k == 'plane':
            for h, t in ((0., 'through the centre'), (.55 * r, 'through the ball'), (-.7 * r, 'through the ball'), (1.3 * r, 'beside the ball'), (-1.4 * r, 'beside the ball')):
                O = C + h * d
                e = ('disk', np.sqrt(r * r - h * h), O, d) if abs(h) < r else None
                cells, lf = planar('plane', g, O, d)
                F.product(t, g, order([(cells, lf), ([('', True, [()])], lambda: ball)]), lambda ins, lv, e=e: e, sd)
            continue
        for rho, t in ((0., 'line through the centre'), (.6 * r, 'line through the ball')):
            w = g.inplane(d) * rho
            hw = np.sqrt(r * r - rho * rho)
            ln = 2 * hw
            O = C + w - hw * d           # the chord is [0, 1] in units of ln
            s = g.scale()
            for txt, _, _, fl, corners in intervals(k):
                if 'at the' in txt:
                    continue
                def make(*ps):
                    lv = place(k, O, d * ln, fl, ps, 1.0)
                    if 'direction' in lv:
                        lv['direction'] = lv['direction'] / ln * s
                    return order([lv, ball]), axis_result(out, (0., 1.), span(k, fl, ps), O, d * ln)
                F.cell('%s%s' % (t, ', ' + txt if txt else ''), corners, make, seed=sd)
        w = g.inplane(d) * 1.3 * r
        F.product('line beside the ball', g, order([linear(k, g, C + w, d), ([('', True, [()])], lambda: ball)]), lambda ins, lv: None, sd)
    return F


def fam_of_point(ck, ks, out):
    F = Family()
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        Q = g.vec()
        x = ks[1] if ks[0] == 'point' else ks[0]
        order = (lambda p: p) if ks[0] == 'point' else (lambda p: p[::-1])
        pt = ([('', True, [()])], lambda: {'p': Q})
        exp = lambda ins, lv: ('point', Q) if all(ins) else None
        if x == 'point':
            F.one('same place', [{'p': Q}, {'p': Q.copy()}], ('point', Q))
            for h in (.01, 1, -1):
                F.one('different places', [{'p': Q}, {'p': Q + h * g.unit()}], None)
        elif x in LINEAR:
            d = g.unit()
            F.product('point on the line', g, order([pt, linear(x, g, Q, d)]), exp, sd)
            for h in (.5, -2):
                F.product('point beside the line', g, order([pt, linear(x, g, Q + h * g.inplane(d), d)]), lambda ins, lv: None, sd)
        else:
            n = g.unit()
            F.product('point in the plane', g, order([pt, planar(x, g, Q, n)]), exp, sd)
            for h in (.5, -.5):
                F.product('point off the plane', g, order([pt, planar(x, g, Q + h * n, n)]), lambda ins, lv: None, sd)
    return F


def fam_three_planes(ck, ks, out):
    F = Family()
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O = g.vec()
        n1 = g.unit()
        n2 = g.across(n1, .1)
        while True:
            n3 = g.unit()
            if abs(np.cross(n1, n2) @ n3) > .2:
                break
        for sg in (1, -1):
            F.product('three planes', g, [planar('plane', g, O, n) for n in (n1, n2, sg * n3)], lambda ins, lv: ('point', O), sd)
        m = n1 * .6 + n2 * .8
        F.product('common direction', g, [planar('plane', g, O, n) for n in (n1, n2, m)], lambda ins, lv: None, sd)
        F.product('two parallel planes', g, [planar('plane', g, O, n1), planar('plane', g, O + n1, n1), planar('plane', g, O, n2)], lambda ins, lv: None, sd)
    return F


def fam_overlap(ck, ks, out):
    """two triangles in one plane: do they overlap (no entity is returned)"""
    F = Family()
    for sd, scaled in seeds(ck):
        g = Geo(sd, scaled)
        O, n = g.vec(), g.unit()
        e, f = g.frame(n)
        P2 = lambda x, y: O + x * e + y * f
        T = lambda *xy: {'v': tuple(P2(x, y) for x, y in xy)}
        base = ((0, 0), (2, 0), (.4, 1.8))
        cases = [('vertex of the second inside', ((.8, .5), (3, .4), (2.5, 2)), True), ('vertex of the first inside', ((-1, -1), (.6, -.8), (.5, 1.0)), True),
                 ('second inside', ((.5, .3), (1, .3), (.7, .8)), True), ('second encloses', ((-3, -2), (6, -2), (.5, 6)), True), ('identical', base, True),
                 ('apart', ((3, 0), (5, .5), (4, 2)), None), ('apart', ((-3, 0), (-1, .5), (-2, 2)), None), ('apart', ((0, -3), (2, -2.5), (1, -.5)), None),
                 ('crossing without a vertex inside', ((-.6, .9), (2.4, .7), (.9, -.9)), True), ('crossing like a star', ((-.5, 1.1), (2, 1.3), (.9, -.6)), True)]
        for t, xy, ex in cases:
            for k in range(3):
                for fl in (False, True):
                    u = xy[k:] + xy[:k]
                    pr = [T(*base), T(*(u[::-1] if fl else u))]
                    F.one('same plane, ' + t, pr, ex)
                    F.one('same plane, ' + t + ' (exchanged)', pr[::-1], ex)
        d = g.unit()
        n1 = g.inplane(d)
        n2 = np.cos(1.) * n1 + np.sin(1.) * np.cross(d, n1)
        f1, f2 = np.cross(n1, d), np.cross(n2, d)
        for lo, hi in ((.3, 1.5), (-.5, .5), (-1, 2), (.2, .6), (1.4, 2.)):
            F.one('planes crossing', [chord('triangle', g, O, d, n1, 0., 1., 0, f1), chord('triangle', g, O, d, n2, lo, hi, 0, f2)], True if lo < 1 else None)
        F.product('parallel planes', g, [planar('triangle', g, O, n), planar('triangle', g, O + .5 * n, n)], lambda ins, lv: None, sd)
    return F


def family(ck, ks, out):
    s = frozenset(ks)
    if len(ks) == 3:
        return fam_three_planes(ck, ks, out) if ks == ['plane'] * 3 and out == 'point' else None
    if len(ks) != 2 or 'none' in ks:
        return None
    if 'point' in ks:
        return fam_of_point(ck, ks, out) if out == 'point' and 'ball' not in ks else None
    lin, pla = [k for k in ks if k in LINEAR], [k for k in ks if k in PLANAR]
    if 'ball' in s:
        return fam_ball(ck, ks, out) if lin and out == 'segment' or 'plane' in s and out == 'disk' else None
    if out == 'point' and lin:
        return fam_point(ck, ks)
    if len(lin) == 2:
        return fam_collinear(ck, ks, out) if out in LINEAR else None
    if len(lin) == 1:
        return fam_in_plane(ck, ks, out) if out == (lin[0] if pla[0] == 'plane' else 'segment') else None
    if len(pla) == 2:
        if out == 'none' and s == {'triangle'}:
            return fam_overlap(ck, ks, out)
        if out in PLANAR and 'plane' in s and (out in s - {'plane'} or s == {'plane'}):
            return fam_same_plane(ck, ks, out)
        if out == ('line' if s == {'plane'} else 'segment'):
            return fam_planes(ck, ks, out)
    return None


# ---------------------------------------------------------------- evaluation
def leaf_terms(p, kind, loc):
    """leaf name -> list of terms"""
    g = lambda n: init(at(p, A + kind, n, loc))
    if kind == 'point':
        return {'p': [init(loc)]}
    if kind in ('line', 'ray'):
        return {'origin': [g('origin')], 'direction': [g('direction')]}
    if kind == 'plane':
        return {'origin': [g('origin')], 'normal': [g('normal')]}
    if kind == 'disk':
        return {'radius': [g('radius')], 'center': [g('center')], 'normal': [g('normal')]}
    if kind == 'ball':
        return {'radius': [g('radius')], 'center': [g('center')]}
    from .kernel import vertices
    return {'v': vertices(p, kind, loc, 2 if kind == 'segment' else 3)}


def same_out(kind, got, exp):
    """got: list of arrays of one point; exp: tuple"""
    sc = 1 + max(np.abs(np.asarray(x)).max() for x in got + list(exp[1:]))
    near = lambda x, y: np.all(np.isfinite(x)) and np.abs(np.asarray(x) - y).max() < 1e-5 * sc
    para = lambda x, y, sense: np.all(np.isfinite(x)) and np.linalg.norm(x) > 1e-6 and np.linalg.norm(np.cross(x, y)) < 1e-6 * np.linalg.norm(x) * np.linalg.norm(y) \
        and (not sense or x @ y > 0)
    e = exp[1:]
    if kind == 'point':
        return near(got[0], e[0])
    if kind == 'segment':
        return near(got[0], e[0]) and near(got[1], e[1]) or near(got[0], e[1]) and near(got[1], e[0])
    if kind == 'line':
        return para(got[1], e[1], False) and near(np.cross(got[0] - e[0], e[1] / np.linalg.norm(e[1])), 0)
    if kind == 'ray':
        return near(got[0], e[0]) and para(got[1], e[1], True)
    if kind == 'plane':
        return para(got[1], e[1], False) and near((got[0] - e[0]) @ e[1] / np.linalg.norm(e[1]), 0)
    if kind == 'triangle':
        return any(all(near(got[i], e[j]) for i, j in enumerate(pm)) for pm in itertools.permutations(range(3)))
    if kind == 'disk':
        return near(got[0], e[0]) and near(got[1], e[1]) and para(got[2], e[2], False)
    return None


ORDER = {'line': ('origin', 'direction'), 'ray': ('origin', 'direction'), 'plane': ('origin', 'normal'), 'disk': ('radius', 'center', 'normal'),
         'point': ('p',), 'segment': ('v',), 'triangle': ('v',)}


def meets(ck, only=None):
    ck.rule = """Every typed overload of Intersection is interpreted down to comparisons and formulas over the stored data of its operands.  The
    configurations of each pair of kinds are cut into cells on which the true intersection is the same: relative position (crossing, parallel,
    collinear, coplanar), contact inside / outside / on the border of each operand, order of the end points on a common line, way in
    which a line crosses a triangle or disk.  In every cell (its corners and points of its interior; comparisons verified to be affine in the
    cell are thereby decided on the whole cell) the exit whose conditions hold must report contact exactly if the true intersection is
    not empty, and the result it stores must be this intersection.  A comparison with a fixed tolerance instead of the caller's is
    reported as well."""
    p = ck.load('lib')
    n = 0
    for f in p.byname.get(A + 'Intersection', []):
        ts = [strip(q['t'].replace('*', '').strip()) for q in f['params']]
        if not f.get('body') or not all(t.startswith(A) for t in ts[:-1]) or ts[-1] != 'double':
            continue
        ks = [t[len(A):] for t in ts[:-1]]
        if any(k not in KINDS for k in ks):
            continue
        if only and ks != only:
            continue
        n += 1
        one(ck, p, f, ks[:-1], ks[-1])
    if n < 40 and not only:
        raise AnalysisBroken('only %d typed intersections found' % n)


def one(ck, p, f, ks, out):
    it = ck.run(f, disj_limit=40, max_states=600)
    F = family(ck, ks, out)
    if F is None:
        if it.rets:
            ck.require(None, f, 'configurations known', 'no case analysis for this overload')
        return
    N = len(F.rows)
    env = {init(P(it, len(ks) + 1)): np.full(N, TOL)}
    terms = [leaf_terms(p, k, P(it, i)) for i, k in enumerate(ks)]
    for i, tm in enumerate(terms):
        for nm, ts in tm.items():
            for j, t in enumerate(ts):
                col = [row[0][i][nm][j] if len(ts) > 1 else row[0][i][nm] for row in F.rows]
                env[t] = np.array(col, float)
    outloc = P(it, len(ks))
    if out != 'none':
        ot = leaf_terms(p, out, outloc)
        for ts in ot.values():
            for t in ts:
                env[t] = np.full((N, 3), 17.25) if t is not None and not (out == 'disk' and t is ot['radius'][0]) else np.full(N, 17.25)
    E = Eval(env, N)
    exits = [(s, deref(it, (s, v))) for s, v in it.rets] + [(s, None) for s in thrown_states(it)]
    rtol = init(P(it, len(ks) + 1))
    fixed = set()
    for s, v in exits:
        for c in list(s.facts) + [v]:
            if c is not None:
                fixed |= {x for x in subterms(c) if x.op == 'op' and x.a[0] in ('<', '<=') and any(y.op == 'call' and y.a[0] == 'glob' and 'EPSILON' in str(y.a[1]) for y in subterms(x))}
    ck.require(not fixed, f, 'the tolerance of the caller is used', '; '.join(show(x)[:200] for x in list(fixed)[:2]))
    try:
        idx, M = E.exits([s.facts for s, v in exits])
        val = [E.b(v) if v is not None else None for s, v in exits]
    except Unknown as e:
        ck.require(None, f, 'conditions understood', show(e.args[0])[:300])
        return
    outs = []
    for s, v in exits:
        o = None
        if v is not None and v is not FALSE and out != 'none':
            o = []
            locs = [t.a[0] for nm in ORDER[out] for t in ot[nm]]
            for l in locs:
                t = it.load(s, l)
                try:
                    o.append(E.v(t) if not (out == 'disk' and l is ot['radius'][0].a[0]) else E.s(t))
                except Unknown as e:
                    o.append(None)
        outs.append(o)
    aff = naff = 0
    atoms = {c for s, v in exits for c in s.facts}
    for c in atoms:
        if c.op == 'op' and c.a[0] in ('<', '<='):
            d = E.s(c.a[1]) - E.s(c.a[2])
            for label, i0, k, W in F.groups:
                if len(W) > k:
                    x = d[i0:i0 + len(W)]
                    if np.abs(W @ x[:k] - x).max() <= 1e-7 * (1 + np.abs(x).max()):
                        aff += 1
                    else:
                        naff += 1
    ck.note('comparisons affine in their cell', aff)
    ck.note('comparisons only sampled in their cell', naff)
    ck.note('cells', len(F.groups))
    bylabel = {}
    for label, i0, k, W in F.groups:
        bylabel.setdefault(label, []).append((i0, len(W)))
    for label, rs in bylabel.items():
        bad = und = None
        for i0, m in rs:
            for i in range(i0, i0 + m):
                leaves, exp = F.rows[i]
                cand = [j for j in range(len(exits)) if M[j, i]]
                if not cand:
                    und = und or 'no exit for a configuration'
                    continue
                res = {judge(out, exp, val[j], outs[j], i) for j in cand}
                if res == {'ok'}:
                    continue
                if len(res) == 1 and 'unknown' not in res:
                    bad = bad or ('%s, for %s' % (next(iter(res)), text(ks, leaves)))
                else:
                    und = und or ('%s' % sorted(res))
        ck.require(False if bad else None if und else True, f, label, bad or und or '')


def thrown_states(it):
    r = []
    for x in it.thrown:
        s = x[0] if isinstance(x, tuple) else x
        if hasattr(s, 'facts'):
            r.append(s)
    return r


def judge(out, exp, val, o, i):
    if isinstance(exp, str) and exp == 'skip':
        return 'ok' if val is not None else 'raises an error'
    if val is None:
        return 'raises an error'
    hit = bool(val[i])
    if hit != (exp is not None):
        return 'reports %s' % ('contact where there is none' if hit else 'no contact where there is one')
    if exp is None or exp is True:
        return 'ok'
    if o is None or any(x is None for x in o):
        return 'unknown'
    got = [x[i] for x in o]
    r = same_out(out, got, exp)
    return 'unknown' if r is None else 'ok' if r else 'stores a result that is not the intersection'


def text(ks, leaves):
    r = []
    for k, lv in zip(ks, leaves):
        r.append('%s(%s)' % (k, ', '.join('%s=%s' % (n, np.round(np.asarray(x, float), 3).tolist()) for n, x in lv.items())))
    return ' and '.join(r)
