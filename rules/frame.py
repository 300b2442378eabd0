"""Pose of the shell: what moves it, what reads it. Accessors and constructors: rules/store.py."""
import math, random
import numpy as np
from .base import *


class Unknown(Exception):
    pass


class Val:
    """evaluates the value terms of the pose at one point"""

    def __init__(self, it, s, seed):
        self.it, self.s = it, s
        r = np.random.RandomState(seed)
        self.r = r
        q = r.randn(4)
        self.pose = np.eye(4)
        self.pose[:3, :3] = rot(q)
        self.pose[:3, 3] = 3 * r.randn(3)
        self.par = {}

    def frame(self, ini, l):
        """value of a location below the pose"""
        if l.op == 'F' and l.a[1].startswith('@'):
            return part(self.frame(ini, l.a[0]), l.a[1])
        if l.op == 'F' and l.a[1] == 'm_affine':
            return self.pose
        if l.op == 'I' and len(l.a) >= 2:
            m = self.frame(ini, l.a[0])
            i = [x.a[0] for x in l.a[1:] if not isinstance(x, str)]
            return m[tuple(i)] if len(i) > 1 else m[i[0]]
        if l.op == 'D' and l not in self.par:
            return self.frame(ini, l.a[0])
        if l in self.par:
            return self.par[l]
        raise Unknown(show(l)[:60])

    def __call__(self, t):
        o, a = t.op, t.a
        if o in ('int', 'real', 'bool'):
            return float(a[0])
        if t in self.par:
            return self.par[t]
        if o == 'init':
            return self.frame(t, a[0])
        if o == 'vec':
            return np.array([float(self(x)) for x in a])
        if o == 'fld':
            return part(self(a[0]), a[1])
        if o == 'setv':
            m = np.array(self(a[0]))
            part(m, a[1])[...] = self(a[2])
            return m
        if o == 'setc':
            m = np.array(self(a[0]))
            m[tuple(int(self(x)) for x in a[1:-1])] = self(a[-1])
            return m
        if o == 'comp':
            m = self(a[0])
            i = tuple(int(self(x)) for x in a[1:])
            return m[i] if len(i) == m.ndim else m[i[0]]
        if o == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == 'op':
            x = [self(y) for y in a[1:]]
            k = a[0]
            if k == '+': return sum(x[1:], x[0])
            if k == '-': return x[0] - x[1]
            if k == 'neg': return -x[0]
            if k == '/': return x[0] / x[1]
            if k == '<': return float(x[0] < x[1])
            if k == '<=': return float(x[0] <= x[1])
            if k == '==': return float(np.all(x[0] == x[1]))
            if k == '!': return float(not x[0])
            if k == '&&': return float(bool(x[0]) and bool(x[1]))
            if k == '||': return float(bool(x[0]) or bool(x[1]))
            if k == 'm*': return app(x[0], x[1])
            if k == '*': return app(x[0], x[1])
            raise Unknown(k)
        if o == 'call':
            n = a[0].split('.')[-1] if isinstance(a[0], str) else '?'
            if n == 'glob':
                g = a[1].split('::')[-1]
                return {'IDENTITY_MAT3': np.eye(3), 'IDENTITY_MAT4': np.eye(4), 'IDENTITY_AFFINE': np.eye(4), 'UNITX_VEC3': np.eye(3)[0], 'UNITY_VEC3': np.eye(3)[1],
                        'UNITZ_VEC3': np.eye(3)[2], 'ZEROS_VEC3': np.zeros(3), 'PI': math.pi}.get(g) if g in ('IDENTITY_MAT3', 'IDENTITY_MAT4', 'IDENTITY_AFFINE', 'UNITX_VEC3', 'UNITY_VEC3', 'UNITZ_VEC3', 'ZEROS_VEC3', 'PI') else self.no(g)
            x = [self(y) for y in a[1:]]
            if n == 'translate': return x[0] @ hom(np.eye(3), x[1])
            if n == 'pretranslate': return hom(np.eye(3), x[1]) @ x[0]
            if n == 'rotate': return x[0] @ hom(x[1])
            if n == 'prerotate': return hom(x[1]) @ x[0]
            if n == 'AngleAxis': return axang(x[0], x[1])
            if n in ('toRotationMatrix',): return x[0]
            if n in ('rotation', 'linear'): return x[0][:3, :3]
            if n == 'translation': return x[0][:3, 3]
            if n in ('transpose', 'transposed'): return x[0].T
            if n == 'inverse': return np.linalg.inv(x[0])
            if n == 'determinant': return float(np.linalg.det(x[0]))
            if n == 'norm': return float(np.sqrt((x[0] ** 2).sum()))
            if n == 'squaredNorm': return float((x[0] ** 2).sum())
            if n == 'cwiseAbs': return abs(x[0])
            if n == 'maxCoeff': return float(x[0].max())
            if n == 'trace': return float(np.trace(x[0]))
            if n == 'dot': return float(x[0] @ x[1])
            if n == 'cross': return np.cross(x[0], x[1])
            if n == 'normalized': return x[0] / np.sqrt((x[0] ** 2).sum())
            if n == 'Identity': return np.eye(3)
            if n in ('abs', 'fabs'): return abs(x[0])
            if n == 'atan2': return math.atan2(*x)
            if n in ('asin', 'acos', 'sin', 'cos', 'sqrt', 'tan', 'atan'): return getattr(math, n)(x[0])
            if n == 'isApprox': return float(np.linalg.norm(x[0] - x[1]) <= (x[2] if len(x) > 2 else 1e-12) * min(np.linalg.norm(x[0]), np.linalg.norm(x[1])))
            if n == 'isUnitary': return float(np.linalg.norm(x[0] @ x[0].T - np.eye(len(x[0]))) <= (x[1] if len(x) > 1 else 1e-12) * 2)
            if n == 'isIdentity': return float(np.all(abs(x[0] - np.eye(len(x[0]))) <= (x[1] if len(x) > 1 else 1e-12)))
            if n == 'eulerAngles': return euler(x[0], *[int(y) for y in x[1:]])
            raise Unknown(n)
        raise Unknown(show(t)[:60])

    def no(self, g):
        raise Unknown(g)


def part(m, k):
    """view of a matrix (several steps may follow each other)"""
    for n in k.split('@')[1:]:
        n, *i = n.split(':')
        i = [int(x) for x in i]
        if n in ('linear', 'rotation'): m = m[:3, :3]
        elif n == 'translation': m = m[:3, 3]
        elif n in ('matrix', 'affine'): m = m[:4, :4]
        elif n == 'topLeftCorner' and len(i) == 2: m = m[:i[0], :i[1]]
        elif n == 'col' and len(i) == 1: m = m[:, i[0]]
        elif n == 'row' and len(i) == 1: m = m[i[0], :]
        elif n == 'head' and len(i) == 1: m = m[:i[0]]
        elif n == 'tail' and len(i) == 1: m = m[-i[0]:]
        elif n == 'segment' and len(i) == 2: m = m[i[0]:i[0] + i[1]]
        elif n == 'block' and len(i) == 4: m = m[i[0]:i[0] + i[2], i[1]:i[1] + i[3]]
        elif n == 'diagonal' and not i: m = np.einsum('ii->i', m)
        else: raise Unknown('@' + n)
    return m


def app(x, y):
    """products of scalars, matrices, frames and vectors"""
    if isinstance(x, float) or isinstance(y, float) or np.ndim(x) == 0 or np.ndim(y) == 0:
        return x * y
    if x.shape == (4, 4) and y.shape == (3,):
        return x[:3, :3] @ y + x[:3, 3]
    if x.shape == (4, 4) and y.shape == (3, 3):
        return x @ hom(y)
    return x @ y


def hom(R, t=None):
    m = np.eye(4)
    m[:3, :3] = R
    if t is not None:
        m[:3, 3] = t
    return m


def rot(q):
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def axang(a, n):
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def elem(k, a):
    return axang(a, np.eye(3)[k])


def euler(R, i, j, k):
    """angles of the product of elementary rotations about the axes i, j, k (all different)"""
    if len({i, j, k}) != 3:
        raise Unknown('euler sequence')
    p = 1.0 if (j - i) % 3 == 1 else -1.0
    # R = E_i(a) E_j(b) E_k(c)
    b = math.asin(max(-1.0, min(1.0, p * R[i, k])))
    a = math.atan2(-p * R[j, k], R[k, k])
    c = math.atan2(-p * R[i, j], R[i, i])
    return np.array([a, b, c])


POINTS = range(1, 7)


def close(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.all(abs(x - y) < 1e-9))


def where(it):
    """location of the stored pose"""
    return LF(THIS, 'm_affine')


def values(it, s, terms, par, seed):
    V = Val(it, s, seed)
    for k, v in par.items():
        V.par[k] = v
    return V, [V(t) for t in terms]


def params(it, f, seed, it_loc=True):
    r = np.random.RandomState(seed + 77)
    d, named = {}, {}
    for i, q in enumerate(f['params']):
        t = q['t']
        if 'Transform<' in t or 'Matrix<double, 4, 4' in t:
            v = hom(rot(r.randn(4)), 3 * r.randn(3))
        elif 'Matrix<double, 3, 1' in t:
            v = r.randn(3)
            v = v / np.linalg.norm(v)
        elif strip(t).replace('const', '').strip() == 'double':
            v = float(r.uniform(-3, 3))
        else:
            continue
        d[P(it, i)] = d[LD(init(P(it, i)))] = v
        named[i] = v
    return d, named


def pose(ck):
    ck.rule = """Every exit of the members that read or move the pose is turned into an expression of the stored frame and the arguments; it is
    compared with the definition (motion composed on the right, axes = columns of the linear part, angles of the sequence ZXY) at
    generic frames. The predicate for valid frames is evaluated on rotations, and on frames that miss orthonormality in each entry or are
    left handed."""
    for prog in ('lib', 'tbx'):
        pose_of(ck, ck.load(prog))


def pose_of(ck, p):
    fs = [f for f in p.funcs.values() if f['n'].startswith('enve::shell::') and f.get('body')]
    done = set()

    def each(name):
        r = [f for f in fs if f['n'] == 'enve::shell::' + name]
        if not r:
            raise AnalysisBroken('enve::shell::%s not found' % name)
        done.add(name)
        return r

    def changed(f, it, s):
        """pose at the exit"""
        L, T = it.load(s, LF(where(it), '@linear')), it.load(s, LF(where(it), '@translation'))
        return L, T

    def motion(name, want):
        for f in each(name):
            if any('basic_string' in q['t'] or 'std::string' in q['t'] for q in f['params']):
                ck.note('motions not examined', 1)
                continue
            it = ck.run(f)
            ck.require(bool(it.rets), f, 'the motion is carried out', 'no normal return')
            for s, v in it.rets:
                whole = it.load(s, where(it))
                for k in POINTS:
                    d, named = params(it, f, k)
                    try:
                        V = Val(it, s, k)
                        V.par = d
                        L, T = changed(f, it, s)
                        got = hom(V(L), V(T))
                        ok = close(got, want(V.pose, named))
                    except Unknown as e:
                        ck.require(None, f, 'motion of the pose', 'not modelled: %s' % e)
                        break
                    ck.require(ok, f, 'motion of the pose', 'pose becomes %s' % show(whole)[:120])
                for l, x in s.env.items():
                    if root(l) is THIS and not is_prefix(where(it), l) and x is not init(l):
                        ck.require(False, f, 'only the pose moves', show(l)[:60])

    motion('translate', lambda m, a: m @ hom(np.eye(3), a[0]))
    motion('rotate', lambda m, a: m @ hom(axang(a[0], a[1])))
    motion('transform', lambda m, a: a[0])

    def reading(name, want, out=False):
        for f in each(name):
            it = ck.run(f)
            ck.require(bool(it.rets), f, 'the pose can be read', 'no normal return')
            for s, v in it.rets:
                x = it.load(s, P(it, 0)) if out else v
                x = it.load(s, x.a[0]) if x.op in ('addr', 'objat') else x
                for k in POINTS:
                    V = Val(it, s, k)
                    try:
                        ok = want(V.pose, V(x))
                    except Unknown as e:
                        ck.require(None, f, 'read-out of the pose', 'not modelled: %s' % e)
                        break
                    ck.require(ok, f, 'read-out of the pose', 'returns %s' % show(x)[:120])

    reading('translation', lambda m, x: close(x, m[:3, 3]))
    reading('rotation', lambda m, x: close(x, m[:3, :3]))
    reading('linear', lambda m, x: close(x, m[:3, :3]))
    reading('transformation', lambda m, x: close(x, m))
    for i, n in enumerate('xyz'):
        reading(n, lambda m, x, i=i: close(x, m[:3, i]))
    reading('eulerAngles', lambda m, x: np.shape(x) == (3,) and close(elem(2, x[0]) @ elem(0, x[1]) @ elem(1, x[2]), m[:3, :3]), True)

    # the test of a frame
    R0 = [rot(np.random.RandomState(k).randn(4)) for k in range(4)] + [np.eye(3)]
    cases = [(R, True, 'a rotation') for R in R0]
    for R in R0[:2]:
        for i in range(3):
            for j in range(3):
                D = np.eye(3)
                D[i, j] += 0.3
                cases.append((R @ D, False, 'a sheared or stretched frame'))
            D = np.eye(3)
            D[i, i], D[(i + 1) % 3, (i + 1) % 3] = 2.0, 0.5
            cases.append((R @ D, False, 'a stretched frame of unit volume'))
            D = np.eye(3)
            D[i, i] = -1
            cases.append((R @ D, False, 'a left-handed frame'))
            cases.append((D @ R, False, 'a left-handed frame'))
        cases.append((0 * R, False, 'a vanishing frame'))
        cases.append((R * float('nan'), False, 'not a number'))
    for f in each('checkTransformation'):
        it = ck.run(f)
        for R, want, what in cases:
            for tol in (1e-6, 1e-2):
                V = Val(it, None, 3)
                for l in (P(it, 0), LD(init(P(it, 0)))):
                    V.par[l] = hom(R, [4.0, -7.0, 2.0])
                V.par[P(it, 1)] = tol
                got = set()
                try:
                    for s, v in it.rets:
                        if all(bool(V(t)) == w for t, w in s.facts.items() if t.op != 'ran'):
                            got.add(bool(V(v)))
                except (Unknown, ValueError, ZeroDivisionError) as e:
                    ck.require(None, f, 'test of a frame', 'not modelled: %s' % e)
                    continue
                ck.require(None if len(got) != 1 else got == {want}, f, 'test of a frame', '%s is %s' % (what, 'accepted' if True in got else 'refused'))

    # constructors start at the origin
    for f in [g for g in fs if g['n'] == 'enve::shell::shell']:
        it = ck.run(f)
        for s, v in it.rets:
            V = Val(it, s, 1)
            L, T = changed(f, it, s)
            try:
                ok = close(V(L), np.eye(3)) and close(V(T), np.zeros(3))
            except Unknown as e:
                ok = None
            ck.require(ok, f, 'a new shell stands at the origin', '%s, %s' % (show(L)[:60], show(T)[:60]))
