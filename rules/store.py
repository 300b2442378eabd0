"""Constructors and accessors: what is put in comes out, under its name."""
import re, math
import numpy as np
from engine.ident import Ident
from .base import *
from .ground import leaves

# class -> (data, constructors); a datum is (getter, argument or None, 's' scalar | 'v' vector | record name)
# constructors: parameter kinds -> datum -> parameter(s); d real, i integer, p point, v vector, P points, L plane
TABLE = {
    'acme::line': ([('origin', None, 'v'), ('direction', None, 'v')],
                   {'dddddd': [[0, 1, 2], [3, 4, 5]], 'pv': [0, 1]}),
    'acme::ray': ([('origin', None, 'v'), ('direction', None, 'v')],
                  {'dddddd': [[0, 1, 2], [3, 4, 5]], 'pv': [0, 1]}),
    'acme::plane': ([('origin', None, 'v'), ('normal', None, 'v')],
                    {'dddddd': [[0, 1, 2], [3, 4, 5]], 'pv': [0, 1]}),
    'acme::segment': ([('vertex', 0, 'v'), ('vertex', 1, 'v'), ('operator[]', 0, 'v'), ('operator[]', 1, 'v')],
                      {'dddddd': [[0, 1, 2], [3, 4, 5]] * 2, 'pp': [0, 1] * 2, 'P': [(0, 0), (0, 1)] * 2}),
    'acme::triangle': ([('vertex', 0, 'v'), ('vertex', 1, 'v'), ('vertex', 2, 'v'), ('operator[]', 0, 'v'), ('operator[]', 1, 'v'), ('operator[]', 2, 'v')],
                       {'ddddddddd': [[0, 1, 2], [3, 4, 5], [6, 7, 8]] * 2, 'ppp': [0, 1, 2] * 2, 'P': [(0, 0), (0, 1), (0, 2)] * 2}),
    'acme::disk': ([('radius', None, 's'), ('center', None, 'v'), ('normal', None, 'v')],
                   {'ddddddd': [0, [1, 2, 3], [4, 5, 6]], 'dpv': [0, 1, 2], 'dL': [0, 'm_origin', 'm_normal']}),
    'acme::ball': ([('radius', None, 's'), ('center', None, 'v')], {'dddd': [0, [1, 2, 3]], 'dp': [0, 1]}),
    'acme::aabb': ([('min', None, 'v'), ('max', None, 'v'), ('id', None, 's'), ('pos', None, 's')], {}),
    'enve::shape': ([(n, None, 's') for n in ('Rx', 'Mx', 'Ry', 'My', 'Ly')], {'ddddd': [0, 1, 2, 3, 4]}),
    'enve::rib': ([('id', None, 's'), ('radius', None, 's'), ('width', None, 's'), ('angle', None, 's'), ('center', None, 'v')],
                  {'idddd': [0, 1, 3, 4, ['0', 2, '0']]}),
    'enve::ground::flat': ([('friction', None, 's')], {'dpv': [0], 'dddddddd': None}),
    'enve::triangleground': ([('friction', None, 's'), ('id', None, 's')], {}),
}
COPIED = ['acme::' + c for c in ('point', 'line', 'ray', 'plane', 'segment', 'triangle', 'disk', 'ball', 'aabb')] + ['enve::shape', 'enve::rib', 'enve::ground::flat', 'enve::triangleground']


def kind_of(t):
    t0 = t.strip()
    ptr = t0.endswith('*') or re.search(r'\[\d*\]$', t0)
    s = re.sub(r'\[\d*\]$', '', t0).rstrip('*').strip()
    s = strip(strip(s))
    r = {'double': 'd', 'int': 'i', 'acme::point': 'p', 'acme::plane': 'L'}.get(s)
    if r is None and s.startswith('Eigen::Matrix<double, 3, 1'):
        r = 'v'
    if ptr:
        return 'P' if r == 'p' else '?'
    return r or '?'


def getters(p, cls, name):
    """const and writable accessor of a datum, looked up along the bases"""
    c = cls
    while True:
        fs = [f for f in p.funcs.values() if f['n'] == c + '::' + name and f.get('body')]
        if fs or not p.records.get(c, {}).get('bases'):
            return fs
        b = p.records[c]['bases'][0]
        c = strip(b if isinstance(b, str) else b.get('t', b.get('n', '')))


def value(it, s, v, kind):
    """the datum a getter returned: scalar or tuple of three components"""
    if v.op in ('addr', 'objat'):
        v = it.load(s, v.a[0])
    if kind == 's':
        return (v,)
    return tuple(it.comp(v, Int(k)) for k in range(3))


def vague(x):
    return any(y.op in ('phi', 'fresh', 'join', 'uninit', 'call') for y in subterms(x))


def eq(got, want):
    if all(a is b or isnum(a) and isnum(b) and num(a) == num(b) for a, b in zip(got, want)):
        return True
    return None if any(vague(a) for a in got) else False


def storing(ck):
    ck.rule = """For every constructor of a value class the accessors are interpreted on the state the constructor leaves: each must give the
    argument (or arguments, component by component) that its name and position designate. The writable accessor of a datum must refer to
    the very location the read-only one reads. Copy and move operations are interpreted member by member, each must equal the source's."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        for cls, (data, ctors) in TABLE.items():
            one_class(ck, p, cls, data, ctors)
        for cls in COPIED:
            copying(ck, p, cls)
        angle(ck, p)
    p = ck.load('lib')
    corners(ck, p)


def angle(ck, p):
    """angle between two vectors, and the plane a flat ground lies on"""
    for f in [f for f in p.fn('acme::Angle') if f.get('body') and len(f['params']) == 2]:
        it = ck.run(f)
        a, b = init(P(it, 0)), init(P(it, 1))
        for s, v in it.rets:
            res = True
            for seed in range(8):
                I = Ident(seed)
                try:
                    x, y = np.random.RandomState(seed).randn(2, 3)
                    w = subst(v, {a: mk('vec', *[mk('real', float(k)) for k in x]), b: mk('vec', *[mk('real', float(k)) for k in y])})
                    if abs(float(I.s(w)) - math.acos(x @ y / math.sqrt((x @ x) * (y @ y)))) > 1e-7:
                        res = False
                except Exception as e:
                    res = None
                    break
            ck.require(res, f, 'angle between two vectors', 'is %s' % show(v)[:120])
    for f in [f for f in p.fn('enve::ground::flat::layingPlane') if f.get('body')]:
        it = ck.run(f)
        for s, v in it.rets:
            ck.require(v.op == 'addr' and v.a[0] is THIS or (None if v.op != 'addr' else False), f, 'plane of a flat ground', 'is %s' % show(v)[:80])
            ck.require(not [l for l in s.env if root(l) is THIS], f, 'plane of a flat ground', 'changed')


def one_class(ck, p, cls, data, ctors):
    acc = {}
    for g, a, k in data:
        fs = [f for f in getters(p, cls, g) if len(f['params']) == (0 if a is None else 1)]
        con = [f for f in fs if f['const']]
        mut = [f for f in fs if not f['const']]
        if not con:
            raise AnalysisBroken('read-only accessor %s::%s not found' % (cls, g))
        acc[g, a] = con[0], k
        for m in mut:
            envs = {}
            it = ck.run(con[0], **idx_args(con[0], a))
            it2 = ck.run(m, **idx_args(m, a))
            for s, v in it.rets:
                for s2, v2 in it2.rets:
                    if v2.op != 'addr':
                        ck.require(None, m, 'writable accessor', 'does not return a member')
                        continue
                    if v.op == 'addr':
                        ok = v.a[0] is v2.a[0]
                    else:
                        ok = eq(value(it, s, v, k), value(it2, s2, v2, k))
                    ck.require(ok, m, 'writable accessor refers to what the read-only one reads', '%s and %s' % (show(v2)[:60], show(v)[:60]))
            ck.require(bool(it.rets) and bool(it2.rets), m, 'accessor succeeds', 'no normal return')
    if cls == 'acme::triangle':
        for f in [f for f in p.funcs.values() if f['n'] in (cls + '::vertex', cls + '::operator[]', cls + '::edge') and len(f['params']) == 1 and f.get('body')]:
            for i in (-2, -1, 3, 4):
                it = ck.run(f, **idx_args(f, i))
                ck.require(not it.rets, f, 'index outside of [0,2] refused', 'returns for index %d' % i)
    for f in [f for f in p.funcs.values() if f['n'] == cls + '::' + cls.split('::')[-1] and f.get('body')]:
        sig_ = ''.join(kind_of(q['t']) for q in f['params'])
        m = ctors.get(sig_)
        if m is None:
            continue
        it = ck.run(f)
        ck.require(bool(it.rets), f, 'construction succeeds', 'no normal return')
        for s, v in it.rets:
            env = {l: x for l, x in s.env.items() if root(l) is THIS}
            for (g, a, k), w in zip(data, m):
                want = expected(it, w, k, f)
                con = acc[g, a][0]
                it2 = ck.run(con, env=env, **idx_args(con, a))
                ck.require(bool(it2.rets), con, 'accessor succeeds', 'no normal return')
                for s2, v2 in it2.rets:
                    got = value(it2, s2, v2, k)
                    ck.require(eq(got, want), f, 'argument of the constructor read back as %s' % g,
                               '%s%s is (%s) instead of (%s)' % (g, '' if a is None else '(%d)' % a, ', '.join(show(x)[:40] for x in got), ', '.join(show(x)[:40] for x in want)))


def idx_args(f, a):
    return {} if a is None else {'args': [Int(a)]}


def expected(it, w, k, f):
    ar = lambda i: init(P(it, i))
    if isinstance(w, list):
        return tuple(Int(int(j)) if isinstance(j, str) else ar(j) for j in w)
    if isinstance(w, tuple):
        x = init(LI(LD(ar(w[0])), Int(w[1])))
        return tuple(it.comp(x, Int(c)) for c in range(3))
    if isinstance(w, str):
        x = init(LF(P(it, 1), w))
        return tuple(it.comp(x, Int(c)) for c in range(3))
    return (ar(w),) if k == 's' else tuple(it.comp(ar(w), Int(c)) for c in range(3))


def copying(ck, p, cls):
    c = cls.split('::')[-1]
    for f in [f for f in p.funcs.values() if f['n'] in (cls + '::' + c, cls + '::operator=') and len(f['params']) == 1 and f.get('body') is not None and strip(f['params'][0]['t'].rstrip('&').strip()) == cls]:
        it = ck.run(f)
        ck.require(bool(it.rets), f, 'copy succeeds', 'no normal return')
        for s, v in it.rets:
            for n, l in leaves(p, cls, THIS):
                o = subst(l, {THIS: P(it, 0)})
                a, b = it.load(s, l), init(o)
                ok = a is b
                if not ok:
                    a3, b3 = [it.comp(a, Int(i)) for i in range(3)], [it.comp(b, Int(i)) for i in range(3)]
                    ok = a3 == b3
                ck.require(True if ok else None if vague(a) else False, f, 'copy takes over every member', '%s is %s' % (n, show(a)[:80]))


def corners(ck, p):
    """single corners of a box set by coordinates or read by index"""
    for nm in ('min', 'max'):
        fs = [f for f in p.funcs.values() if f['n'] == 'acme::aabb::' + nm and f.get('body')]
        ref = [f for f in fs if f['const'] and not f['params']]
        other = [f for f in p.funcs.values() if f['n'] == 'acme::aabb::' + ('max' if nm == 'min' else 'min') and f['const'] and not f['params'] and f.get('body')]
        if not ref or not other:
            raise AnalysisBroken('corner %s of a box not found' % nm)
        for f in fs:
            it = ck.run(f)
            if len(f['params']) == 3:
                for s, v in it.rets:
                    env = {l: x for l, x in s.env.items() if root(l) is THIS}
                    for g, want in ((ref[0], tuple(init(P(it, i)) for i in range(3))), (other[0], None)):
                        it2 = ck.run(g, env=env)
                        for s2, v2 in it2.rets:
                            got = value(it2, s2, v2, 'v')
                            w = want
                            if w is None:
                                it3 = ck.run(g)
                                w = value(it3, it3.rets[0][0], it3.rets[0][1], 'v')
                            ck.require(eq(got, w), f, 'corner of a box set by its coordinates', '%s becomes (%s)' % (g['n'].split('::')[-1], ', '.join(show(x)[:30] for x in got)))
            elif len(f['params']) == 1 and kind_of(f['params'][0]['t']) == 'i':
                whole = ck.run(ref[0]).rets[0][1]
                if whole.op != 'addr':
                    ck.require(None, f, 'corner of a box read by index', 'corner not returned by reference')
                    continue
                for i in range(3):
                    it2 = ck.run(f, **idx_args(f, i))
                    want = mk('I', whole.a[0], '@', Int(i))
                    for s, v in it2.rets:
                        ok = v.a[0] is want if v.op == 'addr' else eq((v,), (it2.load(s, want),))
                        ck.require(ok, f, 'corner of a box read by index', 'coordinate %d is %s' % (i, show(v)[:60]))
