"""Named constants, default arguments and default objects."""
import math
import numpy as np
from .base import *
from .store import TABLE, getters, idx_args

A = 'acme::'
EPS = float(np.finfo(float).eps)


class Odd(Exception):
    pass


class Consts:
    """numerical values of the constants of the program, from their initialisers"""

    def __init__(self, ck, p):
        self.ck, self.p = ck, p
        self.decl, self.memo = {}, {}
        for g in p.globals.values():
            if g.get('init') and not g.get('slocal') and not p.rel(g['file']).startswith('/'):
                self.decl[g['n']] = g

    def fn(self, g):
        return {'u': 'const:' + g['n'], 'n': g['n'], 'params': [], 'ret': g['t'], 'file': g['file'], 'l': g['l'], 'kind': 'func', 'const': False,
                'body': {'k': 'block', 's': [{'k': 'return', 'e': g['init'], 'l': g['l']}], 'l': g['l']}}

    def run(self, n):
        """(interpreter, state, value) of the initialiser"""
        if n not in self.memo:
            self.memo[n] = None
            it = self.ck.run(self.fn(self.decl[n]))
            if len(it.rets) != 1:
                raise Odd('%d values' % len(it.rets))
            self.memo[n] = (it,) + tuple(it.rets[0])
        if self.memo[n] is None:
            raise Odd('defined by itself')
        return self.memo[n]

    def shape(self, n):
        import re
        t = self.decl[n]['t']
        m = re.search(r'Matrix<double, (\d), (\d)', t)
        if m:
            return (int(m.group(1)), int(m.group(2)))
        return (4, 4) if 'Transform<double, 3' in t else ()

    def value(self, n):
        it, s, v = self.run(n)
        x = self.num(it, s, v, self.shape(n))
        return np.broadcast_to(x, self.shape(n)) if self.shape(n) else x

    def num(self, it, s, t, shape=()):
        o, a = t.op, t.a
        if o in ('int', 'real', 'bool'):
            return np.array(float(a[0]))
        if o == 'vec':
            return np.array([[float(self.num(it, s, x))] for x in a])
        if o == 'init':
            return self.glob(a[0])
        if o in ('op', 'call'):
            f = a[0]
            if f == 'glob':
                n = str(a[1])
                if n not in self.decl:
                    raise Odd(n)
                return self.value(n)
            if f in ('Identity', 'identity', 'setIdentity'):
                return np.eye(*shape)
            if f in ('Zero', 'zero'):
                return np.zeros(shape)
            if f in ('Ones', 'ones'):
                return np.ones(shape)
            if f in ('UnitX', 'UnitY', 'UnitZ', 'UnitW'):
                e = np.zeros(shape)
                e['XYZW'.index(f[-1])] = 1
                return e
            x = [self.num(it, s, y, shape) for y in a[1:]]
            if f == 'Constant':
                return np.broadcast_to(x[-1], shape)
            f = f.split('::')[-1]
            if not x and f in ('epsilon', 'infinity', 'quiet_NaN', 'max', 'min'):
                return np.array({'epsilon': EPS, 'infinity': math.inf, 'quiet_NaN': math.nan, 'max': float(np.finfo(float).max), 'min': float(np.finfo(float).tiny)}[f])
            one = {'sqrt': np.sqrt, 'cbrt': np.cbrt, 'acos': np.arccos, 'asin': np.arcsin, 'atan': np.arctan, 'cos': np.cos, 'sin': np.sin, 'neg': np.negative, 'exp': np.exp}
            if f in one and len(x) == 1:
                return one[f](x[0])
            two = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.divide, 'pow': np.power, 'atan2': np.arctan2, 's*': np.multiply, 'v/': np.divide}
            if f in two and len(x) == 2:
                return two[f](*x)
            if f == '+':
                return sum(x[1:], x[0])
        raise Odd(repr(t)[:160])

    def glob(self, l):
        """value of a part of an object constant"""
        path, l0 = [], l
        while l.op in ('F', 'I', 'D') and l.op != 'G':
            path.append(l)
            l = l.a[0]
        if l.op != 'G' or l.a[0] not in self.decl:
            raise Odd(show(l0)[:60])
        it, s, v = self.run(l.a[0])
        if v.op not in ('addr', 'objat'):
            raise Odd(show(v)[:60])
        x = it.load(s, subst(l0, {l: v.a[0]}))
        return self.num(it, s, x, (3, 1))

    def nan(self, it, s, x):
        """every number in x is not-a-number"""
        return bool(np.all(np.isnan(self.num(it, s, x, (3, 1)))))


def wanted(n, shape):
    """value of a constant by its name, None if the name says nothing"""
    b = n.split('::')[-1]
    k = b.split('_')[0]
    if k == 'NAN' or b == 'QUIET_NAN':
        return np.full(shape, math.nan)
    if k == 'ZEROS':
        return np.zeros(shape)
    if k == 'ONES':
        return np.ones(shape)
    if k == 'IDENTITY':
        return np.eye(*shape)
    if k in ('UNITX', 'UNITY', 'UNITZ', 'UNITW'):
        e = np.zeros(shape)
        e['XYZW'.index(k[-1])] = 1
        return e
    v = {'PI': math.pi, 'PIDIV180': math.pi / 180, 'INFTY': math.inf, 'EPSILON_MACHINE': EPS, 'EPSILON_SQRT': math.sqrt(EPS), 'EPSILON_CBRT': float(np.cbrt(EPS)),
         'EPSILON_ACME': math.sqrt(EPS), 'EPSILON_ENVE': math.sqrt(EPS)}.get(b)
    return None if v is None else np.array(v)


NEEDED = ['acme::' + x for x in ('PI', 'EPSILON_ACME', 'EPSILON_SQRT', 'QUIET_NAN', 'NAN_POINT', 'NAN_VEC3', 'NAN_PLANE', 'UNITX_VEC3', 'UNITY_VEC3', 'UNITZ_VEC3',
                                 'ZEROS_VEC3', 'IDENTITY_MAT3', 'IDENTITY_MAT4')] + ['EPSILON_ENVE', 'IDENTITY_AFFINE']
CLASSES = ['acme::' + c for c in ('point', 'line', 'ray', 'plane', 'segment', 'triangle', 'disk', 'ball', 'aabb')] + \
          ['enve::' + c for c in ('shape', 'rib', 'ground::flat', 'triangleground')]


def constants(ck):
    ck.rule = """The initialiser of every named constant is interpreted and evaluated to a number, vector or matrix, following the constants it refers
    to; it must equal the value the name stands for (for objects: not-a-number in every datum). The default of every tolerance parameter
    must be the standard tolerance, of every pose the identity. Default constructors must leave not-a-number in every real datum, the
    clearing of a box the same."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        c = Consts(ck, p)
        values(ck, c)
        defaults(ck, p, c)
        objects(ck, p, c)


def values(ck, c):
    for n in NEEDED:
        if n not in c.decl:
            raise AnalysisBroken('constant %s not found' % n)
    for n, g in sorted(c.decl.items()):
        if n.split('::')[-1].startswith('DUMMY'):
            continue
        f = c.fn(g)
        cls = g['t'].replace('const ', '').replace('&', '').strip()
        try:
            if cls in c.p.records and cls.startswith('acme::') or cls == 'acme::point':
                it, s, v = c.run(n)
                if v.op not in ('addr', 'objat'):
                    raise Odd(show(v)[:60])
                for nm, i2, s2, x in reads(ck, c.p, cls, s, v.a[0]):
                    if nm not in ('id', 'pos'):
                        ck.require(c.nan(i2, s2, x), f, 'value of %s' % n, '%s is %s' % (nm, show(x)[:60]))
                continue
            w = wanted(n, c.shape(n))
            if w is None:
                continue
            x = c.value(n)
            ok = bool(np.all(np.isclose(x, w, rtol=2e-15, atol=0, equal_nan=True)))
            ck.require(ok, f, 'value of %s' % n, 'is %s' % str(x.tolist())[:80])
        except (Odd, ValueError, IndexError, TypeError) as e:
            ck.require(None, f, 'value of %s' % n, str(e))


def defaults(ck, p, c):
    n = 0
    for f in p.funcs.values():
        if not f['n'].startswith(('acme::', 'enve::')) or not f.get('params'):
            continue
        for q in f['params']:
            if 'dv' not in q:
                continue
            t = strip(q['t'].rstrip('&').strip())
            g = {'n': '%s, default of %s' % (f['n'], q['n']), 't': q['t'].replace('const ', '').rstrip('& ') if 'Transform' not in q['t'] else 'const Transform<double, 3',
                 'init': q['dv'], 'file': f['file'], 'l': f['l']}
            try:
                if t == 'double' and 'toler' in q['n']:
                    w = np.array(math.sqrt(EPS))
                elif 'Transform<double, 3' in t:
                    w = np.eye(4)
                else:
                    continue
                n += 1
                it = ck.run(c.fn(g))
                s, v = it.rets[0]
                x = c.num(it, s, v, () if t == 'double' else (4, 4))
                ck.require(bool(np.all(np.isclose(x, w, rtol=2e-15, atol=0))), f, 'default of %s' % q['n'], 'is %s' % str(x.tolist())[:60])
            except (Odd, IndexError, TypeError) as e:
                ck.require(None, f, 'default of %s' % q['n'], str(e))
    if n < 20:
        raise AnalysisBroken('only %d default arguments found' % n)


def reads(ck, p, cls, s, at):
    """what the accessors of an object read in a state: (name, interpreter, state, value)"""
    env = {subst(l, {at: THIS}): x for l, x in s.env.items() if root(l) is at or l is at}
    if cls == 'acme::point':
        it = ck.run(next(f for f in p.fn('acme::IsApprox') if f.get('body')), env=env)
        yield 'coordinates', it, it.rets[0][0], it.load(it.rets[0][0], THIS)
        return
    for g, a, k in TABLE[cls][0]:
        fs = [f for f in getters(p, cls, g) if f['const'] and len(f['params']) == (0 if a is None else 1)]
        if not fs:
            raise AnalysisBroken('read-only accessor %s::%s not found' % (cls, g))
        it = ck.run(fs[0], env=env, **idx_args(fs[0], a))
        for s2, v in it.rets:
            if v.op in ('addr', 'objat'):
                v = it.load(s2, v.a[0])
            yield g if a is None else '%s(%d)' % (g, a), it, s2, v


def judge(ck, c, f, what, nm, it, s, x, ids=True):
    if nm in ('id', 'pos'):
        if ids:
            ck.require(x is Int(0) or (None if x.op != 'int' else False), f, 'identifier of a default object', '%s is %s' % (nm, show(x)[:60]))
        return
    try:
        ck.require(c.nan(it, s, x), f, what, '%s is %s' % (nm, show(x)[:60]))
    except Odd as e:
        ck.require(False if x.op == 'init' and root(x.a[0]) is THIS or x.op == 'uninit' else None, f, what, '%s: %s' % (nm, e))


def objects(ck, p, c):
    for cls in CLASSES:
        rec = p.records.get(cls)
        if rec is None:
            raise AnalysisBroken('class %s not found' % cls)
        for m in rec['methods']:
            if m['kind'] != 'ctor' or m['deleted'] or m['params']:
                continue
            f = p.funcs.get(m['u'])
            if f is not None:
                blank(ck, p, c, f, cls)
    for f in p.fn('acme::aabb::clear'):
        if f.get('body'):
            blank(ck, p, c, f, 'acme::aabb', False)
    rec = p.records.get('enve::output')
    if rec is None:
        raise AnalysisBroken('class enve::output not found')
    for q in rec['fields']:
        if q['n'] in ('point', 'normal', 'friction', 'depth', 'area', 'volume') and not any(m['kind'] == 'ctor' and not m['params'] and m['u'] in p.funcs for m in rec['methods']):
            f = c.fn({'n': 'enve::output::' + q['n'], 't': q['t'], 'init': q['init'], 'file': rec['file'], 'l': q['l']})
            if not q.get('init'):
                ck.require(False if q['t'] == 'double' else None, f, 'default object is not-a-number', '%s is not initialised' % q['n'])
                continue
            it = ck.run(f)
            for s, v in it.rets:
                if v.op in ('addr', 'objat'):
                    v = it.load(s, v.a[0])
                judge(ck, c, f, 'default object is not-a-number', q['n'], it, s, v)


def blank(ck, p, c, f, cls, ids=True):
    it = ck.run(f)
    ck.require(bool(it.rets), f, 'default object', 'no normal return')
    for s, v in it.rets:
        for nm, i2, s2, x in reads(ck, p, cls, s, THIS):
            judge(ck, c, f, 'default object is not-a-number', nm, i2, s2, x, ids)
