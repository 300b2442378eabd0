"""Rules about the tyre surface and its slicing."""
from .base import *
from .shell import SHELL, Shell, J, veq, deref, accessor, methods, facts_text
from engine.ident import Ident, Skip
from .rib import accpath, at, add, sub, mul, call, RIB

SHAPE = 'enve::shape'
PAR = ('Rx', 'Mx', 'Ry', 'My', 'Ly')


class Profile:
    def __init__(self, p, obj):
        """obj: location of the shape"""
        self.loc = {n: at(p, SHAPE, n, obj) for n in PAR}
        for n in PAR:
            setattr(self, n, init(self.loc[n]))

    def u(self, ay):
        return call('pow', mkop('/', ay, self.Ry), self.My)

    def radius(self, y):
        return mul(self.Rx, call('pow', sub(Real(1.0), self.u(call('abs', y))), mkop('/', Real(1.0), self.Mx)))

    def slope(self, y, neg):
        """derivative for y > 0 (neg: y < 0), |y| written out"""
        ay = mkop('neg', y) if neg else y
        u = self.u(ay)
        d = mkop('neg', mul(mkop('/', mul(mul(self.Rx, self.My), u), mul(self.Mx, ay)),
                            call('pow', sub(Real(1.0), u), sub(mkop('/', Real(1.0), self.Mx), Real(1.0)))))
        return mkop('neg', d) if neg else d


def split_sign(t, y, neg):
    """t under y > 0 (or y < 0)"""
    m = {}
    for x in subterms(t):
        if x.op == 'op' and x.a[0] in ('<', '<='):
            a, b = x.a[1], x.a[2]
            if b is y and iszero(a):
                m[x] = Bool(not neg)
            elif a is y and iszero(b):
                m[x] = Bool(neg)
        elif x.op == 'op' and x.a[0] == '==' and y in x.a[1:] and any(iszero(z) for z in x.a[1:]):
            m[x] = FALSE
        elif x.op == 'call' and x.a[0] == 'abs' and x.a[1] is y:
            m[x] = mkop('neg', y) if neg else y
        elif x.op == 'call' and x.a[0] == 'copysign' and x.a[2] is y and x.a[1].op in ('int', 'real'):
            m[x] = Real(-abs(x.a[1].a[0]) if neg else abs(x.a[1].a[0]))
    return subst(t, m)


def formula(v, want, y, neg):
    """equal / different / cannot tell; an expression without a value where the formula has one is different"""
    v, want = split_sign(v, y, neg), split_sign(want, y, neg)
    r = veq(v, want, False)
    if r is None and not poisoned(v):
        if neg:
            v, want = subst(v, {y: mkop('neg', y)}), subst(want, {y: mkop('neg', y)})
        n = 0
        for seed in range(40):
            I = Ident(1000 + seed)
            try:
                w = I.s(want)
            except Skip:
                continue
            try:
                if abs(I.s(v) - w) > 1e-8 * max(1.0, abs(w)):
                    return False
                return None
            except Skip:
                n += 1
        return False if n > 5 else None
    return r


def iszero(t):
    return t.op in ('int', 'real') and t.a[0] == 0


def bounded(it, s, y, L):
    """the facts say |y| <= L"""
    def le(a, b):
        return it.truth(s, mkop('<=', a, b)) is True or it.truth(s, mkop('<', b, a)) is False
    return le(call('abs', y), L) or le(y, L) and (le(mkop('neg', L), y) or le(mkop('neg', y), L))


def inside(s, v, y, L):
    """v holds exactly where |y| <= L: decided over every order of y, its mirror image, 0 and L (sufficient for comparisons of these)"""
    from .tree import number
    facts = [(t, w) for t, w in s.facts.items() if contains(t, y)] + [(v, None)]
    atoms = {y, L, call('abs', y), call('fabs', y), mkop('neg', y), mkop('neg', L), Real(0.0), Int(0)}

    def plain(t):
        if t.op == 'op' and t.a[0] in ('!', '&&', '||'):
            return all(plain(x) for x in t.a[1:])
        return t.op == 'bool' or t.op == 'op' and t.a[0] in ('<', '<=', '==') and all(x in atoms for x in t.a[1:])
    ok = all(plain(t) for t, _ in facts)
    for l in (1.0, 2.0):
        for x in (-3.0, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0):
            got = [(number(subst(t, {y: Real(x), L: Real(l)})), w) for t, w in facts]
            if any(g is None for g, _ in got):
                return None
            if all(g is w for g, w in got[:-1]) and got[-1][0] is not (abs(x) <= l):
                return False
    return ok or None


def reachable(s, y, L, tol, yv, tv):
    """every fact about the position is known to hold for |y| = yv and the tolerance tv"""
    from .tree import number
    for t, w in s.facts.items():
        if not contains(t, y):
            continue
        m = {x: Real(1.5e-8) for x in subterms(t) if x.op == 'call' and x.a[0] == 'glob' and str(x.a[1]).split('::')[-1] in ('EPSILON_ENVE', 'EPSILON_ACME')}
        if not any(number(subst(t, {y: Real(sg * yv), L: Real(1.0), tol: Real(tv), **m})) is w for sg in (1, -1)):
            return False
    return True


def within_tol(it, s, y, tol):
    """True: |y| <= tol, False: |y| > tol, None: not decided by the facts"""
    ay = call('abs', y)
    for t, pol in (it.truth(s, mkop('<', tol, ay)), False), (it.truth(s, mkop('<=', ay, tol)), True):
        if t is not None:
            return pol == t
    r = it.truth(s, mkop('<', ay, tol))
    if r is True:
        return True
    r = it.truth(s, mkop('<=', tol, ay))
    if r is not None:
        return not r
    return None


def surface(ck):
    ck.rule = """Value-number comparison on every normal exit of the surface queries of tyre shape and shell: the path facts must
    bound |y| by the half width (no exit outside), the radius must be Rx (1 - (|y|/Ry)^My)^(1/Mx), the derivative its derivative
    with the sign of y (zero only where |y| is within the tolerance), the angle the arc tangent of the derivative; the
    constructors must store each profile parameter under its own name, the extreme values must be Rx and Ly."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        sp = field_of_type(p, SHELL, lambda t: 'shared_ptr' in t and 'shape' in t or strip(t) == SHAPE, 'the profile')
        for rec in (SHAPE, SHELL):
            for f in p.fn(rec + '::surfaceRadius') + p.fn(rec + '::surfaceDerivative') + p.fn(rec + '::surfaceAngle'):
                it = ck.run(f)
                S = Profile(p, THIS if rec == SHAPE else holder(p, it, sp))
                y = init(P(it, 0))
                tol = init(P(it, 1)) if len(f['params']) > 1 else None
                kind = f['n'].split('::')[-1]
                ck.require(bool(it.rets), f, 'some normal exit exists')
                for s, v in it.rets:
                    v = deref(it, (s, v))
                    ck.require(bounded(it, s, y, S.Ly), f, 'a lateral position outside the half width is rejected', facts_text(s))
                    if kind == 'surfaceRadius':
                        for neg in (False, True):
                            ck.require(formula(v, S.radius(y), y, neg), f, 'radius formula', show(v))
                        continue
                    if kind == 'surfaceAngle':
                        if v.op == 'call' and v.a[0] == 'atan':
                            v = v.a[1]
                        elif v.op == 'call' and v.a[0] == 'atan2' and v.a[2].op in ('int', 'real') and v.a[2].a[0] == 1:
                            v = v.a[1]
                        elif not iszero(v):
                            ck.require(None if poisoned(v) else False, f, 'angle is the arc tangent of the derivative', show(v))
                            continue
                    small = within_tol(it, s, y, tol) if tol is not None else None
                    if iszero(v):
                        if small is None and tol is not None and any(reachable(s, y, S.Ly, tol, a, b) for a, b in ((1e-9, 1e-12), (2e-3, 1e-3))):
                            small = False
                        ck.require(small, f, 'the derivative vanishes only within the tolerance of the middle plane', facts_text(s))
                        continue
                    ck.require(True if small is False else None, f, 'the derivative is evaluated away from the middle plane', facts_text(s))
                    for neg in (False, True):
                        if it.assume(s, mkop('<', y, Real(0.0)) if neg else mkop('<', Real(0.0), y), True) is None:
                            continue
                        ck.require(formula(v, S.slope(y, neg), y, neg), f, 'derivative formula for y %s 0' % ('<' if neg else '>'),
                                   show(split_sign(v, y, neg)))
        for rec in (SHAPE, SHELL):
            for name, par in (('surfaceMaxRadius', 'Rx'), ('surfaceMaxWidth', 'Ly'), ('surfaceWidth', 'Ly')):
                for f in p.fn(rec + '::' + name):
                    it = ck.run(f)
                    S = Profile(p, THIS if rec == SHAPE else holder(p, it, sp))
                    for s, v in it.rets:
                        v = deref(it, (s, v))
                        ck.require(veq(v, getattr(S, par), False), f, 'returns the profile parameter %s' % par, show(v))
            for f in p.fn(rec + '::checkWidthBound'):
                it = ck.run(f)
                S = Profile(p, THIS if rec == SHAPE else holder(p, it, sp))
                y = init(P(it, 0))
                for s, v in it.rets:
                    b = it.truth(s, v) if v.op not in ('bool',) else v.a[0]
                    if b is None:
                        ok = inside(s, v, y, S.Ly)
                        ck.require(ok, f, 'true exactly inside the half width', show(v))
                    elif b:
                        ck.require(bounded(it, s, y, S.Ly), f, 'true exactly inside the half width', facts_text(s))
                    else:
                        out = it.truth(s, mkop('<', S.Ly, call('abs', y))) is True or it.truth(s, mkop('<', S.Ly, y)) is True or it.truth(s, mkop('<', y, mkop('neg', S.Ly))) is True
                        ck.require(out, f, 'false exactly outside the half width', facts_text(s))
        # constructors
        n = 0
        for f in p.fn(SHAPE + '::shape') + p.fn(SHELL + '::shell'):
            reals = [q['n'] for q in f['params'] if strip(q['t']) in ('double', 'float')]
            if len(reals) != 5:
                continue
            n += 1
            shell_ = f['n'].startswith(SHELL)
            it = ck.run(f)
            for s, v in it.rets:
                loc = THIS
                if shell_:
                    h = it.load(s, LF(THIS, sp))
                    loc = pointee(h) or LF(THIS, sp)
                for q, nm in zip(reals, PAR):
                    g = it.load(s, at(p, SHAPE, nm, loc))
                    ck.require(veq(g, init(it.params[q]), False), f, 'stores the profile parameter %s' % nm, show(g))
        if n < 2:
            raise AnalysisBroken('constructors with the five profile parameters not found')


def pointee(h):
    return h.a[0] if h.op in ('addr', 'ptr') and isinstance(h.a[0], T) else (LD(h) if h.op not in ('int', 'real') else None)


def holder(p, it, sp):
    l = LF(THIS, sp)
    t = next(t for t in [f['t'] for _, f in p.all_fields(SHELL) if f['n'] == sp])
    return LD(init(l)) if 'shared_ptr' in t else l


def slicing(ck):
    ck.rule = """Loop induction over the slice construction with the surface queries uninterpreted: for every i in [0, n) the slice i is
    a disk across the tyre axis at y = -L + (2 i + 1) L / n with width 2 L / n (L the half width), radius and inclination those of
    the surface at that very y, and a slice whose radius is not positive is refused; the read-outs of the slices return these."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        sp = field_of_type(p, SHELL, lambda t: 'shared_ptr' in t and 'shape' in t or strip(t) == SHAPE, 'the profile')
        summ = {}

        def q(name):
            def sm(it, s, e, fr, obj, args):
                y = args[0][1]
                return [(s.copy(), call('atan', call('SD', y)) if name == 'SA' else call(name, y))]
            return sm
        for nm, k in (('surfaceRadius', 'SR'), ('surfaceDerivative', 'SD'), ('surfaceAngle', 'SA')):
            for g in p.fn(SHAPE + '::' + nm) + p.fn(SHELL + '::' + nm):
                summ[g['u']] = q(k)
        for f in p.fn(SHELL + '::resize'):
            it = ck.run(f, summaries=summ)
            n = init(P(it, 0))
            S = Profile(p, holder(p, it, sp))
            ck.require(bool(it.rets), f, 'some normal exit exists')
            for s, v in it.rets:
                x, j = J(it, s, n)
                W = mkop('/', mul(Real(2.0), S.Ly), n)
                Y = add(mkop('neg', S.Ly), mul(add(j, Real(0.5)), W))
                el = LI(sh.ribs, j)
                for what, loc, want, vec in (('width', at(p, RIB, 'width', el), W, False), ('radius', at(p, RIB, 'radius', el), call('SR', Y), False),
                                             ('inclination', at(p, RIB, 'angle', el), call('atan', call('SD', Y)), False),
                                             ('centre', at(p, RIB, 'center', el), mk('vec', Real(0.0), Y, Real(0.0)), True),
                                             ('axis', at(p, RIB, 'normal', el), mk('vec', Real(0.0), Real(1.0), Real(0.0)), True)):
                    g = it.load(x, loc)
                    ck.require(veq(g, want, vec), f, '%s of the i-th slice' % what, 'is %s, expected %s' % (show(g), show(want)))
            seen = False
            for k, info in it.loops.items():
                for e in info.get('ends', []):
                    srs = {y for v in list(e.env.values()) + list(e.facts) for y in subterms(v) if y.op == 'call' and y.a[0] == 'SR'}
                    for r in srs:
                        if info['iv'] is not None and contains(r, info['iv']):
                            seen = True
                            ok = it.truth(e, mkop('<', Real(0.0), r)) is True or it.truth(e, mkop('<', Int(0), r)) is True
                            ck.require(ok, f, 'a slice without positive radius is refused', facts_text(e))
            if not seen:
                ck.require(None, f, 'a slice without positive radius is refused', 'no loop building slices recognised')
        for nm, acc in (('ribRadius', 'radius'), ('ribWidth', 'width'), ('ribAngle', 'angle'), ('ribCenter', 'center')):
            for f in p.fn(SHELL + '::' + nm):
                it = ck.run(f, env=sh.entry())
                i = init(P(it, 0))
                for s, v in it.rets:
                    v = deref(it, (s, v))
                    ck.require(veq(v, init(at(p, RIB, acc, LI(sh.ribs, i))), acc == 'center'), f, 'returns the %s of the slice asked for' % acc, show(v))
