"""Rules about the per-slice contact kernels."""
from .base import *
from .shell import veq, deref, accessor, norm_arg, methods, J, facts_text, is_env

RIB = 'enve::rib'
REC = ('point', 'normal', 'friction', 'depth', 'area', 'volume')
TRIG = {'asin', 'acos', 'atan', 'atan2', 'sin', 'cos', 'tan', 'hypot', 'sqrt', 'pow', 'exp', 'log', 'cbrt'}
ZV = mk('call', 'glob', 'acme::UNITZ_VEC3')


def accpath(p, rec, name):
    """location (relative to THIS) handed out by an accessor"""
    c = p.__dict__.setdefault('_acc', {})
    k = (rec, name)
    if k not in c:
        g = accessor(p, rec, name)
        it = Interp(p)
        rets, _ = it.analyse(g)
        v = rets[0][1]
        l = v.a[0] if v.op in ('addr', 'init') else None
        if len(rets) != 1 or l is None or root(l) is not THIS:
            raise AnalysisBroken('accessor %s::%s not understood' % k)
        c[k] = l
    return c[k]


def at(p, rec, name, obj):
    return subst(accpath(p, rec, name), {THIS: obj})


def feq(got, want, vec):
    """value comparison; a different special function means a different algorithm: cannot tell"""
    r = veq(got, want, vec)
    if r is False:
        fg = {t.a[0] for t in subterms(got) if t.op == 'call'} & TRIG
        fw = {t.a[0] for t in subterms(want) if t.op == 'call'} & TRIG
        if fg - fw:
            return None
    return r


def obj_desc(it, s, a):
    """argument of an intersection query by value"""
    p = it.prog
    if a[0] == 'l':
        l, t = a[1], strip(a[2])
        try:
            if t == 'acme::disk':
                return mk('disk', it.load(s, at(p, t, 'radius', l)), it.load(s, at(p, t, 'center', l)), it.load(s, at(p, t, 'normal', l)))
            if t == 'acme::line':
                return mk('line', it.load(s, at(p, t, 'origin', l)), it.load(s, at(p, t, 'direction', l)))
        except AnalysisBroken:
            pass
        return l
    return a[1]


def isec(it, s, e, fr, obj, args):
    t = mk('call', 'INT', *sorted([obj_desc(it, s, a) for a in args[:2]], key=lambda x: x.op))
    r = []
    for b in (True, False):
        x = it.assume(s, t, b)
        if x is None:
            continue
        x = x.copy()
        if len(args) > 2:
            if b:
                it.store(x, args[2][1], mk('call', 'CUT', t), e, fr)
            else:
                it.havoc(x, args[2][1], 'nocut')
        r.append((x, Bool(b)))
    return r


def kernels(p):
    """the public per-slice entry points with ground, and the no-contact one"""
    r = []
    for f in methods(p, RIB):
        ps = [strip(q['t']) for q in f['params']]
        if any(t == 'enve::output' for t in ps) and f['params'] and len(ps) >= 2:
            r.append(f)
    return r


def par(it, f, pred):
    for q, l in zip(f['params'], it.params.values()):
        if pred(strip(q['t'])):
            return l
    return None


def rest(p, it, pose):
    """the no-contact record"""
    T = init(LF(pose, '@translation'))
    L = init(LF(pose, '@linear'))
    c = init(accpath(p, RIB, 'center'))
    r = init(accpath(p, RIB, 'radius'))
    return {'point': mkop('+', T, mkop('m*', L, mkop('-', c, mkop('s*', r, ZV)))), 'normal': mkop('m*', L, ZV),
            'friction': Real(0.0), 'depth': Real(0.0), 'area': Real(0.0), 'volume': Real(0.0)}


def uninit(t):
    return any(y.op == 'uninit' for y in subterms(t))


def nonpos(it, s, d):
    """is the divisor d known to be non-zero on this path?"""
    N = Norm()
    c = N.s(d).const()
    if c is not None:
        return c != 0
    if it.truth(s, mkop('<', Int(0), d)) is True or it.truth(s, mkop('<', Real(0.0), d)) is True:
        return True
    kd = N.s(d).key()
    for t, pol in s.facts.items():
        if t.op == 'op' and t.a[0] in ('<', '<='):
            a, b = t.a[1], t.a[2]
            # c < d with c >= 0
            if pol and t.a[0] == '<' and N.s(b).key() == kd and small_const(a, zero=True):
                return True
            if not pol and t.a[0] == '<=' and N.s(a).key() == kd and small_const(b, zero=True):
                return True
            if pol and t.a[0] == '<=' and N.s(b).key() == kd and small_const(a):
                return True
            if not pol and t.a[0] == '<' and N.s(a).key() == kd and small_const(b):
                return True
    # products of positives, max(const, .)
    if d.op == 'call' and d.a[0] == 'max' and any(small_const(x) for x in d.a[1:]):
        return True
    if d.op == 'op' and d.a[0] == '*':
        return nonpos(it, s, d.a[1]) and nonpos(it, s, d.a[2])
    return False


def small_const(t, zero=False):
    if t.op in ('int', 'real'):
        return t.a[0] > 0 or zero and t.a[0] == 0
    return t.op == 'call' and t.a[0] == 'glob' and str(t.a[1]).split('::')[-1].startswith('EPSILON')


# ------------------------------------------------------------------------ C06
def records(ck):
    ck.rule = """Abstract interpretation of every per-slice kernel with the geometric intersection queries uninterpreted, on every
    normal exit: when the verdict is false the record is exactly the rest record (pose applied to the slice bottom point, shell
    z axis, zero friction, depth, area, volume); when it is true all six components are assigned, none from an uninitialised
    variable, and every divisor that enters them is excluded from being zero by the path guards."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        fs = kernels(p)
        if len(fs) < 3:
            raise AnalysisBroken('per-slice kernels not found')
        summ = {f['u']: isec for f in p.fn('acme::Intersection')}
        for f in p.fn(RIB + '::samplingLine'):
            summ[f['u']] = sample
        for f in fs:
            divs = []

            class H(Hooks):
                def div(self, it, s, node, fr, a, b, dry):
                    if not dry:
                        divs.append((node, b, nonpos(it, s, b), facts_text(s), fr))
            it = ck.run(f, summaries=summ, hooks=H())
            pose = par(it, f, lambda t: 'Transform' in t or 'affine' in t)
            out = par(it, f, lambda t: t == 'enve::output')
            ck.require(bool(it.rets), f, 'returns')
            spec = rest(p, it, pose)
            for s, v in it.rets:
                if v not in (TRUE, FALSE):
                    ck.require(None, f, 'verdict is a definite value on each path', show(v))
                    continue
                for c in REC:
                    got = it.load(s, LF(out, c))
                    if v is FALSE:
                        ck.require(feq(got, spec[c], c in ('point', 'normal')), f, 'no contact: %s of the rest record' % c, show(got))
                    else:
                        old = got is init(LF(out, c)) or any(y is init(LF(out, c)) or y is init(out) for y in subterms(got))
                        ck.require(not old, f, 'contact: %s is assigned' % c, show(got))
                        ck.require(not uninit(got), f, 'contact: %s does not use an uninitialised variable' % c, show(got))
            for node, b, ok, tx, fr in divs:
                # the radius of a slice is positive by construction
                if not ok and Norm().eq(b, init(accpath(p, RIB, 'radius')), False):
                    ok = True
                ck.require(True if ok else (None if poisoned(b) else False), fr.fn, 'divisor %s cannot be zero' % divname(b), 'path facts: %s' % tx, node)


def divname(b):
    t = show(b)
    import re
    return re.sub(r'phi\(\d+:', 'phi(', t)[:80]


def sample(it, s, e, fr, obj, args):
    t = mk('call', 'SMP', norm_arg(it, s, args[0]), obj_desc(it, s, args[1]))
    r = []
    for b in (True, False):
        x = it.assume(s, t, b)
        if x is None:
            continue
        x = x.copy()
        if b:
            it.store(x, args[2][1], mk('call', 'SPT', t), e, fr)
            it.store(x, args[3][1], mk('call', 'SFR', t), e, fr)
        r.append((x, Bool(b)))
    return r


# -------------------------------------------------------------- contact values
def add(a, b): return mkop('+', a, b)
def sub(a, b): return mkop('-', a, b)
def mul(a, b): return mkop('*', a, b)
def call(n, *a): return mk('call', n, *a)
def dot(a, b): return call('dot', a, b)
def nrm(a): return call('normalized', a)
def smul(k, v): return mkop('s*', k, v)
def half(v): return mkop('v/', v, Real(2.0))


class Slice:
    """the slice placed by the pose"""

    def __init__(self, p, it, f):
        self.pose = par(it, f, lambda t: 'Transform' in t or 'affine' in t)
        self.out = par(it, f, lambda t: t == 'enve::output')
        self.T, self.L = init(LF(self.pose, '@translation')), init(LF(self.pose, '@linear'))
        self.c = init(accpath(p, RIB, 'center'))
        self.r = init(accpath(p, RIB, 'radius'))
        self.n = init(accpath(p, RIB, 'normal'))
        self.w = init(accpath(p, RIB, 'width'))
        self.C = add(self.T, mkop('m*', self.L, self.c))
        self.N = mkop('m*', self.L, self.n)


def chord(p, t):
    """end points of the segment CUT(t)"""
    rets = None
    f = [g for g in p.fn('acme::segment::vertex') if g.get('const')][0]
    it = Interp(p)
    rets, _ = it.analyse(f)
    v = rets[0][1]
    loc = v.a[0] if v.op in ('addr', 'init') else None
    if loc is None or loc.op != 'I':
        raise AnalysisBroken('segment::vertex not understood')
    fld = loc.a[0].a[1]
    return [mk('idx', mk('fld', mk('call', 'CUT', t), fld), Int(k)) for k in (0, 1)]


def seg_area(S, d, chordlen=None):
    a = [mul(mul(Real(2.0), call('sqrt', mul(d, sub(mul(Real(2.0), S.r), d)))), S.w)]
    if chordlen is not None:
        a.append(mul(chordlen, S.w))
    return a


def seg_vol(S, d):
    h = sub(S.r, d)
    return mul(sub(mul(mul(S.r, S.r), call('acos', mkop('/', h, S.r))), mul(h, call('sqrt', mul(d, sub(mul(Real(2.0), S.r), d))))), S.w)


def anyof(got, wants, vec):
    rs = [feq(got, w, vec) for w in wants]
    return True if True in rs else (None if None in rs else False)


def ints(s):
    return [(t, pol) for t, pol in s.facts.items() if t.op == 'call' and t.a[0] in ('INT', 'SMP')]


def longer(it, s, L):
    """chord length known to exceed a small constant"""
    k = Norm().s(L)
    N = Norm()
    kl = N.s(L).key()
    for t, pol in s.facts.items():
        if t.op == 'op' and t.a[0] in ('<', '<='):
            if pol and N.s(t.a[2]).key() == kl and small_const(t.a[1], zero=t.a[0] == '<'):
                return True
            if not pol and N.s(t.a[1]).key() == kl and small_const(t.a[2], zero=t.a[0] == '<='):
                return True
    return False


def is_disk_of(desc, S):
    return desc.op == 'disk' and feq(desc.a[0], S.r, False) is True and feq(desc.a[1], S.C, True) is True and feq(desc.a[2], S.N, True) is True


def flat_values(ck):
    ck.rule = """Value-number comparison on every exit of the flat-ground kernel of the geometric method, intersection queries
    uninterpreted: the only query made is plane against the disk with the radius of the slice and the pose-transformed centre
    and normal; contact is reported exactly where it succeeded with a chord longer than the threshold; the point is the chord
    mid-point, the normal the unit projection of the ground normal on the slice plane, the friction that of the ground, the depth radius
    minus distance of the point from the placed centre, area chord times width and volume circular segment times width."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        fs = [f for f in p.fn(RIB + '::envelopGeometric') + p.fn(RIB + '::envelop') if any('flat' in q['t'] for q in f['params'])]
        if not fs:
            raise AnalysisBroken('flat-ground kernel not found')
        summ = {f['u']: isec for f in p.fn('acme::Intersection')}
        for f in p.fn(RIB + '::envelopSampling'):
            summ[f['u']] = other_method
        for f in fs:
            it = ck.run(f, summaries=summ)
            S = Slice(p, it, f)
            g = par(it, f, lambda t: 'flat' in t)
            ng = init(at(p, 'enve::ground::flat', 'normal', g))
            mu = init(at(p, 'enve::ground::flat', 'friction', g))
            hits = 0
            for s, v in it.verdicts():
                q = ints(s)
                if any(t.op == 'call' and t.a[0] == 'OTHER' for t in s.facts):
                    continue
                ck.require(len(q) == 1 and g in q[0][0].a[1:], f, 'one query against the ground per verdict', show(q))
                if len(q) != 1:
                    continue
                t, pol = q[0]
                d = [a for a in t.a[1:] if a is not g]
                ck.require(bool(d) and is_disk_of(d[0], S), f, 'the query uses the slice disk placed by the pose', show(t))
                a, b = chord(p, t)
                ln = call('norm', sub(a, b))
                hit = pol and longer(it, s, ln)
                if v is FALSE:
                    ck.require(not hit, f, 'a crossing chord above the threshold is reported', facts_text(s))
                    continue
                if v is not TRUE:
                    ck.require(None, f, 'definite verdict', show(v))
                    continue
                hits += 1
                ck.require(hit, f, 'contact only where the slice crosses the ground in a proper chord', facts_text(s))
                pt = it.load(s, LF(S.out, 'point'))
                ck.require(feq(pt, half(add(a, b)), True), f, 'contact point is the chord mid-point', show(pt))
                pt = half(add(a, b))
                tg = nrm(call('cross', S.N, sub(S.C, pt)))
                geo(ck, it, s, f, S, pt, mu, sub(S.r, call('norm', sub(pt, S.C))), ln)
                n = it.load(s, LF(S.out, 'normal'))
                ck.require(feq(n, nrm(sub(ng, smul(dot(ng, tg), tg))), True), f, 'contact normal is the unit projection of the ground normal', show(n))
            ck.require(hits > 0, f, 'contact can be reported')


def geo(ck, it, s, f, S, pt, mu, depth, ln):
    d = it.load(s, LF(S.out, 'depth'))
    ck.require(feq(d, depth, False), f, 'contact depth formula', show(d))
    m = it.load(s, LF(S.out, 'friction'))
    ck.require(feq(m, mu, False), f, 'contact friction formula', show(m))
    A = it.load(s, LF(S.out, 'area'))
    ck.require(anyof(A, seg_area(S, depth, ln), False), f, 'contact area is chord length times width', show(A))
    V = it.load(s, LF(S.out, 'volume'))
    ck.require(feq(V, seg_vol(S, depth), False), f, 'contact volume is circular segment times width', show(V))


def other_method(it, s, e, fr, obj, args):
    t = mk('call', 'OTHER')
    x = it.assume(s, t, True).copy()
    it.havoc(x, args[-1][1], 'other')
    return [(x, it.fresh('v'))]


# ------------------------------------------------------------ mesh, geometric
def mesh_values(ck):
    ck.rule = """Inductive check of the accumulation loop of the mesh kernel of the geometric method: every triangle of the
    candidate list is tested against the placed slice disk; an iteration leaves the accumulators unchanged exactly where the
    test failed or the chord is degenerate and never ends the loop early; otherwise area grows by chord length times width,
    volume by the section area times width, and point, normal and friction by the same volume times a unit normal and the
    friction of that very triangle; the record is then accumulators over volume, with depth radius minus distance to the centre."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        fs = [f for f in p.fn(RIB + '::envelopGeometric') if not any('flat' in q['t'] for q in f['params'])]
        if not fs:
            raise AnalysisBroken('mesh kernel not found')
        summ = {f['u']: isec for f in p.fn('acme::Intersection')}
        for f in fs:
            it = ck.run(f, summaries=summ)
            S = Slice(p, it, f)
            g = par(it, f, lambda t: t.startswith('std::vector'))
            G = init(LF(g, '#size'))
            ls = {k: i for k, i in it.loops.items() if any(ints(e) for e in i.get('ends', []))}
            if len(ls) != 1:
                ck.require(None, f, 'a single accumulation loop', '%d loops' % len(ls))
                continue
            k, info = list(ls.items())[0]
            rng = info.get('range')
            full = rng is not None and rng[0] is Int(0) and rng[1] is G
            ck.require(full if rng is not None else None, f, 'the loop visits every candidate triangle', show(rng) if rng else 'range not understood')
            early = bool(info.get('breaks') or info.get('returns') or info.get('early'))
            ck.require(not early, f, 'no triangle ends the loop early', 'the loop can be left before the last candidate')
            tri = LD(init(LI(g, info['iv']))) if info.get('iv') is not None else None
            trues = [(s, v) for s, v in it.verdicts() if v is TRUE]
            ck.require(bool(trues), f, 'contact can be reported')
            if not trues or tri is None:
                continue
            s0 = trues[0][0]
            # accumulators, identified through the record they end in
            V = it.load(s0, LF(S.out, 'volume'))
            A = it.load(s0, LF(S.out, 'area'))
            if V.op == 'phi' and A.op == 'phi':
                from .matlab import ev
                # a boolean the loop carries has left its initial value once something was accumulated
                flags = {r[0]: r[1] is FALSE for r in info['rec'].values() if r[1] in (TRUE, FALSE)}
                for vol, area in ((1e-2, 1e-2), (1e-12, 1e-2), (1e-2, 1e-12)):
                    def known(t):
                        if t.op == 'call' and t.a[0] == 'glob':
                            return 1.5e-8 if str(t.a[1]).split('::')[-1] in ('EPSILON_ENVE', 'EPSILON_ACME', 'EPSILON_SQRT') else None
                        return vol if t is V else area if t is A else flags.get(t)
                    res = []
                    for s, v in trues:
                        got = [(ev(t, known), w) for t, w in s.facts.items() if any(x is V or x is A or x in flags for x in subterms(t))]
                        res.append(False if any(r is not None and bool(r) != bool(w) for r, w in got) else None if any(r is None for r, w in got) else True)
                    ck.require(True if True in res else None if None in res else False, f, 'a total area or volume above the tolerance is a contact',
                               'area %g, volume %g: %s' % (area, vol, ' | '.join(facts_text(s) for s, v in trues)))
            if V.op != 'phi' or A.op != 'phi' or V.a[0] != k or A.a[0] != k:
                ck.require(None if poisoned(V) or V.op == 'sum' else False, f, 'volume and area are accumulated over the triangles', show(V))
                continue
            rec = {r[0]: (l, r) for l, r in info['rec'].items()}
            P_ = acc_over(it.load(s0, LF(S.out, 'point')), V)
            F_ = acc_over(it.load(s0, LF(S.out, 'friction')), V)
            N_ = it.load(s0, LF(S.out, 'normal'))
            N_ = acc_over(N_.a[1] if N_.op == 'call' and N_.a[0] == 'normalized' else None, V) if N_.op == 'call' and N_.a[0] == 'normalized' else \
                (acc_over(N_, V) and False)
            for what, x in (('point', P_), ('friction', F_), ('normal', N_)):
                if x is None or x is False or x not in rec:
                    got = it.load(s0, LF(S.out, what))
                    ck.require(None if poisoned(got) else False, f, 'contact %s is the accumulated value over the accumulated volume%s' % (what, ' normalised' if what == 'normal' else ''), show(got))
            for s, v in trues:
                d = it.load(s, LF(S.out, 'depth'))
                pt = it.load(s, LF(S.out, 'point'))
                ck.require(feq(d, sub(S.r, call('norm', sub(pt, S.C))), False), f, 'depth is radius minus distance of the contact point from the centre', show(d))
            if any(x is None or x is False or x not in rec for x in (P_, F_, N_)):
                continue
            for ph in (V, A, P_, F_, N_):
                j0 = rec[ph][1][1]
                z = Norm()
                ck.require((not z.v(j0)) if ph in (P_, N_) else z.s(j0).iszero(), f, 'accumulators start at zero', '%s starts as %s' % (show(ph), show(j0)))
            grown = 0
            for e, val in [z for e in info['ends'] for z in ordered(it, e, {ph: it.load(e, rec[ph][0]) for ph in (V, A, P_, F_, N_)})]:
                q = ints(e)
                ok = all(t.a[0] == 'INT' and tri in t.a[1:] for t, pol in q)
                ck.require(ok and len(q) == 1, f, 'each iteration tests its own triangle against the slice', show([t for t, _ in q]))
                if len(q) != 1 or not ok:
                    continue
                t, pol = q[0]
                dk = [a for a in t.a[1:] if a is not tri][0]
                ck.require(is_disk_of(dk, S), f, 'the test uses the slice disk placed by the pose', show(dk))
                same = all(val[ph] is ph for ph in val)
                if same:
                    # must be a miss or a degenerate chord
                    if pol:
                        a, b = chord(p, t)
                        ln = call('norm', sub(a, b))
                        ck.require(shorter(it, e, ln), f, 'a crossed triangle is skipped only when its chord is degenerate', facts_text(e))
                    continue
                if not pol:
                    ck.require(False, f, 'a missed triangle does not contribute', show(val[V]))
                    continue
                grown += 1
                a, b = chord(p, t)
                ln = call('norm', sub(a, b))
                Nn = Norm()
                dV = Nn.s(sub(val[V], V))
                ck.require(feq(sub(val[A], A), mul(ln, S.w), False), f, 'area grows by chord length times width', show(val[A]))
                mu = init(at(p, 'enve::triangleground', 'friction', tri))
                ck.require(diffeq(Nn, sub(val[F_], F_), dV * Nn.s(mu)), f, 'friction grows by volume times the friction of that triangle', show(val[F_]))
                # section area formula
                ck.require(section_ok(p, it, e, S, t, Nn, dV), f, 'volume grows by circular sector minus triangle area, times width', show(sub(val[V], V)))
                dN = Nn.vadd(Nn.v(val[N_]), Nn.v(N_), -1)
                units = [y for y in subterms(val[N_]) if y.op == 'call' and y.a[0] == 'normalized']
                ok = any(not Nn.vadd(dN, Nn.vscale(Nn.v(u), dV), -1) for u in units)
                ck.require(True if ok else (None if poisoned(val[N_]) else False), f, 'normal grows by volume times a unit vector', show(val[N_]))
                ng = init(at(p, 'enve::triangleground', 'normal', tri))
                LT = call('transpose', S.L)
                ang = lambda v: call('atan2', mk('comp', v, Int(2)), mk('comp', v, Int(0)))
                tc = mkop('/', add(ang(mkop('m*', LT, sub(a, S.C))), ang(mkop('m*', LT, sub(b, S.C)))), Real(2.0))
                rad = mkop('m*', S.L, mk('vec', mkop('neg', call('cos', tc)), Real(0.0), mkop('neg', call('sin', tc))))
                un = nrm(add(rad, smul(dot(sub(ng, rad), S.N), S.N)))
                good = not Nn.vadd(dN, Nn.vscale(Nn.v(un), dV), -1)
                fs = {q.a[0] for q in subterms(val[N_]) if q.op == 'call'} & TRIG
                ck.require(True if good else (None if poisoned(val[N_]) or fs - {'atan2', 'sin', 'cos'} else False), f,
                           'the normal is the inward radial direction with the lateral slope of the triangle', show(val[N_]))
                dP = Nn.vadd(Nn.v(val[P_]), Nn.v(P_), -1)
                want = Nn.v(add(S.T, mkop('m*', S.L, S.c)))
                restp = Nn.vadd(dP, Nn.vscale(want, dV), -1)
                ok = all(key in in_plane(Nn, S) for key in restp)
                ck.require(True if ok else (None if poisoned(val[P_]) else False), f, 'point grows by volume times a point placed in the slice plane', show(val[P_]))
            ck.require(grown > 0, f, 'some iteration contributes')


def ordered(it, e, val):
    """smaller and larger of two angles: one case per order of them"""
    for v in val.values():
        for y in subterms(v):
            if y.op == 'call' and y.a[0] in ('min', 'max') and len(y.a) == 3 and all(any(z.op == 'call' and z.a[0] == 'atan2' for z in subterms(x)) for x in y.a[1:]):
                a, b = y.a[1:]
                r = []
                for pol in (True, False):
                    s = it.assume(e, mkop('<', a, b), pol)
                    if s is not None:
                        lo, hi = (a, b) if pol else (b, a)
                        d = {call('min', a, b): lo, call('min', b, a): lo, call('max', a, b): hi, call('max', b, a): hi}
                        r += ordered(it, s, {k: subst(x, d) for k, x in val.items()})
                return r
    return [(e, val)]


def in_plane(Nn, S):
    """vector atoms of L*ex and L*ez"""
    r = set()
    for ax in (0, 2):
        u = call('glob', 'acme::UNIT%s_VEC3' % 'XYZ'[ax])
        r |= set(Nn.v(mkop('m*', S.L, u)))
    return r


def diffeq(N, t, want):
    if N.s(t).eq(want):
        return True
    return None if poisoned(t) else False


def acc_over(t, V):
    """t == X / V -> X"""
    if t is None or t.op != 'op' or t.a[0] not in ('/', 'v/') or t.a[2] is not V:
        return None
    return t.a[1] if t.a[1].op == 'phi' else None


def shorter(it, s, L):
    N = Norm()
    kl = N.s(L).key()
    for t, pol in s.facts.items():
        if t.op == 'op' and t.a[0] in ('<', '<='):
            if pol and N.s(t.a[1]).key() == kl and small_const(t.a[2]):
                return True
            if not pol and N.s(t.a[2]).key() == kl and small_const(t.a[1]):
                return True
    return False


def section_ok(p, it, s, S, t, N, dV):
    """dV = w * (r^2 * td - ra*rb*sin(tb-ta)/2), {ta,tb} = angles of the chord ends in the slice, ordered"""
    a, b = chord(p, t)
    LT = call('transpose', S.L)
    pa = mkop('m*', LT, sub(a, S.C))
    pb = mkop('m*', LT, sub(b, S.C))
    ang = lambda v: call('atan2', mk('comp', v, Int(2)), mk('comp', v, Int(0)))
    ra = call('min', S.r, call('norm', pa))
    rb = call('min', S.r, call('norm', pb))
    ta, tb = ang(pa), ang(pb)
    out = []
    for x, y in ((ta, tb), (tb, ta)):
        d = sub(y, x)
        td = mkop('/', d, Real(2.0))
        w = mul(S.w, sub(mul(mul(S.r, S.r), td), mkop('/', mul(mul(ra, rb), call('sin', d)), Real(2.0))))
        out.append((x, y, N.s(w)))
    for x, y, w in out:
        if w.eq(dV):
            # the order must be the one the guards establish: y >= x
            lt = None
            for f, pol in s.facts.items():
                if f.op == 'op' and f.a[0] in ('<', '<='):
                    l, r = N.s(f.a[1]).key(), N.s(f.a[2]).key()
                    if l == N.s(y).key() and r == N.s(x).key():
                        lt = not pol
                    if l == N.s(x).key() and r == N.s(y).key():
                        lt = pol
            return True if lt is True else (False if lt is False else None)
    fs = {q.a[0] for q in subterms(t) if q.op == 'call'}
    return None if any('min' in repr(n)[:8] for n in ()) else False


# ------------------------------------------------------------------- sampling
def sampling(ck):
    ck.rule = """Both sampling kernels: contact is reported exactly where four downward lines through points placed symmetrically
    about the placed slice centre (along its x and y axes) all find ground and the resulting depth is positive; point and friction are the
    means of the four samples, the normal is the unit cross product of the two diagonals, depth, area and volume follow the
    segment formulas. The line sampler must return, for the mesh, the highest hit with the friction of the same triangle
    (induction over its loops), report failure exactly where nothing was hit, and for the plane its hit and its friction."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        fs = p.fn(RIB + '::envelopSampling')
        if len(fs) < 2:
            raise AnalysisBroken('sampling kernels not found')
        summ = {f['u']: isec for f in p.fn('acme::Intersection')}
        helpers = p.fn(RIB + '::samplingLine')
        for f in helpers:
            summ[f['u']] = sample
        for f in fs:
            it = ck.run(f, summaries=summ)
            S = Slice(p, it, f)
            g = [l for l in it.params.values() if l not in (S.pose, S.out)][0]
            hits = 0
            for s, v in it.verdicts():
                q = ints(s)
                allok = len([1 for t, pol in q if pol and t.a[0] == 'SMP']) == 4 and all(pol for t, pol in q)
                if v is FALSE:
                    if allok:
                        # must fail on the depth
                        d = depth_terms(p, S, [t for t, _ in q])
                        ok = d is not None and positive(s, d) is False
                        ck.require(True if ok else (None if d is None else False), f, 'four samples with a positive depth are a contact', facts_text(s))
                    continue
                if v is not TRUE:
                    ck.require(None, f, 'definite verdict', show(v))
                    continue
                hits += 1
                ck.require(True if allok else (None if not helpers or any(t.a[0] == 'INT' for t, _ in q) else False), f, 'contact only where all four samples found ground', facts_text(s))
                if not allok:
                    continue
                ck.require(all(t.a[1] is g for t, _ in q), f, 'the samples are taken on the ground given', show(q[0][0]))
                lab = label(S, [t for t, _ in q])
                ck.require(lab is not None, f, 'sampling lines are vertical, downward and symmetric about the placed slice centre', '; '.join(show(t) for t, _ in q))
                if lab is None:
                    continue
                pts = [call('SPT', lab[k]) for k in ('x+', 'x-', 'y+', 'y-')]
                mean = mkop('v/', add(add(pts[0], pts[1]), add(pts[2], pts[3])), Real(4.0))
                pt = it.load(s, LF(S.out, 'point'))
                ck.require(feq(pt, mean, True), f, 'contact point is the mean of the four samples', show(pt))
                n = nrm(call('cross', sub(pts[0], pts[1]), sub(pts[2], pts[3])))
                got = it.load(s, LF(S.out, 'normal'))
                ck.require(feq(got, n, True), f, 'contact normal is the unit cross product of the sample diagonals', show(got))
                fr = [call('SFR', lab[k]) for k in ('x+', 'x-', 'y+', 'y-')]
                d = depth_terms(p, S, [t for t, _ in q])
                geo(ck, it, s, f, S, mean, mkop('/', add(add(fr[0], fr[1]), add(fr[2], fr[3])), Real(4.0)), d, None)
                ck.require(positive(s, d) is True, f, 'contact only where the depth is positive', facts_text(s))
            ck.require(hits > 0, f, 'contact can be reported')
        for f in helpers:
            line_sampler(ck, p, f)


def positive(s, d):
    N = Norm()
    kd = N.s(d).key()
    for t, pol in s.facts.items():
        if t.op == 'op' and t.a[0] in ('<', '<='):
            if N.s(t.a[2]).key() == kd and N.s(t.a[1]).iszero():
                return pol
            if N.s(t.a[1]).key() == kd and N.s(t.a[2]).iszero():
                return not pol
    return None


def label(S, qs):
    """name the four sampling lines by their position"""
    N = Norm()
    C = N.v(S.C)
    r = {}
    ks = {}
    for t in qs:
        d = t.a[2]
        if d.op != 'line':
            return None
        dirn = N.v(d.a[1])
        if dirn != N.v(mkop('neg', ZV)) and not eqv(dirn, N.v(mkop('neg', ZV))):
            return None
        off = N.vadd(N.v(d.a[0]), C, -1)
        if len(off) != 1:
            return None
        (at_, c), = off.items()
        for ax, scale in (('x', S.r), ('y', S.w)):
            u = N.v(mkop('m*', S.L, call('glob', 'acme::UNIT%s_VEC3' % ax.upper())))
            if list(u) == [at_]:
                k = (c / list(u.values())[0] / N.s(scale)).const()
                if k is None or k == 0:
                    return None
                nm = ax + ('+' if k > 0 else '-')
                if nm in r:
                    return None
                r[nm] = t
                ks[nm] = k
    if len(r) != 4 or ks['x+'] != -ks['x-'] or ks['y+'] != -ks['y-']:
        return None
    return r


def eqv(a, b):
    return set(a) == set(b) and all(a[k].eq(b[k]) for k in a)


def depth_terms(p, S, qs):
    lab = label(S, qs)
    if lab is None:
        return None
    pts = [call('SPT', lab[k]) for k in ('x+', 'x-', 'y+', 'y-')]
    mean = mkop('v/', add(add(pts[0], pts[1]), add(pts[2], pts[3])), Real(4.0))
    n = nrm(call('cross', sub(pts[0], pts[1]), sub(pts[2], pts[3])))
    ey = nrm(mk('fld', S.L, '@col:1'))
    ex = nrm(call('cross', n, ey))
    ez = nrm(call('cross', ey, ex))
    return sub(mul(S.r, call('abs', dot(n, ez))), call('norm', sub(mean, S.C)))


def elemref(t):
    """(container, index) of a term standing for a list element"""
    if t.op == 'sel' and t.a[0].op == 'phi' and t.a[0].a[1].op == 'F' and t.a[0].a[1].a[1] == '#ver':
        return t.a[0].a[1].a[0], t.a[1]
    if t.op == 'phi' and t.a[1].op == 'I':
        return t.a[1].a[0], t.a[1].a[1]
    return None


def zc(t):
    return mk('comp', t, Int(2))


def higher(s, new, old):
    """fact: z(new) > z(old) (True), <= (False), unknown (None)"""
    N = Norm()
    kn, ko = N.s(zc(new)).key(), N.s(zc(old)).key()
    for t, pol in s.facts.items():
        if t.op == 'op' and t.a[0] in ('<', '<='):
            l, r = N.s(t.a[1]).key(), N.s(t.a[2]).key()
            if (l, r) == (ko, kn):
                return pol
            if (l, r) == (kn, ko):
                return not pol
    return None


def line_sampler(ck, p, f):
    summ = {g['u']: isec for g in p.fn('acme::Intersection')}
    it = ck.run(f, summaries=summ)
    ps = list(it.params.values())
    line = par(it, f, lambda t: t == 'acme::line')
    g, op, of = ps[0], ps[2], ps[3]
    flat = any('flat' in q['t'] for q in f['params'])
    ck.require(any(v is TRUE for s, v in it.verdicts()), f, 'a hit can be reported')

    def is_query(t, tri):
        return t.a[0] == 'INT' and tri in t.a[1:] and any(x.op == 'line' and x.a[0] is init(at(p, 'acme::line', 'origin', line)) and
                                                      x.a[1] is init(at(p, 'acme::line', 'direction', line)) for x in t.a[1:])
    if flat:
        for s, v in it.verdicts():
            q = ints(s)
            ok = len(q) == 1 and is_query(q[0][0], g)
            ck.require(ok, f, 'one query of the line against the plane', show(q))
            if not ok:
                continue
            ck.require(v is Bool(q[0][1]), f, 'reports a hit exactly where the line meets the plane', facts_text(s))
            if v is TRUE:
                a, b = it.load(s, op), it.load(s, of)
                ck.require(veq(a, call('CUT', q[0][0]), True), f, 'the sample is the intersection point', show(a))
                ck.require(veq(b, init(at(p, 'enve::ground::flat', 'friction', g)), False), f, 'the sample friction is that of the ground', show(b))
        return
    G = init(LF(g, '#size'))
    # the loop making the queries
    ls = {k: i for k, i in it.loops.items() if any(ints(e) for e in i.get('ends', []))}
    if len(ls) != 1:
        ck.require(None, f, 'a single query loop', '%d loops' % len(ls))
        return
    (k, info), = ls.items()
    rng = info.get('range')
    full = rng is not None and rng[0] is Int(0) and rng[1] is G
    ck.require(full if rng is not None else None, f, 'every candidate triangle is queried', str(rng))
    ck.require(not (info.get('breaks') or info.get('returns') or info.get('early')), f, 'the query loop is not left early')
    tri = LD(init(LI(g, info['iv'])))
    mu = init(at(p, 'enve::triangleground', 'friction', tri))
    lists = set()
    found = None
    for e in info['ends']:
        q = ints(e)
        ok = len(q) == 1 and is_query(q[0][0], tri)
        ck.require(ok, f, 'each iteration queries its own triangle with the line', show(q))
        if not ok:
            return
        t, hit = q[0]
        cut = call('CUT', t)
        pushed = {}
        for l, v in e.env.items():
            if l.op == 'F' and l.a[1] == '#size':
                r = info['rec'].get(l)
                if r and e.env[l] is not r[0]:
                    pushed[l.a[0]] = it.load(e, LI(l.a[0], r[0]))
        if not hit:
            ck.require(not pushed, f, 'a missed triangle adds no sample', '')
        elif pushed:
            ck.require(set(pushed.values()) == {cut, mu}, f, 'a hit is recorded with the friction of its own triangle', '; '.join(show(v) for v in pushed.values()))
            lists.add(tuple(sorted(pushed, key=lambda c: pushed[c] is mu)))
    for s, v in it.verdicts():
        a, b = it.load(s, op), it.load(s, of)
        if v is FALSE:
            none = no_samples(it, s, k, info, lists, G)
            ck.require(none, f, 'failure is reported only where nothing was hit', facts_text(s))
            continue
        if v is not TRUE:
            ck.require(None, f, 'definite verdict', show(v))
            continue
        if lists and (not a.op == 'phi' or elemref(a)) and (not b.op == 'phi' or elemref(b)):
            ea, eb = elemref(a), elemref(b)
            if ea is None or eb is None:
                ck.require(None if poisoned(a) else False, f, 'the sample returned is one of the hits', show(a))
                continue
            ck.require((ea[0], eb[0]) in lists and ea[1] is eb[1], f, 'point and friction of the same hit', '%s / %s' % (show(a), show(b)))
            z = mk('phi', k, LF(ea[0], '#size'))
            if ea[1].op == 'phi' and ea[1].a[0] in it.loops:
                best_index(ck, p, it, f, s, ea, k)
                continue
            one = it.truth(s, mkop('==', z, Int(1)))
            if one is None:
                one = it.truth(s, mkop('<', z, Int(2)))
            ck.require(one is True if ea[1].op == 'int' else one, f, 'a hit is taken unseen only where it is the only one', facts_text(s))
            continue
        if a.op == 'phi' and b.op == 'phi' and a.a[0] == b.a[0]:
            selection(ck, p, it, f, s, a, b, lists, k, mu)
            continue
        for x, y in ((a, b), (b, a)):
            # one of the two stays what it was while a loop goes on choosing the other
            if lists and elemref(x) and not elemref(y) and y.op == 'phi' and y.a[0] in it.loops:
                ends = [(elemref(it.load(e, y.a[1])), it.load(e, y.a[1])) for e in it.loops[y.a[0]].get('ends', [])]
                if any(r and r[1] is not elemref(x)[1] for r, _ in ends) and all(r or v is y for r, v in ends):
                    ck.require(False, f, 'point and friction of the same hit', '%s / %s' % (show(a), show(b)))
                    break
        else:
            ck.require(None if poisoned(a) or a.op == 'phi' else False, f, 'the sample returned is the highest hit', show(a))


def no_samples(it, s, k, info, lists, G):
    for l, r in info['rec'].items():
        ph = r[0]
        if ph.op != 'phi':
            continue
        # a flag raised on every hit, or a count of the hits
        if s.facts.get(ph) is False and r[1] is FALSE:
            if all(it.load(e, l) is TRUE or not any(pol for _, pol in ints(e)) for e in info['ends']):
                return True
        if l.op == 'F' and l.a[1] == '#size' or r[1] is Int(0):
            if it.truth(s, mkop('==', ph, Int(0))) is True or it.truth(s, mkop('<', Int(0), ph)) is False:
                if any(l.a[0] in c for c in lists) if l.op == 'F' else True:
                    return True
    if it.truth(s, mkop('==', G, Int(0))) is True or it.truth(s, mkop('<', Int(0), G)) is False:
        return True
    return False


def some_sample(it, s, k, info):
    """the exit is reached only if an iteration of the query loop recorded a hit"""
    seen = False
    for l, r in info['rec'].items():
        ph = r[0]
        if ph.op != 'phi':
            continue
        flag = s.facts.get(ph) is True and r[1] is FALSE
        count = r[1] is Int(0) and (it.truth(s, mkop('==', ph, Int(0))) is False or it.truth(s, mkop('<', Int(0), ph)) is True)
        if flag or count:
            seen = True
            if all(it.load(e, l) is ph or any(pol for _, pol in ints(e)) for e in info['ends']):
                return True
    return False if seen else None


def best_index(ck, p, it, f, s, ea, kq):
    """the result is the element at an index kept by a loop: the index changes to the visited one exactly where that is higher"""
    ph = ea[1]
    info = it.loops[ph.a[0]]
    rec = info['rec'].get(ph.a[1])
    rng = info.get('range')
    z = mk('phi', kq, LF(ea[0], '#size'))
    if rec is None or rng is None:
        ck.require(None, f, 'the selection considers every hit', 'not understood')
        return
    ck.require(not (info.get('breaks') or info.get('returns') or info.get('early')), f, 'the selection considers every hit')
    ok = rng[1] is z and (rng[0] is Int(0) or rng[0] is Int(1) and rec[1] is Int(0)) and rec[1].op == 'int'
    ck.require(ok, f, 'the selection considers every hit', '%s..%s from %s' % (show(rng[0]), show(rng[1]), show(rec[1])))
    for e in info['ends']:
        v = it.load(e, ph.a[1])
        old, new = elem_like(e, ea, ph), elem_like(e, ea, info['iv'])
        h = higher_than(e, new, old)
        if v is ph:
            ck.require(None if h is None else not h, f, 'a higher hit replaces the current one', facts_text(e))
        elif v is info['iv']:
            ck.require(h, f, 'only a higher hit replaces the current one', facts_text(e))
        else:
            ck.require(None if poisoned(v) else False, f, 'the sample returned is one of the hits', show(v))


def elem_like(e, ea, idx):
    for t in {y for fct in e.facts for y in subterms(fct)}:
        r = elemref(t)
        if r and r[0] is ea[0] and r[1] is idx:
            return t
    return None


def higher_than(e, new, old):
    """higher(), and False/None where the facts do not order the two: a choice made on other grounds is definite when the
    facts that mention the candidate are plain comparisons of coordinates"""
    if new is not None and old is not None:
        h = higher(e, new, old)
        if h is not None:
            return h
    return None


def other_ground(e, cands):
    """the facts compare the candidate, in understood terms, with something that is not the current sample"""
    for t in e.facts:
        if t.op == 'op' and t.a[0] in ('<', '<=') and any(contains(t, c) for c in cands) and not poisoned(t):
            return True
    return False


def selection(ck, p, it, f, s, a, b, lists, kq, mu):
    k = a.a[0]
    info = it.loops[k]
    ra, rb = info['rec'].get(a.a[1]), info['rec'].get(b.a[1])
    if ra is None or rb is None:
        ck.require(None, f, 'selection of the highest hit', 'not understood')
        return
    ck.require(not (info.get('breaks') or info.get('returns') or info.get('early')), f, 'the selection considers every hit')
    if k != kq:
        ea, eb = elemref(ra[1]), elemref(rb[1])
        ok = ea and eb and (ea[0], eb[0]) in lists and ea[1] is eb[1]
        ck.require(True if ok else (None if poisoned(ra[1]) and not ea else False), f, 'the selection starts from a hit', show(ra[1]))
        rng = info.get('range')
        if ok and rng is not None:
            z = mk('phi', kq, LF(ea[0], '#size'))
            lo_ok = rng[0] is Int(0) or rng[0] is Int(1) and ea[1] is Int(0)
            ck.require(lo_ok and rng[1] is z, f, 'the selection considers every hit', '%s..%s' % (show(rng[0]), show(rng[1])))
    if k == kq:
        ck.require(some_sample(it, s, k, info), f, 'success is reported only where something was hit', facts_text(s))
    for e in info['ends']:
        va, vb = it.load(e, a.a[1]), it.load(e, b.a[1])
        if va is a and vb is b:
            if k == kq:
                cut = [call('CUT', t) for t, pol in ints(e) if pol]
                ck.require(all(higher(e, c, a) is False for c in cut), f, 'a higher hit replaces the current one', facts_text(e))
                continue
            # some element was looked at and found not higher
            cand = [t for t in {y for fct in e.facts for y in subterms(fct)} if elemref(t) and elemref(t)[1] is info['iv']]
            hs = [higher(e, c, a) for c in cand]
            ck.require(False if True in hs else (True if False in hs else (False if other_ground(e, cand) else None)), f, 'a higher hit replaces the current one', facts_text(e))
            continue
        if k == kq:
            cut = [call('CUT', t) for t, pol in ints(e) if pol]
            ck.require(bool(cut) and va is cut[0] and vb is mu, f, 'point and friction of the same hit', '%s / %s' % (show(va), show(vb)))
            h = higher(e, cut[0], a) if cut else None
            first = any(pol is False and t.op == 'phi' for t, pol in e.facts.items())
            ck.require(True if h or first else (False if h is False else None), f, 'only a higher hit replaces the current one', facts_text(e))
            continue
        ea, eb = elemref(va), elemref(vb)
        ok = ea and eb and (ea[0], eb[0]) in lists and ea[1] is eb[1] and ea[1] is info['iv']
        ck.require(True if ok else (None if poisoned(va) and not ea else False), f, 'point and friction of the same hit', '%s / %s' % (show(va), show(vb)))
        h = higher(e, va, a)
        if h is None and ok and (other_ground(e, [va]) or not any(contains(t, va) for t in e.facts)):
            h = False
        ck.require(h, f, 'only a higher hit replaces the current one', facts_text(e))
