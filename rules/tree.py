"""Rules about the axis-aligned boxes and the box tree."""
from .base import *
from engine.ident import Ident, Skip
from .shell import J, veq, deref, methods, facts_text
from .rib import accpath, at, add, sub, mul, call
from .mesh import BOX, TREE, zero
import numpy as np
from engine.cells import Eval, Unknown
from engine.order import explore, consistent, verdict, TooBig
from engine.norm import Norm, R, ONE

AX = (0, 1, 2)


class Box:
    """corner components of a box at a location, before the call"""
    def __init__(self, p, obj):
        self.lmin, self.lmax = at(p, BOX, 'min', obj), at(p, BOX, 'max', obj)

    def lo(self, k): return mk('comp', init(self.lmin), Int(k))
    def hi(self, k): return mk('comp', init(self.lmax), Int(k))


def decide(ck, it, f, what, want, got=None, exits=None, node=None, axis=None):
    """want(asg) is the specified result of the analysed function; compared at every exit under every realisable case"""
    exits = exits if exits is not None else [(s, deref(it, (s, v))) for s, v in it.rets]

    drop = [other_axes(s, axis) if axis is not None else () for s, _ in exits]

    def case(a):
        hit = [(s, v) for (s, v), sk in zip(exits, drop) if consistent(a, s, sk)]
        w = want(a)
        if w is None or not hit:
            return True if not hit else None
        r = [compare(a, it, s, v, w, got) for s, v in hit]
        return False if False in r else None if None in r else True
    try:
        cases = explore(case)
        v, wit = verdict(cases)
    except TooBig:
        v, wit = None, 'too many cases'
    if v is False and any(poisoned(x) for s, r in exits for x in [r] + list(s.facts)):
        v = None
    ck.require(v, f, what, wit or ('; '.join(show(r) for _, r in exits)[:300] if v is None else ''), node)
    return v


def compare(a, it, s, v, w, got):
    if got is not None:
        v = got(a, s, v)
    if isinstance(w, bool):
        return a.bool(v) == w if isinstance(v, T) else v == w
    if isinstance(v, T):
        v = a.num(v)
    return v.eq(w) or a.sgn(v - w) == 0


def axes(t):
    """axes whose components occur in a condition"""
    r = set()
    for x in subterms(t):
        if x.op == 'comp' and len(x.a) == 2 and x.a[1].op == 'int':
            r.add(x.a[1].a[0])
        elif x.op == 'I' and len(x.a) == 3 and x.a[1] == '@' and x.a[2].op == 'int':
            r.add(x.a[2].a[0])
    return r


def other_axes(s, k):
    """conditions on other axes only (their coordinates are independent)"""
    return {t for t in s.facts if axes(t) and k not in axes(t)}


def box_algebra(ck):
    ck.rule = """Exact case analysis over the order of the corner coordinates, applied to the value numbers of every exit of the box members:
    overlap and containment are the closed comparisons on all three axes; the corners are ordered after construction and
    updateMaxMin; the hull of three points or of a list of boxes is the componentwise extreme (loop induction: the step takes the
    smaller / larger corner of the generic element, every element is visited, the start is an element); translation adds the
    vector to both corners; the two distances are those of the nearest and the farthest point of the box."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        A = Box(p, THIS)
        for f in p.fn(BOX + '::intersects'):
            it = ck.run(f)
            B = Box(p, P(it, 0))
            decide(ck, it, f, 'boxes overlap exactly if their ranges do on every axis',
                   lambda a: all([a.cmp(A.lo(k), B.hi(k)) <= 0 and a.cmp(B.lo(k), A.hi(k)) <= 0 for k in AX]))
        for f in p.fn(BOX + '::isInside'):
            it = ck.run(f)
            x = init(P(it, 0))
            decide(ck, it, f, 'a point is inside exactly if it is within the range of every axis',
                   lambda a: all([a.cmp(A.lo(k), mk('comp', x, Int(k))) <= 0 and a.cmp(mk('comp', x, Int(k)), A.hi(k)) <= 0 for k in AX]))
        for f in p.fn(BOX + '::checkMaxMin'):
            it = ck.run(f)
            decide(ck, it, f, 'the corners are in order exactly if they are on every axis', lambda a: all([a.cmp(A.lo(k), A.hi(k)) <= 0 for k in AX]))

        def corners(it, f, lo, hi, what, obj=THIS):
            B = Box(p, obj)
            for nm, l, pick in (('lower', B.lmin, lo), ('upper', B.lmax, hi)):
                for k in AX:
                    decide(ck, it, f, '%s: %s corner, %s' % (what, nm, 'xyz'[k]), lambda a: pick(a, k), axis=k,
                           got=lambda a, s, v: a.num(it.comp(it.load(s, l), Int(k))))

        def ext(a, xs, low):
            r = a.num(xs[0])
            for x in xs[1:]:
                y = a.num(x)
                if (a.sgn(y - r) < 0) == low and a.sgn(y - r) != 0:
                    r = y
            return r
        for f in p.fn(BOX + '::updateMaxMin'):
            it = ck.run(f)
            corners(it, f, lambda a, k: ext(a, [A.lo(k), A.hi(k)], True), lambda a, k: ext(a, [A.lo(k), A.hi(k)], False), 'corners put in order')
            if strip(f.get('ret', '')) == 'bool':
                decide(ck, it, f, 'the verdict says whether they were', lambda a: all([a.cmp(A.lo(k), A.hi(k)) <= 0 for k in AX]))
        for f in p.fn(BOX + '::aabb'):
            if f.get('implicit') or not f['params']:
                continue
            ts = [strip(q['t']) for q in f['params']]
            if ts.count('double') == 6:
                it = ck.run(f)
                c = [init(P(it, i)) for i in range(6)]
                corners(it, f, lambda a, k: ext(a, [c[k], c[k + 3]], True), lambda a, k: ext(a, [c[k], c[k + 3]], False), 'box of two corners')
            elif len(ts) >= 2 and all('vector' not in t for t in ts) and strip(ts[0]) == strip(ts[1]) and ts[0] not in ('double', 'int', BOX):
                it = ck.run(f)
                c = [init(P(it, 0)), init(P(it, 1))]
                cc = lambda k: [mk('comp', x, Int(k)) for x in c]
                corners(it, f, lambda a, k: ext(a, cc(k), True), lambda a, k: ext(a, cc(k), False), 'box of two corners')
            else:
                continue
            ids = [i for i, t in enumerate(ts) if t == 'int']
            for s, v in it.rets:
                for nm, i in zip(('id', 'pos'), ids):
                    got = it.load(s, at(p, BOX, nm, THIS))
                    ck.require(veq(got, init(P(it, i)), False), f, 'the box carries the given %s' % nm, show(got))
        for f in p.fn(BOX + '::clamp'):
            it = ck.run(f)
            if len(f['params']) == 3:
                pts = [init(P(it, i)) for i in range(3)]
            else:
                b = P(it, 0)
                b = LD(init(b)) if f['params'][0]['t'].rstrip().endswith('*') else b
                pts = [init(LI(b, Int(i))) for i in range(3)]
            pc = lambda k: [mk('comp', x, Int(k)) for x in pts]
            corners(it, f, lambda a, k: ext(a, pc(k), True), lambda a, k: ext(a, pc(k), False), 'hull of three points')
        for f in p.fn(BOX + '::translate'):
            it = ck.run(f)
            x = init(P(it, 0))
            for s, v in it.rets:
                for nm in ('min', 'max'):
                    l = at(p, BOX, nm, THIS)
                    ck.require(veq(it.load(s, l), mkop('+', init(l), x), True), f, 'both corners move by the vector', show(it.load(s, l)))
        for f in p.fn('acme::Intersection'):
            if [strip(q['t']) for q in f['params'][:3]] != [BOX] * 3:
                continue
            common_part(ck, p, f)
        distances(ck, p)
        for f in p.fn(BOX + '::merged'):
            hull_loop(ck, p, f)
        for f in p.fn(BOX + '::aabb'):
            if f['params'] and 'vector' in f['params'][0]['t']:
                # the list constructor must hand its list to the hull and leave it (up to ordering of the corners)
                marks = [mk('call', 'HULLMIN'), mk('call', 'HULLMAX')]
                used = []

                def merged(it, s, e, fr, obj, args):
                    s = s.copy()
                    if args[0][0] == 'l':
                        used.append(args[0][1])
                    it.store(s, at(p, BOX, 'min', obj), marks[0], e, fr)
                    it.store(s, at(p, BOX, 'max', obj), marks[1], e, fr)
                    return [(s, VOID)]
                if not p.fn(BOX + '::merged'):
                    continue
                it = ck.run(f, summaries={g['u']: merged for g in p.fn(BOX + '::merged')})
                ck.require(True if any(u is P(it, 0) for u in used) else None, f, 'the box of a list is the hull of that list')
                if used:
                    cc = lambda k: [mk('comp', m, Int(k)) for m in marks]
                    corners(it, f, lambda a, k: ext(a, cc(k), True), lambda a, k: ext(a, cc(k), False), 'box of a list')


def common_part(ck, p, f):
    """Intersection of two boxes"""
    def overlap(it, s, e, fr, obj, args):
        bs = sorted([obj, args[0][1]], key=lambda t: t.id)
        t = mk('call', 'OVERLAP', *bs)
        return [(x, Bool(w)) for w in (True, False) for x in [it.assume(s, t, w)] if x is not None]
    it = ck.run(f, summaries={g['u']: overlap for g in p.fn(BOX + '::intersects')})
    X, Y, Z = Box(p, P(it, 0)), Box(p, P(it, 1)), Box(p, P(it, 2))
    t = mk('call', 'OVERLAP', *sorted([P(it, 0), P(it, 1)], key=lambda t: t.id))
    vs = [(s.facts.get(t), deref(it, (s, v))) for s, v in it.rets]
    other = {q for s, v in it.rets for q in s.facts if q.op == 'call' and q.a[0] == 'OVERLAP' and q is not t}
    if other:
        ck.require(False, f, 'two boxes have a common part exactly if they overlap', show(list(other)))
    elif all(w is not None and v in (TRUE, FALSE) for w, v in vs):
        ck.require(all((v is TRUE) == w for w, v in vs), f, 'two boxes have a common part exactly if they overlap', show([v for _, v in vs])[:200])
    else:
        decide(ck, it, f, 'two boxes have a common part exactly if they overlap',
               lambda a: all([a.cmp(X.lo(k), Y.hi(k)) <= 0 and a.cmp(Y.lo(k), X.hi(k)) <= 0 for k in AX]))
    for nm, l, c, low in (('lower', Z.lmin, lambda k: (X.lo(k), Y.lo(k)), False), ('upper', Z.lmax, lambda k: (X.hi(k), Y.hi(k)), True)):
        for k in AX:
            seen = {}
            for s, v in it.rets:
                if deref(it, (s, v)) is FALSE:
                    continue
                val = it.comp(it.load(s, l), Int(k))
                # only what is known about the operands of this coordinate matters
                skip = other_axes(s, k)
                x = s.copy()
                x.facts = {q: w for q, w in s.facts.items() if q.op == 'op' and q not in skip}
                seen.setdefault((val, frozenset(x.facts.items())), (x, val))
            def want(a):
                p_, q_ = [a.num(y) for y in c(k)]
                return p_ if (a.sgn(p_ - q_) < 0) == low else q_
            decide(ck, it, f, 'common part of two boxes: %s corner, %s' % (nm, 'xyz'[k]), want, exits=list(seen.values()),
                   got=lambda a, s, v: a.num(it.comp(it.load(s, l), Int(k))))


def at_points(p, it, far):
    """the expressions at generic boxes and points: the first definite difference, None where nothing is known"""
    r = np.random.RandomState(5)
    n = 200
    lo = r.uniform(-2, 2, (n, 3))
    hi = lo + r.uniform(.1, 3, (n, 3))
    x = r.uniform(-5, 6, (n, 3))
    E = Eval({}, n)
    E.V[init(at(p, BOX, 'min', THIS))], E.V[init(at(p, BOX, 'max', THIS))], E.V[init(P(it, 0))] = lo, hi, x
    gap = np.maximum(np.abs(x - lo), np.abs(x - hi)) if far else np.maximum(np.maximum(lo - x, x - hi), 0)
    want = np.sqrt((gap * gap).sum(1))
    try:
        _, M = E.exits([s.facts for s, v in it.rets])
        if it.thrown or (M.sum(0) != 1).any():
            return None
        got = np.full(n, np.nan)
        for j, (s, v) in enumerate(it.rets):
            got[M[j]] = E.s(deref(it, (s, v)))[M[j]]
    except Unknown:
        return None
    d = np.nonzero(~(np.abs(got - want) <= 1e-9))[0]
    return 'point %s of the box %s to %s: %g, not %g' % (x[d[0]], lo[d[0]], hi[d[0]], got[d[0]], want[d[0]]) if len(d) else None


def distances(ck, p):
    A = Box(p, THIS)
    for name, far in (('centerDistance', False), ('exteriorDistance', True)):
        for f in p.fn(BOX + '::' + name):
            it = ck.run(f)
            q = init(P(it, 0))
            N = Norm()
            atom = lambda t: next(iter(N.s(t).n))[0][0]
            bad = unk = None
            cnt = 0
            for code in range(64):
                reg = [code % 4, code // 4 % 4, code // 16]
                subm, pos, want = {}, set(), R({})
                for k in AX:
                    m, a, b = (N.a(('par', x, k)) for x in 'mab')
                    pos |= {N.atom(('par', x, k)) for x in 'ab'}
                    if reg[k] == 0:         # left of the box
                        x, lo, hi = m - a, m, m + b
                        near, fa = a, a + b
                    elif reg[k] == 1:       # left half
                        x, lo, hi = m + a, m, m + a.scale(2) + b
                        near, fa = R({}), a + b
                    elif reg[k] == 2:       # right half
                        x, lo, hi = m + a + b, m, m + a.scale(2) + b
                        near, fa = R({}), a + b
                    else:                   # right of the box
                        x, lo, hi = m + b + a, m, m + b
                        near, fa = a, a + b
                    for t, r in ((mk('comp', q, Int(k)), x), (A.lo(k), lo), (A.hi(k), hi)):
                        subm[atom(t)] = r
                    d = fa if far else near
                    want = want + d * d
                want = R({}) if want.iszero() else N.a(('sqrt', want.key()))

                def case(a):
                    r = []
                    for s, v in it.rets:
                        if consistent(a, s):
                            g = a.num(deref(it, (s, v)))
                            z = N.a(('sqrt', R({}).key()))
                            if g.eq(z):
                                g = R({})
                            r.append(g.eq(want))
                    return all(r) if r else True
                try:
                    v, wit = verdict(explore(case, N, subm, pos))
                except TooBig:
                    v = None
                cnt += 1
                if v is False:
                    bad = 'point %s' % ', '.join('%s %s' % ('xyz'[k], ('below the box', 'in the lower half', 'in the upper half', 'above the box')[reg[k]]) for k in AX)
                    break
                if v is None:
                    unk = True
            what = 'distance to the %s point of the box' % ('farthest' if far else 'nearest')
            if unk and not bad:
                bad = at_points(p, it, far)
            if bad and any(poisoned(v) for s, v in it.rets):
                bad, unk = None, True
            ck.require(False if bad else None if unk else True, f, what, bad or '')


def hull_loop(ck, p, f):
    """componentwise extreme of a list: first element, then the generic element, all visited"""
    it = ck.run(f)
    src = P(it, 0)
    n = init(LF(src, '#size'))
    lmin, lmax = at(p, BOX, 'min', THIS), at(p, BOX, 'max', THIS)
    done = 0
    for s, v in it.rets:
        if zero(it, s, n):
            continue
        for nm, l, low in (('min', lmin, True), ('max', lmax, False)):
            corner = lambda i: init(at(p, BOX, nm, LD(init(LI(src, i)))))
            got = it.load(s, l)
            keys = {x.a[0] for x in subterms(got) if x.op == 'phi' and x.a[0] in it.loops}
            if not keys:
                # the loop did not run: a single element
                ok = veq(got, corner(Int(0)), True)
                one = it.truth(s, mkop('<', Int(1), n))
                ck.require(True if ok else False if one is not True and ok is False else None, f, 'hull of a list: %s corner' % nm, '%s under %s' % (show(got), facts_text(s)))
                continue
            done += 1
            r, why = (None, 'several loops') if len(keys) > 1 else fold(it, keys.pop(), got, corner, low, src, n)
            ck.require(r, f, 'hull of a list: %s corner' % nm, why or show(got))
    ck.require(True if done else None, f, 'the list of boxes is visited')


def fold(it, k, got, corner, low, src, n):
    """the vector term `got` (over the loop-carried values of loop k) is the componentwise extreme of corner(0..n-1)"""
    L = it.loops[k]
    if L['breaks'] or L['returns'] or not L.get('range') or L['iv'] is None:
        return (None, 'loop of another form')
    lo, hi = L['range']
    ph = {x for x in subterms(got) if x.op == 'phi' and x.a[0] == k}
    rec = {r[0]: (l, r) for l, r in L['rec'].items()}
    if any(x not in rec for x in ph):
        return (None, 'loop-carried value without recurrence')
    start = subst(got, {x: rec[x][1][1] for x in ph})
    N = Norm()
    first = [N.eq(it.comp(start, Int(c)), it.comp(corner(Int(0)), Int(c)), False) for c in AX]
    inf = [it.comp(start, Int(c)) for c in AX]
    isinf = all(x.op == 'call' and x.a[0] == 'glob' and 'INF' in str(x.a[1]) or x.op == 'op' and x.a[0] == 'neg' and 'INF' in show(x) for x in inf)
    if all(first):
        begin = (Int(0), Int(1))
    elif isinf:
        begin = (Int(0),)
    else:
        return (None if poisoned(start) else False), 'starts as %s' % show(start)
    if lo not in begin:
        return (False if lo.op == 'int' else None), 'the visit starts at %s' % show(lo)
    if hi is not n:
        return (None if hi.op not in ('op', 'int') or not contains(hi, n) else False), 'the visit ends at %s' % show(hi)
    iv = L['iv']
    elem = corner(iv)
    seen = set()
    for e in L['ends']:
        val = subst(got, {x: it.load(e, rec[x][0]) for x in ph})

        for c in AX:
            sk = other_axes(e, c) | {t for t in e.facts if not axes(t) and (contains(t, iv) or contains(t, n) or t.op == 'ran')}
            vc = it.comp(val, Int(c))
            key = (c, vc, frozenset((t, b) for t, b in e.facts.items() if t not in sk))
            if key in seen:
                continue
            seen.add(key)

            def case(a):
                if not consistent(a, e, sk):
                    return True
                x, y = a.num(it.comp(got, Int(c))), a.num(it.comp(elem, Int(c)))
                sg = a.sgn(y - x)
                w = y if (sg < 0) == low and sg != 0 else x
                g = a.num(vc)
                return g.eq(w) or a.sgn(g - w) == 0
            try:
                v, wit = verdict(explore(case))
            except TooBig:
                v, wit = None, 'too many cases'
            if v is not True:
                if v is False and poisoned(val):
                    v = None
                return v, wit or show(val)
    return True, ''


# ------------------------------------------------------------------ effect traces
class Trace:
    """calls of chosen functions accumulated in a ghost location: calls(calls(0, c1), c2), loops included"""
    G = mk('V', 'p:ghost', 'trace')

    def __init__(self):
        self.info = {}

    def push(self, it, s, c):
        s = s.copy()
        s.env[self.G] = mk('calls', s.env.get(self.G, Int(0)), c)
        return s

    def of(self, it, s):
        v = s.env.get(self.G, Int(0))
        return self.expand(it, v)

    def expand(self, it, v, upto=None):
        """list of call terms and ('for', key, [(end, list)]) nodes; None when not understood"""
        out = []
        while True:
            if v is upto or v.op == 'int' or v.op == 'init' and v.a[0] is self.G:
                return out[::-1]
            if v.op == 'calls':
                out.append(v.a[1])
                v = v.a[0]
                continue
            if v.op == 'phi' and v.a[1] is self.G and v.a[0] in it.loops:
                k = v.a[0]
                L = it.loops[k]
                r = L['rec'].get(self.G)
                if r is None:
                    return None
                body = []
                for e in L['ends']:
                    b = self.expand(it, e.env.get(self.G, v), v)
                    if b is None:
                        return None
                    body.append((e, b))
                out.append(('for', k, body))
                v = r[1]
                continue
            return None


class Tree:
    def __init__(self, p):
        self.p = p
        self.box = field_of_type(p, TREE, lambda t: 'aabb' in t and 'vector' not in t, 'the box')
        self.kids = field_of_type(p, TREE, lambda t: 'vector' in t and 'AABBtree' in t, 'the children')

    def b(self, x): return LF(x, self.box)
    def k(self, x): return LF(x, self.kids)
    def n(self, x): return init(LF(self.k(x), '#size'))
    def child(self, x, i): return LD(init(LI(self.k(x), i)))
    def empty(self, x): return mkop('&&', mkop('==', self.n(x), Int(0)), mkop('==', NULL, init(self.b(x))))


def box_summaries(p):
    summ = {}

    def over(it, s, e, fr, obj, args):
        a, b = obj, args[0][1] if args[0][0] == 'l' else LD(args[0][1])
        if a.id > b.id:
            a, b = b, a
        return [(s, mk('call', 'overlaps', mk('objref', a), mk('objref', b)))]
    for f in p.fn(BOX + '::intersects'):
        summ[f['u']] = over
    for nm, kind in (('centerDistance', 'near'), ('exteriorDistance', 'far')):
        def g(it, s, e, fr, obj, args, kind=kind):
            return [(s, mk('call', kind, mk('objref', obj), it.argval(s, args[0])))]
        for f in p.fn(BOX + '::' + nm):
            summ[f['u']] = g
    return summ


def loc_of(a):
    return a[1] if a[0] == 'l' else LD(a[1])


def implied(it, s, phi, base=()):
    """the path facts imply phi: True / False (with a counter-assignment over independent observables) / None"""
    rel = relevant(s, phi)

    def case(a):
        a.free = set(base)
        if not consistent(a, rel):
            return True
        return a.bool(phi)
    try:
        return verdict(explore(case))[0]
    except TooBig:
        return None


class Facts:
    def __init__(self, facts):
        self.facts = facts


def relevant(s, phi):
    """the path facts connected with phi through observables they share: the others are about something else"""
    def leaves(t):
        r = {t}
        for x in subterms(t):
            if x.op == 'init':
                l = x.a[0]
                while l.op in ('F', 'I') and l.a[0].op in ('F', 'I'):
                    l = l.a[0]
                r.add(l if l.op == 'F' and l.a[0] is THIS else l.a[0] if l.op in ('F', 'I') else l)
            elif x.op in ('phi', 'fresh', 'glob', 'size', 'bool', 'addr') or x.op == 'call' and x.a[0] == 'glob':
                r.add(x)
        return r
    leaf = {t: leaves(t) for t in s.facts}
    seen = leaves(phi)
    rest = dict(s.facts)
    out = {}
    while True:
        new = [t for t in rest if leaf[t] & seen]
        if not new:
            return Facts({t: w for t, w in s.facts.items() if t in out})
        for t in new:
            out[t] = rest.pop(t)
            seen |= leaf[t]


def sampled(it, s, goal, atoms):
    """implied(), and where that cannot tell: values of the atoms that the path lets through and for which the goal fails"""
    r = implied(it, s, goal)
    if r is not None:
        return r
    import itertools
    facts = [(t, w) for t, w in s.facts.items() if any(contains(t, a) for a in atoms)]
    eps = {y: Real(1.5e-8) for t, _ in facts for y in subterms(t) if y.op in ('glob', 'call', 'init') and 'EPSILON' in show(y) and not any(contains(y, a) for a in atoms)}
    facts = [(subst(t, eps), w) for t, w in facts]
    for vs in itertools.product((0.0, 1e-9, 0.5, 0.5 + 1e-9, 1.0, 1.5, 2.0, 40.0, 1e5), repeat=len(atoms)):
        m = {a: Real(v) for a, v in zip(atoms, vs)}
        if all(number(subst(t, m)) is w for t, w in facts) and number(subst(goal, m)) is False:
            return False
    return None


def number(t):
    """truth value of a formula over numbers, None if there is anything else in it"""
    if t.op == 'bool':
        return t is TRUE
    if t.op != 'op':
        return None
    k, a = t.a[0], t.a[1:]
    if k == '!':
        r = number(a[0])
        return None if r is None else not r
    if k in ('&&', '||'):
        r = [number(x) for x in a]
        return (False if False in r else None if None in r else True) if k == '&&' else (True if True in r else None if None in r else False)
    if k not in ('<', '<=', '=='):
        return None
    if any(y.op in ('init', 'fld', 'size', 'phi', 'fresh', 'glob') for y in subterms(t)):
        return None
    try:
        x, y = Ident(1).s(a[0]), Ident(1).s(a[1])
    except (Skip, AttributeError):
        return None
    return {'<': x < y, '<=': x <= y, '==': x == y}[k]


def for_all(it, node, kids_of):
    """('for', k, body): every child of kids_of visited once, each iteration doing the same single thing -> (index, body) or None"""
    _, k, body = node
    L = it.loops[k]
    if L['breaks'] or L['returns'] or L['iv'] is None or not L.get('range'):
        return None
    return L['iv'], L['range']


def whole(rng, n):
    lo, hi = rng
    if lo is Int(0) and hi is n:
        return True
    if lo.op == 'int' and lo.a[0] > 0 and hi is n:
        return False
    if lo is Int(0) and hi.op == 'op' and hi.a[0] == '+' and hi.a[1] is n and hi.a[2].op == 'int':
        return False
    return None


def tree_query(ck):
    ck.rule = """Abstract interpretation of the tree/tree query with the box overlap test and the recursive calls uninterpreted (effect trace over
    the loops): a pair of trees is dropped only if one is empty or their boxes do not overlap; two leaves yield exactly one pair,
    in the orientation the swap flag asks for; otherwise every combination of the children of the inner tree(s) with the other
    tree is queried exactly once into the same list, with the swap flag adjusted to the order of the arguments."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        Tr = Tree(p)
        fs = p.fn(TREE + '::intersection')
        if not fs:
            raise AnalysisBroken('tree query not found')
        for f in fs:
            tr = Trace()
            lists = []

            def rec(it, s, e, fr, obj, args):
                sw = it.argval(s, args[2]) if len(args) > 2 else FALSE
                if args[1][0] == 'l':
                    lists.append(args[1][1])
                return [(tr.push(it, s, mk('q', mk('objref', obj), mk('objref', loc_of(args[0])), sw)), VOID)]
            summ = box_summaries(p)
            summ[f['u']] = rec
            it = ck.run(f, summaries=summ, disj_limit=32)
            other, lst, swap = P(it, 0), P(it, 1), init(P(it, 2)) if len(f['params']) > 2 else FALSE
            a, b = LD(init(Tr.b(THIS))), LD(init(Tr.b(other)))
            ov = mk('call', 'overlaps', *[mk('objref', x) for x in ((a, b) if a.id < b.id else (b, a))])
            n0 = init(LF(lst, '#size'))
            drop = mkop('||', Tr.empty(THIS), mkop('||', Tr.empty(other), mkop('!', ov)))
            base = {t.id for t in {y for x, _ in it.rets for fct in x.facts for y in subterms(fct)} if t.op == 'op' and t.a[0] == '==' and len(t.a) == 3
                    and all(y.op in ('addr', 'ptr') and y.a[0] in (THIS, other) or y.op == 'THIS' for y in t.a[1:])}
            base |= {ov.id, mkop('==', NULL, init(Tr.b(THIS))).id, mkop('==', NULL, init(Tr.b(other))).id, swap.id}
            ck.require(bool(it.rets), f, 'some normal exit exists')
            ck.require(all(x is lst for x in lists), f, 'the pairs of the children go to the same list')
            leaf = inner = 0
            for s, v in it.rets:
                t = tr.of(it, s)
                n = it.size_of(s, lst)
                grown = it.truth(s, mkop('==', n, mkop('+', n0, Int(1)))) is True
                same = n is n0
                if t is None or not (grown or same):
                    ck.require(None if t is None or poisoned(n) or n.op == 'phi' else False, f, 'a pair of leaves yields one pair', show(n))
                    continue
                if not t and same:
                    ck.require(implied(it, s, drop, base), f, 'a pair of trees is dropped only when one is empty or their boxes do not overlap', facts_text(s))
                    continue
                if grown:
                    leaf += 1
                    lv = mkop('&&', mkop('==', Tr.n(THIS), Int(0)), mkop('==', Tr.n(other), Int(0)))
                    ck.require(implied(it, s, lv, base) if not t else False, f, 'only leaves are paired', facts_text(s))
                    ck.require(implied(it, s, ov, base), f, 'only overlapping boxes are paired', facts_text(s))
                    cell = LI(lst, n0)
                    fi, se = it.load(s, LF(cell, 'first')), it.load(s, LF(cell, 'second'))
                    mine, his = init(Tr.b(THIS)), init(Tr.b(other))
                    sw = it.truth(s, swap)
                    if fi is mine and se is his:
                        ok = False if sw is True else True if sw is False else (None if poisoned(fi) else implied(it, s, mkop('!', swap), base))
                    elif fi is his and se is mine:
                        ok = False if sw is False else True if sw is True else implied(it, s, swap, base)
                    else:
                        ok = None if poisoned(fi) or poisoned(se) or fi.op not in ('init',) or se.op not in ('init',) else False
                    ck.require(ok, f, 'the pair holds the two boxes in the order asked for', '(%s, %s)' % (show(fi), show(se)))
                    continue
                inner += 1
                r, why = combos(it, s, t, Tr, other, swap, base)
                ck.require(r, f, 'every combination of the children is queried once', why)
            ck.require(True if leaf else None, f, 'leaves are paired')
            ck.require(True if inner else None, f, 'inner trees are descended')


def combos(it, s, t, Tr, other, swap, base):
    """the trace t of an exit covers all children combinations"""
    if len(t) != 1 or not isinstance(t[0], tuple):
        if any(isinstance(x, tuple) for x in t) or any(x.op != 'q' for x in t):
            return None, 'several loops'
        return None, 'calls outside a loop'
    loops = []
    node = t[0]
    while True:
        _, k, body = node
        L = it.loops[k]
        if L['iv'] is None or not L.get('range'):
            return None, 'loop of another form'
        if L['breaks'] or L['returns']:
            return False, 'the loop over the children may end early'
        loops.append((k, L['iv'], L['range']))
        bodies = [b for e, b in body]
        if not bodies:
            return None, 'empty loop'
        shape = bodies[0]
        short_ = [b for b in bodies if len(b) == 0]
        if short_:
            e = [e for e, b in body if not b][0]
            return (False if len(short_) < len(bodies) and not any(poisoned(x) for x in e.facts) else None), 'an iteration without a query: %s' % facts_text(e)[-300:]
        if any(len(b) != 1 for b in bodies):
            return None, 'several queries per iteration'
        if isinstance(shape[0], tuple):
            node = shape[0]
            continue
        calls = {b[0] for b in bodies if not isinstance(b[0], tuple)}
        break
    if len(loops) > 2:
        return None, 'loops too deep'
    for q in calls:
        o, g, sw = q.a[0].a[0], q.a[1].a[0], q.a[2]
        used = {}
        sides = []
        for x in (o, g):
            side = None
            for nm, root_ in (('A', THIS), ('B', other)):
                if x is root_:
                    side = (nm, None)
                for k, iv, rng in loops:
                    if x is Tr.child(root_, iv):
                        side = (nm, k)
            if side is None:
                return (None if poisoned(mk('objref', x)) or x.op != 'D' else None), 'queried tree %s' % show(x)
            sides.append(side)
        if {sides[0][0], sides[1][0]} != {'A', 'B'}:
            return False, 'a tree is queried against itself'
        want = swap if sides[0][0] == 'A' else mknot(swap)
        if sw is not want:
            w = it.truth(s, sw)
            ww = it.truth(s, want)
            if w is None or ww is None or w != ww:
                d = N_bool(sw, want)
                return (False if d is False else None), 'swap flag %s for %s' % (show(sw), 'the same order' if want is swap else 'the exchanged order')
        ks = [k for _, k in sides if k is not None]
        if sorted(ks) != sorted(k for k, _, _ in loops) or not ks:
            return False, 'a loop over children does not select a child'
        for nm, k in sides:
            if k is None:
                continue
            rng = [r for kk, _, r in loops if kk == k][0]
            n = Tr.n(THIS if nm == 'A' else other)
            w = whole(rng, n)
            if w is not True:
                return w, 'children %s to %s are visited' % (show(rng[0]), show(rng[1]))
            has = implied(it, s, mkop('<', Int(0), n), base)
            if has is not True:
                return has, 'a tree without children is descended: %s' % facts_text(s)[-300:]
    return True, ''


def N_bool(x, y):
    """two boolean terms over one variable differ"""
    s = set()
    for t in (x, y):
        s |= {z for z in subterms(t) if z.op in ('init', 'V')}
    if all(z.op == 'op' and z.a[0] == '!' or z.op in ('init', 'V', 'bool') for t in (x, y) for z in subterms(t) if z.op in ('op', 'call', 'init', 'bool')):
        return False if x is not y else True
    return None


def nearest(ck):
    ck.rule = """Abstract interpretation of the nearest-box selection with the two box distances and the recursive calls uninterpreted: a leaf
    lowers the bound to its farthest-point distance, an inner tree passes the bound through all its children and is skipped only if
    its nearest-point distance exceeds the bound; a leaf is selected exactly if its nearest-point distance is within the bound,
    an inner tree is skipped only beyond it; the selection starts from an infinite bound over the whole tree."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        Tr = Tree(p)
        F = {nm: p.fn(TREE + '::' + nm) for nm in ('minimumExteriorDistance', 'selectLessThanDistance', 'selectMinimumDistance')}
        if not F['selectMinimumDistance']:
            raise AnalysisBroken('nearest selection not found')
        tr = Trace()

        def order(f):
            """parameter roles by type"""
            r = {}
            for i, q in enumerate(f['params']):
                t = strip(q['t'])
                r['dist' if t == 'double' else 'tree' if 'AABBtree' in t else 'list' if 'vector' in t else 'point'] = i
            return r

        def s_min(it, s, e, fr, obj, args):
            r = order(F['minimumExteriorDistance'][0])
            tl = loc_of(args[r['tree']]) if 'tree' in r else obj
            return [(s, mk('call', 'bound', it.argval(s, args[r['point']]), mk('objref', tl), it.argval(s, args[r['dist']])))]

        def s_sel(it, s, e, fr, obj, args):
            r = order(F['selectLessThanDistance'][0])
            tl = loc_of(args[r['tree']]) if 'tree' in r else obj
            return [(tr.push(it, s, mk('sel', it.argval(s, args[r['point']]), it.argval(s, args[r['dist']]), mk('objref', tl), mk('objref', loc_of(args[r['list']])))), VOID)]
        summ = box_summaries(p)
        for g in F['minimumExteriorDistance']:
            summ[g['u']] = s_min
        for g in F['selectLessThanDistance']:
            summ[g['u']] = s_sel
        for f in F['minimumExteriorDistance']:
            it = ck.run(f, summaries=summ)
            r = order(f)
            tl = P(it, r['tree']) if 'tree' in r else THIS
            q, d = init(P(it, r['point'])), init(P(it, r['dist']))
            bx = mk('objref', LD(init(Tr.b(tl))))
            near, far = mk('call', 'near', bx, q), mk('call', 'far', bx, q)
            exits = [(s, deref(it, (s, v))) for s, v in it.rets]
            for s, v in exits:
                leaf = implied(it, s, mkop('==', Tr.n(tl), Int(0)))
                inner = implied(it, s, mkop('<', Int(0), Tr.n(tl)))
                if leaf is True:
                    decide(ck, it, f, 'a leaf lowers the bound to its farthest-point distance', lambda a: a.num(call('min', far, d)), exits=[(s, v)])
                elif inner is True and v is d:
                    ck.require(implied(it, s, mkop('<=', d, near)), f, 'an inner tree is skipped only beyond the bound', facts_text(s))
                elif v.op == 'phi' and v.a[0] in it.loops:
                    L = it.loops[v.a[0]]
                    rr = L['rec'].get(v.a[1])
                    if rr is None or L['iv'] is None or not L.get('range'):
                        ck.require(None, f, 'the bound passes through all children', show(v))
                        continue
                    if L['breaks'] or L['returns']:
                        ck.require(None, f, 'the bound passes through all children', 'the loop may end early')
                        continue
                    ch = mk('call', 'bound', q, mk('objref', Tr.child(tl, L['iv'])), v)
                    keep = lambda e, x: x is ch or x.op == 'call' and x.a[0] == 'min' and set(x.a[1:]) == {ch, v} or x is v and implied(it, e, mkop('<=', v, ch)) is True
                    ok = all(keep(e, it.load(e, v.a[1])) for e in L['ends'])
                    vals = {it.load(e, v.a[1]) for e in L['ends']}
                    ck.require(ok or (None if any(poisoned(x) for x in vals) or any(x.op not in ('call', 'phi') for x in vals) else False), f, 'the bound passes through all children', ', '.join(show(x) for x in vals))
                    ck.require(rr[1] is d or (None if poisoned(rr[1]) else False), f, 'the bound passed to the first child is the given one', show(rr[1]))
                    ck.require(whole(L['range'], Tr.n(tl)), f, 'every child is visited', show(L['range'][0]))
                elif inner is True and not any(x.op == 'phi' or x.op == 'call' and x.a[0] == 'bound' for x in subterms(v)):
                    decide(ck, it, f, 'an inner tree that is skipped leaves the bound as it is', lambda a: a.num(d), exits=[(s, v)])
                else:
                    ck.require(None, f, 'the bound of an inner tree', show(v))
        for f in F['selectLessThanDistance']:
            it = ck.run(f, summaries=summ)
            r = order(f)
            tl = P(it, r['tree']) if 'tree' in r else THIS
            q, d, lst = init(P(it, r['point'])), init(P(it, r['dist'])), P(it, r['list'])
            bx = init(Tr.b(tl))
            near = mk('call', 'near', mk('objref', LD(bx)), q)
            n0 = init(LF(lst, '#size'))
            for s, v in it.rets:
                t = tr.of(it, s)
                n = it.size_of(s, lst)
                if t is None or n is not n0 and it.truth(s, mkop('==', n, mkop('+', n0, Int(1)))) is not True:
                    ck.require(None, f, 'the selection of a tree', show(n))
                    continue
                if not t and n is n0:
                    ck.require(sampled(it, s, mkop('<', d, near), (near, d)), f, 'a tree is skipped only beyond the distance', facts_text(s))
                elif n is not n0:
                    ck.require(implied(it, s, mkop('&&', mkop('==', Tr.n(tl), Int(0)), mkop('<=', near, d))) if not t else False, f, 'exactly the leaves within the distance are selected', facts_text(s))
                    got = it.load(s, LI(lst, n0))
                    ck.require(got is bx or (None if poisoned(got) else False), f, 'a selected leaf yields its own box', show(got))
                else:
                    ok, why = None, ''
                    if len(t) == 1 and isinstance(t[0], tuple):
                        _, k, body = t[0]
                        L = it.loops[k]
                        if L['iv'] is not None and L.get('range') and not L['breaks'] and not L['returns']:
                            c = mk('sel', q, d, mk('objref', Tr.child(tl, L['iv'])), mk('objref', lst))
                            ok = all(b == [c] for e, b in body)
                            why = '; '.join(show(x) if isinstance(x, T) else 'loop' for e, b in body for x in b) or 'an iteration without selection'
                            if ok:
                                ok = whole(L['range'], Tr.n(tl))
                        elif L['breaks'] or L['returns']:
                            ok, why = None, 'the loop may end early'
                    ck.require(ok, f, 'every child within the distance is descended with the same bound', why)
        for f in F['selectMinimumDistance']:
            it = ck.run(f, summaries=summ)
            q, lst = [init(P(it, i)) if 'vector' not in x['t'] else P(it, i) for i, x in enumerate(f['params'])][:2]
            for s, v in it.rets:
                t = tr.of(it, s)
                if t == []:
                    ck.require(implied(it, s, Tr.empty(THIS), {mkop('==', NULL, init(Tr.b(THIS))).id}), f, 'nothing is selected only from an empty tree', facts_text(s))
                    continue
                if t is None or len(t) != 1 or isinstance(t[0], tuple):
                    ck.require(None, f, 'the selection', '')
                    continue
                c = t[0]
                bd = c.a[1]
                ok = c.a[0] is q and c.a[2].a[0] is THIS and c.a[3].a[0] is lst
                ck.require(ok, f, 'the whole tree is searched for the given point', show(c))
                ok = bd.op == 'call' and bd.a[0] == 'bound' and bd.a[1] is q and bd.a[2].a[0] is THIS
                ck.require(ok or (None if poisoned(bd) else False), f, 'the distance is the smallest farthest-point distance of the tree', show(bd))
                if ok:
                    i0 = bd.a[3]
                    inf = i0.op == 'call' and i0.a[0] == 'glob' and 'INF' in str(i0.a[1])
                    big = i0.op == 'real' and i0.a[0] >= 1e300
                    ck.require(True if inf or big else None if i0.op not in ('int', 'real') else False, f, 'the search starts from an infinite bound', show(i0))


# ------------------------------------------------------------------------ build
def evalint(t, env):
    if t in env:
        return env[t]
    if t.op in ('int', 'real'):
        return t.a[0]
    if t.op == 'op' and len(t.a) == 3 and t.a[0] in '+-*/%':
        x, y = evalint(t.a[1], env), evalint(t.a[2], env)
        if x is None or y is None or y == 0 and t.a[0] in '/%':
            return None
        if t.a[0] == '/':
            return x // y if isinstance(x, int) and isinstance(y, int) else x / y
        return {'+': x + y, '-': x - y, '*': x * y, '%': x % y if t.a[0] == '%' else 0}[t.a[0]]
    if t.op == 'toint':
        x = evalint(t.a[0], env)
        return None if x is None else int(x)
    if t.op == 'call' and t.a[0] in ('toint', 'floor', 'ceil', 'int'):
        x = evalint(t.a[1], env)
        import math
        return None if x is None else math.ceil(x) if t.a[0] == 'ceil' else int(x)
    if t.op == 'op' and t.a[0] == '!':
        x = evalint(t.a[1], env)
        return None if x is None else not x
    if t.op == 'op' and t.a[0] in ('&&', '||'):
        xs = [evalint(y, env) for y in t.a[1:]]
        stop = t.a[0] == '||'
        return stop if any(x is not None and bool(x) == stop for x in xs) else None if None in xs else not stop
    if t.op == 'op' and t.a[0] == 'neg':
        x = evalint(t.a[1], env)
        return None if x is None else -x
    if t.op == 'op' and t.a[0] in ('<', '<=', '=='):
        x, y = evalint(t.a[1], env), evalint(t.a[2], env)
        return None if x is None or y is None else x < y if t.a[0] == '<' else x <= y if t.a[0] == '<=' else x == y
    return None


def tree_build(ck):
    ck.rule = """Abstract interpretation of the tree construction with the recursive calls and the hull of a list uninterpreted (effect trace):
    an empty list gives an empty tree, a single box a leaf holding that box; otherwise the box of the tree is the hull of the
    list, every box of the list is appended to exactly one of the two sub-lists (loop over the whole list), later moves between
    the sub-lists insert and erase the same range, the split point leaves both non-empty, and both subtrees become children."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        Tr = Tree(p)
        fs = [f for f in p.fn(TREE + '::build')]
        if not fs:
            raise AnalysisBroken('tree construction not found')
        for f in p.fn(TREE + '::clear'):
            it = ck.run(f)
            for s, v in it.rets:
                ck.require(it.truth(s, mkop('==', NULL, it.load(s, Tr.b(THIS)))) is True and zero(it, s, it.size_of(s, Tr.k(THIS))), f, 'clear leaves no box and no child',
                           show(it.load(s, Tr.b(THIS))))
        for f in p.fn(TREE + '::isEmpty'):
            it = ck.run(f)
            base = {mkop('==', NULL, init(Tr.b(THIS))).id}
            for s, v in it.rets:
                e, r = Tr.empty(THIS), deref(it, (s, v))
                for w in (mkop('||', mknot(e), r), mkop('||', e, mknot(r))):
                    ck.require(implied(it, s, w, base), f, 'a tree is empty exactly if it has neither box nor children', show(r))
        for f in fs:
            tr = Trace()

            def rec(it, s, e, fr, obj, args):
                c = loc_of(args[0])
                s = tr.push(it, s, mk('build', mk('objref', obj), mk('objref', c), it.size_of(s, c), s.env.get(LF(c, '#ver'), Int(0))))
                it.store(s, Tr.b(obj), addr(mk('V', 'p:ghost', 'boxof%d' % obj.id)), e, fr)
                return [(s, VOID)]

            def hull(it, s, e, fr, obj, args):
                s = s.copy()
                s.env[mk('V', 'p:ghost', 'hull%d' % obj.id)] = mk('objref', loc_of(args[0]))
                return [(s, VOID)]
            summ = {f['u']: rec}
            for g in p.fn(BOX + '::aabb'):
                if g['params'] and 'vector' in g['params'][0]['t']:
                    summ[g['u']] = hull
            for g in p.fn(BOX + '::merged'):
                summ[g['u']] = hull
            it = ck.run(f, summaries=summ)
            src = P(it, 0)
            n = init(LF(src, '#size'))
            ck.require(bool(it.rets), f, 'some normal exit exists')
            many = 0
            for s, v in it.rets:
                bx, kn = it.load(s, Tr.b(THIS)), it.size_of(s, Tr.k(THIS))
                t = tr.of(it, s)
                if zero(it, s, n):
                    ck.require(it.truth(s, mkop('==', NULL, bx)) is True and zero(it, s, kn) and not t, f, 'no box: the tree is empty', show(bx))
                    continue
                if it.truth(s, mkop('==', n, Int(1))) is True:
                    ck.require((bx is init(LI(src, Int(0))) or (None if poisoned(bx) else False)), f, 'one box: the leaf holds it', show(bx))
                    ck.require(zero(it, s, kn) and not t, f, 'one box: no children', show(kn))
                    continue
                two = it.truth(s, mkop('<', Int(1), n))
                if two is None:
                    e0, e1 = it.truth(s, mkop('==', n, Int(0))), it.truth(s, mkop('==', n, Int(1)))
                    two = True if e0 is False and e1 is False else None
                if two is not True:
                    ck.require(False if not poisoned(bx) and not any(poisoned(x) for x in s.facts) else None, f, 'lists of one and of several boxes are told apart', facts_text(s))
                    continue
                many += 1
                h = bx.a[0] if bx.op in ('addr', 'ptr') else None
                hv = s.env.get(mk('V', 'p:ghost', 'hull%d' % h.id)) if h is not None else None
                ck.require(hv.a[0] is src if hv is not None else None if bx.op in ('addr', 'ptr') or poisoned(bx) else False, f, 'the box of the tree is the hull of the list', show(bx))
                r, why = partition(it, s, t, Tr, src, n, kn)
                ck.require(r, f, 'every box goes to exactly one of two non-empty subtrees, both kept as children', why)
            ck.require(True if many else None, f, 'longer lists are split')


def partition(it, s, t, Tr, src, n, kn):
    if t is None or any(isinstance(x, tuple) for x in t):
        return None, 'subtrees built in a loop'
    if not t:
        return False, 'no subtree is built'
    conts = [c.a[1].a[0] for c in t]
    if len(t) == 1:
        return (False if conts[0] is src or conts[0].op == 'V' else None), 'a single subtree is built'
    if len(t) != 2:
        return None, '%d subtrees' % len(t)
    A, B = conts
    if A is B:
        return False, 'the same list is used for both subtrees'
    sz = [c.a[2] for c in t]
    ver = [c.a[3] for c in t]
    # children
    kids = [it.load(s, LI(Tr.k(THIS), Int(i))) for i in range(2)]
    objs = {addr(c.a[0].a[0]) for c in t}
    if kn.op != 'int':
        return None, 'children: %s' % show(kn)
    if kn.a[0] != 2 or {x for x in kids} != objs and not {x for x in kids if x.op in ('addr', 'ptr')} == objs:
        return (False if all(x.op in ('addr', 'ptr') for x in kids[:kn.a[0]]) else None), 'children kept: %s of %s' % (show(kn), ', '.join(show(o) for o in objs))
    # moves after the distribution
    mv = [v for v in ver if v.op in ('inserted', 'erased')]
    if mv:
        ins, era = [v for v in ver if v.op == 'inserted'], [v for v in ver if v.op == 'erased']
        if len(ins) != 1 or len(era) != 1:
            return False, 'boxes are %s without being %s' % (('inserted', 'erased') if ins else ('erased', 'inserted'))
        i_, e_ = ins[0], era[0]
        ci, ce = (A, B) if ver[0] is i_ else (B, A)
        pos, fr, to = i_.a[1], i_.a[2], i_.a[3]
        if fr.a[0] is not addr(ce):
            return None, 'boxes inserted from %s' % show(fr)
        if fr.a[1] is not e_.a[1] or to.a[1] is not e_.a[2]:
            same = all(veq(x, y, False) for x, y in ((fr.a[1], e_.a[1]), (to.a[1], e_.a[2])))
            if not same:
                return False, 'inserted range %s..%s, erased range %s..%s' % (show(fr.a[1]), show(to.a[1]), show(e_.a[1]), show(e_.a[2]))
        if i_.a[0].op in ('inserted', 'erased') or e_.a[0].op in ('inserted', 'erased'):
            return None, 'several moves'
    cut = [v for v in ver if v.op == 'slice']
    if cut:
        # the tail of one list becomes the other list, the head of it is kept
        c_ = cut[0]
        ce = B if ver[0] is c_ else A
        keep = sz[0] if ce is A else sz[1]
        if len(cut) != 1 or mv or c_.a[0] is not addr(ce):
            return None, 'lists copied from %s' % show(c_.a[0])
        if veq(c_.a[1], keep, False) is not True:
            return veq(c_.a[1], keep, False), 'copied from %s on, kept up to %s' % (show(c_.a[1]), show(keep))
    phs = {x for z in sz for x in subterms(z) if x.op == 'phi' and x.a[0] in it.loops}
    keys = {x.a[0] for x in phs}
    if len(keys) != 1:
        return None, 'sizes of the sub-lists: %s, %s' % (show(sz[0]), show(sz[1]))
    k = keys.pop()
    L = it.loops[k]
    la, lb = LF(A, '#size'), LF(B, '#size')
    if L['breaks'] or L['returns'] or L['iv'] is None or not L.get('range') or la not in L['rec'] or lb not in L['rec']:
        if L['breaks']:
            return False, 'the distribution may end early'
        return None, 'distribution loop of another form'
    w = whole(L['range'], n)
    if w is not True:
        return w, 'boxes %s to %s are distributed' % (show(L['range'][0]), show(L['range'][1]))
    if not all(L['rec'][x][1] is Int(0) for x in (la, lb)):
        return False, 'the sub-lists do not start empty'
    pa, pb = L['rec'][la][0], L['rec'][lb][0]
    elem = init(LI(src, L['iv']))
    for e in L['ends']:
        grown = []
        for c, ph in ((A, pa), (B, pb)):
            d = it.minus(it.size_of(e, c), ph)
            if d is None or d.op != 'int':
                return None, 'growth of %s' % show(c)
            if d.a[0] not in (0, 1):
                return False, 'a box enters %s %s times' % (show(c), d.a[0])
            if d.a[0]:
                grown.append((c, it.load(e, LI(c, ph))))
        if len(grown) != 1:
            return False, 'a box enters %s sub-lists: %s' % ('both' if grown else 'neither of the', facts_text(e)[-300:])
        if grown[0][1] is not elem:
            return (None if poisoned(grown[0][1]) else False), 'enters %s' % show(grown[0][1])
    none = {x: Int(0) for x in (pa, pb) if it.truth(s, mkop('==', x, Int(0))) is True}
    tot = veq(mkop('+', sz[0], sz[1]), mkop('+', pa, pb), False)
    if tot is not True and none:
        tot = veq(subst(mkop('+', sz[0], sz[1]), none), subst(mkop('+', pa, pb), none), False)
    if tot is not True:
        return tot, 'boxes in the subtrees: %s + %s' % (show(sz[0]), show(sz[1]))
    for m in range(2, 41):
        for a in range(0, m + 1):
            env = {pa: a, pb: m - a, n: m}
            if any(evalint(c, env) is (not v) for c, v in s.facts.items()):
                continue
            x, y = evalint(sz[0], env), evalint(sz[1], env)
            if x is None or y is None:
                return None, 'sizes %s, %s' % (show(sz[0]), show(sz[1]))
            if x < 1 or y < 1:
                # a feasible case unless another fact excludes it
                und = [c for c, v in s.facts.items() if evalint(c, env) is None and (contains(c, pa) or contains(c, pb))]
                return (None if und else False), '%d boxes split into %d and %d' % (m, x, y)
    return True, ''
