"""Collections of geometric entities: selection, counting, motion, boxes, queries (list lengths 0..5, every outcome of the element tests)."""
import itertools
from .base import *
from .tree import Trace, loc_of, TREE
from .ground import atoms_of, prop_eval
from .acme import A

C = A + 'collection'
KIND = ['None', 'Point', 'Line', 'Ray', 'Plane', 'Segment', 'Triangle', 'Disk', 'Ball']
TESTS = KIND + ['Degenerated', 'Clampable', 'NonClampable']
KEYS = {'none': 'None', 'point': 'Point', 'line': 'Line', 'ray': 'Ray', 'plane': 'Plane', 'segment': 'Segment', 'triangle': 'Triangle', 'disk': 'Disk',
        'ball': 'Ball', 'degenerated': 'Degenerated', 'clampable': 'Clampable', 'non-clampable': 'NonClampable'}


class Coll:
    def __init__(self, ck, p):
        self.ck, self.p = ck, p
        self.list = field_of_type(p, C, lambda t: 'vector' in t and 'entity' in t, 'the entities')
        self.tree = field_of_type(p, C, lambda t: 'AABBtree' in t, 'the tree')
        self.ents = LF(THIS, self.list)

    def e(self, i, ents=None):
        """pointer stored in element i at entry"""
        return init(LI(ents or self.ents, Int(i)))

    def tests(self, tr=None):
        """entity tests as atoms"""
        r = {}
        for k in TESTS:
            def f(it, s, e, fr, obj, args, k=k):
                a = [it.argval(s, x) for x in args]
                t = mk('q', 'Clampable' if k == 'NonClampable' else k, mk('objref', obj), *a)
                return [(s, mkop('!', t) if k == 'NonClampable' else t)]
            for fn in self.p.funcs.values():
                if fn['n'] == A + 'entity::is' + k:
                    r[fn['u']] = f
            r[A + 'entity::is' + k] = f
        return r

    def atom(self, k, ptr, *a):
        t = mk('q', 'Clampable' if k == 'NonClampable' else k, mk('objref', LD(ptr)), *a)
        return mkop('!', t) if k == 'NonClampable' else t

    def run(self, f, n, summaries=None, sizes=(), env=None):
        e = {LF(self.ents, '#size'): Int(n)}
        for loc, m in sizes:
            e[LF(loc, '#size')] = Int(m)
        e.update(env or {})
        return self.ck.run(f, env=e, summaries=summaries or {}, disj_limit=40, max_states=400, small=self.ck.top)


def exits_under(it, env, exits):
    """exits not contradicted by the assignment; None when some fact is not decided"""
    r = []
    for s, v in exits:
        ok = True
        for t, w in s.facts.items():
            if t.op == 'ran':
                continue
            x = prop_eval(t, env)
            if x is None:
                if any(y.op in ('phi', 'fresh', 'q', 'call') for y in subterms(t)):
                    ok = None if ok else ok
                continue
            if x != w:
                ok = False
                break
        if ok is None:
            return None
        if ok:
            r.append((s, v))
    return r


def per_case(ck, c, f, what, n, atoms, want, summaries, got, extra_thrown=None, sizes=(), env=None):
    """every assignment of the element tests: the value of got(it, s, v, case) on the exit taken equals want(case)"""
    it = c.run(f, n, summaries, sizes, env)
    own = {a.a[1] if a.op == 'op' else a for a in atoms}
    extra = set()
    for s, v in it.rets + it.thrown:
        for t in list(s.facts) + ([v] if hasattr(v, 'op') else []):
            extra |= {x for x in subterms(t) if x.op == 'q' and x.a[1].op == 'objref' and not any(y.op in ('phi', 'fresh') for y in subterms(x))}
    extra = sorted(extra - own, key=show)
    if len(extra) > 6:
        return ck.require(None, f, '%s, %d entities' % (what, n), 'too many tests')
    free = [a.a[1] if a.op == 'op' else a for a in atoms] + extra
    label = '%s, %d entities' % (what, n)
    for vals in itertools.product((False, True), repeat=len(free)):
        case = dict(zip(free, vals))
        if not possible(case):
            continue
        ex = exits_under(it, case, it.rets)
        th = exits_under(it, case, it.thrown)
        if ex is None or th is None:
            return ck.require(None, f, label, 'paths not understood')
        w = want([prop_eval(a, case) for a in atoms])
        txt = ', '.join('%s%s' % ('' if x else 'not ', show(a)[:60]) for a, x in zip(free, vals))
        if w == 'throws':
            if ex:
                return ck.require(False, f, label, 'returns although %s' % txt)
            continue
        if th:
            return ck.require(False, f, label, 'throws although %s' % txt)
        if not ex:
            return ck.require(None, f, label, 'no exit when %s' % txt)
        for s, v in ex:
            g = got(it, s, v, case)
            if g is None:
                return ck.require(None, f, label, 'value not understood: %s' % show(v)[:150])
            if g != w and any(t.op == 'ran' for t in s.facts):
                return ck.require(None, f, label, 'loop not followed')
            if g != w:
                return ck.require(False, f, label, 'gives %s instead of %s when %s' % (text(g), text(w), txt or 'the list is empty'))
    ck.require(True, f, label)
    ck.note('cases', 2 ** len(free))


def possible(case):
    """an entity is of one kind, and its kind tells whether it is clampable"""
    kinds = {}
    for a, b in case.items():
        if b and a.a[0] in KIND:
            if a.a[1] in kinds:
                return False
            kinds[a.a[1]] = a.a[0]
    return not any(a.a[0] == 'Clampable' and a.a[1] in kinds and b != (kinds[a.a[1]] in ('Point', 'Segment', 'Triangle', 'Disk', 'Ball')) for a, b in case.items())


def text(x):
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(text(y) for y in x) + ']'
    return show(x)[:60] if hasattr(x, 'op') else str(x)


def as_bool(it, s, v, case):
    x = prop_eval(v, case)
    if x is None and v.op == 'op' and v.a[0] in ('<', '<=', '==', '!=') and len(v.a) == 3:
        a, b = (as_int(it, s, y, case) for y in v.a[1:])
        if a is not None and b is not None:
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}[v.a[0]]
    return x


def as_int(it, s, v, case):
    if v.op == 'int':
        return v.a[0]
    if v.op == 'bool':
        return int(v.a[0])
    if v.op == 'ite':
        c = as_bool(it, s, v.a[0], case)
        return None if c is None else as_int(it, s, v.a[1] if c else v.a[2], case)
    if v.op == 'op' and v.a[0] in ('+', '-', '*'):
        xs = [as_int(it, s, y, case) for y in v.a[1:]]
        if None in xs:
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if v.a[0] == '+' else r - x if v.a[0] == '-' else r * x
        return r
    x = prop_eval(v, case)
    return None if x is None else int(x)


def content(it, s, loc):
    """element values of a list of known length"""
    n = it.size_of(s, loc)
    if n.op != 'int':
        return None
    r = [it.load(s, LI(loc, Int(i))) for i in range(n.a[0])]
    return None if any(x.op in ('fresh', 'phi') for x in r) else r


def fns(p, name, np=None):
    return [f for f in p.fn(C + '::' + name) if f.get('body') and (np is None or len(f['params']) == np)]


def selections(ck, c, p):
    T = c.tests()
    for k in TESTS:
        tol = k == 'Degenerated'
        for f in fns(p, 'is' + k):
            V = P(c.run(f, 2, T), 0)
            for i in range(3):
                per_case(ck, c, f, 'test of one entity: entity %d' % i, 3, [c.atom(k, c.e(j), *([init(P(c.run(f, 0, T), 1))] if tol else [])) for j in range(3)],
                         lambda b, i=i: b[i], T, as_bool, env={V: Int(i)})
        for n in range(ck.top):
            for name, want, got in (('contain', any, as_bool), ('are', all, as_bool), ('count', sum, as_int)):
                fs = fns(p, name + k)
                if not fs and n == 0:
                    raise AnalysisBroken('%s not found' % (C + '::' + name + k))
                for f in fs:
                    ex = [init(P(c.run(f, 0, T), 0))] if tol else []
                    per_case(ck, c, f, {'contain': 'some entity passes', 'are': 'every entity passes', 'count': 'number of entities that pass'}[name],
                             n, [c.atom(k, c.e(i), *ex) for i in range(n)], want, T, got)
            for f in fns(p, 'remove' + k):
                ex = [init(P(c.run(f, 0, T), 0))] if tol else []
                per_case(ck, c, f, 'the others stay, in their order', n, [c.atom(k, c.e(i), *ex) for i in range(n)],
                         lambda b: [c.e(i) for i in range(len(b)) if not b[i]], T, lambda it, s, v, case: content(it, s, c.ents))


def counts(ck, c, p):
    T = {}
    for k in TESTS:
        for f in fns(p, 'count' + k):
            T[f['u']] = lambda it, s, e, fr, obj, args, k=k: [(s, mk('n', k, mk('objref', obj), *[it.argval(s, a) for a in args]))]
    for f in fns(p, 'count'):
        it = c.run(f, 2, T)
        for s, v in it.rets:
            if v.op != 'objat':
                ck.require(None, f, 'names of the counts', 'returned value not understood')
                continue
            tol = init(P(it, 0))
            found = {}
            for l in s.env:
                if l.op == 'I' and l.a[0] is v.a[0] and l.a[1].op == 'str':
                    found[l.a[1].a[0]] = s.env[l]
            if not found:
                ck.require(None, f, 'names of the counts', 'map not understood')
                continue
            for key, k in KEYS.items():
                w = mk('n', k, mk('objref', THIS), *([tol] if k == 'Degenerated' else []))
                x = found.get(key)
                ck.require(None if x is not None and x.op != 'n' else x is w, f, 'count reported as "%s"' % key,
                           'is %s' % (show(x)[:80] if x is not None else 'missing'))


def motion(ck, c, p):
    for name in ('translate', 'rotate', 'transform'):
        for f in fns(p, name):
            for n in range(ck.top):
                Tr = Trace()

                def rec(it, s, e, fr, obj, args):
                    return [(Tr.push(it, s, mk('q', mk('objref', obj), *[it.argval(s, a) for a in args])), VOID)]
                it = c.run(f, n, {A + 'entity::' + name: rec, **{g['u']: rec for g in p.funcs.values() if g['n'] == A + 'entity::' + name}})
                want = sorted(show(mk('q', mk('objref', LD(c.e(i))), *[init(P(it, j)) for j in range(len(f['params']))])) for i in range(n))
                for s, v in it.rets:
                    b = Tr.of(it, s)
                    if b is None or any(isinstance(x, tuple) for x in b):
                        ck.require(None, f, '%d entities moved' % n, 'calls not understood')
                    else:
                        g = sorted(show(x) for x in b)
                        ck.require(g == want, f, 'each of %d entities moved once, by the given motion' % n, 'moves %s' % ', '.join(g)[:200])
                for s, v in it.thrown:
                    ck.require(False, f, 'each of %d entities moved' % n, 'throws')


def lists(ck, c, p):
    for f in fns(p, 'size'):
        for n in range(ck.top):
            per_case(ck, c, f, 'length', n, [], lambda b, n=n: n, {}, as_int)
    for f in fns(p, 'operator[]'):
        for i in range(3):
            it = c.run(f, 3, env={P(c.run(f, 3), 0): Int(i)})
            for s, v in it.rets:
                ck.require(v is addr(LI(c.ents, Int(i))), f, 'entity %d' % i, 'is %s' % show(v)[:80])
    for f in fns(p, 'clear'):
        per_case(ck, c, f, 'empty afterwards', 2, [], lambda b: [], {}, lambda it, s, v, case: content(it, s, c.ents))
    for f in fns(p, 'push_back'):
        for n in range(3):
            x = init(P(c.run(f, n), 0))
            per_case(ck, c, f, 'entity appended', n, [], lambda b, n=n: [c.e(i) for i in range(n)] + [x], {}, lambda it, s, v, case: content(it, s, c.ents))
    for f in fns(p, 'resize'):
        for n in (1, 3):
            V = P(c.run(f, 2), 0)

            def got(it, s, v, case, n=n):
                m = it.size_of(s, c.ents)
                return None if m.op != 'int' else [m.a[0]] + [it.load(s, LI(c.ents, Int(i))) for i in range(min(2, n))]
            per_case(ck, c, f, 'length set to %d, first entities kept' % n, 2, [], lambda b, n=n: [n] + [c.e(i) for i in range(min(2, n))], {}, got, env={V: Int(n)})
    # a record's constructors
    for m in p.records[C]['methods']:
        if m['kind'] != 'ctor' or m['deleted'] or m['dflt']:
            continue
        f = p.funcs.get(m['u'])
        if f is None or not f.get('body'):
            continue
        if any('initializer' in q['t'] for q in f['params']):
            continue
        env = {}
        it = ck.run(f)
        if f['params']:
            env[LF(P(it, 0), '#size')] = Int(2)
        it = ck.run(f, env=env)
        for s, v in it.rets:
            g = content(it, s, c.ents)
            w = [init(LI(P(it, 0), Int(i))) for i in range(2)] if f['params'] else []
            ck.require(None if g is None else g == w, f, 'entities of a new collection', 'holds %s' % text(g))
            t = it.load(s, LF(THIS, c.tree))
            ck.require(t.op == 'addr' and t.a[0].op == 'H', f, 'a new collection has a tree of its own', 'tree is %s' % show(t)[:80])


def is_boxes(t): return 'vector' in t and 'aabb' in t


def box_is(it, s, ptr, p, i, entity):
    """the box a pointer leads to has the corners of the given entity and identifier i"""
    b = LD(ptr)
    rec = A + 'aabb'
    pts = [x['n'] for _, x in p.all_fields(rec) if strip_t(x['t']) in ('acme::point', 'point')]
    lo, hi = [it.load(s, LF(b, n)) for n in pts[:2]]
    ident = it.load(s, LF(b, 'm_id'))
    w = [mk('corner', j, mk('objref', LD(entity))) for j in (0, 1)]
    r = []
    for g, x in ((lo, w[0]), (hi, w[1])):
        if any(y.op in ('fresh', 'phi') for y in subterms(g)):
            r.append(None)
        elif g.op == 'vec':
            comps = [mk('comp', x, Int(k)) for k in range(3)]
            r.append(all(a is b_ for a, b_ in zip(g.a, comps)))
        else:
            r.append(g is x)
    r.append(ident is Int(i) or (None if any(y.op in ('fresh', 'phi') for y in subterms(ident)) else False))
    return r


def strip_t(t):
    return t.replace('const', '').replace('&', '').strip()


def clamp_summary(p):
    def f(it, s, e, fr, obj, args):
        t = mk('q', 'Clampable', mk('objref', obj))
        out = []
        for b in (True, False):
            x = it.assume(s, t, b)
            if x is None:
                continue
            if b:
                cs = [mk('corner', j, mk('objref', obj)) for j in (0, 1)]
                for k in range(3):
                    x = it.assume(x, mkop('<', mk('comp', cs[1], Int(k)), mk('comp', cs[0], Int(k))), False)
            x = x.copy()
            for j, a in enumerate(args):
                if a[0] != 'l':
                    return None
                if b and len(args) == 2:
                    v = mk('corner', j, mk('objref', obj))
                elif b:
                    v = mk('comp', mk('corner', j // 3, mk('objref', obj)), Int(j % 3))
                else:
                    v = it.fresh('unset')
                it.store0(x, a[1], v)
            out.append((x, Bool(b)))
        return out
    return {A + 'entity::clamp': f, **{g['u']: f for g in p.funcs.values() if g['n'] == A + 'entity::clamp'}}


def bounding(ck, c, p):
    S = {**c.tests(), **clamp_summary(p)}
    for f in fns(p, 'clamp'):
        for n in range(ck.top):
            atoms = [c.atom('Clampable', c.e(i)) for i in range(n)]

            def got(it, s, v, case):
                lst = content(it, s, P(it, 0))
                if lst is None:
                    return None
                r = []
                for i, ptr in enumerate(lst):
                    r.append(box_is(it, s, ptr, p, i, c.e(i)) if i < n else ['extra'])
                return None if any(None in x for x in r) else r
            per_case(ck, c, f, 'one box per entity: its corners, its index as identifier', n, atoms,
                     lambda b: [[True] * 3] * len(b) if all(b) else 'throws', S, got, sizes=[(P(c.run(f, n, S), 0), 1)])
    builds = [g for g in p.fn(TREE + '::build')]
    for f in fns(p, 'buildAABBtree'):
        for n in range(3):
            Tr = Trace()
            seen = []

            def build(it, s, e, fr, obj, args):
                lst = content(it, s, args[0][1]) if args[0][0] == 'l' else None
                ok = None if lst is None else [len(lst) == n] + [z for i, ptr in enumerate(lst[:n]) for z in box_is(it, s, ptr, p, i, c.e(i))]
                seen.append((s, obj, ok))
                return [(Tr.push(it, s, mk('q', 'build', mk('objref', obj), Int(len(seen) - 1))), VOID)]
            it = c.run(f, n, {**S, **{g['u']: build for g in builds}})
            atoms = [c.atom('Clampable', c.e(i)) for i in range(n)]
            for s, v in it.rets:
                b = Tr.of(it, s)
                if b is None or len(b) != 1 or isinstance(b[0], tuple):
                    ck.require(None if b is None else False, f, 'the tree of %d entities is built once' % n, 'built %s times' % (len(b) if b is not None else '?'))
                    continue
                _, obj, ok = seen[b[0].a[2].a[0]]
                t = it.load(s, LF(THIS, c.tree))
                ck.require(LD(t) is obj, f, 'the tree the collection keeps is the one built (%d entities)' % n, 'builds %s, keeps %s' % (show(obj)[:60], show(LD(t))[:60]))
                ck.require(None if ok is None or None in ok or not all(ok) and any(t.op == 'ran' for t in s.facts) else all(ok), f, 'the tree is built on the boxes of the %d entities' % n, 'boxes differ: %s' % ok)
                ck.require(t.op == 'addr' and t.a[0].op == 'H', f, 'trees of copied collections are left alone (%d entities)' % n, 'the tree rebuilt is the shared one')


def queries(ck, c, p):
    TI = [g for g in p.fn(TREE + '::intersection')]
    builds = [g for g in p.fn(TREE + '::build')]
    idf = field_of_type(p, A + 'aabb', lambda t: False, '') if False else 'm_id'
    other = None
    for f in fns(p, 'intersection', 2):
        ts = [strip_t(q['t']) for q in f['params']]
        if ts[1] in ('real', 'double'):
            pairwise(ck, c, p, f)
            continue
        for m in range(min(ck.top, 5)):
            calls, built = [], []

            def query(it, s, e, fr, obj, args):
                if len(args) < 2 or args[1][0] != 'l' or 'pair' not in args[1][2]:
                    return None
                calls.append((s, obj, loc_of(args[0])))
                s = s.copy()
                L = args[1][1]
                it.kill(s, L)
                s.env[L] = mk('vecnew', it.next())
                s.env[LF(L, '#size')] = Int(m)
                for i in range(m):
                    for j, nm in enumerate(('first', 'second')):
                        s.env[LF(LI(L, Int(i)), nm)] = mk('hit', j, i)
                return [(s, Bool(m > 0))]

            def build(it, s, e, fr, obj, args):
                built.append((obj, [args[0][1]] if args[0][0] != 'l' else args[0][1], content(it, s, args[0][1]) if args[0][0] == 'l' else None))
                return [(s, VOID)]
            summ = {**{g['u']: query for g in TI}, **{g['u']: build for g in builds}}
            it0 = ck.run(f, summaries=summ)
            cand = P(it0, 1)
            del calls[:], built[:]
            env = {LF(LF(cand, c.list), '#size'): Int(1)}
            boxlist = is_boxes(f['params'][0]['t'])
            if boxlist:
                env[LF(P(it0, 0), '#size')] = Int(2)
            it = ck.run(f, env=env, summaries=summ, disj_limit=40, max_states=400, small=6)
            two = 'collection' in ts[0]
            lab = '%s, %d pairs found' % ('collection' if two else 'boxes' if boxlist else 'box' if 'aabb' in ts[0] and 'AABB' not in ts[0] else 'tree', m)
            nt = LD(init(LF(THIS, c.tree)))
            for st, v in it.thrown:
                ck.require(False, f, 'query answered (%s)' % lab, 'throws')
            for s, v in it.rets:
                hit = lambda j, i: init(LF(LD(mk('hit', j, i)), idf))
                want = []
                for i in range(m):
                    want.append(init(LI(c.ents, hit(0, i))))
                    if two:
                        want.append(init(LI(LF(P(it, 0), c.list), hit(1, i))))
                g = content(it, s, LF(cand, c.list))
                ok = None if g is None else g == want
                if ok is False and sorted(map(show, g)) == sorted(map(show, want)):
                    ok = None
                ck.require(ok, f, 'candidates are the entities of the pairs found (%s)' % lab, 'are %s' % text(g))
                b = prop_eval(v, {})
                if b is None:
                    b = as_bool(it, s, v, {})
                ck.require(None if b is None else b == (m > 0), f, 'answer tells whether there are candidates (%s)' % lab, 'is %s' % show(v)[:60])
            # what was asked
            if not calls:
                ck.require(None, f, 'tree asked (%s)' % lab, 'query not seen')
            for s, obj, oth in calls[-1:]:
                ck.require(obj is nt, f, 'own tree asked (%s)' % lab, 'asks %s' % show(obj)[:80])
                if two:
                    w = LD(init(LF(P(it, 0), c.tree)))
                    ck.require(oth is w, f, 'against the tree of the other collection (%s)' % lab, 'against %s' % show(oth)[:80])
                elif not built:
                    w = LD(init(P(it, 0)))
                    ck.require(oth is w, f, 'against the given tree (%s)' % lab, 'against %s' % show(oth)[:80])
                else:
                    bo, _, cont = built[-1]
                    ck.require(oth is bo and bo is not nt, f, 'against a tree built of the given boxes (%s)' % lab, 'against %s' % show(oth)[:80])
                    w = [init(LI(P(it, 0), Int(i))) for i in range(2)] if boxlist else [init(P(it, 0))]
                    ck.require(None if cont is None else cont == w, f, 'that tree holds the given boxes (%s)' % lab, 'holds %s' % text(cont))


def pairwise(ck, c, p, f):
    fi = [g for g in p.funcs.values() if g['n'] == A + 'Intersection' and len(g['params']) == 3 and all('entity' in q['t'] for q in g['params'][:2])]
    if not fi:
        raise AnalysisBroken('entity intersection not found')

    def meet(it, s, e, fr, obj, args):
        return [(s, mk('meet', *[it.argval(s, a) for a in args]))]
    for n in range(ck.top):
        it0 = ck.run(f, env={LF(c.ents, '#size'): Int(0)})
        out = LF(P(it0, 0), c.list)
        it = c.run(f, n, {g['u']: meet for g in fi}, sizes=[(out, 1)])
        tol = init(P(it, 1))
        for s, v in it.rets:
            g = content(it, s, out)
            if g is None or any(x.op != 'meet' for x in g):
                ck.require(None if g is None else False, f, 'intersections of %d entities' % n, 'list not understood or other elements: %s' % text(g))
                continue
            pairs = [tuple(x.a[:2]) for x in g]
            names = {c.e(i): i for i in range(n)}
            idx = [tuple(sorted((names.get(a, 99), names.get(b, 99)))) for a, b in pairs]
            miss = [q for q in itertools.combinations(range(n), 2) if idx.count(q) != 1]
            ck.require(not miss, f, 'each pair of %d entities intersected once' % n, 'pair %s' % (miss[:1],))
            ck.require(all(0 <= a <= b < n for a, b in idx), f, 'only entities of the collection intersected (%d)' % n, 'pairs %s' % idx)
            ck.require(all(x.a[2] is tol for x in g), f, 'given tolerance used (%d)' % n, '')


def lists_of_entities(ck):
    ck.rule = """Abstract interpretation of the members of a collection on lists of 0..5 (thorough: 0..6) entities with the tests, motions, boxes and intersections of the
    single entities uninterpreted: for every outcome of the tests the selection, count or remaining list equals the any/all/number/filter of
    the definition; every entity is moved once by the given motion; one box per entity; a query lists exactly the entities named by
    the pairs the tree reports."""
    ck.top = 6 if ck.tier == 'quick' else 7
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        c = Coll(ck, p)
        selections(ck, c, p)
        counts(ck, c, p)
        motion(ck, c, p)
        lists(ck, c, p)
        bounding(ck, c, p)
        queries(ck, c, p)
