"""The S-function interface: initialisation, one step, termination."""
import re
from .base import *
from .tree import Trace, loc_of
from .ground import prop_eval, leaves
from .collection import as_bool
from engine.absint import Hooks

BUS = {'ShellAffine': 16, 'ShellRho': 0, 'ShellFriction': 0, 'RibsAffine': 16, 'RibsRho': 1, 'RibsFriction': 1, 'InMesh': 0}
MESH, FLAT, SHELL = GLOB = ('enve::ground::mesh', 'enve::ground::flat', 'enve::shell')


def one(p, name):
    fs = [f for f in p.fn(name) if f.get('body')]
    if len(fs) != 1:
        raise AnalysisBroken('%s not found' % name)
    return fs[0]


def kept(s):
    """class of the object -> static location that holds it at the exit"""
    r = {}
    for k, v in s.env.items():
        if root(k).op == 'G' and v.op == 'addr' and v.a[0].op == 'H':
            r.setdefault(v.a[0].a[1].replace('class ', '').strip(), []).append(k)
    return r


def bus_dims(p):
    d = {}
    for _, f in p.all_fields('EnveOutputBus'):
        m = re.search(r'\[(\d+)\]', f['t'])
        d[f['n']] = int(m.group(1)) if m else 0
    return d


def step(ck, p, G):
    f = one(p, 'enve_sfun_out')
    dims = bus_dims(p)
    for n in BUS:
        if n not in dims:
            raise AnalysisBroken('field %s of the output bus not found' % n)
    nr = dims['RibsRho']
    ck.require(dims['RibsAffine'] == 16 * nr and dims['RibsFriction'] == nr and dims['ShellAffine'] == 16, f, 'sizes of the bus fields agree', str(dims))
    objs = {n: LD(init(x)) for n, x in G.items()}
    pre = [g for g in p.funcs.values() if g['n'].startswith('enve::shell::')]
    nan = 0
    for size in (1, 3, nr, nr + 4):
        for method in (0, 1, 2, -1, 0.5):
            for enable in (0, 1, 2, 0.5):
                Tr = Trace()
                calls = []

                def setup(it, s, e, fr, obj, args):
                    a = [it.argval(s, x) for x in args]
                    calls.append((obj, loc_of(args[0]) if args[0][0] == 'l' else LD(args[0][1]), a[1], a[2] if len(a) > 2 else Str('geometric')))
                    t = mk('q', 'setup', Int(len(calls) - 1))
                    return [(Tr.push(it, s, t), mk('q', 'in', Int(len(calls) - 1)))]

                def reader(name):
                    def g(it, s, e, fr, obj, args):
                        outs = [a for a in args if a[0] == 'l' and a[2].rstrip().endswith('&') and 'const' not in a[2]]
                        ins = [it.argval(s, a) for a in args if a not in outs]
                        v = mk('rd', name, s.env.get(Tr.G, Int(0)), mk('objref', obj), *ins)
                        if outs:
                            s = s.copy()
                            it.store(s, outs[0][1], v, e, fr)
                            return [(s, VOID)]
                        return [(s, v)]
                    return g
                S = {}
                for g in pre:
                    m = g['n'].split('::')[-1]
                    if m == 'setup':
                        S[g['u']] = setup
                    elif m == 'size':
                        S[g['u']] = lambda it, s, e, fr, obj, args: [(s, Int(size))]
                    elif m in ('contactPointAffine', 'contactDepth', 'contactFriction'):
                        S[g['u']] = reader(m)
                params = [mk('V', 'p%d' % i, q['n']) for i, q in enumerate(f['params'])]
                env = {LD(init(params[2])): Real(method), LD(init(params[3])): Real(enable)}
                it = ck.run(f, summaries=S, env=env, unroll=nr + 8, disj_limit=40, max_states=400)
                lab = 'method %g, ground selector %g, %d ribs' % (method, enable, size)
                if method not in (0, 1) or enable not in (0, 1):
                    ck.require(None if any(prop_eval(t, {}) is None and t.op != 'ran' and 'null' not in show(t) for s, v in it.rets for t in s.facts) else not it.rets,
                               f, 'other selectors are an error', 'returns (%s)' % lab)
                    continue
                ck.require(bool(it.rets), f, 'a step is answered', 'no normal return (%s)' % lab)
                for s, v in it.rets:
                    exit_of_step(ck, f, it, s, Tr, calls, objs, lab, method, enable, size, dims, nr, params)
                # before the initialisation
                for s, v in it.rets:
                    for n, x in G.items():
                        ck.require(it.truth(s, mkop('==', NULL, init(x))) is False, f, 'no step before the initialisation', '%s may be null (%s)' % (n, lab))


def exit_of_step(ck, f, it, s, Tr, calls, objs, lab, method, enable, size, dims, nr, params):
    tr = Tr.of(it, s)
    if tr is None or any(isinstance(x, tuple) for x in tr):
        return ck.require(None, f, 'setups of a step', 'calls not understood (%s)' % lab)
    seq = [x.a[1].a[0] for x in tr]
    name = {v: k for k, v in objs.items()}
    grounds = [name.get(calls[i][1], show(calls[i][1])) for i in seq]
    inside = None
    if enable == 0:
        if not seq:
            return ck.require(False, f, 'the selected ground is used', 'no setup (%s)' % lab)
        q = mk('q', 'in', Int(seq[0]))
        b = it.truth(s, q)
        b = b if b is not None else (None if (c := it.truth(s, mkop('==', Int(0), q))) is None else not c)
        if b is None:
            # both outcomes on the same exit: one setup cannot be right for both
            return ck.require(False if grounds == [MESH] else None, f, 'outside the mesh the flat ground is used', 'setups %s whatever the mesh answers (%s)' % (grounds, lab))
        inside = b
        want = [MESH] if b else [MESH, FLAT]
    else:
        inside = True
        want = [FLAT]
    ck.require(grounds == want, f, 'the selected ground is used, the flat one outside the mesh', 'setups with %s instead of %s (%s)' % (grounds, want, lab))
    bus = LD(init(params[1]))
    for i in seq:
        obj, g, pose, m = calls[i]
        ck.require(obj is objs[SHELL], f, 'the shell of the initialisation is set up', show(obj)[:60])
        mv = it.load(s, m.a[0]) if m.op == 'addr' else m
        ck.require(None if mv.op != 'str' else mv.a[0] == ('geometric', 'sampling')[method], f, 'selected enveloping method', 'method %g runs %s' % (method, show(mv)[:40]))
        for r in range(3):
            for c in range(4):
                x = it.comp(pose, Int(r), Int(c))
                w = init(LI(LF(LD(init(params[0])), 'HubAffine'), Int(r + 4 * c)))
                ck.require(None if poison(x) else x is w, f, 'frame of the hub read column by column', 'element (%d,%d) is %s' % (r, c, show(x)[:80]))
    im = it.load(s, LF(bus, 'InMesh'))
    later = [mk('q', 'in', Int(i)) for i in seq[1:]]
    if enable == 1:
        later.append(mk('q', 'in', Int(seq[0])))
    bs = set()
    for n in range(1 << len(later)):
        case = {t: bool(n >> i & 1) for i, t in enumerate(later)}
        case.setdefault(mk('q', 'in', Int(seq[0])), inside)
        bs.add(im.a[0] != 0 if isnum(im) else None if poison(im) else 'stale' if im is init(LF(bus, 'InMesh')) else as_bool(it, s, im, case))
    ck.require(False if 'stale' in bs or (not inside) in bs else None if None in bs else True, f, 'flag of being on the ground', 'is %s when the shell is %s (%s)' % (show(im)[:60], 'inside' if inside else 'outside', lab))
    last = s.env.get(Tr.G, Int(0))
    rd = lambda n, *a: mk('rd', n, last, mk('objref', objs[SHELL]), *a)

    def put(loc, want, what):
        x = it.load(s, loc)
        if want is None:
            ok = is_nan(x)
            w = 'not-a-number'
        else:
            ok = None if poison(x) else x is want
            w = show(want)[:60]
        ck.require(ok, f, what, 'is %s instead of %s (%s)' % (show(x)[:80], w, lab))
    F = lambda n: LF(bus, n)
    put(F('ShellRho'), rd('contactDepth'), 'contact depth of the shell')
    put(F('ShellFriction'), rd('contactFriction'), 'friction of the shell')
    for r in range(4):
        for c in range(4):
            put(LI(F('ShellAffine'), Int(r + 4 * c)), mk('comp', rd('contactPointAffine'), Int(r), Int(c)), 'contact frame of the shell')
            for i in range(nr):
                put(LI(F('RibsAffine'), Int(r + 4 * c + 16 * i)), mk('comp', rd('contactPointAffine', Int(i)), Int(r), Int(c)) if i < size else None,
                    'contact frames of the ribs' if i < size else 'no data for missing ribs')
    for i in range(nr):
        put(LI(F('RibsRho'), Int(i)), rd('contactDepth', Int(i)) if i < size else None, 'contact depth of the ribs' if i < size else 'no data for missing ribs')
        put(LI(F('RibsFriction'), Int(i)), rd('contactFriction', Int(i)) if i < size else None, 'friction of the ribs' if i < size else 'no data for missing ribs')
    for k in s.env:
        if k.op == 'I' and k.a[0].op == 'F' and k.a[0].a[0] is bus and k.a[0].a[1] in dims and k.a[1].op == 'int':
            ck.require(0 <= k.a[1].a[0] < dims[k.a[0].a[1]], f, 'writes stay within the bus', '%s[%d]' % (k.a[0].a[1], k.a[1].a[0]))
        if is_prefix(LD(init(params[0])), k) and s.env[k] is not init(k):
            ck.require(False, f, 'the input is left alone', show(k)[:60])


def poison(x):
    return any(y.op in ('phi', 'fresh', 'join', 'uninit') for y in subterms(x))


def is_nan(x):
    t = show(x)
    if re.search(r'\bNAN_(MAT|VEC|POINT|AFFINE)|QUIET_NAN|quiet_NaN|nan\(', t):
        return True
    if isnum(x) or x.op in ('rd', 'init') or x.op == 'comp' and x.a[0].op in ('rd', 'init') or re.search(r'IDENTITY|ZEROS|ONES|UNIT', t):
        return False
    return None


class Deleted(Hooks):
    def __init__(self, tr):
        self.tr = tr

    def delete(self, it, s, node, fr, ptr, dry):
        e = node['e']
        t = e.get('t', '')
        s.env[self.tr.G] = mk('calls', s.env.get(self.tr.G, Int(0)), mk('q', 'delete', ptr, Str(t.replace('class ', '').replace('*', '').replace('const', '').strip())))


def release(ck, p, G):
    f = one(p, 'enve_sfun_end')
    Tr = Trace()
    it = ck.run(f, hooks=Deleted(Tr))
    name = {init(x): n for n, x in G.items()}
    ck.require(bool(it.rets) and not it.thrown, f, 'termination succeeds', 'throws')
    for s, v in it.rets:
        tr = Tr.of(it, s)
        if tr is None or any(isinstance(x, tuple) for x in tr):
            ck.require(None, f, 'objects released', 'not understood')
            continue
        got = {}
        for x in tr:
            if it.truth(s, mkop('==', NULL, x.a[1])) is not True:
                got.setdefault(name.get(x.a[1], show(x.a[1])[:60]), []).append(x.a[2].a[0])
        for n in GLOB:
            if it.truth(s, mkop('==', NULL, init(G[n]))) is not True:
                ck.require(got.get(n) == [n], f, 'each object released once, as what it is', '%s: %s' % (n, ', '.join(got.get(n, [])) or 'not released'))
            v = it.load(s, G[n])
            gone = it.truth(s, mkop('==', NULL, v))
            ck.require(False if gone is None and any(x.a[1] is v for x in tr) else gone, f, 'no pointer to a released object is kept', n)
        ck.require(set(got) <= set(GLOB), f, 'nothing else is released', ', '.join(got))


def start(ck, p):
    f = one(p, 'enve_sfun_init')
    S = {}

    def ctor(cls):
        def g(it, s, e, fr, obj, args):
            s = s.copy()
            it.kill(s, obj)
            s.env[obj] = mk('made', cls, *[it.argval(s, a) for a in args])
            return [(s, VOID)]
        return g
    for g in p.funcs.values():
        if g['n'] in ('enve::ground::mesh::mesh', 'enve::shell::shell'):
            S[g['u']] = ctor(g['n'].rsplit('::', 1)[0])
    Tr = Trace()
    it = ck.run(f, summaries=S, hooks=Deleted(Tr))
    V = lambda i: init(LD(init(P(it, i))))
    ck.require(bool(it.rets), f, 'initialisation succeeds with a mesh file', 'no normal return')
    for s, v in it.rets:
        vals = {n: s.env[k[0]] for n, k in kept(s).items() if len(k) == 1}
        for n, k in kept(s).items():
            for l in k:
                old = init(l)
                if it.truth(s, mkop('==', NULL, old)) is not True:
                    ck.require(None if Tr.of(it, s) is None else sum(not isinstance(x, tuple) and x.a[1] is old for x in Tr.of(it, s)) == 1, f, 'objects of a previous initialisation released', n)
        deleted = [x.a[1] for x in (Tr.of(it, s) or []) if not isinstance(x, tuple)]
        for n in GLOB:
            x = vals.get(n)
            if x is None or x.op != 'addr' or x.a[0].op != 'H':
                ck.require(False if x is None else None, f, 'new objects are kept', '%s is %s' % (n, show(x)[:60] if x is not None else 'not set'))
                continue
            ck.require(x not in deleted, f, 'new objects are kept alive', '%s deleted' % n)
            h = x.a[0]
            m = s.env.get(h)
            if n == SHELL:
                ck.require(None if m is None or m.op != 'made' else [y.a[1] if i == 0 and y.op == 'call' and y.a[0] == 'toint' else y for i, y in enumerate(m.a[1:])] == [V(i) for i in range(6)], f, 'shape of the shell from the parameters', 'built from %s' % ', '.join(show(y)[:30] for y in (m.a[1:] if m is not None else ())))
            if n == MESH:
                if m is None or m.op != 'made':
                    ck.require(None, f, 'mesh built from the file', 'construction not understood')
                    continue
                a = m.a[1:]
                src = it.load(s, a[0].a[0]) if a[0].op == 'addr' else a[0]
                ck.require(None if poison(src) else 'getenv' in show(src) and 'ENVE_GROUND_PATH' in show(src), f, 'mesh loaded from ENVE_GROUND_PATH', show(src)[:80])
                ck.require(None if poison(a[-1]) and 'IDENT' not in show(a[-1]) else 'IDENTITY' in show(a[-1]), f, 'mesh placed as it is in the file', show(a[-1])[:60])
                if len(a) == 3:
                    ck.require(a[1].op in ('int', 'real') and a[1].a[0] == 1, f, 'friction of a mesh without own friction', show(a[1])[:40])
                arity = {'.rdf': 2, '.obj': 3}
                for e in ('.rdf', '.obj', '.txt'):
                    ok = True
                    for t, w in s.facts.items():
                        strs = [y for y in t.a[1:] if y.op == 'str'] if t.op == 'op' and t.a[0] == '==' else []
                        if strs and strs[0].a[0].startswith('.'):
                            ok = ok and (strs[0].a[0] == e) == w
                    if ok:
                        ck.require(len(a) == arity.get(e), f, 'the loader fits the extension', 'a %s file is loaded with %d arguments' % (e, len(a)))
            if n == FLAT:
                L = leaves(p, 'enve::ground::flat', h)
                for nm, loc in L:
                    x = it.load(s, loc)
                    if 'fric' in nm:
                        ck.require(x is V(7), f, 'friction of the flat ground', show(x)[:60])
                    elif 'orig' in nm:
                        w = [Int(0), Int(0), V(6)]
                        ck.require(vec_is(it, x, w), f, 'height of the flat ground', show(x)[:60])
                    elif 'normal' in nm and 'plane' in nm:
                        ck.require(vec_is(it, x, [Int(0), Int(0), Int(1)], True), f, 'flat ground is horizontal', show(x)[:60])
    if not it.rets:
        return None
    G = {}
    for s, v in it.rets:
        for n, k in kept(s).items():
            G.setdefault(n, set()).update(k)
    if any(len(G.get(n, ())) != 1 for n in GLOB):
        raise AnalysisBroken('objects of the S-function not found after its initialisation')
    for s, v in it.rets:
        for t, w in s.facts.items():
            if 'getenv' in show(t) and t.op == 'op' and t.a[0] == '==' and NULL in t.a:
                ck.require(w is False, f, 'no mesh file is an error', 'returns without ENVE_GROUND_PATH')
    return {n: next(iter(G[n])) for n in GLOB}


def vec_is(it, x, want, scale=False):
    r = []
    for k, w in enumerate(want):
        c = it.comp(x, Int(k))
        if isnum(w):
            if not isnum(c):
                return None
            r.append(num(c) == num(w) if not scale or num(w) == 0 else num(c) > 0)
        else:
            r.append(c is w)
    return all(r)


def sfunction(ck):
    ck.rule = """Abstract interpretation of the three entry points with the shell uninterpreted, for both methods and both ground selectors and for
    shells with fewer, as many and more ribs than the bus holds: each bus element holds the corresponding read-out taken after the last
    setup, column by column, not-a-number beyond the number of ribs; ground selection, fallback and flag agree; writes stay inside the
    bus; initialisation builds the objects from its parameters and termination releases each exactly once."""
    p = ck.load('lib')
    G = start(ck, p)
    if G is not None:
        step(ck, p, G)
        release(ck, p, G)
