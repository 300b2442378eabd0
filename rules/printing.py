"""What is printed is what the object holds."""
import re
import numpy as np
from engine.ident import Ident
from engine.order import explore, verdict
from .base import *
from .tree import Trace, Tree, TREE
from .store import getters

A, E = 'acme::', 'enve::'


class Printed(Hooks):
    """stream insertions accumulated in a ghost location"""

    def __init__(self, tr):
        self.tr = tr

    def opaque(self, it, s, node, fr, name, this, args, dry):
        if name != 'operator<<':
            return
        vs = [a[1] for a in args if a[0] == 'v']
        if this is not None:
            vs = [addr(this)] + vs
        if node['a'] and strip(node['a'][-1].get('t', '')) == 'char' and vs[-1].op == 'int':
            vs[-1] = mk('str', chr(vs[-1].a[0]))
        if node['a'] and node['a'][-1].get('dk') == 'func':
            if not re.search(r'\b(endl|ends|flush)$', node['a'][-1].get('n', '')):
                return
            vs.append(mk('str', '\n'))
        n = self.tr.push(it, s, mk('out', *vs))
        s.env[self.tr.G] = n.env[self.tr.G]


class Group:
    """values printed after one label"""

    def __init__(self, head, label, loops, end):
        self.head, self.label, self.loops, self.end, self.vals = head, label, loops, end, []

    def __repr__(self):
        return '%s|%s%s: %s' % (self.head, self.label, '*' if self.loops else '', ', '.join(show(v)[:70] for v in self.vals))


def text(v):
    if v.op == 'str':
        return v.a[0]
    return None


class Reader:
    """splits a trace of insertions in labels and values; self.ok is False if it is not understood"""

    def __init__(self, stream):
        self.stream, self.ok, self.out, self.buf, self.head = stream, True, [], '', ''
        self.why = ''
        self.calls = []
        self.coarse = None

    def value(self, v, loops, end):
        if re.search(r'[^\W\d_]|=', self.buf) or not self.out or '\n' in self.buf and not self.out[-1].vals:
            ls = self.buf.split('\n')
            for h in ls[:-1]:
                if len(re.findall(r'[^\W\d_]', h)) >= 4:
                    self.head = h
            self.out.append(Group(self.head, ls[-1], loops, end))
        self.out[-1].vals.append(v)
        self.buf = ''

    def read(self, b, loops=(), end=None):
        if b is None:
            self.ok, self.why = False, 'insertions not followed'
            return
        for x in b:
            if isinstance(x, tuple):
                for e, c in x[2]:
                    self.read(c, loops + (x[1],), e)
                continue
            if x.op != 'out':
                self.calls.append((x, loops, end))
                self.out.append(Group('', '', loops, end))
                continue
            if self.stream is None and x.a[0].op == 'addr':
                self.stream = x.a[0]
            if x.a[0] is not self.stream:
                self.ok, self.why = False, 'insertion in another stream'
                continue
            for v in x.a[1:]:
                t = text(v)
                if t is not None:
                    self.buf += t
                elif v.op == 'call' and v.a[0] in ('setprecision', 'setw', 'setfill'):
                    if v.a[0] == 'setprecision' and v.a[1].op == 'int' and v.a[1].a[0] < 6:
                        self.coarse = v.a[1].a[0]
                else:
                    self.value(v, loops, end)


def plain(t):
    """components read one by one like components of the value read as a whole"""
    m = {}
    for x in subterms(t):
        if x.op == 'init' and x.a[0].op == 'I' and x.a[0].a[1] == '@':
            m[x] = mk('comp', init(x.a[0].a[0]), *x.a[0].a[2:])
    return subst(t, m) if m else t


def stripped(t):
    while t.op in ('op', 'call') and len(t.a) == 2 and t.a[0] in ('transpose', 'matrix', "m'", 'T'):
        t = t.a[1]
    if t.op == 'op' and t.a[0] in ('/', '*', 'v/', 's*', 'v*') and len(t.a) == 3:
        a, b = t.a[1], t.a[2]
        t2 = mkop(t.a[0], stripped(a) if isinstance(a, T) else a, stripped(b) if isinstance(b, T) else b)
        return t2
    return t


def data(t):
    """what a value is read from"""
    return {show(x.a[0]) for x in subterms(t) if x.op == 'init'}


def same(it, vals, want):
    """True / False / None"""
    n = len(vals)
    vals = [plain(v) for v in vals]
    want = [plain(w) for w in want] if isinstance(want, list) else want
    if n == 1 and not isinstance(want, list):
        g, w = stripped(vals[0]), stripped(want)
        if g is w or it.comp(g, Int(0)) is it.comp(w, Int(0)) and it.comp(g, Int(2)) is it.comp(w, Int(2)) and it.comp(g, Int(1)) is it.comp(w, Int(1)) and g.op in ('vec', 'op'):
            return True
        return differs([g], [w])
    ws = want if isinstance(want, list) else [plain(it.comp(want, Int(k))) for k in range(3)]
    if len(ws) != n:
        return False
    if all(a is b for a, b in zip(vals, ws)):
        return True
    return differs(vals, ws)


def vague(x):
    return any(y.op in ('fresh', 'join', 'uninit') for y in subterms(x))


PIECES = ('min', 'max', 'abs', 'fabs', '<', '<=', '>', '>=', '==', '!=')


def piecewise(t):
    return any(x.op == 'ite' or x.op in ('op', 'call') and x.a[0] in PIECES for x in subterms(t))


def differs(gs, ws):
    res = True
    for g, w in zip(gs, ws):
        if g is w:
            continue
        if piecewise(g) != piecewise(w):
            if contains(g, w):
                # whatever the value is
                X = init(mk('V', 'p:value', 'double'))
                g, w = subst(g, {w: X}), X
            def case(a, g=g, w=w):
                x, y = a.num(g), a.num(w)
                return x.eq(y) or a.sgn(x - y) == 0
            try:
                ok = verdict(explore(case))[0]
            except Exception:
                ok = None
            if ok is False:
                return False
            if ok is None:
                res = None
            continue
        try:
            far = False
            for seed in range(3):
                I = Ident(seed)
                a, b = np.array(I.s(g), float), np.array(I.s(w), float)
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12):
                    far = True
            if far and not vague(g):
                return False
            if far:
                res = None
        except Exception:
            if vague(g):
                res = None
            elif data(g) != data(w) or not any(x.op in ('call', 'sum') for x in subterms(g)) and not any(x.op == 'op' for x in subterms(g)):
                return False
            else:
                res = None
    return res


class Source:
    """values the read-outs give"""

    def __init__(self, ck, p):
        self.ck, self.p, self.memo = ck, p, {}

    def get(self, cls, name, loc=THIS, arg=None):
        """value an accessor returns for the object at loc"""
        k = (cls, name, arg)
        if k not in self.memo:
            fs = [f for f in getters(self.p, cls, name) if f['const'] and len(f['params']) == (0 if arg is None else 1)]
            if not fs:
                raise AnalysisBroken('read-only accessor %s::%s not found' % (cls, name))
            it = self.ck.run(fs[0], **({} if arg is None else {'args': [Int(arg)]}))
            if len(it.rets) != 1:
                raise AnalysisBroken('accessor %s::%s has %d exits' % (cls, name, len(it.rets)))
            s, v = it.rets[0]
            if v.op in ('addr', 'objat'):
                v = it.load(s, v.a[0])
            self.memo[k] = v
        return subst(self.memo[k], {THIS: loc})

    def place(self, cls, name):
        """where the object an accessor returns lies"""
        fs = [f for f in getters(self.p, cls, name) if f['const'] and not f['params']]
        if not fs:
            raise AnalysisBroken('read-only accessor %s::%s not found' % (cls, name))
        v = self.ck.run(fs[0]).rets[0][1]
        return v.a[0] if v.op in ('addr', 'objat') else LD(v)

    def out(self, cls, name, kinds, facts, args=()):
        """value a read-out leaves in its last parameter; None if it depends on more than the facts"""
        fs = [f for f in self.p.funcs.values() if f['n'] == cls + '::' + name and f.get('body') and len(f['params']) == len(args) + 1 and
              not any('vector' in q['t'] for q in f['params'])]
        if not fs:
            raise AnalysisBroken('read-out %s::%s not found' % (cls, name))
        from .shell import Shell, SHELL
        it = self.ck.run(fs[0], facts=dict(facts), args=list(args) + [None], disj_limit=16, env=Shell(self.p).entry() if cls == SHELL else {})
        got = []
        for s, v in it.rets:
            x = it.load(s, P(it, len(args)))
            if x not in got:
                got.append(x)
        return got[0] if len(got) == 1 else None


def run(ck, f, loc_of_stream=None, **kw):
    tr = Trace()
    it = ck.run(f, hooks=Printed(tr), disj_limit=16, **kw)
    return tr, it


def judge(ck, f, it, R, rows, sized=None):
    """rows: (head, label, in a loop, value or function of the index, name); each must be found after its label"""
    if not R.ok:
        ck.require(None, f, 'printed form', R.why)
        return
    ck.require(R.coarse is None, f, 'six decimals', 'precision reduced to %s' % R.coarse)
    for head, label, loop, want, name in rows:
        hits = [g for g in R.out if g.vals and bool(g.loops) == loop and re.search(label, g.label) and re.search(head, g.head)]
        if not hits:
            there = False
            for g in R.out:
                if g.vals and bool(g.loops) == loop:
                    w = value(it, want, g, sized)
                    if w is not None and same(it, g.vals, w) is True:
                        there = True
            ck.require(True if there else False, f, '%s printed' % name, 'not among what is printed')
            continue
        for g in hits:
            w = value(it, want, g, sized)
            if w is None:
                ck.require(None, f, '%s printed' % name, 'value not determined')
                continue
            ok = same(it, g.vals, w)
            ck.require(ok, f, '%s printed' % name, 'after "%s" stands (%s) instead of (%s)' % (
                g.label.strip(), ', '.join(show(v)[:80] for v in g.vals), show(w)[:80] if not isinstance(w, list) else ', '.join(show(x)[:60] for x in w)))
            if loop and sized is not None:
                whole(ck, f, it, g, sized, name)
                out = [e for e in it.loops[g.loops[-1]]['ends'] if not any(h.end is e for h in hits)]
                ck.require(not out, f, '%s printed for all' % name, 'left out when %s' % ', '.join('%s is %s' % (show(t)[:50], w) for e in out[:1] for t, w in list(e.facts.items())[-3:]))


def value(it, want, g, sized):
    if not callable(want):
        return want
    if not g.loops:
        return None
    k = g.loops[-1]
    iv = it.loops[k].get('iv')
    return None if iv is None else want(iv)


def whole(ck, f, it, g, sized, name):
    L = it.loops[g.loops[-1]]
    r = L.get('range')
    if r is None:
        ck.require(None, f, '%s printed for all' % name, 'loop not understood')
        return
    lo, hi = r
    ck.require(lo is Int(0) and hi is sized or (None if vague(hi) else False), f, '%s printed for all' % name, 'for [%s, %s)' % (show(lo), show(hi)[:60]))
    if len(g.loops) > 1:
        ck.require(None, f, '%s printed once' % name, 'inside of another loop')


ENT = {
    A + 'line': [('origin', 'origin'), ('direction', 'direction')],
    A + 'ray': [('origin', 'origin'), ('direction', 'direction')],
    A + 'plane': [('origin', 'origin'), ('normal', 'normal')],
    A + 'segment': [('vertex 0', ('vertex', 0)), ('vertex 1', ('vertex', 1))],
    A + 'triangle': [('vertex 0', ('vertex', 0)), ('vertex 1', ('vertex', 1)), ('vertex 2', ('vertex', 2))],
    A + 'aabb': [('[mM]in', 'min'), ('[mM]ax', 'max')],
    A + 'disk': [('radius', 'radius'), ('center', 'center'), ('normal', 'normal')],
    A + 'ball': [('radius', 'radius'), ('center', 'center')],
}


def prints(ck):
    ck.rule = """The insertions in the stream are accumulated in order on every path of every printing function (calls of other printing functions
    followed) and split in labels and values; the value after a label must be the term the read-out of that name gives for the same object on
    the same path, lists must be printed for every element, and nothing named may be missing."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        src = Source(ck, p)
        for part in (entities, grounds, shapes, meshes, shells, trees):
            part(ck, p, src)


def each(ck, f, sp, **kw):
    """exits of a printing function with what was printed before"""
    tr, it = run(ck, f, **kw)
    ck.require(bool(it.rets), f, 'printing returns', 'no normal return')
    for s, v in it.thrown:
        ck.require(False, f, 'printing returns', 'throws')
    for s, v in it.rets:
        R = Reader(addr(P(it, sp)) if sp is not None else None)
        R.read(tr.of(it, s))
        yield it, s, R


def printer(p, name, n):
    fs = [f for f in p.fn(name) if f.get('body') and len(f['params']) == n]
    if not fs:
        raise AnalysisBroken('%s not found' % name)
    return fs


def entities(ck, p, src):
    seen = set()
    for f in printer(p, A + 'operator<<', 2):
        t = strip(f['params'][1]['t'].rstrip('&').strip())
        for it, s, R in each(ck, f, 0):
            o = P(it, 1)
            if t in ENT:
                rows = [('', lab, False, src.get(t, g, o) if isinstance(g, str) else src.get(t, g[0], o, g[1]), lab) for lab, g in ENT[t]]
            elif 'Matrix<double, 3, 1' in t or t.endswith('point') or t.endswith('vec3'):
                rows = [('', '', False, init(o), 'vector')]
            else:
                n = 4
                rows = [('', '', False, [it.comp(init(o), Int(i), Int(j)) for i in range(n) for j in range(n)], 'matrix')]
            seen.add(t)
            judge(ck, f, it, R, rows)
    for t in ENT:
        if t not in seen:
            raise AnalysisBroken('printing of %s not found' % t)


def grounds(ck, p, src):
    for c, rows in ((E + 'ground::flat', [(r'\bF\b', 'friction'), (r'\bO\b', 'origin'), (r'\bN\b', 'normal')]),
                    (E + 'triangleground', [(r'\bID\b', 'id'), (r'\bF\b', 'friction'), (r'\bV0\b', ('vertex', 0)), (r'\bV1\b', ('vertex', 1)),
                                            (r'\bV2\b', ('vertex', 2)), (r'\bN\b', 'normal'), (r'\bMax\b', 'max'), (r'\bMin\b', 'min')])):
        for f in printer(p, c + '::print', 1):
            for it, s, R in each(ck, f, 0):
                rs = []
                for lab, g in rows:
                    if g in ('min', 'max'):
                        w = src.get(A + 'aabb', g, src.place(c, 'bbox'))
                    else:
                        w = src.get(c, g) if isinstance(g, str) else src.get(c, g[0], THIS, g[1])
                    rs.append(('', lab, False, w, lab.strip('\\b')))
                judge(ck, f, it, R, rs)


SHAPE = ('Rx', 'Mx', 'Ry', 'My', 'Ly')


def shapes(ck, p, src):
    for f in printer(p, E + 'shape::print', 1):
        for it, s, R in each(ck, f, 0):
            judge(ck, f, it, R, [('', r'\b%s\b' % n, False, src.get(E + 'shape', n), n) for n in SHAPE])


def meshes(ck, p, src):
    from .mesh import field_of_type
    tri = LF(THIS, field_of_type(p, E + 'ground::mesh', lambda t: 'triangleground' in t and 'vector' in t, 'the triangles'))
    for f in printer(p, E + 'ground::mesh::print', 1):
        for it, s, R in each(ck, f, None):
            o = lambda i: LD(init(LI(tri, i)))
            TG = E + 'triangleground'
            rows = [('', r'^T\b', True, lambda i: i, 'T')] + \
                   [('', r'^V%d\b' % k, True, lambda i, k=k: src.get(TG, 'vertex', o(i), k), 'V%d' % k) for k in range(3)] + \
                   [('', r'^N\b', True, lambda i: src.get(TG, 'normal', o(i)), 'N'), ('', r'^F\b', True, lambda i: src.get(TG, 'friction', o(i)), 'F')]
            judge(ck, f, it, R, rows, init(LF(tri, '#size')))
            if R.stream is not None:
                o = it.load(s, R.stream.a[0])
                named = any(x is P(it, 0) or x is init(P(it, 0)) for x in subterms(o))
                ck.require(True if named else False if o.op == 'call' and any(x.op == 'str' for x in subterms(o)) else None, f, 'written to the file named', show(o)[:80])


def shells(ck, p, src):
    from .mesh import field_of_type
    S = E + 'shell'
    ribs = LF(THIS, field_of_type(p, S, lambda t: 'rib' in t and 'vector' in t, 'the ribs'))
    shp = LD(init(LF(THIS, field_of_type(p, S, lambda t: 'shape' in t and 'shapes' not in t, 'the shape'))))
    pi = mk('call', 'glob', A + 'PI')
    for f in printer(p, S + '::print', 1):
        from .shell import Shell
        for it, s, R in each(ck, f, 0, env=Shell(p).entry()):
            fa = s.facts
            over = lambda x: None if x is None else mkop('/', x, pi)
            ro = lambda n, *a: src.out(S, n, None, fa, a)
            eu = ro('eulerAngles')
            rows = [('', r'\b%s\b' % n, False, src.get(E + 'shape', n, shp), n) for n in SHAPE]
            rows += [('aximum radius', '=', False, src.get(E + 'shape', 'surfaceMaxRadius', shp), 'maximum radius')]
            for h, k in (('Camber', 1), ('Rotation', 2), ('Yaw', 0)):
                rows.append((h + ' angle', '=', False, eu and over(it.comp(eu, Int(k))), h + ' angle'))
            for lab, n in (('P', 'Point'), ('N', 'Normal'), ('f', 'Friction'), ('d', 'Depth'), ('A', 'Area'), ('V', 'Volume')):
                rows.append(('', '^%s *=' % lab, False, ro('contact' + n), 'contact ' + n.lower()))
                rows.append(('', '- %s *=' % lab, True, lambda i, n=n: ro('contact' + n, i), 'contact %s of the ribs' % n.lower()))
            rows.append(('^Shell reference frame', '', False, init(LF(THIS, field_of_type(p, S, lambda t: 'Transform' in t or t.endswith('affine'), 'the pose'))), 'pose'))
            rows.append(('^Local contact point', '', False, ro('contactPointAffine'), 'contact frame'))
            ra = ro('relativeAngles')
            rows.append(('^Relative pose', '=', False, ra and mkop('/', ra, pi), 'relative angles'))
            rows.append(('^Ribs relative', '- .*=', True, lambda i: over(ro('relativeAngles', i)), 'relative angles of the ribs'))
            rows.append(('', r'\bRib\s*$', True, lambda i: i, 'index'))
            for lab, g in (('C', 'center'), ('R', 'radius'), ('W', 'width'), ('A', 'angle')):
                rows.append(('', '^[^-]*\\b%s *=' % lab, True, lambda i, g=g: src.get(E + 'rib', g, LI(ribs, i)), '%s of the ribs' % g))
            judge(ck, f, it, R, rows, init(LF(ribs, '#size')))


def trees(ck, p, src):
    """a tree prints its box and then every child, an empty one only that it is empty"""
    t = Tree(p)
    for f in printer(p, TREE + '::print', 2):
        for empty in (True, False):
            tr = Trace()

            def rec(it, s, e, fr, obj, args):
                return [(tr.push(it, s, mk('child', mk('objref', obj))), VOID)]
            it = ck.run(f, hooks=Printed(tr), disj_limit=16, env={tr.G: Int(0)}, facts={mkop('==', NULL, init(t.b(THIS))): empty, mkop('==', t.n(THIS), Int(0)): empty} if empty else {mkop('==', NULL, init(t.b(THIS))): False}, summaries={f['u']: rec})
            ck.require(bool(it.rets), f, 'printing returns', 'no normal return')
            for s, v in it.rets:
                R = Reader(addr(P(it, 0)))
                R.read(tr.of(it, s))
                calls = [c for c in R.calls if c[0].op == 'child']
                if empty:
                    ck.require(not calls and not any(g.vals for g in R.out), f, 'empty tree', 'prints a box or children')
                    continue
                box = LD(init(t.b(THIS)))
                judge(ck, f, it, R, [('', '^M?ini', False, src.get(A + 'aabb', 'min', box), 'minimum corner'), ('', '^M?axi|Maxi', False, src.get(A + 'aabb', 'max', box), 'maximum corner')])
                if not R.ok:
                    continue
                ck.require(len(calls) == 1 if len(calls) < 2 else None, f, 'children printed', 'calls not understood' if calls else 'none printed')
                for c, loops, end in calls:
                    if len(loops) != 1:
                        ck.require(None, f, 'children printed', 'outside of a loop')
                        continue
                    L = it.loops[loops[-1]]
                    r, iv = L.get('range'), L.get('iv')
                    ok = None if r is None or iv is None else r[0] is Int(0) and r[1] is t.n(THIS) and c.a[0].a[0] is t.child(THIS, iv)
                    if ok:
                        ok = all(any(c2[2] is e for c2 in calls) for e in L['ends'])
                    ck.require(ok, f, 'every child printed', '%s for %s' % (show(c)[:60], r and ', '.join(show(x)[:40] for x in r)))
