"""Rules about the ground classes, copies, comparisons and shared state."""
from .base import *
from .shell import J, veq, deref, facts_text
from .rib import accpath, at, add, sub, mul, call
from .mesh import BOX, zero
from .tree import Box, decide, implied, compare
from engine.order import explore, consistent, verdict, TooBig
from engine.norm import Norm

FLAT, TRI, PLANE = 'enve::ground::flat', 'enve::triangleground', 'acme::plane'
AXS = (0, 1, 2)


def roles(f):
    """positions of the parameters of a ground constructor by type"""
    r = {'real': [], 'int': [], 'vec': [], 'arr': [], 'plane': []}
    for i, q in enumerate(f['params']):
        t = q['t']
        s = strip(t)
        if s == 'double':
            r['real'].append(i)
        elif s in ('int', 'unsigned int', 'long', 'unsigned long'):
            r['int'].append(i)
        elif 'plane' in s:
            r['plane'].append(i)
        elif t.rstrip().endswith('*') or '[' in t:
            r['arr'].append(i)
        else:
            r['vec'].append(i)
    return r


def ground_ctors(ck):
    ck.rule = """Abstract interpretation of every value constructor of the grounds: a normal exit implies friction >= 0 and, for a flat, a normal
    with positive vertical part; an exception is thrown only if one of these fails; the stored friction, origin and normal are the
    given ones (the normal scaled to unit length) and the read-outs return the stored values."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        n = 0
        for cls in (FLAT, TRI):
            for f in p.fn(cls + '::' + cls.split('::')[-1]):
                if f.get('implicit') or not f['params'] or f.get('copy') or any(cls in q['t'] for q in f['params']):
                    continue
                r = roles(f)
                if not r['real']:
                    continue
                n += 1
                it = ck.run(f)
                fi = r['real'][0]
                fr = init(P(it, fi))
                conds = [mkop('<=', Int(0), fr)]
                if cls == FLAT:
                    if r['plane']:
                        pl = P(it, r['plane'][0])
                        o, nv = init(at(p, PLANE, 'origin', pl)), init(at(p, PLANE, 'normal', pl))
                    elif len(r['vec']) >= 2:
                        o, nv = init(P(it, r['vec'][0])), init(P(it, r['vec'][1]))
                    else:
                        xs = [init(P(it, i)) for i in r['real'][1:]]
                        o, nv = mk('vec', *xs[:3]), mk('vec', *xs[3:6])
                    conds.append(mkop('<', Int(0), it.comp(nv, Int(2))))
                ck.require(True if it.rets else False, f, 'valid data are accepted')
                for s, v in it.rets:
                    for c, w in zip(conds, ('the friction is not negative', 'the normal points upwards')):
                        ck.require(implied(it, s, c), f, 'refused unless ' + w, facts_text(s))
                    got = it.load(s, at(p, cls, 'friction', THIS))
                    ck.require(veq(got, fr, False), f, 'the friction is the given one', show(got))
                    if cls == FLAT:
                        got = it.load(s, at(p, cls, 'origin', THIS))
                        ck.require(veq(got, o, True), f, 'the plane passes through the given point', show(got))
                        got = it.load(s, at(p, cls, 'normal', THIS))
                        ck.require(veq(got, call('normalized', nv), True), f, 'the normal is the given one, of unit length', show(got))
                ok = mkop('&&', *conds) if len(conds) > 1 else conds[0]
                for s, w in it.thrown:
                    ck.require(implied(it, s, mknot(ok)), f, 'valid data are not refused', facts_text(s))
        if not n:
            raise AnalysisBroken('ground constructors not found')


def not_down(it, s, nv):
    """the path allows no normal with a negative third component (False: there is a value the path lets through)"""
    r = implied(it, s, mkop('<=', Int(0), it.comp(nv, Int(2))))
    if r is not None:
        return r
    up, n = True, nv
    while n.op == 'op' and n.a[0] == 'neg':
        up, n = not up, n.a[1]
    xyz = [it.comp(n, Int(k)) for k in range(3)]
    conds = [(t, w) for t, w in s.facts.items() if contains(t, n) or any(contains(t, c) for c in xyz)]
    for z in (-1.0, -0.8, -0.6, -0.28, -0.1, -1e-2, -2e-3, -5e-4, -1e-4, -1e-5, -2e-6):
        r = (1 - z * z) ** 0.5
        for x, y in ((0.6 * r, 0.8 * r), (-0.6 * r, 0.8 * r), (0.6 * r, -0.8 * r), (-0.6 * r, -0.8 * r)):
            sub = {c: Real(v if up else -v) for c, v in zip(xyz, (x, y, z))}
            out = [(it.truth(State(), subst(t, sub)), w) for t, w in conds]
            if any(r1 is not None and r1 is not w for r1, w in out):
                continue
            if all(r1 is not None for r1, w in out):
                return False
    return None


def triangle_data(ck):
    ck.rule = """Abstract interpretation of the triangle constructors: the vertices are the given points in order, the id the given one; the
    normal is the unit cross product of two edges or its opposite, whichever does not point down on that path; the box is the
    componentwise hull of the three vertices (case analysis over their order) and carries the id; the read-outs return these."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        n = 0
        for f in p.fn(TRI + '::triangleground'):
            if f.get('implicit') or not f['params'] or any(TRI in q['t'] for q in f['params']):
                continue
            r = roles(f)
            if not r['int'] or not r['real']:
                continue
            n += 1
            it = ck.run(f)
            if r['arr']:
                b = LD(init(P(it, r['arr'][0])))
                pts = [init(LI(b, Int(i))) for i in range(3)]
            elif len(r['vec']) == 3:
                pts = [init(P(it, i)) for i in r['vec']]
            else:
                xs = [init(P(it, i)) for i in r['real'][1:]]
                pts = [mk('vec', *xs[3 * i:3 * i + 3]) for i in range(3)]
            ident = init(P(it, r['int'][0]))
            n0 = call('normalized', call('cross', sub(pts[1], pts[0]), sub(pts[2], pts[0])))
            vl = accpath_vertex(p)
            bb = at(p, TRI, 'bbox', THIS)
            B = Box(p, bb)
            for s, v in it.rets:
                for i in range(3):
                    got = it.load(s, LI(vl, Int(i)))
                    ck.require(veq(got, pts[i], True), f, 'vertex %d is the given point' % i, show(got))
                got = it.load(s, at(p, TRI, 'id', THIS))
                ck.require(veq(got, ident, False), f, 'the triangle carries the given id', show(got))
                got = it.load(s, at(p, BOX, 'id', bb))
                ck.require(veq(got, ident, False), f, 'the box carries the id of the triangle', show(got))
                nv = it.load(s, at(p, TRI, 'normal', THIS))
                up = veq(nv, n0, True)
                ok = up if up is True else True if veq(nv, mkop('neg', n0), True) is True else up
                ck.require(ok, f, 'the normal is perpendicular to the edges, of unit length', show(nv))
                ck.require(not_down(it, s, nv) if ok is True else None if ok is None else True, f, 'the normal does not point down',
                           '%s under %s' % (show(nv), facts_text(s)))

            def ext(a, xs, low):
                m = a.num(xs[0])
                for x in xs[1:]:
                    y = a.num(x)
                    sg = a.sgn(y - m)
                    if sg != 0 and (sg < 0) == low:
                        m = y
                return m
            for nm, l, low in (('lower', B.lmin, True), ('upper', B.lmax, False)):
                for k in AXS:
                    seen, ex = set(), []
                    for s, v in it.rets:
                        t = it.comp(it.load(s, l), Int(k))
                        if t not in seen:
                            seen.add(t)
                            ex.append((s, t))
                    decide(ck, it, f, 'the box is the hull of the vertices: %s corner, %s' % (nm, 'xyz'[k]), lambda a: ext(a, [it.comp(x, Int(k)) for x in pts], low),
                           exits=ex, axis=k, got=lambda a, s, v: a.num(v))
        if not n:
            raise AnalysisBroken('triangle constructors not found')
        # read-outs
        for m in ('vertex', 'operator[]'):
            for f in p.fn(TRI + '::' + m):
                it = ck.run(f)
                for s, v in it.rets:
                    want = LI(accpath_vertex(p), init(P(it, 0)))
                    ck.require(v is addr(want) or (deref(it, (s, v)) is init(want)) or (None if poisoned(v) else False), f, 'vertex i is vertex i', show(v))


def accpath_vertex(p):
    """location of the vertex array of a triangle"""
    nm = [f['n'] for _, f in p.all_fields('acme::triangle') if '[' in f['t'] or 'array' in f['t']]
    if len(nm) != 1:
        raise AnalysisBroken('vertices of a triangle not found')
    return LF(THIS, nm[0])


# ------------------------------------------------------------ copy / isApprox
def leaves(p, rec, loc):
    """(text, location) of every scalar / vector member of a record, arrays unrolled"""
    r = []
    for _, f in p.all_fields(rec):
        t = f['t']
        l = LF(loc, f['n'])
        m = re.search(r'\[(\d+)\]', t)
        st = strip(re.sub(r'\[\d+\]', '', t))
        if m:
            for i in range(int(m.group(1))):
                r += [('%s[%d]%s' % (f['n'], i, '.' + n if n else ''), x) for n, x in leaves(p, st, LI(l, Int(i)))] if p.all_fields(st) else [('%s[%d]' % (f['n'], i), LI(l, Int(i)))]
        elif st in p.records and p.all_fields(st) and not st.startswith('std::'):
            r += [('%s.%s' % (f['n'], n), x) for n, x in leaves(p, st, l)]
        else:
            r.append((f['n'], l))
    return r


import re


def atoms_of(t, acc):
    if t.op == 'op' and t.a[0] in ('&&', '||', '!'):
        for x in t.a[1:]:
            atoms_of(x, acc)
    elif t.op == 'ite':
        for x in t.a:
            atoms_of(x, acc)
    elif t.op not in ('bool',):
        acc.add(t)
    return acc


def prop_eval(t, env):
    if t in env:
        return env[t]
    if t.op == 'bool':
        return bool(t.a[0])
    if t.op == 'ite':
        c = prop_eval(t.a[0], env)
        return None if c is None else prop_eval(t.a[1] if c else t.a[2], env)
    if t.op == 'op' and t.a[0] == '!':
        x = prop_eval(t.a[1], env)
        return None if x is None else not x
    if t.op == 'op' and t.a[0] in ('&&', '||'):
        xs = [prop_eval(x, env) for x in t.a[1:]]
        stop = t.a[0] == '||'
        return stop if stop in xs else None if None in xs else not stop
    return None


def copies(ck):
    ck.rule = """Value comparison over every data member (inherited and nested ones, arrays unrolled): after copy each member equals the source's
    (a unit normal may be normalised again); isApprox is the conjunction of one comparison per member of the same member of both
    objects within the given tolerance - decided by evaluating the returned expression of all exits with each comparison in turn
    made false. Members derived from others (id, normal and box of a triangle; id and position of a box) need not be compared."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        n = 0
        for q in sorted(p.byname):
            m = q.split('::')[-1]
            rec = q[:-len(m) - 2]
            if rec not in p.records or rec == 'enve::ground::mesh':
                continue
            if m == 'copy':
                for f in p.byname[q]:
                    if len(f['params']) == 1 and strip(f['params'][0]['t']) == rec:
                        n += 1
                        it = ck.run(f)
                        for s, v in it.rets:
                            for (nm, l), (_, o) in zip(leaves(p, rec, THIS), leaves(p, rec, P(it, 0))):
                                got = it.load(s, l)
                                ok = got is init(o)
                                if not ok:
                                    ok = veq(got, init(o), True) or veq(got, call('normalized', init(o)), True)
                                    if ok is not True and (got is init(l)):
                                        ok = False
                                ck.require(ok, f, 'copy takes over %s' % nm, show(got))
            if m == 'isApprox':
                for f in p.byname[q]:
                    if len(f['params']) == 2 and strip(f['params'][0]['t']) == rec and strip(f['params'][1]['t']) == 'double':
                        n += 1
                        approx(ck, p, f, rec)
        if not n:
            raise AnalysisBroken('no copy or comparison found')


DERIVED = {TRI: ('id', 'normal', 'bbox'), BOX: ('id', 'pos')}


def approx(ck, p, f, rec):
    it = ck.run(f)
    other, tol = P(it, 0), init(P(it, 1))
    mine, his = leaves(p, rec, THIS), leaves(p, rec, other)
    skip = set()
    for cls, accs in DERIVED.items():
        if cls in p.bases(rec):
            for a in accs:
                d = at(p, cls, a, THIS)
                skip |= {nm for nm, l in mine if l is d or under(l, d)}
    exits = [(s, deref(it, (s, v))) for s, v in it.rets]
    ats = set()
    for s, v in exits:
        atoms_of(v, ats)
        for c in s.facts:
            atoms_of(c, ats)
    field = {}     # atom -> (names, polarity)
    unknown = False
    for t in ats:
        a = {nm for nm, l in mine if contains(t, init(l))}
        b = {nm for (nm, _), (_, l) in zip(mine, his) if contains(t, init(l))}
        pol = True
        if t.op == 'op' and t.a[0] in ('<', '<='):
            pol = contains(t.a[2], tol) or not contains(t.a[1], tol)
        if len(a) == 1 and a == b:
            field[t] = (a.pop(), pol)
            ck.require(contains(t, tol), f, '%s is compared within the given tolerance' % field[t][0], show(t))
        elif poisoned(t):
            unknown = True
        elif contains(t, tol) and (not a or not b):
            field[t] = ('', pol)       # compares nothing of one of the objects
        elif len(a) == 1 and len(b) == 1:
            ck.require(False, f, 'the same member of both objects is compared', '%s with %s' % (a.pop(), b.pop()))
            return
        else:
            unknown = True

    def value(false_atoms):
        env = {t: (pol if t not in false_atoms else not pol) for t, (_, pol) in field.items()}
        res = set()
        for s, v in exits:
            ok = True
            for c, w in s.facts.items():
                x = prop_eval(c, env)
                if x is not None and x != w:
                    ok = False
            if ok:
                res.add(prop_eval(v, env))
        return res
    r = value(())
    ck.require(True if r == {True} else False if r == {False} and not unknown else None, f, 'objects equal in all members are approximately equal', str(r))
    by = {}
    for t, (nm, _) in field.items():
        by.setdefault(nm, []).append(t)
    for nm, l in mine:
        if nm in skip:
            continue
        if nm not in by:
            ck.require(None if unknown else False, f, 'objects that differ in %s are not approximately equal' % nm, '%s is not compared' % nm)
            continue
        for t in by[nm]:
            r = value((t,))
            ck.require(True if r == {False} else False if r == {True} and not unknown else None, f, 'objects that differ in %s are not approximately equal' % nm, show(t))
        cs = {x.a[1].a[0] for t in by[nm] for x in subterms(t) if x.op == 'comp' and x.a[0] is init(l) and x.a[1].op == 'int'}
        if cs and len(cs) == len(by[nm]) and len(cs) < 3 and not unknown:
            ck.require(False, f, 'objects that differ in %s are not approximately equal' % nm, 'only components %s are compared' % sorted(cs))


def under(l, d):
    while l is not d:
        if l.op in ('F', 'I') and l.a:
            l = l.a[0]
        else:
            return False
    return True


# --------------------------------------------------------------- shared state
def shared_state(ck):
    ck.rule = """Effect analysis over the whole program: no data member is mutable and no const_cast occurs; every non-constant variable of static
    storage is either never written after its initialisation or never read (the dummy outputs) - except the object handles of the
    Simulink block, which are its state by design; const members write nothing reachable through this, also not through shared
    pointers (stores, non-const calls and non-const references bound to such objects)."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        for r in p.records.values():
            for fl in r['fields']:
                site = '%s:%s' % (p.rel(r.get('file', '')), fl.get('l', '?'))
                ck.require_at(not fl.get('mutable'), site, '%s|%s' % (r['n'], fl['n']), '%s::%s is not mutable' % (r['n'], fl['n']))
        use = {}      # global -> [(fn, node, written)]

        def visit(f, n, written):
            if isinstance(n, list):
                for x in n:
                    visit(f, x, False)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'constcast':
                ck.require(False, f, 'constness is not cast away', '', n)
            if k == 'ref' and n.get('dk') in ('global', 'slocal') and not n.get('darg'):
                use.setdefault(n['d'], []).append((f, n, written))
                return
            if k in ('asg', 'asgop'):
                visit(f, n['a'], 'w' if k == 'asg' else 'rw')
                visit(f, n['b'], False)
                return
            if k == 'decl':
                for v in n['v']:
                    vt = v['t'].strip()
                    visit(f, v.get('init'), 'rw' if vt.endswith('&') and 'const ' not in vt else False)
                return
            if k in ('call', 'ctor'):
                w = k == 'call' and not n.get('const') and n.get('obj') is not None and not (n.get('n', '').startswith('std::') and n['n'].split('::')[-1] in ('at', 'find', 'begin', 'end', 'front', 'back', 'data', 'get'))
                w = 'rw' if w else False
                if n.get('obj') is not None:
                    visit(f, n['obj'], w)
                for a, t in zip(n.get('a', []), list(n.get('pt', [])) + [''] * 99):
                    visit(f, a, 'w' if t.rstrip().endswith('&') and 'const ' not in t else False)
                if n.get('indirect'):
                    visit(f, n['indirect'], False)
                return
            if k in ('mem', 'pmem', 'cast', 'upcast', 'dyncast', 'reinterpret'):
                if n.get('cstyle') and n.get('st', '').startswith('const ') and 'const' not in n.get('tw', '') and n['tw'].rstrip().endswith(('*', '&')):
                    ck.require(False, f, 'constness is not cast away', '%s from %s' % (n['tw'], n['st']), n)
                visit(f, n.get('e') or n.get('b'), written)
                return
            if k == 'sub':
                visit(f, n['a'], written)
                visit(f, n['b'], False)
                return
            if k == 'un' and n.get('op') in ('++', '--', '&'):
                visit(f, n.get('e'), 'rw')
                return
            for kk, v in n.items():
                if isinstance(v, (dict, list)):
                    visit(f, v, False)
        for f in p.funcs.values():
            visit(f, f.get('body'), False)
            visit(f, f.get('inits', []), False)
        for g in p.globals.values():
            t = g['t'].strip()
            if g.get('const') or t.endswith('&') and t.startswith('const ') or t.startswith('const ') and not t.endswith(('*', '&')):
                continue
            us = use.get(g['u'], [])
            loc = p.rel(g.get('file', '')) if g.get('file') else ''
            if loc.startswith('sfun/') or us and all(p.rel(f['file']).startswith('sfun/') for f, _, _ in us):
                continue
            wr = [(f, n) for f, n, w in us if w]
            if not any(w in (False, 'rw') for _, _, w in us):
                wr = []        # outputs nobody reads
            f, n = wr[0] if wr else (None, None)
            ck.require_at(not wr, ck.site(f, n) if f else g['n'], 'global|' + g['n'], 'static variable %s is not shared between calls' % g['n'], 'it is changed here')
        # const members
        bad = {}

        class H(Hooks):
            fn = None

            def note(self, what, node, fr):
                bad.setdefault((self.fn['u'], what), (self.fn, node))

            def root(self, loc):
                """'own' if loc lies in the object reached by a pointer stored in this"""
                via = False
                while True:
                    if loc.op in ('F', 'I') and loc.a:
                        loc = loc.a[0]
                        continue
                    if loc.op == 'D':
                        t = loc.a[0]
                        if t.op == 'init':
                            via = True
                            loc = t.a[0]
                            continue
                        return False
                    return loc is THIS and via

            def call(self, it, s, node, fr, fn, this, args, dry):
                if dry or node.get('k') == 'ctor':
                    return
                if this is not None and this.op in ('F', 'I', 'D') and self.root(this) and not node.get('const') and not node.get('n', '').startswith('std::') and (node.get('f') in it.prog.funcs or True):
                    nm = node.get('n', '')
                    tgt = it.prog.funcs.get(node.get('f'))
                    if tgt is not None and not tgt.get('const') and tgt.get('kind') == 'method':
                        self.note('calls %s' % nm, node, fr)
                for a, t in zip(args, node.get('pt', [])):
                    if t.rstrip().endswith('&') and 'const ' not in t and a[0] == 'l' and self.root(a[1]):
                        self.note('passes an owned object to be written to %s' % node.get('n'), node, fr)

            def opaque(self, it, s, node, fr, name, this, args, dry):
                self.call(it, s, node, fr, None, this, args, dry)

            def store(self, it, s, node, fr, loc, val, dry):
                if not dry and self.root(loc):
                    self.note('writes %s' % show(loc), node, fr)
        n = 0
        for f in p.funcs.values():
            if not f.get('const') or f.get('kind') != 'method' or f.get('implicit') or not f.get('body'):
                continue
            h = H()
            h.fn = f
            n += 1
            before = len(bad)
            it = ck.run(f, hooks=h, policy=lambda g: False)
            ck.require(len(bad) == before, f, 'a const member changes nothing it refers to', '; '.join(w for (u, w) in bad if u == f['u']))
        if not n:
            raise AnalysisBroken('no const members found')
