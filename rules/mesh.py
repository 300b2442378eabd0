"""Rules about the triangular ground: file load, boxes and tree, box query."""
from .base import *
from engine.ident import Ident, Skip
from .shell import J, veq, deref, methods, facts_text
from .rib import accpath, at, add, sub, mul, call

MESH = 'enve::ground::mesh'
TRI = 'enve::triangleground'
BOX = 'acme::aabb'
TREE = 'acme::AABBtree'


class Mesh:
    def __init__(self, p):
        self.p = p
        self.tris = LF(THIS, field_of_type(p, MESH, lambda t: 'vector' in t and 'triangleground' in t, 'the triangles'))
        self.boxes = LF(THIS, field_of_type(p, MESH, lambda t: 'vector' in t and 'aabb' in t, 'the boxes'))
        self.tree = LF(THIS, field_of_type(p, MESH, lambda t: 'AABBtree' in t, 'the tree'))
        self.fverts = field_of_type(p, 'acme::triangle', lambda t: 'point' in t or 'Matrix' in t, 'the vertices')

    def vert(self, tri, k):
        return LI(LF(tri, self.fverts), Int(k))


def loaders(p):
    r = [f for f in methods(p, MESH) if f.get('acc', 'public') == 'public' and strip(f.get('ret', 'bool')) == 'bool'
         and f['params'] and 'string' in f['params'][0]['t'] and f['n'].split('::')[-1] == 'load']
    if len(r) < 2:
        raise AnalysisBroken('file loaders of the mesh not found')
    return r


def mesh_summaries(p):
    """string helpers: functions of the line alone; tree construction: remember what the tree was built from"""
    summ = {}

    def split(it, s, e, fr, obj, args):
        s = s.copy()
        src = it.argval(s, args[0])
        for a in args:
            if a[0] == 'l' and 'vector' in a[2]:
                it.alias_kill(s, a[1])
                it.kill(s, a[1])
                s.env[a[1]] = mk('toks', src)
        return [(s, VOID)]
    for f in p.fn(MESH + '::split'):
        summ[f['u']] = split
    for nm in ('tail', 'firstToken'):
        def g(it, s, e, fr, obj, args, nm=nm):
            return [(s, call(nm, it.argval(s, args[0])))]
        for f in p.fn(MESH + '::' + nm):
            summ[f['u']] = g

    def build(it, s, e, fr, obj, args):
        s = s.copy()
        s.env[mk('V', 'p:ghost', 'built')] = mk('built', obj, *content(it, s, args[0][1]))
        return [(s, VOID)]
    for f in p.fn(TREE + '::build'):
        summ[f['u']] = build
    return summ


def content(it, s, loc):
    return it.load(s, loc), it.size_of(s, loc), s.env.get(LF(loc, '#ver'), Int(0))


def left_by(it, got, c):
    """the content a loop left in c, wherever it was moved since"""
    n, v = got[1], got[2]
    return n.op == 'phi' and v.op == 'phi' and n.a[0] == v.a[0] and n.a[1] is LF(c, '#size') and v.a[1] is LF(c, '#ver') and \
        any(e.env.get(c) is got[0] for e in it.loops.get(n.a[0], {}).get('ends', ()))


def only(t, conv):
    """a comparison of an arithmetic expression in the number with a constant or with the number of nodes"""
    return t.op == 'op' and t.a[0] in ('<', '<=', '==') and (not contains(t.a[1], conv) or not contains(t.a[2], conv))


def number_holds(t):
    try:
        x, y = Ident(1).s(t.a[1]), Ident(1).s(t.a[2])
    except (Skip, AttributeError):
        return None
    if any(z.op in ('init', 'fld', 'size', 'phi') for z in subterms(t)):
        return None
    return {'<': x < y, '<=': x <= y, '==': x == y}[t.a[0]]


def other_number(it, s, idx, want, conv):
    """some number in the file that passes the tests on the path is taken for another one"""
    facts = [(t, w) for t, w in s.facts.items() if contains(t, conv)]
    for n in (1, 2, 7, -1, -2, -7, 0, 100000):
        m = {conv: Int(n)}
        try:
            if Ident(1).s(subst(idx, m)) == Ident(1).s(subst(want, m)):
                continue
        except Skip:
            continue
        if all(number_holds(subst(t, m)) in (None, w) and only(t, conv) for t, w in facts):
            return True
    return False


def placed(it, val, pose):
    """the value is the pose applied to the first three words of the line, each read as a double"""
    tk = sorted(set(tokens(val)), key=lambda x: x[0] if x[0] is not None else -1)
    if [n for n, _ in tk] != [0, 1, 2]:
        return False if tk and all(n is not None for n, _ in tk) and not any(x.op == 'phi' and x is not None for n, c in tk for x in subterms(c) if x.op == 'phi') else None
    if any(c.a[0] in ('stof', 'strtof') for _, c in tk if c.op == 'call'):
        return False
    x = val
    while x.op == 'setc':
        if x.a[2].op in ('int', 'real') and (contains(x.a[0], pose) or contains(x.a[0], pose.a[0])):
            return False        # a coordinate set to a constant afterwards
        x = x.a[0]
    m = {}
    for x in subterms(val):
        if x.op == 'setc':
            m[x] = mk('vec', *[it.comp(x, Int(k)) for k in range(3)])
    got = val
    for x in sorted(m, key=lambda y: -len(list(subterms(y)))):
        if contains(got, x):
            got = subst(got, {x: m[x]})
    lin, tra = init(LF(pose.a[0], '@linear')), init(LF(pose.a[0], '@translation'))
    if got.op == 'op' and got.a[0] == '+' and len(got.a) == 3:
        for t, m in (got.a[1:], got.a[:0:-1]):
            if t is tra and m.op == 'op' and m.a[0] == 'm*' and m.a[1] is lin:
                got = mk('op', 'm*', pose, m.a[2])
    want = mkop('m*', pose, mk('vec', *[c for _, c in tk]))
    r = veq(got, want, True)
    if r is None and got.op == 'op' and got.a[0] == 'm*' and got.a[1] is pose and got.a[2].op == 'vec' and not any(poisoned(c) and not tokens(c) for c in got.a[2].a):
        return all(a is c for a, (_, c) in zip(got.a[2].a, tk))
    if r is None and not (contains(val, pose) or any(x.op == 'init' and contains(x, pose.a[0]) for x in subterms(val))):
        return False
    if r is None and got.op == 'op' and got.a[0] == 'm*' and 'linear' in str(got.a[1]) and not contains(got, pose) \
            and [c for _, c in tk] == [it.comp(got.a[2], Int(k)) for k in range(3)]:
        return False        # turned, not moved
    return r


def tokens(t):
    """(token number, conversion) pairs inside a term"""
    r = []
    for x in subterms(t):
        if x.op == 'call' and x.a[0] in ('stoi', 'stol', 'stod', 'stof', 'atoi', 'atof', 'strtod', 'strtol') and x.a[1].op == 'idx' \
                and x.a[1].a[0].op == 'toks' and x.a[1].a[1].op == 'int':
            r.append((x.a[1].a[1].a[0], x))
    return r


def toks_of(t):
    return {x for x in subterms(t) if x.op == 'toks'}


STREAM = ('is_open', 'operator bool', 'operator!', 'getline', 'good', 'fail', 'eof', 'bad')


def odd_predicate(s):
    """some path condition is an uninterpreted predicate (not the state of the stream)"""
    for t in s.facts:
        if t.op == 'call' and not any(w in str(t.a[0]) for w in STREAM):
            return True
        if t.op == 'fresh' and not any(w in str(t.a[0]) for w in STREAM):
            return True
    return False


def stream_test(t):
    """True / False: the term is true exactly if the stream is good / has failed; None: something else"""
    n = str(t.a[0]).split('::')[-1] if t.op == 'call' else ''
    if n in ('good', 'eof') and 'getline' in show(t):
        return None     # the last line of a file without a final line end would be lost
    if n in ('operator bool', 'good'):
        return True
    if n in ('operator!', 'fail', 'eof', 'bad'):
        return False
    if t.op == 'op' and t.a[0] == '!':
        r = stream_test(t.a[1])
        return None if r is None else not r
    if t.op == 'fresh' and 'getline' in show(t):
        return True
    return None


class Watch(Hooks):
    def __init__(self):
        self.subs, self.puts = [], []

    def index(self, it, s, node, fr, cont, idx, dry):
        if not dry and fr.fn is not None and (fr.fn.get('cls') or '') == MESH:
            self.subs.append((s.copy(), fr.fn, node, cont, idx))

    def store(self, it, s, node, fr, loc, val, dry):
        if not dry and loc.op == 'I' and len(loc.a) == 2 and loc.a[1] != '@':
            if val.op == 'objat':
                val = it.load(s, val.a[0])
            self.puts.append((s.copy(), fr.fn if fr else None, node, loc, val))


def in_range(it, s, cont, idx):
    n = it.size_of(s, cont)
    lo = it.truth(s, mkop('<=', Int(0), idx))
    hi = it.truth(s, mkop('<', idx, n))
    if lo is True and hi is True:
        return True
    if lo is False or hi is False:
        return False
    if it.truth(s, mkop('==', idx, mkop('-', n, Int(1)))) is True and it.truth(s, mkop('==', Int(0), n)) is False:
        return True
    return None


def file_load(ck):
    ck.rule = """Abstract interpretation of both mesh file loaders, one generic line of the file (any content): every subscript is within the
    bounds of its container on every path (node numbers read from the file included); a triangle is built from the nodes named by
    its tokens 0, 1, 2 (less one in OBJ), in this order, and carries the friction token or argument; a node is the given pose
    applied to its tokens 0, 1, 2; the mesh ends up holding exactly the vector of triangles built."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        M = Mesh(p)
        for f in loaders(p):
            w = Watch()
            it = ck.run(f, summaries=mesh_summaries(p), hooks=w)
            ck.require(bool(it.rets), f, 'some normal exit exists')
            friction = [q['n'] for q in f['params'] if strip(q['t']) == 'double']
            pose = [q['n'] for q in f['params'] if 'Transform' in q['t'] or 'affine' in q['t']][0]
            pose = init(it.params[pose])
            # subscripts
            for s, fn, node, cont, idx in w.subs:
                if (node.get('n') or '').endswith('::at'):
                    continue
                r = in_range(it, s, cont, idx)
                what = 'subscript of %s in bounds' % ('the nodes' if tokens(idx) else show(cont).split('.')[-1].split('#')[0])
                if r is None:
                    r = False if (tokens(idx) or toks_of(it.load(s, cont))) and not related(it, s, cont, idx) and not odd_predicate(s) else None
                ck.require(r, f, what, '%s[%s] under %s' % (show(cont), show(idx), facts_text(s)), node)
            # triangles and nodes
            nt = nn = 0
            conts = set()
            for s, fn, node, loc, val in w.puts:
                if val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == TRI:
                    h = val.a[0]
                    nt += 1
                    conts.add(loc.a[0])
                    nodes_ = {c for x, _, _, c, i in w.subs if tokens(i)}
                    for k in range(3):
                        v = it.load(s, M.vert(h, k))
                        tk = {t for t in tokens(v)}
                        good = None
                        if len(tk) == 1:
                            (num, conv), = tk
                            want = conv if not friction else sub(conv, Int(1))
                            good = False
                            for c in nodes_:
                                if num == k and any(veq(v, it.load(s, LI(c, want)), True) for want in (want,)):
                                    good = True
                            if good is False and num == k and poisoned(v) and not (v.op in ('sel', 'idx') and it.linear(v.a[1])[0] is conv):
                                good = None
                                if v.op in ('sel', 'idx') and other_number(it, s, v.a[1], want, conv):
                                    good = False
                        elif len(tk) > 1:
                            good = None
                        ck.require(good, f, 'vertex %d of a triangle is the node named by its token %d' % (k, k), show(v), node)
                    mu = it.load(s, at(p, TRI, 'friction', h))
                    if friction:
                        ck.require(veq(mu, init(it.params[friction[0]]), False), f, 'triangle friction is the given one', show(mu), node)
                    else:
                        tk = tokens(mu)
                        ok = len(tk) == 1 and tk[0][0] == 3 and tk[0][1] is mu
                        ck.require(ok, f, 'triangle friction is the fourth token', show(mu), node)
                elif toks_of(val) and any(x.op == 'call' and x.a[0] in ('stod', 'stof', 'atof', 'strtod') for x in subterms(val)) and \
                        (val.op == 'setc' or val.op == 'vec' or val.op == 'op'):
                    nn += 1
                    ok = placed(it, val, pose)
                    ck.require(ok, f, 'a node is the pose applied to its three tokens', show(val), node)
            ck.require(True if nt else None, f, 'triangles are stored by the loader', '')
            ck.require(True if nn else None, f, 'nodes are stored by the loader', '')
            for s, v in it.rets:
                got = content(it, s, M.tris)
                ok = any(all(a is b for a, b in zip(got, content(it, s, c))) or left_by(it, got, c) for c in conts)
                ck.require(ok if ok or len(conts) != 1 else None, f, 'the mesh holds the triangles built', show(got[0]))


def related(it, s, cont, idx):
    """some path condition relates the index to the size of the container in a way the engine does not use"""
    n = it.size_of(s, cont)
    if it.truth(s, mkop('<', idx, n)) is True:
        return True     # bounded above: an unsigned comparison also refuses negative numbers
    for t in s.facts:
        if t.op == 'op' and t.a[0] in ('<', '<=', '=='):
            continue
        if contains(t, n) and (contains(t, idx) or any(contains(t, c) for _, c in tokens(idx))):
            return True
    return False


def refusals(ck):
    ck.rule = """Path facts on every normal exit and at every triangle and node stored by the file loaders: the extension was compared with
    the one of the loader, the mesh is not empty, a node line had exactly three tokens and an element line four (three in OBJ),
    the friction is not negative, comment lines contribute nothing; at well-formed lines and counts some path stores the line and completes."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        M = Mesh(p)
        for f in loaders(p):
            w = Watch()
            it = ck.run(f, summaries=mesh_summaries(p), hooks=w)
            obj = any(strip(q['t']) == 'double' for q in f['params'])
            ext = '.obj' if obj else '.rdf'
            path = init(P(it, 0))
            for s, v in it.rets:
                hit = [t for t in s.facts if any(x.op == 'str' and x.a[0] == ext for x in subterms(t)) and contains(t, path)]
                eq = [t for t in hit if t.op == 'op' and t.a[0] == '==']
                ok = (s.facts[eq[0]] is True if eq else None) if hit else (None if odd_predicate(s) else False)
                ck.require(ok, f, 'a file without the extension %s is refused' % ext, facts_text(s))
                n = it.size_of(s, M.tris)
                ok = it.truth(s, mkop('<', Int(0), n))
                if ok is not True:
                    e0 = it.truth(s, mkop('==', n, Int(0)))
                    ok = True if e0 is False else (None if odd_predicate(s) else False)
                ck.require(ok, f, 'an empty mesh is refused', facts_text(s))
                r = deref(it, (s, v))
                ck.require(r.op == 'bool' and r.a[0] or (None if r.op != 'bool' else False), f, 'a completed load reports success', show(r))
            seen = 0
            for s, fn, node, loc, val in w.puts:
                tri = val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == TRI
                if tri:
                    h = val.a[0]
                    tk = set()
                    for k in range(3):
                        tk |= toks_of(it.load(s, M.vert(h, k)))
                    want = 3 if obj else 4
                    mu = it.load(s, at(p, TRI, 'friction', h))
                    ok = it.truth(s, mkop('<=', Real(0.0), mu))
                    if ok is True and not obj:
                        # tested as read, not made non-negative on the way
                        for _, c in tokens(mu):
                            if c is not mu and it.truth(s, mkop('<=', Real(0.0), c)) is not True:
                                ok = None
                                if any(x.op == 'call' and x.a[0] in ('max', 'abs', 'fabs') and contains(x, c) for x in subterms(mu)):
                                    ok = False
                    if ok is False:
                        ok = None if odd_predicate(s) else False
                    elif ok is None:
                        ok = None if odd_predicate(s) or it.truth(s, mkop('<=', Real(0.0), mu)) is True else False
                    ck.require(ok, f, 'a negative or undefined friction is refused', facts_text(s), node)
                elif toks_of(val) and any(x.op == 'call' and x.a[0] in ('stod', 'stof') for x in subterms(val)) and val.op in ('setc', 'vec', 'op'):
                    tk = toks_of(val)
                    want = 3
                else:
                    continue
                seen += 1
                for t in tk:
                    ok = it.truth(s, mkop('==', mk('size', t), Int(want)))
                    ck.require(ok if ok is not None else (None if odd_predicate(s) else False), f,
                               '%s line must have %d fields' % ('an element' if tri else 'a node', want), facts_text(s), node)
                    line = t.a[0]
                    while line.op == 'call' and line.a[0] in ('tail',):
                        line = line.a[1]
                    kw = [c for c in s.facts for x in subterms(c) if x.op == 'call' and x.a[0] == 'firstToken' and x.a[1] is line]
                    if obj:
                        ok = any(c.op == 'op' and c.a[0] == '==' and s.facts[c] and any(x.op == 'str' and x.a[0] == ('f' if tri else 'v') for x in c.a[1:]) for c in kw)
                        ck.require(ok if ok or kw and not strange(kw) else None, f, 'an %s comes from a line starting with %s' % ('element' if tri else 'node', 'f' if tri else 'v'), facts_text(s), node)
                    else:
                        for ch in '%#{':
                            c0 = [c for c in kw if not s.facts[c] and c.op == 'op' and c.a[0] == '==' and any(x.op == 'int' and x.a[0] == ord(ch) or x.op in ('chr', 'str') and x.a[0] == ch for x in c.a[1:])]
                            ck.require(True if c0 else (None if strange(kw) else False), f, 'comment lines (%s) contribute nothing' % ch, facts_text(s), node)
            ck.require(True if seen else None, f, 'nodes and triangles are stored by the loader')
            welcome(ck, p, M, f, it, w, obj)


def welcome(ck, p, M, f, it, w, obj):
    """nothing well formed is refused: at generic well-formed lines and counts some path reaches the place where the line is stored (the
    load completes); a path counts unless one of its facts is known to fail"""
    from .matlab import ev
    NODES = 7
    stores = {True: [], False: []}
    for s, fn, node, loc, val in w.puts:
        if val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == TRI:
            tk = set()
            for k in range(3):
                tk |= toks_of(it.load(s, M.vert(val.a[0], k)))
            if len(tk) == 1:
                stores[True].append((s, tk.pop()))
        elif val.op in ('setc', 'vec', 'op') and len(toks_of(val)) == 1 and tokens(val):
            stores[False].append((s, toks_of(val).pop()))
    grip = next((init(P(it, j)) for j, q in enumerate(f['params']) if strip(q['t']) in ('double', 'float')), None)

    def reached(s, known):
        got = [(ev(t, known), w_) for t, w_ in s.facts.items() if t.op == 'op']
        if any(r is not None and bool(r) != bool(w_) for r, w_ in got):
            return False
        return True
    for tri, idx, mu in [(True, i, m) for i in ((0, 1, NODES - 1), (NODES - 1, 0, 1), (1, NODES - 1, 0)) for m in (0.0, 0.5, 1.5)] + \
            [(False, x, 0.5) for x in ((-1.5, 0.0, 2e3), (0.0, 7e2, -3e-4), (0.0, 0.0, 0.0))]:
        got = []
        for s, tk in stores[tri]:
            # a path on which another reading of the line was tested as well (node and element at once) says nothing
            if any(x is not tk for t in s.facts for x in toks_of(t)):
                continue

            def known(t, tk=tk):
                if t.op == 'phi' and t.a[1].op == 'F' and t.a[1].a[1] == '#size':
                    return NODES
                if t is grip:
                    return mu
                ts = tokens(t) if t.op == 'call' else []
                if ts and ts[-1][1] is t or any(c is t for _, c in ts):
                    n = next(n for n, c in ts if c is t)
                    if not tri:
                        return idx[n] if n < 3 else None
                    return idx[n] + (1 if obj else 0) if n < 3 else mu
                return None
            got.append(reached(s, known))
        ck.require(True if True in got else None if not got else False, f, 'a well-formed %s line is not refused' % ('element' if tri else 'node'),
                   '%s %s%s' % ('nodes' if tri else 'coordinates', idx, ', friction %g' % mu if tri else ''))
    # as many nodes as triangles: all counts are the same number
    end = []
    held = lambda x: x.op == 'phi' and x.a[1].op == 'F' and x.a[1].a[1] == '#size'
    for s, v in it.rets:
        # the sizes, and what is compared with a size
        same = {x for t in s.facts for y in subterms(t) if y.op == 'op' and y.a[0] in ('==', '<', '<=') and any(held(z) for z in y.a[1:]) for x in y.a[1:] if x.op == 'phi'}

        def known(t):
            return NODES if held(t) or t in same else None
        got = [(ev(t, known), w_) for t, w_ in s.facts.items() if t.op == 'op' and t.a[0] in ('==', '<', '<=') and any(x.op == 'phi' for x in subterms(t))]
        ok = not any(r is not None and bool(r) != bool(w_) for r, w_ in got)
        if any(t.op == 'fresh' and t.a[0] == 'is_open' and w_ is False for t, w_ in s.facts.items()):
            ok = False
        end.append(ok)
    ck.require(True if True in end else None if not end else False, f, 'the load of a well-formed file completes', '; '.join(facts_text(s) for s, v in it.rets)[:400])


def strange(kw):
    """first-token conditions of a form other than comparison with a constant"""
    for c in kw:
        if not (c.op == 'op' and c.a[0] in ('==', '<') and any(x.op in ('int', 'str', 'chr') for x in c.a[1:])):
            return True
    return False


def coherence(ck):
    ck.rule = """Effect analysis of every member of the mesh that writes one of triangles, boxes, tree: at each normal exit there is one box per
    triangle, box i is the hull of triangle i and carries the id i, and the tree was last built from exactly those boxes; copy
    takes over all triangles, clear none, a load those of the file; a refused load leaves all three untouched; no other member,
    and no query, writes them."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        M = Mesh(p)
        wr = 0
        for f in methods(p, MESH):
            if f.get('acc') == 'private' or f.get('dtor') or '~' in f['n'] or f.get('implicit'):
                continue
            name = f['n'].split('::')[-1]
            w = Watch()
            it = ck.run(f, summaries=mesh_summaries(p), hooks=w)
            ctor = name == 'mesh'
            made = 0
            for s, fn, node, loc, val in w.puts:
                if loc.a[0] is not M.boxes and not (val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == BOX):
                    continue
                made += 1
                j = loc.a[1]
                hb = val.a[0] if val.op in ('addr', 'ptr') else LD(val)
                i = it.load(s, at(p, BOX, 'id', hb))
                ok = veq(i, j, False) is True or it.truth(s, mkop('==', i, j)) is True
                ck.require(ok or (None if poisoned(i) and i.op != 'init' else False), f, 'box i carries the position i', '%s at %s' % (show(i), show(j)), node)
                # the triangle standing at that very position
                t = it.load(s, LI(M.tris, i if ok else j))
                ht = t.a[0] if t.op in ('addr', 'ptr') else LD(t)
                lo, hi = (it.load(s, at(p, BOX, nm, at(p, TRI, 'bbox', ht))) for nm in ('min', 'max'))
                if any(it.truth(s, mkop('<', it.comp(hi, Int(k)), it.comp(lo, Int(k)))) is True for k in range(3)):
                    continue        # the box of a triangle is ordered (G02)
                for nm, want in (('min', lo), ('max', hi)):
                    got = it.load(s, at(p, BOX, nm, hb))
                    ck.require(veq(got, want, True), f, 'box i spans triangle i (%s corner)' % nm, '%s, expected %s' % (show(got), show(want)), node)
            for s, v in it.rets:
                touched = [l for l in (M.tris, M.boxes, M.tree) if any(l is k or is_prefix(l, k) for k in s.env)]
                if not touched:
                    continue
                wr += 1
                tree = it.load(s, M.tree)
                tr = tree.a[0] if tree.op in ('addr', 'ptr') else LD(tree)
                b = s.env.get(mk('V', 'p:ghost', 'built'))
                if ctor and not f['params']:
                    ck.require(zero(it, s, it.size_of(s, M.tris)) and zero(it, s, it.size_of(s, M.boxes)), f, 'a new mesh is empty', show(it.size_of(s, M.tris)))
                    continue
                n = it.size_of(s, M.tris)
                nb = it.size_of(s, M.boxes)
                same = it.truth(s, mkop('==', n, nb)) is True or veq(n, nb, False)
                ck.require(same, f, 'one box per triangle', '%s boxes for %s triangles' % (show(nb), show(n)))
                if b is None:
                    ck.require(False, f, 'the tree is rebuilt after a change of the triangles', 'no build on this path')
                    continue
                ok = b.a[0] is tr and all(x is y for x, y in zip(b.a[1:], content(it, s, M.boxes)))
                ck.require(ok, f, 'the tree is built from the boxes of the mesh', show(b))
                z = zero(it, s, n)
                if z is not True and any(l is M.tris for l in touched):
                    x, j = J(it, s, n)
                    got = it.load(x, LI(M.boxes, j)) if x is not None else None
                    fresh = None if got is None else False if got.op == 'init' and contains(got, M.boxes) else True if got.op in ('addr', 'ptr', 'objref') else None
                    ck.require(fresh, f, 'every box is made anew for the changed triangles', 'box i is %s' % (got and show(got)))
                if name == 'copy':
                    src = P(it, 0)
                    sx = subst(M.tris, {THIS: src})
                    ok = veq(n, init(LF(sx, '#size')), False)
                    ck.require(ok, f, 'copy takes over all triangles', show(n))
                    x, j = J(it, s, n)
                    got = it.load(x, LI(M.tris, j))
                    ck.require(veq(got, init(LI(sx, j)), False), f, 'copy takes over triangle i', show(got))
                elif name == 'clear':
                    ck.require(z, f, 'clear leaves no triangle', show(n))
                elif ctor and 'vector' in f['params'][0]['t']:
                    src = P(it, 0)
                    ck.require(veq(n, init(LF(src, '#size')), False), f, 'the mesh takes over all triangles', show(n))
                    x, j = J(it, s, n)
                    got = it.load(x, LI(M.tris, j))
                    ck.require(veq(got, init(LI(src, j)), False), f, 'the mesh takes over triangle i', show(got))
            if name == 'load' or not ctor:
                for th in it.thrown:
                    s = th[0]
                    touched = [k for k in s.env for l in (M.tris, M.boxes, M.tree) if (k is l or is_prefix(l, k)) and not (s.env[k].op == 'init' and s.env[k].a[0] is k)]
                    ck.require(not touched, f, 'a refused operation leaves the mesh as it was', ', '.join(show(k) for k in touched[:4]))
        if wr < 5:
            raise AnalysisBroken('mesh writers not found')


def zero(it, s, n):
    return n.op == 'int' and n.a[0] == 0 or it.truth(s, mkop('==', n, Int(0))) is True


def query(ck):
    ck.rule = """Abstract interpretation of the box query of the mesh with the tree construction and the tree/tree query uninterpreted: the tree
    of the mesh is queried with a tree holding just the given box, into an empty list of pairs, mesh first; the output holds, for
    every pair and nothing else, the triangle named by the mesh-side box; the verdict is whether the output is non-empty."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        M = Mesh(p)
        for f in p.fn(MESH + '::intersection'):
            summ = mesh_summaries(p)
            calls = []

            def build(it, s, e, fr, obj, args):
                s = s.copy()
                l = args[0][1]
                n = it.size_of(s, l)
                s.env[mk('V', 'p:ghost', 'from', obj.id)] = mk('built', n, it.load(s, LI(l, Int(0))))
                return [(s, VOID)]

            def inter(it, s, e, fr, obj, args):
                s = s.copy()
                other = args[0][1]
                lst = args[1][1]
                sw = args[2][1] if len(args) > 2 else FALSE
                calls.append((s.copy(), obj, other, it.size_of(s, lst), sw if args and len(args) > 2 and args[2][0] == 'v' else sw, lst, it.dry))
                it.alias_kill(s, lst)
                it.kill(s, lst)
                s.env[lst] = mk('PAIRS', obj, other)
                return [(s, VOID)]
            for g in p.fn(TREE + '::build'):
                summ[g['u']] = build
            for g in p.fn(TREE + '::intersection'):
                summ[g['u']] = inter
            it = ck.run(f, summaries=summ)
            box = init(P(it, 0))
            out = P(it, 1)
            ck.require(bool(it.rets), f, 'some normal exit exists')
            mtree = LD(init(M.tree))
            for s, obj, other, n0, sw, lst, dry in calls:
                mesh_first = obj is mtree
                ck.require(True if mesh_first or other is mtree else None, f, 'the tree of the mesh is queried', show(obj))
                q = other if mesh_first else obj
                b = s.env.get(mk('V', 'p:ghost', 'from', q.id))
                ok = b is not None and b.a[0].op == 'int' and b.a[0].a[0] == 1 and b.a[1] is box
                ck.require(ok if b is not None else None, f, 'the query tree holds just the given box', show(b) if b else 'not built')
                ck.require(zero(it, s, n0), f, 'the list of pairs starts empty', show(n0))
            ck.require(len({id(c[0]) for c in calls if not c[6]}) >= 1, f, 'the tree is queried')
            for s, v in it.rets:
                n = it.size_of(s, out)
                P_ = [x for c in calls for x in [mk('PAIRS', c[1], c[2])]]
                pairs = P_[0]
                sz = mk('fld', pairs, '#size')
                lst = calls[-1][5]
                sz = it.size_of(s, lst) if lst in s.env else sz
                none = zero(it, s, sz)
                ck.require(True if none and zero(it, s, n) else veq(n, sz, False), f, 'one triangle per overlapping box', '%s for %s pairs' % (show(n), show(sz)))
                if not zero(it, s, n):
                    x, j = J(it, s, n)
                    got = it.load(x, LI(out, j))
                    c = calls[-1]
                    side = 'first' if (c[1] is mtree) != (c[4] is TRUE or c[4].op == 'bool' and c[4].a[0]) else 'second'
                    ok = None
                    if got.op == 'init' and got.a[0].op == 'I' and got.a[0].a[0] is M.tris:
                        k = got.a[0].a[1]
                        idl = accpath(p, BOX, 'id')
                        ok = k.op in ('init', 'fld') and owner(k, idl, pairs, j, side)
                    elif not poisoned(got):
                        ok = False
                    ck.require(ok, f, 'output i is the triangle named by the mesh-side box of pair i', show(got))
                r = deref(it, (s, v))
                t = r.a[0] if r.op == 'bool' else it.truth(s, r)
                if t is None:
                    N = Norm()
                    want = [mkop('<', Int(0), n), mkop('!', mkop('==', n, Int(0))), mkop('<', Int(0), sz), mkop('!', mkop('==', sz, Int(0)))]
                    ok = any(N.s(r).eq(N.s(q)) for q in want) or None
                    if ok is None and not poisoned(r):
                        ok = False
                    ck.require(ok, f, 'the verdict is whether anything was found', show(r))
                else:
                    nz = it.truth(s, mkop('<', Int(0), n))
                    nz = nz if nz is not None else it.truth(s, mkop('<', Int(0), sz))
                    ck.require(t == nz if nz is not None else (None if poisoned(n) else False), f, 'the verdict is whether anything was found', '%s under %s' % (t, facts_text(s)))


def owner(k, idl, pairs, j, side):
    """k is <box id> of the `side` member of pair j"""
    sides = {x.a[1] for x in subterms(k) if x.op in ('fld', 'F') and len(x.a) > 1 and x.a[1] in ('first', 'second')}
    hasj = any(x.op == 'idx' and x.a[0] is pairs and x.a[1] is j for x in subterms(k))
    last = k.a[0].a[1] if k.op == 'init' else k.a[1]
    if not hasj:
        return False if not poisoned(k) else None
    return sides == {side} and last == idl.a[1]


def words(cs, sep=(32,)):
    """maximal runs of characters that are not separators"""
    r, cur = [], ()
    for c in cs:
        if c.op == 'int' and c.a[0] in sep:
            if cur:
                r.append(cur)
            cur = ()
        else:
            cur += (c,)
    return r + ([cur] if cur else [])


def cutting(ck):
    ck.rule = """The line helpers of the loaders are interpreted on lines of known length whose characters are either separators or symbolic letters
    (anything visible): for every arrangement the words cut from the line, and those cut from its tail, must be the maximal runs of
    letters, in order, with the first left out for the tail; the first token must be the first run. The vector of words is replaced, whatever it
    held before."""
    import itertools
    top = 7 if ck.tier == 'thorough' else 5
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        H = {nm: [f for f in p.fn(MESH + '::' + nm) if f.get('body')] for nm in ('split', 'tail', 'firstToken')}
        if not H['split']:
            raise AnalysisBroken('line splitting of the mesh not found')
        for n in range(top + 1):
            for pat in itertools.product((32, None), repeat=n):
                line = tuple(Int(c) if c else mk('letter', i) for i, c in enumerate(pat))
                concrete(ck, p, H, line, True)
            if n <= 4:
                for pat in itertools.product((32, 9, 13, None), repeat=n):
                    if any(c in (9, 13) for c in pat):
                        concrete(ck, p, H, tuple(Int(c) if c else mk('letter', i) for i, c in enumerate(pat)), False)


def concrete(ck, p, H, line, blanks):
    """one line; where the outcome depends on which visible characters it has, the same line with some usual ones"""
    count = lambda v: sum(o[3] == v for o in ck.obl)
    u = count('unknown')
    one_line(ck, p, H, line, blanks)
    k = [i for i, c in enumerate(line) if c.op == 'letter']
    if count('unknown') > u and k and count('violated') < 3 and getattr(ck, 'tried_lines', 0) < 6:
        ck.tried_lines = getattr(ck, 'tried_lines', 0) + 1
        for ch in '019-.+evf/#%{}[]azAZ;,':
            v = count('violated')
            for at_ in (k, k[:1], k[-1:]):
                other = ord('b') if ch != 'b' else ord('c')
                one_line(ck, p, H, tuple(Int(ord(ch)) if i in at_ else Int(other) if i in k else c for i, c in enumerate(line)), blanks)
            if count('violated') > v:
                break


def text(cs):
    return '"' + ''.join({32: ' ', 9: '\\t', 13: '\\r'}.get(c.a[0], chr(c.a[0]) if c.a[0] > 32 else '?') if c.op == 'int' else 'abcdefgh'[c.a[0]] for c in cs) + '"'


def guessed(s):
    """the path depends on a condition that is not known although the whole line is"""
    return any(t.op != 'ran' for t in s.facts)


def cut(ck, f, line):
    """words the splitting function leaves in its output for a line, per exit; None if not known"""
    l = mk('V', 'p1', f['params'][1]['n'] or 'arg1')
    it = ck.run(f, args=[Chars(line), None, Str(' ')], env={LF(l, '#size'): Int(1), LI(l, Int(0)): Str('left over')}, small=40)
    out = []
    for s, v in it.rets:
        k = it.size_of(s, l)
        if k.op != 'int' or guessed(s):
            out.append(None)
            continue
        ws = [letters(it.load(s, LI(l, Int(j)))) for j in range(k.a[0])]
        out.append(None if None in ws else ws)
    return out, it


def one_line(ck, p, H, line, blanks):
    sp = H['split'][0]
    ws = words(line)
    if blanks:
        got, it = cut(ck, sp, line)
        ck.require(bool(got), sp, 'line cut into words', 'refuses the line %s' % text(line))
        for g in got:
            ck.require(None if g is None else [tuple(x) for x in g] == ws, sp, 'line cut into words',
                       'the line %s gives %s' % (text(line), None if g is None else ' '.join(text(x) for x in g) or 'nothing'))
    for f in H['firstToken']:
        it = ck.run(f, args=[Chars(line)], small=40)
        w = words(line, (32, 9, 10, 13))
        w = w[0] if w else ()
        ck.require(bool(it.rets), f, 'first word of a line', 'refuses the line %s' % text(line))
        for s, v in it.rets:
            c = None if guessed(s) else letters(v)
            ck.require(None if c is None else c == w, f, 'first word of a line', 'of %s is %s' % (text(line), None if c is None else text(c)))
    for f in H['tail']:
        if any(c.op == 'int' and c.a[0] == 13 for c in line):
            continue
        it = ck.run(f, args=[Chars(line)], small=40)
        w = words(line, (32, 9))[1:]
        ck.require(bool(it.rets), f, 'line without its first word', 'refuses the line %s' % text(line))
        for s, v in it.rets:
            c = None if guessed(s) else letters(v)
            ck.require(None if c is None else words(c, (32, 9)) == w, f, 'line without its first word', 'of %s is %s' % (text(line), None if c is None else text(c)))


# ------------------------------------------------------------------------ M06
def value(t, env):
    """value of a condition for a concrete first token and concrete loop variables; None: depends on more than that"""
    if t in env:
        return env[t]
    o = t.op
    if o in ('int', 'real', 'bool', 'str'):
        return t.a[0]
    if o == 'call':
        n = str(t.a[0]).split('::')[-1]
        A = [value(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        if not A or not isinstance(A[0], str):
            return None
        if n in ('size', 'length', 'str.size', 'str.length'):
            return len(A[0])
        if n in ('empty', 'str.empty'):
            return len(A[0]) == 0
        if n in ('operator[]', 'str.operator[]', 'at', 'str.at', 'front', 'str.front'):
            i = A[1] if len(A) > 1 else 0
            return None if not isinstance(i, int) else ord(A[0][i]) if 0 <= i < len(A[0]) else 0
        if n in ('compare', 'str.compare') and len(A) == 2 and isinstance(A[1], str):
            return (A[0] > A[1]) - (A[0] < A[1])
        return None
    if o in ('size', 'len') and len(t.a) == 1:
        x = value(t.a[0], env)
        return len(x) if isinstance(x, str) else None
    if o == 'idx' or o == 'sel':
        A = [value(x, env) for x in t.a[:2]]
        if isinstance(A[0], str) and isinstance(A[1], int):
            return ord(A[0][A[1]]) if 0 <= A[1] < len(A[0]) else 0
        return None
    if o == 'op':
        k = t.a[0]
        A = [value(x, env) for x in t.a[1:]]
        if k == '&&':
            return False if False in A else True if all(x is True for x in A) else None
        if k == '||':
            return True if True in A else False if all(x is False for x in A) else None
        if any(x is None for x in A):
            return None
        if k == '!':
            return not A[0]
        if len(A) == 2 and isinstance(A[0], str) == isinstance(A[1], str):
            return {'==': A[0] == A[1], '<': A[0] < A[1], '<=': A[0] <= A[1]}.get(k)
    return None


def posed(val, pose):
    return contains(val, pose) or contains(val, pose.a[0])


def sizes_of(puts, pose):
    """the containers the loader stores nodes and triangles in"""
    N, Tr = set(), set()
    for s, fn, node, loc, val in puts:
        if val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == TRI:
            Tr.add(loc.a[0])
        elif posed(val, pose):
            N.add(loc.a[0])
    return N, Tr


def grammar(ck):
    ck.rule = """Abstract interpretation of both mesh file loaders, one generic line; the loop over the lines becomes a transition system
    over the first token of the line and the loop variables. It is followed from its start on every sequence of section titles,
    comments, blank lines, data lines and unknown labels: comments, blanks and titles add nothing and are not refused, a node line
    adds exactly one node or is refused, an element line exactly one triangle or is refused, and the words of a node or element are
    those of the line just read, after its label where the format has one; triangle k carries the number k."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        M = Mesh(p)
        for f in loaders(p):
            w = Watch()
            it = ck.run(f, summaries=mesh_summaries(p), hooks=w, disj_limit=64)
            obj = any(strip(q['t']) == 'double' for q in f['params'])
            pose = init(it.params[[q['n'] for q in f['params'] if 'Transform' in q['t'] or 'affine' in q['t']][0]])
            N, Tr = sizes_of(w.puts, pose)
            loop = [i for i in it.loops.values() if i.get('ends') and any(LF(t, '#size') in i.get('rec', {}) for t in Tr) and
                    any(x.op == 'call' and x.a[0] == 'firstToken' for e in i['ends'] for t in e.facts for x in subterms(t))]
            if len(N) != 1 or len(Tr) != 1 or len(loop) != 1:
                ck.require(None, f, 'every line counts once, as what it is', 'line loop, nodes or triangles not recognised')
                continue
            transitions(ck, it, f, loop[0], LF(N.pop(), '#size'), LF(Tr.pop(), '#size'), obj)
            line_words(ck, it, f, w, loop[0], M, obj, pose)


def transitions(ck, it, f, loop, nn, nt, obj):
    rec = loop['rec']
    if nn not in rec or nt not in rec:
        ck.require(False if loop['ends'] and nn not in rec else None, f, 'lines of the file add nodes and triangles', 'sizes unchanged in the loop')
        return
    phis = {l: r[0] for l, r in rec.items()}
    if not all(zero_init(rec[x][1]) for x in (nn, nt)):
        ck.require(None, f, 'the lists of nodes and triangles start empty', '%s, %s' % (show(rec[nn][1]), show(rec[nt][1])))
        return
    labels = {x for e in loop['ends'] for t in e.facts for x in subterms(t) if x.op == 'call' and x.a[0] == 'firstToken'}
    start = {}
    for l, r in rec.items():
        v = value(r[1], {})
        if isinstance(v, (bool, str)) or isinstance(v, (int, float)) and l not in (nn, nt):
            start[l] = v
    # variables counted along (their value never decides the kind of a line) stay unknown
    control = {l for l in start if isinstance(start[l], (bool, str)) or
               any(phis[l] in set(subterms(t)) and not any(phis[x] in set(subterms(t)) for x in (nn, nt)) for e in loop['ends'] for t in e.facts) and
               all(value(e.env.get(l, phis[l]), {phis[l]: start[l]}) is not None and e.env.get(l, phis[l]).op == 'int' or e.env.get(l, phis[l]) is phis[l] for e in loop['ends'])}
    start = {l: start[l] for l in control}
    before = {t for t in loop_entry_facts(loop)}
    if obj:
        classes = [('v', 'node'), ('f', 'element')] + [(t, 'skip') for t in ('', '#', '#c', '%', '%c', '\r', 'vn', 'vt', 'vp', 'o', 'g', 's', 'usemtl', 'mtllib', 'l', 'p', 'V', 'F', 'fo', 've', 'fa', 'x', '0', '/', '[')]
    else:
        classes = [('[NODES]', 'nodes'), ('NODES', 'nodes'), ('[ELEMENTS]', 'elements'), ('ELEMENTS', 'elements')] + \
                  [(t, 'skip') for t in ('', '{', '{x', '%', '%c', '#', '#c', '\r')] + [(t, 'data') for t in ('0', '1', '12', '-1', '7.5', 'x', '[x]', '//', '/*', '[NODE]', 'NODE', 'nodes', 'elements') + tuple('!"$&()*+,-./:;<=>?@[]^_|~}')]
    seen, todo = set(), [('none', tuple(sorted(((l.id, v) for l, v in start.items()))), start, ())]
    ok = {}
    while todo:
        sec, key, val, hist = todo.pop()
        if (sec, key) in seen:
            continue
        seen.add((sec, key))
        if len(seen) > 200:
            ck.require(None, f, 'every line counts once, as what it is', 'too many states')
            return
        for tok, cls in classes:
            env = {phis[l]: v for l, v in val.items()}
            for x in labels:
                env[x] = tok
            if cls == 'data':
                cls = {'none': 'skip', 'nodes': 'node', 'elements': 'element'}[sec]
            want = {'node': (1, 0), 'element': (0, 1)}.get(cls, (0, 0))
            nsec = cls if cls in ('nodes', 'elements') else sec
            lab = {'nodes': 'a section title', 'elements': 'a section title', 'node': 'a node line', 'element': 'an element line', 'skip': 'any other line'}[cls]
            where = '%r %s' % (tok, ('in section %s' % sec) if not obj else '')
            found = False
            for e in loop['ends']:
                c, free = compatible(e, env, before)
                if not c:
                    continue
                d = []
                for x in (nn, nt):
                    dv = it.minus(e.env.get(x, phis[x]), phis[x])
                    d.append(dv.a[0] if dv is not None and dv.op == 'int' else None)
                if None in d:
                    ck.require(None, f, '%s adds what it stands for' % lab, '%s: sizes change by %s' % (where, d))
                    continue
                good = tuple(d) == want
                if good:
                    found = True
                ck.require(True if good else False if not strange(free) else None, f, '%s adds what it stands for' % lab,
                           '%s adds %d nodes and %d triangles%s' % (where, d[0], d[1], ' if ' + '; '.join('%s is %s' % (show(t)[:80], w) for t, w in free[-2:]) if free else ''), loop['node'])
                if good:
                    nv = {}
                    for l in val:
                        t = e.env.get(l, phis[l])
                        v = value(t, env)
                        if v is not None:
                            nv[l] = v
                    todo.append((nsec, tuple(sorted(((l.id, v) for l, v in nv.items()))), nv, hist + (tok,)))
            refused = []
            for s, what in it.thrown:
                if any(t in s.facts and any(x in labels for x in subterms(t)) for t in s.facts):
                    c, free = compatible(s, env, before)
                    if c:
                        refused.append(free)
            if want == (0, 0) and not found:
                ck.require(False if not any(strange(x) for x in refused) else None, f, '%s adds what it stands for' % lab, '%s is not passed over' % where, loop['node'])
            elif want == (0, 0) and any(not x for x in refused):
                ck.require(False, f, '%s is not refused' % lab, where, loop['node'])
            elif want != (0, 0) and not found:
                ck.require(False if not any(strange(x) for x in refused) else None, f, '%s adds what it stands for' % lab, '%s adds nothing' % where, loop['node'])
    for kind, y, v in loop.get('others', []):
        labs = any(x in labels for t in y.facts for x in subterms(t))
        ck.require(False if labs else None, f, 'reading goes on to the end of the file', 'left early under %s' % facts_text(y), loop['node'])
    for y in loop.get('exits', []):
        ended = any(stream_test(t) is not None and stream_test(t) is not w for t, w in y.facts.items())
        if not ended:
            why = [t for t in y.facts if 'getline' in show(t) or any(x.op == "phi" for x in subterms(t))]
            ck.require(False if why else None, f, 'reading goes on to the end of the file', 'left where %s' % facts_text(y), loop['node'])
    ck.require(True, f, 'lines of every kind followed', '%d states' % len(seen))


def zero_init(t):
    return t.op == 'int' and t.a[0] == 0


def loop_entry_facts(loop):
    fs = None
    for e in loop['ends']:
        k = {(t, w) for t, w in e.facts.items()}
        fs = k if fs is None else fs & k
    return {t for t, w in fs or ()}


def compatible(e, env, before):
    """(may the path be taken, conditions on it that depend on more than the token and the loop variables)"""
    free = []
    for t, w in e.facts.items():
        v = value(t, env)
        if v is None:
            if t not in before:
                free.append((t, w))
        elif bool(v) is not bool(w):
            return False, free
    return True, free


def strange(free):
    """conditions of a kind the rule does not know"""
    for t, w in free:
        if t.op in ('fresh', 'phi') or any(x.op in ('fresh', 'join', 'mix') and not any(k in str(x.a[0]) for k in STREAM + ('line',)) for x in subterms(t)):
            return True
    return False


def line_words(ck, it, f, w, loop, M, obj, pose):
    """the words converted come from the line just read, behind its label; triangles are numbered in order"""
    for s, fn, node, loc, val in w.puts:
        if val.op in ('addr', 'ptr') and val.a[0].op == 'H' and strip(val.a[0].a[1]) == TRI:
            h, what = val.a[0], 'an element'
            terms = [it.load(s, M.vert(h, k)) for k in range(3)]
            tail = obj
            n = it.load(s, at(it.prog, TRI, 'id', h))
            size = LF(loc.a[0], '#size')
            r = loop['rec'].get(size)
            if r is not None:
                ok = n is r[0] or counts_along(it, loop, n, size)
                ck.require(ok, f, 'triangles are numbered in order', show(n), node)
        elif posed(val, pose):
            what, terms, tail = 'a node', [val], True
        else:
            continue
        for t in terms:
            for num, conv in tokens(t):
                src = conv.a[1].a[0].a[0]
                lab = src.op == 'call' and src.a[0] == 'tail'
                ln = src.a[1] if lab else src
                ok = (lab == tail) if ln.op == 'fresh' else None
                if src.op == 'call' and src.a[0] == 'firstToken':
                    ok = False
                ck.require(ok, f, 'the words of %s are those %s' % (what, 'behind the label' if tail else 'of the whole line'), show(src), node)


def counts_along(it, loop, n, size):
    """an expression of loop variables that starts at 0 and changes exactly as the size does"""
    rec = loop['rec']
    var = {r[0]: (l, r[1]) for l, r in rec.items()}
    used = [x for x in subterms(n) if x in var]
    if not used:
        return False if n.op == 'int' else None
    n0 = subst(n, {x: var[x][1] for x in used})
    N = Norm()
    d0 = N.s(n0).const()
    if d0 is None or d0 != 0:
        return None if d0 is None else False
    for e in loop['ends']:
        n1 = subst(n, {x: e.env.get(var[x][0], x) for x in used})
        a, b = ((N.s(x) - N.s(y)).const() for x, y in ((n1, n), (e.env.get(size, rec[size][0]), rec[size][0])))
        if a is None or b is None:
            return None
        if a != b:
            return False
    return True
