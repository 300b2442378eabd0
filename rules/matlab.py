"""X02: the commands of the MATLAB toolbox (toolbox/src_mex)"""
import re
from engine.terms import T as Term
from .base import *
from engine.ident import Ident
from .tree import Trace

CLASSES = ('enve::shell', 'enve::ground::mesh', 'enve::ground::flat', 'enve::triangleground', 'acme::triangle', 'acme::plane')


def never(it, s, e, fr, obj, args):
    return []          # mexErrMsgTxt does not return


class Calls:
    """operations of the objects, uninterpreted: what they return names operation, object and arguments"""

    def __init__(self, p):
        self.tr = Trace()
        self.summ = {'mexErrMsgTxt': never, 'mexErrMsgIdAndTxt': never}
        for f in p.funcs.values():
            n = f['n'].split('::')[-1]
            if (f.get('cls') or '') in CLASSES and not n.startswith('operator') and not n.startswith('~'):
                self.summ[f['u']] = self.op(f, n)

    def op(self, f, n):
        ctor = n == (f.get('cls') or '').split('::')[-1]

        def g(it, s, e, fr, obj, args):
            outs = [a for q, a in zip(f['params'], args) if a[0] == 'l' and q['t'].rstrip().endswith('&') and 'const' not in q['t']]
            ins = []
            for q, a in zip(f['params'], args):
                if a in outs:
                    continue
                t = strip(q['t'])
                ins.append(mk('objref', a[1]) if a[0] == 'l' and t in CLASSES else it.argval(s, a))
            c = mk('rd', n, s.env.get(self.tr.G, Int(0)), mk('objref', obj) if obj is not None else NULL, *ins)
            s = s.copy()
            if not f.get('const') and not f['ret'].rstrip().endswith('&'):
                s = self.tr.push(it, s, c)
            for k, a in enumerate(outs):
                it.store(s, a[1], c if len(outs) == 1 else mk('part', c, Int(k)), e, fr)
            return [(s, VOID if outs or f['ret'] == 'void' or ctor else c)]
        return g


def is_param(t, name):
    return t.op == 'init' and t.a[0].op == 'V' and t.a[0].a[1] == name


def slot(l, name):
    """k when the location l is name[k]"""
    if l.op == 'I' and l.a[0].op == 'D' and is_param(l.a[0].a[0], name) and l.a[1].op == 'int':
        return l.a[1].a[0]
    if l.op == 'D' and is_param(l.a[0], name):
        return 0


def parg(t):
    """k when t is the value of prhs[k]"""
    return slot(t.a[0], 'prhs') if t.op == 'init' else None


def subs(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st += [a for a in x.a if isinstance(a, Term)]


def mentions(t):
    return {parg(x) for x in subs(t)} - {None}


def entry(t):
    """(argument, index) when t is one entry of the matrix handed in as an argument"""
    if t.op != 'init':
        return None
    l = t.a[0]
    k = Int(0)
    if l.op == 'I' and len(l.a) == 2:
        l, k = l.a
    if l.op == 'D' and l.a[0].op == 'call' and l.a[0].a[0] in ('mxGetPr', 'mxGetDoubles', 'mxGetData'):
        j = parg(l.a[0].a[1])
        if j is not None:
            return j, k


def ev(t, c):
    """value of a count or a condition under the assumption c (sizes of the arguments, number of them); None when unknown"""
    r = c(t)
    if r is not None:
        return r
    if t.op in ('int', 'real', 'bool'):
        return t.a[0]
    if t.op == 'call' and t.a[0] in ('toint', 'trunc') and len(t.a) == 2:
        return ev(t.a[1], c)
    if t.op != 'op':
        return None
    o, a = t.a[0], [ev(x, c) for x in t.a[1:]]
    if o == '&&':
        return False if False in a else None if None in a else all(a)
    if o == '||':
        return True if True in [bool(x) if x is not None else None for x in a] else None if None in a else any(a)
    if o in ('==', '!=') and any(x.op == 'null' for x in t.a[1:]) and any(parg(x) is not None for x in t.a[1:]):
        return o == '!='             # what MATLAB hands over is there
    if None in a:
        return None
    if o == '!':
        return not a[0]
    if o == 'neg':
        return -a[0]
    if o == '*':
        r = 1
        for x in a:
            r *= x
        return r
    if o == '+':
        return sum(a)
    if o == '-':
        return a[0] - a[1]
    if o == '/':
        return a[0] / a[1] if a[1] else None
    if o in ('==', '!=', '<', '<=', '>', '>='):
        x, y = a
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
    return None


def possible(s, c):
    """no fact of the path contradicts the assumption"""
    for t, w in s.facts.items():
        r = ev(t, c)
        if r is not None and bool(r) != bool(w):
            return False
    return True


def sized(j, r, c):
    def f(t):
        if t.op == 'init' and t.a[0].op == 'I' and t.a[0].a[0].op == 'D':
            d = t.a[0].a[0].a[0]
            if d.op == 'call' and d.a[0] == 'mxGetDimensions' and parg(d.a[1]) == j and t.a[0].a[1].op == 'int':
                return (r, c)[t.a[0].a[1].a[0]] if t.a[0].a[1].a[0] < 2 else None
        if t.op == 'call' and len(t.a) == 2 and isinstance(t.a[1], Term) and parg(t.a[1]) == j:
            return {'mxGetM': r, 'mxGetN': c, 'mxGetNumberOfElements': r * c, 'mxGetNumberOfDimensions': 2,
                    'mxIsScalar': r * c == 1, 'mxIsEmpty': r * c == 0}.get(t.a[0])
    return f


def counted(name, n):
    return lambda t: n if is_param(t, name) else None


SIZES = (0, 1, 2, 3, 4, 5, 9, 16, 17)


def reads(s):
    out = {}
    seen = set()
    for k, v in list(s.env.items()) + [(t, None) for t in s.facts]:
        for t in [k] + ([v] if v is not None else []):
            for x in subs(t, seen):
                out.setdefault(id(x), x)
    return list(out.values())


def bounds(ck, f, s, lead):
    """nothing is read outside what was passed"""
    R = reads(s)
    ks = {slot(l, 'prhs') for x in R for l in ([x.a[0]] if x.op == 'init' else [x])} - {None}
    for n in range(0, 12):
        if ks and max(ks) >= n and possible(s, counted('nrhs', n)):
            ck.require(False, f, 'argument %d is only touched when it was passed' % max(ks), lead + ' (also runs with %d arguments)' % n)
            break
    else:
        ck.require(True, f, 'arguments only touched when passed', lead)
    need = {}
    for x in R:
        e = entry(x)
        if e is not None and e[1].op != 'int':
            ck.require(None, f, 'entry of argument %d read' % e[0], lead + ': ' + show(e[1])[:80])
        elif e is not None:
            need[e[0]] = max(need.get(e[0], 0), e[1].a[0])
        if x.op == 'call' and x.a[0] == 'mxGetScalar' and parg(x.a[1]) is not None:
            need.setdefault(parg(x.a[1]), 0)
    for j, k in sorted(need.items()):
        bad = [(r, c) for r in SIZES for c in SIZES if r * c <= k and possible(s, sized(j, r, c))]
        ck.require(not bad, f, 'entry %d of argument %d lies inside the matrix' % (k, j),
                   lead + (' (a matrix of %d by %d gets there)' % bad[0] if bad else ''))
        if k in (2, 15):
            w = (3, 1) if k == 2 else (4, 4)
            ck.require(possible(s, sized(j, *w)), f, 'a matrix of %d by %d is taken as argument %d' % (w + (j,)), lead)
    hs = {handed(x) for x in R if x.op == 'D'} - {None}
    for j in sorted(hs):
        told_by = [t for t in s.facts for x in subs(t) if x.op == 'F' and x.a[1] != 'm_ptr' and x.a[0].op == 'D' and mentions(x.a[0]) == {j}]
        ck.require(bool(told_by), f, 'argument %d is looked at before it is taken for an object' % j, lead)
    return need


def results(ck, f, s, lead):
    ks = {slot(k, 'plhs') for k in s.env} - {None}
    for n in range(0, 4):
        if not possible(s, counted('nlhs', n)):
            continue
        ck.require(all(k in ks for k in range(n)), f, 'every output asked for is given', '%s with %d outputs' % (lead, n))
        ck.require(all(k < max(1, n) for k in ks), f, 'no output beyond the ones asked for', '%s with %d outputs' % (lead, n))
    return {slot(k, 'plhs'): v for k, v in s.env.items() if slot(k, 'plhs') is not None}


SPECIAL = {'setupFlat': ['setup'], 'setupMesh': ['setup'], 'getPlane': ['layingPlane'], 'setPlane': ['layingPlane'],
           'getVertex1': ['vertex'], 'getVertex2': ['vertex'], 'getVertex3': ['vertex'],
           'getTriangleground': ['ptrTriangleground'], 'getTrianglegroundVertices': ['ptrTriangleground']}


def operation(cmd):
    if cmd in SPECIAL:
        return SPECIAL[cmd]
    m = re.match('(?:get|set)([A-Z].*)$', cmd)
    if m:
        return [m.group(1)[0].lower() + m.group(1)[1:], m.group(1).lower()]
    return [re.sub('(Avg|Rib)$', '', cmd)]


def sliced(cmd):
    return cmd.startswith('rib') or cmd.endswith('Rib') or cmd.startswith('getTriangleground')


def handed(t):
    """argument whose object t is"""
    if t.op == 'objref':
        return handed(t.a[0])
    l = t
    if l.op == 'D' and l.a[0].op == 'init' and l.a[0].a[0].op == 'F':
        e = {j for x in subs(l) for j in [entry(x)] if j is not None}
        if len(e) == 1:
            return next(iter(e))[0]


def target(f):
    """class the commands of a file are about"""
    return {'mex_shell': 'shell', 'mex_mesh': 'mesh', 'mex_flat': 'flat', 'mex_triangleground': 'triangleground'}.get(
        f['file'].split('/')[-1].split('.')[0])


WIDTH = {6: ('double',), 7: ('float',), 8: ('signed char', 'char'), 9: ('unsigned char',), 10: ('short',), 11: ('unsigned short',), 12: ('int',),
         13: ('unsigned int',), 14: ('long', 'long long'), 15: ('unsigned long', 'unsigned long long')}


def classes(ck, p):
    """a number is read with the type MATLAB stores it in"""
    for f in sorted(p.funcs.values(), key=lambda f: f['u']):
        if not f.get('body') or '/src_mex/' not in f['file']:
            continue
        for sw in nodes(f['body'], lambda n: n.get('k') == 'switch' and nodes(n['c'], lambda m: 'mxClassID' in (m.get('t') or ''))):
            now, body = set(), sw['body']
            for st in body.get('s', []) if body.get('k') == 'block' else []:
                if st['k'] == 'break' or st['k'] == 'default':
                    now = set()
                while st is not None and st.get('k') == 'case':
                    now |= {int(st['v'])} if str(st.get('v', '')).lstrip('-').isdigit() else set()
                    st = st.get('s')
                out = st is not None and nodes(st, lambda n: n.get('k') in ('break', 'return'))
                for c in nodes(st, lambda n: n.get('k') == 'cast' and n.get('x') and (n.get('t') or '').endswith('*')) if st is not None else []:
                    t = c['t'].replace('const ', '').rstrip('* ')
                    for k in now:
                        if k in WIDTH:
                            ck.require(t in WIDTH[k], f, 'data of class %d is read as %s' % (k, WIDTH[k][0]), 'read as ' + t)
                if out:
                    now = set()


def table(p):
    """name of a command -> function that serves it, per file"""
    out = []
    for g in sorted(p.globals.values(), key=lambda g: g.get('file', '')):
        if '/src_mex/' not in g.get('file', '') or not g.get('init'):
            continue
        for n in nodes(g['init'], lambda n: isinstance(n.get('a'), list) and len(n['a']) == 2):
            a, b = n['a']
            ks = nodes(a, lambda m: m.get('k') == 'str')
            fs = nodes(b, lambda m: m.get('k') == 'ref' and m.get('dk') == 'func')
            if len(ks) == 1 and len(fs) == 1 and fs[0]['d'] in p.funcs:
                e = (ks[0]['v'], p.funcs[fs[0]['d']], g)
                if e not in out:
                    out.append(e)
    return out


def commands(ck):
    p = ck.load('tbx')
    classes(ck, p)
    fs = table(p)
    if len(fs) < 40:
        raise AnalysisBroken('toolbox/src_mex: %d commands found' % len(fs))
    seen = set()
    for cmd, f, g in fs:
        lead = '%s %s' % (f['file'].split('/')[-1], cmd)
        ck.require((g['file'], cmd) not in seen, f, 'one function per command', lead)
        seen.add((g['file'], cmd))
        C = Calls(p)
        it = ck.it = ck.run(f, summaries=C.summ, disj_limit=32)
        ck.require(True if it.rets else None, f, 'the command can succeed', lead)
        for s, v in it.rets:
            bounds(ck, f, s, lead)
            out = results(ck, f, s, lead)
            told(ck, f, s, lead, cmd, out)


def op_of(t, names):
    """operation results with one of the names inside t"""
    return [x for x in subs(t) if x.op == 'rd' and x.a[0] in names]


def scalar_of(s, m):
    """what the 1 by 1 result m holds"""
    if m.op == 'call' and m.a[0] in ('mxCreateLogicalScalar', 'mxCreateDoubleScalar'):
        return m.a[1]
    if m.op == 'call' and m.a[0].startswith('mxCreate'):
        for k, v in s.env.items():
            l = k.a[0] if k.op == 'I' and k.a[1] == Int(0) else k
            if l.op == 'D' and l.a[0].op == 'call' and l.a[0].a[0].startswith('mxGet') and l.a[0].a[1] == m:
                return v


def filled(s, m):
    out = {}
    for k, v in s.env.items():
        l, i = (k.a[0], k.a[1]) if k.op == 'I' and len(k.a) == 2 else (k, Int(0))
        if l.op == 'D' and l.a[0].op == 'call' and l.a[0].a[0].startswith('mxGet') and l.a[0].a[1] == m and i.op == 'int':
            out[i.a[0]] = v
    return out


def plain(t):
    """what a returned reference refers to is what the operation returns"""
    if t.op == 'init' and t.a[0].op == 'D' and t.a[0].a[0].op == 'rd':
        return t.a[0].a[0]
    return t


def same2(a, b):
    if a == b:
        return True
    try:
        return all(abs(Ident(k).s(a) - Ident(k).s(b)) <= 1e-9 * (1 + abs(Ident(k).s(a))) for k in (3, 11))
    except Exception:
        return None


def raw(t, j):
    return t.op == 'call' and t.a[0] in ('mxGetScalar', 'mxArrayToString') and parg(t.a[1]) == j or entry(t) is not None and entry(t)[0] == j


def unchanged(t, j):
    if raw(t, j):
        return True
    vs = [ev(t, lambda u, k=k: k if raw(u, j) else None) for k in (1, 2, 7, -3)]
    return None if None in vs else vs == [1, 2, 7, -3]


def tell(t, j, f, ck, lead, n):
    """argument n of the operation is argument j of the command"""
    what = 'argument %d of the operation is argument %d of the command' % (n, j)
    if handed(t) is not None:
        ck.require(handed(t) == j, f, what, lead)
        return
    m = mentions(t)
    if m != {j}:
        ck.require(False if not poisoned(t) else None, f, what, '%s: %s' % (lead, show(t)[:150]))
        return
    E = lambda k: mk('init', mk('I', next(x.a[0].a[0] for x in subs(t) if entry(x) is not None and x.a[0].op == 'I'), Int(k)))
    es = {e[1].a[0] for x in subs(t) for e in [entry(x)] if e is not None and e[1].op == 'int' and x.a[0].op == 'I'}
    if not es:
        ck.require(unchanged(t, j), f, 'argument %d of the operation is argument %d as it is' % (n, j), '%s: %s' % (lead, show(t)[:150]))
        return
    if t.op == 'vec':
        for k, c in enumerate(t.a):
            ck.require(same2(c, E(k)), f, 'component %d is entry %d' % (k, k), lead)
        return
    if entry(t) is not None:
        ck.require(None if entry(t)[1].op != 'int' else entry(t)[1].a[0] == 0, f, what, lead)
        return
    M = t.a[:16] if t.op == 'blocks' and len(t.a) >= 16 else [ck.it.comp(t, Int(k // 4), Int(k % 4)) for k in range(16)]
    if t.op == 'blocks' or all(c.op != 'comp' for c in M):
        for k, c in enumerate(M):
            ck.require(same2(c, E(k // 4 + 4 * (k % 4))), f, 'row %d, column %d of the matrix is entry %d' % (k // 4, k % 4, k // 4 + 4 * (k % 4)), lead)
        return
    ck.require(None, f, what, '%s: %s' % (lead, show(t)[:150]))


def told(ck, f, s, lead, cmd, out):
    if cmd == 'delete':
        return
    if cmd == 'new':
        made(ck, f, s, lead, out)
        return
    names = operation(cmd)
    found = []
    for k, v in list(s.env.items()):
        for t in (k, v):
            found += [x for x in op_of(t, names) if x not in found]
    own = [x for x in found if x.a[2].op == 'objref' and handed(x.a[2]) == 1]
    if cmd == 'load' and not own:
        return                       # the file is refused by its name
    ck.require(bool(own), f, 'the command calls the operation it is named after', '%s: %s' % (lead, names[0]))
    if not own:
        return
    for x in own:
        args = list(x.a[3:])
        while args and not mentions(args[-1]) and args[-1].op not in ('int', 'real', 'bool', 'str'):
            args.pop()               # left to its default
        if cmd.startswith('getVertex') and len(args) == 1:
            ck.require(args[0].op == 'int' and args[0].a[0] == int(cmd[-1]) - 1, f, 'vertex %s is asked for' % cmd[-1], lead)
            continue
        for n, t in enumerate(args):
            if sliced(cmd) and n == 0:
                m = mentions(t)
                vals = [ev(t, lambda u, k=k: k if entry(u) is not None and entry(u)[0] == 2 else None) for k in (1, 2, 7)]
                ck.require(None if None in vals else vals == [0, 1, 6], f, 'slices and triangles are counted from one', '%s: %s' % (lead, show(t)[:120]))
            else:
                tell(t, n + 2, f, ck, lead, n)
    every(ck, f, s, lead, own)
    ask(ck, f, s, lead, cmd, out, own)


def every(ck, f, s, lead, own, first=2):
    used = set()
    for k, v in s.env.items():
        if k.op != 'V':
            used |= mentions(v)
    for x in own:
        for t in x.a[3:]:
            used |= mentions(t)
    ns = [n for n in range(12) if possible(s, counted('nrhs', n))]
    if len(ns) != 1:
        ck.require(None, f, 'number of arguments', lead)
        return
    ck.require(all(j in used for j in range(first, ns[0])), f, 'every argument reaches the operation', lead)


def flat_args(t):
    if t.op == 'vec':
        return [y for c in t.a for y in flat_args(c)]
    if t.op == 'call' and t.a[0] == 'toint' and len(t.a) == 2:
        return flat_args(t.a[1])
    return [t]


def made(ck, f, s, lead, out):
    """a new object is made from the arguments, in their order"""
    cls = target(f)
    tr = [u for k, u in s.env.items() if k.op == 'V' and k.a[1] == 'trace']
    made_ = [y for u in tr for y in subs(u) if y.op == 'rd' and y.a[0] == cls]
    ck.require(len(made_) == 1 or None, f, 'one object is made', lead)
    if len(made_) != 1:
        return
    x = made_[0]
    own = [x] + [y for u in tr for y in subs(u) if y.op == 'rd' and y.a[0] == 'load' and y.a[2] == x.a[2]]
    last = own[-1]
    args = list(last.a[3:])
    if any(mentions(t) for t in args):
        while args and not mentions(args[-1]):
            args.pop()
        got, j = [], 1
        for t in args:
            if t.op in ('blocks', 'setc'):
                tell(t, max([g[0] for g in got], default=0) + 1, f, ck, lead, len(got))
                got.append((max([g[0] for g in got], default=0) + 1, 0))
                continue
            for c in flat_args(t):
                m = mentions(c)
                e = entry(c)
                if len(m) != 1:
                    got.append((-1, 0))
                elif unchanged(c, next(iter(m))) is False:
                    got.append((-2, 0))
                else:
                    got.append((next(iter(m)), e[1].a[0] if e is not None and e[1].op == 'int' else 0))
        ok = got == sorted(set(got)) and all(a[0] == b[0] and b[1] == a[1] + 1 or b == (a[0] + 1, 0) for a, b in zip(got, got[1:])) and got[0] == (1, 0)
        ck.require(ok, f, 'the object is made from the arguments in their order', '%s: %s' % (lead, got))
        every(ck, f, s, lead, own, 1)
    m = out.get(0)
    if m is not None:
        v = scalar_of(s, m)
        w = s.env.get(v.a[0]) if v is not None and v.op == 'addr' else None
        h = [mk('objref', y.a[0]) for y in subs(w) if y.op == 'addr'] if w is not None else []
        ck.require(None if len(h) != 1 else h[0] == x.a[2], f, 'the handle is the one of the object made', lead)


def ask(ck, f, s, lead, cmd, out, own):
    """what the operation gives comes back complete, column by column"""
    x = own[0]
    if cmd.startswith('set') and cmd not in SPECIAL:
        put = [(k, v) for k, v in s.env.items() if k.op == 'D' and k.a[0] == x]
        ck.require(len(put) == 1 or None, f, 'the value is stored where the operation points', lead)
        for k, v in put:
            tell(v, 2, f, ck, lead, 0)
        return
    m = out.get(0)
    if m is None:
        return
    ok = m.op == 'call' and m.a[0].startswith('mxCreate')
    ck.require(True if ok else None, f, 'the result is made for the occasion', lead)
    if not ok:
        return
    R, K = (m.a[1], m.a[2]) if len(m.a) > 2 else (Int(1), Int(1))
    if R.op != 'int' or K.op != 'int':
        ck.require(None, f, 'size of the result', lead)
        return
    R, K = R.a[0], K.a[0]
    if R * K == 1:
        v = scalar_of(s, m)
        if v is None:
            ck.require(False, f, 'the result is filled in', lead)
            return
        if v.op == 'addr':
            w = s.env.get(v.a[0])
            h = [y.a[0] for y in subs(w) if y.op == 'addr'] if w is not None else []
            ck.require(True if len(h) == 1 else None, f, 'the result is a handle of one object', lead)
            for o in h:
                held = [(k, u) for k, u in s.env.items() if root(k) == o]
                told_ = [u for k, u in s.env.items() if k.op == 'V' and k.a[1] == 'trace']
                src = [u for k, u in held] + [y for u in told_ for y in subs(u) if y.op == 'rd' and y.a[0] == 'copy' and y.a[2] == mk('objref', o)]
                ck.require(any(x in set(subs(u)) for u in src), f, 'the object handed back is what the operation gives', lead)
            return
        w = plain(v)
        ck.require(True if w == x else False if not poisoned(v) else None, f, 'the result is what the operation gives', '%s: %s' % (lead, show(v)[:120]))
        return
    got = filled(s, m)
    ck.require(set(got) == set(range(R * K)), f, 'all %d entries of the result are set, and no other' % (R * K), lead)
    for k, v in sorted(got.items()):
        i, j = k % R, k // R
        if cmd == 'getTrianglegroundVertices':
            w = [y for y in subs(v) if y.op == 'rd' and y.a[0] == 'vertex']
            want = mk('comp', mk('init', mk('D', w[0])), Int(i)) if w else None
            ck.require(None if not w else same2(v, want), f, 'entry %d is coordinate %d of a vertex' % (k, i), lead)
            ck.require(None if not w or w[0].a[-1].op != 'int' else w[0].a[-1].a[0] == j, f, 'entry %d belongs to vertex %d' % (k, j), lead)
            continue
        want = mk('comp', x, Int(i)) if K == 1 else mk('comp', x, Int(i), Int(j))
        w2 = mk('comp', mk('init', mk('D', x)), Int(i)) if K == 1 else mk('comp', mk('init', mk('D', x)), Int(i), Int(j))
        r = v == want or v == w2 or same2(v, want) or same2(v, w2)
        ck.require(r, f, 'entry %d of the result is component (%d, %d)' % (k, i, j), '%s: %s' % (lead, show(v)[:120]))

