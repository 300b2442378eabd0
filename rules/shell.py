"""Rules about the tyre shell: slots, read-outs, aggregates, set-up, verdicts."""
from .base import *
from engine.ident import same as same_value

SHELL = 'enve::shell'
OUT = 'enve::output'
# public read-out family -> component of the per-slice record
READ = {'contactPoint': 'point', 'contactNormal': 'normal', 'contactFriction': 'friction',
        'contactDepth': 'depth', 'contactArea': 'area', 'contactVolume': 'volume'}
VEC = ('point', 'normal')


def elem(prog, t):
    """element type of a std::vector field type or None"""
    t = t.strip()
    if not t.startswith('std::vector<'):
        return None
    return template_args(t)[0]


class Shell:
    """fields of the shell, located by type"""

    def __init__(self, p):
        def vec_of(rec):
            return lambda t: elem(p, t) in (rec, rec.split('::')[-1])
        self.ribs = LF(THIS, field_of_type(p, SHELL, vec_of('enve::rib'), 'the slices'))
        self.out = LF(THIS, field_of_type(p, SHELL, vec_of(OUT), 'the slice results'))
        self.cand = LF(THIS, field_of_type(p, SHELL, lambda t: (elem(p, t) or '').startswith('std::vector<'), 'the candidates'))
        self.pose = LF(THIS, field_of_type(p, SHELL, lambda t: 'Transform' in t or t.endswith('affine'), 'the pose'))
        self.N = init(LF(self.ribs, '#size'))

    def entry(self):
        """environment of a constructed shell: one result and one candidate list per slice (C01)"""
        return {LF(self.out, '#size'): self.N, LF(self.cand, '#size'): self.N}


def J(it, s, n):
    """a generic in-range index: (state, term)"""
    j = init(mk('V', 'spec', 'j'))
    it.int_terms.add(j.id)
    x = it.assume(s, mkop('<=', Int(0), j), True)
    x = it.assume(x, mkop('<', j, n), True) if x is not None else None
    return x, j


def veq(a, b, vec):
    """equal / different / cannot tell"""
    N = Norm()
    if N.eq(a, b, vec):
        return True
    if poisoned(a) or same_value(a, b, vec) is None:
        return None
    return False


# ------------------------------------------------------------------------ C01
def slots(ck):
    ck.rule = """Abstract interpretation of every constructor and of every mutator of the shell: on each normal exit the
    number of result slots and of candidate lists must be the same value number as the number of slices; construction must have
    rejected a zero slice count (no exit state is compatible with it) and must yield the requested count; no other member
    function may leave with a size different from the one it entered with."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        made = 0
        for f in p.fn(SHELL + '::shell') + p.fn(SHELL + '::resize'):
            if f['implicit'] if 'implicit' in f else False:
                continue
            cnt = [q for q in f['params'] if strip(q['t']) in ('unsigned long', 'size_t', 'int', 'unsigned int')]
            if not cnt:
                continue
            made += 1
            it = ck.run(f)
            nloc = it.params[cnt[0]['n']]
            n = init(nloc)
            ck.require(bool(it.rets), f, 'some normal exit exists')
            for s, v in it.rets:
                for what, c in (('slices', sh.ribs), ('result slots', sh.out), ('candidate lists', sh.cand)):
                    z = it.size_of(s, c)
                    ok = it.truth(s, mkop('==', z, n))
                    ck.require(True if z is n or ok is True else (None if poisoned(z) and ok is None else False), f,
                               'number of %s equals the requested slice count' % what, 'it is %s' % show(z))
                ck.require(it.truth(s, mkop('<=', n, Int(0))) is False, f, 'a zero slice count is rejected',
                           'normal exit compatible with a zero count')
        if not made:
            raise AnalysisBroken('no sizing constructor of the shell')
        for f in methods(p, SHELL):
            if f['n'].split('::')[-1] in ('resize', 'shell') or f['n'] == SHELL + '::print':
                continue
            it = ck.run(f, env=sh.entry(), summaries=heavy(p))
            for s, v in it.rets:
                for what, c in (('slices', sh.ribs), ('result slots', sh.out), ('candidate lists', sh.cand)):
                    z = it.size_of(s, c)
                    ck.require(True if z is sh.N or it.truth(s, mkop('==', z, sh.N)) else (None if poisoned(z) else False), f,
                               'leaves the number of %s unchanged' % what, 'it is %s' % show(z))
        sz = p.fn(SHELL + '::size')
        for f in sz:
            it = ck.run(f, env=sh.entry())
            for s, v in it.rets:
                ck.require(v is sh.N, f, 'size() is the number of slices', show(v))


def methods(p, rec):
    r = []
    for f in p.funcs.values():
        if f['n'].rsplit('::', 1)[0] == rec and f.get('body') is not None and not f['n'].split('::')[-1].startswith(('~', 'operator')):
            r.append(f)
    return sorted(r, key=lambda f: (f['n'], f['l'], sig(f)))


def heavy(p):
    """geometry kernels replaced by arbitrary results; sizes of the shell containers are not theirs to change"""
    r = {}

    def s_inter(it, s, e, fr, obj, args):
        x = s.copy()
        it.havoc(x, args[-1][1], 'hits')
        return [(x, mkop('<', Int(0), it.size_of(x, args[-1][1])))]        # decided by M04

    def s_nop(it, s, e, fr, obj, args):
        return [(s.copy(), VOID)]

    def s_env(it, s, e, fr, obj, args):
        x = s.copy()
        it.havoc(x, args[-1][1], 'res')
        return [(x, it.fresh('env'))]
    for f in p.fn('enve::ground::mesh::intersection'):
        r[f['u']] = s_inter
    for f in p.fn('acme::aabb::updateMaxMin'):
        r[f['u']] = s_nop
    for n in ('envelop', 'envelopGeometric', 'envelopSampling'):
        for f in p.fn('enve::rib::' + n):
            r[f['u']] = s_env
    return r


# ------------------------------------------------------------------------ C02
def readouts(ck):
    ck.rule = """Value-number comparison: for a generic in-range slice i every indexed read-out must assign the component of the
    same name of the i-th result record, every vector read-out must resize its output to the slice count and assign the same
    at each index, the contact frame must have the columns (normalised Y x n, normalised n x x, n, p), the relative angles must
    be the Euler angles of frame' * shell rotation with the slice inclination subtracted from the first."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        for name, fld in READ.items():
            fs = p.fn(SHELL + '::' + name)
            isx = [f for f in fs if len(f['params']) == 2]
            vs = [f for f in fs if len(f['params']) == 1 and 'std::vector' in f['params'][0]['t']]
            if len(isx) != 1 or len(vs) != 1:
                raise AnalysisBroken('read-outs of %s not found' % name)
            f = isx[0]
            it = ck.run(f, env=sh.entry())
            i, o = init(P(it, 0)), P(it, 1)
            ck.require(bool(it.rets), f, 'returns')
            for s, v in it.rets:
                x = it.assume(s, mkop('<', i, sh.N), True)
                if x is None:
                    continue
                got, want = it.load(x, o), init(LF(LI(sh.out, i), fld))
                ck.require(veq(got, want, fld in VEC), f, 'slice read-out is the %s of that slice' % fld, show(got))
            f = vs[0]
            it = ck.run(f, env=sh.entry())
            vector_out(ck, it, f, sh, lambda it, s, j, o: (it.load(s, LI(o, j)), init(LF(LI(sh.out, j), fld)), fld in VEC), fld)
        frames(ck, p, sh)
        for name, rec in (('ribRadius', 'radius'), ('ribCenter', 'center'), ('ribWidth', 'width'), ('ribAngle', 'angle')):
            for f in p.fn(SHELL + '::' + name):
                it = ck.run(f)
                g = accessor(p, 'enve::rib', rec)
                it2 = ck.run(g)
                a = it2.rets[0][1]
                want = subst(deref(it2, it2.rets[0]), {THIS: LI(sh.ribs, init(P(it, 0)))})
                for r in it.rets:
                    got = deref(it, r)
                    ck.require(veq(got, want, rec == 'center'), f, 'geometry read-out is the %s of that slice' % rec, show(got))


def accessor(p, rec, name):
    """const accessor without parameters, looked up through the bases"""
    for b in [rec] + p.bases(rec):
        c = [f for f in p.fn(b + '::' + name) if not f['params'] and f.get('const')]
        if c:
            return c[0]
    raise AnalysisBroken('no accessor %s of %s' % (name, rec))


def deref(it, r):
    s, v = r
    if v.op == 'addr':
        return it.load(s, v.a[0])
    return v


def vector_out(ck, it, f, sh, pair, fld):
    o = P(it, 0)
    ck.require(bool(it.rets), f, 'returns')
    for s, v in it.rets:
        z = it.size_of(s, o)
        ok = z is sh.N or it.truth(s, mkop('==', z, sh.N))
        ck.require(True if ok else (None if poisoned(z) else False), f, 'the output list has one entry per slice', 'its size is %s' % show(z))
        x, j = J(it, s, sh.N)
        if x is None:
            continue
        got, want, vec = pair(it, x, j, o)
        ck.require(veq(got, want, vec), f, 'entry i of the list is the %s of slice i' % fld, show(got))
        ver = x.env.get(LF(o, '#ver'))
        if ver is not None and ver.op == 'forall' and it.loops[ver.a[0]].get('range') and ver.a[2].op == 'int':
            b, c = it.linear(it.loops[ver.a[0]]['range'][1])
            if b is sh.N and isinstance(c, int):
                ck.require(c + ver.a[2].a[0] <= 0, f, 'nothing is written beyond the last entry', '%d entries too many' % (c + ver.a[2].a[0]))


def frame_terms(it, s, sh, n, pt):
    """columns of the contact frame"""
    Y = mk('fld', init(LF(sh.pose, '@linear')), '@col:1')
    return Y


def frames(ck, p, sh):
    """contact frames: indexed against the specification, the other forms against the indexed one"""
    fs = p.fn(SHELL + '::contactPointAffine')
    idx = [f for f in fs if len(f['params']) == 2][0]
    agg = [f for f in fs if len(f['params']) == 1 and 'vector' not in f['params'][0]['t']][0]
    vec = [f for f in fs if len(f['params']) == 1 and 'vector' in f['params'][0]['t']][0]
    it = ck.run(idx, env=sh.entry())
    i = init(P(it, 0))
    per = None
    for s, v in it.rets:
        got = it.load(s, P(it, 1))
        n, q = init(LF(LI(sh.out, i), 'normal')), init(LF(LI(sh.out, i), 'point'))
        check_frame(ck, idx, got, n, q, sh)
        per = got
    # aggregate
    ags = {}
    for nm in ('contactPoint', 'contactNormal'):
        f = [g for g in p.fn(SHELL + '::' + nm) if len(g['params']) == 1 and 'std::vector' not in g['params'][0]['t']][0]
        a = ck.run(f, env=sh.entry())
        ags[nm] = [(dict(s.facts), a.load(s, P(a, 0))) for s, v in a.rets]
    it = ck.run(agg, env=sh.entry())
    m = 0
    for s, v in it.rets:
        got = it.load(s, P(it, 0))
        n = pick(ags['contactNormal'], s)
        q = pick(ags['contactPoint'], s)
        if n is None or q is None:
            ck.require(None, agg, 'overall contact frame', 'cannot match the branch')
            continue
        m += 1
        check_frame(ck, agg, got, n, q, sh)
    # list
    it = ck.run(vec, env=sh.entry())
    vector_out(ck, it, vec, sh, lambda it, s, j, o: (it.load(s, LI(o, j)), subst(per, {i: j}), None), 'contact frame')
    # relative angles
    fs = p.fn(SHELL + '::relativeAngles')
    idx = [f for f in fs if len(f['params']) == 2][0]
    agg2 = [f for f in fs if len(f['params']) == 1 and 'std::vector' not in f['params'][0]['t']][0]
    vec2 = [f for f in fs if len(f['params']) == 1 and 'std::vector' in f['params'][0]['t']][0]
    R = init(LF(sh.pose, '@linear'))
    it = ck.run(idx, env=sh.entry())
    i2 = init(P(it, 0))
    perang = None
    ga = accessor(p, 'enve::rib', 'angle')
    ia = ck.run(ga)
    ang = subst(deref(ia, ia.rets[0]), {THIS: LI(sh.ribs, i2)})
    for s, v in it.rets:
        got = it.load(s, P(it, 1))
        M = mkop('m*', mk('call', 'transpose', mk('fld', subst(per, {i: i2}), '@linear')), R)
        E = mk('call', 'eulerAngles', M, Int(2), Int(0), Int(1))
        want = mk('vec', mkop('-', mk('comp', E, Int(0)), ang), mk('comp', E, Int(1)), mk('comp', E, Int(2)))
        ck.require(veq(got, want, True), idx, 'relative angles of a slice: Euler angles of frame\' * pose, inclination removed', show(got))
        perang = got
    it = ck.run(agg2, env=sh.entry())
    ia = ck.run(agg, env=sh.entry())
    fr = [(dict(s.facts), ia.load(s, P(ia, 0))) for s, v in ia.rets]
    for s, v in it.rets:
        got = it.load(s, P(it, 0))
        w = pick(fr, s)
        if w is None:
            ck.require(None, agg2, 'overall relative angles', 'cannot match the branch')
            continue
        M = mkop('m*', mk('call', 'transpose', mk('fld', w, '@linear')), R)
        ck.require(veq(got, mk('call', 'eulerAngles', M, Int(2), Int(0), Int(1)), True), agg2,
                   'overall relative angles: Euler angles of frame\' * pose', show(got))
    it = ck.run(vec2, env=sh.entry())
    vector_out(ck, it, vec2, sh, lambda it, s, j, o: (it.load(s, LI(o, j)), subst(perang, {i2: j}), True), 'relative angles')


def pick(cases, s):
    """the case whose facts are compatible with the state"""
    ok = []
    for facts, v in cases:
        if all(s.facts.get(f) in (None, pol) for f, pol in facts.items()):
            ok.append((sum(1 for f in facts if f in s.facts), v))
    ok = {v for _, v in ok}
    return ok.pop() if len(ok) == 1 else None


def check_frame(ck, fn, got, n, q, sh):
    Y = mk('fld', init(LF(sh.pose, '@linear')), '@col:1')
    cols = frame_cols(got)
    if cols is None:
        ck.require(None, fn, 'contact frame layout', show(got))
        return
    row = last_row(got)
    if row is not None:
        ck.require(row, fn, 'contact frame: last row 0 0 0 1', show(got.a[4]))
    x = mk('call', 'normalized', mk('call', 'cross', Y, n))
    y = mk('call', 'normalized', mk('call', 'cross', n, x))
    for what, a, b in (('x axis is normalised Y x normal', cols[0], x), ('y axis is normalised normal x X', cols[1], y),
                       ('z axis is the contact normal', cols[2], n), ('origin is the contact point', cols[3], q)):
        ck.require(veq(a, b, True), fn, 'contact frame: ' + what, show(a))


def last_row(t):
    """the last row written with the blocks is that of an affine map (None: none written)"""
    if t.op != 'blocks' or len(t.a) < 5:
        return None
    r = t.a[4:]
    if len(r) == 1:
        r = r[0].a[1:] if r[0].op == 'call' and r[0].a[0] == 'transpose' else r
        r = r[0].a if r[0].op == 'vec' else r
    return None if len(r) != 4 or not all(isnum(x) for x in r) else [float(num(x)) for x in r] == [0.0, 0.0, 0.0, 1.0]


def frame_cols(t):
    """the three axes and the origin of a frame built from blocks or written column by column"""
    if t.op == 'blocks' and (len(t.a) in (4, 5) or len(t.a) == 8 and all(isnum(x) for x in t.a[4:])):
        return list(t.a[:4])
    if t.op == 'call' and t.a[0] == 'identity' or t.op == 'call' and t.a[0] == 'glob' and t.a[1].split('::')[-1] in ('IDENTITY_AFFINE', 'IDENTITY_MAT4'):
        return [mk('vec', *(Real(1.0) if i == j else Real(0.0) for i in range(3))) for j in range(4)]
    if t.op == 'setv':
        c, k, v = frame_cols(t.a[0]), t.a[1], t.a[2]
        if c is None:
            return None
        m = re.match(r'(@linear)?@col:([0-3])(@head:3|@topRows:3)?$', k)
        if m and (m.group(1) or m.group(3)):
            c[int(m.group(2))] = v
        elif k == '@translation':
            c[3] = v
        elif k == '@linear' and v.op == 'blocks' and len(v.a) == 3:
            c[:3] = v.a
        elif k == '@linear':
            c[:3] = [mk('fld', v, '@col:%d' % j) for j in range(3)]
        else:
            return None
        return c
    return None


# ------------------------------------------------------------------------ C03
def aggregates(ck):
    ck.rule = """Value-number comparison on every exit of the overall read-outs: area and volume must be the plain sum of the
    per-slice value over all slices; point, normal, friction and depth must be the volume-weighted mean on the paths whose
    guards exclude a (near) zero total volume and the plain mean over the slices on the others, the normal being normalised."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        N = sh.N
        vol = sumt(lambda i: init(LF(LI(sh.out, i), 'volume')), Int(0), N)
        for name, fld in READ.items():
            fs = [g for g in p.fn(SHELL + '::' + name) if len(g['params']) == 1 and 'std::vector' not in g['params'][0]['t']]
            if len(fs) != 1:
                raise AnalysisBroken('overall read-out %s not found' % name)
            f = fs[0]
            it = ck.run(f, env=sh.entry(), facts={mkop('<', Int(0), N): True})
            vec = fld in VEC
            val = lambda i: init(LF(LI(sh.out, i), fld))
            plain = sumt(val, Int(0), N)
            mul = 's*' if vec else '*'
            div = 'v/' if vec else '/'
            wsum = sumt(lambda i: mkop(mul, init(LF(LI(sh.out, i), 'volume')), val(i)), Int(0), N)
            mean = mkop(div, plain, N)
            wmean = mkop(div, wsum, vol)
            if fld == 'normal':
                mean, wmean = mk('call', 'normalized', mean), mk('call', 'normalized', wmean)
            ck.require(bool(it.rets), f, 'returns')
            nw = 0
            for s, v in it.rets:
                got = it.load(s, P(it, 0))
                if fld in ('area', 'volume'):
                    ck.require(veq(got, plain, False), f, 'overall %s is the sum over the slices' % fld, show(got))
                    continue
                small = small_volume(it, s, vol)
                if Norm().eq(got, wmean, vec):
                    nw += 1
                    ck.require(small is False, f, 'volume-weighted mean only where the total volume is known not to vanish',
                               'path facts %s' % facts_text(s))
                elif Norm().eq(got, mean, vec):
                    ck.require(small is True, f, 'plain mean only where the total volume is below the threshold',
                               'path facts %s' % facts_text(s))
                else:
                    ck.require(None if poisoned(got) else False, f, 'overall %s is the (volume-weighted) mean over the slices' % fld, show(got))
            if fld not in ('area', 'volume'):
                ck.require(nw > 0, f, 'some path yields the volume-weighted mean')


def small_volume(it, s, vol):
    """True: total volume below a small positive constant; False: known above one; None"""
    N = Norm()
    kv = N.s(vol).key()
    if any(pol is False and t.op == 'op' and t.a[0] == '==' and t.a[1] is t.a[2] and N.s(t.a[1]).key() == kv for t, pol in s.facts.items()):
        return False        # not a number
    for t, pol in s.facts.items():
        if t.op != 'op' or t.a[0] not in ('<', '<='):
            continue
        a, b = t.a[1], t.a[2]
        if N.s(a).key() == kv and tiny(it, b):
            return pol
        if N.s(b).key() == kv and tiny(it, a):
            return not pol
        if a.op == 'call' and a.a[0] == 'abs' and N.s(a.a[1]).key() == kv and tiny(it, b):
            return pol
        if b.op == 'call' and b.a[0] == 'abs' and N.s(b.a[1]).key() == kv and tiny(it, a):
            return not pol
    return None


def tiny(it, t):
    if t.op in ('int', 'real'):
        return 0 < t.a[0] <= 1e-6
    if t.op == 'call' and t.a[0] == 'glob':
        return str(t.a[1]).split('::')[-1].startswith('EPSILON')
    return False


def facts_text(s):
    return '; '.join('%s is %s' % (show(f)[:120], v) for f, v in list(s.facts.items())[:8])


# ------------------------------------------------------------------------ C04
def envelop_summaries(p, only=('envelop', 'envelopGeometric', 'envelopSampling')):
    """per-slice contact kernels as uninterpreted functions of (slice, arguments): outcome ENV(..), record OUT(ENV(..))"""
    def mksum(kind):
        def sm(it, s, e, fr, obj, args):
            t = mk('call', 'ENV', kind, obj, *[norm_arg(it, s, a) for a in args[:-1]])
            r = []
            for b in (True, False):
                x = it.assume(s, t, b)
                if x is None:
                    continue
                x = x.copy()
                it.store(x, args[-1][1], mk('call', 'OUT', t), e, fr)
                r.append((x, Bool(b)))
            return r
        return sm

    def none(it, s, e, fr, obj, args):
        x = s.copy()
        t = mk('call', 'ENV', 'none', obj, *[norm_arg(it, s, a) for a in args[:-1]])
        it.store(x, args[-1][1], mk('call', 'OUT', t), e, fr)
        return [(x, FALSE)]
    r = {}
    for n in only:
        for f in p.fn('enve::rib::' + n):
            r[f['u']] = none if len(f['params']) == 2 else mksum(n)
    return r


def norm_arg(it, s, a):
    """value of an argument, or the object it designates when that object is a container / polymorphic object"""
    if a[0] == 'l':
        l = a[1]
        t = strip(a[2])
        if t.startswith('std::vector') or it.is_object(t) and not t.startswith('Eigen'):
            return l
        return it.load(s, l)
    return a[1]


def ident(it, s, e, fr, obj, args):
    return [(s.copy(), VOID)]


def setup(ck):
    ck.rule = """Abstract interpretation of both set-up entry points with the per-slice contact kernels uninterpreted: on every
    normal exit the stored pose is the pose argument, the bounding box is the pose origin -/+ the maximum radius (and is the
    box used to query the mesh), every result slot i in [0, number of slices) holds the kernel result of slice i for this
    ground, pose and method (the no-contact record where the mesh query found nothing), and the verdict is the disjunction of
    the per-slice verdicts - false where no kernel ran."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        fs = p.fn(SHELL + '::setup')
        if len(fs) < 2:
            raise AnalysisBroken('set-up entry points not found')
        bb = field_of_type(p, SHELL, lambda t: 'shared_ptr' in t and 'aabb' in t, 'the bounding box')
        bbox = LF(THIS, bb)
        for f in fs:
            summ = envelop_summaries(p)
            queries = []

            def q(it, s, e, fr, obj, args, queries=queries):
                x = s.copy()
                box = args[0]
                bl = it.load(s, box[1]) if box[0] == 'l' else box[1]
                it.havoc(x, args[-1][1], 'hits')
                queries.append((bl, box_of(it, s, LD(bl)), args[-1][1], it.size_of(x, args[-1][1])))
                return [(x, mkop('<', Int(0), it.size_of(x, args[-1][1])))]        # decided by M04
            for g in p.fn('enve::ground::mesh::intersection'):
                summ[g['u']] = q

            def refine(it, s, e, fr, obj, args):
                x = s.copy()
                x.env[LF(sh.cand, '#ver')] = mk('cand', s.env.get(LF(args[0][1], '#ver'), args[0][1]))
                return [(x, VOID)]
            for g in p.fn(SHELL + '::refineIntersection'):
                summ[g['u']] = refine
            for g in p.fn('acme::aabb::updateMaxMin'):
                summ[g['u']] = ident
            it = ck.run(f, env=sh.entry(), summaries=summ)
            names = {q2['n']: strip(q2['t']) for q2 in f['params']}
            pose = [l for n, l in it.params.items() if 'Transform' in names[n] or 'affine' in names[n]][0]
            meth = [l for n, l in it.params.items() if 'basic_string' in names[n]][0]
            grd = [l for n, l in it.params.items() if 'ground' in names[n]][0]
            mesh = 'mesh' in names[[n for n in it.params if it.params[n] is grd][0]]
            ck.require(bool(it.rets), f, 'returns')
            if mesh:
                ck.require(bool(queries), f, 'the mesh is queried')
            T = mk('fld', init(pose), '@translation')
            R = max_radius(ck, p)
            lo = mkop('-', T, mk('vec', R, R, R))
            hi = mkop('+', T, mk('vec', R, R, R))
            for bl, (a, b), _, _ in queries:
                ck.require(bl is init(bbox), f, 'the mesh is queried with the bounding box of the shell', show(bl))
                ck.require(veq(a, lo, True), f, 'query box minimum is origin - max radius', show(a))
                ck.require(veq(b, hi, True), f, 'query box maximum is origin + max radius', show(b))
            for s, v in it.rets:
                got = it.load(s, sh.pose)
                ck.require(True if got is init(pose) else (None if poisoned(got) else False), f, 'stored pose is the pose given', show(got))
                a, b = box_of(it, s, LD(it.load(s, bbox)))
                ck.require(veq(a, lo, True), f, 'bounding box minimum is origin - max radius', show(a))
                ck.require(veq(b, hi, True), f, 'bounding box maximum is origin + max radius', show(b))
                x, j = J(it, s, sh.N)
                if x is None:
                    continue
                cell = LI(sh.out, j)
                val = it.load(x, cell)
                slot_ok(ck, it, f, x, val, cell, j, sh, grd, init(pose), init(meth), mesh, queries)
                w, why = verdict(it, s, v)
                ck.require(w, f, 'the verdict is the disjunction of the slice verdicts', why)


def box_of(it, s, loc):
    return it.load(s, LF(loc, box_field(it.prog, 'min'))), it.load(s, LF(loc, box_field(it.prog, 'max')))


def box_field(p, which):
    """the corner fields of a box: the ones handed out by the accessors min()/max()"""
    c = getattr(p, '_box', None)
    if c is None:
        c = p._box = {}
    if which not in c:
        for f in p.fn('acme::aabb::' + which):
            if not f['params']:
                it = Interp(p)
                rets, _ = it.analyse(f)
                v = rets[0][1]
                if v.op == 'addr' and v.a[0].op == 'F' and v.a[0].a[0] is THIS:
                    c[which] = v.a[0].a[1]
                    break
                if v.op == 'init' and v.a[0].op == 'F' and v.a[0].a[0] is THIS:
                    c[which] = v.a[0].a[1]
                    break
        else:
            raise AnalysisBroken('box accessor %s not understood' % which)
    return c[which]


def max_radius(ck, p):
    f = p.one(SHELL + '::surfaceMaxRadius')
    it = ck.run(f)
    vs = {deref(it, r) for r in it.rets}
    if len(vs) != 1:
        raise AnalysisBroken('surfaceMaxRadius has several outcomes')
    return vs.pop()


def slot_ok(ck, it, f, x, val, cell, j, sh, grd, pose, meth, mesh, queries):
    what = 'result slot i holds the outcome of slice i for this ground, pose and method'
    cells = [val]
    ver = x.env.get(LF(sh.out, '#ver'))
    if ver is not None and ver.op == 'forall' and it.passed_over(x, sh.out, j, ver):
        ck.require(False, f, what, 'a slice is passed over: %s' % show(it.loops[ver.a[0]]['range'][0]))
        return
    if val.op == 'init' or not (val.op == 'call' and val.a[0] == 'OUT'):
        # the loop stores different outcomes on its ends: look at the recorded values
        cells = written(it, x, sh.out, j)
        if cells is None:
            ck.require(None if poisoned(val) and val.op != 'init' else False, f, what, 'slot i is %s' % show(val))
            return
    for c in cells:
        if not (c.op == 'call' and c.a[0] == 'OUT'):
            ck.require(None if poisoned(c) else False, f, what, show(c))
            continue
        E = c.a[1]
        kind, obj, args = E.a[1], E.a[2], E.a[3:]
        ok = obj is LI(sh.ribs, j)
        if kind == 'none':
            # only where the query found nothing
            ok = ok and pose in args
            if not mesh:
                ok = False
            empty = any(it.truth(x, mkop('==', z, Int(0))) is True or it.truth(x, mkop('<=', z, Int(0))) is True or
                        it.truth(x, mkop('<', z, Int(1))) is True for _, _, _, z in queries)
            ck.require(ok and empty, f, what, 'no-contact record written although triangles may have been found: %s; %s' % (show(c), facts_text(x)))
            continue
        ok = ok and pose in args and (meth in args or kind != 'envelop')
        if mesh:
            ok = ok and LI(sh.cand, j) in args
            ver = x.env.get(LF(sh.cand, '#ver'))
            if ok and ver is None:
                ck.require(False, f, 'the candidate lists are those of this query', 'stale candidate lists')
            elif ok and ver.op == 'cand':
                ck.require(any(contains(ver, h) for _, _, h, _ in queries), f, 'the candidate lists are those of this query', show(ver))
        else:
            ok = ok and (grd in args)
        ck.require(ok, f, what, show(c))


def written(it, s, cont, j):
    ver = s.env.get(LF(cont, '#ver'))
    if ver is None or ver.op != 'forall':
        return None
    info = it.loops[ver.a[0]]
    vals = [v for c, vs in info.get('elems', {}).items() if c[0] is cont and c[1] == () for v in vs]
    if not vals:
        return None
    return [subst(v, {ver.a[1]: j}) for v in vals]


def verdict(it, s, v):
    """is v the disjunction of the ENV outcomes of the loop(s)?  -> (True/False/None, text)"""
    ran = [k for k, i in it.loops.items() if any(is_env(t) for e in i.get('ends', []) for t in e.facts)]
    ran = [k for k in ran if loop_on_path(it, s, k)]
    if v is FALSE:
        return (True, '') if not ran else (None if not ran else False, 'constant false although slices were evaluated')
    if v is TRUE:
        for k in ran:
            # true known because the accumulated flag was tested
            for t, pol in s.facts.items():
                if t.op == 'phi' and t.a[0] == k and pol and acc_ok(it, k, t)[0]:
                    return True, ''
        return False, 'constant true'
    neg = False
    if v.op == 'op' and v.a[0] == '!':
        neg, v = True, v.a[1]
    if v.op == 'op' and v.a[0] == '<' and v.a[1] is Int(0) and v.a[2].op == 'phi':
        ph, mode = v.a[2], 'count'
    elif v.op == 'phi':
        ph, mode = v, 'flag'
    else:
        return (None if poisoned(v) or any(y.op == 'sum' for y in subterms(v)) else False), show(v)
    if neg:
        return False, show(v)
    return acc_ok(it, ph.a[0], ph, mode)


def is_env(t):
    return t.op == 'call' and t.a[0] == 'ENV'


def loop_on_path(it, s, k):
    """did the path of state s go through loop k?  (its element summary or accumulator is visible)"""
    for l, v in s.env.items():
        if l.op == 'F' and l.a[1] == '#ver' and v.op == 'forall' and v.a[0] == k:
            return True
    return any(y.op == 'phi' and y.a[0] == k for v in s.env.values() for y in subterms(v))


def acc_ok(it, k, ph, mode='flag'):
    info = it.loops.get(k)
    rec = None
    for l, r in info['rec'].items():
        if r[0] is ph:
            rec = (l, r)
    if rec is None:
        return None, 'accumulator of the verdict not found'
    l, (p2, j0, vals, g) = rec
    if mode == 'flag' and j0 is not FALSE or mode == 'count' and j0 is not Int(0):
        return False, 'the verdict starts as %s' % show(j0)
    for e in info['ends']:
        val = it.load(e, l)
        env = [(t, pol) for t, pol in e.facts.items() if is_env(t)]
        here = [pol for t, pol in env]
        if mode == 'flag' and val.op == 'op' and val.a[0] == '||' and ph in val.a[1:] and all(x is ph or is_env(x) for x in val.a[1:]):
            continue
        if not here:
            return None, 'iteration without a slice verdict'
        hit = any(here)
        if mode == 'flag':
            known = e.facts.get(ph)
            if hit:
                ok = val is TRUE or val is ph and known is True
            else:
                ok = val is ph or val is TRUE and known is True or val is FALSE and known is False
        else:
            ok = it.truth(e, mkop('==', val, mkop('+', ph, Int(1)))) if hit else val is ph
        if not ok:
            return (None if poisoned(val) else False), 'after a slice verdict of %s the accumulated verdict is %s' % (hit, show(val))
    return True, ''


# ------------------------------------------------------------------------ C05
METHODS = {'geometric': 'envelopGeometric', 'sampling': 'envelopSampling'}


ODD_NAMES = ('', 'g', 's', 'Geometric', 'Sampling', 'GEOMETRIC', 'SAMPLING', 'geometrics', 'samplings', 'geometric ', 'sampling ', ' geometric', ' sampling',
             'mygeometric', 'resampling', 'geometri', 'samplin', 'geo', 'sampl', 'gxxxxxxxx', 'sxxxxxxx', 'xxxxxxxxc', 'xxxxxxxg', 'xxxxxxxxx', 'xxxxxxxx', 'default', 'none')


def method_rejected(ck):
    ck.rule = """Refutation by path facts: with the method name assumed different from every documented name the abstract interpretation of the
    set-up entry points (both ground kinds, at least one slice) and of the per-slice dispatchers must have no normal exit left - whatever the
    ground query returns; with the name assumed equal to a documented one the kernel of that name, and only it, runs on the slice
    with the ground and pose given and its verdict is returned."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        base = envelop_summaries(p, ('envelopGeometric', 'envelopSampling'))
        for f in p.fn('enve::rib::envelop') + p.fn(SHELL + '::setup'):
            ms = [q for q in f['params'] if 'basic_string' in q['t']]
            if not ms:
                continue
            setup_fn = f['n'].endswith('::setup')
            summ = dict(base)
            if setup_fn:
                summ.update({k: v for k, v in heavy(p).items() if p.funcs[k]['n'] in ('enve::ground::mesh::intersection', 'acme::aabb::updateMaxMin')})
                for g in p.fn(SHELL + '::refineIntersection'):
                    summ[g['u']] = ident
            i = [q['n'] for q in f['params']].index(ms[0]['n'])
            m = init(mk('V', 'p%d' % i, ms[0]['n'] or 'arg%d' % i))
            for case in (None,) + tuple(METHODS):
                fc = {mkop('<', Int(0), sh.N): True} if setup_fn else {}
                for n in METHODS:
                    fc[mkop('==', m, Str(n))] = n == case
                it = ck.run(f, env=sh.entry() if setup_fn else None, facts=fc, summaries=summ)
                if case is None:
                    if it.rets and any(contains(t, m) and t not in fc for s, v in it.rets for t in s.facts):
                        # recognised by something else than comparison: try names that are not documented
                        for name in ODD_NAMES:
                            env = dict(sh.entry() if setup_fn else {})
                            env[m.a[0]] = Str(name)
                            it2 = ck.run(f, env=env, facts={mkop('<', Int(0), sh.N): True} if setup_fn else {}, summaries=summ)
                            if it2.rets and not any(y.op == 'str' or y.op == 'call' and str(y.a[0]).startswith('str.') for s, v in it2.rets for t in s.facts for y in subterms(t)):
                                ck.require(False, f, 'an unrecognised method name never leads to a normal exit', 'method "%s" is accepted' % name)
                                break
                    for s, v in it.rets:
                        other = [t for t in s.facts if contains(t, m) and t not in fc]
                        ck.require(None if other else False, f, 'an unrecognised method name never leads to a normal exit', facts_text(s))
                    ck.require(not it.rets or None, f, 'an unrecognised method name is rejected')
                    continue
                ck.require(bool(it.rets), f, 'method "%s" is accepted' % case)
                kinds = set()
                for s, v in it.rets:
                    kinds |= {t.a[1] for l, val in s.env.items() for t in subterms(val) if is_env(t)}
                    if not setup_fn:
                        out = [l for q, l in zip(f['params'], it.params.values()) if strip(q['t']) == OUT][0]
                        o = it.load(s, out)
                        E = o.a[1] if o.op == 'call' and o.a[0] == 'OUT' else None
                        ck.require(E is not None and E.a[1] == METHODS[case] and E.a[2] is THIS, f, 'method "%s" runs its own kernel on this slice' % case, show(o))
                        if E is not None:
                            rest = [l for q, l in zip(f['params'], it.params.values()) if l is not out and q is not ms[0]]
                            want = {l if l in E.a[3:] else it.load(s, l) for l in rest}
                            ck.require(set(E.a[3:]) == want, f, 'the kernel receives the ground and pose given', show(E))
                            ck.require(s.facts.get(E) is (v is TRUE), f, 'the kernel verdict is returned', show(v))
                for k in it.loops.values():
                    for e in k.get('ends', []):
                        kinds |= {t.a[1] for t in e.facts if is_env(t)}
                ck.require(kinds <= {METHODS[case], 'none'}, f, 'method "%s" runs no other kernel' % case, str(kinds))


# ------------------------------------------------------------------------ C10
def spread(it, e):
    """the state with comparisons of a minimum or maximum written as comparisons of the operands"""
    def one(k, a, b):
        for t, lo in ((a, True), (b, False)):
            if t.op == 'call' and t.a[0] in ('min', 'max') and len(t.a) == 3:
                u, v = (one(k, x, b) if lo else one(k, a, x) for x in t.a[1:])
                return mkop('&&' if lo == (t.a[0] == 'max') else '||', u, v)
        return mkop(k, a, b)
    new = {}
    for t, w in e.facts.items():
        m = {y: one(*y.a) for y in subterms(t) if y.op == 'op' and y.a[0] in ('<', '<=') and
             any(x.op == 'call' and x.a[0] in ('min', 'max') for x in y.a[1:])}
        new[subst(t, m) if m else t] = w
    x = e.copy()
    x.facts = new
    return x


# ------------------------------------------------------------------------ C10
def candidates(ck):
    ck.rule = """Induction over the candidate selection of the mesh set-up (mesh query uninterpreted): for a generic slice j and found
    triangle i, in every iteration state of the selection loop the triangle is appended to the list of slice j unless the path facts
    say that its three vertices lie strictly on one side of the plane of the slice; lists are emptied first and the loops visit
    every triangle and every slice.  With the method name assumed to be "sampling" (its probes stand beside the slice plane) no
    iteration of the selection loop may end without appending."""
    for prog in ('lib', 'tbx'):
        p = ck.load(prog)
        sh = Shell(p)
        fs = [f for f in p.fn(SHELL + '::setup') if any('mesh' in q['t'] for q in f['params'])]
        if len(fs) != 1:
            raise AnalysisBroken('mesh set-up not found')
        f = fs[0]
        hits = []

        def q(it, s, e, fr, obj, args):
            x = s.copy()
            it.havoc(x, args[-1][1], 'hits')
            hits.append((args[-1][1], it.size_of(x, args[-1][1])))
            return [(x, mkop('<', Int(0), it.size_of(x, args[-1][1])))]        # decided by M04
        summ = envelop_summaries(p)
        for g in p.fn('enve::ground::mesh::intersection'):
            summ[g['u']] = q
        for g in p.fn('acme::aabb::updateMaxMin'):
            summ[g['u']] = ident
        it = ck.run(f, env=sh.entry(), summaries=summ, disj_limit=16)
        select(ck, p, it, sh, f, hits)
        ms = [l for n, l in it.params.items() if any(q['n'] == n and 'basic_string' in q['t'] for q in f['params'])]
        if len(ms) == 1:
            m = init(ms[0])
            hits.clear()
            fc = {mkop('==', m, Str(n)): n == 'sampling' for n in METHODS}
            everything(ck, ck.run(f, env=sh.entry(), facts=fc, summaries=summ, disj_limit=16), sh, f)


def everything(ck, it, sh, f):
    """the probes of the sampling method stand beside the slice plane: no triangle found is left out of any slice"""
    inner = {k: i for k, i in it.loops.items()
             if any(appended(it, e, sh, k) and not deeper(it, k, e, sh) for e in i.get('ends', []))}
    if not inner:
        ck.require(None, f, 'with the sampling method every triangle found is handed to every slice', 'no loop hands over the triangles one by one')
    for k, info in inner.items():
        for e in info['ends']:
            app = appended(it, e, sh, k)
            null = not app and any(t.op == 'op' and t.a[0] == '==' and any(x is Int(0) for x in t.a[1:]) for t in e.facts)
            ck.require(True if app else None if null else False, info['fn'], 'with the sampling method every triangle found is handed to every slice',
                       'left out: %s' % facts_text(e)[:300])
    for k, o in it.loops.items():
        if not any(o['node'] is not i['node'] and o['fn'] is i['fn'] and inside(o['node'], i['node']) for i in inner.values()):
            continue
        for e in o.get('ends', []):
            ok = any(any(r['node'] is i['node'] for i in inner.values()) for r in passed(it, e))
            ck.require(ok, o['fn'], 'with the sampling method every triangle found is handed to every slice', 'skipped: %s' % facts_text(e)[:300])


def select(ck, p, it, sh, f, hits):
    if not hits:
        raise AnalysisBroken('the mesh query of the set-up was not found')
    hl, H = hits[-1]
    ylin = LF(sh.pose, '@linear')
    # innermost loops: those whose iteration appends to a candidate list
    inner = {}
    for k, info in it.loops.items():
        for e in info.get('ends', []):
            if appended(it, e, sh, k) and not deeper(it, k, e, sh):
                inner[k] = info
    ck.require(bool(inner), f, 'candidates are appended in a loop')
    sh.pose_value = init([l for n, l in it.params.items() if any(q['n'] == n and ('Transform' in q['t'] or 'affine' in q['t']) for q in f['params'])][0])
    cpath = accpath_center(p)
    sh.center_y = lambda j: it.comp(init(subst(cpath, {THIS: LI(sh.ribs, j)})), Int(1))
    skipped(ck, it, p, sh, f, H)
    emptied = cleared(it, sh)
    ck.require(emptied, f, 'every candidate list is emptied before the selection', 'no loop over all slices empties them')
    for k, info in inner.items():
        fn = info['fn']
        rng = info.get('range')
        outer = outer_loop(it, k)
        orng = it.loops[outer].get('range') if outer is not None else None
        ok = rng is not None and rng[0] is Int(0) and rng[1] in (sh.N, H)
        ck.require(True if ok else (None if rng is None else False), fn, 'the inner selection loop is complete', str(rng))
        ck.require(not (info.get('breaks') or info.get('returns') or info.get('early')), fn, 'the selection loop is not left early')
        if outer is not None:
            oi = it.loops[outer]
            ok = orng is not None and orng[0] is Int(0) and orng[1] in (sh.N, H) and (rng is None or orng[1] is not rng[1])
            ck.require(True if ok else (None if orng is None else False), fn, 'the outer selection loop is complete', str(orng))
            ck.require(not (oi.get('breaks') or oi.get('returns') or oi.get('early')), fn, 'the selection loop is not left early')
        if rng is None:
            continue
        tri = None
        for e in sorted(info['ends'], key=lambda e: appended(it, e, sh, k) is None):
            app = appended(it, e, sh, k)
            if app:
                cell, v = app
                tri = v
                sh.slice_index = cell.a[1]
                fromhits = v.op in ('idx', 'sel', 'init', 'fld') and any(y.op == 'fresh' for y in subterms(v)) or contains(v, hl)
                ck.require(True if fromhits else None, fn, 'what is appended is a triangle found by the query', show(v))
                continue
            e = spread(it, e)
            w, why = (None, 'loop shape') if tri is None else separated(it, e, p, sh, info, tri)
            if w is False and not why.startswith('distance from another plane') and beyond(it, e, p, sh, info, tri) is None:
                w = None
            ck.require(w, fn, 'a triangle is left out of a slice only if its vertices are strictly on one side of the slice plane', why)


def passed(it, e):
    return [it.loops[t.a[0]] for t in e.facts if t.op == 'ran' and t.a[0] in it.loops]


def skipped(ck, it, p, sh, f, H):
    """iterations of the loop over the found triangles / slices that never reach the inner selection loop"""
    inner = [i for k, i in it.loops.items() if any(appended(it, e, sh, k) for e in i.get('ends', []))]
    nodes_ = {id(i['node']) for i in inner}
    app = [appended(it, e, sh, k) for k, i in it.loops.items() for e in i.get('ends', []) if appended(it, e, sh, k)]
    tri = [v for _, v in app]
    sh.slice_index = app[0][0].a[1] if app else Int(0)
    n = 0
    for k, o in it.loops.items():
        if not any(o['node'] is not i['node'] and o['fn'] is i['fn'] and inside(o['node'], i['node']) for i in inner):
            continue
        for e in o.get('ends', []):
            n += 1
            if any(id(i['node']) in nodes_ for i in passed(it, e)):
                ck.require(True, o['fn'], 'every iteration of the outer selection loop reaches the inner one')
                continue
            own = [t for t in tri if contains(t, o['iv'])]
            w = None if not own else beyond(it, e, p, sh, o, own[0])
            ck.require(w, o['fn'], 'an iteration of the outer selection loop that skips the inner one is separated from every slice',
                       'left out although its vertices may lie on both sides of every slice plane: %s' % facts_text(e)[:300])
    return n


def beyond(it, e, p, sh, info, tri):
    """extended-sign evaluation: with the vertices beyond every bound on different sides of the tyre, some fact of the path must be
    refuted (True); no fact refuted and all evaluated: False; otherwise unknown (None)"""
    N = Norm()
    specs = spec_distances(N, p, sh, info, tri, False)
    keys = {}
    for v, forms in enumerate(specs):
        for q in forms:
            keys[N.s(q).key()] = (v, 1)
            keys[N.s(q).scale(-1).key()] = (v, -1)
    inf = float('inf')
    res = True
    vx = [x.a[0] for x in vertices(p, tri)]

    def tr(t):
        return it.truth(e, t) if t.op in ('op', 'init', 'call') else None
    import itertools
    for sg in itertools.product((-inf, inf), repeat=3):
        if sg in ((-inf,) * 3, (inf,) * 3):
            continue
        contra, unknown = False, False
        for t, pol in e.facts.items():
            if t.op == 'ran' or not is_distance(t) or not any(contains(t, x) for x in vx):
                continue
            r = extended(N, t, keys, sg, tr)
            if r is None:
                unknown = True
            elif r is not FIN and bool(r) != pol:
                contra = True
                break
        if not contra:
            if not unknown:
                return False
            res = None
    return res


FIN = 'finite'


def extended(N, t, keys, sg, tr):
    """value of t: a number (also +-inf), bool, FIN (some finite value) or None (unknown)"""
    inf = float('inf')
    if t.op in ('int', 'real', 'bool'):
        return t.a[0]
    if not is_distance(t):
        b = tr(t)
        return FIN if b is None else b
    if t.op in ('op', 'call'):
        try:
            m = keys.get(N.s(t).key()) if t.op != 'op' or t.a[0] in ('+', '-', '*', 'neg', '/') else None
        except Exception:
            m = None
        if m is not None:
            return sg[m[0]] * m[1]
    isinf = lambda x: isinstance(x, float) and abs(x) == inf
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if t.op == 'cast':
        return extended(N, t.a[-1], keys, sg, tr)
    if t.op == 'op':
        k = t.a[0]
        a = [extended(N, x, keys, sg, tr) for x in t.a[1:]]
        if k == '&&':
            return False if any(x is False for x in a) else (None if any(x is None or x is FIN for x in a) else True)
        if k == '||':
            return True if any(x is True for x in a) else (None if any(x is None or x is FIN for x in a) else False)
        if any(x is None for x in a):
            return None
        if k == '!':
            return None if a[0] is FIN else not a[0]
        if k in ('<', '<='):
            x, y = a
            if isinf(x) or isinf(y):
                x0 = x if x is not FIN else 0
                y0 = y if y is not FIN else 0
                if isinf(x) and isinf(y) and x == y:
                    return None
                return x0 < y0
            if x is FIN or y is FIN:
                return None
            return x < y if k == '<' else x <= y
        if k == 'neg':
            return a[0] if a[0] is FIN else -a[0]
        if k in ('+', '-'):
            if k == '-' and len(a) == 2:
                a = [a[0], a[1] if a[1] is FIN else -a[1]]
            i = {x for x in a if isinf(x)}
            if len(i) == 1:
                return i.pop()
            if len(i) > 1:
                return None
            return FIN if FIN in a else sum(a)
        if k == '*':
            if any(isinf(x) for x in a):
                if FIN in a or 0 in a:
                    return None
                r = 1
                for x in a:
                    r *= x
                return r
            return FIN
        return None
    if t.op == 'call':
        a = [extended(N, x, keys, sg, tr) for x in t.a[1:]]
        if t.a[0] == 'abs':
            return a[0] if a[0] is None or a[0] is FIN else abs(a[0])
        if t.a[0] in ('min', 'max') and None not in a:
            s = -1 if t.a[0] == 'min' else 1
            if any(x == s * inf for x in a):
                return s * inf
            b = [x for x in a if x != -s * inf]
            return (-s * inf) if not b else (FIN if FIN in b else (min if s < 0 else max)(b))
    return None


def appended(it, e, sh, key):
    """(cell, value) when the iteration state e grew one candidate list by one element"""
    for l, v in e.env.items():
        if l.op == 'F' and l.a[1] == '#size' and l.a[0].op == 'I' and l.a[0].a[0] is sh.cand and v.op == 'op' and v.a[0] == '+' and Int(1) in v.a:
            base = [x for x in v.a[1:] if x is not Int(1)]
            cell = LI(l.a[0], base[0])
            return l.a[0], it.load(e, cell)
    return None


def deeper(it, k, e, sh):
    return False


def outer_loop(it, k):
    best = None
    n = it.loops[k]['node']
    for k2, i2 in it.loops.items():
        if k2 != k and i2['node'] is not n and i2.get('fn') is it.loops[k]['fn'] and inside(i2['node'], n):
            if best is None or k2 < k:
                best = k2 if best is None or inside(it.loops[best]['node'], i2['node']) else best
    return best


def inside(a, b):
    return bool(nodes(a.get('body'), lambda x: x is b))


def cleared(it, sh):
    """some complete loop over the slices leaves every candidate list empty at each iteration end, or the lists are rebuilt"""
    for k, info in it.loops.items():
        rng = info.get('range')
        if rng is None or rng[0] is not Int(0) or rng[1] is not sh.N or info.get('breaks'):
            continue
        ok = bool(info['ends'])
        for e in info['ends']:
            z = it.size_of(e, LI(sh.cand, info['iv']))
            if not (it.truth(e, mkop('==', z, Int(0))) is True):
                ok = False
        if ok:
            return True
    # or the container itself is cleared / reassigned
    for k, info in it.loops.items():
        for e in info.get('ends', []):
            v = e.env.get(LF(sh.cand, '#ver'))
            if v is not None and any(y.op == 'vecnew' for y in subterms(v)):
                return True
    return False


def separated(it, e, p, sh, info, tri):
    """do the facts of e force the three signed distances to one strict side?  The sign of each distance is enumerated (9+18
    combinations of {-,0,+}); every combination that is not all-minus / all-plus must contradict a fact."""
    N = Norm()
    dist = {}

    def collect(t):
        # comparisons of a difference with zero:  0 < x, x < 0
        for y in subterms(t):
            if y.op == 'op' and y.a[0] in ('<', '<='):
                for a, b in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                    if a.op in ('int', 'real') and a.a[0] == 0:
                        kx = N.s(b).key()
                        if kx not in dist and is_distance(b):
                            dist[kx] = b
                if not any(z.op in ('int', 'real') and z.a[0] == 0 for z in y.a[1:]):
                    for a, b in lt_pairs(y.a[1], y.a[2]):
                        d = mkop('-', b, a)
                        if is_distance(d) and not any(z.op == 'op' and z.a[0] in ('<', '<=', '==', '!', '&&', '||') for z in subterms(d)):
                            dist.setdefault(N.s(d).key(), d)
    for t in e.facts:
        collect(t)
    # which vertex, relative to the plane of which slice?
    specs = spec_distances(N, p, sh, info, tri)
    val, other = {}, []
    for kx, d in dist.items():
        m = None
        for v, forms in enumerate(specs):
            for q in forms:
                if N.s(d).eq(N.s(q)):
                    m = (v, 1)
                elif N.s(d).eq(N.s(q).scale(-1)):
                    m = (v, -1)
        if m is None:
            other.append(d)
            continue
        val[kx] = m
    vx = vertices(p, tri)
    other = [d for d in other if any(contains(d, x) for x in vx)] or other
    if not val and other:
            d = other[0]
            if all(other_plane(d, p, sh, tri) for d in other):
                return False, 'distance from another plane than that of the slice: %s, expected e.g. %s' % (show(d), show(specs[0][0]))
            return (None if poisoned(d) else False), 'not the distance of a vertex from the plane of the slice: %s, expected e.g. %s' % (show(d), show(specs[0][0]))
    if not dist:
        return None, 'no vertex distance in the facts: %s' % facts_text(e)
    import itertools
    for sg in itertools.product((-1, 0, 1), repeat=3):
        if sg in ((-1, -1, -1), (1, 1, 1)):
            continue
        cur = {kx: sg[v] * f for kx, (v, f) in val.items()}
        contra = False
        for t, pol in e.facts.items():
            r = evsign(N, t, cur)
            if r is not None and bool(r) != pol:
                contra = True
                break
        if not contra:
            return (None if any(poisoned(d) for d in other) else False), 'left out although the vertices have signs %s relative to the slice plane' % (sg,)
    return True, ''


def accpath_center(p):
    from .rib import accpath
    return accpath(p, 'enve::rib', 'center')


def vertices(p, tri):
    g = [f for f in p.fn('acme::triangle::vertex') if f.get('const') and len(f['params']) == 1][0]
    it = Interp(p)
    rets, _ = it.analyse(g)
    l = rets[0][1].a[0]
    if l.op != 'I':
        raise AnalysisBroken('triangle::vertex not understood')
    i2 = init(P(it, 0))
    return [init(subst(l, {THIS: LD(tri), i2: Int(v)})) for v in range(3)]


def other_plane(d, p, sh, tri):
    """d is the signed distance of a vertex from a plane that has another normal than the slice"""
    while d.op == 'op' and d.a[0] in ('-', '+', 'neg') and not (d.a[1].op == 'op' and is_distance(d.a[1]) and len(d.a) > 2 and is_distance(d.a[2])):
        k = [x for x in d.a[1:] if is_distance(x)]
        if len(k) != 1:
            return False
        d = k[0]
    if d.op != 'call' or d.a[0] != 'dot':
        return False
    vx = vertices(p, tri)
    for a, n in ((d.a[1], d.a[2]), (d.a[2], d.a[1])):
        if any(contains(a, x) for x in vx) and not any(contains(n, x) for x in vx) and not poisoned(n) and not poisoned(subst(a, {x: sh.pose_value for x in vx})):
            Y = mk('call', 'normalized', mk('fld', mk('fld', sh.pose_value, '@linear'), '@col:1'))
            n = mk('call', 'normalized', n)
            return same_value(n, Y, True) is False and same_value(mkop('neg', n), Y, True) is False
    return False


def spec_distances(N, p, sh, info, tri, shifted=True):
    j = sh.slice_index
    T, L = mk('fld', sh.pose_value, '@translation'), mk('fld', sh.pose_value, '@linear')
    Y = mk('fld', L, '@col:1')
    r = []
    for x in vertices(p, tri):
        ds = [mk('call', 'dot', mkop('-', x, T), y) for y in (mk('call', 'normalized', Y), Y)]
        r.append([mkop('-', d, sh.center_y(j)) for d in ds] + ([] if shifted else ds))
    return r


def is_distance(t):
    return any(y.op == 'call' and y.a[0] in ('dot', 'norm') for y in subterms(t))


def lt_pairs(a, b):
    """the plain comparisons hidden in a comparison of minima / maxima"""
    if a.op == 'call' and a.a[0] in ('min', 'max'):
        return [q for x in a.a[1:] for q in lt_pairs(x, b)]
    if b.op == 'call' and b.a[0] in ('min', 'max'):
        return [q for x in b.a[1:] for q in lt_pairs(a, x)]
    return [(a, b)]


def evsign(N, t, val):
    """evaluate a fact under an assignment of signs to the distances"""
    if t.op in ('int', 'real', 'bool'):
        return t.a[0]
    if t.op == 'op':
        k = t.a[0]
        if k in ('<', '<='):
            for a, b, flip in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
                if a.op in ('int', 'real') and a.a[0] == 0:
                    s = val.get(N.s(b).key())
                    if s is not None:
                        x, y = (s, 0) if flip else (0, s)
                        return x < y if k == '<' else x <= y
            for n_, conj in ((1, {'max': all, 'min': any}), (2, {'max': any, 'min': all})):
                m = t.a[n_]
                if m.op == 'call' and m.a[0] in conj:
                    r = [evsign(N, mk('op', k, *((x, t.a[2]) if n_ == 1 else (t.a[1], x))), val) for x in m.a[1:]]
                    return None if None in r else conj[m.a[0]](r)
            if is_distance(t):
                s = val.get(N.s(mkop('-', t.a[2], t.a[1])).key())
                if s is not None:
                    return 0 < s if k == '<' else 0 <= s
        a = [evsign(N, x, val) for x in t.a[1:]]
        if k == '&&':
            return False if any(x is not None and not x for x in a) else (None if None in a else True)
        if k == '||':
            return True if any(a_ for a_ in a if a_ is not None) else (None if None in a else False)
        if None in a:
            return None
        try:
            if k == '+': return a[0] + a[1]
            if k == '-': return a[0] - a[1]
            if k == '*': return a[0] * a[1]
            if k == 'neg': return -a[0]
            if k == '!': return not a[0]
            if k == '<': return a[0] < a[1]
            if k == '<=': return a[0] <= a[1]
            if k == '==': return a[0] == a[1]
        except TypeError:
            return None
        return None
    if t.op == 'call' and t.a[0] == 'abs' and len(t.a) == 2:
        x = evsign(N, t.a[1], val)
        return None if x is None else abs(x)
    if t.op == 'cast':
        return evsign(N, t.a[-1], val)
    return None
