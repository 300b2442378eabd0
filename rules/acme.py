"""Rules about the geometric kernel: entity dispatch, predicates, intersections, entities, collections."""
from .base import *
from .shell import J, veq, deref, facts_text
from .rib import accpath, at, add, sub, mul, call

KINDS = ('none', 'point', 'line', 'ray', 'plane', 'segment', 'triangle', 'disk', 'ball')
LEVEL = dict(zip(KINDS, range(9)))
LINEAR = ('line', 'ray', 'segment')
PLANAR = ('plane', 'triangle', 'disk')
A = 'acme::'


def kind_of(t):
    """entity kind of a parameter type, or None"""
    s = strip(t.replace('*', '').strip())
    return s[len(A):] if s.startswith(A) and s[len(A):] in KINDS else None


def result_kinds(a, b, sit):
    """the kinds of entity that may be returned when entities of kinds a, b meet; None when the pair is not supported"""
    u = frozenset((a, b))
    if 'none' in u:
        return None
    if 'point' in u:
        return None if 'ball' in u else {'point'}
    lin = [k for k in (a, b) if k in LINEAR]
    pla = [k for k in (a, b) if k in PLANAR]
    if len(lin) == 2:
        if sit == 'collinear':
            if u == {'ray'}:
                return {'ray', 'segment'}
            return {'segment'} if 'segment' in u else {'ray'} if 'ray' in u else {'line'}
        return {'point'} if sit == 'coplanar' else set()
    if 'ball' in u:
        if lin:
            return {'segment'}
        return {'disk'} if 'plane' in u else None
    if lin:
        if sit == 'coplanar':
            return {lin[0]} if pla[0] == 'plane' else {'segment'}
        return {'point'}
    if sit == 'coplanar':
        if u == {'plane'}:
            return {'plane'}
        if 'plane' in u:
            return set(u - {'plane'})
        return {'none'}
    return {'line'} if u == {'plane'} else {'segment'}


class Own(Hooks):
    """counts deletions along each path; notes null or deleted objects handed on"""

    def __init__(self):
        self.bad = []

    def delete(self, it, s, node, fr, v, dry):
        if dry or v is NULL:
            return
        if v.op != 'addr' or v.a[0].op != 'H':
            self.bad.append((node, 'deletes %r, which it does not own' % (v,)))
            return
        k = mk('V', 'p:ghost:del', v.a[0])
        n = s.env.get(k)
        s.env[k] = Int(1 if n is None else n.a[0] + 1)


def deleted(s, l):
    k = s.env.get(mk('V', 'p:ghost:del', l))
    return 0 if k is None else k.a[0]


def obj_of(it, s, a):
    """location of the object a reference/pointer argument designates"""
    if a[0] == 'l':
        return a[1]
    v = a[1]
    if v.op in ('addr', 'objat'):
        return v.a[0]
    return mk('D', v)


def dispatch(ck):
    ck.rule = """For every ordered pair of entity kinds (9 x 9) and every relative position the dispatcher distinguishes (collinear, coplanar,
    neither) the entity-level function is interpreted with operands of these dynamic types; virtual calls and dynamic casts are resolved
    on the dynamic types and the functions on concrete kinds stay uninterpreted.  On every path they must receive the two operands as
    objects of their own kind and the caller's tolerance.  Intersection must return an entity of the kind this pair and position
    give, filled by the call that reported the contact, or a `none` when no call reports one; every other entity it created is deleted
    exactly once and never used afterwards; only unsupported pairs raise an error.  The predicates must return the answer of
    the function on the concrete kinds if there is one for this pair and false otherwise.  The answer does not depend on the order."""
    p = ck.load('lib')
    ents = [f for f in p.funcs.values() if f.get('body') and f['n'].startswith(A) and len(f['params']) == 3 and
            [strip(q['t'].replace('*', '')) for q in f['params'][:2]] == [A + 'entity'] * 2]
    names = sorted(f['n'] for f in ents)
    if names != [A + n for n in ('Intersection', 'IsCollinear', 'IsCoplanar', 'IsOrthogonal', 'IsParallel')]:
        raise AnalysisBroken('entity-level functions found: %s' % names)
    typed = {}
    for f in p.funcs.values():
        if f['n'] in names and f not in ents and f.get('body'):
            typed.setdefault(f['n'], []).append(f)
    for fn in ents:
        if fn['n'] == A + 'Intersection':
            _intersection(ck, p, fn, typed)
        else:
            _predicate(ck, p, fn, typed)


def _operands(ck, fn, what, f, objs, L, it):
    """check the entity arguments of a call on concrete kinds -> True if they are the two operands, each as its own kind"""
    ks = [kind_of(q['t']) for q in f['params']]
    got = [(k, o) for k, o in zip(ks, objs) if k is not None]
    ok = len(got) == 2 and {o for _, o in got} == set(L) and all(it.dyn(o) == A + k for k, o in got)
    ck.require(ok, fn, what + ': operands handed on as their own kinds',
               'calls %s on %s' % (sig(f), [(k, it.dyn(o) or repr(o)) for k, o in zip(ks, objs) if k]))
    return ok


def _tol(ck, it, s, fn, what, f, args):
    i = [j for j, q in enumerate(f['params']) if strip(q['t']) == 'double']
    tol = init(P(it, 2))
    for j in i:
        v = it.argval(s, args[j])
        ck.require(True if v is tol else veq(v, tol, False), fn, what + ': tolerance of the caller used',
                   'calls %s with tolerance %r' % (sig(f), v))


def _same_use(x, y):
    return True if x == y else None


def _predicate(ck, p, fn, typed):
    name = fn['n']
    mine = typed[name]
    for a in KINDS:
        for b in KINDS:
            la, lb = mk('V', 'p:a', a), mk('V', 'p:b', b)
            what = '%s(%s, %s)' % (name[len(A):], a, b)
            over = [f for f in mine if sorted(kind_of(q['t']) or '?' for q in f['params'][:2]) == sorted((a, b))]
            used = []

            def summ(f0):
                def f(it, s, e, fr, obj, args):
                    if not it.dry:
                        objs = [obj_of(it, s, x) for x in args[:2]]
                        _operands(ck, fn, what, f0, objs, (la, lb), it)
                        _tol(ck, it, s, fn, what, f0, args)
                        used.append(f0)
                    return [(s, mk('call', 'answer', Int(f0['l'])))]
                return f
            sm = {f['u']: summ(f) for n in typed for f in typed[n] if n != A + 'Intersection'}
            it = ck.run(fn, args=[mk('addr', la), mk('addr', lb), None], dyntype={la: A + a, lb: A + b}, summaries=sm, hooks=Own())
            ck.require(not it.thrown, fn, what + ': answers without error', 'raises an error')
            for s, v in it.rets:
                if over:
                    ok = [mk('call', 'answer', Int(f['l'])) for f in over]
                    t = it.truth(s, v)
                    if t is not None and v not in ok:
                        good = any(it.truth(s, o) is t for o in ok)
                    else:
                        good = v in ok or (None if v.op in ('call', 'fresh') and not repr(v).startswith('answer') else False)
                    ck.require(good, fn, what + ': answer of the predicate on these kinds', 'returns %r' % (v,))
                else:
                    ck.require(v is FALSE or it.truth(s, v) is False, fn, what + ': unsupported pair answers false', 'returns %r' % (v,))
    ck.require(True, fn, 'all %d ordered pairs of kinds dispatched' % (len(KINDS) ** 2))


def _intersection(ck, p, fn, typed):
    inter = typed[A + 'Intersection']
    for a in KINDS:
        for b in KINDS:
            pts = 'point' in (a, b)
            sits = ['any'] if pts or 'none' in (a, b) else ['collinear', 'coplanar', 'general']
            if not pts and not (a in LINEAR and b in LINEAR):
                sits = [x for x in sits if x != 'collinear']
            if 'ball' in (a, b):
                sits = [x for x in sits if x in ('any', 'general')]
            for sit in sits:
                _meet(ck, p, fn, typed, inter, a, b, sit)


def _meet(ck, p, fn, typed, inter, a, b, sit):
    la, lb = mk('V', 'p:a', a), mk('V', 'p:b', b)
    what = '(%s, %s)%s' % (a, b, '' if sit == 'any' else ' ' + sit)
    kinds = result_kinds(a, b, sit)
    calls = {}

    def pred(f0):
        def f(it, s, e, fr, obj, args):
            if not it.dry:
                objs = [obj_of(it, s, x) for x in args[:2]]
                _operands(ck, fn, what, f0, objs, (la, lb), it)
                _tol(ck, it, s, fn, what, f0, args)
            if sit == 'any':
                return [(s, mk('call', 'answer', Int(f0['l'])))]
            if f0['n'] == A + 'IsCollinear':
                return [(s, TRUE if sit == 'collinear' else FALSE)]
            if f0['n'] == A + 'IsCoplanar':
                return [(s, TRUE if sit in ('collinear', 'coplanar') else FALSE)]
            return [(s, mk('call', 'answer', Int(f0['l'])))]
        return f

    def meet(f0):
        def f(it, s, e, fr, obj, args):
            s = s.copy()
            objs = [obj_of(it, s, x) for x in args]
            ks = [kind_of(q['t']) for q in f0['params']]
            n = sum(1 for k in ks if k)
            out = objs[n - 1]
            ins = objs[:n - 1]
            c = mk('call', 'meets', Int(f0['l']), out)
            calls[c] = (f0, out)
            if not it.dry:
                ok = len(ins) == 2 and set(ins) == {la, lb} and all(it.dyn(o) == A + k for k, o in zip(ks, ins))
                ck.require(ok, fn, what + ': operands handed on as their own kinds',
                           'calls %s on %s' % (sig(f0), [it.dyn(o) or repr(o) for o in ins]))
                _tol(ck, it, s, fn, what, f0, args)
                t = it.dyn(out)
                own = out.op == 'H' or out.op == 'V'
                ck.require(t == A + ks[n - 1] if t else (None if own else False), fn, what + ': result entity of the kind the call fills',
                           '%s fills %s' % (sig(f0), t or repr(out)))
                ck.require(not deleted(s, out), fn, what + ': no use after deletion', 'fills a deleted entity')
                if kinds is not None and ks[n - 1]:
                    ck.require(ks[n - 1] in kinds, fn, what + ': meet in the kind of this position', 'computes a %s, expected %s' % (ks[n - 1], sorted(kinds) or 'none'))
            s.env[mk('V', 'p:ghost:called', c)] = Int(1)
            it.havoc(s, out, 'met')
            return [(s, c)]
        return f
    sm = {f['u']: meet(f) for f in inter}
    for n in typed:
        if n != A + 'Intersection':
            for f in typed[n]:
                sm[f['u']] = pred(f)
    own = Own()
    it = ck.run(fn, args=[mk('addr', la), mk('addr', lb), None], dyntype={la: A + a, lb: A + b}, summaries=sm, hooks=own)
    for node, d in own.bad:
        ck.require(False, fn, what + ': deletes only what it created', d, node)
    if kinds is None:
        ck.require(not it.rets or all(it.dyn(v.a[0]) == A + 'none' for s, v in it.rets if v.op == 'addr'), fn,
                   what + ': unsupported pair gives an error or none', 'returns a result for an unsupported pair')
        return
    ck.require(not it.thrown, fn, what + ': answers without error', 'raises an error')
    ck.require(bool(it.rets), fn, what + ': answers', 'no normal exit')
    reached = set()
    for s, v in it.rets:
        pos = [c for c, w in calls.items() if it.truth(s, c) is True]
        und = [c for c, w in calls.items() if it.truth(s, c) is None and s.env.get(mk('V', 'p:ghost:called', c)) is not None]
        if v.op != 'addr' or v.a[0].op != 'H':
            ck.require(False if v is NULL or v.op == 'addr' else None, fn, what + ': returns an entity the caller owns', 'returns %r' % (v,))
            continue
        o = v.a[0]
        ck.require(not deleted(s, o), fn, what + ': no use after deletion', 'returns a deleted entity')
        k = (it.dyn(o) or '?')[len(A):]
        if pos:
            reached.add(k)
            ck.require(any(calls[c][1] is o for c in pos), fn, what + ': contact reported by the entity filled', 'returns a %s not filled by the call that reports the contact' % k)
            ck.require(k in kinds, fn, what + ': result kind', 'returns a %s, expected %s' % (k, sorted(kinds) or 'none'))
        else:
            ck.require(k == 'none', fn, what + ': none when there is no contact', 'returns a %s although no contact is reported' % k, unknown=bool(und))
        for h in [x for x in s.env if x.op == 'H']:
            n = deleted(s, h)
            if h is o:
                continue
            ck.require(n == 1, fn, what + ': every other entity deleted once', '%s deleted %d times' % (it.dyn(h), n))
    ck.require(kinds - {'none'} <= reached or not kinds - {'none'}, fn, what + ': every result kind can be returned', 'never returns %s' % sorted(kinds - reached - {'none'}))
