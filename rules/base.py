"""Shared rule machinery: obligations, verdicts, evidence, replay reports, known findings."""
import os, sys, json, time
from engine import facts
from engine.facts import AnalysisBroken
from engine.absint import *
from engine.norm import Norm, poisoned, AX
from engine.terms import *

VERIF = facts.VERIF


def apart(it, s, limit=32):
    """the states a merged state stands for"""
    todo, done = [s], []
    while todo:
        x = todo.pop()
        d = next((t for t, p in x.facts.items() if p is True and t.op == 'op' and t.a[0] == '||'), None)
        if d is None:
            done.append(x)
            continue
        for side in d.a[1:]:
            y = x.copy()
            del y.facts[d]
            y = it.assume(y, side, True)
            if y is not None:
                todo.append(y)
        if len(todo) + len(done) > limit:
            return [s]
    return done


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []          # (key, site, what, verdict, detail)
        self.prog = None
        self.functions = set()
        self.paths = 0
        self.analysed = 0
        self.units = set()
        self.rule = ''
        self.calls = 0
        self.notes = {}

    # ----------------------------------------------------------- obligations
    def site(self, fn, node=None):
        p = self.prog
        if fn is None:
            return '?'
        return '%s:%s %s' % (p.rel(fn['file']), (node or {}).get('l', fn['l']), sig(fn))

    def key(self, fn, what):
        p = self.prog
        return '%s|%s|%s' % (p.rel(fn['file']) if fn else p.name, sig(fn) if fn else '-', what)

    def require(self, cond, fn, what, detail='', node=None, unknown=False):
        """record one obligation; cond True/False/None (None = the engine cannot tell)"""
        v = 'ok' if cond is True else ('unknown' if cond is None or unknown else 'violated')
        self.obl.append((self.key(fn, what), self.site(fn, node), what, v, detail if v != 'ok' else ''))
        return cond is True

    def note(self, what, n):
        """count something for the evidence"""
        self.notes[what] = self.notes.get(what, 0) + n

    def require_at(self, cond, site, key, what, detail=''):
        v = 'ok' if cond is True else ('unknown' if cond is None else 'violated')
        self.obl.append((key, site, what, v, detail if v != 'ok' else ''))
        return cond is True

    # -------------------------------------------------------------- programs
    def load(self, name):
        self.prog = facts.load(name)
        self.units |= {self.prog.rel(u) for u in self.prog.units}
        return self.prog

    def run(self, fn, facts=None, env=None, ghost=(), args=None, dyntype=None, **kw):
        kw.setdefault('max_states', 96 if self.tier == 'quick' else 384)
        it = Interp(self.prog, **kw)
        it.dyntype = dict(dyntype or {})
        rets, throws = it.analyse(fn, facts, env, ghost, args)
        self.functions.add(fn['u'])
        self.functions |= it.inlined
        self.paths += len(rets) + len(throws)
        self.analysed += 1
        it.rets, it.thrown = rets, throws
        if it.disj_limit == 3:
            it.rets = [(y, v) for x, v in rets for y in apart(it, x)]
            for info in it.loops.values():
                if 'ends' in info:
                    info['ends'] = [y for x in info['ends'] for y in apart(it, x)]
        return it

    # --------------------------------------------------------------- verdict
    def finish(self, min_obl=1):
        if len(self.obl) < min_obl:
            raise AnalysisBroken('only %d obligations found, at least %d expected: anchors vanished' % (len(self.obl), min_obl))
        known = load_known()
        bad = {}
        unk = {}
        for k, site, what, v, d in self.obl:
            if v == 'violated':
                bad.setdefault(k, (site, what, d))
            elif v == 'unknown':
                unk.setdefault(k, (site, what, d))
        new, old = [], []
        for k, x in bad.items():
            (old if (self.pid, k) in known else new).append((k, x))
        n_ok = sum(1 for o in self.obl if o[3] == 'ok')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'wall_s': round(time.time() - self.t0, 2),
            'coverage': {
                'explanation': self.rule.strip(),
                'translation_units': len(self.units),
                'functions_analysed': len(self.functions),
                'entry_points_interpreted': self.analysed,
                'exit_states_examined': self.paths,
                'obligations': len(self.obl),
                **self.notes,
                'discharged': n_ok,
                'undecided': [{'key': k, 'site': x[0], 'what': x[1], 'detail': x[2][:300]} for k, x in list(unk.items())[:20]],
                'known_findings': [k for k, _ in old],
                'violations': [{'key': k, 'site': x[0], 'rule': x[1], 'detail': x[2][:600]} for k, x in new[:20]],
                'samples': sorted({'%s: %s' % (o[1], o[2]) for o in self.obl if o[3] == 'ok'})[:12],
            },
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations over %d functions in %d units (%d entry points, %d exit states): %d discharged, %d undecided, %d violated (%d known)' % (
            self.pid, len(self.obl), len(self.functions), len(self.units), self.analysed, self.paths, n_ok, len(unk), len(bad), len(old)))
        for k, (site, what, d) in unk.items():
            print('UNDECIDED %s: %s %s' % (site, what, d[:200]))
        for k, (site, what, d) in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, site, what))
        if new:
            rd = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + '.txt')
            with open(path, 'w') as f:
                f.write('property %s, rule applied:\n%s\n\n' % (self.pid, self.rule.strip()))
                for k, (site, what, d) in new:
                    f.write('%s\n  rule: %s\n  found: %s\n  key: %s\n\n' % (site, what, d, k))
            for k, (site, what, d) in new[:30]:
                print('  at %s\n     rule: %s\n     found: %s' % (site, what, d[:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def load_known():
    r = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, _, rest = l[len('finding: property='):].partition(' ')
                # key=<...> ## description
                k = rest.split(' ## ')[0]
                assert k.startswith('key='), l
                r.add((pid, k[4:]))
    return r


def short(t):
    for a, b in (('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string'),
                 ('std::vector<std::shared_ptr<const enve::triangleground>, std::allocator<std::shared_ptr<const enve::triangleground>>>', 'vecptr'),
                 ('Eigen::Transform<double, 3, 2, 0>', 'affine'), ('Eigen::Matrix<double, 3, 1, 0, 3, 1>', 'vec3'),
                 ('Eigen::Matrix<double, 4, 4, 0, 4, 4>', 'mat4')):
        t = t.replace(a, b)
    import re
    t = re.sub(r'std::vector<(\w[\w:]*), std::allocator<\1>>', r'vector<\1>', t)
    return t


def sig(fn):
    return '%s(%s)%s' % (fn['n'], ', '.join(short(p['t']) for p in fn['params']), ' const' if fn.get('const') else '')


# ------------------------------------------------------------------ helpers
def field_of_type(prog, rec, pred, what):
    r = [f['n'] for _, f in prog.all_fields(rec) if pred(f['t'])]
    if len(r) != 1:
        raise AnalysisBroken('%s: expected exactly one field of %s holding %s, found %s' % (prog.name, rec, what, r))
    return r[0]


def pinit(it, name):
    return mk('init', it.params[name])


def P(it, i):
    """location of the i-th parameter"""
    return list(it.params.values())[i]


def val_text(v):
    return show(v)[:500]


def init(loc):
    return mk('init', loc)


def sumt(body, lo, hi):
    """body: function of the bound index term"""
    i = mk('phi', -2, mk('V', 'spec', 'i'))
    return sum_term(i, lo, hi, body(i))


def walk(n, fn):
    """visit every expression / statement node"""
    if isinstance(n, dict):
        fn(n)
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(n, list):
        for x in n:
            walk(x, fn)


def nodes(n, pred):
    r = []
    walk(n, lambda x: r.append(x) if pred(x) else None)
    return r


def calls_in(fn):
    r = nodes(fn.get('body'), lambda x: x.get('k') in ('call', 'ctor') and 'f' in x)
    r += nodes(fn.get('inits', []), lambda x: x.get('k') in ('call', 'ctor') and 'f' in x)
    return r


def reachable(prog, roots):
    seen = {}
    todo = [(f, None) for f in roots]
    while todo:
        f, via = todo.pop()
        if f['u'] in seen:
            continue
        seen[f['u']] = via
        for c in calls_in(f):
            g = prog.funcs.get(c['f'])
            if g is not None and g['u'] not in seen:
                todo.append((g, f['u']))
    return seen
