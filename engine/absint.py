"""Abstract interpreter over the resolved syntax trees.

Domain: value numbers (hash-consed terms) for memory locations, a set of atomic
predicates known on the current partition, and a finite, rule-defined ghost
component (typestate).  Loops are summarised by a fixpoint over the set of
modified locations with recurrence detection; calls to repository functions are
inlined according to a policy or replaced by a rule-supplied summary.  There is
no solver and no input is ever chosen.
"""
import re
import sys
from .terms import *
sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


class State:
    __slots__ = ('env', 'facts', 'ghost')

    def __init__(self, env=None, facts=None, ghost=()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.ghost = ghost

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.ghost)

    def key(self):
        return (frozenset((k.id, v.id) for k, v in self.env.items()), self.ghost)


NPOS = Int(2 ** 64 - 1)


def string_op(name, o, vs):
    """member of a string of known length -> (result or None, new content or None); None if not modelled"""
    n, npos = len(o), NPOS.a[0]
    ints = [v.a[0] if v.op == 'int' else None for v in vs]
    chars = [letters(v) if v.op in ('chars', 'str') else None for v in vs]
    if name in ('size', 'length') and not vs:
        return Int(n), None
    if name == 'empty':
        return Bool(n == 0), None
    if name == 'clear':
        return None, ()
    if name in ('operator[]', 'at') and len(vs) == 1 and ints[0] is not None and 0 <= ints[0] <= n:
        if ints[0] == n:
            return (Int(0), None) if name == 'operator[]' else None
        return o[ints[0]], None
    if name in ('front', 'back') and n:
        return o[0 if name == 'front' else -1], None
    if name in ('begin', 'end', 'cbegin', 'cend', 'c_str', 'data', 'str'):
        return None
    if name == 'substr' and len(vs) <= 2 and None not in ints:
        i = ints[0] if vs else 0
        k = ints[1] if len(vs) > 1 else npos
        return (Chars(o[i:i + k]), None) if 0 <= i <= n and k >= 0 else None
    if name in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of') and 1 <= len(vs) <= 2:
        cs = chars[0] if chars[0] is not None else (vs[0],) if vs[0].op in ('int', 'letter') else None
        back = 'last' in name
        p = ints[1] if len(vs) > 1 else npos if back else 0
        if cs is None or p is None:
            return None
        for i in (range(min(p, n - 1), -1, -1) if back else range(p if p < n else n, n)):
            eq = [same_char(o[i], c) for c in cs]
            m = True if True in eq else None if None in eq else False
            if m is None:
                return None
            if m != ('not' in name):
                return Int(i), None
        return NPOS, None
    if name in ('find', 'rfind') and 1 <= len(vs) <= 2:
        cs = chars[0] if chars[0] is not None else (vs[0],) if vs[0].op in ('int', 'letter') else None
        p = ints[1] if len(vs) > 1 else npos if name == 'rfind' else 0
        if cs is None or p is None:
            return None
        c = range(0, n - len(cs) + 1)
        for i in ([i for i in c if i >= p] if name == 'find' else [i for i in reversed(c) if i <= p]):
            eq = [same_char(x, y) for x, y in zip(o[i:], cs)]
            if False not in eq:
                return None if None in eq else (Int(i), None)
        return NPOS, None
    if name in ('push_back', 'operator+=', 'append') and len(vs) == 1:
        t = chars[0] if chars[0] is not None else (vs[0],) if vs[0].op in ('int', 'letter') else None
        return (None, o + t) if t is not None else None
    if name == 'append' and len(vs) == 2 and ints[0] is not None and vs[1].op in ('int', 'letter'):
        return None, o + (vs[1],) * ints[0]
    if name == 'append' and len(vs) == 3 and chars[0] is not None and None not in ints[1:] and ints[1] <= len(chars[0]):
        return None, o + chars[0][ints[1]:ints[1] + ints[2]]
    if name == 'assign' and len(vs) == 1 and chars[0] is not None:
        return None, chars[0]
    if name == 'pop_back' and n:
        return None, o[:-1]
    if name == 'erase' and len(vs) <= 2 and None not in ints:
        i = ints[0] if vs else 0
        return (None, o[:i] + o[i + (ints[1] if len(vs) > 1 else npos):]) if i <= n else None
    if name == 'compare' and chars and chars[0] is not None and len(vs) == 1:
        e = mkop('==', Chars(o), vs[0])
        return (Int(0), None) if e is TRUE else None
    return None


class Frame:
    __slots__ = ('fn', 'this', 'vars', 'refs', 'serial', 'depth', 'call', 'parent', 'cls')

    def __init__(self, fn, this, serial, depth, call=None, parent=None):
        self.fn, self.this, self.serial, self.depth, self.call, self.parent = fn, this, serial, depth, call, parent
        self.vars = {}
        self.refs = set()
        self.cls = fn.get('cls') if fn else None


class Hooks:
    """Rule callbacks.  `dry` is true during fixpoint iterations."""

    def call(self, it, s, node, fr, fn, this, args, dry):
        return None

    def after_call(self, it, s, node, fr, fn, this, args, ret, dry):
        return s

    def div(self, it, s, node, fr, a, b, dry):
        pass

    def index(self, it, s, node, fr, cont, idx, dry):
        pass

    def deref(self, it, s, node, fr, ptr, dry):
        pass

    def store(self, it, s, node, fr, loc, val, dry):
        pass

    def delete(self, it, s, node, fr, ptr, dry):
        pass

    def opaque(self, it, s, node, fr, name, this, args, dry):
        pass


def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t


_VEC = re.compile(r'^std::vector<')
_PAIR = re.compile(r'^std::pair<')
_MAP = re.compile(r'^std::(unordered_)?map<std::basic_string')
_SHARED = re.compile(r'^std::(__)?shared_ptr<|^std::(__)?shared_ptr_access<|^std::unique_ptr<')
_ITER = re.compile(r'__gnu_cxx::__normal_iterator<')
_ARR = re.compile(r'\[\d*\]$')
STREAM = re.compile(r'^std::basic_(o|i)?(f|string)?stream|^std::basic_[io]?stringstream')


VIEWS = ('linear', 'translation', 'col', 'row', 'head', 'tail', 'block', 'topLeftCorner', 'segment', 'diagonal', 'topRows', 'leftCols')


def is_view(e):
    """a call that yields a writable part of a matrix by value"""
    return e['k'] == 'call' and e.get('obj') is not None and not e.get('lv') and e['n'].startswith('Eigen::') and e['n'].split('::')[-1] in VIEWS and \
        re.match(r'Eigen::(Block|VectorBlock|Diagonal)<Eigen::(Block|Matrix)', e.get('rt', '')) is not None


def rectangle(k):
    """first row, first column, rows and columns of a single view of a matrix (4x4 frames for linear and translation)"""
    n, *i = k[1:].split(':')
    if '@' in k[1:] or not all(re.match(r'\d+$', x) for x in i):
        return None
    i = [int(x) for x in i]
    if n == 'linear': return 0, 0, 3, 3
    if n == 'translation': return 0, 3, 3, 1
    if n == 'topLeftCorner' and len(i) == 2: return 0, 0, i[0], i[1]
    if n == 'block' and len(i) == 4: return tuple(i)
    if n == 'col' and len(i) == 1: return 0, i[0], 99, 1
    if n == 'row' and len(i) == 1: return i[0], 0, 1, 99
    return None


def extent(name, rt):
    """fixed size of a view that takes its size as template argument"""
    if name in ('linear', 'translation', 'col', 'row', 'diagonal'):
        return ''
    m = re.search(r'>, (-?\d+)(, -?\d+)?(, (true|false))?>\s*&?$', strip(rt))
    return ':' + m.group(1) + ((m.group(2) or '').replace(', ', ':')) if m else ''


def view_name(name, vs, rt, objt):
    """one name for a part of a matrix, whichever accessor yields it"""
    i = [show(v) for v in vs]
    if name in ('block', 'segment', 'topLeftCorner', 'head', 'tail', 'topRows', 'leftCols') and len(i) < {'block': 4, 'segment': 2, 'topLeftCorner': 2}.get(name, 1):
        i += [x for x in extent(name, rt).split(':') if x]
    if name == 'block' and len(i) == 4 and i[:2] == ['0', '0']:
        name, i = 'topLeftCorner', i[2:]
    if re.search(r'Transform<|Matrix<double, 4, 4', objt):
        if name == 'topLeftCorner' and i == ['3', '3']:
            return 'linear'
        if name == 'block' and i == ['0', '3', '3', '1']:
            return 'translation'
    return ''.join([name] + [':' + x for x in i])


def template_args(t):
    """top-level template arguments of a printed type"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for c in t[i:]:
        if c == '<':
            depth += 1
            if depth == 1:
                continue
        elif c == '>':
            depth -= 1
            if depth == 0:
                break
        elif c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    out.append(cur.strip())
    return out


def mname(o):
    """unqualified callee name of a call/ctor node"""
    n = o['n']
    if o.get('op'):
        return 'operator' + o['op']
    depth = 0
    for i in range(len(n) - 1, 0, -1):
        c = n[i]
        if c == '>':
            depth += 1
        elif c == '<':
            depth -= 1
        elif c == ':' and depth == 0:
            n = n[i + 1:]
            break
    i = n.find('<')
    return n[:i] if i > 0 else n


def disjunction(f, g, common, lim=3):
    """what is still known after forgetting which of two paths was taken: (f minus g) or (g minus f)"""
    a = [(t, p) for t, p in f.items() if t not in common and t.op != 'ran']
    b = [(t, p) for t, p in g.items() if t not in common and t.op != 'ran']
    if not a or not b or len(a) > lim or len(b) > lim:
        return None
    # literals refuted by the other side need not be repeated
    if len(a) == 1 and len(b) == 1 and a[0][0] is b[0][0]:
        return None
    def lit(t, p):
        return t if p else mk('op', '!', t)
    def conj(x):
        r = lit(*x[0])
        for y in x[1:]:
            r = mk('op', '&&', r, lit(*y))
        return r
    if lim == 3 and any(weight(t) > 400 for t, _ in a + b):
        return None
    return mk('op', '||', conj(a), conj(b))


_w = {}


def weight(t):
    w = _w.get(t.id)
    if w is None:
        w = 1 + sum(weight(x) for x in t.a if isinstance(x, T))
        _w[t.id] = w
    return w


def sum_term(ph, lo, hi, g):
    """sum with a canonical bound variable, so that equal sums of different loops are the same term"""
    d = 0
    for y in subterms(g):
        if y.op == 'sum' and y.a[0].a[0] == -1 and isinstance(y.a[0].a[1].a[1], int):
            d = max(d, y.a[0].a[1].a[1] + 1)
    b = mk('phi', -1, mk('V', 'sum', d))
    return mk('sum', b, lo, hi, subst(g, {ph: b}))


_tr = {}


def temps_in(t):
    """temporaries a term refers to"""
    r = _tr.get(t)
    if r is None:
        if t.op == 'V':
            r = frozenset((t,)) if t.a[0][:1] == 't' else frozenset()
        else:
            r = frozenset().union(*[temps_in(x) for x in t.a if isinstance(x, T)])
        _tr[t] = r
    return r


def sweep(env, v, since):
    """forget the temporaries created after `since` that nothing refers to any more"""
    dead = {}
    for k in env:
        rt = root(k)
        if rt.op == 'V' and rt.a[0][:1] == 't' and int(rt.a[0][1:]) > since:
            dead.setdefault(rt, []).append(k)
    if not dead:
        return env
    todo = [v] + [x for k, x in env.items() if root(k) not in dead]
    while todo and dead:
        for rt in temps_in(todo.pop()):
            for k in dead.pop(rt, ()):
                todo.append(env[k])
    gone = {k for ks in dead.values() for k in ks}
    return {k: x for k, x in env.items() if k not in gone} if gone else env


class Interp:
    def __init__(self, prog, policy=None, hooks=None, summaries=None, max_states=96, unroll=16, max_depth=14, step_limit=4000000,
                 int_types_unsigned=True, disj_limit=3, small=0):
        self.prog = prog
        self.const_globals = prog.__dict__.setdefault('_cg', {g['n'] for g in prog.globals.values() if g.get('const')})
        self.policy = policy or (lambda fn: True)
        self.hooks = hooks or Hooks()
        self.summaries = summaries or {}
        self.dyntype = {}
        self.max_states = max_states
        self.disj_limit = disj_limit
        self.unroll = unroll
        self.small = small        # bounded lists: loops are followed for at most this many iterations
        self.max_depth = max_depth
        self.serial = 0
        self.dry = 0
        self.switched = 0
        self.throws = []
        self.loops = {}
        self.stack = []
        self.steps = 0
        self.step_limit = step_limit
        self.inlined = set()
        self.opaques = {}
        self.undecl = 0

    # ------------------------------------------------------------------ misc
    def fresh(self, tag='x'):
        self.serial += 1
        return mk('fresh', tag, self.serial)

    def is_object(self, t):
        t = strip(t)
        if t.endswith('*'):
            return False
        if t == 'acme::point':
            return False
        if t in self.prog.records:
            return True
        if _VEC.match(t) or _PAIR.match(t) or _ARR.search(t) or _MAP.match(t):
            return True
        return False

    def where(self, node, fr):
        f = fr.fn
        return '%s:%s' % (self.prog.rel(f['file']) if f else '?', node.get('l', '?'))

    # ---------------------------------------------------------------- memory
    def base_val(self, s, loc):
        env = s.env
        v = env.get(loc)
        if v is not None:
            return v
        if loc.op not in ('F', 'I'):
            return None
        par = loc.a[0]
        if loc.op == 'I' and loc.a[1] != '@':
            ver = env.get(LF(par, '#ver'))
            if ver is not None:
                fa = self.read_forall(s, par, loc, ver)
                if fa is not None:
                    return fa
                return mk('sel', ver, *loc.a[1:])
            idx = loc.a[1]
            if not (isinstance(idx, T) and idx.op == 'int'):
                sib = [v2 for k, v2 in env.items() if k.op == 'I' and k.a[0] is par]
                if sib:
                    return mk('mix', par, idx, *sib)
        elif loc.op == 'F' and loc.a[1] != '#size':
            # a field below an element summarised by a loop
            q = self.read_forall_sub(s, loc)
            if q is not None:
                return q
        pv = self.base_val(s, par)
        if pv is None:
            return None
        return self.select(pv, loc)

    def read_forall(self, s, cont, loc, ver):
        if ver.op != 'forall':
            return None
        key, phi, d = ver.a[0], ver.a[1], ver.a[2]
        sub = self.loops[key]['all'].get((cont.id, ()))
        if sub is None or len(sub) != 1:
            return None
        if self.passed_over(s, cont, loc.a[1], ver):
            return mk('call', 'untouched', mk('init', cont), loc.a[1])
        return subst(sub[0], {phi: mkop('-', loc.a[1], d) if not (d.op == 'int' and d.a[0] == 0) else loc.a[1]})

    def passed_over(self, s, cont, idx, ver):
        """the loop that filled the elements certainly leaves out one the index can stand for, and nothing else wrote elements"""
        info = self.loops[ver.a[0]]
        if not info.get('range') or ver.a[2].op != 'int' or info.get('pre', {}).get(cont.id, True) or abs(info.get('step') or 0) != 1:
            return False
        if any(self.under_elem(k, cont) for k in s.env if k.op in ('I', 'F')):
            return False
        lo, hi = info['range']
        b, c = self.linear(idx)
        if b is None or not isinstance(c, int) or b.op == 'int':
            return False
        c -= ver.a[2].a[0]
        if lo.op == 'int' and lo.a[0] - c > 0:
            l = lo.a[0] - c
            if self.truth(s, mkop('<=', Int(l), b)) is None and self.truth(s, mkop('<=', Int(0), b)) is True and self.truth(s, mkop('==', b, Int(0))) is None:
                return True
        bh, ch = self.linear(hi)
        if bh is not None and isinstance(ch, int) and ch - c < 0 and self.truth(s, mkop('<', b, bh)) is True and self.truth(s, mkop('<', b, mkop('+', bh, Int(ch - c)))) is None:
            return True
        return False

    def read_forall_sub(self, s, loc):
        path = []
        p = loc
        while p.op == 'F':
            path.append(p.a[1])
            p = p.a[0]
        if p.op != 'I' or p.a[1] == '@':
            return None
        cont = p.a[0]
        if p in s.env:
            return None
        ver = s.env.get(LF(cont, '#ver'))
        if ver is None or ver.op != 'forall':
            return None
        sub = self.loops[ver.a[0]]['all'].get((cont.id, tuple(reversed(path))))
        if sub is None or len(sub) != 1:
            return None
        d = ver.a[2]
        if self.passed_over(s, cont, p.a[1], ver):
            return mk('call', 'untouched', mk('init', cont), p.a[1])
        return subst(sub[0], {ver.a[1]: mkop('-', p.a[1], d)})

    def select(self, v, loc):
        if loc.op == 'F':
            n = loc.a[1]
            if n.startswith('@'):
                if v.op == 'setv' and v.a[1] == n:
                    return v.a[2]
                return mk('fld', v, n)
            if v.op == 'init':
                return mk('init', LF(v.a[0], n))
            if v.op == 'objval':
                pass
            return mk('fld', v, n)
        idx = loc.a[1:]
        if idx[0] == '@':
            return self.comp(v, *idx[1:])
        if v.op == 'init':
            return mk('init', LI(v.a[0], *idx))
        cs = letters(v) if len(idx) == 1 and idx[0].op == 'int' else None
        if cs is not None and 0 <= idx[0].a[0] < len(cs):
            return cs[idx[0].a[0]]
        return mk('idx', v, *idx)

    def comp(self, v, *idx):
        while v.op == 'setc':
            if v.a[1:-1] == idx:
                return v.a[-1]
            if all(isinstance(x, T) and x.op == 'int' for x in v.a[1:-1] + idx):
                v = v.a[0]
                continue
            return mk('comp', v, *idx)
        if v.op == 'vec' and len(idx) == 1 and idx[0].op == 'int' and 0 <= idx[0].a[0] < len(v.a):
            return v.a[idx[0].a[0]]
        if v.op == 'setv' and all(x.op == 'int' for x in idx):
            b = rectangle(v.a[1])
            if b is not None and len(idx) == 2:
                r0, c0, nr, nc = b
                i, j = idx[0].a[0] - r0, idx[1].a[0] - c0
                if 0 <= i < nr and 0 <= j < nc:
                    return self.comp(v.a[2], *((Int(i),) if nc == 1 else (Int(j),) if nr == 1 else (Int(i), Int(j))))
                return self.comp(v.a[0], *idx)
        if v.op == 'fld' and v.a[1].startswith('@') and all(x.op == 'int' for x in idx):
            b = rectangle(v.a[1])
            if b is not None and len(idx) <= 2 and v.a[0].op in ('setv', 'setc'):
                i, j = (idx[0].a[0], idx[1].a[0]) if len(idx) == 2 else (idx[0].a[0], 0) if b[3] == 1 else (0, idx[0].a[0])
                return self.comp(v.a[0], Int(b[0] + i), Int(b[1] + j))
        if v.op == 'op' and v.a[0] in ('+', '-') and len(v.a) == 3:
            return mkop(v.a[0], self.comp(v.a[1], *idx), self.comp(v.a[2], *idx))
        if v.op == 'op' and v.a[0] == 'neg':
            return mkop('neg', self.comp(v.a[1], *idx))
        if v.op == 'op' and v.a[0] == 's*':      # scalar * vector
            return mkop('*', v.a[1], self.comp(v.a[2], *idx))
        if v.op == 'op' and v.a[0] == 'v/':      # vector / scalar
            return mkop('/', self.comp(v.a[1], *idx), v.a[2])
        return mk('comp', v, *idx)

    def load(self, s, loc):
        v = self.base_val(s, loc)
        if v is None and loc.op == 'G' and len(loc.a) == 1 and loc.a[0] in self.const_globals:
            return mk('call', 'glob', loc.a[0])
        if v is None and loc.op == 'G' and len(loc.a) == 1 and loc.a[0].endswith('::npos') and 'basic_string' in loc.a[0]:
            return NPOS
        if v is None and loc.op == 'I' and len(loc.a) == 2 and loc.a[1] != '@' and loc.a[1].op == 'int':
            # character of a string of known length
            w = self.base_val(s, loc.a[0])
            cs = letters(w) if w is not None else None
            if cs is not None and 0 <= loc.a[1].a[0] < len(cs):
                return cs[loc.a[1].a[0]]
        return v if v is not None else mk('init', loc)

    def kill(self, s, loc, keep_self=False):
        dead = [k for k in s.env if k is not loc and is_prefix(loc, k)]
        for k in dead:
            del s.env[k]

    def alias_kill(self, s, loc):
        """drop entries of sibling elements that may alias an element on loc's path"""
        p = loc
        while p is not None:
            if p.op == 'I' and p.a[1] != '@' and len(p.a) == 2:
                cont, i = p.a[0], p.a[1]
                dead = []
                for k in s.env:
                    q = k
                    while q is not None:
                        if q.op == 'I' and q.a[0] is cont and q is not p:
                            j = q.a[1]
                            if not self.distinct(s, i, j):
                                dead.append(k)
                            break
                        q = parent(q)
                for k in dead:
                    del s.env[k]
                if i.op != 'int':
                    self.serial += 1
                    s.env[LF(cont, '#ver')] = mk('ver', self.serial)
            p = parent(p)

    def distinct(self, s, i, j):
        d = mkop('-', i, j)
        if d.op == 'int':
            return d.a[0] != 0
        return self.truth(s, mkop('==', i, j)) is False

    def store(self, s, loc, v, node=None, fr=None):
        self.hooks.store(self, s, node, fr, loc, v, self.dry)
        if loc.op == 'I' and loc.a[1] == '@':
            par = loc.a[0]
            old = self.load(s, par)
            idx = loc.a[2:]
            return self.store0(s, par, self.setcomp(old, idx, v))
        if loc.op == 'F' and loc.a[1].startswith('@'):
            par = loc.a[0]
            if par.op == 'F' and par.a[1].startswith('@'):
                # view of a view
                return self.store0(s, par.a[0], mk('setv', self.load(s, par.a[0]), par.a[1] + loc.a[1], v))
            return self.store0(s, par, mk('setv', self.load(s, par), loc.a[1], v))
        return self.store0(s, loc, v)

    def setcomp(self, old, idx, v):
        if old.op == 'vec' and len(idx) == 1 and idx[0].op == 'int' and 0 <= idx[0].a[0] < len(old.a):
            a = list(old.a)
            a[idx[0].a[0]] = v
            return mk('vec', *a)
        if old.op == 'setc' and old.a[1:-1] == tuple(idx):
            old = old.a[0]
        return mk('setc', old, *(tuple(idx) + (v,)))

    def store0(self, s, loc, v):
        if loc.op == 'F' and loc.a[1].startswith('@') or loc.op == 'I' and loc.a[1] == '@':
            return self.store(s, loc, v)
        self.alias_kill(s, loc)
        self.kill(s, loc)
        s.env[loc] = v

    def havoc(self, s, loc, tag='havoc'):
        self.alias_kill(s, loc)
        self.kill(s, loc)
        s.env[loc] = self.fresh(tag)

    def copy_obj(self, s, src, dst, typ, node=None, fr=None):
        if src is dst:
            return
        t = strip(typ)
        self.hooks.store(self, s, node, fr, dst, mk('objat', src), self.dry)
        if t in self.prog.records:
            for cls, f in self.prog.all_fields(t):
                self.copy_sub(s, LF(src, f['n']), LF(dst, f['n']))
        else:
            self.copy_sub(s, src, dst)

    def copy_sub(self, s, src, dst):
        base = self.base_val(s, src)
        sub = [(k, v) for k, v in s.env.items() if k is not src and is_prefix(src, k)]
        self.alias_kill(s, dst)
        self.kill(s, dst)
        s.env[dst] = base if base is not None else mk('init', src)
        for k, v in sub:
            s.env[self.rebase(k, src, dst)] = v

    def rebase(self, k, src, dst):
        if k is src:
            return dst
        return mk(k.op, self.rebase(k.a[0], src, dst), *k.a[1:])

    def size_of(self, s, cont):
        sl = LF(cont, '#size')
        v = s.env.get(sl)
        if v is not None:
            return v
        b = self.base_val(s, cont)
        if b is not None and letters(b) is not None:
            return Int(len(letters(b)))
        if b is not None and b.op != 'init':
            return mk('size', b)
        if b is not None:
            return mk('init', LF(b.a[0], '#size'))
        return mk('init', sl)

    # ----------------------------------------------------------------- facts
    NONNEG = ('size',)

    def nonneg(self, t):
        if isnum(t):
            return num(t) >= 0
        if t.op == 'size' or t.op == 'call' and t.a[0] in ('abs', 'norm', 'sqrt', 'squaredNorm'):
            return True
        if t.op == 'init' and t.a[0].op == 'F' and t.a[0].a[1] == '#size':
            return True
        if t.op == 'unsigned':
            return True
        if t.op in ('phi', 'join') and t.a[1].op == 'F' and t.a[1].a[1] == '#size':
            return True
        return False

    def linear(self, t):
        """t = base + integer/real constant"""
        if isnum(t):
            return None, num(t)
        if t.op == 'op' and t.a[0] == '+' and len(t.a) == 3 and isnum(t.a[2]):
            return t.a[1], num(t.a[2])
        return t, 0

    def le(self, s, x, y, strict):
        """is x <= y (or x < y) derivable: shortest path over difference facts"""
        bx, cx = self.linear(x)
        by, cy = self.linear(y)
        if bx is by:
            return cx < cy if strict else cx <= cy
        # edges u -> v with weight w: u <= v + w  (w, strictflag)
        edges = {}

        def add(u, v, w, st):
            edges.setdefault(u, []).append((v, w, st))
        seen_terms = set()
        for f, pol in s.facts.items():
            if f.op != 'op' or len(f.a) != 3:
                continue
            o = f.a[0]
            if o in ('<', '<='):
                a, b = f.a[1], f.a[2]
                st = o == '<'
                if not pol:
                    # negation is only meaningful on totally ordered values: integers here
                    if self.isint(a) or self.isint(b):
                        a, b, st = b, a, not st
                    else:
                        continue
                ba, ca = self.linear(a)
                bb, cb = self.linear(b)
                w = cb - ca
                if st and (self.isint(a) or self.isint(b)):
                    w -= 1
                    st = False
                add(ba, bb, w, st)
                seen_terms.update((ba, bb))
            elif o == '==' and not pol:
                for z, u in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if z.op == 'int' and z.a[0] == 0 and self.nonneg(u) and self.isint(u):
                        add(None, u, -1, False)      # not zero, so at least one
                        seen_terms.add(u)
            elif o == '==' and pol:
                ba, ca = self.linear(f.a[1])
                bb, cb = self.linear(f.a[2])
                add(ba, bb, cb - ca, False)
                add(bb, ba, ca - cb, False)
                seen_terms.update((ba, bb))
        seen_terms.update((bx, by))
        for u in list(seen_terms):
            if u is not None and self.nonneg(u):
                add(None, u, 0, False)
        # is bx <= by + (cy-cx)?
        goal = cy - cx
        best = {}
        work = [(bx, 0, False)]
        best[bx] = [(0, False)]
        n = 0
        while work and n < 4000:
            n += 1
            u, w, st = work.pop()
            for v, ww, st2 in edges.get(u, ()):
                nw, nst = w + ww, st or st2
                if any(o <= nw and (os or not nst) for o, os in best.get(v, ())):
                    continue
                if len(best.setdefault(v, [])) > 6:
                    continue
                best[v].append((nw, nst))
                work.append((v, nw, nst))
        for w, st in best.get(by, ()):
            if w < goal or (w == goal and (st or not strict)):
                return True
        return False

    def isint(self, t):
        """conservative: term known to be integer valued"""
        k = t.op
        if k == 'int' or k == 'size' or k == 'unsigned':
            return True
        if k == 'init' and t.a[0].op == 'F' and t.a[0].a[1] == '#size':
            return True
        if k == 'op' and t.a[0] in ('+', '-', '*') and len(t.a) == 3:
            return self.isint(t.a[1]) or self.isint(t.a[2])
        return t.id in self.int_terms

    int_terms = set()

    def truth(self, s, t):
        if t.op == 'bool':
            return t.a[0]
        f = s.facts.get(t)
        if f is not None:
            return f
        if t.op == 'op':
            o = t.a[0]
            if o == '!':
                r = self.truth(s, t.a[1])
                return None if r is None else not r
            if o == '&&':
                l, r = self.truth(s, t.a[1]), self.truth(s, t.a[2])
                if l is False or r is False:
                    return False
                return True if l and r else None
            if o == '||':
                l, r = self.truth(s, t.a[1]), self.truth(s, t.a[2])
                if l or r:
                    return True
                return False if l is False and r is False else None
            if o in ('<', '<='):
                if self.le(s, t.a[1], t.a[2], o == '<'):
                    return True
                if self.le(s, t.a[2], t.a[1], o == '<='):
                    return False
            if o == '==':
                a, b = t.a[1], t.a[2]
                for lit, x in ((a, b), (b, a)):
                    if lit.op in ('str', 'int') and (x is not lit):
                        for f, pol in s.facts.items():
                            if pol and f.op == 'op' and f.a[0] == '==' and len(f.a) == 3:
                                other = f.a[2] if f.a[1] is x else f.a[1] if f.a[2] is x else None
                                if other is not None and other.op == lit.op and other is not lit:
                                    return False
                if self.le(s, a, b, True) or self.le(s, b, a, True):
                    return False
                if (self.isint(a) or self.isint(b)) and self.le(s, a, b, False) and self.le(s, b, a, False):
                    return True
        return None

    def assume(self, s, t, pol=True):
        """-> state or None"""
        r = self.truth(s, t)
        if r is not None:
            return s if r == pol else None
        if t.op == 'op':
            if t.a[0] == '!':
                return self.assume(s, t.a[1], not pol)
            if t.a[0] == '&&' and pol or t.a[0] == '||' and not pol:
                s2 = self.assume(s, t.a[1], pol)
                return self.assume(s2, t.a[2], pol) if s2 else None
        s = s.copy()
        s.facts[t] = pol
        return s

    def verdicts(self):
        """exits of a predicate with the undetermined result split by its value"""
        r = []
        for s, v in self.rets:
            if v is TRUE or v is FALSE or v is None or v.op not in ('phi', 'op', 'call', 'init'):
                r.append((s, v))
                continue
            for pol in (True, False):
                s2 = self.assume(s, v, pol)
                if s2 is not None:
                    r.append((s2, TRUE if pol else FALSE))
        return r

    # --------------------------------------------------------------- merging
    def merge(self, states):
        if len(states) <= 1:
            return states
        d = {}
        for s in states:
            k = s.key()
            o = d.get(k)
            if o is None:
                d[k] = s
            elif o is not s:
                common = {t: p for t, p in o.facts.items() if s.facts.get(t) == p}
                dj = disjunction(o.facts, s.facts, common, self.disj_limit)
                if dj is not None:
                    common[dj] = True
                d[k] = State(o.env, common, o.ghost)
        r = list(d.values())
        if len(r) > self.max_states:
            by = {}
            for s in r:
                by.setdefault(s.ghost, []).append(s)
            r = [self.join(v) for v in by.values()]
        return r

    def join(self, ss):
        if len(ss) == 1:
            return ss[0]
        keys = set(ss[0].env)
        allk = set()
        for s in ss:
            allk |= set(s.env)
            keys &= set(s.env)
        env = {}
        self.serial += 1
        n = self.serial
        for k in allk:
            vals = [self.load(s, k) if not (k.op == 'F' and k.a[1] == '#size') else self.size_of(s, k.a[0]) for s in ss]
            env[k] = vals[0] if all(v is vals[0] for v in vals) else mk('join', n, k, *sorted(set(vals), key=lambda t: t.id))
        facts = dict(ss[0].facts)
        for s in ss[1:]:
            facts = {t: p for t, p in facts.items() if s.facts.get(t) == p}
        return State(env, facts, ss[0].ghost)

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, fr):
        """-> list of (kind, state, val)"""
        out = []
        for st in stmts:
            nxt = []
            for s in states:
                for k, s2, v in self.ex(st, s, fr):
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            states = self.merge(nxt)
            if not states:
                break
        out += [('n', s, None) for s in states]
        return out

    def ex(self, n, s, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise TooBig('analysis budget exceeded in ' + (fr.fn['n'] if fr.fn else '?'))
        if n is None:
            return [('n', s, None)]
        k = n['k']
        if k == 'block':
            return self.block(n['s'], [s], fr)
        if k == 'expr':
            return [('n', s2, None) for s2 in self.merge([x for x, _ in self.ev(n['e'], s, fr)])]
        if k == 'decl':
            ss = [s]
            for v in n['v']:
                nx = []
                for x in ss:
                    nx += self.declare(v, x, fr)
                ss = self.merge(nx)
            return [('n', x, None) for x in ss]
        if k == 'if':
            ss = [s]
            out = []
            if n.get('init'):
                r = self.ex(n['init'], s, fr)
                ss = [x for kk, x, _ in r if kk == 'n']
            if n.get('cv'):
                nx = []
                for x in ss:
                    nx += self.declare(n['cv'], x, fr)
                ss = nx
            A, B = [], []
            for x in ss:
                t, f = self.cond(n['c'], x, fr)
                A += t
                B += f
            nx = []
            for x in self.merge(A):
                for r in self.ex(n['a'], x, fr):
                    (nx.append(r[1]) if r[0] == 'n' else out.append(r))
            for x in self.merge(B):
                for r in self.ex(n['b'], x, fr):
                    (nx.append(r[1]) if r[0] == 'n' else out.append(r))
            return out + [('n', x, None) for x in self.merge(nx)]
        if k == 'for':
            ss = [s]
            if n.get('init'):
                ss = [x for kk, x, _ in self.ex(n['init'], s, fr) if kk == 'n']
            out = []
            for x in ss:
                out += self.loop(n, x, fr, n['c'], n['body'], n['inc'])
            return out
        if k == 'while':
            return self.loop(n, s, fr, n['c'], n['body'], None)
        if k == 'do':
            # body once, then a while loop
            out = []
            nx = []
            for kk, x, v in self.ex(n['body'], s, fr):
                if kk in ('n', 'c'):
                    nx.append(x)
                elif kk == 'b':
                    out.append(('n', x, None))
                else:
                    out.append((kk, x, v))
            for x in self.merge(nx):
                out += self.loop(n, x, fr, n['c'], n['body'], None)
            return out
        if k == 'range':
            return self.range_loop(n, s, fr)
        if k == 'switch':
            return self.switch(n, s, fr)
        if k in ('case', 'default', 'label'):
            return self.ex(n['s'], s, fr)
        if k == 'break':
            return [('b', s, None)]
        if k == 'continue':
            return [('c', s, None)]
        if k in ('null',):
            return [('n', s, None)]
        if k == 'return':
            if n['e'] is None:
                return [('r', s, VOID)]
            rt = fr.fn['ret'] if fr.fn else ''
            if rt.endswith('&') and n['e'].get('lv'):
                return [('r', x, addr(l)) for x, l in self.lv(n['e'], s, fr)]
            r = []
            for x, v in self.ev(n['e'], s, fr):
                if v.op == 'objat':
                    # snapshot
                    x = x.copy()
                    tmp = self.tmp('ret')
                    self.copy_obj(x, v.a[0], tmp, n['e']['t'], n, fr)
                    v = mk('objat', tmp)
                r.append(('r', x, v))
            return r
        if k == 'try':
            save = self.throws
            self.throws = []
            res = self.ex(n['body'], s, fr)
            caught = self.throws
            self.throws = save
            for x, info in caught:
                for h in n['h']:
                    x2 = x.copy()
                    if h.get('v'):
                        x2 = self.declare(dict(h['v'], init=None), x2, fr)[0]
                    res += self.ex(h['body'], x2, fr)
            return res
        return [('n', s, None)]

    def switch(self, n, s, fr):
        out = []
        body = n['body']['s'] if n['body'] and n['body']['k'] == 'block' else [n['body']]
        # flatten: case/default labels nest their first statement
        flat = []
        for st in body:
            labs = []
            while st is not None and st['k'] in ('case', 'default'):
                labs.append(st.get('v') if st['k'] == 'case' else 'default')
                st = st['s']
            flat.append((labs, st))
        values = [l for labs, _ in flat for l in labs if l != 'default']
        for x, v in self.ev(n['c'], s, fr):
            entries = []
            rest = x
            for i, (labs, _) in enumerate(flat):
                for l in labs:
                    if l == 'default' or rest is None:
                        continue
                    eq = mkop('==', v, Int(int(l)))
                    t = self.assume(rest, eq, True)
                    if t is not None:
                        entries.append((i, t))
                    rest = self.assume(rest, eq, False)
            if rest is not None:
                d = [i for i, (labs, _) in enumerate(flat) if 'default' in labs]
                if d:
                    entries.append((d[0], rest))
                else:
                    out.append(('n', rest, None))
            for i, st in entries:
                cur = [st]
                for labs, sub in flat[i:]:
                    nx = []
                    for y in cur:
                        for r in self.ex(sub, y, fr):
                            if r[0] == 'n':
                                nx.append(r[1])
                            elif r[0] == 'b':
                                out.append(('n', r[1], None))
                            else:
                                out.append(r)
                    cur = self.merge(nx)
                    if not cur:
                        break
                out += [('n', y, None) for y in cur]
        norm = self.merge([y for k, y, _ in out if k == 'n'])
        return [o for o in out if o[0] != 'n'] + [('n', y, None) for y in norm]

    # ------------------------------------------------------------ declarations
    def varloc(self, fr, d, name):
        l = fr.vars.get(d)
        if l is None:
            l = mk('V', '%d.%s' % (fr.serial, d), name)
            fr.vars[d] = l
        return l

    def tmp(self, tag='tmp'):
        self.serial += 1
        return mk('V', 't%d' % self.serial, tag)

    def declare(self, v, s, fr):
        t = v['t']
        if v.get('static'):
            loc = mk('G', v['u'], v['n'])
            fr.vars[v['d']] = loc
            return [s]
        if t.endswith('&'):
            loc = self.varloc(fr, v['d'], v['n'])
            fr.refs.add(v['d'])
            if v['init'] is None:
                s = s.copy()
                s.env[loc] = self.fresh('ref')
                return [s]
            r = []
            for x, l in self.lv_or_tmp(v['init'], s, fr):
                x = x.copy()
                x.env[loc] = addr(l)
                r.append(x)
            return r
        loc = self.varloc(fr, v['d'], v['n'])
        if v['init'] is None:
            s = s.copy()
            self.kill(s, loc)
            s.env[loc] = mk('uninit', v['n'], self.next())
            return [s]
        return self.init_into(loc, t, v['init'], s, fr)

    def next(self):
        self.serial += 1
        return self.serial

    def init_into(self, loc, t, e, s, fr):
        """initialise object/scalar at loc of type t from expression e -> states"""
        if e is None:
            return [s]
        ts = strip(t)
        if e['k'] == 'ctor' and self.is_object(ts):
            return self.construct(loc, ts, e, s, fr)
        if e['k'] == 'ilist' and self.is_object(ts):
            return self.init_list(loc, ts, e, s, fr)
        r = []
        for x, v in self.ev(e, s, fr):
            x = x.copy()
            if v.op == 'objat':
                self.kill(x, loc)
                self.copy_obj(x, v.a[0], loc, ts, e, fr)
            else:
                self.kill(x, loc)
                x.env[loc] = v
                self.hooks.store(self, x, e, fr, loc, v, self.dry)
            r.append(x)
        return r

    def init_list(self, loc, ts, e, s, fr):
        ss = [s]
        if _ARR.search(ts):
            et = _ARR.sub('', ts).strip()
            for i, a in enumerate(e['a']):
                nx = []
                for x in ss:
                    nx += self.init_into(LI(loc, Int(i)), et, a, x, fr)
                ss = nx
            return ss
        if ts in self.prog.records:
            fs = self.prog.records[ts]['fields']
            for f, a in zip(fs, e['a']):
                nx = []
                for x in ss:
                    nx += self.init_into(LF(loc, f['n']), f['t'], a, x, fr)
                ss = nx
            return ss
        # container list
        if _VEC.match(ts):
            et = template_args(ts)[0]
            for i, a in enumerate(e['a']):
                nx = []
                for x in ss:
                    nx += self.init_into(LI(loc, Int(i)), et, a, x, fr)
                ss = nx
            for x in ss:
                x.env[LF(loc, '#size')] = Int(len(e['a']))
            return ss
        return ss

    def construct(self, loc, ts, e, s, fr):
        """run constructor node e on storage loc"""
        if e['k'] != 'ctor':
            return self.init_into(loc, ts, e, s, fr)
        if _VEC.match(ts):
            return self.construct_vector(loc, ts, e, s, fr)
        if e.get('copy') and (e.get('trivialcopy') or not self.has_body(e['f'])) and e['a']:
            r = []
            for x, l in self.lv_or_tmp(e['a'][0], s, fr):
                x = x.copy()
                self.kill(x, loc)
                self.copy_obj(x, l, loc, ts, e, fr)
                r.append(x)
            return r
        fn = self.prog.funcs.get(e['f'])
        if ts not in self.prog.records:
            if _ARR.search(ts):
                s = s.copy()
                et = _ARR.sub('', ts).strip()
                self.kill(s, loc)
                s.env[loc] = mk('uninit', 'array', self.next())
                return [s]
            if _MAP.match(ts):
                return self.construct_map(loc, ts, e, s, fr)
            if _PAIR.match(ts) and len(e['a']) == 2:
                ss = [s]
                for nm, a in (('first', e['a'][0]), ('second', e['a'][1])):
                    nx = []
                    for x in ss:
                        for y, v in self.ev(a, x, fr):
                            y = y.copy()
                            self.store0(y, LF(loc, nm), v)
                            nx.append(y)
                    ss = nx
                return ss
            return self.init_into(loc, ts, dict(e, k='ctor_'), s, fr)
        s = s.copy()
        self.kill(s, loc)
        s.env[loc] = mk('uninit', ts, self.next())
        sm = self.summaries.get(e['f']) if self.summaries else None
        if sm is not None:
            r = []
            for x, args in self.eval_args(e, s, fr):
                self.hooks.call(self, x, e, fr, fn or e, loc, args, self.dry)
                res = sm(self, x, e, fr, loc, args)
                if res is None:
                    res = self.call_fn(fn, loc, args, x, fr, e)
                r += [y for y, _ in res]
            return r
        if fn is not None and not e.get('implicit') and self.policy(fn) and fr.depth < self.max_depth:
            r = []
            for x, args in self.eval_args(e, s, fr):
                r += [y for y, _ in self.ctor_fn(fn, loc, args, x, fr, e)]
            return r
        if e.get('implicit') or e.get('dfltctor'):
            return self.default_init(loc, ts, s, fr)
        # opaque constructor
        r = []
        for x, args in self.eval_args(e, s, fr):
            x = x.copy()
            self.havoc_args(x, e, args)
            self.kill(x, loc)
            x.env[loc] = mk('call', ts, *[self.argval(x, a) for a in args])
            r.append(x)
        return r

    def ctor_fn(self, fn, loc, args, x, fr, e):
        sm = self.summaries.get(fn['u']) if self.summaries else None
        res = sm(self, x, e, fr, loc, args) if sm is not None else None
        return self.call_fn(fn, loc, args, x, fr, e) if res is None else res

    def default_init(self, loc, ts, s, fr):
        ss = [s]
        for cls, f in self.prog.all_fields(ts):
            nx = []
            for x in ss:
                if f['init'] is not None:
                    nx += self.init_into(LF(loc, f['n']), f['t'], f['init'], x, fr)
                elif _VEC.match(strip(f['t'])):
                    x = x.copy()
                    x.env[LF(LF(loc, f['n']), '#size')] = Int(0)
                    nx.append(x)
                else:
                    nx.append(x)
            ss = nx
        return ss

    def construct_map(self, loc, ts, e, s, fr):
        s = s.copy()
        self.kill(s, loc)
        s.env[loc] = mk('vecnew', self.next())
        ss = [s]
        il = next((a for a in e['a'] if a['k'] == 'ilist'), None)
        for a in il['a'] if il else ():
            nx = []
            for x in ss:
                for y, (k, v) in self.evs(a['a'], x, fr) if len(a.get('a', ())) == 2 else ():
                    y = y.copy()
                    self.store0(y, LI(loc, self.strval(y, k)), v)
                    nx.append(y)
            ss = nx or [y for y in ss]
        return ss

    def strval(self, s, k):
        return self.load(s, k.a[0]) if k.op == 'addr' else k

    def m_map(self, e, name, obj, s, fr):
        A = e['a']
        if name in ('operator[]', 'at') and A:
            return [(x, addr(LI(obj, self.strval(x, k)))) for x, k in self.ev(A[0], s, fr)]
        if name == 'clear':
            s = s.copy()
            self.alias_kill(s, obj)
            self.kill(s, obj)
            s.env[obj] = mk('vecnew', self.next())
            return [(s, VOID)]
        if name in ('emplace', 'insert_or_assign') and len(A) == 2:
            r = []
            for x, (k, v) in self.evs(A, s, fr):
                x = x.copy()
                self.store(x, LI(obj, self.strval(x, k)), v, e, fr)
                r.append((x, self.fresh('it')))
            return r
        if name == 'insert' and len(A) == 1:
            a = A[0]
            while isinstance(a, dict) and len(a.get('a', ())) == 1:
                a = a['a'][0]
            if len(a.get('a', ())) == 2:
                r = []
                for x, (k, v) in self.evs(a['a'], s, fr):
                    x = x.copy()
                    self.store(x, LI(obj, self.strval(x, k)), v, e, fr)
                    r.append((x, self.fresh('it')))
                return r
        if name == 'operator=' and A and A[0]['k'] != 'ilist':
            return self.m_assign(e, obj, s, fr)
        return None

    def construct_vector(self, loc, ts, e, s, fr):
        args = e['a']
        pt = e.get('pt', [])
        if not args or e.get('dfltctor'):
            s = s.copy()
            self.kill(s, loc)
            s.env[loc] = mk('vecnew', self.next())
            s.env[LF(loc, '#size')] = Int(0)
            return [s]
        if e.get('copy'):
            r = []
            for x, l in self.lv_or_tmp(args[0], s, fr):
                x = x.copy()
                self.kill(x, loc)
                self.copy_obj(x, l, loc, ts, e, fr)
                r.append(x)
            return r
        if 'initializer_list' in (pt[0] if pt else ''):
            s = s.copy()
            self.kill(s, loc)
            s.env[loc] = mk('vecnew', self.next())
            a = args[0]
            if a['k'] == 'ilist':
                return self.init_list(loc, ts, a, s, fr)
            s.env[LF(loc, '#size')] = self.fresh('n')
            return [s]
        r = []
        for x, v in self.evs(args, s, fr):
            x = x.copy()
            self.kill(x, loc)
            x.env[loc] = mk('vecnew', self.next())
            if 'unsigned' in (pt[0] if pt else '') or 'size' in (pt[0] if pt else ''):
                x.env[LF(loc, '#size')] = v[0]
                if len(v) > 1 and len(pt) > 1 and 'allocator' not in strip(pt[1]).split('<')[0]:
                    self.fill(x, loc, ts, v[0], v[1], e, fr)
            elif v[0].op == 'iter' and len(v) > 1 and v[1].op == 'iter':
                x.env[LF(loc, '#size')] = mkop('-', v[1].a[1], v[0].a[1])
                x.env[LF(loc, '#ver')] = mk('slice', v[0].a[0], v[0].a[1], v[1].a[1], self.next())
            else:
                x.env[LF(loc, '#size')] = self.fresh('n')
            r.append(x)
        return r

    def compare(self, op, a, b):
        return mkop('<', a, b) if op == '<' else mkop('<', b, a) if op == '>' else mkop('<=', a, b) if op == '<=' else mkop('<=', b, a)

    def fill(self, x, loc, ts, n, v, e, fr):
        """elements of a container made of n copies of a value"""
        ta = template_args(strip(ts))
        if not ta or n.op != 'int' or not 0 <= n.a[0] <= self.unroll:
            return
        for i in range(n.a[0]):
            if v.op == 'objat':
                self.copy_obj(x, v.a[0], LI(loc, Int(i)), ta[0], e, fr)
            elif not self.is_object(ta[0]):
                self.store0(x, LI(loc, Int(i)), v)

    def has_body(self, u):
        f = self.prog.funcs.get(u)
        return f is not None and not f.get('dflt')

    # ------------------------------------------------------------------ loops
    def decls_in(self, n, acc):
        if isinstance(n, dict):
            if n.get('k') == 'decl':
                for v in n['v']:
                    acc.add(v['d'])
            if n.get('k') == 'range':
                acc.add(n['var']['d'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.decls_in(v, acc)
        elif isinstance(n, list):
            for x in n:
                self.decls_in(x, acc)
        return acc

    def loop(self, n, s, fr, cond, body, inc, pre=None):
        # try full unrolling for small constant trip counts
        r = self.try_unroll(n, s, fr, cond, body, inc)
        if r is not None:
            return r

        def run_cond(x):
            if cond is None:
                return [x], []
            return self.cond(cond, x, fr)

        def run_body(x):
            return self.ex(body, x, fr)

        def run_inc(x):
            if inc is None:
                return [x]
            return [y for y, _ in self.ev(inc, x, fr)]
        inner = self.decls_in(body, set())
        run_cond.c = cond
        return self.gen_loop(n, s, fr, run_cond, run_body, run_inc, inner)

    def try_unroll(self, n, s, fr, cond, body, inc):
        if cond is None:
            return None
        # cheap pre-check: condition decidable at entry
        self.dry += 1
        save = (self.serial, self.throws)
        self.throws = []
        try:
            t, f = self.cond(cond, s, fr)
        finally:
            self.throws = save[1]
            self.dry -= 1
        if self.small and not (f and not t):
            return self.small_unroll(s, fr, cond, body, inc)
        if t and f and not self.conjuncts(cond)[1:]:
            return None
        if f and not t:
            t2, f2 = self.cond(cond, s, fr)
            return [('n', x, None) for x in f2]
        # need an integer-constant induction: try speculatively, dry, with a state cap
        if not any(self.const_trip(n, s, fr, c, inc) for c in self.conjuncts(cond)):
            return None
        out = []
        cur = [s]
        for _ in range(self.unroll * 20):
            nx = []
            for x in cur:
                t, f = self.cond(cond, x, fr)
                out += [('n', y, None) for y in f]
                for y in t:
                    for k, z, v in self.ex(body, y, fr):
                        if k in ('n', 'c'):
                            if inc is not None:
                                nx += [w for w, _ in self.ev(inc, z, fr)]
                            else:
                                nx.append(z)
                        elif k == 'b':
                            out.append(('n', z, None))
                        else:
                            out.append((k, z, v))
            cur = self.merge(nx)
            if not cur:
                break
        norm = self.merge([y for k, y, _ in out if k == 'n'])
        return [o for o in out if o[0] != 'n'] + [('n', y, None) for y in norm]

    def small_unroll(self, s, fr, cond, body, inc):
        """every path of the loop followed to its end when there are at most self.small iterations"""
        out, cur = [], [s]
        save = list(self.throws)
        for _ in range(self.small):
            nx = []
            for x in cur:
                t, f = self.cond(cond, x, fr)
                out += [('n', y, None) for y in f]
                for y in t:
                    for k, z, v in self.ex(body, y, fr):
                        if k in ('n', 'c'):
                            nx += [w for w, _ in self.ev(inc, z, fr)] if inc is not None else [z]
                        elif k == 'b':
                            out.append(('n', z, None))
                        else:
                            out.append((k, z, v))
            cur = self.merge(nx)
            if not cur:
                norm = self.merge([y for k, y, _ in out if k == 'n'])
                return [o for o in out if o[0] != 'n'] + [('n', y, None) for y in norm]
        self.throws = save
        return None

    def conjuncts(self, cond):
        c = self.unc(cond)
        while c['k'] == 'paren':
            c = self.unc(c['e'])
        if c['k'] == 'bin' and c['op'] == '&&':
            return self.conjuncts(c['a']) + self.conjuncts(c['b'])
        return [c]

    def cut_short(self, c, info, exits):
        """the loop condition can end the loop while the induction variable is still within its range"""
        if c is None or info.get('iv') is None or not info.get('range') or not self.conjuncts(c)[1:]:
            return False
        lo, hi = info['range']
        inside = mkop('<', info['iv'], hi) if info['step'] > 0 else mkop('<=', lo, info['iv'])
        return any(self.truth(x, inside) is not False for x in exits)

    def const_trip(self, n, s, fr, cond, inc):
        """for-loop `i < c` with constant start, constant bound and ++i / --i, trip count within the unroll limit"""
        if inc is None:
            return False
        v = self.unc(inc)
        if v['k'] == 'call' and v.get('n', '').endswith(('operator++', 'operator--')) and (v.get('obj') or {}).get('k') == 'ref':
            return self.const_iter(s, fr, cond, v['obj'].get('d'))
        if cond['k'] != 'bin' or cond['op'] not in ('<', '<=', '!=', '>', '>='):
            return False
        if v['k'] == 'un' and v['op'] in ('++', '--') and v['e']['k'] == 'ref':
            d = v['e'].get('d')
        else:
            return False
        loc = fr.vars.get(d)
        if loc is None:
            return False
        i0 = s.env.get(loc)
        if i0 is None or i0.op != 'int':
            return False
        side = [x for x in (cond['a'], cond['b']) if not (self.unc(x)['k'] == 'ref' and self.unc(x).get('d') == d)]
        if len(side) != 1:
            return False
        self.dry += 1
        save = self.throws
        self.throws = []
        try:
            r = self.ev(side[0], s, fr)
        finally:
            self.throws = save
            self.dry -= 1
        if len(r) != 1 or r[0][1].op != 'int':
            return False
        return abs(r[0][1].a[0] - i0.a[0]) <= self.unroll

    def const_iter(self, s, fr, cond, d):
        """iterator loop over a container of constant size"""
        loc = fr.vars.get(d)
        i0 = s.env.get(loc) if loc is not None else None
        if i0 is None or i0.op != 'iter' or i0.a[1].op != 'int':
            return False
        n = self.size_of(s, LD(i0.a[0]))
        return n is not None and n.op == 'int' and n.a[0] <= self.unroll

    def unc(self, e):
        while e['k'] in ('cast', 'upcast') and not e.get('x'):
            e = e['e']
        return e

    def gen_loop(self, n, s, fr, run_cond, run_body, run_inc, inner):
        key = self.next()
        serial0 = self.serial
        info = {'key': key, 'node': n, 'fn': fr.fn, 'all': {}, 'early': False, 'iv': None, 'lin': {}}
        self.loops[key] = info
        skip = {fr.vars[d] for d in inner if d in fr.vars}
        base = s.env
        M = []          # modified locations
        Mset = set()
        ghosts = [s.ghost]

        def head(lin=None, ghost=None, facts=None):
            h = s.copy()
            if ghost is not None:
                h.ghost = ghost
            for l in M:
                if lin and l in lin:
                    val = lin[l]
                else:
                    i0 = self.init_of(s, l)
                    if i0.op == 'iter':
                        val = mk('iter', i0.a[0], self.phi(key, l, True))
                    else:
                        val = self.phi(key, l, self.isint(i0) or i0.op == 'int')
                self.kill(h, l)
                h.env[l] = val
            if facts:
                h.facts.update(facts)
            return h

        def run(h):
            """-> ends [(state before inc, state after inc)], exits(false), others"""
            t, f = run_cond(h)
            ends, exits, others = [], list(f), []
            for x in t:
                for k, y, v in run_body(x):
                    if k in ('n', 'c'):
                        for z in run_inc(y):
                            ends.append((y, z))
                    elif k == 'b':
                        others.append(('b', y, None))
                    else:
                        others.append((k, y, v))
            return ends, exits, others
        self.dry += 1
        saved = self.throws
        self.throws = []
        ends = []
        for it in range(40):
            changed = False
            ends, others = [], []
            for g in list(ghosts):
                h = head(ghost=g)
                e, x, o = run(h)
                ends += e
                others += o
                for _, z in e:
                    if z.ghost not in ghosts:
                        ghosts.append(z.ghost)
                        changed = True
                    for l, v in z.env.items():
                        if l in Mset or l in skip:
                            continue
                        if self.born(l, serial0, key):
                            continue
                        hv = h.env.get(l)
                        if hv is v:
                            continue
                        if hv is None and (self.load(h, l) is v):
                            continue
                        # a modified location: use the coarsest modified one
                        M.append(l)
                        Mset.add(l)
                        changed = True
                    for l in h.env:
                        if l not in z.env and l not in Mset and not self.born(l, serial0, key) and l not in skip:
                            # entry killed (aliasing write or whole-object write)
                            M.append(l)
                            Mset.add(l)
                            changed = True
            # drop locations covered by a modified prefix
            M2 = [l for l in M if not any(p is not l and p in Mset and is_prefix(p, l) and not self.fieldlike(p, l) for p in M)]
            if len(M2) != len(M):
                M[:] = M2
            if len(ghosts) > 64:
                raise TooBig('typestate explosion')
            if not changed:
                break
        # ---- recurrences
        lin = {}
        rec = {}
        for l in M:
            i0 = self.init_of(s, l)
            ph = self.phi(key, l, False)
            it = i0.op == 'iter'
            vals = []
            for _, z in ends:
                v = z.env.get(l)
                if v is None:
                    v = self.load(z, l)
                if it:
                    if v.op != 'iter' or v.a[0] is not i0.a[0]:
                        v = None
                    else:
                        v = v.a[1]
                vals.append(v)
            if not vals or any(v is None for v in vals):
                continue
            gs = [self.minus(v, ph) for v in vals]
            if any(g is None for g in gs):
                rec[l] = (ph, i0, vals, None)
                continue
            g = gs[0] if all(x is gs[0] for x in gs) else None
            rec[l] = (ph, i0.a[1] if it else i0, vals, g)
        phis = {self.phi(key, l, False) for l in M}

        def invariant(t):
            return not any(x in phis or (x.op == 'phi' and x.a[0] == key) for x in subterms(t))
        sw = self.unswitch(s, rec, ends, invariant, serial0) if self.switched < 2 else None
        if sw is not None:
            # what is accumulated depends on a condition fixed before the loop: one loop per outcome of it
            self.throws = saved
            self.dry -= 1
            self.loops.pop(key, None)
            out = []
            for pol in (True, False):
                s2 = self.assume(s, sw, pol)
                if s2 is not None:
                    self.switched += 1
                    try:
                        out += self.gen_loop(n, s2, fr, run_cond, run_body, run_inc, inner)
                    finally:
                        self.switched -= 1
            return out
        ivs = [l for l, (ph, i0, vals, g) in rec.items() if g is not None and g.op == 'int' and abs(g.a[0]) == 1]
        condphi = set()
        # which iv appears in the loop condition: look at facts added by cond at the head
        hs = [head(ghost=g) for g in ghosts[:1]]
        t0, f0 = run_cond(hs[0])
        for x in t0 + f0:
            for f in x.facts:
                if f not in hs[0].facts:
                    for y in subterms(f):
                        if y in phis:
                            condphi.add(y)
        # a loop whose condition is decided at the head (e.g. do/while) yields no facts
        self.throws = saved
        self.dry -= 1
        ivs.sort(key=lambda l: (self.phi(key, l, False) not in condphi, self.is_size(l), M.index(l)))
        iv = ivs[0] if ivs else None
        facts = {}
        bound = None
        if iv is not None:
            ph, i0, vals, g = rec[iv]
            self.int_terms.add(ph.id)
            step = g.a[0]
            info['iv'] = ph
            info['iv_loc'] = iv
            info['init'] = i0
            info['step'] = step
            if step > 0:
                facts[mkop('<=', i0, ph)] = True
            else:
                facts[mkop('<=', ph, i0)] = True
            facts = {f: p for f, p in facts.items() if f.op != 'bool'}
            # bound from the head condition
            for x in t0:
                for f, p in x.facts.items():
                    if f in hs[0].facts:
                        continue
                    b = self.bound_from(f, p, ph, step)
                    if b is not None and invariant(b[0]):
                        bound = b
            info['bound'] = bound
            if bound is not None:
                bt, incl = bound   # up: iv < bt (or <= when incl);  down: bt < iv (or <=)
                if step > 0:
                    hi = mkop('+', bt, Int(1)) if incl else bt
                    if self.truth(s, mkop('<=', i0, hi)) is True:
                        f = mkop('<=', ph, hi)
                        if f.op != 'bool':
                            facts[f] = True
                    info['range'] = (i0, hi)
                else:
                    lo = bt if incl else mkop('+', bt, Int(1))
                    info['range'] = (lo, mkop('+', i0, Int(1)))
                    f = mkop('<=', mkop('-', lo, Int(1)), ph)
                    if f.op != 'bool':
                        facts[f] = True
            delta = mkop('-', ph, i0) if step > 0 else mkop('-', i0, ph)
            for l, (p2, j0, vals2, g2) in rec.items():
                if l is iv or g2 is None or not invariant(g2):
                    continue
                val = mkop('+', j0, mkop('*', g2, delta)) if not (g2.op == 'int' and g2.a[0] == 1) else mkop('+', j0, delta)
                if g2.op == 'int' and g2.a[0] == -1:
                    val = mkop('-', j0, delta)
                if self.isint(j0) or j0.op == 'int':
                    self.int_terms.add(val.id)
                oi = self.init_of(s, l)
                if oi.op == 'iter':
                    val = mk('iter', oi.a[0], val)
                lin[l] = val
                info['lin'][l] = val
        info['rec'] = rec
        info['M'] = list(M)
        # ---- final run
        out = []
        finals, exits, others = [], [], []
        for g in ghosts:
            h = head(lin=lin, ghost=g, facts=facts)
            e, x, o = run(h)
            finals += e
            exits += x
            others += o
        info['early'] = bool(others)
        info['others'] = others
        info['exits'] = exits
        cut = self.cut_short(getattr(run_cond, 'c', None), info, exits)
        if cut:
            info['early'] = True
        info['breaks'] = cut or any(k == 'b' for k, _, _ in others)
        info['returns'] = any(k == 'r' for k, _, _ in others)
        info['ends'] = [y for y, _ in finals]
        # ---- forall summaries of element writes
        self.summarise_elements(info, finals, key)
        # ---- exits
        for x in exits:
            out.append(self.close(info, x, s, rec, invariant, key))
        for k, y, v in others:
            out.append(('n' if k == 'b' else k, y, v))
        norm = self.merge([y for k, y, _ in [o if len(o) == 3 else o for o in out] if k == 'n'])
        for y in norm:
            y.facts[mk('ran', key)] = True      # which loops were passed on the way here
        return [o for o in out if o[0] != 'n'] + [('n', y, None) for y in norm]

    def unswitch(self, s, rec, ends, invariant, serial0):
        """a loop-invariant condition on which alone the increment of an accumulator depends, if there is one"""
        zs = [z for _, z in ends]
        if len(zs) < 2:
            return None
        for l, (ph, i0, vals, g) in rec.items():
            if g is not None or i0.op == 'iter':
                continue
            gs = [self.minus(v, ph) for v in vals]
            if any(x is None for x in gs):
                continue
            for t in zs[0].facts:
                if t.op != 'op' or t in s.facts or not invariant(t) or self.truth(s, t) is not None:
                    continue
                if any(any(isinstance(z, int) and not isinstance(z, bool) and z > serial0 for z in y.a) for y in subterms(t) if y.op not in ('int', 'real', 'bool')):
                    continue        # made in the loop
                pol = [z.facts.get(t) for z in zs]
                if None in pol or len(set(pol)) < 2:
                    continue
                if all(len({gs[i] for i in range(len(gs)) if pol[i] is q}) == 1 for q in (True, False)):
                    return t
        return None

    def is_size(self, l):
        return l.op == 'F' and l.a[1] == '#size'

    def fieldlike(self, p, l):
        return False

    def init_of(self, s, l):
        if l.op == 'F' and l.a[1] == '#size':
            return self.size_of(s, l.a[0])
        if l.op == 'F' and l.a[1] == '#ver':
            return s.env.get(l) or mk('init', l)
        return self.load(s, l)

    def phi(self, key, l, isint):
        p = mk('phi', key, l)
        if isint:
            self.int_terms.add(p.id)
        return p

    def born(self, l, serial0, key):
        """location created inside the loop (temporary, heap cell, callee local) or indexed by a loop value"""
        for x in subterms(l):
            if x.op == 'phi' and x.a[0] == key:
                return True
            if x.op == 'fresh' and x.a[1] > serial0:
                return True
        r = root(l)
        while r.op == 'D':
            r2 = r.a[0]
            if r2.op == 'addr':
                r = root(r2.a[0])
            else:
                break
        if r.op == 'V':
            n = r.a[0]
            if n.startswith('p'):
                return False
            if n.startswith('t'):
                return int(n[1:]) > serial0
            return int(n.split('.')[0]) > serial0
        if r.op == 'H':
            return r.a[0] > serial0
        return False

    def minus(self, v, ph):
        """g such that v = ph + g"""
        if v is ph:
            return Int(0)
        if v.op == 'op' and v.a[0] == '+' and len(v.a) == 3:
            if v.a[1] is ph:
                return v.a[2]
            if v.a[2] is ph:
                return v.a[1]
            l = self.minus(v.a[1], ph)
            if l is not None and not contains(v.a[2], ph):
                return mkop('+', l, v.a[2])
            r = self.minus(v.a[2], ph)
            if r is not None and not contains(v.a[1], ph):
                return mkop('+', v.a[1], r)
        if v.op == 'op' and v.a[0] == '-' and len(v.a) == 3:
            if v.a[1] is ph:
                return mkop('neg', v.a[2])
            l = self.minus(v.a[1], ph)
            if l is not None and not contains(v.a[2], ph):
                return mkop('-', l, v.a[2])
        return None

    def bound_from(self, f, p, ph, step):
        """fact f(polarity p) true inside the loop, as a bound on ph: -> (term, inclusive)"""
        if f.op != 'op' or len(f.a) != 3:
            return None
        o, a, b = f.a
        ba, ca = self.linear(a)
        bb, cb = self.linear(b)
        if o in ('<', '<='):
            if not p:
                o = '<=' if o == '<' else '<'
                a, b = b, a
                ba, ca, bb, cb = bb, cb, ba, ca
            incl = o == '<='
            if step > 0 and ba is ph:
                return (mkop('-', b, Int(ca)) if ca else b, incl)
            if step < 0 and bb is ph:
                return (mkop('-', a, Int(cb)) if cb else a, incl)
        if o == '==' and not p:
            if ba is ph:
                return (mkop('-', b, Int(ca)) if ca else b, False)
            if bb is ph:
                return (mkop('-', a, Int(cb)) if cb else a, False)
        return None

    def summarise_elements(self, info, finals, key):
        ph = info['iv']
        if ph is None or not finals:
            return
        common = None
        for y, _ in finals:
            m = {}
            for k, v in y.env.items():
                path = []
                q = k
                while q is not None and q.op == 'F':
                    path.append(q.a[1])
                    q = parent(q)
                if q is None or q.op != 'I' or q.a[1] == '@' or len(q.a) != 2:
                    continue
                b, c = self.linear(q.a[1])
                if b is ph and isinstance(c, int):
                    m[(q.a[0], tuple(reversed(path)), c)] = v
            common = {k: [v] for k, v in m.items()} if common is None else {k: common[k] + [m[k]] for k in common if k in m}
        info['elems'] = {}
        for (cont, path, c), vals in (common or {}).items():
            uniq = []
            for v in vals:
                if v not in uniq:
                    uniq.append(v)
            info['all'][(cont.id, path)] = uniq
            info['elems'][(cont, path, c)] = uniq

    def close(self, info, x, s, rec, invariant, key):
        """state after leaving the loop through its condition"""
        ph = info['iv']
        if ph is None or not info.get('range') or info['early'] and False:
            return ('n', x, None)
        lo, hi = info['range']
        step = info['step']
        m = {}
        final = hi if step > 0 else mkop('-', lo, Int(1))
        ok = self.truth(s, mkop('<=', lo, hi)) is True
        if ok:
            m[ph] = final
        x = x.copy()
        N = mkop('-', hi, lo)
        for l, (p2, j0, vals, g) in rec.items():
            if l in info['lin'] or l is info['iv_loc'] or g is None or g.op == 'int':
                continue
            cur = x.env.get(l)
            if cur is not p2:
                continue
            others = [y for y in subterms(g) if y.op == 'phi' and y.a[0] == key and y is not ph]
            if others:
                continue
            sm = sum_term(ph, lo, hi, g)
            z = j0
            if z.op in ('int', 'real') and z.a[0] == 0 or z.op == 'G' and 'ZEROS' in str(z.a[0]) or z.op == 'call' and z.a[0] == 'glob' and 'ZEROS' in str(z.a[1]):
                m[p2] = sm
            else:
                m[p2] = mkop('+', j0, sm)
        if m:
            memo = {}
            x.env = {k: subst(v, m, memo) for k, v in x.env.items()}
            x.facts = {subst(f, m, memo): p for f, p in x.facts.items()}
            x.facts = {f: p for f, p in x.facts.items() if f.op != 'bool'}
        # element summaries
        if not info['breaks']:
            conts = {}
            for (cont, path, c) in info.get('elems', {}):
                conts.setdefault(cont, c)
            for cont, c in conts.items():
                cont2 = cont
                info.setdefault('pre', {})[cont.id] = LF(cont2, '#ver') in s.env or any(self.under_elem(k, cont2) for k in s.env if k.op in ('I', 'F'))
                for k in [k for k in x.env if k.op in ('I', 'F') and self.under_elem(k, cont2)]:
                    del x.env[k]
                x.env[LF(cont2, '#ver')] = mk('forall', key, ph, Int(c), cont2)
        return ('n', x, None)

    def under_elem(self, k, cont):
        q = k
        while q is not None:
            if q.op == 'I' and q.a[0] is cont and q.a[1] != '@':
                return True
            q = parent(q)
        return False

    def range_loop(self, n, s, fr):
        out = []
        rt = strip(n['rt'])
        il = self.strip_ilist(n['range']) if 'initializer_list' in rt else None
        if il is not None:
            ta = template_args(rt[rt.index('initializer_list'):])
            l = self.tmp('list')
            ranges = [(y, l) for y in self.init_list(l, 'std::vector<%s>' % (ta[0] if ta else '?'), {'a': il}, s.copy(), fr)]
        else:
            ranges = self.lv_or_tmp(n['range'], s, fr)
        for x, cont in ranges:
            x = x.copy()
            ivloc = self.tmp('ridx')
            x.env[ivloc] = Int(0)
            m = re.search(r'\[(\d+)\]$', rt)
            if m:
                size = Int(int(m.group(1)))
            elif il is not None:
                size = Int(len(il))
            elif n['range']['k'] == 'ilist' or 'initializer_list' in rt:
                size = self.fresh('n')
            else:
                size = None
            self.serial += 1
            v = n['var']
            isref = v['t'].endswith('&')

            def run_cond(y, cont=cont, ivloc=ivloc, size=size):
                t = mkop('<', y.env[ivloc], size if size is not None else self.size_of(y, cont))
                a, b = self.assume(y, t, True), self.assume(y, t, False)
                return ([a] if a else []), ([b] if b else [])

            def run_body(y, cont=cont, ivloc=ivloc):
                y = y.copy()
                el = LI(cont, y.env[ivloc])
                self.hooks.index(self, y, n, fr, cont, y.env[ivloc], self.dry)
                vl = self.varloc(fr, v['d'], v['n'])
                if isref:
                    fr.refs.add(v['d'])
                    y.env[vl] = addr(el)
                else:
                    self.kill(y, vl)
                    if self.is_object(v['t']):
                        self.copy_obj(y, el, vl, v['t'], n, fr)
                    else:
                        y.env[vl] = self.load(y, el)
                return self.ex(n['body'], y, fr)

            def run_inc(y, ivloc=ivloc):
                y = y.copy()
                y.env[ivloc] = mkop('+', y.env[ivloc], Int(1))
                return [y]
            inner = self.decls_in(n['body'], set()) | {v['d']}
            if size is None:
                n0 = self.size_of(x, cont)
                size = n0 if n0.op == 'int' and n0.a[0] <= (self.small or self.unroll) else None
            if size is not None and size.op == 'int' and size.a[0] <= self.unroll:
                cur = [x]
                for _ in range(size.a[0]):
                    nx = []
                    for y in cur:
                        for k, z, vv in run_body(y):
                            if k in ('n', 'c'):
                                nx += run_inc(z)
                            elif k == 'b':
                                out.append(('n', z, None))
                            else:
                                out.append((k, z, vv))
                    cur = self.merge(nx)
                out += [('n', y, None) for y in cur]
                continue
            out += self.gen_loop(n, x, fr, run_cond, run_body, run_inc, inner)
        return out

    # ------------------------------------------------------------- conditions
    def cond(self, e, s, fr):
        e0 = e
        e = self.unc(e)
        if e['k'] == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], s, fr)
            return f, t
        if e['k'] == 'bin' and e['op'] == '&&':
            t, f = self.cond(e['a'], s, fr)
            T2, F2 = [], list(f)
            for x in t:
                a, b = self.cond(e['b'], x, fr)
                T2 += a
                F2 += b
            return self.merge(T2), self.merge(F2)
        if e['k'] == 'bin' and e['op'] == '||':
            t, f = self.cond(e['a'], s, fr)
            T2, F2 = list(t), []
            for x in f:
                a, b = self.cond(e['b'], x, fr)
                T2 += a
                F2 += b
            return self.merge(T2), self.merge(F2)
        if e['k'] == 'bin' and e['op'] == ',':
            T2, F2 = [], []
            for x, _ in self.ev(e['a'], s, fr):
                a, b = self.cond(e['b'], x, fr)
                T2 += a
                F2 += b
            return T2, F2
        T2, F2 = [], []
        for x, v in self.ev(e0, s, fr):
            v = self.as_bool(v, e0)
            a = self.assume(x, v, True)
            b = self.assume(x, v, False)
            if a is not None:
                T2.append(a)
            if b is not None:
                F2.append(b)
        return T2, F2

    def as_bool(self, v, e):
        if v.op == 'int':
            return Bool(v.a[0] != 0)
        if v.op == 'addr':
            return TRUE
        if v is NULL:
            return FALSE
        return v

    # ------------------------------------------------------------ expressions
    def evs(self, es, s, fr):
        r = [(s, [])]
        for e in es:
            nx = []
            for x, vs in r:
                for y, v in self.ev(e, x, fr):
                    nx.append((y, vs + [v]))
            r = nx
        return r

    def lv_or_tmp(self, e, s, fr):
        e1 = e
        while e1['k'] == 'upcast' or (e1['k'] == 'ctor' and e1.get('elide') and False):
            e1 = e1['e']
        if e1.get('lv') and e1['k'] != 'cond':
            return self.lv(e1, s, fr)
        if e1.get('lv') and e1['k'] == 'cond':
            return self.lv(e1, s, fr)
        while e1['k'] in ('cast', 'tmp', 'paren') and e1.get('e') and is_view(e1['e']):
            e1 = e1['e']
        if is_view(e1):
            r = []
            n = e1['n'].split('::')[-1]
            for x, l in self.lv_or_tmp(e1['obj'], s, fr):
                for y, vs in self.evs(e1['a'], x, fr):
                    r.append((y, LF(l, '@' + view_name(n, vs, e1['rt'], e1.get('objt', '')))))
            return r
        r = []
        for x, v in self.ev(e, s, fr):
            if v.op == 'objat':
                r.append((x, v.a[0]))
            elif v.op == 'addr' and False:
                pass
            else:
                x = x.copy()
                l = self.tmp('ref')
                x.env[l] = v
                r.append((x, l))
        return r

    def lv(self, e, s, fr):
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk in ('param', 'local'):
                d = e['d']
                l = fr.vars.get(d)
                if l is None:
                    p = fr
                    while p is not None and d not in p.vars:
                        p = p.parent
                    if p is not None:
                        l = p.vars[d]
                        if d in p.refs:
                            return [(s, LD(s.env[l]))]
                        return [(s, l)]
                    l = self.varloc(fr, d, e['n'])
                if d in fr.refs:
                    v = s.env.get(l)
                    if v is None:
                        return [(s, l)]
                    return [(s, LD(v))]
                return [(s, l)]
            return [(s, mk('G', e['n']))]
        if k == 'mem':
            r = []
            if e['arrow']:
                for x, p in self.ev(e['b'], s, fr):
                    self.hooks.deref(self, x, e, fr, p, self.dry)
                    r.append((x, LF(LD(p), e['n'])))
            else:
                for x, l in self.lv_or_tmp(e['b'], s, fr):
                    r.append((x, LF(l, e['n'])))
            return r
        if k == 'pmem':
            r = []
            for x0, q in self.ev(e['p'], s, fr):
                n = q.a[0] if q.op == 'memptr' else '?' + str(q)[:60]
                if e['arrow']:
                    for x, p in self.ev(e['b'], x0, fr):
                        self.hooks.deref(self, x, e, fr, p, self.dry)
                        r.append((x, LF(LD(p), n)))
                else:
                    for x, l in self.lv_or_tmp(e['b'], x0, fr):
                        r.append((x, LF(l, n)))
            return r
        if k == 'this':
            return [(s, fr.this)]
        if k == 'sub':
            r = []
            bt = e.get('bt', '')
            for x, bs in (self.lv_or_tmp(e['a'], s, fr) if _ARR.search(bt) else [(y, None) for y, _ in [(s, None)]]):
                if bs is not None:
                    for y, i in self.ev(e['b'], x, fr):
                        self.hooks.index(self, y, e, fr, bs, i, self.dry)
                        r.append((y, LI(bs, i)))
                else:
                    for y, vs in self.evs([e['a'], e['b']], x, fr):
                        p, i = vs
                        if p.op == 'addr' and p.a[0].op == 'I' and len(p.a[0].a) == 2 and p.a[0].a[1] is Int(0):
                            base = p.a[0].a[0]
                        else:
                            base = LD(p)
                        self.hooks.index(self, y, e, fr, base, i, self.dry)
                        r.append((y, LI(base, i)))
            return r
        if k == 'un' and e['op'] == '*':
            r = []
            for x, p in self.ev(e['e'], s, fr):
                self.hooks.deref(self, x, e, fr, p, self.dry)
                r.append((x, LD(p)))
            return r
        if k == 'un' and e['op'] in ('++', '--') and not e['post']:
            r = []
            for x, l in self.lv(e['e'], s, fr):
                x = x.copy()
                self.incr(x, l, 1 if e['op'] == '++' else -1, e, fr)
                r.append((x, l))
            return r
        if k in ('asg', 'asgop'):
            return [(x, l) for x, _, l in self.assign(e, s, fr)]
        if k in ('cast', 'upcast', 'constcast', 'reinterpret'):
            return self.lv(e['e'], s, fr) if e['e'].get('lv') else self.lv_or_tmp(e['e'], s, fr)
        if k == 'dyncast':
            r = []
            for x, l in self.lv_or_tmp(e['e'], s, fr):
                t = self.dyn(l)
                if t is not None and not self.derives(t, strip(e['t'])):
                    self.hooks.deref(self, x, e, fr, Int(0), self.dry)     # bad_cast
                    self.throws.append((x, (e, fr)))
                    continue
                r.append((x, l))
            return r
        if k == 'cond':
            t, f = self.cond(e['c'], s, fr)
            r = []
            for x in t:
                r += self.lv_or_tmp(e['a'], x, fr)
            for x in f:
                r += self.lv_or_tmp(e['b'], x, fr)
            return r
        if k == 'bin' and e['op'] == ',':
            r = []
            for x, _ in self.ev(e['a'], s, fr):
                r += self.lv(e['b'], x, fr)
            return r
        if k == 'call':
            r = []
            for x, v in self.call(e, s, fr, want_lv=True):
                if v.op == 'objat':
                    r.append((x, v.a[0]))
                elif v.op == 'addr' or e.get('lv'):
                    r.append((x, LD(v)))
                else:
                    x = x.copy()
                    l = self.tmp('callref')
                    x.env[l] = v
                    r.append((x, l))
            return r
        if k == 'str':
            x = s.copy()
            l = self.tmp('str')
            x.env[l] = Str(e['v'])
            return [(x, l)]
        return self.lv_or_tmp(dict(e, lv=False), s, fr)

    def incr(self, s, l, d, node, fr):
        v = self.load(s, l)
        if v.op == 'iter':
            nv = mk('iter', v.a[0], mkop('+', v.a[1], Int(d)))
        else:
            nv = mkop('+', v, Int(d))
            self.int_terms.add(nv.id)
        self.store(s, l, nv, node, fr)
        return v, nv

    def rd(self, s, l, t):
        if self.is_object(t):
            return mk('objat', l)
        return self.load(s, l)

    def glob(self, s, e):
        n = e['n']
        if n.endswith('::npos') and 'basic_string' in n:
            return NPOS
        l = mk('G', n)
        v = s.env.get(l)
        if v is not None:
            return v
        if e.get('isconst'):
            return mk('call', 'glob', n)
        return mk('init', l)

    def ev(self, e, s, fr):
        """-> list of (state, term)"""
        if e is None:
            return [(s, VOID)]
        k = e['k']
        if k == 'int':
            return [(s, Int(int(e['v'])))]
        if k == 'real':
            return [(s, Real(e['v']))]
        if k == 'str':
            return [(s, Str(e['v']))]
        if k == 'char':
            return [(s, Int(e['v']))]
        if k == 'bool':
            return [(s, Bool(e['v']))]
        if k == 'nullptr':
            return [(s, NULL)]
        if k == 'zero':
            return [(s, Int(0))]
        if k == 'sizeof':
            return [(s, Int(int(e['v'])) if 'v' in e else self.fresh('sizeof'))]
        if k == 'this':
            return [(s, addr(fr.this))]
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'enum':
                return [(s, Int(int(e['v'])))]
            if dk == 'func':
                return [(s, mk('fn', e['d'], e['n']))]
            if dk in ('global', 'slocal'):
                if self.is_object(e['t']):
                    return [(s, mk('objat', mk('G', e['n'])))]
                return [(s, self.glob(s, e))]
            (x, l), = self.lv(e, s, fr)
            if _ARR.search(strip(e['t'])):
                return [(x, mk('objat', l))]
            return [(x, self.rd(x, l, e['t']))]
        if k == 'memptr':
            return [(s, mk('memptr', e['n']))]
        if k in ('mem', 'sub', 'pmem'):
            r = []
            for x, l in self.lv(e, s, fr):
                r.append((x, self.rd(x, l, e['t'])))
            return r
        if k == 'un':
            return self.unary(e, s, fr)
        if k == 'bin':
            return self.binary(e, s, fr)
        if k in ('asg', 'asgop'):
            return [(x, v) for x, v, _ in self.assign(e, s, fr)]
        if k == 'cond':
            t, f = self.cond(e['c'], s, fr)
            r = []
            for x in t:
                r += self.ev(e['a'], x, fr)
            for x in f:
                r += self.ev(e['b'], x, fr)
            return r
        if k == 'cast':
            ck = e.get('ck')
            r = []
            for x, v in self.ev(e['e'], s, fr):
                r.append((x, self.cast(v, e, ck)))
            return r
        if k in ('upcast', 'constcast', 'reinterpret'):
            return self.ev(e['e'], s, fr)
        if k == 'dyncast':
            r = []
            for x, v in self.ev(e['e'], s, fr):
                t = self.dyn(v.a[0]) if v.op == 'addr' else self.dyn(mk('D', v))
                if v is NULL:
                    r.append((x, v))
                elif t is not None and e['t'].endswith('*'):
                    r.append((x, v if self.derives(t, strip(e['t'][:-1])) else NULL))
                else:
                    r.append((x, mk('call', 'dyncast', v, e['t'])))
            return r
        if k == 'call':
            r = []
            for x, v in self.call(e, s, fr):
                if e.get('lv') and v.op == 'addr' and not e['t'].endswith('*'):
                    r.append((x, self.rd(x, v.a[0], e['t'])))
                elif e.get('lv') and e.get('rt', '').endswith('&') and v.op not in ('objat',):
                    # reference result that is not a known address
                    r.append((x, self.rd(x, LD(v), e['t'])))
                else:
                    r.append((x, v))
            return r
        if k in ('ctor', 'ctor_'):
            return self.ctor_value(e, s, fr)
        if k == 'ilist':
            t = strip(e['t'])
            if self.is_object(t):
                l = self.tmp('il')
                return [(x, mk('objat', l)) for x in self.init_list(l, t, e, s, fr)]
            if len(e['a']) == 1:
                return self.ev(e['a'][0], s, fr)
            return [(x, mk('vec', *vs)) for x, vs in self.evs(e['a'], s, fr)]
        if k == 'new':
            h = mk('H', self.next(), e['at'])
            s = s.copy()
            s.env[h] = mk('uninit', e['at'], h.a[0])
            if e['init'] is not None:
                return [(x, mk('addr', h)) for x in self.init_into(h, e['at'], e['init'], s, fr)]
            return [(s, mk('addr', h))]
        if k == 'delete':
            r = []
            for x, v in self.ev(e['e'], s, fr):
                x = x.copy()
                self.hooks.delete(self, x, e, fr, v, self.dry)
                r.append((x, VOID))
            return r
        if k == 'throw':
            if e.get('e') is not None:
                for x, v in self.ev(e['e'], s, fr):
                    self.throws.append((x, (e, fr)))
            else:
                self.throws.append((s, (e, fr)))
            return []
        if k == 'lambda':
            v = mk('lambda', id(e), self.next())
            self.lambdas = getattr(self, 'lambdas', {})
            self.lambdas[v] = (e, fr)
            return [(s, v)]
        if k == 'typeid':
            return [(s, mk('typeid', e['t']))]
        if k == 'other':
            r = []
            for x, vs in self.evs(e.get('a', []), s, fr):
                r.append((x, mk('call', 'other:' + e.get('cls', ''), *vs)))
            return r
        raise TooBig('unhandled expression ' + k)

    def cast(self, v, e, ck):
        if ck == 'IntegralToFloating':
            return cast_real(v)
        if ck == 'FloatingToIntegral':
            if v.op == 'real':
                return Int(int(v.a[0]))
            r = mk('call', 'toint', v)
            self.int_terms.add(r.id)
            return r
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if isnum(v):
                return Bool(num(v) != 0)
            if v.op == 'op' and v.a[0] in ('&&', '||'):
                return v
            if v.op == 'bool' or v.op == 'op' and v.a[0] in ('<', '<=', '==', '!', '&&', '||'):
                return v
            return mknot(mkop('==', v, Int(0)))
        if ck == 'PointerToBoolean':
            if v is NULL:
                return FALSE
            if v.op == 'addr':
                return TRUE
            return mknot(mkop('==', v, NULL))
        if ck in ('ToVoid',):
            return VOID
        if ck == 'IntegralCast' and v.op == 'bool':
            return Int(1 if v.a[0] else 0)
        if ck == 'IntegralCast':
            if v.op == 'int' and v.a[0] < 0 and 'unsigned' in strip(e['t']):
                return mk('call', 'wrap', v)
        return v

    def unary(self, e, s, fr):
        op = e['op']
        if op == '*':
            return [(x, self.rd(x, l, e['t'])) for x, l in self.lv(e, s, fr)]
        if op == '&':
            return [(x, addr(l)) for x, l in self.lv_or_tmp(e['e'], s, fr)]
        if op in ('++', '--'):
            r = []
            for x, l in self.lv(e['e'], s, fr):
                x = x.copy()
                old, nv = self.incr(x, l, 1 if op == '++' else -1, e, fr)
                r.append((x, old if e['post'] else nv))
            return r
        r = []
        for x, v in self.ev(e['e'], s, fr):
            if op == '!':
                r.append((x, mknot(self.as_bool(v, e))))
            elif op == '-':
                r.append((x, mkop('neg', v)))
            elif op == '+':
                r.append((x, v))
            else:
                r.append((x, mkop(op, v)))
        return r

    def binary(self, e, s, fr):
        op = e['op']
        if op in ('&&', '||'):
            # formula when the right side is pure, partition otherwise
            l = self.ev(e['a'], s, fr)
            r = []
            for x, a in l:
                a = self.as_bool(a, e)
                ta = self.truth(x, a)
                if ta is not None:
                    if (op == '&&') != ta:
                        r.append((x, Bool(ta)))
                    else:
                        r += [(y, self.as_bool(b, e)) for y, b in self.ev(e['b'], x, fr)]
                    continue
                xa = self.assume(x, a, op == '&&')
                rb = self.ev(e['b'], xa, fr)
                if len(rb) == 1 and (rb[0][0].env is xa.env or rb[0][0].key() == xa.key()):
                    r.append((x, mkop(op, a, self.as_bool(rb[0][1], e))))
                else:
                    r += [(y, self.as_bool(b, e)) for y, b in rb]
                    xn = self.assume(x, a, op != '&&')
                    r.append((xn, Bool(op == '||')))
            return r
        if op == ',':
            r = []
            for x, _ in self.ev(e['a'], s, fr):
                r += self.ev(e['b'], x, fr)
            return r
        r = []
        for x, (a, b) in self.evs([e['a'], e['b']], s, fr):
            r.append((x, self.arith(op, a, b, x, e, fr)))
        return r

    def arith(self, op, a, b, s, e, fr):
        if a.op == 'iter' and op in ('+', '-') and b.op != 'iter':
            return mk('iter', a.a[0], mkop(op, a.a[1], b))
        if a.op == 'iter' and b.op == 'iter':
            return mkop(op, a.a[1], b.a[1])
        if op in ('/', '%'):
            self.hooks.div(self, s, e, fr, a, b, self.dry)
        if op in ('|', '&') and e.get('a') and e.get('b') and all(strip(self.unc(e[k]).get('t', '')) == 'bool' for k in 'ab'):
            # both operands are truth values: the bitwise operator is the logical one
            return mkop(op * 2, self.as_bool(a, e), self.as_bool(b, e))
        v = mkop(op, a, b)
        if op in ('+', '-', '*', '/', '%') and 'double' not in strip(e.get('t', '')) and strip(e.get('t', '')) in ('int', 'unsigned long', 'long', 'unsigned int'):
            self.int_terms.add(v.id)
        return v

    def assign(self, e, s, fr):
        """-> list of (state, value, loc)"""
        r = []
        # C++17 evaluates rhs first; order is irrelevant here
        for x, v in self.ev(e['b'], s, fr):
            for y, l in self.lv(e['a'], x, fr):
                y = y.copy()
                if e['k'] == 'asgop':
                    old = self.load(y, l)
                    v2 = self.arith(e['op'], old, v, y, e, fr)
                    self.store(y, l, v2, e, fr)
                    r.append((y, v2, l))
                elif v.op == 'objat':
                    self.copy_obj(y, v.a[0], l, e['a']['t'], e, fr)
                    r.append((y, v, l))
                else:
                    self.store(y, l, v, e, fr)
                    r.append((y, v, l))
        return r

    # ------------------------------------------------------------------ calls
    def eval_args(self, e, s, fr):
        """-> [(state, [('v',term)|('l',loc)])] following the parameter types"""
        pt = e.get('pt', [])
        r = [(s, [])]
        for i, a in enumerate(e['a']):
            ref = i < len(pt) and pt[i].endswith('&')
            nx = []
            for x, vs in r:
                if ref:
                    for y, l in self.lv_or_tmp(a, x, fr):
                        nx.append((y, vs + [('l', l, pt[i])]))
                else:
                    for y, v in self.ev(a, x, fr):
                        nx.append((y, vs + [('v', v, pt[i] if i < len(pt) else '')]))
            r = nx
        return r

    def argval(self, s, a):
        if a[0] == 'l':
            if self.is_object(a[2]):
                return self.load(s, a[1]) if a[1] in s.env else mk('objref', a[1])
            return self.load(s, a[1])
        if a[1].op == 'objat':
            return mk('objref', a[1].a[0])
        return a[1]

    def havoc_args(self, s, e, args, tag='arg'):
        for a in args:
            if a[0] == 'l' and not a[2].startswith('const ') and not a[2].endswith('&&'):
                self.havoc(s, a[1], tag)

    def call(self, e, s, fr, want_lv=False):
        self.steps += 1
        if 'indirect' in e and e.get('f') is None:
            return self.call_indirect(e, s, fr)
        fn = self.prog.funcs.get(e['f'])
        name = mname(e)
        cls = e.get('cls', '')
        # ---- object
        objs = [(s, None)]
        if e.get('obj') is not None:
            o = e['obj']
            if e.get('arrow'):
                objs = []
                for x, p in self.ev(o, s, fr):
                    self.hooks.deref(self, x, e, fr, p, self.dry)
                    objs.append((x, LD(p)))
            else:
                objs = self.lv_or_tmp(o, s, fr)
        out = []
        for x, obj in objs:
            if obj is not None and x.env.get(obj) is not None and x.env[obj].op == 'lambda' and name == 'operator()':
                out += self.call_lambda(x.env[obj], e, x, fr)
                continue
            out += self.call1(e, fn, name, cls, obj, x, fr)
        return out

    def call_indirect(self, e, s, fr):
        r = []
        for x, f in self.ev(e['indirect'], s, fr):
            if f.op == 'fn' and f.a[0] in self.prog.funcs:
                fn = self.prog.funcs[f.a[0]]
                e2 = dict(e, pt=[p['t'] for p in fn['params']], n=fn['n'], f=fn['u'])
                for y, args in self.eval_args(e2, x, fr):
                    r += self.dispatch(e2, fn, None, args, y, fr)
            else:
                for y, vs in self.evs(e['a'], x, fr):
                    r.append((y, self.fresh('icall')))
        return r

    def call_lambda(self, lam, e, s, fr):
        node, dfr = self.lambdas[lam]
        out = []
        for x, args in self.eval_args(e, s, fr):
            nf = Frame(dict(fr.fn, ret=e.get('rt', '')), dfr.this, self.next(), fr.depth + 1, e, dfr)
            nf.vars = dict(dfr.vars)
            nf.refs = set(dfr.refs)
            x = self.bind(nf, node['params'], args, x, fr)
            for k, y, v in self.ex(node['body'], x, nf):
                out.append((y, v if k == 'r' else VOID))
        return out

    def call1(self, e, fn, name, cls, obj, s, fr):
        q = e['n']
        if e.get('virt') and not e.get('qual') and obj is not None and self.dyn(obj) is not None:
            fn = self.overrider(self.dyn(obj), e['f'])
        # rule-supplied summary (by USR, then by qualified name)
        sm = self.summaries.get(e['f']) or self.summaries.get(q)
        if sm is not None:
            r = []
            for x, args in self.eval_args(e, s, fr):
                self.hooks.call(self, x, e, fr, fn or e, obj, args, self.dry)
                res = sm(self, x, e, fr, obj, args)
                if res is None:
                    res = self.dispatch(e, fn, obj, args, x, fr) if fn else self.opaque(e, name, cls, obj, args, x, fr)
                r += res
            return r
        if fn is None or fn.get('dflt'):
            m = self.model(e, name, cls, obj, s, fr)
            if m is not None:
                return m
        # virtual calls through references: only inline if there is no other overrider below
        r = []
        for x, args in self.eval_args(e, s, fr):
            r += self.dispatch(e, fn, obj, args, x, fr)
        return r

    def overridden_below(self, e):
        u = e['f']
        for rec in self.prog.records.values():
            for m in rec['methods']:
                if u in m.get('over', ()):
                    return True
        return False

    def dyn(self, l):
        """the dynamic type of the object at location l, when it is known"""
        t = self.dyntype.get(l)
        if t is None and l is not None and l.op == 'H' and l.a[1] in self.prog.records:
            t = l.a[1]
        return t

    def derives(self, t, base):
        if t == base:
            return True
        r = self.prog.records.get(t)
        return r is not None and any(self.derives(b, base) for b in r['bases'])

    def overrider(self, t, u):
        """the final overrider of the virtual function with USR u in a complete object of type t"""
        r = self.prog.records.get(t)
        if r is None:
            return None
        for m in r['methods']:
            if m['u'] == u or self.overrides(m, u):
                return self.prog.funcs.get(m['u'])
        for b in r['bases']:
            f = self.overrider(b, u)
            if f is not None:
                return f
        return None

    def overrides(self, m, u, d=0):
        for o in m.get('over', ()):
            if o == u:
                return True
            if d < 8:
                for r in self.prog.records.values():
                    for n in r['methods']:
                        if n['u'] == o and self.overrides(n, u, d + 1):
                            return True
        return False

    def dispatch(self, e, fn, obj, args, s, fr):
        if fn is not None and self.policy(fn) and fr.depth < self.max_depth and fn['u'] not in self.stack[-3:] and self.stack.count(fn['u']) < 1:
            if e.get('virt') and not e.get('qual') and self.dyn(obj) is None and self.overridden_below(e) and not self.exact(s, obj, e):
                return self.opaque(e, mname(e), e.get('cls', ''), obj, args, s, fr)
            r = []
            self.hooks.call(self, s, e, fr, fn, obj, args, self.dry)
            for x, v in self.call_fn(fn, obj, args, s, fr, e):
                x = self.hooks.after_call(self, x, e, fr, fn, obj, args, v, self.dry)
                r.append((x, v))
            return r
        return self.opaque(e, mname(e), e.get('cls', ''), obj, args, s, fr)

    def exact(self, s, obj, e):
        """dynamic type equals static type: a local/temporary/heap object, not something reached through a reference"""
        o = e.get('obj')
        if o is None:
            return False
        if o['k'] == 'this' or e.get('arrow'):
            return False
        if o['k'] == 'ref' and o.get('dk') == 'local' or o['k'] in ('mem', 'sub', 'pmem'):
            return True
        return False

    def opaque(self, e, name, cls, obj, args, s, fr):
        s = s.copy()
        self.hooks.opaque(self, s, e, fr, name, obj, args, self.dry)
        self.opaques[e['n']] = self.opaques.get(e['n'], 0) + 1
        isconst = e.get('const')
        vals = []
        if obj is not None:
            vals.append(self.load(s, obj) if not self.obj_like(e, obj) else mk('objref', obj))
        vals += [self.argval(s, a) for a in args]
        rt = e.get('rt', '')
        fname = e['n'] if e['f'] in self.prog.funcs or e['n'].startswith(('acme::', 'enve::')) else (cls + '::' + name if cls and not cls.startswith('Eigen') else name)
        has_mut = any(a[0] == 'l' and not a[2].startswith('const ') and not a[2].endswith('&&') for a in args)
        mut_obj = obj is not None and not isconst and not e.get('static')
        # objects change over time: tag with what is stored below them
        stamp = self.stamp(s, obj, args)
        res = mk('call', fname, *(vals + stamp))
        if has_mut or mut_obj:
            self.serial += 1
            self.havoc_args(s, e, args, 'by:' + name)
            if mut_obj and not rt.endswith('&'):
                self.havoc(s, obj, 'by:' + name)
        if rt.endswith('&') and e.get('lv'):
            # pure accessor returning a reference
            l = mk('D', res)
            return [(s, mk('addr', l))] if not self.is_object(strip(rt)) else [(s, mk('addr', l))]
        if self.is_object(strip(rt)):
            l = self.tmp('res')
            s.env[l] = res
            return [(s, mk('objat', l))]
        if rt == 'void':
            return [(s, VOID)]
        if strip(rt) in ('int', 'unsigned long', 'long', 'unsigned int'):
            self.int_terms.add(res.id)
        return [(s, res)]

    def stamp(self, s, obj, args):
        r = []
        for l in ([obj] if obj is not None else []) + [a[1] for a in args if a[0] == 'l'] + [a[1].a[0] for a in args if a[0] == 'v' and a[1].op == 'objat']:
            if l is None:
                continue
            sub = sorted(((k, v) for k, v in s.env.items() if k is not l and is_prefix(l, k)), key=lambda kv: kv[0].id)
            if sub:
                r.append(mk('with', *[y for kv in sub for y in kv]))
        return r

    def obj_like(self, e, obj):
        t = strip(e.get('objt', '')).rstrip('*').strip()
        return self.is_object(strip(t))

    def bind(self, nf, params, args, s, fr):
        s = s.copy()
        for p, a in zip(params, args):
            t = p['t']
            if t.endswith('&'):
                if a[0] == 'l':
                    nf.vars[p['d']] = a[1]
                else:
                    l = mk('V', '%d.%s' % (nf.serial, p['d']), p['n'])
                    nf.vars[p['d']] = l
                    if a[1].op == 'objat':
                        nf.vars[p['d']] = a[1].a[0]
                    else:
                        s.env[l] = a[1]
            else:
                l = mk('V', '%d.%s' % (nf.serial, p['d']), p['n'])
                nf.vars[p['d']] = l
                v = a[1] if a[0] == 'v' else (mk('objat', a[1]) if self.is_object(t) else self.load(s, a[1]))
                if v.op == 'objat':
                    if _ARR.search(strip(a[2] if len(a) > 2 else '')) or t.endswith('*'):
                        s.env[l] = addr(LI(v.a[0], Int(0))) if t.endswith('*') else v
                    else:
                        self.copy_obj(s, v.a[0], l, t)
                else:
                    s.env[l] = v
        return s

    def call_fn(self, fn, obj, args, s, fr, e):
        self.inlined.add(fn['u'])
        nf = Frame(fn, obj if obj is not None else (fr.this if fr else None), self.next(), (fr.depth if fr else 0) + 1, e)
        nf.parent = None
        s = self.bind(nf, fn['params'], args, s, fr)
        for p in fn['params'][len(args):]:
            s.env[self.varloc(nf, p['d'], p['n'])] = self.fresh('dflt')
        self.stack.append(fn['u'])
        try:
            out = self.run_fn(fn, nf, s)
        finally:
            self.stack.pop()
        # drop callee locals
        res = {}
        r = []
        pre = '%d.' % nf.serial
        for x, v in out:
            env = {}
            for k, val in x.env.items():
                rt = root(k)
                if rt.op == 'V' and rt.a[0].startswith(pre) and not (v.op in ('objat', 'addr') and root(v.a[0]) is rt):
                    continue
                env[k] = val
            r.append((State(sweep(env, v, nf.serial), x.facts, x.ghost), v))
        # merge equal results
        by = {}
        order = []
        for x, v in r:
            if v.op == 'objat' and root(v.a[0]).op == 'V':
                order.append((v, [x]))
                continue
            if v.id not in by:
                by[v.id] = (v, [])
                order.append(by[v.id])
            by[v.id][1].append(x)
        return [(y, v) for v, xs in order for y in self.merge(xs)]

    def run_fn(self, fn, nf, s):
        states = [s]
        if fn['kind'] == 'ctor':
            for i in fn.get('inits', []):
                nx = []
                for x in states:
                    nx += self.ctor_init(i, nf, x)
                states = self.merge(nx)
        out = []
        for x in states:
            for k, y, v in self.ex(fn['body'], x, nf):
                out.append((y, v if k == 'r' else VOID))
        return out

    def ctor_init(self, i, nf, s):
        e = i['e']
        if i.get('deleg'):
            return self.construct(nf.this, strip(e['t']), e, s, nf)
        if 'base' in i:
            b = strip(i['base'])
            if b not in self.prog.records:
                return [s]
            # bases share the object's storage: run without wiping siblings
            return self.construct_base(nf.this, b, e, s, nf)
        loc = LF(nf.this, i['field'])
        if not i.get('written') and e is not None and e['k'] == 'ctor' and e.get('dfltctor') and not self.is_object(i['ft']):
            s = s.copy()
            s.env[loc] = mk('uninit', i['field'], self.next())
            if _SHARED.match(strip(i['ft'])):
                s.env[loc] = NULL
            return [s]
        if e is not None and e['k'] == 'arrcopy':
            r = []
            for x, l in self.lv_or_tmp(e['e'], s, nf):
                x = x.copy()
                self.copy_sub(x, l, loc)
                r.append(x)
            return r
        return self.init_into(loc, i['ft'], e, s, nf)

    def construct_base(self, loc, b, e, s, fr):
        if e['k'] != 'ctor':
            return [x for x, _ in self.ev(e, s, fr)]
        if e.get('copy') and e['a']:
            r = []
            for x, l in self.lv_or_tmp(e['a'][0], s, fr):
                x = x.copy()
                self.copy_obj(x, l, loc, b, e, fr)
                r.append(x)
            return r
        fn = self.prog.funcs.get(e['f'])
        if fn is not None and not e.get('implicit') and self.policy(fn):
            r = []
            for x, args in self.eval_args(e, s, fr):
                r += [y for y, _ in self.ctor_fn(fn, loc, args, x, fr, e)]
            return r
        return self.default_init(loc, b, s, fr)

    def ctor_value(self, e, s, fr):
        """constructor expression as an rvalue"""
        t = strip(e['t'])
        if self.is_object(t):
            l = self.tmp(t.split('::')[-1][:12])
            return [(x, mk('objat', l)) for x in self.construct(l, t, dict(e, k='ctor'), s, fr)]
        a = e['a']
        # copies, moves and converting constructors of atomic types are value-preserving
        if _SHARED.match(t):
            if not a:
                return [(s, NULL)]
            return [(x, v) for x, v in self.ev(a[0], s, fr)]
        if t.startswith('std::basic_string<'):
            if not a:
                return [(s, Str(''))]
            if len(a) == 1 or (len(a) == 2 and 'allocator' in e['pt'][1]):
                return [(x, v) for x, v in self.ev(a[0], s, fr)]
            r = []
            for x, vs in self.evs([y for i, y in enumerate(a) if 'allocator' not in e['pt'][i]], s, fr):
                if not vs:
                    break
                b, c = vs[0], vs[1] if len(vs) > 1 else None
                v = None
                if len(vs) == 2 and b.op == 'iter' and c.op == 'iter' and b.a[0] is c.a[0] and b.a[1].op == 'int' and c.a[1].op == 'int':
                    cs = letters(self.load(x, b.a[0].a[0])) if b.a[0].op == 'addr' else None
                    v = Chars(cs[b.a[1].a[0]:c.a[1].a[0]]) if cs is not None else None
                elif len(vs) == 2 and b.op == 'int' and c.op in ('int', 'letter'):
                    v = Chars((c,) * b.a[0])
                elif len(vs) in (2, 3) and letters(b) is not None and all(y.op == 'int' for y in vs[1:]) and 'basic_string' in e['pt'][0] and c.a[0] <= len(letters(b)):
                    cs = letters(b)[c.a[0]:]
                    v = Chars(cs[:vs[2].a[0]] if len(vs) > 2 else cs)
                r.append((x, v))
            if r and all(v is not None for _, v in r):
                return r
        if t.startswith('Eigen::') or t == 'acme::point':
            if not a:
                return [(s, mk('uninit', 'eigen', self.next()))]
            if len(a) == 1 and not ('Transform' in t and 'AngleAxis' in e['pt'][0]):
                r = []
                for x, v in self.ev(a[0], s, fr):
                    r.append((x, v))
                return r
            if t == 'acme::point' or 'Matrix<double, 3, 1' in t or 'Matrix<double, 2, 1' in t or 'Matrix<double, 4, 1' in t:
                return [(x, mk('vec', *vs)) for x, vs in self.evs(a, s, fr)]
            return [(x, mk('call', t.split('<')[0].split('::')[-1], *vs)) for x, vs in self.evs(a, s, fr)]
        if e.get('copy') and a:
            return self.ev(a[0], s, fr)
        if _ITER.search(t) and len(a) == 1:
            return self.ev(a[0], s, fr)
        r = []
        for x, args in self.eval_args(e, s, fr):
            x = x.copy()
            self.havoc_args(x, e, args)
            r.append((x, mk('call', 'new:' + t[:40], self.fresh('obj'), *[self.argval(x, y) for y in args])))
        return r

    # ----------------------------------------------------------------- models
    def model(self, e, name, cls, obj, s, fr):
        A = e['a']
        rt = e.get('rt', '')
        if cls == 'std::vector' or cls == 'std::_Vector_base':
            return self.m_vector(e, name, obj, s, fr)
        if cls in ('std::map', 'std::unordered_map') and obj is not None and _MAP.match(strip(e.get('objt', '')).replace('const ', '')):
            m = self.m_map(e, name, obj, s, fr)
            if m is not None:
                return m
        if cls.startswith('std::shared_ptr') or cls.startswith('std::__shared_ptr') or cls.startswith('std::unique_ptr'):
            p = self.load(s, obj)
            if name in ('operator->', 'get'):
                return [(s, p)]
            if name == 'operator*':
                self.hooks.deref(self, s, e, fr, p, self.dry)
                return [(s, addr(LD(p)))]
            if name == 'operator bool':
                return [(s, self.cast(p, e, 'PointerToBoolean'))]
            if name == 'reset' and not A:
                s = s.copy()
                self.store(s, obj, NULL, e, fr)
                return [(s, VOID)]
            if name in ('operator=', 'reset') and A:
                r = []
                for x, v in self.ev(A[0], s, fr):
                    x = x.copy()
                    self.store(x, obj, v, e, fr)
                    r.append((x, addr(obj)))
                return r
            return None
        if name == 'make_shared' and e['n'].startswith('std::'):
            t = strip((e.get('targs') or [''])[0]) or strip(template_args(rt)[0])
            h = mk('H', self.next(), t)
            s = s.copy()
            s.env[h] = mk('uninit', t, h.a[0])
            r = []
            # find the constructor among the record's constructors by argument count and types
            fn = self.find_ctor(t, [a.get('t', '') for a in A], A)
            for x, args in self.eval_args(dict(e, pt=[('const ' + strip(a['t']) + ' &') for a in A]), s, fr):
                if fn is not None and self.policy(fn):
                    self.hooks.call(self, x, e, fr, fn, h, args, self.dry)
                    r += [(y, mk('addr', h)) for y, _ in self.ctor_fn(fn, h, args, x, fr, e)]
                else:
                    x = x.copy()
                    if len(args) == 1 and strip(A[0]['t']) == t:
                        self.copy_obj(x, args[0][1], h, t, e, fr)
                    elif t in self.prog.records and not args:
                        r += [(y, mk('addr', h)) for y in self.default_init(h, t, x, fr)]
                        continue
                    else:
                        x.env[h] = mk('call', t, *[self.argval(x, a) for a in args])
                    r.append((x, mk('addr', h)))
            return r
        if _ITER.search(e.get('objt', '')) and obj is not None and '__normal_iterator' in cls:
            it = self.load(s, obj)
            if name == 'operator*' or name == 'operator->':
                l = LI(it.a[0].a[0], it.a[1]) if it.op == 'iter' and it.a[0].op == 'addr' else (LI(LD(it.a[0]), it.a[1]) if it.op == 'iter' else LD(it))
                if it.op == 'iter':
                    self.hooks.index(self, s, e, fr, LD(it.a[0]), it.a[1], self.dry)
                else:
                    self.hooks.deref(self, s, e, fr, it, self.dry)
                return [(s, addr(l))]
            if name in ('operator++', 'operator--'):
                s = s.copy()
                if it.op == 'iter':
                    old, nv = self.incr(s, obj, 1 if name == 'operator++' else -1, e, fr)
                else:
                    old, nv = it, mk('call', name, it)
                    self.store(s, obj, nv, e, fr)
                return [(s, old if A else addr(obj))]
            if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
                r = []
                for x, v in self.ev(A[0], s, fr):
                    o = name[8]
                    nv = mk('iter', it.a[0], mkop(o, it.a[1], v)) if it.op == 'iter' and v.op != 'iter' else \
                        mkop(o, it.a[1], v.a[1]) if it.op == 'iter' and v.op == 'iter' else mk('call', name, it, v)
                    if name.endswith('='):
                        x = x.copy()
                        self.store(x, obj, nv, e, fr)
                        nv = addr(obj)
                    r.append((x, nv))
                return r
            if name == 'operator=':
                return self.m_assign(e, obj, s, fr)
        if e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(A) == 2 and obj is None:
            r = []
            for x, (a, b) in self.evs(A, s, fr):
                if a.op == 'iter' and b.op == 'iter':
                    r.append((x, mkop(e['op'], a.a[1], b.a[1])))
                else:
                    r.append((x, mkop(e['op'], a, b)))
            return r
        if e.get('op') == '-' and obj is None and len(A) == 2 and _ITER.search(A[0].get('t', '')):
            r = []
            for x, (a, b) in self.evs(A, s, fr):
                r.append((x, mkop('-', a.a[1], b.a[1]) if a.op == 'iter' and b.op == 'iter' else mk('call', 'distance', b, a)))
            return r
        if (e['n'].startswith('std::') or e['n'] in ('isspace', 'isblank')) and cls == '':
            m = self.m_std(e, name, s, fr)
            if m is not None:
                return m
        if cls.startswith('std::basic_string'):
            m = self.m_string(e, name, obj, s, fr)
            if m is not None:
                return m
        if STREAM.match(cls) or STREAM.match(strip(A[0]['t']) if A else '') or 'basic_ostream' in rt:
            r = []
            A2 = [a for a in A if a['k'] not in ('ref',) or a.get('dk') != 'func']
            if obj is None and A2 and STREAM.match(strip(A2[0].get('t', ''))) and A2[0].get('lv'):
                got = [(y, [addr(l)] + vs) for x, l in self.lv_or_tmp(A2[0], s, fr) for y, vs in self.evs(A2[1:], x, fr)]
            else:
                got = self.evs(A2, s, fr)
            for x, vs in got:
                x = x.copy()
                self.hooks.opaque(self, x, e, fr, name, obj, [('v', v, '') for v in vs], self.dry)
                if rt.endswith('&'):
                    # stream insertion/extraction returns its left operand
                    if obj is not None:
                        r.append((x, addr(obj)))
                    else:
                        r.append((x, vs[0] if vs and vs[0].op == 'addr' else self.fresh('stream')))
                else:
                    r.append((x, self.fresh(name)))
            return r
        if cls.startswith('Eigen') or cls == 'acme::point' or 'Eigen' in e['n'] or (A and strip(A[0].get('t', '')).startswith('Eigen')) or \
                any('Eigen::' in strip(a.get('t', '')) or strip(a.get('t', '')) == 'acme::point' for a in A) and e.get('op'):
            m = self.m_eigen(e, name, cls, obj, s, fr)
            if m is not None:
                return m
        if e.get('assign') and e.get('dflt') or (e.get('op') == '=' and obj is not None and len(A) == 1):
            return self.m_assign(e, obj, s, fr)
        return None

    def find_ctor(self, t, ats, A):
        rec = self.prog.records.get(t)
        if rec is None:
            return None
        best = None
        for m in rec['methods']:
            if m['kind'] != 'ctor' or m['deleted'] or m['dflt']:
                continue
            ps = m['params']
            if len(ats) > len(ps) or any(not p['def'] for p in ps[len(ats):]):
                continue
            ok = 0
            for p, a in zip(ps, ats):
                pt, at = strip(p['t']), strip(a)
                if pt == at:
                    ok += 2
                elif self.is_object(pt) != self.is_object(at):
                    ok = -99
                elif not self.is_object(pt):
                    num_p = pt in ('int', 'double', 'unsigned long', 'bool', 'float')
                    num_a = at in ('int', 'double', 'unsigned long', 'bool', 'float')
                    ok += 1 if num_p == num_a else -99
                else:
                    ok += -99 if _VEC.match(pt) is not None or _VEC.match(at) is not None or True else 0
            if not ats:
                ok = 1
            if ok > 0 and (best is None or ok > best[0]):
                best = (ok, m['u'])
        return self.prog.funcs.get(best[1]) if best else None

    def m_assign(self, e, obj, s, fr):
        r = []
        t = e.get('pt', [''])[0] or e.get('objt', '')
        for x, v in self.ev(e['a'][0], s, fr):
            x = x.copy()
            if v.op == 'objat':
                self.copy_obj(x, v.a[0], obj, e.get('cls') if e.get('cls') in self.prog.records else t, e, fr)
            else:
                self.store(x, obj, v, e, fr)
            r.append((x, addr(obj)))
        return r

    def m_vector(self, e, name, obj, s, fr):
        A = e['a']
        sz = LF(obj, '#size')
        if name == 'size':
            v = self.size_of(s, obj)
            self.int_terms.add(v.id)
            return [(s, v)]
        if name == 'empty':
            return [(s, mkop('==', self.size_of(s, obj), Int(0)))]
        if name in ('reserve', 'shrink_to_fit', 'capacity'):
            r = []
            for x, _ in self.evs(A, s, fr):
                self.hooks.opaque(self, x, e, fr, name, obj, [], self.dry)
                r.append((x, VOID))
            return r
        if name == 'clear':
            s = s.copy()
            self.alias_kill(s, obj)
            self.kill(s, obj)
            s.env[obj] = mk('vecnew', self.next())
            s.env[sz] = Int(0)
            self.hooks.store(self, s, e, fr, obj, mk('cleared'), self.dry)
            return [(s, VOID)]
        if name in ('resize', 'assign'):
            r = []
            for x, vs in self.evs(A, s, fr):
                x = x.copy()
                self.alias_kill(x, obj)
                if name == 'assign':
                    self.kill(x, obj)
                    x.env[obj] = mk('vecnew', self.next())
                x.env[sz] = vs[0] if vs[0].op not in ('iter', 'objat') else self.fresh('n')
                if name == 'assign' and len(vs) == 2 and vs[0].op == 'iter' and vs[1].op == 'iter':
                    x.env[sz] = mkop('-', vs[1].a[1], vs[0].a[1])
                    x.env[LF(obj, '#ver')] = mk('slice', vs[0].a[0], vs[0].a[1], vs[1].a[1], self.next())
                elif name == 'assign' and len(vs) == 2:
                    self.fill(x, obj, e.get('objt', ''), vs[0], vs[1], e, fr)
                self.hooks.store(self, x, e, fr, obj, mk('resized', x.env[sz]), self.dry)
                r.append((x, VOID))
            return r
        if name in ('push_back', 'emplace_back'):
            et = template_args(strip(e['objt']))[0] if e.get('objt') else ''
            et = strip(et.rstrip('*')) if not et.endswith('*') else et
            r = []
            n = self.size_of(s, obj)
            el = LI(obj, n)
            if len(A) == 2 and _PAIR.match(strip(et)):
                for x, vs in self.evs(A, s, fr):
                    x = x.copy()
                    self.alias_kill(x, el)
                    self.kill(x, el)
                    for nm, v in zip(('first', 'second'), vs):
                        self.store0(x, LF(el, nm), v)
                    x.env[sz] = mkop('+', n, Int(1))
                    self.int_terms.add(x.env[sz].id)
                    self.hooks.store(self, x, e, fr, obj, mk('pushed'), self.dry)
                    r.append((x, VOID))
                return r
            if self.is_object(et) and name == 'emplace_back' and not (len(A) == 1 and strip(A[0]['t']) == et):
                fn = self.find_ctor(et, [a.get('t', '') for a in A], A)
                for x, args in self.eval_args(dict(e, pt=[('const ' + strip(a['t']) + ' &') for a in A]), s, fr):
                    x = x.copy()
                    self.alias_kill(x, el)
                    self.kill(x, el)
                    if fn is not None and self.policy(fn):
                        ys = [y for y, _ in self.ctor_fn(fn, el, args, x, fr, e)]
                    else:
                        x.env[el] = mk('call', et, *[self.argval(x, a) for a in args])
                        ys = [x]
                    for y in ys:
                        y.env[sz] = mkop('+', n, Int(1))
                        self.hooks.store(self, y, e, fr, el, mk('pushed'), self.dry)
                        r.append((y, VOID))
                return r
            for x, v in (self.ev(A[0], s, fr) if len(A) == 1 else [(y, mk('vec', *vs)) for y, vs in self.evs(A, s, fr)]):
                x = x.copy()
                if v.op == 'objat':
                    self.copy_obj(x, v.a[0], el, et, e, fr)
                else:
                    self.store(x, el, v, e, fr)
                x.env[sz] = mkop('+', n, Int(1))
                self.int_terms.add(x.env[sz].id)
                self.hooks.store(self, x, e, fr, obj, mk('pushed', v), self.dry)
                r.append((x, VOID))
            return r
        if name in ('operator[]', 'at'):
            r = []
            for x, i in self.ev(A[0], s, fr):
                self.hooks.index(self, x, e, fr, obj, i, self.dry)
                if name == 'at':
                    ok = mkop('<', i, self.size_of(x, obj))
                    bad = self.assume(x, ok, False)
                    if bad is not None:
                        self.throws.append((bad, (e, fr)))
                    x = self.assume(x, ok, True)
                    if x is None:
                        continue
                r.append((x, addr(LI(obj, i))))
            return r
        if name in ('front', 'back'):
            n = self.size_of(s, obj)
            i = Int(0) if name == 'front' else mkop('-', n, Int(1))
            self.hooks.index(self, s, e, fr, obj, i, self.dry)
            return [(s, addr(LI(obj, i)))]
        if name in ('begin', 'cbegin'):
            return [(s, mk('iter', addr(obj), Int(0)))]
        if name in ('end', 'cend'):
            return [(s, mk('iter', addr(obj), self.size_of(s, obj)))]
        if name == 'operator=':
            if A[0]['k'] == 'ilist' or 'initializer_list' in e['pt'][0]:
                s = s.copy()
                self.kill(s, obj)
                return [(x, addr(obj)) for x in self.init_list(obj, strip(e['objt']), A[0], s, fr)]
            return self.m_assign(e, obj, s, fr)
        if name == 'swap' and len(A) == 1 and A[0].get('lv'):
            r = []
            for x, l2 in self.lv(A[0], s, fr):
                x = x.copy()
                t = self.tmp('swap')
                sizes = self.size_of(x, obj), self.size_of(x, l2)
                self.copy_sub(x, obj, t)
                self.copy_sub(x, l2, obj)
                self.copy_sub(x, t, l2)
                x.env[sz], x.env[LF(l2, '#size')] = sizes[1], sizes[0]
                r.append((x, VOID))
            return r
        if name in ('insert', 'erase', 'pop_back', 'swap', 'emplace'):
            r = []
            for x, vs in self.evs(A, s, fr):
                x = x.copy()
                n = self.size_of(x, obj)
                self.hooks.opaque(self, x, e, fr, 'vector::' + name, obj, [('v', v, '') for v in vs], self.dry)
                if name == 'pop_back':
                    x.env[sz] = mkop('-', n, Int(1))
                elif name == 'erase' and vs and all(v.op == 'iter' and v.a[1].op == 'int' for v in vs) and n.op == 'int' and n.a[0] <= self.unroll:
                    et = template_args(strip(e['objt']))[0]
                    i0 = vs[0].a[1].a[0]
                    i1 = vs[1].a[1].a[0] if len(vs) == 2 else i0 + 1
                    for j in range(i1, n.a[0]):
                        if i1 != i0:
                            if self.is_object(et):
                                self.copy_obj(x, LI(obj, Int(j)), LI(obj, Int(i0 + j - i1)), et, e, fr)
                            else:
                                self.store(x, LI(obj, Int(i0 + j - i1)), self.load(x, LI(obj, Int(j))), e, fr)
                    x.env[sz] = Int(n.a[0] - (i1 - i0))
                    r.append((x, vs[0]))
                    continue
                elif name == 'erase' and len(vs) == 2 and vs[0].op == 'iter' and vs[1].op == 'iter':
                    x.env[sz] = mkop('-', n, mkop('-', vs[1].a[1], vs[0].a[1]))
                    x.env[LF(obj, '#ver')] = mk('erased', x.env.get(LF(obj, '#ver')) or mk('init', LF(obj, '#ver')), vs[0].a[1], vs[1].a[1])
                elif name in ('insert', 'emplace') and len(vs) == 2 and vs[0].op == 'iter' and vs[0].a[1].op == 'int' and n.op == 'int' and \
                        n.a[0] <= self.unroll and not self.is_object(template_args(strip(e['objt']))[0]):
                    i0 = vs[0].a[1].a[0]
                    for j in range(n.a[0], i0, -1):
                        self.store(x, LI(obj, Int(j)), self.load(x, LI(obj, Int(j - 1))), e, fr)
                    self.store(x, LI(obj, Int(i0)), vs[1], e, fr)
                    x.env[sz] = Int(n.a[0] + 1)
                    r.append((x, vs[0]))
                    continue
                elif name == 'insert' and len(vs) == 3 and vs[0].op == 'iter' and vs[1].op == 'iter' and vs[2].op == 'iter':
                    x.env[sz] = mkop('+', n, mkop('-', vs[2].a[1], vs[1].a[1]))
                    x.env[LF(obj, '#ver')] = mk('inserted', x.env.get(LF(obj, '#ver')) or mk('init', LF(obj, '#ver')), *vs)
                else:
                    self.alias_kill(x, obj)
                    self.kill(x, obj)
                    x.env[obj] = self.fresh(name)
                    x.env[sz] = self.fresh('n')
                r.append((x, self.fresh('it')))
            return r
        return None

    def strip_ilist(self, a):
        while isinstance(a, dict):
            if a['k'] == 'ilist':
                if len(a['a']) == 1 and a['a'][0].get('k') == 'ilist':
                    a = a['a'][0]
                    continue
                return a['a']
            if a['k'] in ('cast', 'tmp', 'paren', 'ctor') and (a.get('e') or len(a.get('a', [])) == 1):
                a = a.get('e') or a['a'][0]
                continue
            return None

    def m_std(self, e, name, s, fr):
        A = e['a']
        if name in ('isspace', 'isblank') and len(A) >= 1:
            r = []
            for x, vs in self.evs(A, s, fr):
                c = vs[0]
                b = BLANKS if name == 'isspace' else (32, 9)
                v = FALSE if c.op == 'letter' else Bool(c.a[0] in b) if c.op == 'int' else mk('call', name, *vs)
                r.append((x, v if v.op == 'call' or strip(e.get('rt', 'bool')) == 'bool' else Int(int(v is TRUE))))
            return r
        if name == 'operator+' and len(A) == 2:
            r = []
            for x, vs in self.evs(A, s, fr):
                cs = [letters(v) if v.op in ('chars', 'str') else (v,) if v.op in ('letter', 'int') else None for v in (self.load(x, v.a[0]) if v.op in ('objat', 'addr') else v for v in vs)]
                if None in cs:
                    return None
                r.append((x, Chars(cs[0] + cs[1])))
            return r
        if name in ('min', 'max') and len(A) == 1:
            il = self.strip_ilist(A[0])
            if il is not None and len(il) >= 1:
                A = il
        if name in ('min', 'max') and (len(A) == 2 or A is not e['a']):
            r = []
            for x, vs in self.evs(A, s, fr):
                v = vs[0]
                for b in vs[1:]:
                    a = v
                    if a is b:
                        v = a
                    elif isnum(a) and isnum(b):
                        v = a if (num(a) <= num(b)) == (name == 'min') else b
                    else:
                        v = mk('call', name, a, b)
                r.append((x, v))
            if A is not e['a']:
                return r
            return [self.as_ref(x, v, e) for x, v in r]
        if name in ('move', 'forward') and len(A) == 1:
            if A[0].get('lv'):
                return [(x, addr(l)) if not self.is_object(A[0]['t']) else (x, mk('objat', l)) for x, l in self.lv(A[0], s, fr)] \
                    if False else [(x, self.rd(x, l, A[0]['t'])) for x, l in self.lv(A[0], s, fr)]
            return self.ev(A[0], s, fr)
        if name == 'swap' and len(A) == 2:
            r = []
            for x, l1 in self.lv(A[0], s, fr):
                for y, l2 in self.lv(A[1], x, fr):
                    y = y.copy()
                    if self.is_object(A[0]['t']):
                        t = self.tmp('swap')
                        self.copy_sub(y, l1, t)
                        self.copy_sub(y, l2, l1)
                        self.copy_sub(y, t, l2)
                    else:
                        a, b = self.load(y, l1), self.load(y, l2)
                        self.store(y, l1, b, e, fr)
                        self.store(y, l2, a, e, fr)
                    r.append((y, VOID))
            return r
        if name in ('abs', 'fabs', 'sqrt', 'cbrt', 'pow', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'floor', 'ceil',
                    'stod', 'stoi', 'stof', 'stol', 'isnan', 'isfinite', 'isinf', 'getenv', 'hypot', 'signbit', 'copysign', 'fmin', 'fmax', 'exp', 'log', 'round'):
            nm = {'fabs': 'abs', 'fmin': 'min', 'fmax': 'max'}.get(name, name)
            r = []
            for x, vs in self.evs(A, s, fr):
                v = mk('call', nm, *vs)
                if name in ('stoi', 'stol') or strip(e.get('rt', '')) == 'int':
                    self.int_terms.add(v.id)
                r.append((x, v))
            return r
        if name in ('for_each', ) and len(A) == 3:
            return self.m_for_each(e, s, fr)
        if name in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not') and len(A) == 3:
            return self.m_search(e, name, s, fr)
        if name == 'transform' and len(A) == 4:
            return self.m_transform(e, s, fr)
        if name == 'accumulate' and len(A) in (3, 4):
            return self.m_accumulate(e, s, fr)
        if name == 'remove_if' and len(A) == 3:
            return self.m_remove_if(e, s, fr)
        if name == 'distance' and len(A) == 2:
            r = []
            for x, (a, b) in self.evs(A, s, fr):
                if a.op != 'iter' or b.op != 'iter':
                    return None
                r.append((x, mkop('-', b.a[1], a.a[1])))
            return r
        if name in ('next', 'prev') and 1 <= len(A) <= 2:
            r = []
            for x, vs in self.evs(A, s, fr):
                if vs[0].op != 'iter':
                    return None
                k = vs[1] if len(vs) == 2 and not A[1].get('darg') else Int(1)
                r.append((x, mk('iter', vs[0].a[0], mkop('+' if name == 'next' else '-', vs[0].a[1], k))))
            return r
        if name in ('copy_if', 'remove_copy_if') and len(A) == 4:
            return self.m_copy_if(e, name, s, fr)
        if name == 'back_inserter' and len(A) == 1:
            return [(x, mk('inserter', l)) for x, l in self.lv(A[0], s, fr)]
        if name == 'getline':
            s = s.copy()
            r = []
            for x, args in self.eval_args(e, s, fr):
                x = x.copy()
                for a in args[1:]:
                    if a[0] == 'l':
                        self.havoc(x, a[1], 'line')
                r.append((x, self.fresh('getline')))
            return r
        return None

    def apply_pred(self, f, el, e, y, fr):
        """a predicate applied to an element -> [(state, True/False)]"""
        node, dfr = self.lambdas[f]
        nf = Frame(dict(fr.fn, ret='bool'), dfr.this, self.next(), fr.depth + 1, e, dfr)
        nf.vars = dict(dfr.vars)
        nf.refs = set(dfr.refs)
        t = node['params'][0]['t']
        a = ('l', el, t) if t.endswith('&') or self.is_object(t) else ('v', self.load(y, el), t)
        r = []
        for k, z, v in self.ex(node['body'], self.bind(nf, node['params'], [a], y, fr), nf):
            v = v if k == 'r' else VOID
            for b in (True, False):
                w = self.assume(z, v, b)
                if w is not None:
                    r.append((w, b))
        return r

    def apply_fun(self, f, els, e, y, fr):
        """a lambda applied to elements (locations) -> [(state, value)]"""
        node, dfr = self.lambdas[f]
        nf = Frame(dict(fr.fn, ret=node.get('rt', 'auto')), dfr.this, self.next(), fr.depth + 1, e, dfr)
        nf.vars = dict(dfr.vars)
        nf.refs = set(dfr.refs)
        a = []
        for el, q in zip(els, node['params']):
            t = q['t']
            a.append(('l', el, t) if t.endswith('&') or self.is_object(t) else ('v', self.load(y, el), t))
        return [(z, v if k == 'r' else VOID) for k, z, v in self.ex(node['body'], self.bind(nf, node['params'], a, y, fr), nf)]

    def m_transform(self, e, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            q = self.seq(x, vs)
            if q is None or vs[3].op != 'lambda' or vs[2].op not in ('iter', 'inserter'):
                return None
            cont, lo, hi = q
            dst = vs[2]

            def body(y, el, i):
                o = []
                for z, v in self.apply_fun(vs[3], [el], e, y, fr):
                    z = z.copy()
                    if dst.op == 'inserter':
                        n = self.size_of(z, dst.a[0])
                        self.store(z, LI(dst.a[0], n), v, e, fr)
                        z.env[LF(dst.a[0], '#size')] = mkop('+', n, Int(1))
                    else:
                        at = i if dst.a[1] is lo else mkop('+', dst.a[1], mkop('-', i, lo))
                        self.store(z, LI(LD(dst.a[0]), at), v, e, fr)
                    o.append((False, z))
                return o
            cur, _ = self.along(e, x, fr, cont, lo, hi, body)
            end = dst if dst.op == 'inserter' else mk('iter', dst.a[0], mkop('+', dst.a[1], mkop('-', hi, lo)))
            r += [(y, end) for y in cur]
        return r

    def m_accumulate(self, e, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            q = self.seq(x, vs)
            if q is None or len(vs) == 4 and vs[3].op != 'lambda':
                return None
            cont, lo, hi = q
            acc = self.tmp('acc')
            x = x.copy()
            x.env[acc] = vs[2]

            def body(y, el, i):
                o = []
                for z, v in (self.apply_fun(vs[3], [acc, el], e, y, fr) if len(vs) == 4 else [(y, mkop('+', y.env[acc], self.load(y, el)))]):
                    z = z.copy()
                    z.env[acc] = v
                    o.append((False, z))
                return o
            cur, _ = self.along(e, x, fr, cont, lo, hi, body)
            r += [(y, y.env[acc]) for y in cur]
        return r

    def seq(self, x, vs):
        """(container, first, last) of an iterator range whose ends are known, with a lambda"""
        b, en = vs[0], vs[1]
        if b.op != 'iter' or en.op != 'iter' or b.a[0] is not en.a[0]:
            return None
        return LD(b.a[0]), b.a[1], en.a[1]

    def along(self, e, x, fr, cont, lo, hi, body):
        """run body(state, element) -> [(stop?, state)] along a range: unrolled when its length is known; -> (states at the end, states stopped)"""
        if lo.op == 'int' and hi.op == 'int' and hi.a[0] - lo.a[0] <= self.unroll:
            cur, out = [x], []
            for i in range(lo.a[0], hi.a[0]):
                nx = []
                for y in cur:
                    for stop, z in body(y, LI(cont, Int(i)), Int(i)):
                        (out if stop else nx).append((z, Int(i)) if stop else z)
                cur = self.merge(nx)
            return cur, out
        x = x.copy()
        iv = self.tmp('al')
        x.env[iv] = lo
        out = []

        def rc(y):
            t = mkop('<', y.env[iv], hi)
            a, c = self.assume(y, t, True), self.assume(y, t, False)
            return ([a] if a else []), ([c] if c else [])

        def rb(y):
            return [('stop' if stop else 'n', z, y.env[iv] if stop else None) for stop, z in body(y, LI(cont, y.env[iv]), y.env[iv])]

        def ri(y):
            y = y.copy()
            y.env[iv] = mkop('+', y.env[iv], Int(1))
            return [y]
        cur = []
        for k, y, v in self.gen_loop(e, x, fr, rc, rb, ri, set()):
            if k == 'stop':
                out.append((y, v))
            else:
                cur.append(y)
        return cur, out

    def m_search(self, e, name, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            q = self.seq(x, vs)
            if q is None or vs[2].op != 'lambda':
                return None
            cont, lo, hi = q
            if name == 'count_if':
                c = self.tmp('cnt')
                x = x.copy()
                x.env[c] = Int(0)

                def body(y, el, i):
                    o = []
                    for z, b in self.apply_pred(vs[2], el, e, y, fr):
                        if b:
                            z = z.copy()
                            z.env[c] = mkop('+', z.env[c], Int(1))
                        o.append((False, z))
                    return o
                cur, _ = self.along(e, x, fr, cont, lo, hi, body)
                r += [(y, y.env[c]) for y in cur]
                continue
            want = name in ('any_of', 'none_of', 'find_if')
            cur, out = self.along(e, x, fr, cont, lo, hi, lambda y, el, i: [(b == want, z) for z, b in self.apply_pred(vs[2], el, e, y, fr)])
            if name in ('find_if', 'find_if_not'):
                r += [(y, vs[1]) for y in cur] + [(y, mk('iter', vs[0].a[0], i)) for y, i in out]
            else:
                r += [(y, mk('bool', name != 'any_of')) for y in cur] + [(y, mk('bool', name == 'any_of')) for y, _ in out]
        return r

    def m_remove_if(self, e, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            q = self.seq(x, vs)
            if q is None or vs[2].op != 'lambda' or q[1].op != 'int' or q[2].op != 'int' or q[2].a[0] - q[1].a[0] > self.unroll:
                return None
            cont, lo, hi = q[0], q[1].a[0], q[2].a[0]
            cur = [(x, ())]
            for i in range(lo, hi):
                cur = [(z, kept + (() if b else (i,))) for y, kept in cur for z, b in self.apply_pred(vs[2], LI(cont, Int(i)), e, y, fr)]
            for y, kept in cur:
                y = y.copy()
                val = [self.load(y, LI(cont, Int(i))) for i in kept]
                for j in range(lo, hi):
                    if j - lo < len(kept):
                        if kept[j - lo] != j:
                            self.store(y, LI(cont, Int(j)), val[j - lo], e, fr)
                    elif len(kept) < hi - lo:
                        self.store(y, LI(cont, Int(j)), mk('uninit', 'moved', self.next()), e, fr)
                r.append((y, mk('iter', vs[0].a[0], Int(lo + len(kept)))))
        return r

    def m_copy_if(self, e, name, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            q = self.seq(x, vs)
            if q is None or vs[3].op != 'lambda' or vs[2].op != 'inserter':
                return None
            dst = vs[2].a[0]

            def body(y, el, i):
                o = []
                for z, b in self.apply_pred(vs[3], el, e, y, fr):
                    if b == (name == 'copy_if'):
                        z = z.copy()
                        n = self.size_of(z, dst)
                        self.store(z, LI(dst, n), self.load(z, el), e, fr)
                        z.env[LF(dst, '#size')] = mkop('+', n, Int(1))
                    o.append((False, z))
                return o
            cur, _ = self.along(e, x, fr, q[0], q[1], q[2], body)
            r += [(y, vs[2]) for y in cur]
        return r

    def m_for_each(self, e, s, fr):
        r = []
        for x, vs in self.evs(e['a'], s, fr):
            b, en, f = vs
            if b.op != 'iter' or en.op != 'iter' or f.op != 'lambda':
                return None
            cont = LD(b.a[0])
            if b.a[1].op == 'int' and en.a[1].op == 'int' and en.a[1].a[0] - b.a[1].a[0] <= self.unroll:
                cur, _ = self.along(e, x, fr, cont, b.a[1], en.a[1], lambda y, el, i: [(False, z) for z, _ in self.apply_fun(f, [el], e, y, fr)])
                r += [(y, f) for y in cur]
                continue
            x = x.copy()
            iv = self.tmp('fe')
            x.env[iv] = b.a[1]
            node, dfr = self.lambdas[f]
            self.serial += 1

            def rc(y):
                t = mkop('<', y.env[iv], en.a[1])
                a, c = self.assume(y, t, True), self.assume(y, t, False)
                return ([a] if a else []), ([c] if c else [])

            def rb(y):
                nf = Frame(dict(fr.fn, ret=''), dfr.this, self.next(), fr.depth + 1, e, dfr)
                nf.vars = dict(dfr.vars)
                nf.refs = set(dfr.refs)
                el = LI(cont, y.env[iv])
                y = self.bind(nf, node['params'], [('l', el, node['params'][0]['t'])], y, fr)
                return [('n', z, None) for k, z, v in self.ex(node['body'], y, nf)]

            def ri(y):
                y = y.copy()
                y.env[iv] = mkop('+', y.env[iv], Int(1))
                return [y]
            for k, y, v in self.gen_loop(e, x, fr, rc, rb, ri, self.decls_in(node['body'], set())):
                r.append((y, f))
        return r

    def as_ref(self, s, v, e):
        if e.get('lv') and e.get('rt', '').endswith('&'):
            s = s.copy()
            l = self.tmp('mm')
            s.env[l] = v
            return (s, addr(l))
        return (s, v)

    def m_string(self, e, name, obj, s, fr):
        A = e['a']
        if name == 'operator=':
            return self.m_assign(e, obj, s, fr)
        if obj is not None and letters(self.load(s, obj)) is not None:
            if name in ('begin', 'cbegin') and not A:
                return [(s, mk('iter', addr(obj), Int(0)))]
            if name in ('end', 'cend') and not A:
                return [(s, mk('iter', addr(obj), Int(len(letters(self.load(s, obj))))))]
            r = []
            for x, vs in self.evs(A, s, fr):
                m = string_op(name, letters(self.load(x, obj)), vs)
                if m is None:
                    r = None
                    break
                v, new = m
                x = x.copy()
                if new is not None:
                    self.store(x, obj, Chars(new), e, fr)
                if v is None:
                    v = addr(obj) if e.get('rt', '').endswith('&') else VOID
                elif e.get('rt', '').endswith('&') and e.get('lv'):
                    l = self.tmp('ch')
                    x.env[l] = v
                    v = addr(l)
                r.append((x, v))
            if r is not None:
                return r
        if e.get('const') or name in ('operator[]', 'c_str', 'size', 'find', 'substr', 'empty', 'at', 'length', 'compare'):
            o = self.load(s, obj)
            r = []
            for x, vs in self.evs(A, s, fr):
                v = mk('call', 'str.' + name, o, *vs)
                if name in ('size', 'length'):
                    v = mk('size', o)
                if name == 'empty':
                    v = mkop('==', mk('size', o), Int(0))
                if strip(e.get('rt', '')) in ('unsigned long', 'int'):
                    self.int_terms.add(v.id)
                self.hooks.opaque(self, x, e, fr, 'string::' + name, obj, [('v', y, '') for y in vs], self.dry)
                if e.get('lv') and e.get('rt', '').endswith('&'):
                    x = x.copy()
                    l = self.tmp('ch')
                    x.env[l] = v
                    r.append((x, addr(l)))
                else:
                    r.append((x, v))
            return r
        r = []
        for x, vs in self.evs(A, s, fr):
            x = x.copy()
            o = self.load(x, obj)
            if name == 'clear':
                self.store(x, obj, Str(''), e, fr)
            else:
                self.store(x, obj, mk('call', 'str.' + name, o, *vs), e, fr)
            r.append((x, addr(obj) if e.get('rt', '').endswith('&') else VOID))
        return r

    SCALARS = ('double', 'float', 'int', 'unsigned long', 'long', 'unsigned int')

    def m_eigen(self, e, name, cls, obj, s, fr):
        A = e['a']
        rt0 = e.get('rt', '')
        op = e.get('op')
        if obj is not None:
            if op == '=' and len(A) == 1:
                r = []
                for x, v in self.ev(A[0], s, fr):
                    x = x.copy()
                    self.store(x, obj, v, e, fr)
                    r.append((x, addr(obj)))
                return r
            if op in ('+=', '-=', '*=', '/=') and len(A) == 1:
                r = []
                for x, v in self.ev(A[0], s, fr):
                    x = x.copy()
                    old = self.load(x, obj)
                    sc = strip(A[0]['t']) in self.SCALARS
                    nv = self.vec_arith(op[0], old, v, False, sc, x, e, fr)
                    self.store(x, obj, nv, e, fr)
                    r.append((x, addr(obj)))
                return r
            if op in ('()', '[]'):
                r = []
                for x, vs in self.evs(A, s, fr):
                    r.append((x, addr(mk('I', obj, '@', *vs)) if e.get('lv') else self.load(x, mk('I', obj, '@', *vs))))
                return r
            if op == '<<' or op == ',':
                return self.m_comma(e, op, obj, s, fr)
            if op in ('+', '-', '*', '/') and len(A) == 1:
                r = []
                for x, v in self.ev(A[0], s, fr):
                    a = self.load(x, obj)
                    r.append((x, self.moved(op, a, v, e.get('objt', ''), e) or
                          self.vec_arith(op, a, v, strip(e.get('objt', '')) in self.SCALARS, strip(A[0]['t']) in self.SCALARS, x, e, fr)))
                return r
            if op == '-' and not A:
                return [(s, mkop('neg', self.load(s, obj)))]
            if op in ('==', '!=') and len(A) == 1:
                return [(x, mkop(op, self.load(x, obj), v)) for x, v in self.ev(A[0], s, fr)]
            if op in ('<', '<=', '>', '>=') and len(A) == 1 and 'Eigen::Array' in e.get('objt', ''):
                return [(x, mk('call', 'cwise', mk('str', op), self.load(x, obj), v)) for x, v in self.ev(A[0], s, fr)]
            if name in ('all', 'any') and not A:
                v = self.load(s, obj)
                if v.op == 'call' and v.a[0] == 'cwise' and re.search(r'Matrix<double, 3, 1|Array<double, 3, 1', e.get('objt', '')):
                    cs = [self.compare(v.a[1].a[0], self.comp(v.a[2], Int(i)), self.comp(v.a[3], Int(i))) for i in range(3)]
                    return [(s, mkop('&&' if name == 'all' else '||', mkop('&&' if name == 'all' else '||', cs[0], cs[1]), cs[2]))]
            if name in ('x', 'y', 'z', 'w') and not A:
                l = mk('I', obj, '@', Int('xyzw'.index(name)))
                return [(s, addr(l) if e.get('lv') else self.load(s, l))]
            if name in ('coeff', 'coeffRef') and A:
                r = []
                for x, vs in self.evs(A, s, fr):
                    l = mk('I', obj, '@', *vs)
                    r.append((x, addr(l) if e.get('lv') else self.load(x, l)))
                return r
            if name in ('matrix', 'array', 'eval', 'derived', 'noalias', 'const_cast_derived') and not A:
                return [(s, addr(obj))] if e.get('lv') else [(s, self.load(s, obj))]
            if name in ('linear', 'translation', 'affine', 'linearExt', 'translationExt') and not A:
                l = LF(obj, '@' + name)
                return [(s, addr(l) if e.get('lv') else self.load(s, l))]
            if name in ('col', 'row', 'head', 'tail', 'block', 'topLeftCorner', 'segment', 'diagonal', 'topRows', 'leftCols'):
                r = []
                for x, vs in self.evs(A, s, fr):
                    l = LF(obj, '@' + view_name(name, vs, rt0, e.get('objt', '')))
                    r.append((x, addr(l) if e.get('lv') else self.view(x, l, obj)))
                return r
            if name in ('normalize', 'setZero', 'setIdentity', 'setOnes', 'setConstant', 'fill', 'transposeInPlace', 'translate', 'rotate', 'scale', 'pretranslate', 'prerotate', 'prescale', 'swap'):
                r = []
                for x, vs in self.evs(A, s, fr):
                    x = x.copy()
                    old = self.load(x, obj)
                    if name == 'normalize':
                        nv = mk('call', 'normalized', old)
                    elif name == 'setZero':
                        nv = mk('call', 'zero')
                    elif name == 'setIdentity':
                        nv = mk('call', 'identity')
                    elif name in ('setConstant', 'fill'):
                        nv = mk('call', 'Constant', *vs)
                    else:
                        nv = mk('call', 'Eigen.' + name, old, *vs)
                    self.store(x, obj, nv, e, fr)
                    r.append((x, addr(obj) if e.get('rt', '').endswith('&') else VOID))
                return r
            # pure observers
            r = []
            for x, vs in self.evs(A, s, fr):
                a = self.load(x, obj)
                if a.op == 'objat':
                    a = mk('objref', a.a[0])
                x2 = x
                v = mk('call', name, a, *[mk('objref', q.a[0]) if q.op == 'objat' else q for q in vs])
                if not e.get('const') and not e.get('static') and e.get('lv'):
                    r.append((x2, addr(LF(obj, '@' + name))))
                else:
                    r.append((x2, v))
            return r
        if op in ('+', '-', '*', '/') and len(A) == 2:
            r = []
            for x, (a, b) in self.evs(A, s, fr):
                r.append((x, self.moved(op, a, b, A[0]['t'], e) or
                          self.vec_arith(op, a, b, strip(A[0]['t']) in self.SCALARS, strip(A[1]['t']) in self.SCALARS, x, e, fr)))
            return r
        if op == '-' and len(A) == 1:
            return [(x, mkop('neg', v)) for x, v in self.ev(A[0], s, fr)]
        if op == '<<':
            return None
        if e.get('static') or 'Eigen' in e['n']:
            r = []
            for x, vs in self.evs(A, s, fr):
                r.append((x, mk('call', name, *vs)))
            return r
        return None

    def view(self, s, l, obj):
        return self.load(s, l)

    def moved(self, op, a, b, t, e):
        """an unmodified affine map applied to a vector, as translation plus linear part"""
        if op == '*' and a.op == 'init' and 'Transform<' in t and 'Transform<' not in e.get('t', '') and 'Matrix<' in e.get('t', ''):
            return mkop('+', mk('init', LF(a.a[0], '@translation')), mk('op', 'm*', mk('init', LF(a.a[0], '@linear')), b))

    def vec_arith(self, op, a, b, sa, sb, s, e, fr):
        """Eigen arithmetic with scalar operands normalised to `s*` (scalar first) and `v/`"""
        if op == '*' and sa and not sb:
            return self.smul(a, b)
        if op == '*' and sb and not sa:
            return self.smul(b, a)
        if op == '/' and sb and not sa:
            self.hooks.div(self, s, e, fr, a, b, self.dry)
            return mk('op', 'v/', a, b)
        if op == '*' and not sa and not sb:
            return mk('op', 'm*', a, b)
        if op == '-' and a is b:
            return mk('op', '-', a, b)
        return mkop(op, a, b) if not (op in '+-' and (isnum(a) or isnum(b))) else mk('op', op, a, b)

    def smul(self, k, v):
        if k.op in ('real', 'int') and k.a[0] == 1:
            return v
        if k.op in ('real', 'int') and k.a[0] == -1:
            return mkop('neg', v)
        return mk('op', 's*', k, v)

    def m_comma(self, e, op, obj, s, fr):
        A = e['a']
        r = []
        for x, v in self.ev(A[0], s, fr):
            x = x.copy()
            if op == '<<':
                l = self.tmp('comma')
                x.env[l] = mk('commainit', addr(obj), v)
                self.store(x, obj, mk('blocks', v), e, fr)
                r.append((x, mk('objat', l)))
            else:
                c = self.load(x, obj)
                if c.op != 'commainit':
                    r.append((x, addr(obj)))
                    continue
                c2 = mk('commainit', *(c.a + (v,)))
                x.env[obj] = c2
                self.store(x, c.a[0].a[0] if c.a[0].op == 'addr' else LD(c.a[0]), mk('blocks', *c2.a[1:]), e, fr)
                r.append((x, mk('objat', obj)))
        return r

    # -------------------------------------------------------------- top level
    def analyse(self, fn, facts=None, env=None, ghost=(), args=None):
        """Run fn on unknown arguments.  -> (returns [(state, value)], throws [(state, info)])
        Parameters become locations V('p', name); `this` is THIS."""
        s = State(dict(env or {}), dict(facts or {}), ghost)
        nf = Frame(fn, THIS, self.next(), 0)
        self.params = {}
        for i, p in enumerate(fn['params']):
            l = mk('V', 'p%d' % i, p['n'] or 'arg%d' % i)
            self.params[p['n'] or 'arg%d' % i] = l
            nf.vars[p['d']] = l
            if args and i < len(args) and args[i] is not None:
                if args[i].op == 'objat':
                    nf.vars[p['d']] = args[i].a[0]
                else:
                    s.env[l] = args[i]
            if strip(p['t']) in ('int', 'unsigned long', 'long', 'unsigned int'):
                self.int_terms.add(self.load(s, l).id)
        self.throws = []
        self.frame = nf
        self.stack = [fn['u']]
        out = self.run_fn(fn, nf, s)
        return out, list(self.throws)
