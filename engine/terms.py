"""Hash-consed terms (the value-numbering domain) and locations."""


class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + tuple((x.id, ) if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '..'
    o, a = t.op, t.a
    if o in ('int', 'real', 'str', 'bool'):
        return repr(a[0])
    if o == 'init':
        return show(a[0], d + 1) + '@0'
    if o == 'V':
        return str(a[1])
    if o == 'THIS':
        return 'this'
    if o == 'G':
        return str(a[0]).split('::')[-1]
    if o == 'F':
        return show(a[0], d + 1) + '.' + str(a[1])
    if o == 'I':
        return show(a[0], d + 1) + '[' + ','.join(show(x, d + 1) for x in a[1:]) + ']'
    if o == 'D':
        return '*' + show(a[0], d + 1)
    if o == 'H':
        return 'heap#%s' % (a[0],)
    if o == 'phi':
        return 'phi(%s:%s)' % (a[0], show(a[1], d + 1))
    if o == 'op':
        if len(a) == 3:
            return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
        return '(%s %s)' % (a[0], ' '.join(show(x, d + 1) for x in a[1:]))
    if o == 'call':
        n = str(a[0])
        return n.split('::')[-1] + '(' + ', '.join(show(x, d + 1) for x in a[1:]) + ')'
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def Int(n): return mk('int', int(n))
def Real(x): return mk('real', float(x))
def Str(s): return mk('str', s)
def Bool(b): return mk('bool', bool(b))


TRUE, FALSE, NULL, VOID = Bool(True), Bool(False), mk('null'), mk('void')
THIS = mk('THIS')


# locations are terms too
def LF(loc, name): return mk('F', loc, name)
def LI(loc, *idx): return mk('I', loc, *idx)
def LD(term):
    """location a pointer term points to"""
    if term.op == 'addr':
        return term.a[0]
    return mk('D', term)
def addr(loc):
    if loc.op == 'D':
        return loc.a[0]
    return mk('addr', loc)


def parent(loc):
    if loc.op in ('F', 'I'):
        return loc.a[0]
    return None


def root(loc):
    while loc.op in ('F', 'I'):
        loc = loc.a[0]
    return loc


def is_prefix(p, loc):
    while loc is not None:
        if loc is p:
            return True
        loc = parent(loc)
    return False


def isnum(t): return t.op in ('int', 'real')


def num(t): return t.a[0]


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


def contains(t, s):
    return any(x is s for x in subterms(t))


def subst(t, m, memo=None):
    """replace sub-terms according to m (dict T->T)"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(x, T) for x in t.a):
        r = t
    else:
        a = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
        if all(x is y for x, y in zip(a, t.a)):
            r = t
        elif t.op == 'op':
            r = mkop(*a)
        else:
            r = mk(t.op, *a)
    memo[t] = r
    return r


def whole_const(x):
    return Int(int(x.a[0])) if x.op == 'real' and x.a[0] == x.a[0] and abs(x.a[0]) < 1e15 and x.a[0] == int(x.a[0]) else x


BLANKS = (32, 9, 10, 11, 12, 13)


def letters(x):
    """characters of a string of known length: codes or symbolic letters; None otherwise"""
    if x.op == 'chars':
        return x.a
    if x.op == 'str':
        return tuple(Int(ord(c)) for c in x.a[0])
    return None


def Chars(cs):
    cs = tuple(cs)
    if all(c.op == 'int' for c in cs):
        return Str(''.join(chr(c.a[0] % 256) for c in cs))
    return mk('chars', *cs)


def same_char(a, b):
    """equality of two characters; a symbolic letter is not a blank"""
    if a is b:
        return True
    if a.op == 'int' and b.op == 'int':
        return a.a[0] == b.a[0]
    if a.op == 'letter' and b.op == 'int' and b.a[0] in BLANKS or b.op == 'letter' and a.op == 'int' and a.a[0] in BLANKS:
        return False
    return None


def mkop(o, *a):
    """smart constructor with constant folding and orientation of comparisons"""
    if o == '>':
        return mkop('<', a[1], a[0])
    if o == '>=':
        return mkop('<=', a[1], a[0])
    if o == '!=':
        return mknot(mkop('==', *a))
    if o == '!':
        return mknot(a[0])
    if o == '&&':
        if a[0] is FALSE or a[1] is FALSE:
            return FALSE
        if a[0] is TRUE:
            return a[1]
        if a[1] is TRUE:
            return a[0]
        return mk('op', '&&', *a)
    if o == '||':
        if a[0] is TRUE or a[1] is TRUE:
            return TRUE
        if a[0] is FALSE:
            return a[1]
        if a[1] is FALSE:
            return a[0]
        return mk('op', '||', *a)
    if len(a) == 2:
        x, y = a
        if o in ('<', '<=') and 'letter' in (x.op, y.op) and 'int' in (x.op, y.op):
            # a symbolic letter is a visible character
            if x.op == 'int' and x.a[0] <= 32:
                return TRUE
            if y.op == 'int' and y.a[0] <= 32:
                return FALSE
        if o in ('==', '<', '<='):
            # comparisons do not depend on the type of a constant
            x, y = whole_const(x), whole_const(y)
        if o == '==':
            if x is y and x.op in ('int', 'str', 'bool', 'null', 'addr'):
                return TRUE
            if x.op == y.op and x.op in ('str', 'bool'):
                return Bool(x.a == y.a)
            if x.op in ('chars', 'str') and y.op in ('chars', 'str'):
                p, q = letters(x), letters(y)
                if len(p) != len(q):
                    return FALSE
                eq = [same_char(u, v) for u, v in zip(p, q)]
                if False in eq:
                    return FALSE
                if None not in eq:
                    return TRUE
            if 'letter' in (x.op, y.op) and same_char(x, y) is not None:
                return Bool(same_char(x, y))
            if isnum(x) and isnum(y):
                return Bool(num(x) == num(y))
            if x is NULL and y.op == 'addr' or y is NULL and x.op == 'addr':
                return FALSE
            if x.op == 'addr' and y.op == 'addr' and x.a[0].op == 'H' and y.a[0].op == 'H':
                return FALSE
            if y.op == 'bool':
                return x if y.a[0] else mknot(x)
            if x.op == 'bool':
                return y if x.a[0] else mknot(y)
            if x.id > y.id:
                x, y = y, x
            return mk('op', '==', x, y)
        if isnum(x) and isnum(y):
            u, v = num(x), num(y)
            both = x.op == 'int' and y.op == 'int'
            f = Int if both else Real
            if o == '+': return f(u + v)
            if o == '-': return f(u - v)
            if o == '*': return f(u * v)
            if o == '/' and v != 0:
                if both:
                    return Int(int(u / v))
                return Real(u / v)
            if o == '%' and v != 0 and both: return Int(u % v)
            if o == '<': return Bool(u < v)
            if o == '<=': return Bool(u <= v)
        if o == '+':
            if isnum(x) and num(x) == 0: return y
            if isnum(y) and num(y) == 0: return x
            # fold nested integer constants
            if x.op == 'op' and x.a[0] == '+' and len(x.a) == 3 and isnum(y) and isnum(x.a[2]):
                return mkop('+', x.a[1], mkop('+', x.a[2], y))
            if x.op == 'op' and x.a[0] == '-' and len(x.a) == 3 and isnum(y) and isnum(x.a[2]):
                return mkop('+', x.a[1], mkop('-', y, x.a[2]))
            if isnum(x) and not isnum(y):
                return mkop('+', y, x)
        if o == '-':
            if isnum(y) and num(y) == 0: return x
            if x is y and x.op == 'int': return Int(0)
            if isnum(y):
                return mkop('+', x, (Int if y.op == 'int' else Real)(-num(y)))
        if o == '*':
            if isnum(x) and num(x) == 1: return y
            if isnum(y) and num(y) == 1: return x
        if o == '/' and isnum(y) and num(y) == 1:
            return x
    if len(a) == 1 and o == 'neg' and isnum(a[0]):
        return (Int if a[0].op == 'int' else Real)(-num(a[0]))
    return mk('op', o, *a)


def mknot(t):
    if t.op == 'bool':
        return Bool(not t.a[0])
    if t.op == 'op' and t.a[0] == '!':
        return t.a[1]
    return mk('op', '!', t)


def cast_real(t):
    if t.op == 'int':
        return Real(t.a[0])
    return t
