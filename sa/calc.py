"""Algebra of closed expressions: sums of products of powers with symbolic exponents, and derivatives.

An expression is a dict {monomial: coefficient}; a monomial is a frozenset of
(base, exponent) with base a term, ('e',), ('num', c) or ('sum', frozen expression) and
exponent a frozen expression.  Bases are taken to be positive."""
from fractions import Fraction
from terms import T, mk, K


class Unknown(Exception):
    pass


def fz(e):
    return frozenset(e.items())


def un(f):
    return dict(f)


def num(c):
    return {frozenset(): Fraction(c)} if c else {}


ONE = num(1)


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def mmul(m, n):
    d = {b: un(x) for b, x in m}
    for b, x in n:
        d[b] = add(d.get(b, {}), un(x))
    return frozenset((b, fz(x)) for b, x in d.items() if x)


def mul(a, b):
    r = {}
    if len(a) * len(b) > 4000:
        raise Unknown
    for k, v in a.items():
        for l, w in b.items():
            m = mmul(k, l)
            r[m] = r.get(m, 0) + v * w
            if not r[m]:
                del r[m]
    return r


def constant(e):
    if not e:
        return Fraction(0)
    return e[frozenset()] if len(e) == 1 and frozenset() in e else None


def power(a, x):
    """a ** x"""
    c = constant(x)
    if c == 0:
        return ONE
    if len(a) == 1:
        (m, v), = a.items()
        r = {frozenset((b, fz(mul(un(e), x))) for b, e in m): Fraction(1)}
        if v == 1:
            return r
        if c is not None and c.denominator == 1:
            return mul(r, num(v ** int(c)))
        return mul(r, {frozenset([(('num', v), fz(x))]): Fraction(1)})
    if not a:
        raise Unknown
    if c is not None and c.denominator == 1 and 0 < c <= 4:
        r = ONE
        for _ in range(int(c)):
            r = mul(r, a)
        return r
    return {frozenset([(('sum', fz(a)), fz(x))]): Fraction(1)}


def inv(a):
    return power(a, num(-1))


def atom(t):
    return {frozenset([(t, fz(ONE))]): Fraction(1)}


def exp(e):
    return {frozenset([(('e',), fz(e))]): Fraction(1)} if e else ONE


def expr(t, fn=None):
    """term -> expression; fn(name, args) may interpret calls of named functions"""
    o = t.op
    if o == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        try:
            return num(Fraction(t.a[0]))
        except (ValueError, OverflowError):
            return atom(t)
    if o == 'neg':
        return mul(num(-1), expr(t.a[0], fn))
    if o == 'bin' and t.a[0] in ('+', '-', '*', '/', '**'):
        a, b = expr(t.a[1], fn), expr(t.a[2], fn)
        return add(a, b) if t.a[0] == '+' else add(a, b, -1) if t.a[0] == '-' else mul(a, b) if t.a[0] == '*' else mul(a, inv(b)) if t.a[0] == '/' else power(a, b)
    if o == 'call' and t.a[0].op == 'ext':
        n, a = t.a[0].a[0], t.a[1]
        if not t.a[2]:
            if n in ('numpy.exp', 'math.exp') and len(a) == 1:
                return exp(expr(a[0], fn))
            if n in ('numpy.power', 'math.pow') and len(a) == 2:
                return power(expr(a[0], fn), expr(a[1], fn))
            if n in ('numpy.multiply', 'numpy.divide', 'numpy.add', 'numpy.subtract') and len(a) == 2:
                return expr(mk('bin', {'multiply': '*', 'divide': '/', 'add': '+', 'subtract': '-'}[n[6:]], a[0], a[1]), fn)
            if n in ('numpy.sqrt',) and len(a) == 1:
                return power(expr(a[0], fn), num(Fraction(1, 2)))
            if n in ('numpy.square',) and len(a) == 1:
                return power(expr(a[0], fn), num(2))
            if n == 'numpy.negative' and len(a) == 1:
                return mul(num(-1), expr(a[0], fn))
        if fn is not None:
            r = fn(n, [expr(x, fn) for x in a])
            if r is not None:
                return r
        return {frozenset([(('fn', n) + tuple(fz(expr(x, fn)) for x in a) + ((tuple((k, fz(expr(v, fn))) for k, v in t.a[2]),) if t.a[2] else ()), fz(ONE))]): Fraction(1)}
    return atom(t)


def has(b, x):
    """x occurs in a base or frozen expression"""
    if b == x:
        return True
    if isinstance(b, (tuple, frozenset)):
        return any(has(y, x) for y in b)
    if isinstance(b, T):
        from terms import contains
        return isinstance(x, T) and contains(b, x)
    return False


# d f(args) / d args[-1]; exponent arithmetic on expressions
def dcall(b):
    n = b[1].split('.')[-1]
    a = [un(f) for f in b[2:]]
    if n == 'gammaincc' and len(a) == 2:
        s, u = a
        g = {frozenset([(('fn', 'scipy.special.gamma', fz(s)), fz(ONE))]): Fraction(1)}
        return mul(mul(num(-1), mul(power(u, add(s, num(-1))), exp(mul(num(-1), u)))), inv(g)), u
    if n == 'gammainc' and len(a) == 2:
        d, u = dcall(('fn', 'gammaincc') + b[2:])
        return mul(num(-1), d), u
    if n == 'expi' and len(a) == 1:
        return mul(exp(a[0]), inv(a[0])), a[0]
    if n == 'exp1' and len(a) == 1:
        return mul(num(-1), mul(exp(mul(num(-1), a[0])), inv(a[0]))), a[0]
    if n == 'log' and len(a) == 1:
        return inv(a[0]), a[0]
    raise Unknown


def diff(e, x):
    """derivative by the term x"""
    r = {}
    for m, c in e.items():
        for b, p in m:
            if not has(b, x) and not has(p, x):
                continue
            rest = {frozenset(y for y in m if y != (b, p)): c}
            pe = un(p)
            if b == ('e',):
                d = mul(diff(pe, x), {frozenset([(b, p)]): Fraction(1)})
            elif has(p, x):
                raise Unknown
            else:
                if b == x:
                    db = ONE
                elif isinstance(b, tuple) and b[0] == 'sum':
                    db = diff(un(b[1]), x)
                elif isinstance(b, tuple) and b[0] == 'fn':
                    if any(has(f, x) for f in b[2:-1]):
                        raise Unknown
                    d1, u = dcall(b)
                    db = mul(d1, diff(u, x))
                else:
                    raise Unknown
                q = add(pe, num(-1))
                d = mul(pe, db)
                if q:
                    d = mul(d, {frozenset([(b, fz(q))]): Fraction(1)})
            r = add(r, mul(rest, d))
    return r


def zero(e, depth=0):
    """the expression vanishes identically (denominators that are sums are multiplied out)"""
    if depth > 12:
        raise Unknown
    e = {k: v for k, v in e.items() if v}
    if not e:
        return True
    worst = {}
    for m in e:
        for b, p in m:
            c = constant(un(p))
            if isinstance(b, tuple) and b[0] == 'sum' and c is not None and c.denominator == 1:
                worst[b] = min(worst.get(b, 0), int(c))
    for b, k in worst.items():
        r = {}
        s = un(b[1])
        for m, v in e.items():
            c = next((int(constant(un(p))) for q, p in m if q == b), 0)
            t = {frozenset(y for y in m if y[0] != b): v}
            for _ in range(c - k):
                t = mul(t, s)
            r = add(r, t)
        return zero(r, depth + 1)
    return not any(abs(v) > 1e-9 for v in e.values())


def equal(a, b):
    return zero(add(a, b, -1))


# ---------------------------------------------------------------- entries of arrays
def size(t):
    """length of an array value, None for single values"""
    if t.op == 'vec':
        return len(t.a)
    if t.op == 'upd':
        return size(t.a[0])
    if t.op in ('bin', 'cmp'):
        n = [s for s in (size(t.a[1]), size(t.a[2])) if s is not None]
        return max(n) if n else None
    if t.op == 'neg' or t.op == 'not':
        return size(t.a[0])
    if t.op == 'call' and t.a[0].op == 'ext':
        n = [s for s in map(size, t.a[1]) if s is not None]
        return max(n) if n else None
    if t.op == 'mcall':
        n = [s for s in map(size, t.a[2]) if s is not None]
        return max(n) if n else None
    return None


def entry(t, i, truth):
    """entry i of an array value as a term of single values; truth(cond) decides conditions"""
    o = t.op
    if o == 'vec':
        return entry(t.a[i] if len(t.a) > 1 else t.a[0], i, truth)
    if o == 'upd':
        j = t.a[1]
        n = size(t)
        if n is None:
            n = length(t, truth)
        if j.op == 'vec' or j.op in ('cmp', 'and', 'or', 'not', 'bin', 'const') and (size(j) is not None or j.op != 'const' or isinstance(j.a[0], bool)):
            if n is None or n == 1 and size(j) in (None, 1):
                on = truth(entry(j, 0, truth))
                return entry(t.a[2], 0, truth) if on else entry(t.a[0], i, truth)
            mask = [truth(entry(j, k, truth)) for k in range(n)]
            if not mask[i]:
                return entry(t.a[0], i, truth)
            v = t.a[2]
            s = length(v, truth)
            if s not in (None, 1, sum(mask)):
                raise Mismatch('%d values are assigned to %d entries' % (s, sum(mask)))
            return entry(v, sum(mask[:i]) if s not in (None, 1) else 0, truth)
        if j.op == 'const' and isinstance(j.a[0], int):
            return entry(t.a[2], 0, truth) if j.a[0] == i else entry(t.a[0], i, truth)
        raise Unknown
    if o == 'sub':
        j = t.a[1]
        if size(j) is not None or j.op in ('cmp', 'and', 'or', 'not'):
            n = length(t.a[0], truth)
            if n is None:
                raise Unknown
            m = size(j) or 1
            if m != n:
                raise Mismatch('a mask of %d entries is applied to %d' % (m, n))
            mask = [k for k in range(n) if truth(entry(j, k, truth))]
            return entry(t.a[0], mask[i] if i < len(mask) else mask[0], truth)
        return t
    if o == 'phi':
        return entry(t.a[1] if truth(entry(t.a[0], i, truth)) else t.a[2], i, truth)
    if o == 'bin':
        sizes(t.a[1:], truth)
        return mk('bin', t.a[0], entry(t.a[1], i, truth), entry(t.a[2], i, truth))
    if o == 'cmp':
        return mk('cmp', t.a[0], entry(t.a[1], i, truth), entry(t.a[2], i, truth))
    if o in ('and', 'or', 'not', 'neg'):
        return mk(o, *[entry(x, i, truth) for x in t.a])
    if o == 'call' and t.a[0].op == 'ext':
        if t.a[0].a[0] in ('numpy.zeros', 'numpy.ones', 'numpy.zeros_like', 'numpy.ones_like'):
            return mk('const', 1 if 'ones' in t.a[0].a[0] else 0)
        if t.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray', 'numpy.atleast_1d') and len(t.a[1]) == 1:
            return entry(t.a[1][0], i, truth)
        if t.a[0].a[0] == 'numpy.interp':
            return mk('call', t.a[0], (entry(t.a[1][0], i, truth),) + tuple(t.a[1][1:]), t.a[2])
        if t.a[0].a[0] in ('numpy.maximum', 'numpy.minimum') and len(t.a[1]) == 2:
            a, b = (entry(x, i, truth) for x in t.a[1])
            less = truth(mk('cmp', '<', a, b)) if a is not b else False
            return b if less == t.a[0].a[0].endswith('maximum') else a
        if t.a[0].a[0] == 'numpy.where' and len(t.a[1]) == 3:
            return entry(t.a[1][1] if truth(entry(t.a[1][0], i, truth)) else t.a[1][2], i, truth)
        if t.a[0].a[0] == 'numpy.clip' and len(t.a[1]) == 3 and False:
            raise Unknown
        sizes(t.a[1], truth)
        return mk('call', t.a[0], tuple(entry(x, i, truth) for x in t.a[1]), t.a[2])
    if o == 'mcall':
        return mk('mcall', t.a[0], t.a[1], tuple(entry(x, i, truth) for x in t.a[2]), t.a[3])
    return t


class Mismatch(Exception):
    pass


def sizes(ts, truth):
    n = {s for s in (length(t, truth) for t in ts) if s not in (None, 1)}
    if len(n) > 1:
        raise Mismatch('arrays of %s entries are combined' % ' and '.join(map(str, sorted(n))))


def length(t, truth):
    """number of entries with masks resolved"""
    if t.op == 'sub' and (size(t.a[1]) is not None or t.a[1].op in ('cmp', 'and', 'or', 'not')):
        m = size(t.a[1]) or 1
        return sum(1 for k in range(m) if truth(entry(t.a[1], k, truth)))
    if t.op == 'vec':
        return len(t.a)
    if t.op == 'upd':
        return length(t.a[0], truth)
    if t.op in ('bin', 'cmp'):
        n = [s for s in (length(t.a[1], truth), length(t.a[2], truth)) if s is not None]
        return max(n) if n else None
    if t.op in ('neg', 'not'):
        return length(t.a[0], truth)
    if t.op == 'phi':
        return length(t.a[1] if truth(entry(t.a[0], 0, truth)) else t.a[2], truth)
    if t.op == 'call' and t.a[0].op == 'ext':
        n = [s for s in (length(x, truth) for x in t.a[1]) if s is not None]
        return max(n) if n else None
    if t.op == 'mcall':
        n = [s for s in (length(x, truth) for x in t.a[2]) if s is not None]
        return max(n) if n else None
    return None
