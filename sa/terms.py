"""Hash-consed terms: the abstract values of the value-flow analysis.

A term records *where a value comes from* (which parameter, attribute, call,
operator, loop element), never what it is at run time.  Terms are interned, so
equality is identity and sub-term queries are cheap on DAGs.
"""


class T(object):
    __slots__ = ('op', 'a', 'uid', '__weakref__', '_sub')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


_table = {}
_n = [0]


def _key(x):
    if isinstance(x, T):
        return ('t', x.uid)
    if isinstance(x, tuple):
        return ('u',) + tuple(_key(i) for i in x)
    return (type(x).__name__, x)


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a, t._sub = op, a, None
        _n[0] += 1
        t.uid = _n[0]
        _table[k] = t
    return t


def K(v):
    try:
        hash(v)
    except TypeError:
        return mk('repr', repr(v))
    if isinstance(v, float) and v != v:
        return mk('repr', 'nan')
    return mk('const', v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ELL = mk('const', Ellipsis)


def is_const(t, *vals):
    if t is None or t.op != 'const':
        return False
    return (not vals) or any(type(t.a[0]) is type(v) and t.a[0] == v for v in vals)


def const(t, default=None):
    return t.a[0] if t is not None and t.op == 'const' else default


def children(t):
    out = []

    def add(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for i in x:
                add(i)
    for x in t.a:
        add(x)
    return out


def subterms(t):
    """every sub-term of t, including itself (frozenset, cached)"""
    if t._sub is None:
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            stack.extend(children(x))
        t._sub = frozenset(seen)
    return t._sub


def contains(t, s):
    return s in subterms(t)


def find(t, pred):
    return sorted((x for x in subterms(t) if pred(x)), key=lambda x: x.uid)


def rebuild(t, f, memo=None):
    """bottom-up rewrite: f(term) -> term or None"""
    memo = {} if memo is None else memo
    order = sorted(subterms(t), key=lambda x: x.uid)  # children are older

    def sub(x):
        if isinstance(x, T):
            return memo[x]
        if isinstance(x, tuple):
            return tuple(sub(i) for i in x)
        return x
    for x in order:
        if x in memo:
            continue
        n = mk(x.op, *[sub(i) for i in x.a])
        r = f(n)
        memo[x] = n if r is None else r
    return memo[t]


def subst(t, mapping):
    order = sorted(subterms(t), key=lambda x: x.uid)
    memo = {}

    def sub(x):
        if isinstance(x, T):
            return memo[x]
        if isinstance(x, tuple):
            return tuple(sub(i) for i in x)
        return x
    for x in order:
        if x in mapping:
            memo[x] = mapping[x]
        else:
            memo[x] = mk(x.op, *[sub(i) for i in x.a])
    return memo[t]


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(i, depth) for i in t) + ')'
        return str(t)
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'ext', 'func', 'cls', 'unk', 'repr', 'glob', 'obj'):
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'sub':
        if a[1].op == 'lidx' and a[1].a[0] is a[0]:
            return 'each(%s)' % s(a[0])
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'lidx':
        return 'i(%s)' % s(a[0])
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'not':
        return '!%s' % s(a[0])
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if o == 'mcall':
        return '%s.%s(%s)' % (s(a[1]), a[0], ', '.join([s(x) for x in a[2]] + ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if o in ('list', 'tuple', 'set'):
        return o[0] + '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'phi':
        return '{%s ? %s : %s}' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'upd':
        return '%s{[%s]:=%s}' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'comp':
        return '[%s for each %s%s]' % (s(a[1]), s(a[2]), (' if ' + s(a[3])) if a[3] else '')
    if o == 'new':
        return 'new#%s:%s' % (a[0], a[1])
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


# ---------------------------------------------------------------- algebra
def _mono_mul(m1, m2):
    d = dict(m1)
    for k, v in m2:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: (kv[0].uid, str(kv[1]))))


def poly(t, memo=None, exp=None):
    """Canonical sum-of-monomials form of an arithmetic term.

    dict monomial -> coefficient, where a monomial is a sorted tuple of
    (atom, integer exponent).  Division by a non-monomial and powers with a
    symbolic exponent become atoms.  `exp(term)` may rewrite atoms first.
    """
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]

    def atom(x):
        return {((x, 1),): 1}

    r = None
    if t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        r = {(): t.a[0]} if t.a[0] != 0 else {}
    elif t.op == 'bin':
        op = t.a[0]
        if op in '+-':
            p, q = poly(t.a[1], memo, exp), poly(t.a[2], memo, exp)
            r = dict(p)
            for k, v in q.items():
                r[k] = r.get(k, 0) + (v if op == '+' else -v)
            r = {k: v for k, v in r.items() if v != 0}
        elif op == '*':
            p, q = poly(t.a[1], memo, exp), poly(t.a[2], memo, exp)
            if len(p) * len(q) <= 36:
                r = {}
                for k1, v1 in p.items():
                    for k2, v2 in q.items():
                        k = _mono_mul(k1, k2)
                        r[k] = r.get(k, 0) + v1 * v2
                r = {k: v for k, v in r.items() if v != 0}
        elif op == '/':
            p, q = poly(t.a[1], memo, exp), poly(t.a[2], memo, exp)
            if len(q) == 1:
                (k2, v2), = q.items()
                inv = tuple((k, -v) for k, v in k2)
                r = {}
                for k1, v1 in p.items():
                    k = _mono_mul(k1, inv)
                    r[k] = r.get(k, 0) + v1 / v2
                r = {k: v for k, v in r.items() if v != 0}
        elif op == '**':
            e = t.a[2]
            q = poly(t.a[1], memo, exp)
            ev = poly(e, memo, exp)
            ec = ev.get((), 0) if (not ev or list(ev) == [()]) else None
            if ec is not None and float(ec) == int(ec) and len(q) == 1:
                (k, v), = q.items()
                r = {tuple((b, x * int(ec)) for b, x in k): v ** int(ec)} if ec != 0 else {(): 1}
            elif ec is not None and int(ec) == ec and 0 < ec <= 3:
                r = {(): 1}
                for _ in range(int(ec)):
                    n = {}
                    for k1, v1 in r.items():
                        for k2, v2 in q.items():
                            k = _mono_mul(k1, k2)
                            n[k] = n.get(k, 0) + v1 * v2
                    r = n
    elif t.op == 'neg':
        r = {k: -v for k, v in poly(t.a[0], memo, exp).items()}
    if r is None:
        x = exp(t) if exp else t
        r = atom(x) if x is t or x.op not in ('bin', 'const', 'neg') else poly(x, memo, exp)
    memo[t] = r
    return r


def same_value(a, b):
    if a is b:
        return True
    p, q = poly(a), poly(b)
    if set(p) != set(q):
        return False
    return all(abs(p[k] - q[k]) <= 1e-12 * max(1, abs(p[k])) for k in p)
