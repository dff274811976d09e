"""Abstract one-dimensional arrays of known length: numpy operations on them, entry by entry.

A `vec` term stands for a numpy array whose length is known and whose entries are
terms.  Only operations whose result is again known entry by entry are folded."""
from terms import T, mk, K, NONE, TRUE, FALSE, is_const
from literal import plain, term

ELEMENTWISE1 = {'numpy.ceil', 'numpy.floor', 'numpy.round', 'numpy.rint', 'numpy.abs', 'numpy.absolute', 'numpy.sqrt', 'numpy.log', 'numpy.log2', 'numpy.log10', 'numpy.exp', 'numpy.real',
                'numpy.square', 'numpy.around', 'numpy.negative', 'numpy.int64', 'numpy.float64', 'numpy.trunc', 'numpy.fix'}
ELEMENTWISE2 = {'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/', 'numpy.add': '+', 'numpy.subtract': '-', 'numpy.power': '**', 'numpy.floor_divide': '//', 'numpy.mod': '%', 'numpy.remainder': '%'}
COMPARE = {'numpy.equal': '==', 'numpy.not_equal': '!=', 'numpy.less': '<', 'numpy.less_equal': '<=', 'numpy.greater': '>', 'numpy.greater_equal': '>='}
LOGIC = {'numpy.logical_and': '&', 'numpy.logical_or': '|', 'numpy.logical_not': '~', 'numpy.bitwise_and': '&', 'numpy.bitwise_or': '|', 'numpy.invert': '~'}
COPYING = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.atleast_1d', 'numpy.ravel', 'numpy.squeeze', 'numpy.ascontiguousarray', 'numpy.asfarray'}
SCALARS = ('const', 'bin', 'neg')


ENTRIES = set()      # terms met as entries of one-dimensional arrays: scalars


def V(*a):
    ENTRIES.update(a)
    return mk('vec', *a)


def flat(t):
    """entries of a value that is a 1-d sequence of scalars, else None"""
    if t.op in ('list', 'tuple', 'vec') and not any(x.op in ('star', 'list', 'tuple', 'vec', 'dict', 'comp') for x in t.a):
        return list(t.a)
    return None


def consts(t):
    s = flat(t)
    if s is None or any(x.op != 'const' for x in s):
        return None
    return [x.a[0] for x in s]


def ints(t):
    c = consts(t)
    return c if c is not None and all(isinstance(x, int) and not isinstance(x, bool) for x in c) else None


def scalar(t, d=0):
    """known to be a single value"""
    if t.op in ('const', 'cmp', 'lidx', 'fstr') and (t.op != 'cmp' or all(scalar(x, d + 1) for x in t.a[1:])):
        return True
    if t in ENTRIES:
        return True
    if t.op in ('list', 'tuple', 'vec', 'dict', 'comp') or d > 12:
        return False
    if t.op == 'bin':
        return scalar(t.a[1], d + 1) and scalar(t.a[2], d + 1)
    if t.op in ('neg', 'not'):
        return scalar(t.a[0], d + 1)
    if t.op == 'phi':
        return scalar(t.a[1], d + 1) and scalar(t.a[2], d + 1)
    if t.op in ('and', 'or'):
        return all(scalar(x, d + 1) for x in t.a)
    if t.op == 'call' and t.a[0].op == 'ext':
        n = t.a[0].a[0]
        if n in ('builtins.len', 'builtins.float', 'builtins.int', 'builtins.str', 'builtins.abs'):
            return True
        if n in ('numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'numpy.ptp', 'numpy.sum', 'numpy.mean', 'numpy.prod', 'numpy.std') and len(t.a[1]) == 1 and not t.a[2]:
            return True
        if n.startswith('numpy.') and t.a[1] and n in ELEMENTWISE1:
            return scalar(t.a[1][0], d + 1)
    if t.op == 'mcall' and t.a[0] in ('astype', 'item', 'lower', 'strip'):
        return scalar(t.a[1], d + 1)
    return False


def lift(f, *ts):
    """apply f entry by entry, broadcasting scalars"""
    n = [len(t.a) for t in ts if t.op == 'vec']
    if not n:
        return None
    n = max(n)
    cols = []
    for t in ts:
        if t.op in ('vec', 'list', 'tuple'):
            e = flat(t)
            if e is None or len(e) not in (1, n):
                return None
            cols.append(e * n if len(e) == 1 else e)
        elif scalar(t):
            cols.append([t] * n)
        else:
            return None
    return V(*[f(*x) for x in zip(*cols)])


def conjunction(xs, op):
    out = []
    stop = FALSE if op == 'and' else TRUE
    for x in xs:
        if x.op == 'const':
            if bool(x.a[0]) == (op == 'or'):
                return stop
            continue
        out.append(x)
    if not out:
        return TRUE if op == 'and' else FALSE
    return out[0] if len(out) == 1 else mk(op, *out)


def logic(op, a, b):
    """elementwise & | of truth values"""
    return conjunction([a, b], 'and' if op == '&' else 'or')


def bin_(it, op, a, b):
    if a.op != 'vec' and b.op != 'vec':
        return None
    if op in '&|':
        return lift(lambda x, y: logic(op, x, y), a, b)
    return lift(lambda x, y: it.bin(op, x, y), a, b)


def cmp_(mkcmp, mknot, op, a, b):
    if a.op != 'vec' and b.op != 'vec':
        return None
    if op in ('is', 'is not'):
        return FALSE if op == 'is' else TRUE
    if op in ('in', 'not in'):
        if b.op != 'vec':
            return None
        s = list(b.a)
        if any(x is a for x in s):
            return K(op == 'in')
        r = conjunction([mkcmp('==', a, x) for x in s], 'or')
        return r if op == 'in' else mknot(r)
    return lift(lambda x, y: mkcmp(op, x, y), a, b)


def neg(it, t):
    return lift(lambda x: K(-x.a[0]) if x.op == 'const' and isinstance(x.a[0], (int, float)) else mk('neg', x), t)


def invert(mknot, t):
    return lift(mknot, t)


def select(it, b, i):
    """b[i] for a vec b"""
    if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
        return b.a[i.a[0]] if -len(b.a) <= i.a[0] < len(b.a) else None
    if i.op == 'const' and i.a[0] is Ellipsis:
        return b
    if i.op == 'slice' and all(x.op == 'const' for x in i.a):
        return V(*b.a[slice(*[x.a[0] for x in i.a])])
    c = consts(i) if i.op in ('list', 'vec') else None
    if c is not None:
        if all(isinstance(x, bool) for x in c):
            return V(*[y for x, y in zip(c, b.a) if x]) if len(c) == len(b.a) else None
        if all(isinstance(x, int) for x in c) and all(-len(b.a) <= x < len(b.a) for x in c):
            return V(*[b.a[x] for x in c])
    if i.op == 'tuple' and len(i.a) == 1:
        return select(it, b, i.a[0])
    if i.op == 'const' and isinstance(i.a[0], str) and b.a and all(x.op == 'dict' and any(k is i for k, _ in x.a[0]) for x in b.a):
        return V(*[v for x in b.a for k, v in x.a[0] if k is i])
    return None


def update(b, i, v):
    """b after b[i] = v, None when not known entry by entry"""
    n = len(b.a)
    if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
        if -n <= i.a[0] < n and scalar(v):
            l = list(b.a)
            l[i.a[0]] = v
            return V(*l)
        return None
    idx = None
    if i.op == 'slice' and all(x.op == 'const' for x in i.a):
        idx = list(range(n))[slice(*[x.a[0] for x in i.a])]
    elif i.op in ('list', 'vec'):
        c = consts(i)
        if c is not None and all(isinstance(x, bool) for x in c) and len(c) == n and n:
            idx = [k for k in range(n) if c[k]]
        elif c is not None and all(isinstance(x, int) and -n <= x < n for x in c):
            idx = c
    elif i.op == 'const' and i.a[0] is Ellipsis:
        idx = list(range(n))
    if idx is None:
        return None
    if v.op in ('vec', 'list', 'tuple'):
        e = flat(v)
        if e is None or len(e) not in (1, len(idx)):
            return None
        e = e * len(idx) if len(e) == 1 else e
    elif scalar(v):
        e = [v] * len(idx)
    else:
        return None
    l = list(b.a)
    for k, x in zip(idx, e):
        l[k] = x
    return V(*l)


def cast(x, kws, pos=None):
    d = kws.get('dtype', pos)
    if d is None:
        return x
    isint = d.op == 'ext' and d.a[0] in ('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.integer', 'numpy.int_', 'numpy.intp') or d.op == 'const' and d.a[0] in ('int', 'int64', 'int32', 'i', 'i8')
    if x.op == 'const' and isinstance(x.a[0], float) and isint and x.a[0] == x.a[0]:
        return K(int(x.a[0]))
    if x.op == 'const' and isinstance(x.a[0], bool) and isint:
        return K(int(x.a[0]))
    if isint and x.op not in ('const', 'param'):
        return mk('mcall', 'astype', x, (mk('ext', 'builtins.int'),), ())
    return x


def length(t):
    """a constant count, from a scalar or a one-entry sequence"""
    if t.op == 'const' and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return t.a[0]
    c = ints(t)
    return c[0] if c is not None and len(c) == 1 else None


def nest(t):
    """shape of a regular nested literal, None otherwise"""
    if t.op not in ('list', 'tuple', 'vec'):
        return ()
    s = [nest(x) for x in t.a]
    if not s or any(x is None or x != s[0] for x in s):
        return (0,) if not s else None
    return (len(s),) + s[0]


def ext(it, name, args, kws, depth=0):
    if not name:
        return None
    if name.startswith('builtins.'):
        if name == 'builtins.slice' and 1 <= len(args) <= 3 and not kws:
            return mk('slice', *([NONE] + list(args) + [NONE] if len(args) == 1 else list(args) + [NONE] * (3 - len(args))))
        if any(a.op == 'vec' for a in args):
            n = name[9:]
            if n in ('len',):
                return K(len(args[0].a))
            if n in ('list', 'tuple') and len(args) == 1:
                return mk(n, *args[0].a)
            if n in ('enumerate', 'zip', 'sorted', 'set', 'reversed', 'sum', 'min', 'max', 'any', 'all'):
                return NEXT
        return None
    if not name.startswith('numpy.'):
        return None
    n = name[6:]
    a = list(args)
    if name in COPYING and a:
        x = a[0]
        nd = kws.get('ndmin')
        if set(kws) - {'ndmin', 'copy', 'dtype', 'subok', 'order'}:
            return None
        d = a[1] if len(a) > 1 and name in ('numpy.array', 'numpy.asarray') else None
        e = flat(x)
        if e is not None:
            if nd is not None and is_const(nd, 2):
                return None
            return V(*[cast(y, kws, d) for y in e])
        if scalar(x) and (nd is not None and is_const(nd, 1) or n == 'atleast_1d') and (x.op in ('const', 'bin') or x in getattr(it, 'scalars', ())):
            return V(cast(x, kws, d))
        return None
    if n in ('ones', 'zeros', 'full', 'empty') and a and not any(x.op in ('list', 'vec') and any(y.op in ('tuple', 'vec') for y in x.a) for x in (kws.get('dtype', a[1] if len(a) > 1 and n != 'full' else NONE),)):
        k = length(a[0]) if not (a[0].op == 'vec' and len(a[0].a) == 1 and a[0].a[0].op != 'const') else None
        d = kws.get('dtype', a[2] if n == 'full' and len(a) > 2 else (a[1] if n != 'full' and len(a) > 1 else None))
        if k is None or not 0 <= k <= 16:
            return None
        isbool = d is not None and (d.op == 'ext' and d.a[0] in ('builtins.bool', 'numpy.bool_', 'numpy.bool') or is_const(d, 'bool'))
        v = {'ones': K(True) if isbool else K(1), 'zeros': K(False) if isbool else K(0)}.get(n)
        if n == 'full':
            v = a[1] if len(a) > 1 else kws.get('fill_value')
        if v is None:
            v = mk('unk', 'empty')
        return V(*[v] * k)
    if n in ('ones_like', 'zeros_like', 'full_like') and a and a[0].op == 'vec':
        return ext(it, 'numpy.' + n[:-5], [K(len(a[0].a))] + a[1:], kws)
    if n == 'arange' and a and all(x.op == 'const' and isinstance(x.a[0], int) for x in a) and (set(kws) <= {'dtype'}):
        r = range(*[x.a[0] for x in a])
        return V(*[K(i) for i in r]) if len(r) <= 16 else None
    if name in ELEMENTWISE1 and a and a[0].op == 'vec':
        f = mk('ext', name)
        return lift(lambda x: mk('call', f, (x,) + tuple(a[1:]), tuple(kws.items())), a[0])
    if name in ELEMENTWISE2 and len(a) == 2 and not kws:
        return bin_(it, ELEMENTWISE2[name], a[0], a[1])
    if name in COMPARE and len(a) == 2 and not kws:
        return it.compare(COMPARE[name], a[0], a[1]) if 'vec' in (a[0].op, a[1].op) else None
    if name in LOGIC and not kws and any(x.op == 'vec' for x in a):
        if LOGIC[name] == '~':
            return invert(it.negate, a[0])
        return bin_(it, LOGIC[name], a[0], a[1])
    if n in ('any', 'all', 'sometrue', 'alltrue') and len(a) == 1 and not kws:
        if a[0].op == 'const':
            return K(bool(a[0].a[0]))
        if a[0].op in ('vec', 'list', 'tuple'):
            e = flat(a[0])
            if e is not None:
                return conjunction([it.boolish(x) for x in e], 'or' if n in ('any', 'sometrue') else 'and')
        return None
    if n in ('isin', 'in1d') and len(a) == 2:
        e = flat(a[0])
        s = flat(a[1])
        if s is None:
            return None
        g = lambda x: it.compare('in', x, V(*s))
        if e is not None:
            return V(*[g(x) for x in e])
        return g(a[0]) if a[0].op in ('const',) else None
    if n in ('setdiff1d', 'intersect1d', 'union1d', 'unique', 'sort', 'argsort', 'flip', 'nonzero', 'flatnonzero') and a and not kws:
        c = [consts(x) for x in a]
        if any(x is None for x in c):
            return None
        if n == 'setdiff1d':
            r = sorted(set(c[0]) - set(c[1]))
        elif n == 'intersect1d':
            r = sorted(set(c[0]) & set(c[1]))
        elif n == 'union1d':
            r = sorted(set(c[0]) | set(c[1]))
        elif n == 'unique':
            r = sorted(set(c[0]), key=lambda x: (str(type(x)), x))
        elif n == 'sort':
            r = sorted(c[0])
        elif n == 'flip':
            r = c[0][::-1]
        elif n == 'argsort':
            r = sorted(range(len(c[0])), key=lambda k: c[0][k])
        else:
            r = [k for k, x in enumerate(c[0]) if x]
            if n == 'nonzero':
                return mk('tuple', V(*[K(x) for x in r]))
        return V(*[K(x) for x in r])
    if n == 'where' and len(a) == 1 and a[0].op == 'vec':
        return ext(it, 'numpy.nonzero', a, {})
    if n in ('concatenate', 'append', 'hstack') and a and set(kws) <= {'axis'}:
        parts = a[0].a if n != 'append' and a[0].op in ('list', 'tuple') else (a if n == 'append' else None)
        if parts is None:
            return None
        out = []
        for p in parts:
            e = flat(p)
            if e is None:
                if n in ('append', 'hstack') and p.op == 'const':
                    e = [p]
                else:
                    return None
            out += e
        return V(*out)
    if n == 'delete' and len(a) >= 2:
        e = flat(a[0])
        c = ints(a[1]) if not (a[1].op == 'const') else [a[1].a[0]]
        if e is None or c is None or not all(isinstance(x, int) and -len(e) <= x < len(e) for x in c):
            return None
        c = [x % len(e) for x in c]
        return V(*[y for k, y in enumerate(e) if k not in c])
    if n == 'insert' and len(a) >= 3 and a[1].op == 'const':
        e = flat(a[0])
        v = flat(a[2]) or [a[2]]
        if e is None:
            return None
        k = a[1].a[0]
        return V(*(e[:k] + v + e[k:]))
    if n in ('resize', 'tile', 'repeat') and len(a) == 2:
        e = flat(a[0])
        k = length(a[1])
        if e is None and a[0].op in ('const',):
            e = [a[0]]
        if e is None or k is None or not e:
            return None
        if n == 'resize':
            return V(*[e[i % len(e)] for i in range(k)])
        if n == 'tile':
            return V(*(e * k))
        return V(*[x for x in e for _ in range(k)])
    if n == 'full' and False:
        return None
    if n in ('sum', 'prod') and len(a) == 1 and not kws and a[0].op == 'vec' and a[0].a:
        r = a[0].a[0]
        for x in a[0].a[1:]:
            r = it.bin('+' if n == 'sum' else '*', r, x)
        return r
    if n in ('ndim', 'shape', 'size') and len(a) == 1:
        if a[0].op == 'vec':
            return {'ndim': K(1), 'size': K(len(a[0].a)), 'shape': mk('tuple', K(len(a[0].a)))}[n]
        if a[0].op in ('list', 'tuple') and nest(a[0]) is not None:
            s = nest(a[0])
            return {'ndim': K(len(s)), 'shape': mk('tuple', *[K(x) for x in s])}.get(n)
        if a[0].op == 'const' and n == 'ndim':
            return K(0)
        return attr(it, a[0], n)
    if n == 'array_equal' and len(a) == 2 and 'vec' in (a[0].op, a[1].op):
        x, y = flat(a[0]), flat(a[1])
        if x is None or y is None:
            return None
        if len(x) != len(y):
            return FALSE
        return conjunction([it.compare('==', p, q) for p, q in zip(x, y)], 'and')
    return None


NEXT = object()


def method(it, name, o, args, kws):
    if o.op != 'vec':
        return None
    a = list(args)
    if name == 'astype' and a:
        return V(*[cast(x, {}, a[0]) for x in o.a])
    if name == 'copy' and not a or name in ('ravel', 'flatten', 'squeeze') and not a:
        return o
    if name == 'tolist' and not a:
        return mk('list', *o.a)
    if name == 'item' and not a and len(o.a) == 1:
        return o.a[0]
    if name in ('any', 'all', 'sum', 'prod', 'nonzero', 'argsort', 'round') and not kws:
        return ext(it, 'numpy.' + name, [o] + a, {})
    if name == 'reshape':
        s = a[0] if len(a) == 1 else mk('tuple', *a)
        c = ints(s) if s.op in ('tuple', 'list', 'vec') else ([s.a[0]] if s.op == 'const' else None)
        if c is not None and len(c) == 1 and c[0] in (-1, len(o.a)):
            return o
    return None


def attr(it, o, name):
    if o.op == 'vec':
        return {'shape': mk('tuple', K(len(o.a))), 'ndim': K(1), 'size': K(len(o.a)), 'T': o, 'real': None}.get(name)
    return None
