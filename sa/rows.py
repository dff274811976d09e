"""Arrays with one row per object, read one generic row at a time.

A value is  Mat(entries, sel): an (objects x k) array whose generic row has these entries,
Col(entry, sel): one entry per object, or a plain value.  sel is the set of conditions
(in conjunction) the rows were selected by; two arrays line up row by row exactly when
they went through the same selections."""
from common import *
from terms import children, rebuild
from flow import mknot, mkcmp, conj
from axes import name, karg, rat
import vec as vecs

SAME = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_2d', 'numpy.asfarray', 'numpy.expand_dims', 'numpy.squeeze'}
UNARY = vecs.ELEMENTWISE1 | {'numpy.isnan', 'numpy.isfinite'}
BINARY = vecs.ELEMENTWISE2


class Mat(object):
    def __init__(self, entries, sel=frozenset()):
        self.e, self.sel = list(entries), sel

    def map(self, f):
        return Mat([f(x) for x in self.e], self.sel)


class Col(object):
    def __init__(self, entry, sel=frozenset()):
        self.e, self.sel = entry, sel

    def map(self, f):
        return Col(f(self.e), self.sel)


class Tr(object):
    """transposed Mat: iterating gives columns"""

    def __init__(self, m):
        self.m = m


class Seq(object):
    """tuple or list of values"""

    def __init__(self, items):
        self.items = list(items)


class Idx(object):
    """row numbers where a per-object condition holds"""

    def __init__(self, cond, sel):
        self.cond, self.sel = cond, sel


class Len(object):
    def __init__(self, sel):
        self.sel = sel


class Moved(object):
    """gridded data with its axes in another order; order: name of the axis at each position"""

    def __init__(self, base, order):
        self.base, self.order = base, order


def conds(c):
    """set of literals of a condition in conjunction form"""
    return frozenset(lit(x, p) for x, p in conj(c, True))


def lit(x, p):
    return x if p else mknot(x)


class Rows(object):
    def __init__(self, env, grids=None, decide=None):
        self.env = env            # term -> Mat / Col / ...
        self.grids = grids or {}  # term -> number of axes
        self.memo = {}
        self.decide = decide or {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = None
            v = self._of(t)
            if v is None and t not in self.env:
                # what is taken from or computed with misselected rows is misselected
                for x in children(t) if t.op in ('sub', 'attr', 'mcall', 'call', 'bin', 'cmp', 'not', 'neg', 'upd') else []:
                    if isinstance(self.memo.get(x), Bad) and not (t.op == 'attr' and t.a[1] in ('shape', 'ndim', 'size')):
                        v = self.memo[x]
            self.memo[t] = v
        return self.memo[t]

    def plain(self, v):
        return v if isinstance(v, T) else None

    def _of(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.grids:
            return Moved(t, list(range(self.grids[t])) + ['property'])
        o = t.op
        n = name(t)
        if o == 'phi':
            c = self.truth(t.a[0])
            if c is not None:
                return self.of(t.a[1] if c else t.a[2])
            a, b = self.of(t.a[1]), self.of(t.a[2])
            if isinstance(a, Bad) and isinstance(b, Bad):
                return a
            return a if self.equal(a, b) else None
        if o in ('tuple', 'list'):
            return self.seq([self.of(x) for x in t.a], t)
        if n in SAME and t.a[1]:
            return self.of(t.a[1][0])
        if n in ('builtins.tuple', 'builtins.list') and len(t.a[1]) == 1:
            v = self.of(t.a[1][0])
            return v if isinstance(v, Col) else self.iterate(v, t)
        if o == 'comp':
            return self.comp(t)
        if n == 'builtins.len' and len(t.a[1]) == 1:
            v = self.of(t.a[1][0])
            if isinstance(v, (Mat, Col)):
                return Len(v.sel)
            if isinstance(v, Seq):
                return K(len(v.items))
            return self.residual(t)
        if n in ('numpy.ones', 'numpy.zeros', 'numpy.full') and t.a[1]:
            s = t.a[1][0]
            v = self.of(s)
            fill = t.a[1][1] if n == 'numpy.full' and len(t.a[1]) > 1 else K(1 if n == 'numpy.ones' else 0)
            if isinstance(v, Len):
                return Col(fill, v.sel)
            if isinstance(v, Seq) and v.items and isinstance(v.items[0], Len):
                if len(v.items) == 1:
                    return Col(fill, v.items[0].sel)
                k = const(v.items[1]) if isinstance(v.items[1], T) else None
                return Mat([fill] * k, v.items[0].sel) if isinstance(k, int) and k < 9 else None
            return self.residual(t)
        if o == 'attr':
            v = self.of(t.a[0])
            if t.a[1] == 'T':
                if isinstance(v, Mat):
                    return Tr(v)
                if isinstance(v, Tr):
                    return v.m
            if t.a[1] == 'ndim':
                if isinstance(v, Mat):
                    return K(2)
                if isinstance(v, Col) and not self.opaque(v.e):
                    return K(1)
            if t.a[1] == 'shape':
                if isinstance(v, Mat):
                    return Seq([Len(v.sel), K(len(v.e))])
                if isinstance(v, Col):
                    return Seq([Len(v.sel)])
            if t.a[1] == 'size' and isinstance(v, Col):
                return Len(v.sel)
            return None if isinstance(v, (Mat, Col, Tr, Seq, Idx, Len, Moved)) or v is None else self.residual(t)
        if n in ('numpy.ndim', 'numpy.shape') and len(t.a[1]) == 1:
            return self.of(mk('attr', t.a[1][0], n[6:]))
        if n in ('numpy.any', 'numpy.all', 'numpy.prod'):
            return self.reduce(n[6:], self.of(t.a[1][0]), karg(t, 'axis', 1))
        if n in ('numpy.logical_and.reduce', 'numpy.logical_or.reduce'):
            return None
        if n in ('numpy.nonzero', 'numpy.where', 'numpy.flatnonzero', 'numpy.argwhere') and len(t.a[1]) == 1:
            v = self.of(t.a[1][0])
            if isinstance(v, Col):
                i = Idx(v.e, v.sel)
                return Seq([i]) if n in ('numpy.nonzero', 'numpy.where') else i
            return None if not isinstance(v, T) else self.residual(t)
        if n == 'numpy.where' and len(t.a[1]) == 3:
            return self.broadcast(lambda c, a, b: mk('phi', c, a, b), *[self.of(x) for x in t.a[1]])
        if n in ('numpy.compress', 'numpy.extract') and len(t.a[1]) >= 2:
            return self.select(self.of(t.a[1][1]), self.of(t.a[1][0]))
        if n == 'numpy.take' and len(t.a[1]) >= 2:
            return self.select(self.of(t.a[1][0]), self.of(t.a[1][1]))
        if n == 'numpy.delete' and len(t.a[1]) >= 2:
            x, i = self.of(t.a[1][0]), self.of(t.a[1][1])
            if isinstance(x, (Mat, Col)):
                if isinstance(i, Seq) and len(i.items) == 1:
                    i = i.items[0]
                return self.select(x, Idx(mknot(i.cond), i.sel)) if isinstance(i, Idx) else None
            return self.residual(t) if isinstance(x, T) else None
        if n in ('numpy.moveaxis', 'numpy.swapaxes', 'numpy.rollaxis', 'numpy.transpose'):
            v = self.of(t.a[1][0])
            if isinstance(v, Moved):
                return self.moved(v, n[6:], t.a[1][1:])
            return self.residual(t) if isinstance(v, T) else None
        if n in ('numpy.transpose',) and len(t.a[1]) == 1:
            v = self.of(t.a[1][0])
            return Tr(v) if isinstance(v, Mat) else None
        if n in UNARY and len(t.a[1]) >= 1:
            v = self.of(t.a[1][0])
            if isinstance(v, (Mat, Col)):
                return v.map(lambda e: mk('call', t.a[0], (e,), t.a[2]))
            return self.residual(t) if isinstance(v, T) else None
        if n in BINARY and len(t.a[1]) == 2:
            return self.of(mk('bin', BINARY[n], *t.a[1]))
        if n in vecs.COMPARE and len(t.a[1]) == 2:
            return self.of(mkcmp(vecs.COMPARE[n], *t.a[1]))
        if n in ('numpy.logical_and', 'numpy.bitwise_and') and len(t.a[1]) == 2:
            return self.of(mk('bin', '&', *t.a[1]))
        if n in ('numpy.logical_or', 'numpy.bitwise_or') and len(t.a[1]) == 2:
            return self.of(mk('bin', '|', *t.a[1]))
        if n in ('numpy.logical_not', 'numpy.invert') and len(t.a[1]) == 1:
            return self.of(mknot(t.a[1][0]))
        if o == 'mcall':
            return self.method(t)
        if o == 'bin':
            a, b = self.of(t.a[1]), self.of(t.a[2])
            if t.a[0] == '+' and isinstance(a, (Seq, Tr)) and isinstance(b, (Seq, Tr)):
                a, b = self.iterate(a, t), self.iterate(b, t)
                return Seq(a.items + b.items)
            if isinstance(a, Len) or isinstance(b, Len):
                return None
            op = t.a[0]
            if op in '&|' and len(op) == 1:
                return self.broadcast(lambda x, y: boolean('and' if op == '&' else 'or', x, y), a, b)
            return self.broadcast(lambda x, y: mk('bin', op, x, y), a, b)
        if o == 'cmp':
            a, b = self.of(t.a[1]), self.of(t.a[2])
            if t.a[0] == 'is' and (b is NONE and isinstance(a, (Mat, Col, Seq, Tr, Len, Moved)) or a is NONE and isinstance(b, (Mat, Col, Seq, Tr, Len, Moved))):
                return FALSE
            if isinstance(a, Len) or isinstance(b, Len):
                return TRUE if isinstance(a, Len) and isinstance(b, Len) and a.sel == b.sel and t.a[0] in ('==', '<=') else None
            if isinstance(a, T) and isinstance(b, T) and a.op == 'const' and b.op == 'const':
                return mkcmp(t.a[0], a, b)
            return self.broadcast(lambda x, y: mkcmp(t.a[0], x, y), a, b)
        if o == 'not':
            v = self.of(t.a[0])
            if isinstance(v, (Mat, Col)):
                return v.map(mknot)
            return mknot(v) if isinstance(v, T) else None
        if o == 'neg':
            v = self.of(t.a[0])
            return v.map(lambda e: mk('neg', e)) if isinstance(v, (Mat, Col)) else self.residual(t) if isinstance(v, T) else None
        if o in ('and', 'or'):
            vs = [self.of(x) for x in t.a]
            if all(isinstance(v, T) for v in vs):
                r = [const(v) for v in vs]
                if o == 'and':
                    return FALSE if any(v is FALSE for v in vs) else TRUE if all(v is TRUE for v in vs) else t
                return TRUE if any(v is TRUE for v in vs) else FALSE if all(v is FALSE for v in vs) else t
            if any(v is (FALSE if o == 'and' else TRUE) for v in vs):
                return FALSE if o == 'and' else TRUE
            return None
        if o == 'sub':
            return self.index(t)
        if o == 'upd':
            return self.update(t)
        return self.residual(t)

    def residual(self, t):
        """a value no per-object array takes part in"""
        for x in subterms(t):
            if x in self.env:
                return None
        return t

    def opaque(self, e):
        return e.op == 'param' and e.a[0].endswith('[]')

    def truth(self, c):
        if c in self.decide:
            return self.decide[c]
        p = True
        while c.op == 'not':
            c, p = c.a[0], not p
        if c in self.decide:
            return self.decide[c] == p
        v = self.of(c)
        if v is TRUE or v is FALSE:
            return (v is TRUE) == p
        return None

    def equal(self, a, b):
        if a is None or b is None or type(a) is not type(b):
            return False
        if isinstance(a, T):
            return a is b
        if isinstance(a, (Mat, Col)):
            return a.e == b.e and a.sel == b.sel
        if isinstance(a, Seq):
            return len(a.items) == len(b.items) and all(self.equal(x, y) for x, y in zip(a.items, b.items))
        return False

    def seq(self, vs, t):
        if all(isinstance(v, T) for v in vs):
            return t if t.op == 'tuple' and False else Seq(vs)
        return Seq(vs) if None not in vs else None

    def iterate(self, v, t):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Tr):
            return Seq([Col(e, v.m.sel) for e in v.m.e])
        if isinstance(v, T) and v.op in ('vec', 'list', 'tuple'):
            return Seq(list(v.a))
        return None

    def comp(self, t):
        body, it, cond = t.a[1], t.a[2], t.a[3]
        if cond is not None:
            return None
        out = []
        if name(it) == 'builtins.range' and len(it.a[1]) == 1:
            k = self.of(it.a[1][0])
            k = const(k) if isinstance(k, T) else None
            if not isinstance(k, int) or k > 9:
                return None
            for i in range(k):
                out.append(self.of(sub1(body, mk('lidx', it), K(i))))
        else:
            v = self.of(it)
            s = self.iterate(v, t) if v is not None else None
            if s is None:
                return None
            each = mk('sub', it, mk('lidx', it))
            for i, x in enumerate(s.items):
                p = mk('param', '%s#%d' % (it.uid, i))
                if isinstance(x, T):
                    p = x
                else:
                    self.env[p] = x
                out.append(self.of(sub1(sub1(body, each, p), mk('lidx', it), K(i))))
        return Seq(out) if None not in out else None

    def reduce(self, what, v, axis):
        if isinstance(v, Tr):
            v, axis = v.m, K(1) if axis is not None and is_const(axis, 0) else None
        if isinstance(v, Mat):
            if axis is None or not is_const(axis, 1, -1):
                return None
            r = v.e[0]
            for e in v.e[1:]:
                r = boolean('or' if what == 'any' else 'and', r, e)
            return Col(r, v.sel)
        return None if not isinstance(v, T) else v if False else None

    def method(self, t):
        m, x, args = t.a[0], self.of(t.a[1]), t.a[2]
        if m in ('any', 'all'):
            return self.reduce(m, x, args[0] if args else dict(t.a[3]).get('axis'))
        if m in ('copy',):
            return x
        if m in ('astype',) and isinstance(x, (Mat, Col)):
            return x.map(lambda e: mk('mcall', 'astype', e, args, ()))
        if m == 'transpose' and not args and isinstance(x, Mat):
            return Tr(x)
        if m in ('flatten', 'ravel', 'squeeze'):
            if isinstance(x, Mat) and len(x.e) == 1:
                return Col(x.e[0], x.sel)
            if isinstance(x, Col):
                return x
        if m == 'reshape':
            shape = list(args[0].a) if len(args) == 1 and args[0].op in ('tuple', 'list') else list(args)
            if isinstance(x, Col) and len(shape) == 2 and is_const(shape[1], 1):
                return Mat([x.e], x.sel)
            if isinstance(x, Mat) and len(shape) == 1 and len(x.e) == 1:
                return Col(x.e[0], x.sel)
            if isinstance(x, T) and x.op == 'vec' and (len(shape) == 1 or len(shape) == 2 and is_const(shape[0], 1)):
                return x
            if isinstance(x, Mat) and len(shape) == 2 and (is_const(shape[1], len(x.e))):
                return x
        if m == 'tolist':
            return x if isinstance(x, Seq) or isinstance(x, T) else None
        if m in ('swapaxes',) and isinstance(x, Moved):
            return self.moved(x, m, args)
        if isinstance(x, T):
            return self.residual(t)
        return None

    def broadcast(self, f, *vs):
        if None in vs:
            return None
        sels = {v.sel for v in vs if isinstance(v, (Mat, Col))}
        if not sels:
            if all(isinstance(v, T) for v in vs):
                e = [list(v.a) if v.op == 'vec' else None for v in vs]
                ks = {len(x) for x in e if x is not None}
                if len(ks) == 1:
                    k = ks.pop()
                    return mk('vec', *[f(*[x[i] if x is not None else v for x, v in zip(e, vs)]) for i in range(k)])
                return f(*vs) if not ks else None
            return None
        if len(sels) > 1:
            return None
        sel = sels.pop()
        if any(isinstance(v, Mat) for v in vs):
            k = {len(v.e) for v in vs if isinstance(v, Mat)} | {len(v.a) for v in vs if isinstance(v, T) and v.op == 'vec'}
            k.discard(1)
            if len(k) > 1 or any(isinstance(v, Col) for v in vs):
                return None
            k = k.pop() if k else 1

            def at(v, i):
                if isinstance(v, Mat):
                    return v.e[i if len(v.e) > 1 else 0]
                if isinstance(v, T):
                    return v.a[i if len(v.a) > 1 else 0] if v.op == 'vec' else v
                return None
            e = [[at(v, i) for v in vs] for i in range(k)]
            if any(x is None for r in e for x in r):
                return None
            return Mat([f(*r) for r in e], sel)
        e = [v.e if isinstance(v, Col) else v if isinstance(v, T) and v.op != 'vec' else v.a[0] if isinstance(v, T) and len(v.a) == 1 else None for v in vs]
        if None in e:
            return None
        return Col(f(*e), sel)

    def select(self, x, m):
        if isinstance(m, Seq) and len(m.items) == 1:
            m = m.items[0]
        if not isinstance(x, (Mat, Col)):
            return None
        if isinstance(m, Idx):
            c, s = m.cond, m.sel
        elif isinstance(m, Col):
            c, s = m.e, m.sel
        else:
            return None
        if s != x.sel:
            return Bad(x, m)
        return type(x)(x.e, x.sel | conds(c))

    def index(self, t):
        x = self.of(t.a[0])
        i = t.a[1]
        if i.op == 'slice' and isinstance(x, (Mat, Col)) and all(y is NONE for y in i.a):
            return x
        if i.op == 'slice' and isinstance(x, (Mat, Col)):
            return type(x)(x.e, x.sel | {i})      # lines up only with arrays cut the same way
        if isinstance(x, T) and x.op == 'vec' and i.op == 'tuple' and len(i.a) == 2 and is_const(i.a[0], 0) and isinstance(const(i.a[1]), int):
            k = const(i.a[1])
            return x.a[k] if -len(x.a) <= k < len(x.a) else None
        if isinstance(x, (Seq, Tr)) and i.op == 'slice' and all(const(y) is None or isinstance(const(y), int) for y in i.a) and all(y.op == 'const' for y in i.a):
            x = self.iterate(x, t)
            return Seq(x.items[slice(*[const(y) for y in i.a])]) if isinstance(x, Seq) else None
        if isinstance(x, Seq):
            k = const(i)
            return x.items[k] if isinstance(k, int) and -len(x.items) <= k < len(x.items) else None
        if isinstance(x, Tr):
            k = const(i)
            if isinstance(k, int) and -len(x.m.e) <= k < len(x.m.e):
                return Col(x.m.e[k], x.m.sel)
            iv = self.of(i)
            if isinstance(iv, T) and isinstance(const(iv), int):
                return Col(x.m.e[const(iv)], x.m.sel)
            return None
        if i.op == 'tuple' and isinstance(x, (Mat, Col)):
            rest = [y for y in i.a if not (y.op == 'slice' and all(z is NONE for z in y.a)) and not is_const(y, Ellipsis)]
            new = [y for y in rest if y is NONE or y.op == 'ext' and y.a[0] == 'numpy.newaxis']
            if len(rest) == 1 and new and isinstance(x, Col):
                return Mat([x.e], x.sel) if not is_const(i.a[0], NONE) else None
            if len(rest) == 1 and rest[0] is not i.a[0] and isinstance(x, Mat):
                k = const(rest[0])
                if isinstance(k, int) and -len(x.e) <= k < len(x.e):
                    return Col(x.e[k], x.sel)
                s = self.of(rest[0])
                ks = [const(z) if isinstance(z, T) else None for z in s.items] if isinstance(s, Seq) else None
                if ks and all(isinstance(z, int) for z in ks):
                    return Mat([x.e[z] for z in ks], x.sel)
            if len(rest) == 1 and rest[0] is not i.a[0] and isinstance(x, Col):
                return Col(over(x.e, lambda e: mk('part', e, rest[0])), x.sel)
            if len(rest) == 1 and rest[0] is i.a[0]:
                return self.select(x, self.of(i.a[0]))
            return None
        iv = self.of(i)
        if isinstance(x, (Mat, Col)):
            r = self.select(x, iv)
            return r
        if isinstance(x, Moved) and isinstance(iv, (Seq, Tr)):
            return self.looked(x, self.iterate(iv, t))
        if isinstance(x, T) and isinstance(iv, T):
            return self.residual(t)
        return None

    def looked(self, g, s):
        """gridded data read at one cell per object"""
        cols = [v for v in s.items if isinstance(v, Col)]
        if not cols or len({c.sel for c in cols}) != 1:
            return None
        return Col(mk('cell', g.base, *([K(a) if not isinstance(a, T) else a for a in g.order] + [v.e if isinstance(v, Col) else v if isinstance(v, T) else NONE for v in s.items])), cols[0].sel)

    def update(self, t):
        x = self.of(t.a[0])
        if t.a[1].op == 'slice' or not isinstance(x, (Mat, Col)):
            return None
        i, v = self.of(t.a[1]), self.of(t.a[2])
        if isinstance(i, Seq) and len(i.items) == 1:
            i = i.items[0]
        if isinstance(i, Idx):
            c, s = i.cond, i.sel
        elif isinstance(i, Col):
            c, s = i.e, i.sel
        else:
            return None
        if s != x.sel or not isinstance(v, T):
            return None
        return x.map(lambda e: mk('phi', c, v, e))

    def moved(self, v, how, args):
        o = list(v.order)
        k = [const(a) for a in args]
        if how == 'moveaxis' and len(k) == 2 and all(isinstance(i, int) for i in k):
            n = len(o)
            x = o.pop(k[0])
            o.insert(k[1] % n, x)
            return Moved(v.base, o)
        if how == 'swapaxes' and len(k) == 2 and all(isinstance(i, int) for i in k):
            o[k[0]], o[k[1]] = o[k[1]], o[k[0]]
            return Moved(v.base, o)
        if how == 'rollaxis' and k and all(isinstance(i, int) for i in k):
            x = k[0] % len(o)
            s = (k[1] if len(k) > 1 else 0)
            s = s + len(o) if s < 0 else s
            y = o.pop(x)
            o.insert(s - 1 if x < s else s, y)
            return Moved(v.base, o)
        return None


class Bad(object):
    """rows picked with a selection made for other rows"""

    def __init__(self, x, m):
        self.x, self.m = x, m


def sub1(t, a, b):
    from terms import subst
    return subst(t, {a: b})


def over(e, f):
    """f applied to the alternatives of a chosen value, missing values kept"""
    if e.op == 'phi':
        return mk('phi', e.a[0], over(e.a[1], f), over(e.a[2], f))
    if e.op == 'const' or isnan(e):
        return e
    return f(e)


def isnan(e):
    return e.op == 'ext' and e.a[0] in ('numpy.nan', 'numpy.NaN', 'math.nan') or e.op == 'const' and e.a[0] != e.a[0] or e.op == 'call' and is_call(e, 'builtins.float')


def boolean(op, x, y):
    xs = list(x.a) if x.op == op else [x]
    ys = list(y.a) if y.op == op else [y]
    r = []
    for z in xs + ys:
        if z not in r:
            r.append(z)
    return mk(op, *r) if len(r) > 1 else r[0]
