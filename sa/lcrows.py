"""Per-halo arrays of light cone construction: what one entry is, and which halos in which order.

Every array is a population (catalogue rows of one snapshot, cut to a prefix, repeated periodically, selected,
re-ordered) together with the value of a generic row.  Arrays of row numbers know the population they number."""
from terms import T, mk, K, NONE, TRUE, FALSE, is_const, const, subterms, show
from common import is_call
from flow import mknot, mkcmp, conj
from axes import karg, name

TILE = mk('tile')
SAME = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.ascontiguousarray'}
NOROWS = ('const', 'param', 'attr', 'ext', 'lidx', 'each', 'func', 'cls')


def pop(base, *steps):
    return mk('pop', base, tuple(steps))


def step(p, s):
    return mk('pop', p.a[0], p.a[1] + (s,))


def where(p, cs):
    """rows that fulfil further conditions"""
    st = p.a[1]
    cs = frozenset(cs)
    if st and st[-1].op == 'where':
        cs |= frozenset(st[-1].a[0])
        st = st[:-1]
    return mk('pop', p.a[0], st + (mk('where', tuple(sorted(cs, key=lambda x: x.uid))),))


def conds(e):
    return [x if p else mknot(x) for x, p in conj(e, True)]


def stem(p):
    return mk('pop', p.a[0], tuple(s for s in p.a[1] if s.op != 'prefix'))


def same(p, q):
    """row k is the same halo in both (a prefix of the same rows)"""
    return p is q or stem(p) is stem(q)


class Col(object):
    def __init__(self, e, p):
        self.e, self.pop = e, p

    def cut(self, p):
        return Col(self.e, p)


class Mat(object):
    """rows x k entries; tr: stored as k x rows"""

    def __init__(self, e, p, tr=False):
        self.e, self.pop, self.tr = list(e), p, tr

    def cut(self, p):
        return Mat(self.e, p, self.tr)


class Ix(object):
    """numbers of rows of population src, one for each row of pop; mod: numbers within the repeated population mod"""

    def __init__(self, src, p, mod=None):
        self.src, self.pop, self.mod = src, p, mod

    def cut(self, p):
        return Ix(self.src, p, self.mod)


class Rec(object):
    def __init__(self, f, p):
        self.f, self.pop = f, p

    def cut(self, p):
        return Rec(self.f, p)


class Seq(object):
    def __init__(self, items):
        self.items = items


class Bad(object):
    def __init__(self, why):
        self.why = why


ARR = (Col, Mat, Ix, Rec)


class Lc(object):
    def __init__(self, decide=None):
        self.memo, self.shapes, self.rowy = {}, {}, {}
        self.decide = decide or {}

    # ------------------------------------------------------------ sources
    def base(self, t):
        """a stored column: of a snapshot of the simulation, or of the light cone's source index"""
        if t.op == 'sub' and t.a[0].op == 'sub':
            g, c = t.a[0].a[1], t.a[1]
            s = snapname(g)
            if s is not None:
                return Col(mk('halo', c), pop(mk('snap', s)))
            if is_const(g, 'Indexing') and is_const(c, 'sim_indices'):
                p = pop(mk('lcfile', t.a[0].a[0]))
                return Rec({'snap': Col(mk('source snap'), p), 'index': Col(mk('source index'), p)}, p)
        if t.op == 'sub' and snapname(t.a[1]) is not None:
            return None
        if t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str) and '/' in t.a[1].a[0]:
            return None
        return None

    def hasrows(self, t):
        if t not in self.rowy:
            self.rowy[t] = any(self.base(x) is not None for x in subterms(t))
        return self.rowy[t]

    # ------------------------------------------------------------ shapes of per-light-cone arrays
    def ndim(self, t):
        """number of axes of a value without halo rows (None: not known)"""
        if t in self.shapes:
            return self.shapes[t]
        self.shapes[t] = None
        self.shapes[t] = r = self._ndim(t)
        return r

    def _ndim(self, t):
        o, n = t.op, name(t)
        if o in ('const', 'lidx', 'each', 'len', 'cmp'):
            return 0
        if o == 'mcall' and t.a[0] in ('random', 'choice', 'uniform', 'normal', 'standard_normal', 'integers'):
            s = dict(t.a[3]).get('size')
            if s is None:
                k = {'random': 0, 'choice': 1, 'uniform': 2, 'normal': 2, 'standard_normal': 0, 'integers': 2}[t.a[0]]
                s = t.a[2][k] if len(t.a[2]) > k else None
            if s is None or s is NONE:
                return 0
            return len(s.a) if s.op in ('tuple', 'list') else 1
        if n in ('numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full') and t.a[1]:
            s = t.a[1][0]
            return len(s.a) if s.op in ('tuple', 'list') else 1
        if n in ('numpy.eye', 'numpy.identity', 'numpy.diag'):
            return 2
        if n in ('numpy.amax', 'numpy.amin', 'numpy.max', 'numpy.min', 'numpy.sum', 'numpy.prod', 'builtins.len', 'builtins.int', 'builtins.float', 'builtins.max', 'builtins.min', 'builtins.abs'):
            return 0 if karg(t, 'axis', 1) is None else None
        if n in SAME and t.a[1]:
            return self.ndim(t.a[1][0])
        if o in ('list', 'tuple'):
            k = {self.ndim(x) for x in t.a}
            return 1 + k.pop() if len(k) == 1 and None not in k else None
        if o in ('upd', 'mut'):
            return self.ndim(t.a[0])
        if o == 'mu':
            return self.ndim(t.a[2])
        if o == 'loop':
            return self.ndim(t.a[2])
        if o == 'phi':
            a, b = self.ndim(t.a[1]), self.ndim(t.a[2])
            return a if a == b else None
        if o in ('bin',):
            a, b = self.ndim(t.a[1]), self.ndim(t.a[2])
            return max(a, b) if a is not None and b is not None else None
        if o == 'neg':
            return self.ndim(t.a[0])
        if o == 'sub':
            b, i = self.ndim(t.a[0]), t.a[1]
            if i.op == 'const' and isinstance(i.a[0], str):
                if t.a[0].op in ('each', 'attr', 'param') or t.a[0].op == 'sub' and t.a[0].a[1].op in ('lidx', 'const'):
                    return 2 if 'matrix' in i.a[0] else 1 if any(w in i.a[0] for w in ('flips', 'vector', 'start position')) else 0
                return None
            if b is None:
                return None
            if i.op == 'tuple':
                b += sum(1 for x in i.a if x is NONE or x.op == 'ext')
                return b - sum(1 for x in i.a if x.op not in ('slice', 'ext') and x is not NONE)
            if i.op == 'slice':
                return b
            return b - 1 if b else None
        if o == 'attr':
            return self.ndim(t.a[0]) if t.a[1] in ('T', 'value') else 0
        if o in ('param', 'mcall', 'call'):
            return 0
        return None

    def comp(self, t, j):
        """component j of a vector"""
        n = name(t)
        if n in SAME and t.a[1]:
            return self.comp(t.a[1][0], j)
        if t.op in ('list', 'tuple', 'vec') and len(t.a) == 3:
            return t.a[j]
        if t.op == 'bin':
            x, y = [self.comp(a, j) if self.ndim(a) == 1 else a for a in t.a[1:]]
            return mk('bin', t.a[0], x, y)
        if t.op == 'neg':
            return mk('neg', self.comp(t.a[0], j))
        return mk('sub', t, K(j))

    # ------------------------------------------------------------ values
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        self.memo[t] = r = self._of(t)
        return r

    def scalar(self, t):
        """a plain value, with lengths of halo arrays replaced by the sizes of their populations"""
        if not self.hasrows(t):
            return t
        from terms import subst
        m = {}
        for x in subterms(t):
            if name(x) == 'builtins.len' and len(x.a[1]) == 1 or x.op == 'attr' and x.a[1] == 'size':
                v = self.of(x.a[1][0] if x.op == 'call' else x.a[0])
                if isinstance(v, ARR):
                    m[x] = rowcount(v.pop)
            elif x.op == 'sub' and is_const(x.a[1], 0) and x.a[0].op == 'attr' and x.a[0].a[1] == 'shape':
                v = self.of(x.a[0].a[0])
                if isinstance(v, ARR):
                    m[x] = rowcount(v.pop)
        return subst(t, m) if m else t

    def counted(self, t):
        """population whose number of rows this is"""
        x = None
        if name(t) == 'builtins.len' and len(t.a[1]) == 1:
            x = t.a[1][0]
        elif t.op == 'attr' and t.a[1] == 'size':
            x = t.a[0]
        elif t.op == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
            v = self.of(t.a[0].a[0])
            if is_const(t.a[1], 1 if isinstance(v, Mat) and v.tr else 0):
                x = t.a[0].a[0]
        if x is None:
            return None
        v = self.of(x)
        if isinstance(v, Mat) and (v.tr or t.op == 'attr'):
            v = v if t.op == 'sub' else None
        return v.pop if isinstance(v, ARR) else None

    def _of(self, t):
        if not self.hasrows(t) and t.op not in ('tuple', 'list'):
            return t
        b = self.base(t)
        if b is not None:
            return b
        o, n = t.op, name(t)
        if o == 'phi':
            return self.either(t)
        if o in ('tuple', 'list'):
            v = [self.of(x) for x in t.a]
            return Seq(v)
        if o == 'mu':
            v = self.of(t.a[2])
            if isinstance(v, Mat) and not v.tr:
                return self.images(v)
            return v if isinstance(v, (T, Bad)) else None
        if o == 'loop':
            a = self.of(t.a[2])
            b = self.of(t.a[3])
            if isinstance(a, Mat) and isinstance(b, Mat):
                return self.join(a, b)
            return a if isinstance(a, Bad) else b if isinstance(b, Bad) else None
        if n in SAME and t.a[1]:
            v = self.of(t.a[1][0])
            for x in v.items if isinstance(v, Seq) else ():
                if isinstance(x, Bad):
                    return x
            if isinstance(v, Seq) and v.items and all(isinstance(x, Col) for x in v.items):
                if len({x.pop for x in v.items}) != 1:
                    return Bad('columns of different halos are put side by side')
                return Mat([x.e for x in v.items], v.items[0].pop, True)
            return v
        if n in ('numpy.vstack', 'numpy.stack', 'numpy.column_stack') and t.a[1]:
            v = self.of(t.a[1][0])
            ax = karg(t, 'axis', 1)
            for x in v.items if isinstance(v, Seq) else ():
                if isinstance(x, Bad):
                    return x
            if isinstance(v, Seq) and v.items and all(isinstance(x, Col) for x in v.items):
                if len({x.pop for x in v.items}) != 1:
                    return Bad('columns of different halos are put side by side')
                return Mat([x.e for x in v.items], v.items[0].pop, not (n == 'numpy.column_stack' or ax is not None and is_const(ax, 1, -1)))
            return None
        if n == 'numpy.empty' and t.a[1]:
            return mk('empty', t)
        if n in ('numpy.zeros', 'numpy.ones') and t.a[1]:
            s = self.scalar(t.a[1][0])
            return mk('empty', s)
        if o == 'upd':
            return self.update(t)
        if o == 'attr':
            v = self.of(t.a[0])
            if isinstance(v, Bad):
                return v
            if t.a[1] == 'T' and isinstance(v, Mat):
                return Mat(v.e, v.pop, not v.tr)
            return self.scalar(t) if t.a[1] == 'size' else None
        if o == 'sub':
            return self.index(t)
        if n in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero') and len(t.a[1]) == 1:
            v = self.of(t.a[1][0])
            if isinstance(v, Bad):
                return v
            if isinstance(v, Col):
                i = Ix(v.pop, where(v.pop, conds(v.e)))
                return i if n == 'numpy.flatnonzero' else Seq([i])
            return None
        if n == 'numpy.intersect1d' and len(t.a[1]) == 2:
            v = [self.of(x) for x in t.a[1]]
            v = [x.items[0] if isinstance(x, Seq) and len(x.items) == 1 else x for x in v]
            for x in v:
                if isinstance(x, Bad):
                    return x
            if all(isinstance(x, Ix) and x.mod is None for x in v):
                if v[0].src is not v[1].src:
                    return Bad('selections of different populations are intersected')
                w = [x.pop.a[1][len(x.src.a[1]):] if x.pop.a[1][:len(x.src.a[1])] == x.src.a[1] else None for x in v]
                cs = []
                for x in v:
                    k = conditions(x)
                    if k is None:
                        return None
                    cs += k
                return Ix(v[0].src, where(v[0].src, cs))
            return None
        if n in ('numpy.logical_and', 'numpy.logical_or', 'numpy.bitwise_and', 'numpy.bitwise_or') and len(t.a[1]) == 2:
            return self.of(mk('bin', '&' if n.endswith('and') else '|', *t.a[1]))
        if n == 'numpy.sort' and len(t.a[1]) == 1 and not t.a[2]:
            v = self.of(t.a[1][0])
            if isinstance(v, Col):
                return Col(v.e, step(v.pop, mk('order', v.e)))
            if isinstance(v, Ix):
                if v.mod is None and (not v.pop.a[1] or v.pop.a[1][-1].op in ('where', 'prefix', 'tile')):
                    return v
                return Ix(v.src, step(v.pop, mk('order', mk('rownum'))), v.mod)
            return v if isinstance(v, Bad) else None
        if n == 'numpy.argsort' and t.a[1]:
            v = self.of(t.a[1][0])
            if isinstance(v, Bad):
                return v
            return Ix(v.pop, step(v.pop, mk('order', v.e))) if isinstance(v, Col) else None
        if n == 'numpy.arange' and len(t.a[1]) == 1:
            p = self.counted(t.a[1][0])
            return Ix(p, p) if p is not None else None
        if n == 'numpy.take' and len(t.a[1]) >= 2:
            ax = karg(t, 'axis', 2)
            if ax is not None and is_const(ax, 1):
                return self.select(self.of(t.a[1][0]), self.of(t.a[1][1]), 1)
            return self.select(self.of(t.a[1][0]), self.of(t.a[1][1]), 0)
        if n in ('numpy.concatenate', 'numpy.vstack') and t.a[1]:
            v = self.of(t.a[1][0])
            ax = karg(t, 'axis', 1)
            for x in v.items if isinstance(v, Seq) else ():
                if isinstance(x, Bad):
                    return x
            if isinstance(v, Seq) and len(v.items) == 2 and all(isinstance(x, Mat) and not x.tr for x in v.items) and (ax is None or is_const(ax, 0)):
                return self.join(v.items[0], v.items[1], True)
            return None
        if n in ('numpy.matmul', 'numpy.dot') and len(t.a[1]) == 2:
            return self.matmul(t.a[1][0], t.a[1][1])
        if n == 'numpy.einsum' and len(t.a[1]) == 3 and t.a[1][0].op == 'const':
            s = t.a[1][0].a[0].replace(' ', '')
            m, x = t.a[1][1], self.of(t.a[1][2])
            if isinstance(x, Mat) and not self.hasrows(m) and ',' in s and '->' in s:
                a, rest = s.split(',')
                b, c = rest.split('->')
                if len(a) == len(b) == len(c) == 2:
                    k = set(a) & set(b)
                    if len(k) == 1:
                        k = k.pop()
                        if b.index(k) == (0 if x.tr else 1):
                            mm = m if a[1] == k else mk('attr', m, 'T')
                            free = a[0] if a[1] == k else a[1]
                            return Mat([self.dot(mm, x.e, i) for i in range(3)], x.pop, c[0] == free)
            return None
        if n == 'numpy.linalg.norm' and t.a[1]:
            v = self.of(t.a[1][0])
            return self.reduce(v, karg(t, 'axis', 2), lambda e: rt(total([mk('bin', '**', x, K(2)) for x in e])))
        if n == 'numpy.sum' and t.a[1]:
            v = self.of(t.a[1][0])
            return self.reduce(v, karg(t, 'axis', 1), total)
        if o == 'mcall':
            return self.method(t)
        if o == 'bin':
            if t.a[0] == '@':
                return self.matmul(t.a[1], t.a[2])
            if t.a[0] == '%':
                v = self.of(t.a[1])
                if isinstance(v, Ix):
                    p = self.counted(t.a[2])
                    u = untile(v.src)
                    if p is not None and stem(p) is not stem(u):
                        return Bad('remainder of row numbers of %s by the size of %s' % (show_pop(v.src), show_pop(p)))
                    if p is None and u.a[1] and u.a[1][-1].op == 'prefix' and u.a[1][-1].a[0] is self.scalar(t.a[2]):
                        p = u
                    return Ix(v.src, v.pop, p) if p is not None and v.mod is None else None
            if t.a[0] == '//':
                v = self.of(t.a[1])
                if isinstance(v, Ix) and v.mod is None and any(x.op == 'tile' for x in v.src.a[1]) and self.counted(t.a[2]) is None:
                    return Bad('row numbers of %s, whose copies follow one another, are divided by %s' % (show_pop(v.src), show(t.a[2], 4)))
            return self.elementwise(lambda x, y: mk('and' if t.a[0] == '&' else 'or', x, y) if t.a[0] in '&|' and len(t.a[0]) == 1 else mk('bin', t.a[0], x, y), t.a[1:], t)
        if o == 'cmp':
            if t.a[0] in ('in', 'not in', 'is', 'is not'):
                return None
            return self.elementwise(lambda x, y: mkcmp(t.a[0], x, y), t.a[1:], t)
        if o == 'neg':
            return self.elementwise(lambda x: mk('neg', x), t.a, t)
        if o == 'not':
            return self.elementwise(mknot, t.a, t)
        if o in ('and', 'or'):
            v = [self.of(x) for x in t.a]
            if all(isinstance(x, Col) for x in v):
                return self.elementwise(lambda *x: mk(o, *x), t.a, t)
            return self.scalar(t)
        if n in ('builtins.len', 'numpy.amax', 'numpy.amin', 'builtins.int', 'builtins.max', 'builtins.min', 'numpy.max', 'numpy.min', 'numpy.count_nonzero'):
            return self.scalar(t)
        if n == 'numpy.sqrt' and len(t.a[1]) == 1:
            return self.elementwise(rt, t.a[1], t)
        if o == 'call' and not t.a[2] and t.a[1]:
            return self.elementwise(lambda *x: mk('call', t.a[0], tuple(x), ()), t.a[1], t)
        return None

    def either(self, t):
        c, x, y = t.a
        if c in self.decide:
            return self.of(x if self.decide[c] else y)
        if c.op == 'not' and c.a[0] in self.decide:
            return self.of(y if self.decide[c.a[0]] else x)
        a, b = self.of(x), self.of(y)
        if x.op == 'unbound' or x.op == 'unk' and 'unbound' in str(x.a[:1]):
            return b
        if y.op == 'unbound' or y.op == 'unk' and 'unbound' in str(y.a[:1]):
            return a
        for v in (a, b):
            if isinstance(v, Bad):
                return v
        if isinstance(a, Mat) and isinstance(b, Mat) and stem(a.pop).a[0] is stem(b.pop).a[0] and (a.pop is b.pop or untile(a.pop) is untile(b.pop)):
            return self.join(a, b)
        if isinstance(a, Col) and isinstance(b, Col) and a.pop is b.pop:
            return Col(a.e if a.e is b.e else mk('phi', c, a.e, b.e), a.pop)
        if isinstance(a, Ix) and isinstance(b, Ix) and a.pop is b.pop and a.src is b.src and a.mod is b.mod:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return self.scalar(t)
        return None

    def images(self, m):
        p = m.pop if m.pop.a[1] and m.pop.a[1][-1] is TILE else step(m.pop, TILE)
        return Mat([image(e) for e in m.e], p)

    def join(self, a, b, stacked=False):
        """the same halos, possibly repeated at periodic positions"""
        if len(a.e) != len(b.e) or a.tr != b.tr:
            return None
        if untile(a.pop) is not untile(b.pop):
            return Bad('arrays of different halos are joined')
        if not stacked and a.pop is b.pop and a.e == b.e:
            return a
        if [unimage(x) for x in a.e] != [unimage(x) for x in b.e]:
            return None
        return self.images(Mat([image(x) for x in a.e], untile(a.pop)))

    def elementwise(self, f, ts, t):
        vs = [self.of(x) for x in ts]
        for v in vs:
            if isinstance(v, Bad):
                return v
        if all(isinstance(v, T) for v in vs):
            return self.scalar(t)
        rows = [v for v in vs if isinstance(v, (Col, Mat))]
        if len(rows) + sum(isinstance(v, T) for v in vs) != len(vs):
            return None
        if len({v.pop for v in rows}) > 1:
            return Bad('values of different halos (or of halos in different order) are combined: %s' % said(rows))
        p = rows[0].pop
        if all(isinstance(v, Col) for v in rows):
            if any(isinstance(v, T) and self.ndim(v) not in (0, None) for v in vs):
                return None
            return Col(f(*[v.e if isinstance(v, Col) else v for v in vs]), p)
        k = {len(v.e) for v in rows if isinstance(v, Mat)}
        tr = {v.tr for v in rows if isinstance(v, Mat)}
        if len(k) > 1 or len(tr) > 1 or any(isinstance(v, Col) for v in rows):
            return None
        k, tr = k.pop(), tr.pop()
        out = []
        for j in range(k):
            a = []
            for x, v in zip(ts, vs):
                if isinstance(v, Mat):
                    a.append(v.e[j])
                else:
                    d, w = self.ndim(v), v
                    if tr and v.op == 'sub' and v.a[1].op == 'tuple' and len(v.a[1].a) == 2 and v.a[1].a[0].op == 'slice' and (v.a[1].a[1] is NONE or v.a[1].a[1].op == 'ext'):
                        d, w = 1, v.a[0]
                    elif tr and d == 1:
                        return None
                    if d is None:
                        return None
                    a.append(self.comp(w, j) if d == 1 else w if d == 0 else None)
                    if a[-1] is None:
                        return None
            out.append(f(*a))
        return Mat(out, p, tr)

    def dot(self, m, e, i):
        return mk('dot', m, tuple(e), i)

    def matmul(self, a, b):
        x, y = self.of(a), self.of(b)
        for v in (x, y):
            if isinstance(v, Bad):
                return v
        if isinstance(x, T) and isinstance(y, Mat) and y.tr:
            return Mat([self.dot(x, y.e, i) for i in range(3)], y.pop, True)
        if isinstance(x, Mat) and not x.tr and isinstance(y, T):       # rows times the transposed matrix
            m = y.a[0] if y.op == 'attr' and y.a[1] == 'T' else mk('attr', y, 'T')
            return Mat([self.dot(m, x.e, i) for i in range(3)], x.pop, False)
        return None

    def reduce(self, v, axis, f):
        if isinstance(v, Bad):
            return v
        if isinstance(v, Mat) and axis is not None and is_const(axis, 0 if v.tr else 1, -2 if v.tr else -1):
            return Col(f(v.e), v.pop)
        return None

    def method(self, t):
        m, x, args, kws = t.a[0], self.of(t.a[1]), t.a[2], dict(t.a[3])
        if isinstance(x, Bad):
            return x
        if m in ('copy', 'astype', 'flatten', 'ravel') and isinstance(x, (Col, Ix, Mat, Rec)):
            return x if m in ('copy', 'astype') or not isinstance(x, Mat) else None
        if m == 'transpose' and isinstance(x, Mat) and not args:
            return Mat(x.e, x.pop, not x.tr)
        if m == 'sum':
            return self.reduce(x, args[0] if args else kws.get('axis'), total)
        if m == 'argsort' and isinstance(x, Col):
            return Ix(x.pop, step(x.pop, mk('order', x.e)))
        if m == 'nonzero' and isinstance(x, Col):
            return Seq([Ix(x.pop, where(x.pop, conds(x.e)))])
        if m == 'take' and args:
            return self.select(x, self.of(args[0]), 0)
        if m == 'dot' and args:
            return self.matmul(t.a[1], args[0])
        if not isinstance(x, ARR) and not isinstance(x, Seq) and x is not None and x.op in ('param', 'attr') and len(args) >= 1 and not kws:
            return self.elementwise(lambda *y: mk('mcall', m, x, tuple(y), ()), args, t)
        if isinstance(x, T):
            return self.elementwise(lambda *y: mk('mcall', m, x, tuple(y), ()), args, t) if args and not kws else self.scalar(t)
        return None

    def select(self, x, i, axis=0):
        if isinstance(i, Seq) and len(i.items) == 1:
            i = i.items[0]
        for v in (x, i):
            if isinstance(v, Bad):
                return v
        if not isinstance(x, ARR):
            return None
        if isinstance(x, Mat) and x.tr != (axis == 1):
            return None
        if isinstance(i, Ix):
            if i.mod is not None:
                if i.mod is x.pop and untile(i.src) is untile(x.pop):
                    return x.cut(i.pop)
                if untile(i.src) is untile(x.pop) and i.src is x.pop:
                    return Bad('row numbers of the catalogue are used for its periodic copies')
                return Bad('row numbers of %s are used for %s' % (show_pop(i.mod), show_pop(x.pop)))
            if same(i.src, x.pop):
                return x.cut(i.pop)
            if untile(i.src) is untile(x.pop):
                return Bad('row numbers of the periodically repeated catalogue are used for the catalogue itself')
            return Bad('row numbers of %s are used for %s' % (show_pop(i.src), show_pop(x.pop)))
        if isinstance(i, Col) and i.e.op == 'source index':     # rows recorded in the light cone
            return x.cut(mk('pop', mk('via', i.pop, x.pop), ()))
        if isinstance(i, Col) and truthy(i.e):
            if not same(i.pop, x.pop):
                return Bad('a selection of %s is applied to %s' % (show_pop(i.pop), show_pop(x.pop)))
            return x.cut(where(x.pop, conds(i.e)))
        return None

    def index(self, t):
        x = self.of(t.a[0])
        i = t.a[1]
        if isinstance(x, Bad):
            return x
        if i.op == 'slice' and isinstance(x, ARR):
            if all(y is NONE for y in i.a):
                return x
            if i.a[0] is NONE and i.a[2] is NONE:
                if isinstance(x, Mat) and x.tr:
                    return None
                return x.cut(prefix(x.pop, self.scalar(i.a[1])))
            if isinstance(x, (Col, Ix)) and i.a[0] is NONE and i.a[1] is NONE and is_const(i.a[2], -1):
                return x.cut(step(x.pop, mk('reversed')))
            return None
        if isinstance(x, Rec):
            if i.op == 'const' and i.a[0] in x.f:
                v = x.f[i.a[0]]
                return v.cut(x.pop) if isinstance(v, ARR) else v
            return self.select(x, self.of(i))
        if isinstance(x, Seq):
            k = const(i)
            return x.items[k] if isinstance(k, int) and not isinstance(k, bool) and -len(x.items) <= k < len(x.items) else None
        if isinstance(x, Mat):
            if i.op == 'tuple' and len(i.a) == 2:
                a, b = i.a if not x.tr else (i.a[1], i.a[0])       # rows, component
                fullrow = a.op == 'slice' and all(y is NONE for y in a.a)
                if isinstance(const(b), int) and not isinstance(const(b), bool):
                    c = Col(x.e[const(b)], x.pop) if -len(x.e) <= const(b) < len(x.e) else None
                    return c if fullrow or c is None else self.select(c, self.of(a))
                if b.op == 'slice' and all(y is NONE for y in b.a):
                    if a.op == 'slice' and a.a[0] is NONE and a.a[2] is NONE and not fullrow:
                        return x.cut(prefix(x.pop, self.scalar(a.a[1])))
                    return x if fullrow else self.select(x, self.of(a), 1 if x.tr else 0)
                return None
            if x.tr and isinstance(const(i), int):
                return Col(x.e[const(i)], x.pop) if -len(x.e) <= const(i) < len(x.e) else None
            return self.select(x, self.of(i), 0)
        if isinstance(x, ARR):
            return self.select(x, self.of(i))
        if isinstance(x, T):
            return self.scalar(t)
        return None

    def update(self, t):
        b, i, v = t.a
        x, w = self.of(b), self.of(v)
        for y in (x, w):
            if isinstance(y, Bad):
                return y
        if i.op == 'const' and isinstance(i.a[0], str):       # field of a record array
            f = dict(x.f) if isinstance(x, Rec) else {}
            f[i.a[0]] = w
            p = x.pop if isinstance(x, Rec) else None
            if isinstance(w, ARR):
                if p is not None and p is not w.pop and any(isinstance(y, ARR) for y in (x.f.values() if isinstance(x, Rec) else ())):
                    return Bad('fields of different halos are put in one record')
                p = w.pop
            if p is None and isinstance(x, T) and x.op == 'empty' and x.a[0].op == 'len':
                p = x.a[0].a[0]
            return Rec(f, p)
        if i.op == 'tuple' and len(i.a) == 2 and i.a[0].op == 'slice' and all(y is NONE for y in i.a[0].a) and isinstance(w, (Col, Mat)):
            k = const(i.a[1])
            if isinstance(k, int) and 0 <= k < 3 and isinstance(w, Col):
                if isinstance(x, T) and x.op == 'empty':
                    return Mat([w.e if j == k else NONE for j in range(3)], w.pop)
                if isinstance(x, Mat):
                    if x.pop is not w.pop:
                        return Bad('columns of different halos are put side by side')
                    if w.e.op == 'bin' and w.e.a[0] in '+-' and w.e.a[1] is x.e[k] and not x.tr and not any(y.op in ('halo', 'image') for y in subterms(w.e.a[2])):
                        return self.images(x)
                    return Mat([w.e if j == k else y for j, y in enumerate(x.e)], x.pop)
            if isinstance(x, Mat):                              # one coordinate moved by a box
                return self.images(x) if i.a[1].op == 'lidx' else None
        if i.op == 'tuple' and len(i.a) == 2 and isinstance(x, Mat) and v.op == 'bin' and v.a[0] in '+-' and i.a[1].op == 'lidx' and v.a[1] is mk('sub', b, i):
            return self.images(x)
        return None


def rowcount(p):
    """number of rows (sorting does not matter)"""
    return mk('len', mk('pop', p.a[0], tuple(s for s in p.a[1] if s.op not in ('order', 'reversed'))))


def turn(x):
    """loop position for an iteration over x"""
    if is_call(x, 'builtins.range') and len(x.a[1]) == 1 and is_call(x.a[1][0], 'builtins.len'):
        x = x.a[1][0].a[1][0]
    if is_call(x, 'builtins.enumerate') and x.a[1]:
        x = x.a[1][0]
    return mk('lidx', x)


def prefix(p, n):
    st = p.a[1]
    if st and st[-1].op == 'prefix':
        st = st[:-1]
    return mk('pop', p.a[0], st + (mk('prefix', n),))


def untile(p):
    return mk('pop', p.a[0], tuple(s for s in p.a[1] if s is not TILE))


def image(e):
    return e if e.op == 'image' else mk('image', e)


def unimage(e):
    return e.a[0] if e.op == 'image' else e


def conditions(ix):
    """conditions that took ix.src to ix.pop"""
    a, b = ix.src.a[1], ix.pop.a[1]
    if b[:len(a)] == a and len(b) == len(a) + 1 and b[-1].op == 'where':
        return list(b[-1].a[0])
    if a == b:
        return []
    if a and a[-1].op == 'where' and b[:len(a) - 1] == a[:-1] and len(b) == len(a) and b[-1].op == 'where':
        return [c for c in b[-1].a[0] if c not in a[-1].a[0]]
    return None


def truthy(e):
    return e.op in ('cmp', 'and', 'or', 'not')


def total(e):
    r = e[0]
    for x in e[1:]:
        r = mk('bin', '+', r, x)
    return r


def rt(e):
    return mk('call', mk('ext', 'numpy.sqrt'), (e,), ())


def snapname(g):
    """number of the snapshot in a group name"""
    if g.op == 'const' and isinstance(g.a[0], str) and g.a[0].startswith('Snapshot '):
        return K(g.a[0][9:])
    if g.op == 'mcall' and g.a[0] == 'format' and is_const(g.a[1], 'Snapshot {}') and len(g.a[2]) == 1:
        return g.a[2][0]
    if g.op == 'fstr' and len(g.a) == 2 and is_const(g.a[0], 'Snapshot '):
        x = g.a[1]
        return x
    if g.op == 'bin' and g.a[0] == '+' and is_const(g.a[1], 'Snapshot '):
        return g.a[2].a[1][0] if is_call(g.a[2], 'builtins.str') else g.a[2]
    if g.op == 'bin' and g.a[0] == '%' and g.a[1].op == 'const' and isinstance(g.a[1].a[0], str) and g.a[1].a[0].startswith('Snapshot %'):
        return g.a[2]
    return None


def show_pop(p):
    out = ['the light cone' if p.a[0].op == 'lcfile' else 'the catalogue']
    for s in p.a[1]:
        out.append({'tile': 'repeated', 'where': 'selected', 'order': 'sorted', 'prefix': 'cut by mass', 'reversed': 'reversed'}.get(s.op, s.op))
    return ' '.join(out)


def said(rows):
    return ' / '.join(show_pop(v.pop) for v in rows)


# ---------------------------------------------------------------- arithmetic
def poly(t):
    """term as rational function (square of a square root resolved)"""
    from axes import rat, atom
    o = t.op
    if o == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        from fractions import Fraction
        return rat(Fraction(str(t.a[0])))
    if o == 'neg':
        return -poly(t.a[0])
    if o == 'bin' and t.a[0] in '+-*':
        x, y = poly(t.a[1]), poly(t.a[2])
        return x + y if t.a[0] == '+' else x - y if t.a[0] == '-' else x * y
    if o == 'bin' and t.a[0] == '/':
        x, y = poly(t.a[1]), poly(t.a[2]).inv()
        return x * y if y is not None else atom(t)
    if o == 'bin' and t.a[0] == '**' and isinstance(const(t.a[2]), int) and not isinstance(const(t.a[2]), bool) and 0 < const(t.a[2]) <= 4:
        b = t.a[1]
        if is_call(b, 'numpy.sqrt') and const(t.a[2]) == 2:
            return poly(b.a[1][0])
        x = r = poly(b)
        for _ in range(const(t.a[2]) - 1):
            r = r * x
        return r
    return atom(t)


# ---------------------------------------------------------------- what a light cone builder stores
def datanode(t):
    """(file, path in the file) of a stored data set or group handle"""
    path = []
    while True:
        if t.op == 'mut' or t.op == 'upd':
            t = t.a[0]
        elif t.op == 'phi':
            a, b = datanode(t.a[1]), datanode(t.a[2])
            return (a[0], a[1] + tuple(reversed(path))) if a is not None and a == b else None
        elif t.op == 'sub':
            i = t.a[1]
            path.append(i)
            t = t.a[0]
        elif t.op == 'mcall' and t.a[0] in ('create_group', 'require_group', 'create_dataset', 'require_dataset') and t.a[2]:
            path.append(t.a[2][0])
            t = t.a[1]
        elif t.op in ('mu', 'loop'):
            t = t.a[2]
        else:
            break
    out = []
    for p in reversed(path):
        if p.op == 'const' and isinstance(p.a[0], str):
            out += [K(x) for x in p.a[0].split('/') if x]
        else:
            out.append(p)
    return (t, tuple(out)) if t.op == 'with' else None


class Written(object):
    """one storing of rows: at: 'new' (data set created with these rows), or the index written"""

    def __init__(self, file, path, value, at, ev):
        self.file, self.path, self.value, self.at, self.ev = file, path, value, at, ev


def stored(events, lc):
    """(writes of row data, resizes) of the light cone files"""
    out, size = [], []
    for e in events:
        if e.kind == 'mcall' and e.name == 'create_dataset' and e.args:
            n = datanode(e.recv)
            d = e.kws.get('data') if 'data' in e.kws else e.args[3] if len(e.args) > 3 else None
            if n is not None and d is not None and d is not NONE:
                nm = e.args[0]
                out.append(Written(n[0], n[1] + (nm,), d, 'new', e))
        elif e.kind == 'mcall' and e.name == 'resize' and e.args:
            n = datanode(e.recv)
            if n is not None:
                s = e.args[0]
                size.append((n, s.a[0] if s.op in ('tuple', 'list') and len(s.a) == 1 else s, e))
        elif e.kind == 'setsub':
            n = datanode(e.base)
            if n is not None and len(n[1]) >= 2 and not (e.idx.op == 'const' and isinstance(e.idx.a[0], str)):
                out.append(Written(n[0], n[1], e.value, e.idx, e))
            elif n is not None and len(n[1]) == 1 and n[1][0] in (K('Lightcone Basic'), K('Lightcone Full')) and e.value.op != 'unk':
                out.append(Written(n[0], n[1] + (e.idx,), e.value, 'new', e))
    return out, size


MODES = (('LCMaker', ('box', 'circle')), ('SphereMaker', ('sphere', 'hemisphere', 'quarter', 'eighth')))
_runs = {}


def builds(prog):
    """interpreted light cone builders: (name, function, run)"""
    from flow import Interp
    key = (id(prog), 'b')
    if key not in _runs:
        out = []
        for c, modes in MODES:
            f = prog.func(c + '.build_lightcones')
            for m in modes:
                it = Interp(prog, inline=lambda a, b: b.module is a.module and b.name not in ('_initialize_los', '_initialize_pa'), depth=5)
                it.preset = {(mk('param', 'self'), 'mode'): K(m)}
                out.append(('%s.build_lightcones mode %s' % (c, m), f, it.run(f, selfcls=f.cls)))
        _runs[key] = out
    return _runs[key]


def extenders(prog):
    from flow import Interp
    key = (id(prog), 'e')
    if key not in _runs:
        out = []
        for q in ('add_properties', 'add_pos_properties'):
            f = prog.func('GenericLCMaker.' + q)
            it = Interp(prog, inline=lambda a, b: b.module is a.module, depth=5)
            out.append((f.name, f, it.run(f, selfcls=f.cls)))
        _runs[key] = out
    return _runs[key]


def loops(guards):
    return [g[0].a[0] for g in guards if g[0].op == 'iter' and g[1]]


def canon(t):
    """table[k]['c'] and table['c'][k] alike"""
    if t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
        b = t.a[0]
        if b.op == 'each':
            return mk('row', b.a[0], t.a[1], mk('lidx', b.a[0]))
        if b.op == 'sub' and b.a[1].op == 'lidx':
            return mk('row', b.a[0], t.a[1], b.a[1])
    if t.op == 'each' and t.a[0].op == 'sub' and t.a[0].a[1].op == 'const' and isinstance(t.a[0].a[1].a[0], str):
        return mk('row', t.a[0].a[0], t.a[0].a[1], mk('lidx', t.a[0].a[0]))
    if t.op == 'sub' and t.a[1].op == 'lidx' and t.a[0].op == 'sub' and t.a[0].a[1].op == 'const' and isinstance(t.a[0].a[1].a[0], str):
        return mk('row', t.a[0].a[0], t.a[0].a[1], t.a[1])
    return t


def index_of(t):
    """loop position belonging to a per-entry value"""
    if t.op == 'row':
        return t.a[0], t.a[2]
    return None
