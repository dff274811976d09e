"""Uniform-array domain: cell axes as (start, step, count) with exact rational coefficients, and array shapes.

Everything is derived from the value terms; None means "not known" and never leads to a report."""
from fractions import Fraction
from terms import T, mk, K, NONE, is_const, subterms, rebuild
import vec as vecs

ONE = ()


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = {}
            for t, e in a + b:
                m[t] = m.get(t, 0) + e
            k = tuple(sorted(m.items(), key=lambda z: z[0].uid))
            r[k] = r.get(k, 0) + x * y
            if r[k] == 0:
                del r[k]
    return r


class Rat(object):
    """rational function over term atoms"""

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else {ONE: Fraction(1)}
        if len(self.d) == 1:      # divide out a monomial denominator
            (m, c), = self.d.items()
            if m and all(dict(m).items() <= {(t, min(dict(k).get(t, 0), e)) for t, e in m} for k in self.n) and self.n:
                self.n = {tuple((t, e - dict(m).get(t, 0)) for t, e in k if e - dict(m).get(t, 0)): v / c for k, v in self.n.items()}
                self.d = {ONE: Fraction(1)}
            elif not m and c != 1:
                self.n = {k: v / c for k, v in self.n.items()}
                self.d = {ONE: Fraction(1)}
        if not self.n:
            self.d = {ONE: Fraction(1)}

    def __add__(self, o):
        o = rat(o)
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({k: -v for k, v in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-rat(o))

    def __mul__(self, o):
        o = rat(o)
        if self.n == o.d:
            return Rat(o.n, self.d)
        if o.n == self.d:
            return Rat(self.n, o.d)
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def inv(self):
        return Rat(self.d, self.n) if self.n else None

    def __eq__(self, o):
        return isinstance(o, Rat) and pmul(self.n, o.d) == pmul(o.n, self.d)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def zero(self):
        return not self.n

    def const(self):
        if not self.n:
            return Fraction(0)
        if set(self.n) == {ONE} and set(self.d) == {ONE}:
            return self.n[ONE] / self.d[ONE]
        return None

    def ispoly(self):
        return self.d == {ONE: Fraction(1)}

    def atoms(self):
        return {t for p in (self.n, self.d) for k in p for t, _ in k}

    def subst(self, env):
        """replace atoms by Rats"""
        def ev(p):
            r = rat(0)
            for k, v in p.items():
                x = rat(v)
                for t, e in k:
                    for _ in range(e):
                        x = x * (env[t] if t in env else atom(t))
                r = r + x
            return r
        if not (self.atoms() & set(env)):
            return self
        d = ev(self.d).inv()
        return ev(self.n) * d if d is not None else None

    def __repr__(self):
        def sp(p):
            return ' + '.join('%s%s' % ('' if v == 1 and k else str(v) + ('*' if k else ''), '*'.join(repr(t) + ('^%d' % e if e != 1 else '') for t, e in k)) for k, v in sorted(p.items(), key=lambda z: [(t.uid, e) for t, e in z[0]])) or '0'
        return sp(self.n) + ('' if self.ispoly() else ' / (' + sp(self.d) + ')')


def rat(x):
    if isinstance(x, Rat):
        return x
    return Rat({ONE: Fraction(x)} if x != 0 else {})


def atom(t):
    return Rat({((t, 1),): Fraction(1)})


class U(object):
    """uniform array: start + i*step, i < count"""
    __slots__ = ('start', 'step', 'count')

    def __init__(self, start, step, count):
        self.start, self.step, self.count = start, step, count

    def last(self):
        return self.start + (self.count - 1) * self.step if self.step is not None else self.start

    def __repr__(self):
        return 'from %r by %r, %r entries' % (self.start, self.step, self.count)


def name(t):
    return t.a[0].a[0] if t.op == 'call' and t.a[0].op == 'ext' else None


def karg(t, k, pos=None):
    args, kws = (t.a[1], t.a[2]) if t.op == 'call' else (t.a[2], t.a[3])
    for a, v in kws:
        if a == k:
            return v
    return args[pos] if pos is not None and pos < len(args) else None


IDENT = {'builtins.float', 'builtins.int', 'numpy.float64', 'numpy.int64', 'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.squeeze', 'builtins.list', 'builtins.tuple', 'numpy.ascontiguousarray',
         'numpy.real'}
INTF = {'numpy.ceil', 'numpy.floor', 'numpy.round', 'numpy.rint', 'builtins.round', 'builtins.int', 'numpy.around', 'numpy.trunc', 'numpy.int64', 'math.floor', 'math.ceil'}
FA = '\x00half'


class Axes(object):
    """env: terms standing for known uniform arrays; integers: atoms known to be integers; choose: truth of path conditions"""

    def __init__(self, env=None, integers=(), choose=None, nonzero=()):
        self.env = dict(env or {})
        self.integers = set(integers)
        self.choose = choose or {}
        self.memo = {}
        self.umemo = {}

    # -------------------------------------------------------- choices
    def pick(self, t):
        n = 0
        while t.op == 'phi' and n < 50:
            c, p = t.a[0], True
            while c.op == 'not':
                c, p = c.a[0], not p
            if c not in self.choose:
                return None
            t = t.a[1] if self.choose[c] == p else t.a[2]
            n += 1
        return t

    # -------------------------------------------------------- scalars
    def integral(self, r):
        return r.ispoly() and all(v.denominator == 1 for v in r.n.values()) and all(t in self.integers or self.isint(t) for t in r.atoms())

    def isint(self, t):
        return t.op == 'bin' and t.a[0] == '//' or t.op in ('len', 'lidx') or t.op == 'call' and name(t) in ('builtins.len',) or t.op == FA or t.op == 'mcall' and t.a[0] == 'astype' or t.op == 'count' or name(t) in ('numpy.ceil', 'numpy.floor', 'numpy.rint', 'math.ceil', 'math.floor')

    def shaped(self, t):
        o = t.op
        if o == 'sub' and t.a[0].op == 'phi' and t.a[1].op == 'const' and self.pick(t.a[0]) is not None:
            t = mk('sub', self.pick(t.a[0]), t.a[1])
        if o == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], int):
            s, k = self.shapes.of(t.a[0].a[0]), t.a[1].a[0]
            return s[k] if s is not None and -len(s) <= k < len(s) else None
        if o == 'attr' and t.a[1] == 'ndim':
            s = self.shapes.of(t.a[0])
            return rat(len(s)) if s is not None else None
        if o == 'call' and name(t) == 'builtins.len' and len(t.a[1]) == 1:
            s = self.shapes.of(t.a[1][0])
            return s[0] if s else None
        return None

    def scalar(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._scalar(t)
        self.memo[t] = r
        return r

    shapes = None      # a Shapes to resolve x.shape[k], x.ndim and len(x) with, when wanted

    def _scalar(self, t):
        o = t.op
        if self.shapes is not None:
            r = self.shaped(t)
            if r is not None:
                return r
        if o == 'const':
            return rat(Fraction(t.a[0])) if isinstance(t.a[0], (int, float)) and t.a[0] == t.a[0] and abs(t.a[0]) < 1e300 else None
        if o == 'phi':
            x = self.pick(t)
            return self.scalar(x) if x is not None else None
        if o == 'vec' and len(t.a) == 1:
            return self.scalar(t.a[0])
        if o == 'neg':
            x = self.scalar(t.a[0])
            return -x if x is not None else None
        if o == 'bin' and t.a[0] in '+-*/':
            a, b = self.scalar(t.a[1]), self.scalar(t.a[2])
            if a is None or b is None:
                return None
            if t.a[0] == '+':
                return a + b
            if t.a[0] == '-':
                return a - b
            if t.a[0] == '*':
                return a * b
            b = b.inv()
            return a * b if b is not None else None
        if o == 'bin' and t.a[0] == '**' and t.a[2].op == 'const' and t.a[2].a[0] in (2, 3):
            a = self.scalar(t.a[1])
            if a is None:
                return None
            return a * a if t.a[2].a[0] == 2 else a * a * a
        if o == 'bin' and t.a[0] == '//':
            a, b = self.scalar(t.a[1]), self.scalar(t.a[2])
            if a is None or b is None:
                return None
            q = a * b.inv() if b.inv() is not None else None
            if q is not None and self.integral(q):
                return q
            return self.floordiv(a, b)
        n = name(t)
        if n in IDENT and len(t.a[1]) == 1 and n not in INTF:
            return self.scalar(t.a[1][0])
        if n in INTF and t.a[1]:
            x = self.scalar(t.a[1][0])
            if x is not None and self.integral(x):
                return x
            if n in ('numpy.float64',):
                return x
            if x is not None:
                dq = self.dividing(x)
                if dq is not None and n in ('numpy.floor', 'builtins.int', 'numpy.trunc', 'math.floor', 'numpy.int64'):
                    return self.floordiv(*dq)
        if o == 'mcall' and t.a[0] in ('astype', 'item', 'squeeze', 'copy', 'round'):
            x = self.scalar(t.a[1])
            if x is not None:
                if t.a[0] in ('item', 'squeeze', 'copy') or self.integral(x):
                    return x
                d = t.a[2][0] if t.a[2] else None
                if d is not None and d.op == 'ext' and 'float' in d.a[0]:
                    return x
                dq = self.dividing(x)
                if dq is not None and t.a[0] == 'astype':
                    return self.floordiv(*dq)
        if n in ('builtins.abs', 'numpy.abs', 'numpy.absolute', 'builtins.max', 'builtins.min'):
            pass
        red = None
        if n in ('numpy.max', 'numpy.amax', 'numpy.min', 'numpy.amin', 'numpy.ptp', 'numpy.mean', 'builtins.max', 'builtins.min', 'builtins.len', 'numpy.size', 'numpy.median', 'numpy.average') and len(t.a[1]) == 1:
            red, x = n.split('.')[1], t.a[1][0]
        elif o == 'mcall' and t.a[0] in ('max', 'min', 'ptp', 'mean') and not t.a[2]:
            red, x = t.a[0], t.a[1]
        elif o == 'attr' and t.a[1] == 'size':
            red, x = 'len', t.a[0]
        elif o == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' and is_const(t.a[1], 0, -1):
            red, x = 'len', t.a[0].a[0]
        if red:
            red = {'amax': 'max', 'amin': 'min', 'size': 'len', 'median': 'mean', 'average': 'mean'}.get(red, red)
            u = self.array(x)
            if u is not None:
                if red == 'len':
                    return u.count
                if u.step is None:
                    return {'max': u.start, 'min': u.start, 'mean': u.start, 'ptp': rat(0)}[red]
                s = self.sign(u.step)
                if red == 'mean':
                    return u.start + (u.count - 1) * u.step * Fraction(1, 2)
                if s:
                    lo, hi = (u.start, u.last()) if s > 0 else (u.last(), u.start)
                    return {'max': hi, 'min': lo, 'ptp': hi - lo}[red]
                return None
            if red == 'len':
                return self.count(x)
        if n in ('numpy.sum', 'numpy.count_nonzero', 'builtins.sum') and len(t.a[1]) == 1 and not t.a[2]:
            m = t.a[1][0]
            if ismask(m):
                return atom(mk('count', self.canon(m)))
        if o == 'sub':
            if t.a[0].op == 'phi':
                b = self.pick(t.a[0])
                if b is not None and b.op in ('vec', 'list', 'tuple') and t.a[1].op == 'const' and isinstance(t.a[1].a[0], int) and -len(b.a) <= t.a[1].a[0] < len(b.a):
                    return self.scalar(b.a[t.a[1].a[0]])
            u = self.array(t.a[0])
            if u is not None and t.a[1].op != 'slice':
                i = self.scalar(t.a[1])
                if i is not None:
                    c = i.const()
                    if c is not None and c < 0:
                        i = u.count + i
                    elif c is None and t.a[1].op == 'neg':
                        i = u.count + i
                    if u.step is None:
                        return u.start
                    return u.start + i * u.step
        if o in ('list', 'tuple', 'dict', 'comp', 'cmp'):
            return None
        return atom(t)

    def floordiv(self, a, b):
        """integer part of a / b as an atom keyed by value"""
        return atom(mk(FA, repr(a), repr(b)))

    def dividing(self, x):
        """x = a / k with a an integer polynomial"""
        if not x.ispoly():
            return None
        den = 1
        for v in x.n.values():
            den = den * v.denominator // _gcd(den, v.denominator)
        a = x * den
        return (a, rat(den)) if den > 1 and self.integral(a) else None

    def sign(self, r):
        """cell sizes are positive"""
        for p in (r.n, r.d):
            if not p or len(p) > 1 and not (all(v > 0 for v in p.values()) or all(v < 0 for v in p.values())):
                return 0
        return (1 if list(r.n.values())[0] > 0 else -1) * (1 if list(r.d.values())[0] > 0 else -1)

    def canon(self, t):
        return t

    def count(self, t):
        """number of entries of an index / mask result"""
        m = indices(t)
        if m is not None:
            return atom(mk('count', self.canon(m)))
        return None

    # -------------------------------------------------------- arrays
    def array(self, t):
        if t in self.umemo:
            return self.umemo[t]
        self.umemo[t] = None
        r = self._array(t)
        self.umemo[t] = r
        return r

    def parts(self, t):
        """pieces of a concatenation as arrays / single entries"""
        if t.op in ('list', 'tuple', 'vec'):
            out = []
            for x in t.a:
                s = self.scalar(x)
                if s is None:
                    return None
                out.append(U(s, None, rat(1)))
            return out
        u = self.array(t)
        if u is not None:
            return [u]
        return None

    def join(self, ps):
        ps = [p for p in ps if p.count.const() != 0]
        if not ps:
            return None
        step = next((p.step for p in ps if p.step is not None), None)
        if step is None:
            if len(ps) == 1:
                return ps[0]
            step = ps[1].start - ps[0].start
        start, n = ps[0].start, rat(0)
        for p in ps:
            if p.step is not None and p.step != step:
                return None
            if p.start != start + n * step:
                return None
            n = n + p.count
        return U(start, step, n)

    def _array(self, t):
        o = t.op
        if t in self.env:
            return self.env[t]
        if o == 'phi':
            x = self.pick(t)
            return self.array(x) if x is not None else None
        if o in ('list', 'tuple', 'vec') and t.a:
            ps = self.parts(t)
            return self.join(ps) if ps is not None else None
        if o == 'neg':
            u = self.array(t.a[0])
            return U(-u.start, -u.step if u.step is not None else None, u.count) if u is not None else None
        if o == 'bin' and t.a[0] in '+-*/':
            op = t.a[0]
            a, b = self.array(t.a[1]), self.array(t.a[2])
            if a is not None and b is not None:
                if op in '+-' and a.count == b.count and a.step is not None and b.step is not None:
                    return U(a.start + b.start if op == '+' else a.start - b.start, a.step + b.step if op == '+' else a.step - b.step, a.count)
                return None
            if a is not None:
                s = self.scalar(t.a[2])
                if s is None:
                    return None
                if op in '+-':
                    return U(a.start + s if op == '+' else a.start - s, a.step, a.count)
                s = s if op == '*' else s.inv()
                return U(a.start * s, a.step * s if a.step is not None else None, a.count) if s is not None else None
            if b is not None:
                s = self.scalar(t.a[1])
                if s is None or op == '/':
                    return None
                if op == '+':
                    return U(s + b.start, b.step, b.count)
                if op == '-':
                    return U(s - b.start, -b.step if b.step is not None else None, b.count)
                return U(s * b.start, s * b.step if b.step is not None else None, b.count)
            return None
        n = name(t)
        if n in IDENT and t.a[1]:
            return self.array(t.a[1][0])
        if o == 'mcall' and t.a[0] in ('copy', 'astype', 'flatten', 'ravel', 'squeeze', 'tolist'):
            return self.array(t.a[1])
        if n == 'numpy.arange':
            a = [self.scalar(x) for x in t.a[1]]
            if any(x is None for x in a):
                return None
            if len(a) == 1:
                return U(rat(0), rat(1), a[0])
            if len(a) == 2 and self.integral(a[1] - a[0]):
                return U(a[0], rat(1), a[1] - a[0])
            return None
        if n in ('numpy.ones', 'numpy.zeros') and t.a[1] and t.a[1][0].op not in ('list', 'tuple', 'vec', 'call'):
            c = self.scalar(t.a[1][0])
            return U(rat(1 if n.endswith('ones') else 0), rat(0), c) if c is not None else None
        if n == 'numpy.linspace' and len(t.a[1]) >= 2:
            c = karg(t, 'num', 2)
            c = self.scalar(c) if c is not None else rat(50)
            a, b = self.scalar(t.a[1][0]), self.scalar(t.a[1][1])
            e = karg(t, 'endpoint', 3)
            if c is None or a is None or b is None:
                return None
            d = (c if e is not None and is_const(e, False) else c - 1).inv()
            return U(a, (b - a) * d, c) if d is not None else None
        if n == 'numpy.diff' and len(t.a[1]) == 1 and not t.a[2]:
            u = self.array(t.a[1][0])
            return U(u.step, rat(0), u.count - 1) if u is not None and u.step is not None else None
        if n == 'numpy.fft.fftshift' and len(t.a[1]) == 1 and name(t.a[1][0]) == 'numpy.fft.fftfreq':
            f = t.a[1][0]
            c, d = karg(f, 'n', 0), karg(f, 'd', 1)
            c, d = self.scalar(c) if c is not None else None, self.scalar(d) if d is not None else rat(1)
            if c is None or d is None:
                return None
            w = (c * d).inv()
            if w is None:
                return None
            return U(-(self.half(c) * w), w, c)
        if n in ('numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.insert'):
            if n == 'numpy.insert':
                if len(t.a[1]) != 3 or not is_const(t.a[1][1], 0):
                    return None
                ps = [t.a[1][2], t.a[1][0]]
                ps = [mk('list', p) if k == 0 and p.op not in ('list', 'tuple', 'vec') and self.array(p) is None else p for k, p in enumerate(ps)]
            elif n == 'numpy.append':
                ps = list(t.a[1])
                if len(ps) == 2 and ps[1].op not in ('list', 'tuple', 'vec') and self.array(ps[1]) is None:
                    ps[1] = mk('list', ps[1])
            else:
                ps = list(t.a[1][0].a) if t.a[1] and t.a[1][0].op in ('list', 'tuple') else None
            if not ps:
                return None
            out = []
            for p in ps:
                x = self.parts(p)
                if x is None:
                    return None
                out += x
            return self.join(out)
        if o == 'sub' and t.a[1].op == 'slice' or n in ('numpy.compress', 'numpy.extract', 'numpy.take', 'numpy.delete') or o == 'sub':
            if o == 'sub':
                u, i = self.array(t.a[0]), t.a[1]
                base = t.a[0]
            elif n in ('numpy.compress', 'numpy.extract'):
                u, i, base = self.array(t.a[1][1]), t.a[1][0], t.a[1][1]
            elif n == 'numpy.take':
                u, i, base = self.array(t.a[1][0]), t.a[1][1], t.a[1][0]
            elif n == 'numpy.delete' and len(t.a[1]) == 2 and is_const(t.a[1][1], -1, 0):
                u = self.array(t.a[1][0])
                if u is None or u.step is None:
                    return None
                return U(u.start if is_const(t.a[1][1], -1) else u.start + u.step, u.step, u.count - 1)
            else:
                return None
            if u is None or u.step is None:
                return None
            if i.op == 'slice':
                return self.sliced(u, i)
            m = i if ismask(i) else indices(i)
            if m is not None and contiguous(m, base):
                return U(u.start + atom(mk('first', self.canon(m))) * u.step, u.step, atom(mk('count', self.canon(m))))
            return None
        if o == 'loop':
            return self.filled(t)
        if o == 'comp' and t.a[0] == 'list' and t.a[3] is None:
            u = self.array(t.a[2])
            if u is None and name(t.a[2]) == 'builtins.range' and len(t.a[2].a[1]) == 1:
                c = self.scalar(t.a[2].a[1][0])
                return self.indexed(t.a[1], mk('lidx', t.a[2]), c) if c is not None else None
        return None

    def half(self, c):
        k = c.const()
        if k is not None:
            return rat(k // 2)
        return atom(mk(FA, repr(c), '2'))

    def sliced(self, u, i):
        lo, hi, st = i.a
        if st is not NONE and not is_const(st, 1):
            return None
        a = rat(0) if lo is NONE else self.scalar(lo)
        b = u.count if hi is NONE else self.scalar(hi)
        if a is None or b is None:
            return None
        if hi is not NONE and self.negative(b, hi):
            b = u.count + b
        if lo is not NONE and self.negative(a, lo):
            a = u.count + a
        return U(u.start + a * u.step, u.step, b - a)

    def negative(self, r, t):
        c = r.const()
        return c < 0 if c is not None else t.op == 'neg'

    def filled(self, t):
        """array filled entry by entry in a loop"""
        it, var, init, body = t.a[0], t.a[1], t.a[2], t.a[3]
        if body.op != 'upd' or body.a[0].op != 'mu' or body.a[1].op != 'lidx':
            return None
        if name(init) not in ('numpy.zeros', 'numpy.empty', 'numpy.ones') or not init.a[1]:
            return None
        c = self.scalar(init.a[1][0])
        if c is None:
            return None
        i = body.a[1]
        if name(it) == 'builtins.range' and len(it.a[1]) == 1:
            if self.scalar(it.a[1][0]) != c:
                return None
        else:
            return None
        return self.indexed(body.a[2], i, c)

    def indexed(self, v, i, c):
        """v as a linear function of the index i"""
        r = self.scalar(v)
        if r is None or i in {s for t in r.atoms() if t is not i for s in subterms(t)}:
            return None
        r0 = r.subst({i: rat(0)})
        r1 = r.subst({i: rat(1)})
        r2 = r.subst({i: rat(2)})
        if r0 is None or r1 is None or r2 is None or (r2 - r1) != (r1 - r0):
            return None
        return U(r0, r1 - r0, c)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def ismask(t):
    if t.op == 'cmp' and t.a[0] in ('<', '<=', '=='):
        return True
    if t.op == 'bin' and t.a[0] in '&|':
        return ismask(t.a[1]) and ismask(t.a[2])
    if t.op == 'not':
        return ismask(t.a[0])
    return name(t) in ('numpy.logical_and', 'numpy.logical_or', 'numpy.isin')


def indices(t):
    """mask behind nonzero(mask)[0] / where / flatnonzero / x[mask]"""
    if t.op == 'sub' and is_const(t.a[1], 0) and name(t.a[0]) in ('numpy.nonzero', 'numpy.where') and len(t.a[0].a[1]) == 1:
        return t.a[0].a[1][0]
    if t.op == 'sub' and is_const(t.a[1], 0) and t.a[0].op == 'mcall' and t.a[0].a[0] == 'nonzero':
        return t.a[0].a[1]
    if name(t) == 'numpy.flatnonzero':
        return t.a[1][0]
    if name(t) in ('numpy.nonzero', 'numpy.where') and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.op == 'sub' and ismask(t.a[1]):
        return t.a[1]
    return None


def conjuncts(m):
    if m.op == 'bin' and m.a[0] == '&':
        return conjuncts(m.a[1]) + conjuncts(m.a[2])
    if name(m) == 'numpy.logical_and':
        return conjuncts(m.a[1][0]) + conjuncts(m.a[1][1])
    return [m]


def contiguous(m, base):
    """the mask selects a contiguous run of the monotone array `base`"""
    for c in conjuncts(m):
        if c.op == 'not':
            c = c.a[0]
        if c.op != 'cmp' or c.a[0] not in ('<', '<='):
            return False
        if (c.a[1] is base) == (c.a[2] is base):
            return False
    return True


class Shapes(object):
    """length of an array along each axis"""

    def __init__(self, ax, env):
        self.ax, self.env, self.memo = ax, env, {}

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._of(t)
        self.memo[t] = r
        return r

    def entries(self, t):
        """scalars of a shape argument"""
        e = vecs.flat(t)
        if e is None:
            if t.op == 'attr' and t.a[1] == 'shape':
                return self.of(t.a[0])
            s = self.ax.scalar(t) if t.op not in ('list', 'tuple', 'vec', 'dict') else None
            return [s] if s is not None and t.op in ('const', 'bin', 'param') else None
        return [self.ax.scalar(x) for x in e]

    def axis(self, t, n):
        c = t.a[0] if t.op == 'const' else None
        if isinstance(c, int) and -n <= c < n:
            return c % n
        return None

    def axes(self, t, n):
        e = vecs.flat(t) if t.op != 'const' else [t]
        if e is None:
            return None
        r = [self.axis(x, n) for x in e]
        return None if any(x is None for x in r) else r

    def _of(self, t):
        if t in self.env:
            return list(self.env[t])
        u = self.ax.array(t)
        if u is not None:
            return [u.count]
        o, n = t.op, name(t)
        if o == 'vec':
            return [rat(len(t.a))]
        if o in ('list', 'tuple'):
            return None
        if o == 'phi':
            x = self.ax.pick(t)
            return self.of(x) if x is not None else None
        if o in ('upd', 'mut'):
            return self.of(t.a[0])
        if o == 'mu':
            return self.of(t.a[2])
        if o == 'loop':
            a, b = self.of(t.a[2]), self.of(t.a[3])
            return b if a is not None and b is not None and len(a) == len(b) and all(x is not None and y is not None and x == y for x, y in zip(a, b)) else None
        if n in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full') and t.a[1]:
            return self.entries(t.a[1][0])
        if n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.real', 'numpy.abs', 'numpy.sqrt', 'numpy.conj', 'numpy.fft.fftn', 'numpy.fft.ifftn', 'numpy.fft.fftshift',
                 'numpy.fft.ifftshift', 'numpy.conjugate', 'numpy.absolute', 'numpy.nan_to_num', 'numpy.log10', 'numpy.exp', 'numpy.isfinite') and t.a[1]:
            return self.of(t.a[1][0])
        if o == 'attr' and t.a[1] in ('real', 'imag'):
            return self.of(t.a[0])
        if o == 'mcall' and t.a[0] in ('copy', 'astype', 'conj', 'conjugate'):
            return self.of(t.a[1])
        if o == 'bin' or o == 'neg':
            ss = [self.of(x) for x in (t.a[1:] if o == 'bin' else t.a)]
            ks = [x for x in ss if x is not None]
            if o == 'neg':
                return ss[0]
            if len(ks) == 2:
                m = max(len(k) for k in ks)
                ks = [[rat(1)] * (m - len(k)) + k for k in ks]
                out = []
                for x, y in zip(*ks):
                    if x is None or y is None:
                        out.append(None)
                    else:
                        out.append(x if y == rat(1) or x == y else y if x == rat(1) else None)
                return out
            other = t.a[2] if ss[0] is not None else t.a[1]
            if len(ks) == 1 and (other.op == 'const' or self.isscalar(other)):
                return ks[0]
            return None
        if n == 'numpy.pad' and len(t.a[1]) >= 2:
            s, p = self.of(t.a[1][0]), t.a[1][1]
            if s is None or p.op not in ('list', 'tuple') or len(p.a) != len(s):
                return None
            out = []
            for x, w in zip(s, p.a):
                e = vecs.flat(w)
                if x is None or e is None or len(e) not in (1, 2):
                    out.append(None)
                    continue
                e = [self.ax.scalar(y) for y in e]
                out.append(x + e[0] + e[-1] if None not in e else None)
            return out
        if n == 'numpy.take' and len(t.a[1]) >= 2:
            s, k = self.of(t.a[1][0]), karg(t, 'axis', 2)
            if s is None or k is None:
                return None
            k = self.axis(k, len(s))
            c = self.ax.count(t.a[1][1])
            if k is None:
                return None
            if c is None:
                e = vecs.flat(t.a[1][1])
                u = self.ax.array(t.a[1][1]) if e is None else None
                c = rat(len(e)) if e is not None else u.count if u is not None else None
                if c is None and t.a[1][1].op == 'const':
                    return s[:k] + s[k + 1:]
            s[k] = c
            return s
        if n in ('numpy.compress',) and len(t.a[1]) >= 2:
            s, k = self.of(t.a[1][1]), karg(t, 'axis', 2)
            if s is None or k is None:
                return None
            k = self.axis(k, len(s))
            if k is None:
                return None
            s[k] = atom(mk('count', t.a[1][0])) if ismask(t.a[1][0]) else None
            return s
        red = None
        if n in ('numpy.sum', 'numpy.mean', 'numpy.average', 'numpy.nansum', 'numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin', 'numpy.std', 'numpy.prod') and t.a[1]:
            red, k, kd = t.a[1][0], karg(t, 'axis', 1), karg(t, 'keepdims')
        elif o == 'mcall' and t.a[0] in ('sum', 'mean', 'max', 'min', 'std', 'prod'):
            red, k, kd = t.a[1], karg(t, 'axis', 0), karg(t, 'keepdims')
        if red is not None:
            s = self.of(red)
            if s is None:
                return None
            if k is None or k is NONE:
                return []
            k = self.axes(k, len(s))
            if k is None:
                return None
            if kd is not None and is_const(kd, True):
                return [rat(1) if i in k else x for i, x in enumerate(s)]
            return [x for i, x in enumerate(s) if i not in k]
        if n == 'numpy.expand_dims' and len(t.a[1]) >= 1:
            s, k = self.of(t.a[1][0]), karg(t, 'axis', 1)
            if s is None or k is None or k.op != 'const':
                return None
            k = k.a[0] % (len(s) + 1)
            return s[:k] + [rat(1)] + s[k:]
        if n in ('numpy.moveaxis', 'numpy.swapaxes') and len(t.a[1]) == 3:
            s = self.of(t.a[1][0])
            if s is None:
                return None
            a, b = self.axis(t.a[1][1], len(s)), self.axis(t.a[1][2], len(s))
            if a is None or b is None:
                return None
            if n.endswith('swapaxes'):
                s[a], s[b] = s[b], s[a]
                return s
            x = s.pop(a)
            s.insert(b, x)
            return s
        if n in ('numpy.concatenate', 'numpy.append'):
            ps = list(t.a[1][0].a) if n.endswith('concatenate') and t.a[1] and t.a[1][0].op in ('list', 'tuple') else list(t.a[1][:2]) if n.endswith('append') else None
            k = karg(t, 'axis', 1 if n.endswith('concatenate') else 2)
            if not ps:
                return None
            ss = [self.of(p) for p in ps]
            if any(s is None for s in ss) or len({len(s) for s in ss}) != 1:
                return None
            k = self.axis(k, len(ss[0])) if k is not None else 0 if n.endswith('concatenate') else None
            if k is None:
                return None
            out = list(ss[0])
            for s in ss[1:]:
                out[k] = out[k] + s[k] if out[k] is not None and s[k] is not None else None
            return out
        if n and n.endswith('signal.fftconvolve') and len(t.a[1]) >= 2:
            s, s2 = self.of(t.a[1][0]), self.of(t.a[1][1])
            m, k = karg(t, 'mode', 2), karg(t, 'axes', 3)
            if s is None or m is None or not is_const(m, 'same'):
                return None
            ks = self.axes(k, len(s)) if k is not None else list(range(len(s)))
            if ks is None:
                return None
            out = []
            for i, x in enumerate(s):
                if i in ks:
                    out.append(x)
                elif s2 is not None and len(s2) == len(s) and s2[i] is not None and x is not None:
                    out.append(x if s2[i] == rat(1) or x == s2[i] else s2[i] if x == rat(1) else None)
                else:
                    out.append(None)
            return out
        if n == 'numpy.resize' and len(t.a[1]) == 2 or n == 'numpy.broadcast_to' and len(t.a[1]) == 2:
            e = self.entries(t.a[1][1])
            if e is None:
                x = self.ax.scalar(t.a[1][1])
                e = [x] if x is not None else None
            return e
        if n == 'numpy.repeat' and len(t.a[1]) == 2 and karg(t, 'axis', 2) is None:
            s, k = self.of(t.a[1][0]), self.ax.scalar(t.a[1][1])
            return [s[0] * k] if s is not None and len(s) == 1 and s[0] is not None and k is not None else None
        if n == 'numpy.reshape' or o == 'mcall' and t.a[0] == 'reshape':
            sh = t.a[1][1] if n else (t.a[2][0] if len(t.a[2]) == 1 else mk('tuple', *t.a[2]))
            e = vecs.flat(sh)
            if e is not None and not any(x.op == 'const' and x.a[0] == -1 for x in e):
                return [self.ax.scalar(x) for x in e]
            return None
        if o == 'sub':
            s = self.of(t.a[0])
            return self.indexed(s, t.a[1]) if s is not None else None
        return None

    def isscalar(self, t):
        if t.op == 'const':
            return True
        if t.op == 'bin':
            return self.isscalar(t.a[1]) and self.isscalar(t.a[2])
        return t in self.env and self.env[t] == () or t in self.ax.integers or t in getattr(self, 'scalars', ())

    def indexed(self, s, i):
        idx = list(i.a) if i.op == 'tuple' else [i]
        out = []
        k = 0
        adv = None
        nell = sum(1 for x in idx if is_const(x, Ellipsis))
        used = sum(1 for x in idx if not is_const(x, Ellipsis) and x is not NONE and not (x.op == 'ext' and x.a[0] == 'numpy.newaxis'))
        if nell > 1 or used > len(s):
            return None
        for x in idx:
            if is_const(x, Ellipsis):
                m = len(s) - used
                out += s[k:k + m]
                k += m
            elif x is NONE or x.op == 'ext' and x.a[0] == 'numpy.newaxis':
                out.append(rat(1))
            elif x.op == 'slice':
                if x.a[0] is NONE and x.a[1] is NONE and x.a[2] is NONE:
                    out.append(s[k])
                elif s[k] is None:
                    out.append(None)
                else:
                    u = self.ax.sliced(U(rat(0), rat(1), s[k]), x)
                    out.append(u.count if u is not None else None)
                k += 1
            elif x.op == 'const' and isinstance(x.a[0], int):
                k += 1
            elif x.op in ('vec', 'list', 'tuple') and vecs.flat(x) is not None:
                if adv is not None:
                    return None
                e = vecs.consts(x)
                adv = rat(sum(e)) if e and all(isinstance(y, bool) for y in e) else rat(len(x.a))
                out.append(adv)
                k += 1
            elif self.isscalar(x) or x.op == 'lidx':
                k += 1
            else:
                return None
        return out + s[k:]
