"""Averages over shells count every cell once, in its own shell."""
import itertools
from fractions import Fraction
from gridstate import *
from axes import karg
from terms import contains, find, children, poly
from flow import Interp

ASSUMPTIONS = [
    'numpy.digitize, searchsorted, nonzero, indices, add.at, linspace and logspace behave as documented: linspace and geomspace return their end points exactly, logspace need not',
    'analysed on three-axis grids, averaged over all axes, over pairs of axes and over one axis; the position of a radius among the edges is enumerated on and between four edges',
    'an average, a spread or a count computed in a form that is not recognised gives no obligation',
]
SELF = P('self')
VIEWS = {'flatten', 'ravel', 'reshape', 'copy', 'astype', 'squeeze', 'view'}
COPIES = {'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.ascontiguousarray', 'numpy.broadcast_to', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.real_if_close'}
NEDGE = 4
PLACES = [Fraction(k, 2) for k in range(1, 2 * NEDGE + 2)]      # radii; the edges are 1, 2, .. NEDGE


class Odd(Exception):
    pass


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def plain(t):
    """the values of t without rearrangements"""
    while True:
        if t.op == 'mcall' and t.a[0] in VIEWS:
            t = t.a[1]
        elif t.op == 'call' and name(t) in COPIES and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'attr' and t.a[1] == 'T':
            t = t.a[0]
        else:
            return t


CELL, WEIGHT, MEAN, RAD = P('\x00cell'), P('\x00weight'), P('\x00mean'), P('\x00rad')


class Binned(object):
    def __init__(self, g, ax):
        self.g, self.ax = g, ax
        self.rad = self.edges = None
        self.right = False                     # edges belong to the shell below
        self.found = []                        # (index columns, selections, cell value) of every sum
        self.mean = None

    # -- position of the radius among the edges
    def digit(self, t):
        """t is the digitised radius: the number of edges not above it"""
        n = name(t)
        if n == 'numpy.digitize' and len(t.a[1]) >= 2:
            x, e = t.a[1][:2]
            r = karg(t, 'right', 2)
            if r is not None and not is_const(r, False, True):
                return None
            if is_const(r, True):
                self.right = True
        elif n == 'numpy.searchsorted' and len(t.a[1]) >= 2:
            e, x = t.a[1][:2]
            s = karg(t, 'side', 2)
            if s is None or not is_const(s, 'right'):
                return None
        elif t.op == 'mcall' and t.a[0] == 'searchsorted' and t.a[2]:
            e, x = t.a[1], t.a[2][0]
            s = karg(t, 'side', 1)
            if s is None or not is_const(s, 'right'):
                return None
        else:
            return None
        x = plain(x)
        if self.rad is None:
            self.rad, self.edges = x, e
        return x is self.rad and e is self.edges

    def at(self, t, p):
        """value of t when the radius is at place p"""
        t = plain(t)
        if t.op == 'const' and type(t.a[0]) in (int, float, bool):
            return t.a[0]
        d = self.digit(t)
        if d:
            return min(NEDGE, -int(-p // 1) - 1 if self.right else int(p))
        if t is self.rad:
            return p
        if t.op == 'sub' and t.a[0] is self.edges and t.a[1].op == 'const' and type(t.a[1].a[0]) is int:
            return range(1, NEDGE + 1)[t.a[1].a[0]]
        if self.edges is not None:
            if is_call(t, 'builtins.len') and t.a[1] and t.a[1][0] is self.edges or t.op == 'attr' and t.a[1] == 'size' and t.a[0] is self.edges:
                return NEDGE
            if t.op == 'sub' and is_const(t.a[1], 0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' and t.a[0].a[0] is self.edges:
                return NEDGE
        if t.op == 'bin':
            x, y = self.at(t.a[1], p), self.at(t.a[2], p)
            o = t.a[0]
            if o in '+-*' and len(o) == 1:
                return x + y if o == '+' else x - y if o == '-' else x * y
            if o in '&|' and isinstance(x, bool) and isinstance(y, bool):
                return x and y if o == '&' else x or y
            raise Odd
        if t.op == 'cmp':
            x, y = self.at(t.a[1], p), self.at(t.a[2], p)
            try:
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[t.a[0]]
            except KeyError:
                raise Odd
        if t.op in ('and', 'or'):
            v = [self.at(x, p) for x in t.a]
            return all(v) if t.op == 'and' else any(v)
        if t.op == 'not' or t.op == 'un' and t.a[0] in ('~', 'not') or is_call(t, 'numpy.logical_not', 'numpy.invert'):
            x = self.at(t.a[0] if t.op == 'not' else t.a[1] if t.op == 'un' else t.a[1][0], p)
            if isinstance(x, bool):
                return not x
            raise Odd
        if is_call(t, 'numpy.logical_and', 'numpy.logical_or') and len(t.a[1]) == 2:
            x, y = [self.at(z, p) for z in t.a[1]]
            return (x and y) if name(t).endswith('and') else (x or y)
        raise Odd

    def sel(self, t):
        """the places a selection keeps"""
        while is_call(t, 'numpy.nonzero', 'numpy.flatnonzero', 'builtins.tuple') and t.a[1] or is_call(t, 'numpy.where') and len(t.a[1]) == 1 or t.op in ('tuple', 'list') and len(t.a) == 1 \
                or t.op == 'sub' and is_const(t.a[1], 0) and is_call(t.a[0], 'numpy.nonzero', 'numpy.where'):
            t = t.a[0] if t.op in ('tuple', 'list', 'sub') else t.a[1][0]
        v = []
        for p in PLACES:
            x = self.at(t, p)
            if not isinstance(x, bool):
                raise Odd
            v.append(x)
        return tuple(v)

    # -- where values are added
    def columns(self, t):
        """(column terms, selections) of an index of binned cells"""
        sels = []
        while True:
            t = plain(t)
            if is_call(t, 'builtins.tuple', 'builtins.list', 'numpy.transpose') and t.a[1]:
                t = t.a[1][0]
            elif is_call(t, 'numpy.split', 'numpy.array_split', 'numpy.hsplit') and t.a[1]:
                t = t.a[1][0]
            elif is_call(t, 'numpy.stack', 'numpy.vstack', 'numpy.column_stack') and t.a[1]:
                t = t.a[1][0]
            elif t.op == 'mcall' and t.a[0] == 'transpose':
                t = t.a[1]
            elif t.op == 'sub':
                i = t.a[1]
                if i.op in ('tuple', 'vec') and len(i.a) == 2:
                    full = [x for x in i.a if x.op == 'slice' and all(is_const(z, None) for z in x.a)]
                    rest = [x for x in i.a if x not in full]
                    if len(rest) != 1:
                        raise Odd
                    i = rest[0]
                sels.append(self.sel(i))
                t = t.a[0]
            elif t.op in ('vec', 'list', 'tuple'):
                return list(t.a), sels
            else:
                raise Odd

    def index(self, t):
        cols, sels = self.columns(t)
        out = []
        for c in cols:
            s = list(sels)
            c = plain(c)
            while c.op == 'sub':
                try:
                    s.append(self.sel(c.a[1]))
                except Odd:
                    break
                c = plain(c.a[0])
            out.append((c, frozenset(s)))
        if len({s for c, s in out}) != 1:
            raise Odd
        return tuple(c for c, s in out), out[0][1]

    # -- values of cells
    def cell(self, t, sels):
        """what t holds for one cell, over the cell's value, weight and the mean of its shell"""
        if t.op == 'const' and type(t.a[0]) in (int, float):
            return rat(Fraction(t.a[0]))
        if t is self.g.grid:
            return atom(CELL)
        if self.isweight(t):
            return atom(WEIGHT)
        if t.op == 'mcall' and t.a[0] in VIEWS:
            if t.a[0] == 'astype' and not any(is_call(x, 'builtins.float', 'builtins.complex') or x.op == 'ext' and x.a[0] in ('builtins.float', 'builtins.complex', 'numpy.float64', 'numpy.complex128') for x in t.a[2]):
                raise Odd
            return self.cell(t.a[1], sels)
        if t.op == 'call' and name(t) in COPIES and t.a[1]:
            return self.cell(t.a[1][0], sels)
        if is_call(t, 'numpy.ones', 'numpy.ones_like'):
            return rat(1)
        if is_call(t, 'numpy.zeros', 'numpy.zeros_like'):
            return rat(0)
        if t.op == 'vec' and t.a and all(is_const(x) and x.a[0] == t.a[0].a[0] for x in t.a) and type(t.a[0].a[0]) in (int, float):
            return rat(Fraction(t.a[0].a[0]))
        if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/'):
            x, y = self.cell(t.a[1], sels), self.cell(t.a[2], sels)
            o = t.a[0]
            return x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x * y.inv()
        if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 2):
            x = self.cell(t.a[1], sels)
            return x * x
        if is_call(t, 'numpy.square') and len(t.a[1]) == 1:
            x = self.cell(t.a[1][0], sels)
            return x * x
        if is_call(t, 'numpy.multiply', 'numpy.subtract', 'numpy.add') and len(t.a[1]) == 2:
            x, y = [self.cell(z, sels) for z in t.a[1]]
            return x * y if name(t) == 'numpy.multiply' else x + y if name(t) == 'numpy.add' else x - y
        if t.op == 'upd':
            s = self.sel(t.a[1])
            sels.add(s)
            return self.cell(t.a[2], sels)
        if t.op == 'sub':
            b = plain(t.a[0])
            if self.binned(b):
                r = self.total(b)
                cols, s = self.index(t.a[1])
                for c in self.found:
                    if c[0] != cols or c[1] != s:
                        raise Odd
                if self.mean is None or not same(r, self.mean):
                    raise Odd
                sels |= s
                return atom(MEAN)
            sels.add(self.sel(t.a[1]))
            return self.cell(t.a[0], sels)
        raise Odd

    def isweight(self, t):
        w = P('weights')
        if not contains(t, w) or t.op in ('bin', 'cmp', 'sub'):
            return False
        seen = set()
        stack = [t]
        while stack:                           # the data of the grid may only be asked for its shape
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'attr' and x.a[1] in ('shape', 'ndim', 'size'):
                continue
            if x is self.g.grid:
                return False
            if x.op == 'bin' and x.a[0] in ('*', '/', '**') or x.op == 'call' and name(x) in ('numpy.sqrt', 'numpy.abs', 'numpy.square', 'numpy.zeros', 'numpy.add.at'):
                return False
            stack.extend(children(x))
        return True

    def binned(self, t):
        t = plain(t)
        if t.op == 'bin':
            return self.binned(t.a[1]) and (self.binned(t.a[2]) or is_const(t.a[2]))
        if is_call(t, 'numpy.divide') and len(t.a[1]) == 2:
            return self.binned(t.a[1][0]) and self.binned(t.a[1][1])
        return t.op == 'mut' and t.a[1] == 'numpy.add.at'

    def total(self, t):
        """t over sums of cell values within a shell"""
        if self.edges is None:
            for x in find(t, lambda z: z.op in ('call', 'mcall')):
                self.digit(x)
        t = plain(t)
        if t.op == 'const' and type(t.a[0]) in (int, float):
            return rat(Fraction(t.a[0]))
        if t.op == 'mut' and t.a[1] == 'numpy.add.at' and len(t.a[2]) == 2 and is_call(t.a[0], 'numpy.zeros', 'numpy.zeros_like'):
            cols, s = self.index(t.a[2][0])
            sels = set()
            v = self.cell(t.a[2][1], sels)
            self.found.append((cols, s, v, frozenset(sels)))
            return self.summed(v)
        if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/'):
            x, y = self.total(t.a[1]), self.total(t.a[2])
            o = t.a[0]
            return x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x * y.inv()
        if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 2):
            x = self.total(t.a[1])
            return x * x
        if is_call(t, 'numpy.divide') and len(t.a[1]) == 2:
            return self.total(t.a[1][0]) * self.total(t.a[1][1]).inv()
        raise Odd

    @staticmethod
    def summed(v):
        """the sum over a shell of a polynomial of cell values, term by term"""
        if len(v.d) != 1 or () not in v.d:
            raise Odd
        r = rat(0)
        for m, c in v.n.items():
            out, ins = rat(1), []
            for a, e in m:
                if a is MEAN:
                    for _ in range(e):
                        out = out * atom(MEAN)
                else:
                    ins.append((a, e))
            k = '\x00S' + ','.join('%s^%d' % (a.a[0], e) for a, e in sorted(ins, key=lambda z: z[0].a[0]))
            r = r + rat(c) * out * atom(P(k))
        return r


def same(a, b):
    d = a - b
    return not d.n


def S(b, *atoms):
    r = rat(1)
    for a in atoms:
        r = r * atom(a)
    return b.summed(r)


def root(t):
    t = plain(t)
    if is_call(t, 'numpy.sqrt') and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 0.5):
        return t.a[1]
    return None


def squared(b, t):
    """the square of t over sums, None when t is no root"""
    t = plain(t)
    q = root(t)
    if q is not None:
        return b.total(q)
    if t.op == 'bin' and t.a[0] in ('*', '/'):
        x, y = squared(b, t.a[1]), squared(b, t.a[2])
        if x is None and y is None:
            return None
        if x is None:
            x = b.total(t.a[1])
            x = x * x
        if y is None:
            y = b.total(t.a[2])
            y = y * y
        return x * y if t.a[0] == '*' else x * y.inv()
    return None


def check(prog, rep):
    rep.rule('average', 'the average of a shell is the weighted sum of its cells over the sum of their weights', 0)
    rep.rule('count', 'the count of a shell adds one for every cell', 0)
    rep.rule('spread', 'the spread of a shell is the root of the weighted mean square deviation from the average of the same shell, with the unbiased form when asked', 0)
    rep.rule('shell', 'values are added where the edges put the radius: at the shell whose edges enclose it, at their own place along the axes kept and at their own property, and the same cells take part in values and places', 0)
    rep.rule('distance', 'the radius is the distance over exactly the averaged axes', 0)
    rep.rule('edges', 'shells chosen automatically enclose every radius (every positive one in logarithmic shells) and are as many as asked for', 0)
    rep.rule('kept', 'averages of Fourier data hold complex numbers', 0)
    f = None
    for ax in ((0, 1, 2), (0, 2), (1,), (2, 1)):
        for four in (None, [TRUE] * 3, [TRUE if i not in ax else FALSE for i in range(3)]):
            if four == [FALSE] * 3:
                continue
            for weights in (NONE, P('weights')):
                for biased in (TRUE, FALSE):
                    one(prog, rep, ax, four, weights, biased)
    for mode in ('linear', 'log'):
        for shells in (NONE, K(7)):
            automatic(prog, rep, mode, shells)


def run(prog, g, ax, **k):
    b = dict(ax=L(*[K(i) for i in ax]), center=L(*[P('x%d' % i) for i in range(3)]), return_n=TRUE, return_std=TRUE, binmode=K('linear'))
    b.update(k)
    m = {}
    if k.get('shells', NONE).op == 'const' and k['shells'] is not NONE:
        m[mk('ext', 'numpy.issubdtype')] = lambda a, kws: TRUE
    return grid_spec(prog, 'spherical_average', g, b, models=m)


def one(prog, rep, ax, four, weights, biased):
    g = G(fourier=four)
    f, r = run(prog, g, ax, shells=P('shells'), weights=weights, biased_std=biased)
    rep.saw(f)
    con = 'spherical_average %s%s%s' % (list(ax), '' if not four else ' Fourier' if FALSE not in four else ' Fourier along the other axes', ' weighted' if weights is not NONE else '')
    keep = [i for i in range(3) if i not in ax]
    for x in normal(r):
        v = x.value
        if v.op not in ('tuple', 'list') or len(v.a) < 2:
            continue
        b = Binned(g, ax)
        w = rat(1) if weights is NONE else None
        sw = S(b, WEIGHT) if weights is not NONE else S(b)
        try:
            avg = b.total(v.a[1])
        except Odd:
            rep.notes.append('%s: the average is not in a recognised form' % con)
            continue
        if b.edges is None:
            rep.notes.append('%s: shells are not recognised' % con)
            continue
        want = S(b, CELL, WEIGHT) * sw.inv() if weights is not NONE else S(b, CELL) * sw.inv()
        rep.ob('average', con, same(avg, want), wh(f), 'the average of a shell is %r' % avg)
        if four:
            dt = zeros_type(v.a[1])
            if dt is not None:
                rep.ob('kept', con, dt, wh(f), 'sums of complex data are accumulated in real numbers')
        b.mean = avg
        for t in v.a[2:]:
            n0 = len(b.found)
            try:
                q = squared(b, t)
                r0 = q if q is not None else b.total(t)
            except Odd:
                rep.notes.append('%s: a returned array is not in a recognised form' % con)
                del b.found[n0:]
                continue
            if q is None:
                rep.ob('count', con, same(r0, S(b)), wh(f), 'the count of a shell is %r' % r0)
            elif not four:
                W = [WEIGHT] if weights is not NONE else []
                M = atom(MEAN)
                num = S(b, CELL, CELL, *W) - rat(2) * M * S(b, CELL, *W) + M * M * S(b, *W)
                den = sw if biased is TRUE else sw - (S(b, *(W * 2)) * sw.inv())
                rep.ob('spread', con + (' biased' if biased is TRUE else ''), same(r0, num * den.inv()), wh(f), 'the squared spread of a shell is %r' % r0)
        for cols, s, val, vs in b.found:
            bad = place(b, g, ax, keep, cols, s, vs)
            if bad is not None:
                rep.ob('shell', con, not bad, wh(f), bad)
        dist(rep, f, con, b, g, ax)
        ed = v.a[0]
        if ed.op in ('list', 'tuple', 'vec') and ed.a:
            e0 = ed.a[0]
            rep.ob('edges', con + ' returned', e0 is b.edges or plain(e0) is plain(b.edges), wh(f), 'the shells returned are not the ones cells were sorted into')
            rep.ob('edges', con + ' given', plain(strip_phi(b.edges)) is P('shells'), wh(f), 'the shells used are %s' % show(b.edges)[:200]) if strip_phi(b.edges) is not None else None


def strip_phi(t):
    """the value used when the shells are an array of the caller's"""
    while t.op == 'phi':
        c = t.a[0]
        if not find(c, lambda z: z.op == 'ext' and z.a[0] in ('numpy.issubdtype', 'builtins.isinstance') or z.op == 'cmp' and z.a[0] == 'is'):
            return None
        pos = find(t.a[1], lambda z: is_call(z, 'numpy.linspace', 'numpy.logspace', 'numpy.geomspace'))
        neg = find(t.a[2], lambda z: is_call(z, 'numpy.linspace', 'numpy.logspace', 'numpy.geomspace'))
        if bool(pos) == bool(neg):
            return None
        t = t.a[2] if pos else t.a[1]
    return t


def zeros_type(t):
    """True when the accumulated values of the average hold complex numbers, False when they surely do not"""
    t = plain(t)
    if t.op == 'bin' and t.a[0] == '/':
        t = plain(t.a[1])
    if t.op == 'mut' and is_call(t.a[0], 'numpy.zeros'):
        d = karg(t.a[0], 'dtype', 1)
        if d is None:
            return False
        if d.op == 'ext':
            return True if 'complex' in d.a[0] else False if d.a[0] in ('builtins.float', 'builtins.int', 'numpy.float64') else None
        if d.op == 'const':
            return 'complex' in str(d.a[0]) if isinstance(d.a[0], str) else None
    return None


def place(b, g, ax, keep, cols, s, vs):
    """what is wrong with the places values are added at; '' when they are right, None when unclear"""
    if not s:
        return None
    if len(cols) != len(keep) + 2:
        if all(c.op == 'sub' and is_call(c.a[0], 'numpy.indices') for c in cols[1:]):
            return 'values are added at %d coordinates, for %d axes kept' % (len(cols), len(keep))
        return None
    sel = [all(z[i] for z in s) for i in range(len(PLACES))]
    if vs:
        vsel = [all(z[i] for z in vs) for i in range(len(PLACES))]
        if vsel != sel:
            return 'values and places are of different cells'
    else:
        return None
    for p, k in zip(PLACES, sel):
        inside = 1 <= p < NEDGE
        if p != NEDGE and k != inside:
            return 'a radius %s the shells is %s' % ('within' if inside else 'below' if p < 1 else 'beyond', 'added' if k else 'left out')
        if k:
            try:
                i = b.at(cols[0], p)
            except Odd:
                return None
            if i != min(int(p), NEDGE - 1) - 1:
                return 'a radius in shell %d is added to shell %s' % (int(p) - 1, i)
    for c, i in zip(cols[1:], keep + [3]):
        c = plain(c)
        if c.op != 'sub' or not is_call(c.a[0], 'numpy.indices') or not is_const(c.a[1]) or type(c.a[1].a[0]) is not int:
            return None
        k = c.a[1].a[0]
        if (k + 4 if k < 0 else k) != i:
            return 'the place along axis %d is that of axis %d' % (i, k)
    return ''


def dist(rep, f, con, b, g, ax):
    t = plain(b.rad)
    q = root(t)
    if q is None:
        return
    marks = {}

    def walk(t):
        t0 = t
        if is_call(t, 'numpy.zeros', 'numpy.zeros_like'):
            return rat(0)
        if t.op == 'mcall' and t.a[0] == 'reshape' and len(t.a[2]) == 1:
            d = t.a[1]
            sh = vecs.flat(t.a[2][0])
            if sh is None or len(sh) != 4:
                raise Odd
            along = [j for j, y in enumerate(sh) if y is not K(1)]
            if len(along) != 1 or along[0] > 2:
                raise Odd
            return walk2(d, along[0])
        if t.op == 'bin' and t.a[0] in ('+', '-', '*'):
            x, y = walk(t.a[1]), walk(t.a[2])
            return x + y if t.a[0] == '+' else x - y if t.a[0] == '-' else x * y
        if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 2):
            x = walk(t.a[1])
            return x * x
        if t.op == 'const' and type(t.a[0]) in (int, float):
            return rat(Fraction(t.a[0]))
        raise Odd

    def walk2(t, j):
        for i in range(3):
            if t in (g.C[i], g.F[i]):
                return atom(P('\x00co%d.%d' % (i, j)))
            if t is P('x%d' % i):
                return atom(P('\x00ce%d' % i))
        if t.op == 'bin' and t.a[0] in ('+', '-', '*'):
            x, y = walk2(t.a[1], j), walk2(t.a[2], j)
            return x + y if t.a[0] == '+' else x - y if t.a[0] == '-' else x * y
        if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 2):
            x = walk2(t.a[1], j)
            return x * x
        raise Odd
    try:
        got = walk(plain(q))
    except Odd:
        rep.notes.append('%s: the radius is not in a recognised form' % con)
        return
    want = rat(0)
    for i in ax:
        d = atom(P('\x00co%d.%d' % (i, i))) - atom(P('\x00ce%d' % i))
        want = want + d * d
    rep.ob('distance', con, same(got, want), wh(f), 'the squared radius is %r' % got)


# -- automatic shells
def number(t, rad, env):
    t = plain(t)
    lo, pos, hi = env
    if t.op == 'const' and type(t.a[0]) in (int, float):
        return Fraction(t.a[0])
    if t.op == 'upd' or t.op == 'mut':
        raise Odd
    n = name(t) if t.op == 'call' else None
    arg = t.a[1][0] if n and t.a[1] else t.a[1] if t.op == 'mcall' else None
    kind = n[6:] if n and n.startswith('numpy.') else t.a[0] if t.op == 'mcall' else None
    if kind in ('min', 'amin', 'max', 'amax') and arg is not None:
        a = plain(arg)
        if a is rad:
            return lo if 'min' in kind else hi
        if a.op == 'sub' and plain(a.a[0]) is rad and a.a[1].op == 'cmp':
            c = a.a[1]
            x, y = plain(c.a[1]), plain(c.a[2])
            if is_const(x) and x.a[0] == 0 and y is rad and c.a[0] in ('<', '!=') or is_const(y) and y.a[0] == 0 and x is rad and c.a[0] in ('>', '!='):
                return pos if 'min' in kind else hi
        raise Odd
    if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/'):
        x, y = number(t.a[1], rad, env), number(t.a[2], rad, env)
        o = t.a[0]
        if o == '/' and y == 0:
            raise Odd
        return x + y if o == '+' else x - y if o == '-' else x * y if o == '*' else x / y
    if t.op == 'phi':
        return number(t.a[1] if truth(t.a[0], rad, env) else t.a[2], rad, env)
    if n == 'builtins.float' and arg is not None:
        return number(arg, rad, env)
    if n == 'numpy.nextafter' and len(t.a[1]) == 2:
        to = t.a[1][1]
        if to.op == 'ext' and to.a[0] in ('numpy.inf', 'math.inf'):
            return number(arg, rad, env) * (1 + Fraction(1, 10 ** 15))
    raise Odd


def truth(c, rad, env):
    if c.op == 'cmp' and c.a[0] in ('<', '<=', '>', '>=', '==', '!='):
        x, y = number(c.a[1], rad, env), number(c.a[2], rad, env)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[c.a[0]]
    if c.op == 'not':
        return not truth(c.a[0], rad, env)
    raise Odd


SAMPLES = [(0, 1, 5), (0, 2, 3), (1, 1, 2), (3, 3, 1000), (Fraction(1, 1000), Fraction(1, 1000), 7), (0, 1, 10 ** 6)]


def ends(t, rad, env):
    """(first edge, whether it is exact, last edge, exact, number of edges)"""
    if t.op == 'phi':
        return ends(t.a[1] if truth(t.a[0], rad, env) else t.a[2], rad, env)
    if t.op == 'upd' and is_const(t.a[1]) and type(t.a[1].a[0]) is int and t.a[1].a[0] in (0, -1):
        a, ea, b, eb, n = ends(t.a[0], rad, env)
        v = number(t.a[2], rad, env)
        return (v, True, b, eb, n) if t.a[1].a[0] == 0 else (a, ea, v, True, n)
    t = plain(t)
    nm = name(t) if t.op == 'call' else None
    if nm in ('numpy.linspace', 'numpy.geomspace', 'numpy.logspace') and len(t.a[1]) >= 2:
        if karg(t, 'endpoint', 3) is not None or karg(t, 'base') is not None:
            raise Odd
        n = karg(t, 'num', 2)
        if n is None:
            raise Odd
        a, b = t.a[1][:2]
        if nm != 'numpy.logspace':
            return number(a, rad, env), True, number(b, rad, env), True, n
        if not (is_call(plain(a), 'numpy.log10', 'math.log10') and is_call(plain(b), 'numpy.log10', 'math.log10')):
            raise Odd
        return number(plain(a).a[1][0], rad, env), False, number(plain(b).a[1][0], rad, env), False, n
    raise Odd


def automatic(prog, rep, mode, shells):
    g = G()
    f, r = run(prog, g, (0, 1, 2), shells=shells, weights=NONE, biased_std=TRUE, binmode=K(mode))
    rep.saw(f)
    con = 'spherical_average %s %s shells' % ('automatic' if shells is NONE else 'numbered', mode)
    for x in normal(r):
        v = x.value
        if v.op not in ('tuple', 'list') or len(v.a) < 2:
            continue
        b = Binned(g, (0, 1, 2))
        try:
            b.total(v.a[1])
        except Odd:
            pass
        if b.edges is None:
            continue
        rad = b.rad
        eps = Fraction(1, 10 ** 12)
        try:
            bad = ''
            for env in SAMPLES:
                env = tuple(Fraction(z) for z in env)
                a, ea, z, ez, n = ends(b.edges, rad, env)
                low = env[1] if mode == 'log' else env[0]
                if not (a <= low if ea else a < low * (1 - eps)):
                    bad = 'the first edge %s the smallest radius and loses its cells' % ('can round above' if a == low else 'lies above')
                if not (z > env[2] if ez else z > env[2] * (1 + eps)):
                    bad = 'the last edge does not lie above the largest radius: its cells are lost'
        except Odd:
            rep.notes.append('%s: the edges are not in a recognised form' % con)
            continue
        rep.ob('edges', con, not bad, wh(f), bad)
        if shells is not NONE:
            k = poly(n)
            rep.ob('edges', con + ' number', k == poly(K(8)), wh(f), '%s edges for 7 shells' % show(n))
