"""Symbolic state of a Grid and its consistency, for the checks about gridding."""
import itertools
from common import *
from terms import rebuild
from vec import V
import vec as vecs
from axes import Axes, Shapes, U, Rat, rat, atom, name

ATTRS = ('n_properties', 'n_objects', 'center_point', 'n_dimensions', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'fourier_axunits', 'gridunits', 'axes', 'axes_centers', 'fourier_axes',
         'fourier_axes_centers', 'fourier_space', 'grid_active', 'is_power_spectrum', 'grid')
PER_AXIS = ('center_point', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'fourier_axunits', 'axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers', 'fourier_space')


class G(object):
    """a grid whose attributes are symbols tagged `tag`"""

    def __init__(self, n=3, props=2, tag='', fourier=None, active=TRUE, power=FALSE):
        self.n, self.props, self.tag = n, props, tag
        s = lambda a: [P('%s%s%d' % (tag, a, i)) for i in range(n)]
        self.N, self.d, self.c = s('N'), s('d'), s('c')
        self.S = [mk('bin', '*', x, y) for x, y in zip(self.N, self.d)]
        self.A, self.C, self.F, self.FE = s('A'), s('C'), s('F'), s('FE')
        self.u, self.fu = s('u'), s('fu')
        self.g = [P('%sg%d' % (tag, i)) for i in range(props)]
        self.grid = P(tag + 'grid')
        self.heap = dict(n_properties=K(props), n_objects=P(tag + 'nobj'), center_point=V(*self.c), n_dimensions=K(n), side_length=V(*self.S), pixel_size=V(*self.d), n_pixels=V(*self.N),
                         axunits=V(*self.u), fourier_axunits=V(*self.fu), gridunits=V(*self.g), axes=L(*self.A), axes_centers=L(*self.C), fourier_axes=L(*self.FE), fourier_axes_centers=L(*self.F),
                         fourier_space=V(*(fourier or [FALSE] * n)), grid_active=active, is_power_spectrum=power)
        self.heap['grid'] = self.grid

    def arrays(self, ax):
        e = {}
        for i in range(self.n):
            N, d, c = atom(self.N[i]), atom(self.d[i]), atom(self.c[i])
            half = rat(1) * N * d
            lo = c - half * rat(1) * Frac(1, 2)
            e[self.A[i]] = U(lo, d, N + 1)
            e[self.C[i]] = U(lo + d * Frac(1, 2), d, N)
            w = (N * d).inv()
            f0 = -(ax.half(N) * w)
            e[self.F[i]] = U(f0, w, N)
            e[self.FE[i]] = U(f0 - w * Frac(1, 2), w, N + 1)
        return e

    def shapes(self):
        return {self.grid: [atom(x) for x in self.N] + [rat(self.props)]}


def Frac(a, b):
    from fractions import Fraction
    return rat(Fraction(a, b))


class State(object):
    """attribute values of one grid object at an exit"""

    def __init__(self, ex, obj, default=None):
        self.ex, self.obj, self.default = ex, obj, default or {}

    def get(self, a):
        loc = self.ex.state.heap.get((self.obj, a))
        if loc is None:
            return self.default.get(a)
        return self.ex.state.store[loc] if isinstance(loc, int) else loc

    def loc(self, a):
        return self.ex.state.heap.get((self.obj, a))

    def entry(self, a, i, ax=None):
        v = self.get(a)
        if v is not None and v.op == 'phi' and ax is not None:
            v = ax.pick(v)
        return v.a[i] if v is not None and v.op in ('vec', 'list', 'tuple') and i < len(v.a) else None

    def count(self, a):
        v = self.get(a)
        return len(v.a) if v is not None and v.op in ('vec', 'list', 'tuple') else None


def conditions(ts):
    out = []
    seen = set()
    for t in ts:
        for x in sorted(subterms(t), key=lambda z: z.uid):
            if x.op == 'phi':
                for c in basics(x.a[0]):
                    if c not in seen:
                        seen.add(c)
                        out.append(c)
    return out


def basics(c):
    if c.op == 'not':
        return basics(c.a[0])
    return [c]


def choices(ts, guards, limit=64):
    """assignments of the path conditions the values depend on, compatible with the exit's guards"""
    fixed = {}
    for c, p in guards:
        while c.op == 'not':
            c, p = c.a[0], not p
        fixed[c] = p
    free = [c for c in conditions([t for t in ts if t is not None]) if c not in fixed]
    if 2 ** len(free) > limit:
        return None
    out = []
    for v in itertools.product((True, False), repeat=len(free)):
        d = dict(fixed)
        d.update(zip(free, v))
        if consistent(d):
            out.append(d)
    return out


def consistent(d):
    """no comparison of the same terms with contradicting outcomes"""
    for c, p in d.items():
        if c.op == 'or' and not p and any(d.get(x) is True for x in c.a):
            return False
        if c.op == 'and' and p and any(d.get(x) is False for x in c.a):
            return False
    return True


def solve(r, prefer):
    """(atom, value) making r zero"""
    cand = sorted(r.atoms(), key=lambda t: (t in prefer, t.uid))
    for t in cand:
        a, b = {}, {}
        ok = True
        for k, v in r.n.items():
            e = dict(k).get(t, 0)
            if e == 0:
                b[k] = v
            elif e == 1:
                a[tuple(x for x in k if x[0] is not t)] = v
            else:
                ok = False
        if not ok or not a or any(dict(k).get(t) for k in r.d):
            continue
        return t, -(Rat(b) * Rat(a).inv())
    return None


def facts(ax, choose, integers):
    """substitutions implied by the chosen conditions"""
    env = {}
    from flow import conj
    for c, p in choose.items():
        for x, q in conj(c, p):
            eq = None
            if x.op == 'cmp' and x.a[0] == '==' and q:
                a, b = ax.scalar(x.a[1]), ax.scalar(x.a[2])
                if a is not None and b is not None:
                    eq = a - b
            if eq is None:
                continue
            eq = eq.subst(env)
            if eq is None or eq.zero():
                continue
            if eq.const() is not None:
                return None           # cannot happen
            s = solve(eq, integers)
            if s is not None:
                v = s[1]
                env = {k: (w.subst({s[0]: v}) if w.subst({s[0]: v}) is not None else w) for k, w in env.items()}
                env[s[0]] = v
    return env


class View(object):
    """one consistent choice of conditions at an exit, with values evaluated under it"""

    def __init__(self, grids, choose, integers=(), extra=None, shapes=None):
        ints = set(integers)
        for g in grids:
            ints |= set(g.N)
        self.ax = Axes({}, ints, choose)
        for g in grids:
            self.ax.env.update(g.arrays(self.ax))
        self.ax.env.update(extra or {})
        sh = dict(shapes or {})
        for g in grids:
            sh.update(g.shapes())
        self.sh = Shapes(self.ax, sh)
        f = facts(self.ax, choose, ints)
        self.possible = f is not None
        self.env = f or {}

    def same(self, a, b):
        if a is None or b is None:
            return None
        d = (a - b).subst(self.env)
        return None if d is None else d.zero()

    def sameu(self, a, b):
        if a is None or b is None:
            return None
        r = [self.same(a.start, b.start), self.same(a.count, b.count)]
        if a.step is not None and b.step is not None and not self.same(a.count, rat(1)):
            r.append(self.same(a.step, b.step))
        return None if None in r else all(r)


RULES = {
    'side-length': ('the side length of an axis is its number of cells times its cell size', 12),
    'cell-edges': ('cell edges start half a side below the centre and are one cell apart', 12),
    'cell-centres': ('cell centres lie half a cell above the lower edges', 12),
    'fourier-centres': ('Fourier coordinates follow from the cell count and cell size in force', 12),
    'fourier-edges': ('Fourier cell edges lie half a Fourier cell around the Fourier coordinates', 12),
    'data-shape': ('the data array has as many cells along each axis as the pixel counts say', 8),
    'axis-lists': ('every axis description has one entry per axis', 12),
}


def consistency(rep, where, con, st, ex, grids, integers=(), extra=None, shapes=None, active=True, skip=()):
    """obligations that the descriptions of a grid describe one box"""
    vals = [st.get(a) for a in ATTRS]
    nd = const(st.get('n_dimensions'))
    if not isinstance(nd, int):
        return 0
    ch = choices(vals, ex.guards)
    if ch is None:
        return 0
    for a in PER_AXIS:
        k = st.count(a)
        if k is not None:
            rep.ob('axis-lists', '%s %s' % (con, a), k == nd, where, '%s has %d entries for %d axes' % (a, k, nd))
    total = 0
    for d in ch:
        v = View(grids, d, integers, extra, shapes)
        if not v.possible:
            continue
        ax = v.ax
        shape = None
        if active and st.get('grid') is not None:
            shape = v.sh.of(st.get('grid'))
            if shape is not None and 'shape' not in skip:
                rep.ob('data-shape', con + ' dimensions', len(shape) == nd + 1, where, 'the data array has %d dimensions for %d axes and the properties' % (len(shape), nd))
        for i in range(nd):
            sc = lambda a: ax.scalar(st.entry(a, i, ax)) if st.entry(a, i, ax) is not None else None
            n, dx, S, c = sc('n_pixels'), sc('pixel_size'), sc('side_length'), sc('center_point')
            ar = lambda a: ax.array(st.entry(a, i, ax)) if st.entry(a, i, ax) is not None else None

            def ob(rule, ok, msg):
                if ok is not None:
                    rep.ob(rule, '%s axis %d' % (con, i), ok, where, msg)
                    return 1
                return 0
            if None in (n, dx, S):
                continue
            total += ob('side-length', v.same(S, n * dx), 'side length %r, %r cells of size %r' % (S, n, dx))
            if c is not None:
                lo = c - S * Frac(1, 2)
                e, m = ar('axes'), ar('axes_centers')
                total += ob('cell-edges', v.sameu(e, U(lo, dx, n + 1)), 'edges run %r; centre %r, side %r, cell %r' % (e, c, S, dx))
                total += ob('cell-centres', v.sameu(m, U(lo + dx * Frac(1, 2), dx, n)), 'centres run %r; centre %r, side %r, cell %r' % (m, c, S, dx))
            w = (n * dx).inv()
            f, fe = ar('fourier_axes_centers'), ar('fourier_axes')
            if w is not None and f is not None and f.step is not None:
                total += ob('fourier-centres', both(v.same(f.step, w), v.same(f.count, n), fstart(v, f, n, w)), 'Fourier coordinates run %r; %r cells of size %r' % (f, n, dx))
            if w is not None and fe is not None and fe.step is not None:
                total += ob('fourier-edges', both(v.same(fe.step, w), v.same(fe.count, n + 1), v.same(fe.start, f.start - w * Frac(1, 2)) if f is not None else None),
                            'Fourier edges run %r; Fourier coordinates run %r; %r cells of size %r' % (fe, f, n, dx))
            if shape is not None and i < len(shape) and shape[i] is not None and 'shape' not in skip:
                total += ob('data-shape', v.same(shape[i], n), 'the data has %r cells along axis %d, the pixel count is %r' % (shape[i], i, n))
    return total


def fstart(v, f, n, w):
    r = v.same(f.start, -(v.ax.half(n) * w))
    return r if r else None      # written differently: only steps and counts are compared


def both(*r):
    r = [x for x in r if x is not None]
    return all(r) if r else None


def grid_spec(prog, meth, g, binds, cls='Grid', others=(), **k):
    c = prog.cls(cls)
    f = prog.lookup(c, meth)
    pre = dict(k.pop('preset', {}))
    types = dict(k.pop('types', None) or {})
    for t, o in others:
        types.setdefault(t.a[0], prog.cls('Grid').qual)
        for a, v in o.heap.items():
            pre[(t, a)] = v
    r = spec(prog, f, binds, g.heap if g is not None else None, selfcls=c, vec=True, preset=pre, types=types, **k)
    return f, r


def stored(t):
    """objects whose storage the value surely shares: the value is one of them or a basic slice of it"""
    if t.op in ('param', 'new', 'obj'):
        return {t}
    if t.op == 'sub':
        i = t.a[1].a if t.a[1].op in ('tuple', 'vec') else (t.a[1],)
        basic = lambda x: x.op == 'slice' or x.op == 'const' and (x.a[0] is Ellipsis or x.a[0] is None or type(x.a[0]) is int) or x.op == 'ext' and x.a[0] == 'numpy.newaxis'
        if all(basic(x) for x in i) and any(x.op == 'slice' or x.op == 'const' and x.a[0] is Ellipsis for x in i):
            return stored(t.a[0])
        return set()
    if t.op == 'phi':
        return stored(t.a[1]) | stored(t.a[2])
    if t.op in ('upd', 'mut'):
        return stored(t.a[0])
    if t.op == 'mcall' and t.a[0] in ('view', 'transpose', 'swapaxes', 'squeeze'):
        return stored(t.a[1])
    if t.op == 'attr' and t.a[1] in ('T', 'real', 'imag'):
        return stored(t.a[0])
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.asarray', 'numpy.asanyarray', 'numpy.expand_dims', 'numpy.moveaxis', 'numpy.swapaxes', 'numpy.transpose', 'numpy.squeeze') and t.a[1]:
        return stored(t.a[1][0])
    return set()


def written(r, owned):
    """writes into storage of one of the given objects: [(event, objects)]"""
    out = []
    for e in r.events:
        if e.kind in ('aug', 'setsub', 'mutate') and isinstance(e.base, T):
            got = stored(e.base) & owned
            if got:
                out.append((e, got))
    return out
