"""Little-h conventions of lengths, volumes and masses: value = physical quantity * h**k.

conv(term) -> (length power, mass power, k) or None when unknown.  Dimensionless numbers are (0, 0, 0).
"""
from common import *
from terms import T, mk, K

SCALAR = (0, 0, 0)
LEN_FUNCS = {'comoving_distance', 'comoving_transverse_distance', 'luminosity_distance', 'angular_diameter_distance', 'lookback_distance'}
SNAP_FIELDS = {'distance_min', 'distance_max', 'transverse_distance_min', 'transverse_distance_max'}
DIMLESS = {'openangle', 'open_angle', 'open angle', 'aspect', 'aspect_ratio', 'aspect ratio', 'copies_max', 'redshift', 'redshift_min', 'redshift_max',
           'minimum redshift', 'maximum redshift', 'minimum_redshift', 'maximum_redshift', 'cosmo_omega_matter', 'cosmo_omega_baryon', 'openradius'}
ATTRS = {'box_edge_h': (1, 0, 1), 'box_edge_no_h': (1, 0, 0), 'h': (0, 0, 1)}
SAME = {'numpy.' + x for x in ('amax', 'amin', 'max', 'min', 'abs', 'absolute', 'fabs', 'sort', 'copy', 'array', 'asarray', 'concatenate', 'sum', 'mean', 'median', 'ptp', 'ravel',
                               'squeeze', 'nanmax', 'nanmin', 'nansum', 'atleast_1d', 'stack', 'vstack', 'hstack', 'transpose', 'unique', 'diff', 'cumsum', 'ceil', 'floor', 'round')} | {
    'builtins.abs', 'builtins.max', 'builtins.min', 'builtins.float', 'builtins.sum', 'builtins.sorted', 'builtins.list', 'builtins.tuple', 'numpy.linalg.norm', 'numpy.linspace', 'numpy.maximum', 'numpy.minimum'}
COMBINE = {'numpy.amax', 'numpy.amin', 'numpy.max', 'numpy.min', 'builtins.max', 'builtins.min', 'numpy.concatenate', 'numpy.array', 'numpy.maximum', 'numpy.minimum', 'numpy.hypot'}
TRIG = {'numpy.' + x for x in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'exp', 'log', 'log10', 'log2', 'deg2rad', 'rad2deg', 'sign', 'argsort', 'digitize', 'arange', 'eye', 'cross', 'zeros', 'ones')} | {'builtins.len', 'builtins.range'}


def mul(a, b, s=1):
    return tuple(x + s * y for x, y in zip(a, b))


INTERP = ('scipy.interpolate.interp1d', 'scipy.interpolate.InterpolatedUnivariateSpline', 'scipy.interpolate.CubicSpline', 'scipy.interpolate.make_interp_spline')


class Fn(object):
    """tabulated function from values of convention x to values of convention y"""
    def __init__(self, x, y):
        self.x, self.y = x, y


class Conv(object):
    def __init__(self, attrs=None, mass='minimum_mass'):
        self.attrs = dict(ATTRS)
        self.attrs.update(attrs or {})
        self.memo = {}
        self.mass = mass
        self.clash = []      # (term, left, right, convA, convB)

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.rec(t)
        self.memo[t] = r
        return r

    def both(self, t, xs):
        """terms added / compared / combined: the common convention"""
        known = [(x, self(x)) for x in xs]
        known = [(x, c) for x, c in known if c is not None]
        for i in range(1, len(known)):
            a, b = known[0], known[i]
            if a[1][:2] == b[1][:2] and a[1][:2] != (0, 0):
                self.clash.append((t, a[0], b[0], a[1], b[1]))
        if len(known) == len(xs) and known:
            dims = [c for _, c in known if c[:2] != (0, 0)]
            return dims[0] if dims else known[0][1]
        if known and all(c == known[0][1] for _, c in known) and known[0][1][:2] != (0, 0):
            return known[0][1]
        return None

    def apply(self, t, x, y, args):
        if args:
            c = self(args[0])
            if c is not None and x is not None and c[:2] == x[:2] != (0, 0):
                self.clash.append((t, args[0], t, c, x))
        return y

    def rec(self, t):
        o = t.op
        if o == 'const':
            return SCALAR if isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) else None
        if o == 'bin':
            op, x, y = t.a
            if op in '+-%' and op != '**':
                return self.both(t, [x, y])
            a, b = self(x), self(y)
            if op == '*':
                return mul(a, b) if a is not None and b is not None else None
            if op in ('/', '//'):
                return mul(a, b, -1) if a is not None and b is not None else None
            if op == '**':
                if a is not None and y.op == 'const' and isinstance(y.a[0], (int, float)):
                    return tuple(v * y.a[0] for v in a)
                return SCALAR if a == SCALAR else None
            return None
        if o == 'un' or o == 'neg':
            return self(t.a[-1])
        if o == 'cmp':
            if t.a[0] in ('<', '<=', '=='):
                self.both(t, [t.a[1], t.a[2]])
            return None
        if o == 'ext':
            if t.a[0] in ('numpy.pi', 'math.pi', 'numpy.newaxis') or t.a[0].startswith('astropy.units'):
                return SCALAR
            return None
        if o == 'attr':
            b, n = t.a
            if n in ('value', 'T', 'real'):
                return self(b)
            if n == 'Mpc' or (b.op == 'ext' and b.a[0].startswith('astropy.units')):
                return SCALAR
            if n in self.attrs:
                return self.attrs[n] if isinstance(self.attrs[n], tuple) else None
            if n in DIMLESS:
                return SCALAR
            if n == self.mass:
                return (0, 1, 1)
            return None
        if o == 'param':
            if t.a[0] in DIMLESS:
                return SCALAR
            if t.a[0] == self.mass:
                return (0, 1, 1)
            return None
        if o == 'sub':
            k = t.a[1]
            if k.op == 'const' and isinstance(k.a[0], str):
                k = k.a[0]
                meta = t.a[0]
                if k == 'cosmo_h':
                    return (0, 0, 1)
                if k == 'box_edge' and not (meta.op == 'attr' and meta.a[1] == 'extra_props'):
                    return (1, 0, 1)
                if k in SNAP_FIELDS:
                    return (1, 0, 1)
                if k in DIMLESS:
                    return SCALAR
                h5 = any(x.op == 'ext' and x.a[0] == 'h5py.File' for x in subterms(meta))
                if h5 and k in ('pos_x', 'pos_y', 'pos_z'):
                    return (1, 0, 1)
                if h5 and k in ('mass', 'min_mass'):
                    return (0, 1, 1)
                return None
            return self(t.a[0])
        if o in ('upd',):
            return self(t.a[2])
        if o in ('list', 'tuple'):
            cs = [self(x) for x in t.a]
            return cs[0] if cs and all(c == cs[0] for c in cs) else None
        if o == 'phi':
            a, b = self(t.a[1]), self(t.a[2])
            return a if a == b else None
        if o == 'each':
            return self(t.a[0])
        if o == 'mu':
            return self(t.a[2])
        if o == 'loop':
            b = self(t.a[3])
            a = self(t.a[2])
            return a if a is not None and (b is None or a == b) else None
        if o == 'mcall':
            n, b, args, kws = t.a
            if n in LEN_FUNCS:
                return (1, 0, 0)
            if n == 'comoving_volume':
                return (3, 0, 0)
            if n in ('min', 'max', 'copy', 'astype', 'flatten', 'ravel', 'sum', 'mean', 'item', 'to', 'reshape', 'squeeze', 'to_value', 'tolist'):
                return self(b)
            if n in ('random', 'uniform', 'integers', 'choice'):
                return SCALAR
            if n == 'return_property':
                nm, c = kw(t, 'property_name', 0), kw(t, 'in_h_units', 2)
                if nm is not None and nm.op == 'const' and c is not None and c.op == 'const':
                    k = 1 if c.a[0] else 0
                    if str(nm.a[0]).startswith('pos_'):
                        return (1, 0, k)
                    if nm.a[0] == 'mass':
                        return (0, 1, k)
                    if nm.a[0] in ('ra', 'dec', 'redshift'):
                        return SCALAR
            fn = self.attrs.get(n)
            if isinstance(fn, Fn):
                return self.apply(t, fn.x, fn.y, args)
            return None
        if o == 'call':
            f = t.a[0]
            args = t.a[1]
            if f.op == 'ext':
                n = f.a[0]
                if n in COMBINE:
                    xs = []
                    for x in args:
                        xs += list(x.a) if x.op in ('list', 'tuple') else [x]
                    if len(xs) > 1 and not (n in ('numpy.amax', 'numpy.amin', 'numpy.max', 'numpy.min') and args[0].op not in ('list', 'tuple')):
                        return self.both(t, xs)
                if n in SAME and args:
                    return self(args[0])
                if n == 'numpy.sqrt' and args:
                    a = self(args[0])
                    return tuple(v / 2 for v in a) if a is not None else None
                if n == 'numpy.prod' and args:
                    return None
                if n in ('numpy.where',) and len(args) == 3:
                    return self.both(t, args[1:])
                if n in ('numpy.matmul', 'numpy.dot', 'numpy.multiply') and len(args) == 2:
                    a, b = self(args[0]), self(args[1])
                    return mul(a, b) if a is not None and b is not None else None
                if n == 'numpy.power' and len(args) == 2:
                    return self(mk('bin', '**', args[0], args[1]))
                if n in TRIG:
                    return SCALAR
                return None
            if f.op == 'call' and is_call(f, *INTERP) and len(f.a[1]) > 1:
                return self.apply(t, self(f.a[1][0]), self(f.a[1][1]), args)
            if f.op == 'attr' and isinstance(self.attrs.get(f.a[1]), Fn):
                fn = self.attrs[f.a[1]]
                return self.apply(t, fn.x, fn.y, args)
            if f.op in ('bm', 'func') and f.a[0].split('.')[-1] == 'return_property':
                d = dict(t.a[2])
                return self(mk('mcall', 'return_property', NONE, (), tuple(sorted(d.items()))))
            return None
        return None


def terms_of(r):
    """every value seen in an analysis result"""
    out = []
    for e in r.events:
        for v in e.__dict__.values() if hasattr(e, '__dict__') else [getattr(e, s, None) for s in e.__slots__]:
            stack = [v]
            while stack:
                x = stack.pop()
                if isinstance(x, T):
                    out.append((e, x))
                elif isinstance(x, (list, tuple)):
                    stack.extend(x)
                elif isinstance(x, dict):
                    stack.extend(x.values())
    return out


def attr_convs(prog, cls, conv):
    """conventions of the attributes a constructor leaves"""
    out = {}
    f = prog.lookup(cls, '__init__')
    for x in normal(result(prog, f, selfcls=cls)):
        for (o, a), loc in x.state.heap.items():
            if o.op == 'param' and o.a[0] == 'self':
                v = x.state.store[loc] if isinstance(loc, int) else loc
                if is_call(v, *INTERP) and len(v.a[1]) > 1:
                    out[a] = Fn(conv(v.a[1][0]), conv(v.a[1][1]))
                else:
                    c = conv(v)
                    if c is not None and c != SCALAR:
                        out[a] = c
    return out
