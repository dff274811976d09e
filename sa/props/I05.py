"""Built-in responses, beams and noise have the centre, width, height and scatter their parameters name."""
import math
from fractions import Fraction
from common import *
from vec import V, ENTRIES
import vec as vecs
import calc
from calc import Unknown
from axes import karg, name

ASSUMPTIONS = [
    'the built-in functions are those of the instrument package; numpy element-wise functions and Generator.normal behave as documented',
    'two closed expressions are taken to be different only when they also differ numerically at sample values',
    'the width of a beam scales as the documented formula says, (freq0/freq) to the power freq_exp, whatever exponent suits a telescope',
]
X = lambda n: mk('ext', n)
SAMPLE = [dict(zip(range(12), v)) for v in ((1.7, .6, 2.3, .9, 1.3, .4, .8, 1.9, 1.1, .7, 2.1, 1.5), (.3, 1.4, .7, 2.2, .5, 1.8, 1.2, .6, 2.7, 1.6, .9, .35), (3.1, 2.2, 1.9, .7, 2.6, .9, .5, 1.3, .45, 2.4, 1.7, .8))]


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def val(t, env):
    """numeric value of an element-wise term"""
    o = t.op
    if t in env:
        return env[t]
    if o == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return float(t.a[0])
    if o == 'neg':
        return -val(t.a[0], env)
    if o == 'ext' and t.a[0] in ('numpy.pi', 'math.pi'):
        return math.pi
    if o == 'bin':
        a, b = val(t.a[1], env), val(t.a[2], env)
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[t.a[0]]()
        except (KeyError, ArithmeticError):
            raise Unknown
    if o == 'call' and t.a[0].op == 'ext' and not t.a[2]:
        n, a = t.a[0].a[0].split('.', 1)[-1], t.a[1]
        fns = {'exp': math.exp, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'sqrt': math.sqrt, 'square': lambda x: x * x, 'abs': abs, 'exp2': lambda x: 2 ** x, 'negative': lambda x: -x, 'float': float,
               'power': lambda x, y: x ** y, 'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y, 'subtract': lambda x, y: x - y, 'add': lambda x, y: x + y}
        if n in fns and len(a) in (1, 2):
            try:
                return fns[n](*[val(x, env) for x in a])
            except (TypeError, ArithmeticError, ValueError):
                raise Unknown
    if o == 'call' and t.a[0].op == 'ext' and t.a[1] and t.a[0].a[0] in ('numpy.ones', 'numpy.ones_like'):
        return 1.
    if o == 'call' and t.a[0].op == 'ext' and t.a[1] and t.a[0].a[0] in ('numpy.zeros', 'numpy.zeros_like'):
        return 0.
    raise Unknown


def flat(t, along, shape=None):
    """t without rearrangements; along collects at which axis the entries of a parameter lie"""
    memo = {}

    def go(t):
        if t not in memo:
            memo[t] = step(t)
        return memo[t]

    def step(t):
        if t.op == 'mcall' and t.a[0] == 'reshape':
            sh = vecs.flat(t.a[2][0]) if len(t.a[2]) == 1 else list(t.a[2])
            b = go(t.a[1])
            if sh is not None and len(sh) == 1:
                return b
            if sh is not None and len(sh) == 3:
                k = [i for i, y in enumerate(sh) if y is not K(1)]
                if len(k) == 1:
                    along.append((frozenset(z.a[0] for z in subterms(b) if z.op == 'param'), k[0]))
                    return b
            raise Unknown
        if t.op == 'sub' and t.a[1].op in ('tuple', 'vec') and len(t.a[1].a) == 3:
            full = [x.op == 'slice' and all(is_const(z, None) for z in x.a) for x in t.a[1].a]
            new = [is_const(x, None) or x.op == 'ext' and x.a[0] == 'numpy.newaxis' for x in t.a[1].a]
            if sum(full) == 1 and all(a or b for a, b in zip(full, new)):
                b = go(t.a[0])
                along.append((frozenset(z.a[0] for z in subterms(b) if z.op == 'param'), full.index(True)))
                return b
            raise Unknown
        if t.op == 'mcall' and t.a[0] in ('copy', 'astype', 'flatten', 'ravel'):
            return go(t.a[1])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.copy') and t.a[1]:
            return go(t.a[1][0])
        if t.op == 'phi':
            a, b = go(t.a[1]), go(t.a[2])
            if a is b:
                return a
            raise Unknown
        if t.op == 'bin':
            return mk('bin', t.a[0], go(t.a[1]), go(t.a[2]))
        if t.op == 'neg':
            return mk('neg', go(t.a[0]))
        if t.op == 'call' and t.a[0].op == 'ext':
            if t.a[0].a[0] in ('numpy.ones', 'numpy.zeros', 'numpy.ones_like', 'numpy.zeros_like'):
                return t
            return mk('call', t.a[0], tuple(go(x) for x in t.a[1]), t.a[2])
        return t
    return go(t)


def result_of(prog, f, **b):
    """the value f returns; arrays given are one-dimensional arrays already"""
    bind = {p: P(p) for p in f.params}
    bind.update(b)
    arr = lambda a, k: TRUE if len(a) == 2 and a[0] in (P('freq'), P('dx'), P('dy')) and a[1] is X('numpy.ndarray') else None
    r = spec(prog, f, bind, vec=True, models={X('builtins.isinstance'): arr, X('numpy.ndim'): lambda a, k: K(1) if a and a[0].op == 'param' else None}, preset={(P(n), 'ndim'): K(1) for n in ('freq', 'dx', 'dy')})
    vs = {x.value for x in normal(r)}
    return (r, vs.pop()) if len(vs) == 1 else (r, None)


def differ(t, want, names):
    """a sample where the term and want(env) differ, None when none does"""
    for s in SAMPLE:
        env = {P(n): s[i] for i, n in enumerate(names)}
        d = {n: s[i] for i, n in enumerate(names)}
        a, b = val(t, env), want(d)
        if isinstance(a, complex) or abs(a - b) > 1e-4 * max(abs(a), abs(b), 1e-12):
            return d
    return None


def text(d):
    return ', '.join('%s=%g' % i for i in sorted(d.items()))


def check(prog, rep):
    rep.rule('response', 'a spectral response has the height, centre and width it is given', 0)
    rep.rule('beam', 'a beam is one at its centre and a half at half the width it is given, along the axis it is given for', 0)
    rep.rule('axes', 'a beam lays the first spatial coordinate along the first axis, the second along the second and frequency along the third', 0)
    rep.rule('noise', 'noise has the number of samples, centre and scatter its parameters give', 0)
    by = {}
    for f in prog.funcs.values():
        if f.cls is None and f.module.name.split('.')[-1] in ('spectral_response', 'spatial_response', 'noise_functions'):
            by[f.name] = f
    ex = lambda x, w: math.exp(-4 * math.log(2) * x * x / w / w)

    def gaussian():
        f = by['gauss_response']
        r, v = result_of(prog, f)
        t = flat(v, [])
        d = differ(t, lambda e: e['A'] * ex(e['freq'] - e['freq0'], e['fwhm']), ['freq', 'A', 'freq0', 'fwhm'])
        rep.ob('response', 'gauss_response', d is None, wh(f), 'for %s it is not A at freq0, falling to half at half the width' % text(d or {}))

    def boxcar():
        f = by['boxcar_response']
        r, v = result_of(prog, f)
        bad = None
        for freq0, w, A in ((10., 4., 2.), (3., 1., .5)):
            for off in (-3., -.6, -.45, -.5, 0., .1, .5, .45, .51, 2.):
                env = {P('freq'): freq0 + off * w, P('freq0'): freq0, P('width'): w, P('A'): A}
                got = pick(v, env)
                want = A if abs(off) < .5 else 0
                if abs(off) != .5 and abs(got - want) > 1e-9:
                    bad = 'at %g widths from freq0 it is %g, not %g' % (off, got, want)
        rep.ob('response', 'boxcar_response', bad is None, wh(f), bad or '')

    def psf(n, fq):
        f = by[n]
        r, v = result_of(prog, f)
        along = []
        t = flat(v, along)
        names = ['dx', 'dy', 'freq', 'fwhmx', 'fwhmy', 'cx', 'cy'] + (['freq0', 'freq_exp'] if fq else [])

        def want(sign):
            def go(e):
                k = (e['freq'] / e['freq0']) ** (sign * e['freq_exp']) if fq else 1.
                return ex(e['dx'] - e['cx'], e['fwhmx'] * k) * ex(e['dy'] - e['cy'], e['fwhmy'] * k)
            return go
        ds = [differ(t, want(s), names) for s in (-1,)]
        rep.ob('beam', n, None in ds, wh(f), 'for %s it is not a beam of the widths given' % text(ds[0] or {}))
        place = {'dx': 0, 'dy': 1, 'freq': 2}
        for z in sorted((z for z in subterms(v) if is_call(z, 'numpy.ones') and z.a[1]), key=lambda z: z.uid):
            sh = vecs.flat(z.a[1][0])
            if sh is not None and len(sh) == 3:
                along.extend((frozenset(q.a[0] for q in subterms(y) if q.op == 'param'), i) for i, y in enumerate(sh) if y is not K(1))
        for ps, k in along:
            for p in sorted(ps & set(place)):
                if len(ps & set(place)) == 1:
                    rep.ob('axes', '%s %s' % (n, p), place[p] == k, wh(f), '%s runs along axis %d' % (p, k))

    def noise(n):
        f = by[n]
        r, v = result_of(prog, f, rng=mk('obj', 'rng'))
        if n == 'zero_noise':
            if is_call(v, 'numpy.zeros') and v.a[1]:
                rep.ob('noise', n, v.a[1][0] is P('Nsamples'), wh(f), 'it has %s samples' % show(v.a[1][0]))
            return
        ts = [v] if v.op != 'phi' else [v.a[1], v.a[2]]
        for t in ts:
            shift, scale = lambda x: x, 1.
            env = None
            draws = [s for s in subterms(t) if s.op == 'mcall' and s.a[0] in ('normal', 'standard_normal')]
            if len(draws) != 1:
                raise Unknown
            d = draws[0]
            loc, sc, size = (karg(d, 'loc', 0) or K(0), karg(d, 'scale', 1) or K(1), karg(d, 'size', 2)) if d.a[0] == 'normal' else (K(0), K(1), karg(d, 'size', 0))
            if size is not None:
                rep.ob('noise', n + ' samples', size is P('Nsamples') or size.op in ('tuple', 'list') and len(size.a) == 1 and size.a[0] is P('Nsamples'), wh(f), 'it has %s samples' % show(size))
            bad = None
            for s in SAMPLE:
                e = {P('dt'): s[0], P('rms'): s[1], P('bias'): s[2]}
                at = lambda z: val(t, {**e, d: z})
                m0, s0 = val(loc, e), val(sc, e)
                mean, width = at(m0), abs(at(m0 + s0) - at(m0))
                if abs(mean - s[2]) > 1e-6 * abs(s[2]):
                    bad = 'its centre is %g for a bias of %g' % (mean, s[2])
                if abs(width - s[1] / math.sqrt(s[0])) > 1e-6 * width:
                    bad = 'its scatter is %g for an rms of %g per root second and samples of %g seconds' % (width, s[1], s[0])
            rep.ob('noise', n, bad is None, wh(f), bad or '')
    for n, go in (('gauss_response', gaussian), ('boxcar_response', boxcar), ('gauss_psf', lambda: psf('gauss_psf', False)), ('gauss_psf_freq_dependent', lambda: psf('gauss_psf_freq_dependent', True)),
                  ('zero_noise', lambda: noise('zero_noise')), ('white_noise', lambda: noise('white_noise'))):
        if n not in by:
            continue
        rep.saw(by[n])
        try:
            go()
        except (Unknown, AttributeError, KeyError, OverflowError):
            rep.notes.append('%s is not in a recognised form' % n)


def truth(c, env):
    if c.op == 'cmp' and c.a[0] in ('<', '<=', '>', '>=', '==', '!='):
        a, b = val(flat(c.a[1], []), env), val(flat(c.a[2], []), env)
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[c.a[0]]
    if c.op == 'not':
        return not truth(c.a[0], env)
    if c.op in ('and', 'or'):
        v = [truth(x, env) for x in c.a]
        return all(v) if c.op == 'and' else any(v)
    if c.op == 'bin' and c.a[0] in ('&', '|'):
        a, b = truth(c.a[1], env), truth(c.a[2], env)
        return a and b if c.a[0] == '&' else a or b
    if is_call(c, 'numpy.logical_and', 'numpy.logical_or') and len(c.a[1]) == 2:
        a, b = [truth(x, env) for x in c.a[1]]
        return a and b if name(c) == 'numpy.logical_and' else a or b
    raise Unknown


def pick(t, env):
    """value of an array entry that may be set under a mask"""
    if t.op == 'upd':
        i = t.a[1]
        while is_call(i, 'numpy.nonzero', 'numpy.where') and len(i.a[1]) == 1 or i.op == 'sub' and is_const(i.a[1], 0):
            i = i.a[1][0] if i.op == 'call' else i.a[0]
        return pick(t.a[2], env) if truth(i, env) else pick(t.a[0], env)
    if is_call(t, 'numpy.where') and len(t.a[1]) == 3:
        return pick(t.a[1][1], env) if truth(t.a[1][0], env) else pick(t.a[1][2], env)
    if t.op == 'phi':
        a, b = pick(t.a[1], env), pick(t.a[2], env)
        if a == b:
            return a
        raise Unknown
    if t.op == 'bin' and t.a[0] == '*':
        for m, o in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if m.op in ('cmp', 'and', 'or') or m.op == 'bin' and m.a[0] in '&|':
                return pick(o, env) if truth(m, env) else 0.
        return pick(t.a[1], env) * pick(t.a[2], env)
    return val(flat(t, []), env)
