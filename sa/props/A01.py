"""Luminosity distributions agree with themselves; abundance matching pairs equal fractions."""
import math
from common import *
from flow import Interp
from vec import V, ENTRIES
import calc
from calc import expr, equal, entry, Unknown, Mismatch
import concrete

ASSUMPTIONS = [
    'scipy.special.gammaincc, gamma, expi and scipy.stats have their documented meaning; parameters are positive where the functions require it',
    'one set of parameters per distribution, as single values or as arrays repeating them; slopes take representative values between -2.75 and 0.5',
    'functions tabulated on a logarithmic grid are compared on the grid, within one step of it',
]
X = lambda n: mk('ext', n)
ALPHAS = (.5, -.5, -1., -1.25, -2., -2.75)
# representative point of the parameter space; x above and w below the lower limit
POINT = {'x0': 3., 'xmin': 1., 'x': 2., 'w': .5, 'g1': 2.5, 'g2': 6., 'g3': 30., 'sigma': .5}


def value(t, env):
    """value of a term at the representative point of a region"""
    o = t.op
    if t in env:
        return env[t]
    if o == 'const' and isinstance(t.a[0], (int, float)):
        return t.a[0]
    if o == 'param' and t.a[0] in POINT:
        return POINT[t.a[0]]
    if o == 'param':
        return 1.7
    if o == 'neg':
        return -value(t.a[0], env)
    if o == 'bin':
        a, b = value(t.a[1], env), value(t.a[2], env)
        if t.a[0] in ('&', '|'):
            return bool(a) and bool(b) if t.a[0] == '&' else bool(a) or bool(b)
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b, '%': lambda: a % b}[t.a[0]]()
        except (KeyError, ArithmeticError, TypeError):
            raise Unknown
    if o == 'call' and t.a[0].op == 'ext' and len(t.a[1]) == 1 and not t.a[2] and t.a[0].a[0].split('.')[-1] in ('log10', 'log', 'exp', 'sqrt'):
        try:
            return getattr(math, t.a[0].a[0].split('.')[-1])(value(t.a[1][0], env))
        except ValueError:
            raise Unknown
    if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.isnan', 'numpy.isfinite', 'numpy.isinf'):
        v = value(t.a[1][0], env)
        return getattr(math, t.a[0].a[0][6:])(v)
    if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in DIST and len(t.a[1]) == 1:
        return DIST[t.a[0].a[0]](value(t.a[1][0], env))
    if o == 'attr' and t.a[1] in ('ndim', 'size'):
        x = t.a[0]
        if is_call(x) and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray') and len(x.a[1]) == 1:
            x = x.a[1][0]
        n = calc.length(x, deciding(env))
        return (0 if n is None else 1) if t.a[1] == 'ndim' else n or 1
    if o == 'ext' and t.a[0] == 'numpy.inf':
        return math.inf
    if o == 'cmp':
        a, b = value(t.a[1], env), value(t.a[2], env)
        return {'<': a < b, '<=': a <= b, '==': a == b, 'is': a == b}.get(t.a[0], None)
    if o == 'not':
        return not value(t.a[0], env)
    if o in ('and', 'or'):
        v = [value(x, env) for x in t.a]
        return all(v) if o == 'and' else any(v)
    raise Unknown


def deciding(env):
    def truth(c):
        v = value(c, env)
        if v is None:
            raise Unknown
        return bool(v)
    return truth


TRUTH = deciding({})


def entries(t):
    n = calc.length(t, TRUTH)
    return None if n is None else [entry(t, i, TRUTH) for i in range(n)]


def grid(a):
    """entries of the logarithmic grid a distribution is tabulated on"""
    lo = a[0]
    lo = entries(lo)[0] if calc.length(lo, TRUTH) else entry(lo, 0, TRUTH)
    if is_call(lo, 'numpy.log10') and len(lo.a[1]) == 1:
        first = lo.a[1][0]
        ENTRIES.update([first])
        return V(first, P('g1'), P('g2'), P('g3'))
    return None


def models():
    m = concrete.models()
    m[X('numpy.logspace')] = lambda a, k: guard(lambda: grid(a)) if len(a) >= 2 else None

    def geom(a, k):
        if len(a) < 2:
            return None
        return guard(lambda: V(entry(a[0], 0, TRUTH), P('g1'), P('g2'), P('g3')))
    m[X('numpy.geomspace')] = geom

    def cumsum(a, k):
        xs = guard(lambda: entries(a[0]))
        if not xs or len(a) != 1 or k:
            return None
        out = [xs[0]]
        for x in xs[1:]:
            out.append(mk('bin', '+', out[-1], x))
        return V(*out)
    m[X('numpy.cumsum')] = cumsum

    def interp(a, k):
        if len(a) != 3 or k:
            return None
        xp, fp = (guard(lambda: entries(t)) for t in a[1:])
        if not xp or not fp or len(xp) != len(fp):
            return None
        def at(x):
            r = dict(zip(xp, fp)).get(x)
            if r is None:
                r = mk('call', X('numpy.interp'), (x, V(*xp), V(*fp)), ())
            ENTRIES.add(r)
            return r
        xs = guard(lambda: entries(a[0]))
        if xs is None:
            x = guard(lambda: entry(a[0], 0, TRUTH))
            return at(x) if x is not None else None
        return V(*[at(x) for x in xs])
    m[X('numpy.interp')] = interp
    def larger(sign):
        def pick(a, k):
            if len(a) != 2 or k:
                return None
            xs, ys = (guard(lambda: entries(t)) for t in a)
            if not xs or not ys or len(xs) != len(ys):
                return None
            try:
                return V(*[x if (value(x, {}) - value(y, {})) * sign >= 0 else y for x, y in zip(xs, ys)])
            except (Unknown, TypeError):
                return None
        return pick
    m[X('numpy.maximum')], m[X('numpy.minimum')] = larger(1), larger(-1)
    old = m[X('numpy.asarray')]
    m[X('numpy.asarray')] = lambda a, k: a[0] if len(a) == 1 and a[0].op == 'param' and a[0] in ENTRIES else old(a, k)
    return m


def guard(f):
    try:
        return f()
    except (Unknown, IndexError):
        return None


class Family(object):
    """one distribution class with one set of parameters"""

    def __init__(self, prog, cls, pars, wide=1):
        self.prog, self.cls, self.pars, self.wide = prog, cls, pars, wide
        ENTRIES.update(x for v in pars.values() for x in v.a)

    def run(self, name, **b):
        f = self.prog.lookup(self.cls, name)
        if f is None:
            return None
        it = Interp(self.prog, inline=lambda a, b: True, depth=8, unroll=32)
        it.exact = it.vec = True
        it.models = models()
        if name not in ('lum_function', 'lum_function_int'):
            # a single parameter set behaves as arrays of one entry
            for n in ('lum_function', 'lum_function_int'):
                g = self.prog.lookup(self.cls, n)
                it.models[('func', g.qual)] = self.of_one(n)
        it.preset = {(P(n), 'ndim'): K(0) for n in ('x', 'w')}
        r = it.run(f, bind=dict(self.pars, **b), selfcls=self.cls)
        if not r.exits or any(x.kind not in ('return', 'fall') for x in r.exits) or len(r.exits) != 1:
            return None
        return r.exits[0].value

    def of_one(self, name):
        def call(b):
            b = {k: v for k, v in b.items() if k != 'self'}
            if not any(b.get(k) is not v and v.a == (b.get(k),) for k, v in self.pars.items()):
                return None
            return self.run(name, **{k: V(v) if v.op in ('param', 'const') else v for k, v in b.items()})
        return call

    def at(self, name, x, i=0, **k):
        """value of a method at a place, as an expression"""
        t = self.run(name, **dict({'x': x}, **k))
        if t is None:
            raise Unknown
        return expr(entry(t, i, TRUTH))


def number(e):
    return calc.constant(e)


def distributions(prog, rep):
    for cls in sorted(prog.classes.values(), key=lambda c: c.name):
        fs = {n: prog.lookup(cls, n) for n in ('lum_function', 'lum_function_int', '_pdf', '_cdf', '_ppf')}
        if fs['lum_function'] is None or fs['lum_function_int'] is None:
            continue
        for f in fs.values():
            if f is not None:
                rep.saw(f)
        names = [p for p in fs['lum_function'].params if p not in ('self', 'x')]
        slopes = [p for p in names if p.startswith(('alpha', 'beta'))]
        ENTRIES.update(P(n) for n in ('x', 'w', 'c', 'd', 'g1', 'g2', 'g3', 'y'))
        for k, al in enumerate(ALPHAS):
            vals = {s: ALPHAS[(k + 2 * j) % len(ALPHAS)] for j, s in enumerate(slopes)}
            pars = {n: V(K(vals[n])) if n in vals else V(P(n)) for n in names}
            con = '%s %s' % (cls.name, ', '.join('%s=%s' % kv for kv in sorted(vals.items())))
            one(prog, rep, cls, fs, Family(prog, cls, pars), con)
        # arrays of parameters, each slope at its own place
        n = len(ALPHAS)
        pars = {p: V(*[K(ALPHAS[(i + 2 * slopes.index(p)) % n]) if p in slopes else P(p) for i in range(n)]) for p in names}
        mixed(prog, rep, cls, fs, Family(prog, cls, pars, n), '%s, array of slopes' % cls.name, n)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def judge(rep, rule, con, f, what, test):
    try:
        ok = test()
    except Mismatch as x:
        rep.ob(rule, con, False, wh(f), str(x))
        return
    except Exception as x:
        if not isinstance(x, (Unknown, IndexError, KeyError, ZeroDivisionError, OverflowError)):
            raise
        rep.notes.append('%s: %s not followed' % (rule, con))
        return
    rep.ob(rule, con, ok, wh(f), what)


def integral(f, fam, name, x, i=0):
    """d/dx of the integral is minus the luminosity function, and it ends at nothing"""
    I = fam.at(name, x, i)
    L = fam.at('lum_function', x, i)
    v = x.a[i] if x.op == 'vec' else x
    return equal(calc.diff(I, v), calc.mul(calc.num(-1), L))


def ends(fam, x, i=0):
    I = fam.at('lum_function_int', x, i)
    v = x.a[i] if x.op == 'vec' else x

    def falls(b, p):
        if b == ('e',):
            return calc.has(p, v) and all(c < 0 for c in dict(p).values())
        return isinstance(b, tuple) and b[0] == 'fn' and b[1].split('.')[-1] in ('gammaincc', 'expi', 'exp1', 'erfc') and any(calc.has(q, v) for q in b[2:])
    return all(any(falls(b, p) for b, p in m) for m in I)


def tabulated(fam):
    f = fam.prog.lookup(fam.cls, 'lum_function_int')
    from program import Program
    t = fam.run('lum_function_int', x=V(P('x')))
    return t is not None and any(is_call(s, 'numpy.interp') for s in subterms(t))


def one(prog, rep, cls, fs, fam, con):
    xs, ws, lim = V(P('x')), V(P('w')), V(P('xmin'))
    tab = tabulated(fam)
    N = lambda: fam.at('lum_function_int', lim)
    I = fs['lum_function_int']
    for t, w in ((xs, 'arrays'), (P('x'), 'single values')):
        if not tab:
            judge(rep, 'integral', '%s, %s' % (con, w), I, 'the integral does not have the luminosity function as its derivative', lambda: integral(I, fam, 'lum_function_int', t))
            judge(rep, 'integral', '%s, %s, to infinity' % (con, w), I, 'the integral does not vanish at infinity', lambda: ends(fam, t))
    for t, w in ((ws, 'arrays'), (P('w'), 'single values')):
        if not tab:
            judge(rep, 'limit', '%s, integral, %s' % (con, w), I, 'the integral from below the lower limit is not that of the whole function', lambda: equal(fam.at('lum_function_int', t), N()))
            judge(rep, 'limit', '%s, function, %s' % (con, w), fs['lum_function'], 'the luminosity function is not zero below the lower limit', lambda: equal(fam.at('lum_function', t), {}))
    judge(rep, 'limit', '%s, function' % con, fs['lum_function'], 'the luminosity function is not zero below the lower limit', lambda: equal(fam.at('lum_function', ws), {}))
    g = [P('xmin'), P('g1'), P('g2'), P('g3')]
    if tab:
        def steps():
            s = [fam.at('lum_function_int', V(v)) for v in g]
            l = [fam.at('lum_function', V(v)) for v in g]
            w = add_log(g[1], g[0])
            return all(any(equal(calc.add(s[k], s[k + 1], -1), calc.mul(x, w)) for x in (l[k], l[k + 1], calc.mul(calc.add(l[k], l[k + 1]), calc.num(1) if False else calc.inv(calc.num(2))))) for k in range(3))
        judge(rep, 'integral', con + ', table', I, 'the integral does not fall by the luminosity function times the step of the table', steps)
    if fs['_pdf'] is not None:
        judge(rep, 'density', con, fs['_pdf'], 'the probability density is not the luminosity function divided by its integral', lambda: equal(calc.mul(fam.at('_pdf', xs), N()), fam.at('lum_function', xs)))
        judge(rep, 'limit', con + ', density', fs['_pdf'], 'the probability density is not zero below the lower limit', lambda: equal(fam.at('_pdf', ws), {}))
    places = [V(v) for v in (g[1:] if tab else [P('x')])]
    if fs['_cdf'] is not None:
        for p in places:
            judge(rep, 'cumulative', '%s at %s' % (con, show(p.a[0])), fs['_cdf'], 'the cumulative distribution is not one minus the fraction of the integral above a value',
                  lambda: equal(calc.mul(calc.add(calc.ONE, fam.at('_cdf', p), -1), N()), fam.at('lum_function_int', p)))
        judge(rep, 'limit', con + ', cumulative', fs['_cdf'], 'the cumulative distribution is not zero below the lower limit', lambda: equal(fam.at('_cdf', ws), {}))
    if fs['_ppf'] is not None:
        def quantile():
            t = fam.run('_ppf', cdf=V(P('c'), P('d')))
            if t is None:
                raise Unknown
            e = entry(t, 1, TRUTH)
            if not is_call(e, 'numpy.interp') or len(e.a[1]) != 3 or e.a[1][0] is not P('d'):
                raise Unknown
            ys, gs = e.a[1][1].a, e.a[1][2].a
            if ys and all(v in g for v in ys):
                return False
            if any(v not in g for v in gs):
                raise Unknown
            for k, (y, v) in enumerate(zip(ys, gs)):
                F = lambda v: calc.add(calc.ONE, calc.mul(fam.at('lum_function_int', V(v)), calc.inv(N())), -1)
                ok = equal(expr(y), F(v))
                if not ok and tab:
                    ok = equal(expr(y), F(gs[k + 1])) if k + 1 < len(gs) else equal(expr(y), calc.ONE)
                if not ok:
                    return False
            return True
        judge(rep, 'quantile', con, fs['_ppf'], 'the quantile function is not the inverse of the cumulative distribution', quantile)


def add_log(b, a):
    l = lambda t: expr(mk('call', X('numpy.log10'), (t,), ()))
    return calc.add(l(b), l(a), -1)


def mixed(prog, rep, cls, fs, fam, con, n):
    x = V(*[mk('param', 'q%d' % i) for i in range(n)])
    for i in range(n):
        POINT['q%d' % i] = 2. + i
    ENTRIES.update(x.a)
    if tabulated(Family(prog, cls, {k: V(v.a[0]) for k, v in fam.pars.items()})):
        return
    I = fs['lum_function_int']
    for i in range(n):
        judge(rep, 'integral', '%s, entry %d' % (con, i), I, 'the integral does not have the luminosity function as its derivative', lambda: integral(I, fam, 'lum_function_int', x, i))


# abundance matching: numbers standing for the regions a value can lie in
MASSES = ({'missing_pmass_low_p1': .125, 'missing_pmass_high_p1': .15, 'missing_pmass_low_p2': .3, 'missing_pmass_high_p2': .25},
          {'missing_pmass_low_p1': .3, 'missing_pmass_high_p1': .25, 'missing_pmass_low_p2': .125, 'missing_pmass_high_p2': .15},
          {'missing_pmass_low_p1': .05, 'missing_pmass_high_p1': .375, 'missing_pmass_low_p2': .41, 'missing_pmass_high_p2': .06},
          {'missing_pmass_low_p1': .42, 'missing_pmass_high_p1': .07, 'missing_pmass_low_p2': .04, 'missing_pmass_high_p2': .395})
LIMITS = {'prop1_min': .25, 'prop1_max': 9., 'prop2_min': .5, 'prop2_max': 3.}
PLACES = {'p1': (.1, .3, .6, 1., 1.6, 2.5, 4., 8.5, 20.), 'p2': (.1, .55, .8, 1., 1.3, 1.7, 2.2, 2.9, 20.)}
CAT = (30., 10., 20., 40.)
DIST = {'cdf1': lambda v: v / (1 + v), 'cdf2': lambda v: v * v / (1 + v * v)}
KNOTS = {'p1': (3., 10., 11., 15., 20., 23., 27., 33., 37., 39., 50.), 'p2': PLACES['p2']}
FILL = ('extrapolate_low_p1', 'extrapolate_high_p1', 'extrapolate_low_p2', 'extrapolate_high_p2')


def dist(name, x):
    r = mk('call', X(name), (x,), ())
    ENTRIES.add(r)
    return r


def cval(t):
    return t.a[0] if t.op == 'const' else None


def spread(fn):
    """apply a function of one value to each entry"""
    def f(a, k):
        if len(a) != 1 or k:
            return None
        xs = guard(lambda: entries(a[0]))
        if xs is not None:
            return V(*[fn(x) for x in xs])
        x = guard(lambda: entry(a[0], 0, TRUTH))
        return fn(x) if x is not None else None
    return f


class Matching(object):
    def __init__(self, prog, f, masses, **b):
        self.prog, self.f = prog, f
        POINT.update(LIMITS)
        POINT.update(masses)
        for i, v in enumerate(CAT):
            POINT['k%d' % i] = v
        self.cat = V(*[P('k%d' % i) for i in range(len(CAT))])
        ENTRIES.update(self.cat.a)
        ENTRIES.update(P(n) for n in POINT)
        it = Interp(prog, inline=lambda a, b: True, depth=8, unroll=32)
        it.exact = it.vec = True
        m = it.models = models()
        order = lambda a, k: guard(lambda: V(*sorted(entries(a[0]), key=lambda t: value(t, {})))) if len(a) == 1 and not k and entries(a[0]) else None
        m[X('numpy.sort')] = m[X('builtins.sorted')] = order
        for n, w in (('min', min), ('max', max), ('amin', min), ('amax', max), ('nanmin', min), ('nanmax', max)):
            m[X('numpy.' + n)] = m[X('builtins.' + n)] = lambda a, k, w=w: guard(lambda: w(entries(a[0]), key=lambda t: value(t, {}))) if len(a) == 1 and not k and entries(a[0]) else None

        def linspace(a, k):
            if len(a) != 3 or k or not isinstance(cval(a[2]), int) or cval(a[2]) != len(CAT):
                return None
            n = cval(a[2])
            w = mk('bin', '-', a[1], a[0])
            r = [a[0]] + [mk('bin', '+', a[0], mk('bin', '/', mk('bin', '*', w, K(i)), K(n - 1))) for i in range(1, n - 1)] + [a[1]]
            ENTRIES.update(r)
            return V(*r)
        m[X('numpy.linspace')] = linspace
        m[X('numpy.interp')] = self.interp
        for p, rv in (('prop1_rv', '1'), ('prop2_rv', '2')):
            for q in ('cdf', 'ppf'):
                m[(P(p), q)] = spread(lambda x, n=q + rv: dist(n, x))
        for n in ('any', 'all'):
            m[X('numpy.' + n)] = lambda a, k, n=n: guard(lambda: K(getattr(__import__('builtins'), n)(bool(value(x, {})) for x in entries(a[0])))) if len(a) == 1 and not k and entries(a[0]) else None
        bind = dict(b)
        if 'prop1_cat' in f.params:
            bind['prop1_cat'] = self.cat
        r = it.run(f, bind=bind)
        ok = []
        for x in r.exits:
            if x.kind == 'return' and x.value is not None and x.value.op in ('tuple', 'list'):
                ok.append(x)
        self.r, self.x = r, ok[0] if len(ok) == 1 and len(ok[0].value.a) == 2 else None

    def interp(self, a, k):
        d = dict(k)
        if len(a) != 3 or set(d) - {'left', 'right'}:
            return None
        xp, fp = (guard(lambda: entries(t)) for t in a[1:])
        if not xp or not fp or len(xp) != len(fp):
            return None
        at = [value(x, {}) for x in xp]
        if at != sorted(at):
            return None

        def one(x):
            v = value(x, {})
            if v < at[0]:
                r = d.get('left', fp[0])
            elif v > at[-1]:
                r = d.get('right', fp[-1])
            else:
                j = max(i for i, b in enumerate(at) if b <= v)
                if at[j] == v:
                    r = fp[j]
                else:
                    t = mk('bin', '/', mk('bin', '-', x, xp[j]), mk('bin', '-', xp[j + 1], xp[j]))
                    r = mk('bin', '+', fp[j], mk('bin', '*', t, mk('bin', '-', fp[j + 1], fp[j])))
            ENTRIES.add(r)
            return r
        xs = guard(lambda: entries(a[0]))
        if xs is not None:
            return guard(lambda: V(*[one(x) for x in xs]))
        x = guard(lambda: entry(a[0], 0, TRUTH))
        return guard(lambda: one(x)) if x is not None else None

    def at(self, which, p):
        if self.x is None:
            return None
        return apply(self.r, self.x, self.x.value.a[which], [p])


MODES = (('limits', {q: K('flat') for q in FILL}), ('nothing', {q: K('none') for q in FILL}), ('nan', {q: K('nan') for q in FILL}),
         ('numbers', {q: K(101. + i) for i, q in enumerate(FILL)}))


def fillers(f, mode, n):
    """what stands for values below and above the range of property n"""
    if mode == 'limits':
        return [P('prop%d_%s' % (n, w)) for w in ('min', 'max')] if 'prop%d_min' % n in f.params else [P('k%d' % CAT.index(w(CAT))) for w in (min, max)]
    if mode == 'numbers':
        return [K(101. + 2 * (n - 1)), K(102. + 2 * (n - 1))]
    return None


def isnan(t):
    if t.op == 'repr':
        return t.a[0] == 'nan'
    return t.op == 'const' and isinstance(t.a[0], float) and t.a[0] != t.a[0] or t.op == 'ext' and t.a[0] in ('numpy.nan', 'math.nan', 'numpy.NaN') or is_call(t, 'builtins.float') and cval(t.a[1][0]) == 'nan'


B = lambda o, a, b: mk('bin', o, a, b)


def straight(M, n, rev, f, p, mode, edge=False):
    """what the matched value of property n is for the value p of the other property: ('ppf', argument), ('is', value) or ('nan',)"""
    o = 3 - n
    mass = lambda n: (P('missing_pmass_low_p%d' % n), P('missing_pmass_high_p%d' % n))
    part = lambda n: B('-', B('-', K(1), mass(n)[1]), mass(n)[0])
    tab = lambda n: 'prop%d_min' % n not in f.params
    lim = lambda n: (P('prop%d_min' % n), P('prop%d_max' % n))
    C = lambda n, x: dist('cdf%d' % n, x)
    order = sorted(range(len(CAT)), key=lambda i: CAT[i])
    knots = [P('k%d' % i) for i in order]
    steps = [B('+', mass(1)[0], B('/', B('*', part(1), K(i)), K(len(CAT) - 1))) for i in range(len(CAT))]
    width = lambda n: B('-', C(n, lim(n)[1]), C(n, lim(n)[0]))
    lo, hi = (knots[0], knots[-1]) if tab(o) else lim(o)
    v = value(p, {})
    if v < value(lo, {}):
        c = K(0)
    elif v > value(hi, {}):
        c = K(1)
    elif tab(o):
        c = M.interp((p, V(*knots), V(*steps)), ())
    else:
        c = B('+', mass(o)[0], B('*', B('/', B('-', C(o, p), C(o, lim(o)[0])), width(o)), part(o)))
    if rev:
        c = B('-', K(1), c)
    q = value(c, {})
    fl = fillers(f, mode, n)
    low, high = value(mass(n)[0], {}), 1 - value(mass(n)[1], {})
    if abs(q - low) < 1e-9 and not edge or abs(q - high) < 1e-9 and not edge:
        raise Unknown
    if q < low or q > high:
        return ('is', fl[0 if q < low else 1]) if fl else ('nan',)
    if tab(n):
        return ('is', M.interp((c, V(*steps), V(*knots)), ()))
    return ('ppf', B('+', B('*', B('/', B('-', c, mass(n)[0]), part(n)), width(n)), C(n, lim(n)[0])))


def same(t, want, n):
    if want[0] == 'nan':
        return isnan(t)
    if want[0] == 'is':
        return not isnan(t) and equal(expr(t), expr(want[1]))
    if isnan(t):
        return False
    while t.op == 'bin' and t.a[0] == '+' and cval(t.a[2]) == 0:
        t = t.a[1]
    if not is_call(t, 'ppf%d' % n):
        e = expr(t)
        if calc.constant(e) is not None or t.op == 'param':
            return False
        raise Unknown
    return equal(expr(t.a[1][0]), expr(want[1]))


def matching(prog, rep):
    for name in ('am_dfdf', 'am_dfcat'):
        for f in prog.funcs.values():
            if f.name == name and f.cls is None and set(FILL) <= set(f.params):
                rep.saw(f)
                pairs(prog, rep, f)


def pairs(prog, rep, f):
    for k, masses in enumerate(MASSES):
        for mode, b in MODES:
            for rev in (False, True):
                con = '%s%s, beyond the range %s, masses %d' % (f.name, ', reversed' if rev else '', mode, k + 1)
                try:
                    M = Matching(prog, f, masses, reverseorder=K(rev), **b)
                except Unknown:
                    M = None
                if M is None or M.x is None:
                    rep.notes.append('matched: %s not followed' % con)
                    continue
                for which, o in ((0, 1), (1, 2)):
                    q = 'p%d' % o
                    at = (PLACES if 'prop%d_min' % o in f.params else KNOTS)[q]
                    ps = points(M, at)
                    for w, arg in (('array', V(*ps)), ('value', None)):
                        def test():
                            rs = entries_of(M.at(which, arg), len(ps)) if arg is not None else [entry(M.at(which, p), 0, TRUTH) for p in ps]
                            for p, r in zip(ps, rs):
                                if not same(r, straight(M, 3 - o, rev, f, p, mode), 3 - o):
                                    raise Mismatch('property %d for %s=%s is %s, which is not at the same cumulative fraction' % (3 - o, q, POINT[p.a[0]], show(r)[:120]))
                            return True
                        judge(rep, 'matched', '%s: p%d of p%d, %s' % (con, 3 - o, o, w), f, '', test)
    # exactly at the limits
    zero = dict.fromkeys(MASSES[0], 0)
    for which, o in ((0, 1), (1, 2)):
        for w in ('array', 'value'):
            def test():
                for rev in (False, True):
                    M = Matching(prog, f, zero, reverseorder=K(rev), **dict(MODES[0][1]))
                    if M.x is None:
                        raise Unknown
                    ps = points(M, [LIMITS['prop%d_min' % o], LIMITS['prop%d_max' % o]] if 'prop%d_min' % o in f.params else [min(CAT), max(CAT)])
                    rs = entries_of(M.at(which, V(*ps)), len(ps)) if w == 'array' else [entry(M.at(which, p), 0, TRUTH) for p in ps]
                    for p, r in zip(ps, rs):
                        want = straight(M, 3 - o, rev, f, p, 'limits', True)
                        v = cval(r)
                        if isinstance(v, (int, float)) and not isinstance(v, bool):
                            raise Mismatch('%s for the %s p%d' % (v, 'smallest' if p is ps[0] else 'largest', o))
                        if not same(r, want, 3 - o):
                            n = 3 - o
                            if r.op == 'param' and want[0] == 'ppf':
                                continue
                            raise Unknown
                return True
            judge(rep, 'ends', '%s/p%dofp%d/%s' % (f.name, 3 - o, o, w), f, '', test)


def points(M, at):
    ps = []
    for i, v in enumerate(at):
        POINT['v%d' % i] = v
        ps.append(P('v%d' % i))
        M.r.interp.preset[(ps[-1], 'ndim')] = K(0)
    ENTRIES.update(ps)
    return ps


def entries_of(t, n):
    if calc.length(t, TRUTH) != n:
        raise Unknown
    return [entry(t, i, TRUTH) for i in range(n)]


def check(prog, rep):
    rep.rule('integral', 'the integral of a luminosity function has the function as its derivative and vanishes at infinity', 20)
    rep.rule('density', 'the probability density is the luminosity function divided by its whole integral', 10)
    rep.rule('cumulative', 'the cumulative distribution is the fraction of the integral below a value', 10)
    rep.rule('quantile', 'the quantile function interpolates the cumulative distribution of the same parameters', 10)
    rep.rule('limit', 'nothing lies below the lower limit', 20)
    distributions(prog, rep)
    rep.rule('matched', 'abundance matching gives the value at the same cumulative fraction (the opposite one in reverse order), and the requested filling outside the range', 40)
    rep.rule('ends', 'values exactly at the limits of the range are matched to the limits', 4)
    matching(prog, rep)
