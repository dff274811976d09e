"""Every random draw comes from the generator the caller supplied."""
import ast
from common import *

ASSUMPTIONS = [
    'random numbers are drawn through numpy.random, random, scipy .rvs() or Generator methods',
    'a default argument default_rng() stands for "the caller supplied none"',
]
DRAWS = {'random', 'normal', 'uniform', 'choice', 'integers', 'permutation', 'permuted', 'shuffle', 'poisson', 'standard_normal', 'exponential', 'lognormal',
         'multivariate_normal', 'binomial', 'gamma', 'beta', 'bytes', 'standard_exponential', 'standard_gamma', 'rayleigh', 'pareto', 'weibull', 'triangular',
         'multinomial', 'geometric', 'laplace', 'logistic', 'power', 'randint', 'rand', 'randn', 'random_sample', 'standard_t', 'chisquare', 'vonmises'}
MAKE = {'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.RandomState', 'random.Random', 'numpy.random.PCG64', 'numpy.random.SeedSequence'}
OK_GLOBAL = MAKE | {'numpy.random.' + x for x in ('BitGenerator', 'MT19937', 'Philox', 'SFC64')}
CLOCK = {'time.time', 'time.time_ns', 'os.urandom', 'uuid.uuid4', 'os.getpid', 'secrets.token_bytes', 'datetime.datetime.now', 'time.perf_counter'}


def genparams(f):
    return [p for p in f.params if p in ('rng', 'random_state', 'generator', 'random_generator') or p.endswith('_rng')]


def from_gen(t, ps, seen=None):
    """every alternative of the value is the supplied generator, or a fresh one when none was supplied"""
    if t.op == 'param':
        return t.a[0] in ps
    if t.op == 'phi':
        c = t.a[0]
        none = [mk('cmp', 'is', mk('param', p), NONE) for p in ps]
        if c in none:
            return fresh(t.a[1]) and from_gen(t.a[2], ps)
        return from_gen(t.a[1], ps) and from_gen(t.a[2], ps)
    if t.op == 'or':
        return all(from_gen(x, ps) for x in t.a[:-1]) and (fresh(t.a[-1]) or from_gen(t.a[-1], ps))
    if t.op in ('mut', 'mu', 'loop'):
        return from_gen(t.a[0] if t.op == 'mut' else t.a[2], ps)
    if is_call(t, 'numpy.random.default_rng') and t.a[1]:
        return from_gen(t.a[1][0], ps)
    return False


def fresh(t):
    return is_call(t, 'numpy.random.default_rng', 'numpy.random.Generator')


def check(prog, rep):
    rep.rule('no-global-state', 'no use, seeding or reseeding of module-level random state, clocks or process ids as randomness', 100)
    rep.rule('fresh-only-if-none', 'a generator is created only as a default or when none was supplied', 0)
    rep.rule('draw-from-supplied', 'every draw in an operation that accepts a generator uses that generator', 8)
    rep.rule('passed-on', 'an operation that accepts a generator passes it to every operation it calls that accepts one', 8)
    rep.rule('can-be-controlled', 'an operation that draws random numbers accepts a generator', 8)
    for r in all_results(prog):
        f = r.func
        rep.saw(f)
        ps = genparams(f)
        gbad = None
        for e in r.events:
            if e.stack:
                continue
            name = '%s' % cn(f.qual)
            none = [(mk('cmp', 'is', mk('param', p), NONE), True) for p in ps] + [(mk('param', p), False) for p in ps]
            if e.kind == 'extcall':
                n = e.name or ''
                if (n.startswith('numpy.random.') or n.startswith('random.')) and n not in OK_GLOBAL:
                    gbad = (e.where, 'uses global random state through %s' % n)
                if n in CLOCK:
                    gbad = gbad or (e.where, 'results would depend on %s' % n) if f.module.name.split('.')[1] in ('galprops', 'lightcone', 'map') else gbad
                if n in MAKE and n:
                    if ps:
                        args = [a for a in e.args if a is not NONE]
                        ok = any(g in e.guards for g in none) or (args and from_gen(args[0], ps)) or in_or(e, ps)
                    else:
                        ok = False
                    rep.ob('fresh-only-if-none', name, ok, e.where, '' if ok else 'a fresh generator is created although the caller may have supplied one' if ps
                           else 'draws from a private generator the caller cannot supply')
            elif e.kind == 'mcall' and (e.name in DRAWS or e.name == 'rvs'):
                if e.name == 'rvs':
                    rs = dict(e.kws).get('random_state')
                    ok = rs is not None and (from_gen(rs, ps) if ps else True)
                    # the distributions themselves pass their own random_state on
                    if f.cls and any('rv_continuous' in ast.dump(b) for b in f.cls.node.bases):
                        continue
                    rep.ob('draw-from-supplied', '%s .rvs' % name, ok, e.where, '' if ok else 'rvs() without the supplied generator uses global random state')
                    continue
                rv = e.recv
                if not drawable(rv, f, ps):
                    continue
                if ps:
                    ok = from_gen(rv, ps)
                    rep.ob('draw-from-supplied', '%s .%s' % (name, e.name), ok, e.where, '' if ok else '.%s() is called on %s, not on the supplied generator' % (e.name, show(rv, 4)))
                    rep.ob('can-be-controlled', name, True, e.where, '')
                else:
                    ok = rv.op == 'attr'
                    rep.ob('can-be-controlled', name, ok, e.where, '' if ok else 'random numbers are drawn from %s and no generator can be supplied' % show(rv, 4))
            elif e.kind == 'call':
                cps = genparams(e.callee)
                if cps and ps and uses(prog, e.callee):
                    for p in cps:
                        b = (e.binding or {}).get(p)
                        ok = b is not None and from_gen(b, ps)
                        rep.ob('passed-on', '%s -> %s' % (name, cn(e.callee.qual)), ok, e.where,
                               '' if ok else '%s is not given the generator supplied to %s' % (e.callee.name, f.name))
                elif cps and not ps and uses(prog, e.callee) and f.name != '__init__':
                    for p in cps:
                        b = (e.binding or {}).get(p)
                        ok = b is not None and b.op in ('attr', 'sub', 'param') or not required(prog, f)
                        rep.ob('passed-on', '%s -> %s' % (name, cn(e.callee.qual)), ok, e.where, '' if ok else 'the random numbers drawn by %s cannot be controlled' % e.callee.name)
        rep.ob('no-global-state', cn(f.qual), gbad is None, gbad[0] if gbad else '%s:%d' % (f.module.path, f.node.lineno), gbad[1] if gbad else '')


def required(prog, f):
    return True


def in_or(e, ps):
    """the creation is the last operand of `supplied or fresh`"""
    return any(isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and any(k is e.node for k in ast.walk(n.values[-1]))
               and any(isinstance(x, ast.Name) and x.id in ps for x in n.values[:-1]) for n in ast.walk(e.func.node))


def drawable(rv, f, ps):
    """receiver of a draw-like method that can be a random generator"""
    for c, t in leaves(rv):
        t = strip(t)
        if t.op == 'param' and (t.a[0] in ps or 'rng' in t.a[0] or 'random' in t.a[0]):
            return True
        if fresh(t) or is_call(t, *MAKE):
            return True
        if t.op == 'glob' or t.op == 'attr' and ('rng' in t.a[1] or 'random' in t.a[1]):
            return True
        if t.op in ('mu', 'loop', 'or'):
            return True
        if t.op == 'call' and t.a[0].op in ('func',):
            return True
    return False


def uses(prog, f, seen=None):
    """f draws random numbers (transitively)"""
    r = result(prog, f)
    return any(e.kind == 'mcall' and (e.name in DRAWS or e.name == 'rvs') for e in r.events)
