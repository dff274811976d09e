"""Light cone volumes: the comoving volume of exactly the region asked for, refused when the light cone does not hold it."""
from common import *
from flow import Interp
import concrete
import math

ASSUMPTIONS = [
    'the cosmology gives the comoving volume of the whole sky out to a redshift in Mpc^3',
    'light cones are narrow: the area of a box or circle on the sky is that on a plane',
    'decided for light cones of six shapes and the regions listed; all numbers on the path are known, so every comparison is decided',
]
ME = P('self')
SPHERES = {'sphere': 4 * math.pi, 'hemisphere': 2 * math.pi, 'quarter': math.pi, 'eighth': math.pi / 2}
LO, HI, HH = 1.0, 3.0, 0.5
CONES = [('box', .1, 1.), ('box', .1, .5), ('box', .1, 2.), ('circle', .1, 1.)] + [(s, None, None) for s in SPHERES]


def shell(z):
    return 1000. * z ** 3 + 10. * z


def inside(cone, q):
    """whether the region is inside the light cone, and its solid angle; None when nothing is claimed"""
    shape, oa, ar = cone
    s, a, r, z0, z1 = q
    z0, z1 = LO if z0 is None else z0, HI if z1 is None else z1
    ok = LO <= z0 and z1 <= HI
    if shape in SPHERES:
        if s not in (None, shape) or a is not None or r is not None:
            return False, None, z0, z1
        return ok, SPHERES[shape], z0, z1
    s, a = shape if s is None else s, oa if a is None else a
    if s not in ('box', 'circle'):
        return False, None, z0, z1
    if s == 'circle' and r is not None:
        return None
    r = ar if r is None else r
    if s == 'box':
        fits = a <= oa and a * r <= oa * ar if shape == 'box' else a * a + (a * r) ** 2 <= oa * oa
        area = a * a * r
    else:
        fits = a <= (min(oa, oa * ar) if shape == 'box' else oa)
        area = math.pi * (a / 2) ** 2
    return ok and fits, area, z0, z1


def queries(cone):
    shape, oa, ar = cone
    out = []
    for z in ((None, None), (1.5, 2.), (None, 2.), (1.5, None), (.5, 2.), (1.5, 3.5)):
        out.append((None, None, None) + z)
    if shape in SPHERES:
        return out + [('box', None, None, None, None), (None, .05, None, None, None), (None, None, 1., None, None), (shape, None, None, 1.5, 2.)]
    for s in (None, 'box', 'circle', 'square'):
        for a in (None, .03, .06, .08, .15):
            for r in (None, .25, 1., 1.5, 3.):
                out.append((s, a, r, None, None))
                if s == 'box' and a == .03:
                    out.append((s, a, r, 1.5, 2.5))
    return out


def check(prog, rep):
    rep.rule('volume', 'the volume is that between the two redshifts, over the part of the sky the shape covers', 60)
    rep.rule('refused', 'a region reaching outside the light cone, in redshift or on the sky, is refused', 60)
    rep.rule('accepted', 'a region inside the light cone is accepted', 60)
    rep.rule('units', 'the volume is in the convention asked for', 6)
    rep.rule('number', 'of several light cones the volume is that of the one asked for, which must be named when they differ', 6)
    several(prog, rep)
    cls = prog.cls('LCHandler')
    f = prog.lookup(cls, 'volume')
    rep.saw(f)
    where = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for cone in CONES:
        for q in queries(cone):
            want = inside(cone, q)
            if want is None:
                continue
            for units, default in ((False, False), (True, False)) + (((None, True), (None, False)) if q == (None,) * 5 else ()):
                one(prog, rep, cls, f, where, cone, q, want, units, default)


def several(prog, rep):
    cls = prog.cls('LCIterator')
    f = prog.lookup(cls, 'volume') if cls is not None else None
    if f is None:
        rep.notes.append('no LCIterator.volume')
        return
    rep.saw(f)
    where = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    names = ('redshift_min', 'redshift_max', 'shape', 'open_angle', 'aspect_ratio', 'in_h_units')
    order = [a for a in prog.lookup(prog.cls('LCHandler'), 'volume').params if a != 'self']
    for same in (True, False):
        for n in (None, 3, 4, 5):
            it = Interp(prog, inline=lambda a, b: b.cls is None or b.cls is cls, depth=5, unroll=32)
            it.exact, it.vec = True, True
            it.models = concrete.models()
            hs, got = {k: mk('obj', 'light cone %d' % k) for k in (3, 4)}, []
            for k, h in hs.items():
                def asked(a, kw, k=k):
                    d = dict(zip(order, a))
                    d.update(kw)
                    got.append((k, d))
                    return mk('obj', 'volume of %d' % k)
                it.models[h, 'volume'] = asked
            it.preset = {(ME, 'is_consistent'): K(same), (ME, 'lc_numbers'): mk('vec', K(3), K(4)), (ME, 'n_lcs'): K(2), (ME, 'lc_handlers'): D(*[(K(str(k)), h) for k, h in hs.items()])}
            b = {k: P(k) for k in names}
            b['number'] = NONE if n is None else K(n)
            r = it.run(f, bind={k: v for k, v in b.items() if k in f.params}, selfcls=cls)
            con = 'light cones %s, number=%s' % ('alike' if same else 'that differ', n)
            if len(r.exits) != 1:
                rep.notes.append('%s not followed' % con)
                continue
            x = r.exits[0]
            if n == 5 or n is None and not same:
                rep.ob('number', con, x.kind == 'raise', where, 'a volume is given although %s' % ('there is no such light cone' if n else 'the light cones differ'))
                continue
            rep.ob('number', con, x.kind != 'raise', where, 'the volume is refused')
            if len(got) != 1:
                continue
            k, d = got[0]
            rep.ob('number', con + ' light cone', n is None or k == n, where, 'the volume is that of light cone %d' % k)
            bad = [a for a in names if d.get(a) is not None and d[a] is not P(a) or a not in d]
            rep.ob('number', con + ' region', not bad, where, 'the light cone is not asked for the %s given' % ', '.join(bad))


def number(t):
    if t.op == 'const' and isinstance(t.a[0], (int, float)):
        return t.a[0]
    if t.op == 'ext' and t.a[0] in ('numpy.pi', 'math.pi'):
        return math.pi
    if t.op == 'neg':
        a = number(t.a[0])
        return None if a is None else -a
    if t.op == 'bin':
        a, b = number(t.a[1]), number(t.a[2])
        if a is None or b is None or t.a[0] not in ('+', '-', '*', '/', '**'):
            return None
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[t.a[0]]()
    return None


def one(prog, rep, cls, f, where, cone, q, want, units, default):
    it = Interp(prog, inline=lambda a, b: True, depth=5, unroll=32)
    it.exact, it.vec = True, True
    it.models = concrete.models()
    cosmo = mk('obj', 'cosmology')

    def volume(a, k):
        z = a[0] if a else k.get('z')
        if z is None or z.op != 'const':
            return None
        v = mk('obj', 'volume out to %r' % z.a[0])
        return v
    it.models[cosmo, 'comoving_volume'] = volume
    shape, oa, ar = cone
    meta = [('shape', shape), ('minimum redshift', LO), ('maximum redshift', HI), ('cosmo_h', HH)]
    own = {'cosmo': cosmo, 'h': K(HH), 'default_in_h_units': K(default), 'shape': K(shape), 'minimum_redshift': K(LO), 'maximum_redshift': K(HI)}
    if oa is not None:
        meta += [('open angle', oa), ('aspect ratio', ar)]
        own.update(open_angle=K(oa), aspect_ratio=K(ar))
    own['metadata'] = D(*[(K(k), K(v)) for k, v in meta])
    it.preset = {(ME, k): v for k, v in own.items()}
    for z in {LO, HI} | {z for z in q[3:] if z is not None}:
        it.preset[mk('obj', 'volume out to %r' % z), 'value'] = K(shell(z))
    names = ('shape', 'open_angle', 'aspect_ratio', 'redshift_min', 'redshift_max')
    b = {n: NONE if v is None else K(v) for n, v in zip(names, q)}
    b['in_h_units'] = NONE if units is None else K(units)
    r = it.run(f, bind={k: v for k, v in b.items() if k in f.params}, selfcls=cls)
    con = '%s%s: %s%s' % (shape, '' if oa is None else ' %g x %g' % (oa, oa * ar), ', '.join('%s=%s' % (n, v) for n, v in zip(names, q) if v is not None) or 'all of it', ' in_h_units=%s (default %s)' % (units, default))
    if len(r.exits) != 1:
        rep.notes.append('%s not followed' % con)
        return
    x = r.exits[0]
    ok, area, z0, z1 = want
    if not ok:
        rep.ob('refused', con, x.kind == 'raise', where, 'a region the light cone does not hold is given a volume')
        return
    rep.ob('accepted', con, x.kind != 'raise', where, 'a region inside the light cone is refused')
    v = number(x.value) if x.kind != 'raise' and x.value is not None else None
    if v is None:
        return
    e = (shell(z1) - shell(z0)) * area / (4 * math.pi) * (HH ** 3 if (default if units is None else units) else 1)
    close = abs(v - e) <= 1e-9 * abs(e)
    other = abs(v - e * HH ** 3) <= 1e-9 * abs(e) or abs(v * HH ** 3 - e) <= 1e-9 * abs(e)
    rep.ob('units', con, not other or close, where, 'the volume comes in the other convention')
    rep.ob('volume', con, close or other, where, 'the volume is %.6g, not %.6g' % (v, e))
