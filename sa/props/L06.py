"""Sets of light cones: every operation on the set is that operation on each light cone of it, listed under its number."""
from common import *
from flow import Interp
from store import Store, bare, node
import concrete
import fnmatch
import posixpath

ASSUMPTIONS = [
    'the directory of a set holds light cone files and other files; the files of the light cones are complete',
    'two cosmologies are the same if they are made from the same parameters',
]
NAMES = [3, 4, 11]
DIR = '/lcs/cones'
ATTRS = {'cosmo_h': .7, 'cosmo_omega_matter': .3, 'cosmo_omega_baryon': .05, 'shape': 'box', 'minimum redshift': 1., 'maximum redshift': 2., 'open angle': .1, 'aspect ratio': 1.}
SPHERE = {k: v for k, v in ATTRS.items() if k not in ('open angle', 'aspect ratio')}
SPHERE['shape'] = 'sphere'
X = lambda n: mk('ext', n)


class Host(Store):
    """light cone files, the registry of their places, and cosmologies"""

    def owns(self, t):
        return Store.owns(self, t) or t.op == 'new' and t.a[1].endswith('._SimIMPaths')

    def getattr(self, it, st, o, attr):
        if o.op == 'new':
            return D((K('sim'), K('/lcs'))) if attr == 'lcs' else D((K('sim'), K('/sims'))) if attr == 'sims' else None
        return Store.getattr(self, it, st, o, attr)

    def call(self, it, ctx, st, n, ft, args, kws):
        if ft.op == 'ext' and ft.a[0].split('.')[-1].endswith('CDM'):
            return mk('obj', 'cosmology', ft.a[0], tuple(args), tuple(sorted(kws.items())))
        return Store.call(self, it, ctx, st, n, ft, args, kws)

    def compare(self, op, a, b):
        if op in ('==', '!=') and a.op == b.op == 'obj' and a.a[0] == b.a[0] == 'cosmology':
            return (a is b) == (op == '==')
        return None


def src(k, n):
    return mk('obj', '%s of light cone %d' % (n, k))


def tree(k, attrs, rows=None):
    at = lambda h: {'units': K('u'), 'h dependence': K(h)}
    return {'@': {a: K(v) for a, v in attrs.items()},
            'Lightcone Full': {'redshift': (src(k, 'redshift'), at(0)), 'mass': (src(k, 'mass'), at(-1)), 'old': (src(k, 'old'), dict(at(0), userdefined=TRUE))}}


def text(t):
    return t.a[0] if t.op == 'const' and isinstance(t.a[0], str) else None


def models(names, listed):
    m = concrete.models()
    there = {DIR, '/lcs'} | {'%s/lc_%04d.hdf5' % (DIR, k) for k in names}

    def strs(fn):
        def go(a, k):
            v = [text(x) for x in a]
            return K(fn(*v)) if v and None not in v and not k else None
        return go
    for n, fn in (('join', posixpath.join), ('basename', posixpath.basename), ('dirname', posixpath.dirname), ('exists', lambda p: posixpath.normpath(p) in there),
                  ('isfile', lambda p: p.endswith('.hdf5') and posixpath.normpath(p) in there), ('isdir', lambda p: not p.endswith('.hdf5') and posixpath.normpath(p) in there)):
        m[X('os.path.' + n)] = strs(fn)
    m[X('fnmatch.fnmatch')] = strs(fnmatch.fnmatch)
    m[X('os.listdir')] = lambda a, k: mk('list', *[K(n) for n in listed])
    return m


def run(prog, f, bind, attrs, names=NAMES, extra=()):
    host = Host()
    it = Interp(prog, inline=lambda a, b: b.cls is None or b.cls.name != '_SimIMPaths', depth=9, unroll=40)
    it.host, it.vec, it.exact = host, True, True
    it.models = models(names, ['lc_%04d.hdf5' % k for k in names] + list(extra))
    it.preset = {}
    for k in names:
        it.preset.update(host.preset(K('%s/lc_%04d.hdf5' % (DIR, k)), tree(k, attrs(k))))
    r = it.run(f, bind={k: v for k, v in bind.items() if k in f.params})
    return r, host


OPS = {
    'return_property': (['return s.return_property("mass", in_h_units=True)'], 0),
    'set_in_h_units': (['s.set_in_h_units(True)', 'return s.return_property("mass")'], 0),
    'set_property_range': (['s.set_property_range("redshift", pmin=a, pmax=b)', 'return s.return_property("mass")'], 0),
    'eval_stat': (['return s.eval_stat(fn, kwargs=["mass"])'], 0),
    'eval_stat_evo': (['return s.eval_stat_evo([1., 1.5, 2.], fn, kwargs=["mass"], volume_kw=True)'], 0),
    'make_property': (['s.make_property(p, rename="made")', 'return s.return_property("made")'], 1),
    'write_property': (['s.make_property(p, rename="made")', 's.write_property("made")'], 1),
    'delete_property': (['s.delete_property("old")'], 0),
}


def client(prog, it, h, gp):
    out = ['from %s import %s' % (it.module.name, it.name), 'from %s import %s' % (h.module.name, h.name)]
    if gp is not None:
        out.append('from %s import %s' % (gp.module.name, gp.name))
    out += ['def members(numbers, h, strict):', '    s = LCIterator("sim", "cones", numbers, h, strict)', '    return s.return_property("mass", in_h_units=True), s.lc_numbers, s.n_lcs, s.is_consistent',
            'def state(strict):', '    s = LCIterator("sim", "cones", [3, 4, 11], False, strict)', '    return s.is_consistent, s.shape, s.minimum_redshift, s.maximum_redshift, s.cosmo',
            'def single(number):', '    s = LCHandler("sim", "cones", number)', '    return s.return_property("mass", in_h_units=True), s.shape, s.minimum_redshift, s.maximum_redshift, s.cosmo',
            'def narrow(number):', '    s = LCHandler("sim", "cones", number)', '    return s.open_angle, s.aspect_ratio']
    out += ['def evo(fn, bins, zmin, zmax, vol, more):', '    s = LCHandler("sim", "cones", 3)', '    kws = {"more": more}',
            '    e, v = s.eval_stat_evo(bins, fn, kwargs=["mass"], other_kws=kws, zmin_kw=zmin, zmax_kw=zmax, volume_kw=vol)', '    return e, v, kws']
    for n, (lines, prop) in OPS.items():
        if prop and gp is None:
            continue
        pre = ['p = Prop("made", fn, ["mass"], h_dependence=0, units="u")'] if prop else []
        out += ['def all_%s(fn, a, b):' % n, '    s = LCIterator("sim", "cones", [3, 4, 11])'] + ['    ' + l for l in pre + lines]
        out += ['def one_%s(number, fn, a, b):' % n, '    s = LCHandler("sim", "cones", number)'] + ['    ' + l for l in pre + lines]
    return prog.client('sets', '\n'.join(out) + '\n')


def entries(t):
    if t is None or t.op != 'dict' or any(k.op != 'const' for k, v in t.a[0]):
        return None
    return {str(k.a[0]): v for k, v in t.a[0]}


def files(x, k):
    """contents of the file of a light cone at the end"""
    path = K('%s/lc_%04d.hdf5' % (DIR, k))
    out = {}
    for (o, a), l in x.state.heap.items():
        if o.op == 'obj' and o.a[0] == 'h5' and a in ('kids', 'value') and o.a[2] is path:
            out[o, a] = x.state.store[l]
    return out


def cones(t):
    """light cones whose data went into a value"""
    return {int(s.a[0].rsplit(' ', 1)[1]) for s in subterms(t) if s.op == 'obj' and isinstance(s.a[0], str) and ' of light cone ' in s.a[0]}


def known(t):
    """nothing in a value was left unfollowed"""
    return t is None or not any(s.op in ('new', 'loop', 'mu', 'unk', 'bm', 'lambda', 'each') for s in subterms(t))


def bins(prog, rep, fn, h, same, where):
    edges = [1., 1.25, 2.]
    f = prog.lookup(h, 'eval_stat_evo')
    if f is None:
        return
    for given in (edges, [1.25, 2., 1.]):
        for zmin in (TRUE, FALSE):
            for zmax in (TRUE, FALSE):
                for vol in (TRUE, FALSE):
                    r, host = run(prog, fn('evo'), dict(fn=P('fn'), bins=L(*[K(x) for x in given]), zmin=zmin, zmax=zmax, vol=vol, more=P('more')), same)
                    ok = normal(r)
                    con = 'bins %s%s%s%s' % (given, ' zmin' if zmin is TRUE else '', ' zmax' if zmax is TRUE else '', ' volume' if vol is TRUE else '')
                    if len(ok) != 1 or ok[0].value.op != 'tuple':
                        rep.notes.append('%s not followed' % con)
                        continue
                    e, vals, kws = ok[0].value.a
                    if e.op in ('vec', 'list', 'tuple') and all(x.op == 'const' for x in e.a):
                        rep.ob('bins', con + ' limits', [x.a[0] for x in e.a] == edges, where(f), 'the limits of the bins are %s' % show(e))
                    k = entries(kws)
                    if k is not None:
                        rep.ob('bins', con + ' caller', set(k) == {'more'} and k['more'] is P('more'), where(f), 'the arguments of the caller become %s' % show(kws))
                    if vals.op not in ('list', 'tuple', 'vec'):
                        continue
                    rep.ob('bins', con + ' count', len(vals.a) == 2, where(f), '%d values for 2 bins' % len(vals.a))
                    for i, v in enumerate(vals.a[:2]):
                        if v.op != 'call' or v.a[0] is not P('fn') or any(n == '**' for n, _ in v.a[2]):
                            continue
                        got = dict(v.a[2])
                        for n, on, want in (('zmin', zmin, edges[i]), ('zmax', zmax, edges[i + 1]), ('volume', vol, None), ('more', TRUE, None)):
                            rep.ob('bins', '%s, bin %d %s' % (con, i, n), (n in got) == (on is TRUE), where(f), '%s is %s' % (n, 'given although not asked for' if n in got else 'not given'))
                            if n in got and want is not None and got[n].op == 'const':
                                rep.ob('bins', '%s, bin %d %s value' % (con, i, n), got[n].a[0] == want, where(f), '%s is %s' % (n, show(got[n])))


def check(prog, rep):
    rep.rule('bins', 'a statistic over redshift has one value per bin, in rising order, given the limits and volume of its bin if asked for', 40)
    rep.rule('members', 'a set holds the light cones asked for, all of the directory if none are named, each from its own file', 12)
    rep.rule('each', 'an operation on a set does to each light cone what the operation on that light cone does, listed under its number', 20)
    rep.rule('alike', 'a set of light cones that differ is refused, or known to differ; a set of equal ones is neither', 20)
    rep.rule('own-file', 'a light cone is that of the file with its number', 6)
    it, h, gp = prog.cls('LCIterator'), prog.cls('LCHandler'), prog.cls('Prop')
    m = client(prog, it, h, gp)
    fn = lambda n: m.names[n][1]
    where = lambda c: '%s:%d %s' % (c.module.path, c.node.lineno, c.qual)
    same = lambda k: ATTRS
    for c in (it, h):
        for f in c.methods.values():
            rep.saw(f)
    # single light cones
    for k in NAMES + [5]:
        r, host = run(prog, fn('single'), {'number': K(k)}, lambda j: dict(ATTRS, **{'maximum redshift': 2. + j, 'minimum redshift': 1. + j / 100.}))
        ok = normal(r)
        if k != 5 and r.exits and not ok:
            rep.ob('own-file', 'light cone %d' % k, False, where(h), 'it is refused')
            continue
        if k == 5:
            if r.exits:
                rep.ob('own-file', 'a light cone that is not there', not ok, where(h), 'light cone 5 is given although there is no such file')
            continue
        if len(ok) != 1 or ok[0].value.op != 'tuple':
            rep.notes.append('light cone %d not followed' % k)
            continue
        v = ok[0].value.a
        rep.ob('own-file', 'data of light cone %d' % k, cones(v[0]) in ({k}, set()), where(h), 'it holds data of light cones %s' % sorted(cones(v[0])))
        for t, a, e in ((v[2], 'smallest', 1. + k / 100.), (v[3], 'largest', 2. + k)):
            if t.op == 'const':
                rep.ob('own-file', '%s redshift of light cone %d' % (a, k), t.a[0] == e, where(h), 'it is %s, not %s' % (show(t), e))
    r, host = run(prog, fn('narrow'), {'number': K(4)}, lambda j: dict(ATTRS, **{'open angle': .1 + j, 'aspect ratio': .5 + j}))
    ok = normal(r)
    if len(ok) == 1 and ok[0].value.op == 'tuple':
        for t, a, e in zip(ok[0].value.a, ('opening angle', 'aspect ratio'), (4.1, 4.5)):
            if t.op == 'const':
                rep.ob('own-file', '%s of light cone 4' % a, t.a[0] == e, where(h), 'it is %s, not %s' % (show(t), e))
    bins(prog, rep, fn, h, same, lambda f: '%s:%d %s' % (f.module.path, f.node.lineno, f.qual))
    members(prog, rep, fn, it, same, where)
    alike(prog, rep, fn, it, where)
    each(prog, rep, fn, it, same, where)


def members(prog, rep, fn, it, same, where):
    for numbers, want in ((NONE, NAMES), (L(K(4)), [4]), (L(K(11), K(3)), [11, 3]), (L(K(3), K(5)), None)):
        for h in (TRUE, FALSE):
            con = 'numbers=%s in_h_units=%s' % (show(numbers), h.a[0])
            r, host = run(prog, fn('members'), dict(numbers=numbers, h=h, strict=TRUE), same, extra=('notes.txt', 'figure_0001.png', 'backup.hdf5'))
            ok = normal(r)
            if want is None:
                if r.exits:
                    rep.ob('members', con, not ok, where(it), 'a set is made of light cones that are not there')
                continue
            bad = [x for x in r.exits if x.kind == 'raise']
            if bad and not ok:
                rep.ob('members', con, False, where(it), 'the set is refused: %s' % show(bad[0].value, 3) if bad[0].value is not None else 'the set is refused')
                continue
            if len(ok) != 1 or len(r.exits) != 1 or ok[0].value.op != 'tuple':
                rep.notes.append('%s not followed' % con)
                continue
            d, nums, n, _ = ok[0].value.a
            d = entries(d)
            if d is not None:
                rep.ob('members', con + ' light cones', set(d) == {str(k) for k in want}, where(it), 'light cones %s are in the set' % ', '.join(sorted(d)))
                bad = [k for k, v in d.items() if cones(v) and cones(v) != {int(k)}]
                rep.ob('members', con + ' files', not bad, where(it), 'under number %s is data of %s' % (bad[0], sorted(cones(d[bad[0]]))) if bad else '')
            if nums.op in ('vec', 'list', 'tuple') and all(x.op == 'const' for x in nums.a):
                rep.ob('members', con + ' numbers', sorted(x.a[0] for x in nums.a) == sorted(want), where(it), 'the numbers are given as %s' % show(nums))
            if n.op == 'const':
                rep.ob('members', con + ' count', n.a[0] == len(want), where(it), '%s light cones are counted' % show(n))


def alike(prog, rep, fn, it, where):
    for base, name in ((ATTRS, 'box'), (SPHERE, 'sphere')):
        for a in [None] + sorted(base):
            for odd in ((3, 4, 11) if a in ('maximum redshift', 'open angle') else (11,)):
                at = lambda k: dict(base, **({a: base[a] * 1.5 if a != 'shape' else {'box': 'circle', 'sphere': 'hemisphere'}[name]} if a and k == odd else {}))
                for strict in (TRUE, FALSE):
                    r, host = run(prog, fn('state'), dict(strict=strict), at)
                    ok = normal(r)
                    con = '%ss, %s, require_consistent=%s' % (name, 'all alike' if a is None else '%s of %d differs' % (a, odd), strict.a[0])
                    if len(r.exits) != 1:
                        rep.notes.append('%s not followed' % con)
                        continue
                    if a and strict is TRUE:
                        rep.ob('alike', con, not ok, where(it), 'the set is accepted')
                        continue
                    rep.ob('alike', con, bool(ok), where(it), 'the set is refused')
                    if not ok or ok[0].value.op != 'tuple':
                        continue
                    v = ok[0].value.a
                    if v[0].op == 'const':
                        rep.ob('alike', con + ' (is_consistent)', v[0].a[0] is (a is None), where(it), 'is_consistent is %s' % show(v[0]))
                    if a is None:
                        for t, e in zip(v[1:], (base['shape'], 1., 2.)):
                            if t.op == 'const':
                                rep.ob('alike', '%s (attribute %s)' % (con, e), t.a[0] == e, where(it), 'an attribute is %s, not %s' % (show(t), e))


def each(prog, rep, fn, it, same, where):
    b = dict(fn=P('fn'), a=P('a'), b=P('b'))
    for n, (lines, prop) in OPS.items():
        if prop and prog.cls('Prop') is None:
            continue
        f, g = fn('all_' + n), fn('one_' + n)
        r, host = run(prog, f, b, same)
        ok = normal(r)
        if r.exits and not ok and all(len(normal(run(prog, g, dict(b, number=K(k)), same)[0])) == 1 for k in NAMES):
            rep.ob('each', '%s: done' % n, False, where(it), 'it is refused for the set, though not for each light cone alone')
            continue
        if len(ok) != 1:
            rep.notes.append('%s of a set not followed (%d ways to finish)' % (n, len(ok)))
            continue
        d = entries(ok[0].value) if ok[0].value is not None else None
        if d is not None:
            rep.ob('each', '%s: light cones' % n, set(d) == {str(k) for k in NAMES}, where(it), 'results are listed for %s' % ', '.join(sorted(d)))
        for k in NAMES:
            r1, host1 = run(prog, g, dict(b, number=K(k)), same)
            ok1 = normal(r1)
            if len(ok1) != 1:
                rep.notes.append('%s of light cone %d not followed (%d ways to finish)' % (n, k, len(ok1)))
                continue
            if d is not None and str(k) in d and lines[-1].startswith('return') and known(d[str(k)]) and known(ok1[0].value):
                rep.ob('each', '%s: light cone %d' % (n, k), d[str(k)] is ok1[0].value, where(it), 'the result is %s, by itself it is %s' % (show(d[str(k)], 4), show(ok1[0].value, 4)))
            x, y = files(ok[0], k), files(ok1[0], k)
            if not all(map(known, list(x.values()) + list(y.values()))):
                continue
            rep.ob('each', '%s: file of light cone %d' % (n, k), x == y, where(it), 'the file differs from what the operation on that light cone leaves')
