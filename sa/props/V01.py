"""Plots: every drawn value is that of the place, axis, property and selection it is drawn for."""
from common import *
from flow import Interp
from store import Store
from lcrows import poly
import concrete

ASSUMPTIONS = [
    'pcolor(x, y, C) draws C[j, i] at x[i], y[j]; coordinates are either cell edges or cell centres',
    'spatial responses are arrays indexed by x offset, y offset and frequency, as documented',
    'matplotlib draws what it is given',
]
ME = P('self')
NAMES = {'edges': 0, 'centres': 0, 'fourier edges': 1, 'fourier centres': 1}
SAME = ('numpy.log10', 'numpy.log', 'numpy.real', 'numpy.abs', 'numpy.absolute', 'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.sqrt', 'numpy.nan_to_num', 'numpy.ma.masked_invalid', 'numpy.where')
X = lambda n: mk('ext', n)
DATA = mk('obj', 'data')


class Host(Store):
    """animations draw a frame"""

    def __init__(self):
        Store.__init__(self)
        self.frames = 0

    def owns(self, t):
        return False

    def call(self, it, ctx, st, n, ft, args, kws):
        if ft.op == 'ext' and ft.a[0].endswith('FuncAnimation'):
            fn = args[1] if len(args) > 1 else kws.get('func')
            if fn is not None and fn.op == 'lambda':
                self.frames += 1
                it.call(ctx, st, n, fn, [P('frame')], [], [it.newloc(st, P('frame'))], {})
        return None


def setdiff(a, k):
    x, y = (concrete.nums(t) for t in a[:2]) if len(a) >= 2 else (None, None)
    return mk('vec', *[K(v) for v in sorted(set(x) - set(y))]) if x is not None and y is not None else None


def interp(prog, keep=()):
    it = Interp(prog, inline=lambda a, b: b.name not in keep and b.name != '_axis_edges', depth=6, unroll=32)
    it.exact, it.vec, it.host = True, True, Host()
    it.models = concrete.models()
    it.models[X('numpy.setdiff1d')] = setdiff
    return it


def drawn(r, *names):
    return [e for e in r.events if e.kind == 'mcall' and e.name in names]


# -------------------------------------------------------------------- which axes an array runs along

class Lost(Exception):
    pass


def whole(i):
    return i.op == 'slice' and i.a[0] in (NONE, K(0)) and i.a[1] is NONE and (len(i.a) < 3 or i.a[2] in (NONE, K(1)))


def dims(t, base):
    """-> (axes in order, {axis: index it was taken at, or 'sum'})"""
    if t in base:
        return list(base[t]), {}
    if t.op == 'sub':
        d, p = dims(t.a[0], base)
        idx = list(t.a[1].a) if t.a[1].op == 'tuple' else [t.a[1]]
        dots = [k for k, i in enumerate(idx) if i.op == 'const' and i.a[0] is Ellipsis]
        if len(dots) > 1 or len(idx) - len(dots) > len(d):
            raise Lost
        free = mk('slice', NONE, NONE, NONE)
        fill = [free] * (len(d) - len(idx) + len(dots))
        idx = idx[:dots[0]] + fill + idx[dots[0] + 1:] if dots else idx + fill
        out, p = [], dict(p)
        for a, i in zip(d, idx):
            if i.op == 'slice':
                if not whole(i):
                    raise Lost
                out.append(a)
            elif i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) or i.op == 'param':
                p[a] = i
            else:
                raise Lost
        return out, p
    if t.op == 'attr':
        d, p = dims(t.a[0] if isinstance(t.a[1], str) else t.a[1], base)
        n = t.a[1] if isinstance(t.a[1], str) else t.a[0]
        if n == 'T':
            return d[::-1], p
        if n == 'real':
            return d, p
        raise Lost
    if t.op == 'upd':
        return dims(t.a[0], base)
    name, a, kw = None, (), {}
    if t.op == 'call' and t.a[0].op == 'ext':
        name, a, kw = t.a[0].a[0], list(t.a[1]), dict(t.a[2])
    elif t.op == 'mcall':
        name, a, kw = 'numpy.' + t.a[0], [t.a[1]] + list(t.a[2]), dict(t.a[3])
    if name is None or not a and 'a' not in kw:
        raise Lost
    arr = a[0] if a else kw['a']
    get = lambda k, i: kw.get(k, a[i] if len(a) > i else None)
    if name in SAME and len(a) == 1 or name in ('numpy.ravel', 'numpy.flatten', 'numpy.copy'):
        return dims(arr, base)
    d, p = dims(arr, base)
    p = dict(p)

    def ax(t):
        if t.op != 'const' or not isinstance(t.a[0], int) or not -len(d) <= t.a[0] < len(d):
            raise Wrong('an axis %s of %d is used' % (show(t), len(d))) if t.op == 'const' and isinstance(t.a[0], int) else Lost
        return t.a[0] % len(d)
    if name in ('numpy.sum', 'numpy.nansum'):
        k = get('axis', 1)
        if k is None or set(kw) - {'axis', 'a'}:
            raise Lost
        ks = {ax(x) for x in (k.a if k.op in ('tuple', 'list', 'vec') else [k])}
        for i in ks:
            p[d[i]] = 'sum'
        return [x for i, x in enumerate(d) if i not in ks], p
    if name == 'numpy.take':
        i, k = get('indices', 1), get('axis', 2)
        if i is None or k is None or i.op not in ('param', 'const'):
            raise Lost
        k = ax(k)
        p[d[k]] = i
        return [x for j, x in enumerate(d) if j != k], p
    if name == 'numpy.transpose':
        o = a[1:] if len(a) > 2 else list(a[1].a) if len(a) == 2 and a[1].op in ('tuple', 'list', 'vec') else list(kw['axes'].a) if 'axes' in kw and kw['axes'].op in ('tuple', 'list', 'vec') else None
        if o is None:
            if len(a) > 1 or kw:
                raise Lost
            return d[::-1], p
        return [d[ax(x)] for x in o], p
    if name == 'numpy.swapaxes' and len(a) == 3:
        i, j = ax(a[1]), ax(a[2])
        d[i], d[j] = d[j], d[i]
        return d, p
    if name == 'numpy.moveaxis' and len(a) == 3:
        i, j = ax(a[1]), ax(a[2])
        x = d.pop(i)
        d.insert(j, x)
        return d, p
    raise Lost


class Wrong(Exception):
    pass


def place(t):
    """axis and kind of a coordinate array; kind None when displaced"""
    while t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.copy', 'numpy.array', 'numpy.asarray') and len(t.a[1]) == 1 or t.op == 'mcall' and t.a[0] == 'copy':
        t = t.a[1][0] if t.op == 'call' else t.a[1]
    if t.op == 'obj' and t.a[0] in NAMES:
        return t.a[1], NAMES[t.a[0]]
    if t.op == 'call' and t.a[0].op == 'func' and t.a[0].a[0].endswith('_axis_edges'):
        kw = dict(t.a[2])
        x = kw.get('ax', t.a[1][0] if t.a[1] else None)
        if x is None:
            raise Lost
        at = [s for s in subterms(x) if s.op == 'obj' and s.a[0] in NAMES]
        if len(set(at)) != 1 or 'edges' in at[0].a[0]:
            raise Lost
        k, kind = place(at[0])
        bare = strip(x)
        if bare is at[0]:
            return k, kind
        p = poly(bare)
        if p.atoms() <= {at[0], mk('obj', 'pixel', k)}:
            return k, kind if p == poly(at[0]) else None
    raise Lost


def strip(t):
    from terms import rebuild
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.copy', 'numpy.array', 'numpy.asarray') and len(t.a[1]) == 1:
        return strip(t.a[1][0])
    if t.op == 'mcall' and t.a[0] == 'copy':
        return strip(t.a[1])
    return t


# -------------------------------------------------------------------- grids

def grid(n, four):
    V = lambda *x: mk('vec', *x)
    each = lambda what: L(*[mk('obj', what, i) for i in range(n)])
    d = {'n_dimensions': K(n), 'n_properties': K(3), 'grid_active': TRUE, 'fourier_space': V(*[K(bool(x)) for x in four]), 'grid': DATA, 'axes': each('edges'), 'axes_centers': each('centres'),
         'fourier_axes': each('fourier edges'), 'fourier_axes_centers': each('fourier centres'), 'axunits': each('unit'), 'pixel_size': V(*[mk('obj', 'pixel', i) for i in range(n)])}
    return {(ME, k): v for k, v in d.items()}


def image(rep, rule, con, f, e, n, four, xy, picks):
    """one drawn image: where it is drawn and what is drawn"""
    where = e.where
    if len(e.args) < 3:
        return None
    try:
        xs, ys = place(e.args[0]), place(e.args[1])
    except Lost:
        xs = ys = None
        rep.notes.append('%s: coordinates not followed' % con)
    if xs is not None:
        for nm, got, k in (('horizontal', xs, xy[0]), ('vertical', ys, xy[1])):
            rep.ob(rule, '%s, %s axis' % (con, nm), got[0] == k, where, 'axis %d of the grid is drawn along the %s axis in place of axis %d' % (got[0], nm, k))
            if got[0] == k:
                rep.ob(rule, '%s, %s coordinates' % (con, nm), got[1] == int(four[k]), where, 'the coordinates of axis %d are %s' % (k, 'displaced from its cells' if got[1] is None else 'not those of %s space' % ('Fourier' if four[k] else 'map')))
    content(rep, rule, con, e.args[2], where, n, xy, picks)
    return e


def content(rep, rule, con, t, where, n, xy, picks):
    try:
        d, p = dims(t, {DATA: list(range(n)) + ['p']})
    except Lost:
        rep.notes.append('%s: image not followed' % con)
        return
    except Wrong as x:
        rep.ob(rule, con + ', cells', False, where, str(x))
        return
    rep.ob(rule, con + ', cells', d == [xy[1], xy[0]], where, 'the image runs along axes %s (vertical, horizontal), not %s' % (d, [xy[1], xy[0]]))
    bad = [k for k, v in picks.items() if p.get(k) is not v and not (p.get(k) == v)]
    rep.ob(rule, con + ', what is shown', not bad, where, ', '.join('%s is %s, not %s' % ('property' if k == 'p' else 'axis %s' % k, word(p.get(k)), word(picks[k])) for k in bad))


def word(v):
    return 'left out' if v is None else 'summed' if v == 'sum' else 'taken at %s' % show(v)


def visualize(prog, rep, cls):
    f = prog.lookup(cls, 'visualize')
    if f is None:
        return
    rep.saw(f)
    for n, four in ((2, (0, 0)), (3, (0, 0, 0)), (3, (0, 1, 0)), (4, (0, 0, 0, 0))):
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                rest = [i for i in range(n) if i not in (a, b)]
                for how in ('sum', 'slice'):
                    it = interp(prog)
                    it.preset = grid(n, four)
                    sl = K('sum') if how == 'sum' else L(*[P('slice %d' % i) for i in rest])
                    r = it.run(f, bind=dict(ax=L(K(a), K(b)), slice_indices=sl, property=K(1), axkws=D(), plotkws=D()), selfcls=cls)
                    con = 'visualize axes %d, %d of %d%s%s' % (a, b, n, ' summed' if how == 'sum' else ' sliced', ' (axis 1 Fourier)' if any(four) else '')
                    es = drawn(r, 'pcolor', 'pcolormesh')
                    if len(es) != 1 or not normal(r):
                        rep.notes.append('%s not followed' % con)
                        continue
                    picks = {'p': K(1)}
                    picks.update({i: 'sum' if how == 'sum' else P('slice %d' % i) for i in rest})
                    image(rep, 'image', con, f, es[0], n, four, (a, b), picks)
                    for e in drawn(r, 'set', 'set_xlabel', 'set_ylabel'):
                        for key, k in (('xlabel', a), ('ylabel', b)):
                            t = e.kws.get(key) if e.name == 'set' else e.args[0] if e.args and e.name == 'set_' + key else None
                            u = {s.a[1] for s in subterms(t) if s.op == 'obj' and s.a[0] == 'unit'} if t is not None else set()
                            if len(u) == 1:
                                rep.ob('image', '%s, %s' % (con, key), u == {k}, e.where, 'axis %d is labelled with the unit of axis %d' % (k, list(u)[0]))


def animate(prog, rep, cls):
    f = prog.lookup(cls, 'animate')
    if f is None:
        return
    rep.saw(f)
    cases = [(3, s, [i for i in range(3) if i != s], z) for s in range(3) for z in ((0, 0, 0), (1, 0, 0), (0, 0, 1))]
    cases += [(3, s, [i for i in range(3) if i != s][::-1], (0, 0, 0)) for s in range(3)]
    cases += [(4, s, fs, (0, 0, 0, 0)) for s, fs in ((2, [0, 1]), (3, [1, 2]), (1, [2, 3]), (0, [1, 3]), (2, [1, 3]), (2, [3, 0]))]
    for n, s, fs, four in cases:
        for log in (FALSE, TRUE):
            for still in (TRUE, FALSE):
                it = interp(prog)
                it.preset = grid(n, four)
                r = it.run(f, bind=dict(slide_dim=K(s), face_dims=L(*map(K, fs)), prop_ind=K(1), still=still, i0=P('first'), save=NONE, logscale=log, minrescale=K(1), maxrescale=K(1)), selfcls=cls)
                con = 'animate along %d showing %d, %d of %d%s%s%s' % (s, fs[0], fs[1], n, ', logarithmic' if log is TRUE else '', ', still' if still is TRUE else '', ', Fourier %s' % (four,) if any(four) else '')
                es = drawn(r, 'pcolor', 'pcolormesh')
                if len(es) != 2 or not normal(r):
                    rep.notes.append('%s not followed' % con)
                    continue
                rest = {i: 'sum' for i in range(n) if i not in fs and i != s}
                edge = image(rep, 'frames', con + ', side', f, es[0], n, four, (s, fs[1]), {**rest, 'p': K(1), fs[0]: 'sum'})
                image(rep, 'frames', con + ', face', f, es[1], n, four, (fs[0], fs[1]), {**rest, 'p': K(1), s: P('first')})
                for later, i in ((False, P('first')), (True, P('frame'))):
                    marks(rep, con + (', later frame' if later else ''), [e for e in r.events if e.kind == 'mcall' and uses(e, P('frame')) == later], s, i)
                if still is TRUE:
                    continue
                for e in drawn(r, 'set_array'):
                    if e.args:
                        content(rep, 'frames', con + ', later frame', e.args[0], e.where, n, (fs[0], fs[1]), {**rest, 'p': K(1), s: P('frame')})


def uses(e, t):
    return any(t in subterms(x) for x in list(e.args) + list(e.kws.values()))


def marks(rep, con, es, s, i):
    """the title and the marker of a frame give the place of the slice it shows"""
    for e in es:
        if e.name not in ('set_title', 'set_data'):
            continue
        at = set()
        for x in e.args:
            for y in subterms(x):
                if y.op == 'sub' and y.a[1].op in ('param', 'const', 'bin'):
                    try:
                        k, kind = place(y.a[0])
                    except Lost:
                        continue
                    if k == s:
                        at.add(y.a[1])
        if not at:
            continue
        if e.name == 'set_title':
            rep.ob('frames', con + ', title', at == {i}, e.where, 'the title gives the place of slice %s, not of %s' % (', '.join(map(show, at)), show(i)))
        else:
            want = [poly(i), poly(i) + poly(K(1))]
            rep.ob('frames', con + ', marker', all(any(poly(x) == w for w in want) for x in at), e.where, 'the marker is at %s, not at slice %s' % (', '.join(map(show, at)), show(i)))


# -------------------------------------------------------------------- catalogues

def named(b, order):
    return mk('catalogue', b.get('property_name', NONE), b.get('use_all_inds', FALSE), b.get('in_h_units', NONE))


def handlers(prog, rep):
    cls = prog.cls('Handler')
    ret = prog.lookup(cls, 'return_property') if cls is not None else None
    if ret is None:
        return
    cat = lambda n, u: mk('catalogue', K(n), u, TRUE)

    def go(m, **b):
        f = prog.lookup(cls, m)
        if f is None:
            return None, None
        rep.saw(f)
        it = interp(prog)
        it.models[('func', ret.qual)] = lambda b: named(b, ret.params)
        r = it.run(f, bind=dict(in_h_units=TRUE, save=NONE, axkws=D(), plotkws=D(), **b), selfcls=cls)
        return f, r if r.exits and normal(r) else None
    for ys in (('b',), ('b', 'a')):
        for u in (TRUE, FALSE, K('compare')):
            f, r = go('plot', xname=K('c'), ynames=mk('tuple', *map(K, ys)), use_all_inds=u)
            con = 'plot %s against c, use_all_inds=%s' % (', '.join(ys), show(u))
            if r is None:
                rep.notes.append('%s not followed' % con)
                continue
            es = [e for e in drawn(r, 'plot', 'scatter') if len(e.args) >= 2]
            want = [(cat('c', v), cat(y, v)) for y in ys for v in ((TRUE, FALSE) if u.a[0] == 'compare' else (u,))]
            got = [(e.args[0], e.args[1]) for e in es]
            if all(x.op == 'catalogue' for g in got for x in g) and got:
                rep.ob('catalogue', con, sorted(got, key=str) == sorted(want, key=str), es[0].where, 'drawn are %s' % '; '.join('%s against %s' % (show(y), show(x)) for x, y in got))
            for e in es:
                l = e.kws.get('label')
                if l is not None and l.op == 'const' and e.args[1].op == 'catalogue':
                    rep.ob('catalogue', con + ', label %s' % show(l), l is e.args[1].a[0], e.where, '%s is labelled %s' % (show(e.args[1].a[0]), show(l)))
    for ys in (('b',), ('b', 'a')):
        for u in (TRUE, FALSE):
            for log in (TRUE, FALSE):
                f, r = go('hist', property_names=mk('tuple', *map(K, ys)), use_all_inds=u, logtransform=log)
                con = 'hist %s, use_all_inds=%s, logtransform=%s' % (', '.join(ys), show(u), show(log))
                if r is None:
                    rep.notes.append('%s not followed' % con)
                    continue
                es = [e for e in drawn(r, 'hist') if e.args]
                val = lambda y: mk('call', X('numpy.log10'), (cat(y, u),), ()) if log is TRUE else cat(y, u)
                got = [e.args[0] for e in es]
                if got and all(x.op == 'catalogue' or is_call(x, 'numpy.log10') for x in got):
                    rep.ob('catalogue', con, got == [val(y) for y in ys], es[0].where, 'drawn are %s' % '; '.join(map(show, got)))
                for e, y in zip(es, ys):
                    l = e.kws.get('label')
                    if l is not None and l.op == 'const':
                        rep.ob('catalogue', con + ', label %s' % show(l), l is K(y), e.where, '%s is labelled %s' % (y, show(l)))


def cone(prog, rep):
    cls = prog.cls('LCHandler')
    f, ret = prog.lookup(cls, 'animate') if cls is not None else None, prog.lookup(cls, 'return_property') if cls is not None else None
    if f is None or ret is None:
        return
    rep.saw(f)
    for h in (TRUE, FALSE):
        for cs, ss in (('log', 'log'), ('linear', 'linear'), ('log', 'linear')):
            it = interp(prog)
            it.models[('func', ret.qual)] = lambda b: named(b, ret.params)
            it.preset = {(ME, 'metadata'): D((K('shape'), K('box')), (K('open angle'), P('angle')), (K('maximum redshift'), P('zmax')), (K('minimum redshift'), P('zmin'))), (ME, 'h'): P('h'), (ME, 'cosmo'): P('cosmo'), (ME, 'shape'): K('box')}
            r = it.run(f, bind=dict(in_h_units=h, save=NONE, use_all_inds=P('all'), colorpropname=K('shade'), sizepropname=K('bulk'), colorscale=K(cs), sizescale=K(ss)), selfcls=cls)
            con = 'light cone animation, in_h_units=%s, colour %s, size %s' % (h.a[0], cs, ss)
            cats = lambda t: {s.a[0].a[0] for s in subterms(t) if s.op == 'catalogue' and s.a[0].op == 'const'}
            es = drawn(r, 'scatter')
            if not normal(r) or not es:
                rep.notes.append('%s not followed' % con)
                continue
            pairs = [('pos_z', 'pos_x'), ('pos_x', 'pos_y'), ('ra', 'dec')]
            for e in es:
                if len(e.args) < 2:
                    continue
                xy = tuple(map(cats, e.args[:2]))
                if any(len(s) != 1 for s in xy):
                    continue
                xy = tuple(list(s)[0] for s in xy)
                rep.ob('light cone', '%s, %s against %s' % (con, xy[1], xy[0]), xy in pairs, e.where, '%s is drawn against %s' % (xy[1], xy[0]))
                if xy in pairs:
                    for t, n in zip(e.args[:2], xy):
                        c = mk('catalogue', K(n), P('all'), h)
                        for s in subterms(t):
                            if s.op == 'catalogue':
                                rep.ob('light cone', '%s, %s' % (con, n), s is c, e.where, '%s is drawn in place of %s' % (show(s), show(c)))
                        if n in ('ra', 'dec'):
                            rep.ob('light cone', '%s, %s in arcmin' % (con, n), arcmin(t, c), e.where, '%s, labelled in arcmin, is drawn as %s' % (n, show(t, 5)))
                        else:
                            rep.ob('light cone', '%s, %s as it is' % (con, n), t is c, e.where, '%s is drawn as %s' % (n, show(t, 5)))
                c = e.kws.get('c', e.kws.get('color'))
                if c is not None and len(cats(c)) >= 1:
                    rep.ob('light cone', '%s, colour of %s' % (con, xy[1]), cats(c) == {'shade'}, e.where, 'the colour of the points follows %s' % ', '.join(sorted(cats(c))))
                    rep.ob('light cone', '%s, colour scale of %s' % (con, xy[1]), logs(c, 'shade') in (None, cs == 'log'), e.where, 'the colour scale is not %s' % cs)
            for e in drawn(r, 'set_sizes'):
                if not e.args or not cats(e.args[0]) - {'pos_z'}:
                    continue
                cs_ = [s for s in subterms(e.args[0]) if s.op == 'cmp' and cats(s)]
                rep.ob('light cone', con + ', size', cats(e.args[0]) - {'bulk'} <= {'pos_z'}, e.where, 'the size of the points follows %s' % ', '.join(sorted(cats(e.args[0]))))
                rep.ob('light cone', con + ', size scale', logs(e.args[0], 'bulk') in (None, ss == 'log'), e.where, 'the size scale is not %s' % ss)
                for s in cs_:
                    rep.ob('light cone', con + ', shown slab', cats(s) == {'pos_z'}, e.where, 'the points of a frame are chosen by %s' % ', '.join(sorted(cats(s))))


def logs(t, n):
    """whether the named property goes in as its logarithm; None when mixed"""
    seen = set()

    def go(t, inside):
        if t.op == 'catalogue':
            if t.a[0] is K(n):
                seen.add(inside)
            return
        inn = inside or is_call(t, 'numpy.log10')
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        go(z, inn)
    go(t, False)
    return list(seen)[0] if len(seen) == 1 else None


def arcmin(t, c):
    import math
    try:
        from terms import subst
        v = number(subst(t, {c: K(1.)}))
    except Exception:
        v = None
    return v is None or abs(v - 60 * 180 / math.pi) < 1e-6


def number(t):
    import math
    if t.op == 'const':
        return float(t.a[0])
    if t.op == 'ext' and t.a[0] in ('numpy.pi', 'math.pi'):
        return math.pi
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.rad2deg', 'numpy.degrees') and len(t.a[1]) == 1:
        return math.degrees(number(t.a[1][0]))
    if t.op == 'bin':
        a, b = number(t.a[1]), number(t.a[2])
        return {'*': a * b, '/': a / b, '+': a + b, '-': a - b}[t.a[0]]
    raise ValueError


# -------------------------------------------------------------------- detectors and model tables

def detector(prog, rep):
    cls = prog.cls('Instrument')
    f = prog.lookup(cls, 'plot_detector_response') if cls is not None else None
    if f is None:
        return
    rep.saw(f)
    resp = {}
    dets = {n: mk('obj', 'detector ' + n) for n in ('one', 'two')}
    for names, ref in ((('one', 'two'), NONE), (('two',), K(230.5)), (('two', 'one'), NONE)):
        it = interp(prog)
        it.preset = {(ME, 'detectors'): D(*[(K(n), d) for n, d in dets.items()]), (ME, 'detector_names'): L(*map(K, dets)), (ME, 'best_spatial_res'): P('resolution'), (ME, 'spectral_unit'): K('GHz'), (ME, 'spatial_unit'): K('rad')}
        for n, d in dets.items():
            for a in ('spatial_response', 'spectral_response'):
                it.preset[d, a] = mk('obj', a, n)
            for a in ('spatial_kwargs', 'spectral_kwargs'):
                it.preset[d, a] = D((K('own'), mk('obj', a, n)))
            it.preset[d, 'reffreq'] = P('frequency of ' + n)
        b = {'xmin': P('x0'), 'xmax': P('x1'), 'ymin': P('y0'), 'ymax': P('y1'), 'fmin': P('f0'), 'fmax': P('f1'), 'fspatial': ref}
        va = f.vararg
        if va:
            b[va] = mk('tuple', *map(K, names))
        elif 'detector_names' in f.params:
            b['detector_names'] = L(*map(K, names))
        r = it.run(f, bind={k: v for k, v in b.items() if k in f.params or k == va}, selfcls=cls)
        con = 'response of %s%s' % (', '.join(names), '' if ref is NONE else ' at a frequency')
        if not normal(r):
            rep.notes.append('%s not followed' % con)
            continue
        shown = []
        for e in drawn(r, 'pcolor', 'pcolormesh', 'imshow', 'contourf'):
            if len(e.args) < 3:
                continue
            c = [s for s in subterms(e.args[2]) if s.op == 'call' and s.a[0].op == 'obj' and s.a[0].a[0] == 'spatial_response']
            if len(set(c)) != 1:
                continue
            c = c[0]
            n = c.a[0].a[1]
            shown.append(n)
            own = dict(c.a[2]).get('own')
            rep.ob('detector', '%s, beam of %s settings' % (con, n), own is None or own.a == ('spatial_kwargs', n), e.where, 'the beam of %s is drawn with the settings of another detector' % n)
            if len(c.a[1]) == 3:
                fr = c.a[1][2]
                rep.ob('detector', '%s, beam of %s frequency' % (con, n), fr is (P('frequency of ' + n) if ref is NONE else ref), e.where, 'the beam is drawn at %s' % show(fr))
                try:
                    d, p = dims(e.args[2], {c: ['x', 'y', 'f']})
                except (Lost, Wrong):
                    rep.notes.append('%s: image not followed' % con)
                    continue
                side = {c.a[1][0]: 'x', c.a[1][1]: 'y'}
                h, v = side.get(e.args[0]), side.get(e.args[1])
                if h and v:
                    rep.ob('detector', '%s, beam of %s' % (con, n), (h, v) == ('x', 'y') and d == ['y', 'x'], e.where, 'the beam, indexed by %s, is drawn along %s (vertical) and %s (horizontal)' % (', '.join(map(str, d)), v, h))
        if shown:
            rep.ob('detector', con + ', beams', sorted(shown) == sorted(names), wh(f), 'the beams of %s are drawn' % ', '.join(shown))
        for e in drawn(r, 'plot'):
            if len(e.args) < 2:
                continue
            c = e.args[1]
            if c.op == 'call' and c.a[0].op == 'obj' and c.a[0].a[0] == 'spectral_response':
                n = c.a[0].a[1]
                own = dict(c.a[2]).get('own')
                rep.ob('detector', '%s, spectrum of %s' % (con, n), c.a[1] == (e.args[0],) and (own is None or own.a == ('spectral_kwargs', n)), e.where, 'the spectral response of %s is drawn at other frequencies or with the settings of another detector' % n)


def spectra(prog, rep):
    cls = prog.cls('Instrument')
    f = prog.lookup(cls, 'plot_spectral_response') if cls is not None else None
    if f is None:
        return
    rep.saw(f)
    dets = {n: (mk('obj', 'detector ' + n), v) for n, v in (('one', 220.), ('two', 150.), ('three', 90.))}
    for unit in ('GHz', 'um'):
        it = interp(prog)
        it.preset = {(ME, 'detectors'): D(*[(K(n), d) for n, (d, v) in dets.items()]), (ME, 'detector_names'): L(*map(K, dets)), (ME, 'spectral_unit'): K(unit)}
        for n, (d, v) in dets.items():
            it.preset[d, 'spectral_response'] = mk('obj', 'spectral_response', n)
            it.preset[d, 'spectral_kwargs'] = D((K('own'), mk('obj', 'spectral_kwargs', n)))
            it.preset[d, 'reffreq'] = K(v)
        r = it.run(f, selfcls=cls)
        con = 'spectra in %s' % unit
        es = [e for e in drawn(r, 'plot') if len(e.args) >= 2]
        cs = [e.args[1] for e in es]
        if not normal(r) or not cs or not all(c.op == 'call' and c.a[0].op == 'obj' and c.a[0].a[0] == 'spectral_response' for c in cs):
            rep.notes.append('%s not followed' % con)
            continue
        for e, c in zip(es, cs):
            n, own = c.a[0].a[1], dict(c.a[2]).get('own')
            rep.ob('detector', '%s of %s' % (con, n), c.a[1] == (e.args[0],) and (own is None or own.a == ('spectral_kwargs', n)), e.where, 'the spectral response of %s is drawn at other frequencies or with the settings of another detector' % n)
        rep.ob('detector', con, sorted(c.a[0].a[1] for c in cs) == sorted(dets), wh(f), 'the spectra of %s are drawn' % ', '.join(c.a[0].a[1] for c in cs))


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def tables(prog, rep):
    for cls in prog.classes.values():
        f = prog.lookup(cls, 'plot_grid')
        if f is None or f.cls is not cls:
            continue
        rep.saw(f)
        for prop in ('sfr', 'stellar', 'other'):
            it = interp(prog)
            r = it.run(f, bind=dict(prop=K(prop)), selfcls=cls)
            con = '%s.plot_grid %s' % (cls.name, prop)
            ok = normal(r)
            if prop == 'other':
                rep.ob('table', con, not ok, wh(f), 'something is drawn for a property that is not there')
                continue
            for e in drawn(r, 'pcolor', 'pcolormesh'):
                if len(e.args) < 3:
                    continue
                ev = [s for s in subterms(e.args[2]) if s.op == 'mcall' and s.a[0] == 'ev' or s.op == 'call' and s.a[0].op == 'attr' and 'function' in str(s.a[0].a)]
                if len(set(ev)) != 1 or len(ev[0].a[2]) != 2:
                    rep.notes.append('%s not followed' % con)
                    continue
                ev = ev[0]
                fn = [s for s in subterms(ev.a[1]) if s.op == 'attr']
                text = show(ev.a[1])
                rep.ob('table', con + ', function', ('sfr' in text) == (prop == 'sfr'), e.where, 'the function drawn is %s' % text)
                flat = lambda t: t.a[1] if t.op == 'mcall' and t.a[0] in ('flatten', 'ravel') else t
                rep.ob('table', con + ', place', tuple(map(flat, ev.a[2])) == (e.args[0], e.args[1]), e.where, 'the value drawn at a point is that of another point')
                lab = [x for x in drawn(r, 'set')]
                for key, t in (('xlabel', e.args[0]), ('ylabel', e.args[1])):
                    l = [x.kws[key] for x in lab if key in x.kws and x.kws[key].op == 'const']
                    w = 'redshift' if l and 'edshift' in l[0].a[0] else 'mass' if l and 'Mass' in l[0].a[0] else None
                    # the coordinates of a mesh: first output repeats the first input
                    src = t
                    if t.op == 'sub' and is_call(t.a[0], 'numpy.meshgrid') and t.a[1].op == 'const' and len(t.a[0].a[1]) == 2:
                        src = t.a[0].a[1][t.a[1].a[0]]
                    of = {x for x in ('redshift', 'mass') if 'grid_' + x in show(src, 12)}
                    if w and len(of) == 1:
                        rep.ob('table', '%s, %s' % (con, key), of == {w}, e.where, 'the axis labelled %s holds %s' % (l[0].a[0], list(of)[0]))


def check(prog, rep):
    rep.rule('image', 'visualize draws each cell at the coordinates of the axes asked for', 60)
    rep.rule('frames', 'an animation shows, in every frame, the cells of that frame at their coordinates', 60)
    rep.rule('catalogue', 'plots and histograms draw the named properties of the chosen objects, under their names', 12)
    rep.rule('light cone', 'the animation of a light cone draws the named properties of the chosen objects', 20)
    rep.rule('detector', 'a detector response is drawn along the offsets and frequencies it is evaluated at', 8)
    rep.rule('table', 'a model table is drawn at the redshift and mass it belongs to', 4)
    g = prog.cls('Grid')
    if g is not None:
        visualize(prog, rep, g)
        animate(prog, rep, g)
    handlers(prog, rep)
    cone(prog, rep)
    detector(prog, rep)
    spectra(prog, rep)
    tables(prog, rep)
