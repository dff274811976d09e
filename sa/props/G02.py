"""Per-axis and per-property arguments act on the axis / property they are listed for."""
from gridstate import *
from terms import children

ASSUMPTIONS = [
    'operations are analysed on three-axis, two-property grids with axis and property lists given out of order and in part',
    'only results whose per-axis structure the uniform-array and shape domains can follow are judged',
]
SELF = P('self')


def check(prog, rep):
    rep.rule('axis-effect', 'a per-axis argument changes exactly the axis it is listed for, by the amount given', 20)
    rep.rule('axis-units', 'units given for an axis are recorded for that axis and its Fourier counterpart', 6)
    rep.rule('axis-weights', 'weights given for an axis vary along that axis only', 2)
    rep.rule('axis-data', 'the data array is changed along the axes named', 6)
    rep.rule('property-order', 'properties keep the order and the values they are listed with', 6)
    pads(prog, rep)
    scales(prog, rep)
    downs(prog, rep)
    crops(prog, rep)
    collapse(prog, rep)
    convolve(prog, rep)
    properties(prog, rep)
    catalogue(prog, rep)
    spectra(prog, rep)
    average(prog, rep)
    beams(prog, rep)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def views(st, x, grids, integers=(), extra=None, shapes=None):
    for d in choices([st.get(a) for a in ATTRS], x.guards) or ():
        v = View(grids, d, integers, extra, shapes)
        if v.possible:
            yield v


def effect(rep, f, con, st, x, g, want, integers=(), data=True):
    """want: {axis: {attr: Rat}}"""
    for v in views(st, x, [g], integers):
        for i, w in want.items():
            for a, r in w.items():
                t = st.entry(a, i, v.ax)
                s = v.ax.scalar(t) if t is not None else None
                ok = v.same(s, r)
                if ok is not None:
                    rep.ob('axis-effect', '%s axis %d %s' % (con, i, a), ok, wh(f), '%s of axis %d becomes %r, should be %r' % (a, i, s, r))
        if data and st.get('grid_active') is TRUE and st.get('grid') is not None:
            s = v.sh.of(st.get('grid'))
            for i, w in want.items():
                if s is not None and i < len(s) and s[i] is not None and 'n_pixels' in w:
                    ok = v.same(s[i], w['n_pixels'])
                    if ok is not None:
                        rep.ob('axis-data', '%s axis %d' % (con, i), ok, wh(f), 'the data has %r cells along axis %d, should have %r' % (s[i], i, w['n_pixels']))


def keepaxis(g, i):
    return dict(n_pixels=atom(g.N[i]), pixel_size=atom(g.d[i]), center_point=atom(g.c[i]))


def pads(prog, rep):
    for ax in ((2, 0), (0, 2), (1,), (0, 1, 2), (2, 1, 0)):
        for amounts in ((2, 3, 5), (-1, 2, -3), (1, 0, 4)):
            p = dict(zip(ax, amounts))
            g = G()
            f, r = grid_spec(prog, 'pad', g, dict(ax=L(*[K(i) for i in ax]), pad=L(*[K(p[i]) for i in ax])))
            rep.saw(f)
            for x in normal(r):
                want = {i: dict(n_pixels=atom(g.N[i]) + 2 * p.get(i, 0), pixel_size=atom(g.d[i]), center_point=atom(g.c[i])) for i in range(3)}
                effect(rep, f, 'pad %s by %s' % (list(ax), [p[i] for i in ax]), State(x, SELF, g.heap), x, g, want)
    g = G(fourier=[TRUE, FALSE, FALSE])
    f, r = grid_spec(prog, 'pad', g, dict(ax=L(K(2), K(0)), pad=L(K(2), K(3))))
    for x in normal(r):
        n = atom(g.N[0]) + 6
        want = {0: dict(n_pixels=n, pixel_size=atom(g.N[0]) * atom(g.d[0]) * n.inv()), 1: keepaxis(g, 1), 2: dict(n_pixels=atom(g.N[2]) + 4, pixel_size=atom(g.d[2]))}
        effect(rep, f, 'pad one Fourier axis', State(x, SELF, g.heap), x, g, want)


Rat.__rmul__ = lambda self, k: self * k
Rat.__radd__ = lambda self, k: self + k


def scales(prog, rep):
    for ax in ((2, 0), (0, 2), (1,), (2, 1, 0)):
        fac = {i: P('f%d' % i) for i in ax}
        for sc in (TRUE, FALSE):
            for units in ('list', 'one', 'same', None):
                g = G()
                un = {i: K('unit%d' % i) for i in ax}
                b = dict(ax=L(*[K(i) for i in ax]), factor=L(*[fac[i] for i in ax]), scalecenter=sc)
                b['axunits'] = L(*[un[i] for i in ax]) if units == 'list' else K('one') if units == 'one' else K('same') if units else NONE
                f, r = grid_spec(prog, 'scale_axis', g, b, scalars=[K('one')])
                rep.saw(f)
                con = 'scale_axis %s' % list(ax)
                for x in normal(r):
                    st = State(x, SELF, g.heap)
                    want = {i: keepaxis(g, i) for i in range(3)}
                    for i in ax:
                        want[i] = dict(n_pixels=atom(g.N[i]), pixel_size=atom(g.d[i]) * atom(fac[i]), side_length=atom(g.N[i]) * atom(g.d[i]) * atom(fac[i]),
                                       center_point=atom(g.c[i]) * (atom(fac[i]) if sc is TRUE else rat(1)))
                    if units == 'same':
                        effect(rep, f, con + ' scalecenter=%s' % show(sc), st, x, g, want)
                    for i in range(3):
                        u, fu = st.entry('axunits', i), st.entry('fourier_axunits', i)
                        if u is None or fu is None or u.op not in ('const', 'param') or fu.op not in ('const', 'param'):
                            continue
                        if i not in ax or units == 'same':
                            ok = u is g.u[i] and fu is g.fu[i]
                        elif units is None:
                            ok = u is NONE and fu is NONE
                        else:
                            e = 'unit%d' % i if units == 'list' else 'one'
                            ok = u is K(e) and fu is K(e + '^-1')
                        rep.ob('axis-units', con + ' units %s axis %d' % (units, i), ok, wh(f), 'axis %d gets unit %s and Fourier unit %s' % (i, show(u), show(fu)))
    # units given at construction
    c, d, S = ([P('%s%d' % (k, i)) for i in range(3)] for k in 'cdS')
    f, r = grid_spec(prog, '__init__', None, dict(n_properties=K(2), center_point=L(*c), side_length=L(*S), pixel_size=L(*d), axunits=L(K('a'), NONE, K('b')), gridunits=L(K('x'), K('y'))))
    rep.saw(f)
    for x in normal(r):
        st = State(x, SELF)
        for i, (u, fu) in enumerate((('a', 'a^-1'), (None, None), ('b', 'b^-1'))):
            a, b = st.entry('axunits', i), st.entry('fourier_axunits', i)
            if a is not None and b is not None and a.op == b.op == 'const':
                rep.ob('axis-units', 'Grid axis %d' % i, a is K(u) and b is K(fu), wh(f), 'axis %d gets unit %s and Fourier unit %s' % (i, show(a), show(b)))
        for i, u in enumerate('xy'):
            a = st.entry('gridunits', i)
            if a is not None and a.op == 'const':
                rep.ob('property-order', 'Grid data unit %d' % i, a is K(u), wh(f), 'property %d gets unit %s' % (i, show(a)))


def downs(prog, rep):
    for ax in ((2, 0), (0, 2), (1,)):
        fac = {i: P('f%d' % i) for i in ax}
        g = G()
        f, r = grid_spec(prog, 'down_sample', g, dict(ax=L(*[K(i) for i in ax]), factor=L(*[fac[i] for i in ax]), mode=K('average')))
        rep.saw(f)
        for x in normal(r):
            st = State(x, SELF, g.heap)
            want = {i: keepaxis(g, i) for i in range(3)}
            for i in ax:
                want[i] = dict(pixel_size=atom(g.d[i]) * atom(fac[i]))
                for v in views(st, x, [g], fac.values()):
                    n = v.ax.scalar(mk('bin', '//', g.N[i], fac[i]))
                    want[i]['n_pixels'] = n
                    break
            effect(rep, f, 'down_sample %s' % list(ax), st, x, g, want, integers=tuple(fac.values()))
            reduced(rep, f, 'down_sample %s' % list(ax), st.get('grid'))


def reduced(rep, f, con, d):
    """blocks of cells are combined along the axis they were cut from"""
    for s in subterms(d) if d is not None else ():
        if not (is_call(s, 'numpy.mean') or is_call(s, 'numpy.sum')) or not s.a[1] or s.a[1][0].op != 'sub':
            continue
        ix, k = s.a[1][0].a[1], kw(s, 'axis', s.a[1][1] if len(s.a[1]) > 1 else None)
        if ix.op == 'tuple' and k is not None and k.op == 'const' and isinstance(k.a[0], int) and all(y.op == 'slice' for y in ix.a):
            cut = [j for j, y in enumerate(ix.a) if not (y.a[0] in (NONE, K(0)) and y.a[1] is NONE)]
            if len(cut) == 1:
                rep.ob('axis-data', con + ' block', k.a[0] % len(ix.a) == cut[0], wh(f), 'cells cut along axis %d are combined along axis %d' % (cut[0], k.a[0]))


def crops(prog, rep):
    for k in range(3):
        g = G()
        f, r = grid_spec(prog, 'crop', g, dict(ax=K(k), min=P('lo'), max=P('hi')))
        rep.saw(f)
        for x in normal(r):
            st = State(x, SELF, g.heap)
            effect(rep, f, 'crop axis %d' % k, st, x, g, {i: keepaxis(g, i) for i in range(3) if i != k})
            # the limits are compared with the cropped axis
            t = st.entry('axes_centers', k)
            if t is not None:
                other = [a for j in range(3) if j != k for a in (g.A[j], g.C[j])]
                rep.ob('axis-effect', 'crop axis %d limits' % k, not any(a in subterms(t) for a in other), wh(f), 'cropping axis %d looks at another axis: %s' % (k, show(t)[:160]))


def collapse(prog, rep):
    for ax in ((2, 0), (0, 2), (1,)):
        for ip in (TRUE, FALSE):
            g = G()
            w = {i: P('w%d' % i) for i in ax}
            keep = [i for i in range(3) if i not in ax]
            pre = {(w[i], 'ndim'): K(1) for i in ax}
            b = dict(ax=L(*[K(i) for i in ax]), weights=L(*[w[i] for i in ax]) if len(ax) > 1 else w[ax[0]], in_place=ip, mode=K('average'))
            f, r = grid_spec(prog, 'collapse_dimension', g, b, preset=pre, models={mk('ext', 'numpy.array'): lambda a, k: a[0] if a[0] in w.values() else None}, guards=given(*w.values()))
            rep.saw(f)
            con = 'collapse_dimension %s in_place=%s' % (list(ax), show(ip))
            for x in normal(r):
                obj = x.value if x.value.op == 'new' else SELF
                st = State(x, obj, g.heap if obj is SELF else None)
                for i, j in enumerate(keep):
                    u = st.entry('axunits', i)
                    if u is not None and u.op == 'param':
                        rep.ob('axis-units', '%s remaining axis %d' % (con, j), u is g.u[j] and st.entry('fourier_axunits', i) is g.fu[j], wh(f), 'remaining axis %d has unit %s' % (j, show(u)))
                d = st.get('grid')
                if d is None:
                    continue
                shapes = {w[i]: [atom(g.N[i])] for i in ax}
                for v in views(st, x, [g], shapes=shapes):
                    for i in ax:
                        others = {w[j] for j in ax if j != i} | {g.grid}
                        for s in subterms(d):
                            if w[i] in subterms(s) and not (others & subterms(s)) and s is not w[i] and s.op in ('mcall', 'call', 'sub'):
                                sh = v.sh.of(s)
                                if sh is not None and len(sh) == 4:
                                    ok = all((z is None or not v.same(z, rat(1))) if j == i else z is not None and v.same(z, rat(1)) for j, z in enumerate(sh))
                                    rep.ob('axis-weights', con + ' weights %d' % i, ok, wh(f), 'the weights listed for axis %d are laid out with shape %s' % (i, [repr(z) for z in sh]))
                    sh = v.sh.of(d)
                    if sh is not None and len(sh) == len(keep) + 1:
                        for i, j in enumerate(keep):
                            ok = v.same(sh[i], atom(g.N[j])) if sh[i] is not None else None
                            if ok is not None:
                                rep.ob('axis-data', '%s axis %d' % (con, j), ok, wh(f), 'the data keeps %r cells where axis %d has %r' % (sh[i], j, atom(g.N[j])))


def convolve(prog, rep):
    for ip in (TRUE, FALSE):
        for ax in ((2, 0), (1,)):
            pad = {2: 2, 0: 1, 1: 3}
            g, s = G(), G(tag='s', props=1)
            f, r = grid_spec(prog, 'convolve', g, dict(source=P('source'), ax=L(*[K(i) for i in ax]), pad=L(*[K(pad[i]) for i in ax]), in_place=ip), others=[(P('source'), s)])
            rep.saw(f)
            for e in r.ev('extcall'):
                if not str(e.name).endswith('fftconvolve'):
                    continue
                v = View([g, s], {c: p for c, p in e.guards})
                sh = v.sh.of(e.args[0])
                k = e.kws.get('axes', e.args[3] if len(e.args) > 3 else None)
                axs = vecs.ints(k) if k is not None else None
                con = 'convolve %s in_place=%s' % (list(ax), show(ip))
                if axs is not None:
                    rep.ob('axis-effect', con + ' axes', sorted(z % 4 for z in axs) == sorted(ax), e.where, 'convolution runs along axes %s' % axs)
                for i in range(3):
                    if sh is not None and sh[i] is not None:
                        n = atom(g.N[i]) + (2 * pad[i] if i in ax else 0)
                        rep.ob('axis-data', con + ' padding axis %d' % i, v.same(sh[i], n), e.where, 'axis %d has %r cells while convolving, %r were asked for' % (i, sh[i], n))


def properties(prog, rep):
    for idx in ((1, 0), (1,), (0,)):
        g = G()
        f, r = grid_spec(prog, 'copy', g, dict(properties=L(*[K(i) for i in idx])))
        rep.saw(f)
        for x in normal(r):
            if x.value.op != 'new':
                continue
            st = State(x, x.value)
            con = 'copy of properties %s' % list(idx)
            for k, i in enumerate(idx):
                u = st.entry('gridunits', k)
                if u is not None and u.op in ('param', 'const'):
                    rep.ob('property-order', con + ' units', u is g.g[i], wh(f), 'property %d of the copy has the unit %s' % (k, show(u)))
            selected(rep, f, con, st.get('grid'), g, idx)
        f, r = grid_spec(prog, 'sum_properties', g, dict(properties=L(*[K(i) for i in idx]), in_place=FALSE))
        rep.saw(f)
        for x in normal(r):
            if x.value.op == 'new':
                selected(rep, f, 'sum of properties %s' % list(idx), State(x, x.value).get('grid'), g, idx, order=False)
    pos = P('positions')
    f, r = grid_spec(prog, 'sample', G(), dict(positions=pos, properties=L(K(1), K(0))))
    rep.saw(f)
    for x in normal(r):
        ok = [s for s in subterms(x.value) if s.op == 'sub' and s.a[1].op == 'tuple' and s.a[1].a and vecs.ints(s.a[1].a[-1]) is not None and len(vecs.ints(s.a[1].a[-1])) == 2]
        for s in ok:
            rep.ob('property-order', 'sample', vecs.ints(s.a[1].a[-1]) == [1, 0], wh(f), 'samples of properties [1, 0] are taken from columns %s' % vecs.ints(s.a[1].a[-1]))


def selected(rep, f, con, d, g, idx, order=True):
    """the properties picked from the data array"""
    if d is None:
        return
    for s in subterms(d):
        if s.op == 'sub' and s.a[0] is g.grid and s.a[1].op == 'tuple' and len(s.a[1].a) in (2, 4):
            k = vecs.ints(s.a[1].a[-1]) or ([s.a[1].a[-1].a[0]] if s.a[1].a[-1].op == 'const' and isinstance(s.a[1].a[-1].a[0], int) else None)
            if k is not None:
                rep.ob('property-order', con + ' data', k == list(idx) if order else sorted(k) == sorted(idx), wh(f), 'data of properties %s comes from %s' % (list(idx), k))


def ident(*ts):
    """model: conversions of these arrays keep them"""
    return {mk('ext', n): (lambda a, k: a[0] if a and a[0] in ts else None) for n in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.atleast_1d', 'numpy.atleast_2d')}


def given(*ts):
    return tuple((mk('cmp', 'is', t, NONE), False) for t in ts)


def catalogue(prog, rep):
    pos, val = P('positions'), P('values')
    pre = {(pos, 'shape'): mk('tuple', P('n'), K(3)), (val, 'ndim'): K(2), (val, 'shape'): mk('tuple', P('n'), K(2))}
    for idx in ((1, 0), (0, 1)):
        f, r = grid_spec(prog, 'add_from_cat', G(), dict(positions=pos, values=val, new_props=FALSE, properties=L(*[K(i) for i in idx])), preset=pre, models=ident(pos, val), guards=given(val))
        rep.saw(f)
        for e in r.ev('extcall'):
            if e.name == 'numpy.add.at' and len(e.args) == 3:
                p, col = lastindex(e.args[1]), column(e.args[2])
                if p is not None and col is not None and p in idx:
                    rep.ob('property-order', 'add_from_cat properties %s' % list(idx), col == idx.index(p), e.where, 'values column %d is added to property %d' % (col, p))


def lastindex(t):
    """constant last entry of an index built from positions and a property number"""
    if t.op == 'bin' and t.a[0] == '+':
        return lastindex(t.a[2])
    if t.op in ('tuple', 'list') and t.a and t.a[-1].op == 'const' and isinstance(t.a[-1].a[0], int):
        return t.a[-1].a[0]
    if t.op in ('tuple',) and t.a and t.a[-1].op == 'star':
        return None
    return None


def column(t):
    """column of a two-dimensional selection, ignoring the single-column alternative"""
    for _, v in leaves(t):
        if v.op == 'sub' and v.a[1].op == 'tuple' and len(v.a[1].a) == 2 and v.a[1].a[1].op == 'const' and isinstance(v.a[1].a[1].a[0], int):
            return v.a[1].a[1].a[0]
    return None


def spectra(prog, rep):
    pos, val = P('positions'), P('values')
    pre = {(pos, 'shape'): mk('tuple', P('n'), K(2))}
    for k in (0, 1, 2):
        for ax in (k, k - 3):
            g = G()
            pre2 = dict(pre)
            pre2[(val, 'shape')] = mk('tuple', P('n'), g.N[k])
            f, r = grid_spec(prog, 'add_from_pos_plus_array', g, dict(positions=pos, values=val, ax=K(ax), new_prop=FALSE, properties=L(K(1))), preset=pre2, models=ident(pos, val))
            rep.saw(f)
            con = 'add_from_pos_plus_array axis %d' % ax
            for e in r.ev('extcall'):
                if e.name == 'numpy.add.at' and len(e.args) == 3:
                    used = subterms(e.args[1])
                    wrong = [show(t) for t in (g.c[k], g.d[k], g.N[k]) if t in used]
                    miss = [show(t) for j in range(3) if j != k for t in (g.c[j], g.d[j], g.N[j]) if t not in used]
                    rep.ob('axis-effect', con + ' positions', not wrong and not miss, e.where, 'object positions use %s and not %s' % (wrong, miss))
                    v = View([g], {c: p for c, p in e.guards})
                    sh = v.sh.of(e.args[0])
                    if sh is not None and len(sh) == 4 and sh[2] is not None:
                        rep.ob('axis-data', con, v.same(sh[2], atom(g.N[k])), e.where, 'spectra are added along an axis of %r cells' % sh[2])
            for x in normal(r):
                st = State(x, SELF, g.heap)
                effect(rep, f, con, st, x, g, {i: keepaxis(g, i) for i in range(3)})
            func = P('spec_function')
            seen = []

            def model(a, kws, seen=seen):
                seen.append(a)
                return None
            f2, r2 = grid_spec(prog, 'add_from_spec_func', g, dict(positions=pos, spec_function=func, spec_ax=K(ax), new_prop=FALSE, properties=NONE), preset=pre, models=dict(ident(pos), **{}))
            rep.saw(f2)
            for e in r2.ev('extcall'):
                if e.fn is func and e.args:
                    used = subterms(e.args[0])
                    ok = (g.C[k] in used or g.A[k] in used) and not any(g.C[j] in used or g.A[j] in used for j in range(3) if j != k)
                    rep.ob('axis-effect', 'add_from_spec_func axis %d spectrum' % ax, ok, e.where, 'the spectrum is evaluated on %s' % show(e.args[0])[:160])
            for e in r2.ev('call'):
                if e.callee.name == 'add_from_pos_plus_array':
                    a = e.binding.get('ax') if hasattr(e, 'binding') else None
                    if a is not None and a.op == 'const':
                        rep.ob('axis-effect', 'add_from_spec_func axis %d adds' % ax, a.a[0] % 3 == k, e.where, 'spectra are added along axis %s' % show(a))


def average(prog, rep):
    for ax in ((2, 0), (0, 2), (1, 2)):
        for four in (None, [TRUE, TRUE, TRUE]):
            g = G(fourier=four)
            f, r = grid_spec(prog, 'spherical_average', g, dict(ax=L(*[K(i) for i in ax]), center=L(*[P('x%d' % i) for i in range(3)]), shells=P('shells'), return_n=FALSE, return_std=FALSE))
            rep.saw(f)
            keep = [i for i in range(3) if i not in ax]
            con = 'spherical_average %s%s' % (list(ax), ' Fourier' if four else '')
            for x in normal(r):
                t = x.value
                if t.op == 'tuple' and len(t.a) >= 2 and t.a[0].op == 'list' and len(t.a[0].a) == len(keep) + 2:
                    for k, i in enumerate(keep):
                        e = t.a[0].a[1 + k]
                        want = (g.F if four else g.C)[i]
                        if e.op == 'param':
                            rep.ob('axis-effect', con + ' kept axis %d' % i, e is want, wh(f), 'axis %d of the result is described by %s' % (i, show(e)))
            for e in r.ev('aug', 'extcall', 'mcall'):
                pass
            # squared distances: coordinate minus centre of the same axis, laid out along that axis
            for s in sorted({s for x in normal(r) for s in subterms(x.value)}, key=lambda z: z.uid):
                if s.op != 'mcall' or s.a[0] != 'reshape' or s.a[1].op != 'bin' or s.a[1].a[0] != '-' or len(s.a[2]) != 1:
                    continue
                a, c = s.a[1].a[1], s.a[1].a[2]
                hit = [i for i in range(3) if a in (g.F[i], g.C[i])]
                sh = vecs.flat(s.a[2][0])
                if not hit or sh is None or len(sh) != 4:
                    continue
                i = hit[0]
                ok = c is P('x%d' % i) and all(y is g.N[i] or is_len(y, a) if j == i else y is K(1) for j, y in enumerate(sh))
                rep.ob('axis-effect', con + ' distance along axis %d' % i, ok and i in ax, wh(f), 'distances along axis %d: %s laid out as %s' % (i, show(s.a[1]), show(s.a[2][0])))


def is_len(y, a):
    return is_call(y, 'builtins.len') and y.a[1][0] is a


def beams(prog, rep):
    w, p = [P('w%d' % i) for i in range(2)], [P('p%d' % i) for i in range(2)]
    for side in (NONE, L(P('s0'), P('s1'))):
        f, r = grid_spec(prog, '__init__', None, dict(fwhm=L(*w), pixel_size=L(*p), side_length=side, norm=K('area')), cls='PSF')
        rep.saw(f)
        for x in normal(r):
            st = State(x, SELF)
            for d in choices([st.get(a) for a in ATTRS], x.guards) or ():
                v = View([], d)
                if not v.possible:
                    continue
                for i in range(2):
                    t = st.entry('pixel_size', i, v.ax)
                    s = v.ax.scalar(t) if t is not None else None
                    if s is not None:
                        rep.ob('axis-effect', 'PSF cell size axis %d' % i, v.same(s, atom(p[i])), wh(f), 'cell size of axis %d is %r' % (i, s))
                prof(rep, f, 'PSF', v, st, w, p, 2)
                break


def prof(rep, f, con, v, st, w, p, n):
    """each factor of the beam uses the width of the axis it is laid out along"""
    d = st.get('grid')
    if d is None:
        return
    for s in sorted(subterms(d), key=lambda z: z.uid):
        if s.op != 'mcall' or s.a[0] != 'reshape' or len(s.a[2]) != 1 or not is_call(s.a[1], 'numpy.exp'):
            continue
        sh = vecs.flat(s.a[2][0])
        if sh is None or len(sh) != n:
            continue
        along = [i for i, y in enumerate(sh) if not is_const(y, 1)]
        if len(along) != 1:
            continue
        i = along[0]
        arg = s.a[1].a[1][0]
        ok = not any(w[j] in widths(arg) for j in range(n) if j != i)
        rep.ob('axis-effect', '%s profile axis %d' % (con, i), ok and w[i] in subterms(arg), wh(f), 'the profile laid out along axis %d is %s' % (i, show(arg)[:200]))


def widths(t):
    """terms used outside the coordinate array (whose extent legitimately depends on other things)"""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('numpy.arange', 'numpy.linspace'):
            continue
        if x.op == 'phi':
            stack.extend(x.a[1:])
            continue
        out.add(x)
        stack.extend(children(x))
    return out
