"""The record of Fourier axes matches the transforms the data went through."""
import itertools
from gridstate import *
from ftalg import FT, matches
from axes import karg

ASSUMPTIONS = [
    'numpy.fft transforms of different axes commute; fftn and ifftn over the same axes, and fftshift and ifftshift, undo each other',
    'analysed on three-axis grids with every combination of axis states and representative ordered axis subsets',
]
SELF = P('self')
NORM = P('normalize')


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def flags(st, n, ax):
    out = []
    for i in range(n):
        e = st.entry('fourier_space', i, ax)
        e = ax.pick(e) if e is not None else None
        out.append(True if e is TRUE else False if e is FALSE else None)
    return out


def views(x, sts, grids):
    ch = choices([st.get(a) for st in sts for a in ('grid', 'fourier_space', 'n_properties')], x.guards)
    for d in ch or ():
        v = View(grids, d)
        if v.possible:
            yield v


def check(prog, rep):
    rep.rule('transform', 'data is transformed along exactly the requested axes, forward from map space and inverse from Fourier space, reordered on the matching side', 60)
    rep.rule('record', 'the record changes exactly for the axes whose data was transformed', 60)
    rep.rule('factor', 'normalised transforms multiply by the cell size going forward and divide by it going back', 12)
    rep.rule('kept', 'operations that do not transform leave record and data transforms alone', 20)
    subsets = ((0, 1, 2), (2, 0), (1,), (1, 2), ())
    for s in itertools.product((False, True), repeat=3):
        for a in subsets:
            transform(prog, rep, s, a)
    transform(prog, rep, (False, True, False), None)
    for s in ((False, False, False), (True, False, True), (False, True, False)):
        for a in ((2, 0), (0, 1, 2), (1,), None):
            for ip in (TRUE, FALSE):
                spectrum(prog, rep, s, a, ip, None)
                spectrum(prog, rep, s, a, ip, (False, True, True))
    others(prog, rep)


def bits(s):
    return [TRUE if x else FALSE for x in s]


def axarg(a):
    return NONE if a is None else L(*[K(i) for i in a])


def transform(prog, rep, s, a):
    for n in (TRUE, FALSE):
        g = G(fourier=bits(s))
        f, r = grid_spec(prog, 'fourier_transform', g, dict(ax=axarg(a), normalize=n))
        rep.saw(f)
        con = 'fourier_transform of axes %s from %s normalize=%s' % ('all' if a is None else list(a), ['FT'[x] for x in s], show(n))
        todo = range(3) if a is None else a
        want = [b != (i in todo) for i, b in enumerate(s)]
        for x in normal(r):
            st = State(x, SELF, g.heap)
            for v in views(x, [st], [g]):
                rec = flags(st, 3, v.ax)
                for i in range(3):
                    if rec[i] is not None:
                        rep.ob('record', '%s axis %d' % (con, i), rec[i] == want[i], wh(f), 'axis %d is recorded as %s, expected %s' % (i, rec[i], want[i]))
                c = FT(v.ax, 4).of(st.get('grid'))
                if c is not None and c.base is g.grid:
                    matches(c, v, s, want, g.d, n is TRUE, rep, wh(f), con, 'transform', 'data')


def spectrum(prog, rep, s, a, ip, cross):
    for n in (TRUE, FALSE):
        g = G(fourier=bits(s))
        o = G(tag='s', fourier=bits(cross)) if cross else None
        src = mk('obj', 'other')
        f, r = grid_spec(prog, 'power_spectrum', g, dict(ax=axarg(a), in_place=ip, normalize=n, cross_grid=src if cross else NONE), others=[(src, o)] if o else [])
        rep.saw(f)
        con = 'power_spectrum%s of axes %s from %s in_place=%s normalize=%s' % (' with another grid' if cross else '', 'all' if a is None else list(a), ['FT'[x] for x in s], show(ip), show(n))
        todo = range(3) if a is None else a
        want = [i in todo for i in range(3)]
        for x in normal(r):
            for conds, val in leaves(x.value):
                obj = val if val.op == 'new' else SELF
                st = State(x, obj, g.heap if obj is SELF else None)
                for v in views(x, [st], [g] + ([o] if o else [])):
                    rec = flags(st, 3, v.ax)
                    for i in range(3):
                        if rec[i] is not None:
                            rep.ob('record', '%s axis %d' % (con, i), rec[i] == want[i], wh(f), 'axis %d of the result is recorded as %s, expected %s' % (i, rec[i], want[i]))
                    if st.get('grid') is None:
                        continue
                    ft = FT(v.ax, 4)
                    for c in ft.found(st.get('grid'), {g.grid} | ({o.grid} if o else set())):
                        own = c.base is g.grid
                        matches(c, v, s if own else cross, want, (g if own else o).d, n is TRUE, rep, wh(f), con, 'transform', 'data of %s' % ('the grid' if own else 'the other grid'))


def others(prog, rep):
    f2, f0 = P('f2'), P('f0')
    ax = L(K(2), K(0))
    mixed = (False, True, True)
    maps = (False, False, False)
    cases = [('pad', dict(ax=ax, pad=L(K(2), K(1))), mixed, None), ('scale_axis', dict(ax=ax, factor=L(f2, f0)), mixed, None), ('crop', dict(ax=K(0), min=P('lo'), max=P('hi')), mixed, None),
             ('add_new_prop', dict(value=NONE), mixed, None), ('sum_properties', dict(properties=L(K(1), K(0)), in_place=TRUE), mixed, None), ('sum_properties', dict(properties=L(K(1), K(0)), in_place=FALSE), mixed, None),
             ('copy', dict(properties=NONE), mixed, None), ('copy', dict(properties=L(K(1))), mixed, None), ('down_sample', dict(ax=K(0), factor=f0), mixed, None),
             ('collapse_dimension', dict(ax=L(K(0)), in_place=TRUE), mixed, (1, 2)), ('collapse_dimension', dict(ax=L(K(1)), in_place=TRUE), mixed, (0, 2)),
             ('collapse_dimension', dict(ax=L(K(1)), in_place=FALSE), mixed, (0, 2)), ('collapse_dimension', dict(ax=L(K(1)), in_place=FALSE), maps, (0, 2)), ('collapse_dimension', dict(ax=L(K(2), K(0)), in_place=TRUE), (False, True, False), (1,)),
             ('collapse_dimension', dict(ax=L(K(2), K(0)), in_place=FALSE), (False, True, False), (1,)), ('init_grid', {}, maps, None)]
    for meth, b, s, keep in cases:
        g = G(fourier=bits(s))
        f, r = grid_spec(prog, meth, g, b)
        rep.saw(f)
        con = '%s %s from %s' % (meth, ' '.join('%s=%s' % (k, show(v, 3)) for k, v in sorted(b.items())), ['FT'[x] for x in s])
        for x in normal(r):
            for conds, val in leaves(x.value):
                obj = val if val.op == 'new' else SELF
                st = State(x, obj, g.heap if obj is SELF else None)
                for v in views(x, [st], [g]):
                    n = len(keep) if keep else 3
                    rec = flags(st, n, v.ax)
                    for i in range(n):
                        j = keep[i] if keep else i
                        if rec[i] is not None:
                            rep.ob('kept', '%s axis %d' % (con, j), rec[i] == s[j], wh(f), 'axis %d is recorded as %s, it was %s' % (j, rec[i], s[j]))
                    if st.get('grid') is not None and any(s) and meth != 'init_grid':
                        k = holds(st.get('grid'), g.grid)
                        if k is not None:
                            rep.ob('kept', con + ' numbers', k, wh(f), 'complex data is put into an array of real numbers, which drops its imaginary part')
                    if st.get('grid') is not None and meth != 'init_grid':
                        for c in FT(v.ax, 4).found(st.get('grid'), {g.grid}):
                            w = {k: z for k, z in c.words.items() if z}
                            rep.ob('kept', con + ' data', not w, wh(f), 'data is transformed (%s) by an operation that is no transform' % w)


def holds(t, grid):
    """whether an array the data is put into piece by piece can hold complex numbers; None when it is not made that way"""
    if t.op == 'phi':
        l = [holds(x, grid) for x in t.a[1:]]
        return False if False in l else True if True in l else None
    if t.op == 'loop' and len(t.a) > 3:
        new, init = t.a[3], t.a[2]
    elif t.op in ('upd', 'mut'):
        new = init = t
    else:
        return None
    got = False
    while new.op in ('upd', 'mut'):
        got = got or any(any(y is grid for y in subterms(x)) for x in new.a[1:] if hasattr(x, 'op'))
        new = new.a[0]
    while init.op in ('upd', 'mut'):
        init = init.a[0]
    if not got or not is_call(init, 'numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
        return None
    d = karg(init, 'dtype', 2 if is_call(init, 'numpy.full') else 1)
    if d is None:
        return None if is_call(init, 'numpy.full') else False
    if d.op == 'phi' and is_call(d.a[0], 'numpy.iscomplexobj') and d.a[0].a[1][:1] == (grid,):
        d = d.a[1]
    if d.op == 'ext' and d.a[0] in ('builtins.float', 'builtins.int', 'numpy.float64', 'numpy.float32') or d.op == 'const' and d.a[0] in ('float', 'float64', 'f', 'd', 'int', 'f8', 'float32'):
        return False
    if d.op == 'ext' and 'complex' in d.a[0] or d.op == 'const' and 'complex' in str(d.a[0]) or d.op == 'attr' and d.a[1] == 'dtype' and d.a[0] is grid:
        return True
    return None
