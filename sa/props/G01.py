"""Axis descriptions of a grid describe one box after construction and after every axis operation."""
from gridstate import *

ASSUMPTIONS = [
    'cell sizes are positive and Grid attributes change only through the methods analysed',
    'numpy constructors and slices have their documented lengths (domain of uniform arrays: start, step, count)',
    'operations are analysed on three-axis grids with symbolic cell counts, sizes, centres, limits and factors; pads take representative values',
]
SELF = P('self')


def check(prog, rep):
    for k, (t, n) in RULES.items():
        rep.rule(k, t, n)
    rep.rule('untouched', 'axes an operation is not given keep their description', 20)
    build(prog, rep)
    operate(prog, rep)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def build(prog, rep):
    c = [P('c%d' % i) for i in range(3)]
    S = [P('S%d' % i) for i in range(3)]
    d = [P('d%d' % i) for i in range(3)]
    base = dict(n_properties=K(2), axunits=NONE, gridunits=NONE)
    for con, b in (('per-axis sizes', dict(center_point=L(*c), side_length=L(*S), pixel_size=L(*d))), ('one size', dict(center_point=L(*c), side_length=L(S[0]), pixel_size=L(d[0]))),
                   ('with units', dict(center_point=L(*c), side_length=L(*S), pixel_size=L(*d), axunits=L(K('a'), K('b'), K('c')), gridunits=L(K('x'))))):
        f, r = grid_spec(prog, '__init__', None, dict(base, **b))
        rep.saw(f)
        for x in normal(r):
            consistency(rep, wh(f), 'Grid ' + con, State(x, SELF), x, [], active=False)
    g = G()
    f, r = grid_spec(prog, 'init_grid', g, {})
    for x in normal(r):
        consistency(rep, wh(f), 'init_grid', State(x, SELF), x, [g])
    # kinds of grids
    pos, val = P('positions'), P('values')
    for cls, b in (('GridFromAxes', {'axes': mk('tuple', P('ax0'), P('ax1'))}),):
        pass


def operate(prog, rep):
    f2, f0 = P('f2'), P('f0')
    ax = L(K(2), K(0))
    for four in (None, [TRUE, FALSE, TRUE]):
        for pad in ((2, 3), (-1, 2), (0, -2)):
            one(prog, rep, 'pad', 'pad %s%s' % (list(pad), ' in Fourier space' if four else ''), dict(ax=ax, pad=L(K(pad[0]), K(pad[1]))), G(fourier=four), (2, 0))
    one(prog, rep, 'pad', 'pad one axis', dict(ax=K(1), pad=K(2)), G(), (1,))
    for act in (TRUE, FALSE):
        for lo, hi in ((P('lo'), P('hi')), (NONE, P('hi')), (P('lo'), NONE)):
            one(prog, rep, 'crop', 'crop', dict(ax=K(1), min=lo, max=hi), G(active=act), (1,))
        for sc in (TRUE, FALSE):
            one(prog, rep, 'scale_axis', 'scale_axis scalecenter=%s' % show(sc), dict(ax=ax, factor=L(f2, f0), scalecenter=sc), G(active=act), (2, 0))
        one(prog, rep, 'down_sample', 'down_sample', dict(ax=ax, factor=L(f2, f0), mode=K('sum')), G(active=act), (2, 0), integers=(f2, f0))
    for ip in (TRUE, FALSE):
        for a, keep in ((ax, (1,)), (L(K(1)), (0, 2))):
            for mode in ('sum', 'average'):
                one(prog, rep, 'collapse_dimension', 'collapse_dimension %s in_place=%s' % (show(a), show(ip)), dict(ax=a, in_place=ip, weights=NONE, mode=K(mode)), G(), keep=keep)
        src = G(tag='s', props=1)
        one(prog, rep, 'convolve', 'convolve in_place=%s' % show(ip), dict(source=P('source'), ax=ax, pad=L(K(2), K(1)), in_place=ip), G(), others=[(P('source'), src)])
        one(prog, rep, 'power_spectrum', 'power_spectrum in_place=%s' % show(ip), dict(ax=ax, cross_grid=NONE, in_place=ip), G())
        one(prog, rep, 'sum_properties', 'sum_properties in_place=%s' % show(ip), dict(in_place=ip, properties=L(K(1), K(0))), G())
    one(prog, rep, 'copy', 'copy', dict(properties=NONE), G())
    one(prog, rep, 'copy', 'copy of one property', dict(properties=L(K(1))), G())
    one(prog, rep, 'copy_axes', 'copy_axes', dict(n_properties=K(1)), G(), active=False)
    one(prog, rep, 'fourier_transform', 'fourier_transform', dict(ax=ax), G())
    one(prog, rep, 'add_new_prop', 'add_new_prop', dict(value=NONE), G())


def one(prog, rep, meth, con, binds, g, touched=None, keep=None, others=(), integers=(), active=True):
    f, r = grid_spec(prog, meth, g, binds, others=others)
    rep.saw(f)
    for x in normal(r):
        for conds, v in leaves(x.value):
            obj = v if v.op == 'new' or v is SELF else SELF
            if obj.op == 'new':
                st = State(x, obj)
            else:
                st = State(x, SELF, g.heap)
            act = active and st.get('grid_active') is TRUE
            grids = [g] + [o for _, o in others]
            consistency(rep, wh(f), con, st, x, grids, integers=integers, active=act)
            nd = const(st.get('n_dimensions'))
            for i in range(nd if isinstance(nd, int) else 0):
                j = keep[i] if keep is not None and i < len(keep) else i
                if keep is None and (touched is not None and i in touched):
                    continue
                if touched is None and keep is None and meth not in ('power_spectrum', 'sum_properties', 'copy', 'copy_axes', 'fourier_transform', 'add_new_prop'):
                    continue
                same_axis(rep, f, con, st, x, g, grids, i, j, integers)


def same_axis(rep, f, con, st, x, g, grids, i, j, integers):
    """axis i of the result is axis j of the original"""
    ch = choices([st.get(a) for a in ATTRS], x.guards)
    for d in ch or ():
        v = View(grids, d, integers)
        if not v.possible:
            continue
        for a, ref in (('n_pixels', g.N), ('pixel_size', g.d), ('side_length', g.S), ('center_point', g.c)):
            t = st.entry(a, i, v.ax)
            s = v.ax.scalar(t) if t is not None else None
            ok = v.same(s, v.ax.scalar(ref[j])) if s is not None else None
            if ok is not None:
                rep.ob('untouched', '%s %s axis %d' % (con, a, j), ok, wh(f), '%s of untouched axis %d is %r' % (a, j, s))
        for a, ref in (('axes', g.A), ('axes_centers', g.C), ('fourier_axes', g.FE), ('fourier_axes_centers', g.F)):
            t = st.entry(a, i, v.ax)
            u = v.ax.array(t) if t is not None else None
            ok = v.sameu(u, v.ax.array(ref[j]))
            if ok is not None:
                rep.ob('untouched', '%s %s axis %d' % (con, a, j), ok, wh(f), '%s of untouched axis %d runs %r' % (a, j, u))
